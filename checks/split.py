"""Loading and splitting the input (J17): coverage of the source by loop-generalised text intervals, borders by a ghost
that follows the bytes the code looks at, files by an abstract file with a position."""
from engine import build
from engine.dom import *
from engine.interp import *
from engine.interp import put_entry
from . import serial
from .common import Broken

BLANK = (32, 9, 10, 13)
OPENING = (44, 91, 123)
LEN = ('len', 'json')
NUM = ('arg', 'num')


def src_of(v):
    """(object, offset) of the source byte a value is, if it is one"""
    if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        k = atom_key(v.t[0][0])
        if k[0] == 'mem' and k[4] == 1 and k[1] in ('json', 'file'):
            return k[1], k[2]
    return None


class Border:
    """ghost: which source position, if any, has been established as a place for a border"""

    def __init__(self, src):
        self.src, self.n = src, 0

    def init(self, st):
        st.ghost['b'] = 'idle'
        st.gv.update(qpos=C(-1), exp=C(-2))

    def byte(self, st, v):
        s = src_of(v)
        if s is None or s[0] != self.src:
            return v
        q, g, f = s[1], st.gv, st.facts
        if st.ghost['b'] != 'idle' and f.cmp('gt', q, g['qpos']) is not True:
            if st.decide('lt', q, g['qpos']):
                if st.ghost['b'] == 'at':
                    st.ghost['b'] = 'quote' if self.quote(f, g['qpos']) else 'odd'
                return self.back(st, q, v)
            if st.decide('eq', q, g['qpos']):
                return v
        st.ghost['b'] = 'at'
        st.ghost['_in'] = frozenset((n, h) for n, fr in enumerate(st.frames) for h, body in fr.fn.cfg()[3].items() if fr.blk in body)
        st.gv.update(qpos=q, exp=q - C(1))
        return v

    def quote(self, f, q):
        return any(f.value(atom((k, self.src, q, 0, 1), lo, hi)) == 34 for k, lo, hi in (('mem', -128, 127), ('umem', 0, 255)))

    def at_header(self, st, blk):
        """a place that was given up is forgotten, at the latest when the loop that found it goes round"""
        if st.ghost['b'] in ('no', 'odd', 'quote', 'border') and (len(st.frames) - 1, blk) in st.ghost['_in']:
            st.ghost['b'] = 'at'
            st.gv['exp'] = st.gv['qpos'] - C(1)
        if st.ghost.get('eof'):
            # ways to the end of the file are kept apart: they leave the loop at once
            st.ghost['_eof'] = st.ghost.get('_eof', 0) + 1
            if st.ghost['_eof'] < 3:
                self.n += 1
                return ('eof', self.n)

    def back(self, st, q, v):
        b, g, f = st.ghost['b'], st.gv, st.facts
        if b != 'quote':
            return v
        if f.cmp('eq', q, g['exp']) is not True:
            if st.decide('gt', q, g['exp']):
                f.assume_iv(v, 9, 32)
                for x in range(9, 33):
                    if x not in BLANK:
                        f.assume_ne(v, x)
                return v
            if not st.decide('eq', q, g['exp']):
                st.ghost['b'] = 'odd'
                return v
        alts = []
        for x in BLANK:
            def blank(s, x=x):
                if not s.facts.assume_iv(v, x, x):
                    return False
                s.gv['exp'] = q - C(1)
                return True
            alts.append(blank)
        for x in OPENING:
            def border(s, x=x):
                if not s.facts.assume_iv(v, x, x):
                    return False
                s.ghost['b'] = 'border'
                return True
            alts.append(border)

        def other(s):
            for x in BLANK + OPENING:
                if not s.facts.assume_ne(v, x):
                    return False
            s.ghost['b'] = 'no'
            return True
        alts.append(other)
        raise Split(alts)

    def on_load(self, E, st, p, ty):
        if ty.kind != 'int' or ty.size != 1:
            return None
        o = st.obj(p.obj)
        return self.byte(st, Sem.read(st, o, p.off, 1, 'i', p.win))


def peel(st, fr, blk):
    """the first steps of looking back for a border differ from the rest"""
    return 1 if st.ghost['b'] == 'quote' and depth(fr.fn).get(blk, 0) > 1 else 0


class Files:
    """one file of arbitrary size and content with a read position"""

    def __init__(self, border=None):
        self.border = border
        self.size = atom(('fsize',), 0)

    def init(self, st):
        st.mem['file'] = Obj('file', 'sym', None, 'sym', meta={'nonnull': True})
        st.facts.assume_iv(self.size, 0, INF)
        st.gv['fpos'] = ZERO

    def live(self, st, p, what):
        if not isinstance(p, Ptr) or not (st.obj(p.obj).meta or {}).get('file'):
            st.event('badfile', what, st.where())
            raise_end(st, 'badptr')
        if st.obj(p.obj).freed:
            st.event('closedfile', what, st.where())
            raise_end(st, 'badptr')

    def handlers(self):
        def fseek(eng, st, a, i):
            self.live(st, a[0], 'fseek')
            off, wh = lin_of(a[1]), lin_of(a[2])
            st.gv['fpos'] = {0: off, 1: st.gv['fpos'] + off, 2: self.size + off}[wh.c]
            return ZERO

        def rewind(eng, st, a, i):
            self.live(st, a[0], 'rewind')
            st.gv['fpos'] = ZERO

        def ftell(eng, st, a, i):
            self.live(st, a[0], 'ftell')
            return st.gv['fpos']

        def fread(eng, st, a, i):
            self.live(st, a[3], 'fread')
            x, y = lin_of(a[1]), lin_of(a[2])
            n = y.mul(x.c) if x.is_const() else x.mul(y.c) if y.is_const() else None
            if n is None or not isinstance(a[0], Ptr):
                st.event('badptr', 'fread', a[0], st.where())
                raise_end(st, 'badptr')
            pos = st.gv['fpos']
            rest = self.size - pos
            if not st.decide('le', n, rest):
                n = rest
            o = st.obj(a[0].obj)
            if st.facts.cmp('ge', n, ZERO) is True or not st.decide('le', n, ZERO):
                put_entry(st, o, ('x', a[0].off, n, st.mem['file'], pos, a[0].win))
                st.event('filled', a[0].obj, a[0].off + n, st.where())
                st.gv['fpos'] = pos + n
            return n

        def fgetc(eng, st, a, i):
            self.live(st, a[0], 'fgetc')
            pos = st.gv['fpos']
            if not st.decide('lt', pos, self.size):
                st.ghost['eof'] = True
                return C(-1)
            st.ghost['eof'] = False
            v = atom(('mem', 'file', pos, 0, 1), -128, 127)
            u = atom(('umem', 'file', pos, 0, 1), 0, 255)
            if self.border:
                self.border.byte(st, v)
            st.facts.assume_ne(v, 0)
            st.facts.assume_ne(u, 0)
            st.gv['fpos'] = pos + C(1)
            return u

        def realloc(eng, st, a, i):
            if not isinstance(a[0], Ptr):
                raise EngineError('realloc of %s' % (a[0],))
            # the block keeps its content and its name; only its size changes
            o = st.obj(a[0].obj)
            if o.freed:
                st.event('uaf', 'realloc', a[0], st.where())
            st.mem[a[0].obj] = o.rep(size=lin_of(a[1]))
            return a[0]
        return {'fseek': fseek, 'rewind': rewind, 'ftell': ftell, 'fread': fread, 'fgetc': fgetc, 'getc': fgetc, 'realloc': realloc}


class Cover:
    """absorbs the finished chunks of a table and compares them with what is left of the source"""

    def __init__(self, src, fn, end, border, out):
        self.src, self.fn, self.end, self.border, self.out = src, fn, end, border, out
        self.n = 0

    def init(self, st):
        st.gv.update(cov=ZERO, k=ZERO)

    def slot(self, st):
        at = st.gv['k'].mul(8)
        for o in list(st.mem.values()):
            if o.kind != 'heap' or o.freed:
                continue
            for e in reversed(o.ents):
                if e[0] == 'v' and e[2] == 8 and isinstance(e[3], Ptr) and st.mem.get(e[3].obj) is not None and st.mem[e[3].obj].kind == 'heap' and st.facts.cmp('eq', e[1], at) is True:
                    return o, e[3]
        return None

    def absorb(self, st, where):
        s = self.slot(st)
        if s is None:
            return False
        tab, p = s
        st.gv['_tab'] = Ptr(tab.name, ZERO)
        k, cov = st.gv['k'], st.gv['cov']
        self.n += 1
        if tab.size is not None and st.facts.cmp('le', k.mul(8) + C(8), tab.size) is not True:
            self.out('table', 'a chunk is entered behind the end of the chunk table', where, 'chunk %s, table size %s' % (k, tab.size))
        t = cstring(st, p)
        if any(x[0] == 'undef' for x in t):
            self.out('term', 'a chunk is not terminated', where, show_text(t))
        if self.src == 'file':
            t = norm_text([('slice', 'file', 0, src_of(x[1])[1], src_of(x[1])[1] + C(1)) if x[0] == 'ch' and src_of(x[1]) else x for x in t])
        t = merge(st, t)
        if not t:
            # an empty chunk takes nothing away
            st.gv['k'] = k + C(1)
            return True
        if len(t) != 1 or t[0][0] != 'slice' or t[0][1] != self.src:
            if len(t) > 1 and all(x[0] == 'slice' for x in t):
                self.out('bytes', 'bytes are lost or repeated inside a chunk', where, show_text(t))
            elif any(x[0] in ('lit', 'ch') for x in t):
                self.out('bytes', 'a chunk contains bytes that are not in the input', where, show_text(t))
            else:
                self.out('undec', 'text of a chunk not determined: %s' % show_text(t), where, '')
            raise Drop()
        a, b = t[0][3], t[0][4]
        if st.facts.cmp('eq', a, cov) is not True:
            self.out('bytes', 'a chunk does not start where the one before it ends', where, 'starts at %s, input covered up to %s' % (a, cov))
        o = st.obj(p.obj)
        if o.size is not None and st.facts.cmp('ge', o.size, b - a + C(1)) is not True:
            self.out('room', 'a chunk may be longer than its memory', where, 'length %s, size %s' % (b - a, o.size))
        if st.facts.cmp('lt', b, self.end) is not False and st.decide('lt', b, self.end):
            if st.ghost['b'] != 'border' or st.facts.cmp('eq', st.gv['qpos'], b) is not True:
                self.out('border', 'a border lies in front of a byte that does not start a key or value', where, 'border at %s (%s)' % (b, st.ghost['b']))
        elif st.facts.cmp('gt', b, self.end) is not False:
            self.out('bytes', 'a chunk reaches beyond the end of the input', where, 'ends at %s of %s' % (b, self.end))
        st.gv['k'] = k + C(1)
        st.gv['cov'] = b
        return True

    def at_header(self, E, st, fr, blk):
        if fr.fn.name == self.fn.name and len(st.frames) == 1 and depth(fr.fn).get(blk) == 1:
            self.absorb(st, st.where())
            self.border.init(st)
        return self.border.at_header(st, blk)

    def at_end(self, st, stream, num):
        for _ in range(3):
            if not self.absorb(st, self.fn.name):
                break
        if st.facts.cmp('eq', st.gv['cov'], self.end) is not True:
            self.out('bytes', 'the chunks do not cover the whole input', self.fn.name, 'covered up to %s of %s' % (st.gv['cov'], self.end))
        if not isinstance(num, Lin) or st.facts.cmp('eq', num, st.gv['k']) is not True:
            self.out('count', 'the reported number of chunks is not the number of chunks', self.fn.name, 'reported %s, entered %s' % (num, st.gv['k']))
        tab = st.gv.get('_tab')
        if not isinstance(stream, Ptr) or tab is not None and (stream.obj != tab.obj or stream.off != ZERO):
            self.out('count', 'the chunk table is not handed to the caller', self.fn.name, str(stream))


def merge(st, t):
    """joins neighbouring slices that are equal by the known facts, drops empty ones"""
    out = []
    for p in norm_text(t):
        if p[0] == 'slice' and st.facts.cmp('eq', p[3], p[4]) is True:
            continue
        if out and p[0] == 'slice' and out[-1][0] == 'slice' and out[-1][1:3] == p[1:3] and st.facts.cmp('eq', out[-1][4], p[3]) is True:
            out[-1] = ('slice', p[1], p[2], out[-1][3], p[4])
        else:
            out.append(p)
    return tuple(out)


def depth(fn):
    d = getattr(fn, '_depth', None)
    if d is None:
        succ, pred, rpo, loops = fn.cfg()
        d = {}
        for h, body in loops.items():
            d[h] = sum(1 for h2, b2 in loops.items() if h in b2)
        fn._depth = d
    return d


WANT = None


def outputs(rep, fn):
    def out(kind, msg, where, detail):
        if WANT and kind not in WANT:
            return
        if kind == 'undec':
            rep.undec('%s: %s' % (fn, msg))
        else:
            rep.violation('%s/%s: %s' % (fn, kind, msg), msg, where if fn in where else '%s, %s' % (fn, where), detail)
    return out


def events(E, T, out, fn):
    n = 0
    for e, st in E.all_events(T):
        if e[0] == 'acc':
            n += 1
        if e[0] == 'acc' and not (e[4] and e[5]) and e[1] == 'write':
            out('room', 'a byte may be written outside the memory of a chunk or table', e[6], str(e[2]))
        elif e[0] == 'acc' and not e[4]:
            out('room', 'a byte in front of a chunk may be read', e[6], str(e[2]))
        elif e[0] in ('uaf', 'doublefree', 'badfree', 'badptr', 'badfile', 'closedfile'):
            out('use', {'uaf': 'released memory is used', 'doublefree': 'memory is released twice', 'badfile': 'a file that is not there is used', 'closedfile': 'a closed file is used'}.get(e[0], 'a pointer that is not set is used'), str(e[-1]), str(e[1]))
    return n


def files_closed(T, out, fn):
    for st in T:
        for o in st.mem.values():
            if (o.meta or {}).get('file') and not o.freed:
                out('file', 'the file is not closed', fn, 'return at %s' % (st.end[-1],))


def in_memory(rep, P, L):
    fn = P.find('partitionInputStream')
    if fn is None:
        raise Broken('partitionInputStream not found')
    out = outputs(rep, fn.name)
    n = 0
    for many in (False, True):
        border = Border('json')
        cover = Cover('json', fn, atom(LEN), border, out)
        E = Engine(P, serial.txt_handlers(), on_load=border.on_load, nonnull=serial.nonnull, check_oob=True, copies=True, peel=peel, partition=cover.at_header)
        st = State()
        st.mem['json'] = Obj('json', 'sym', None, 'sym', meta={'nonnull': True})
        ln = atom(LEN, 0)
        num = atom(NUM) if many else C(1)
        st.facts.assume_iv(ln, 1, INF)
        st.mem['json'] = st.mem['json'].rep(ents=(('s', ZERO, (('slice', 'json', 0, ZERO, ln),), None),))
        if many:
            st.facts.assume_iv(num, 2, INF)
            q = atom(('sdiv', ln, num))
            st.facts.assume_iv(q, 0, INF)
            st.facts.assume_cmp('lt', q, ln)
        border.init(st)
        cover.init(st)
        args = [Ptr('json', ZERO), num]
        n += finish(rep, E, fn, args, st, cover, out, L)
    return n


def result(st, T_ret, L, ret_obj):
    """(stream, num_chunk) of a returned PartitionInfo"""
    r = T_ret
    if ret_obj is not None:
        o = st.obj(ret_obj)
        return Sem.read(st, o, C(L['PartitionInfo.stream']), 8, 'p'), Sem.read(st, o, C(L['PartitionInfo.num_chunk']), 4, 'i')
    if isinstance(r, Agg):
        return (r.v[0], r.v[1]) if L['PartitionInfo.stream'] == 0 else (r.v[1], r.v[0])
    raise Broken('the partition functions return %s' % (r,))


def finish(rep, E, fn, args, st, cover, out, L):
    ret = None
    if len(fn.params) == len(args) + 1:
        ret = 'ret'
        st.mem['ret'] = Obj('ret', 'sym', C(L['PartitionInfo']), 'undef', meta={'nonnull': True})
        args = [Ptr('ret', ZERO)] + args
    elif len(fn.params) != len(args):
        raise Broken('%s has %d parameters' % (fn.name, len(fn.params)))
    E.start(fn, args, st)
    T = E.run(st)
    done = 0
    for t in T:
        if t.end[0] != 'ret':
            out('use', 'splitting ends abnormally (%s)' % t.end[0], fn.name, str(t.end[-1]))
            continue
        stream, num = result(t, t.ret, L, ret)
        try:
            cover.at_end(t, stream, num)
        except Drop:
            continue
        except Split:
            out('undec', 'the end of the splitting is not determined', fn.name, '')
            continue
        done += 1
    rep.ob('ends of a splitting (path)', done)
    rep.ob('bounded accesses', events(E, T, out, fn.name))
    files_closed(T, out, fn.name)
    rep.saw('functions', fn.name)
    return cover.n


def loading(rep, P, name, bounded):
    fn = P.find(name)
    if fn is None:
        raise Broken(name + ' not found')
    out = outputs(rep, name)
    border = Border('file')
    files = Files(border if bounded else None)
    E = Engine(P, files.handlers(), on_load=border.on_load if bounded else None, nonnull=serial.nonnull, check_oob=True, copies=True, peel=peel, partition=lambda E, st, fr, blk: border.at_header(st, blk))
    st = State()
    files.init(st)
    border.init(st)
    st.mem['name'] = Obj('name', 'sym', None, 'sym', meta={'nonnull': True})
    args = [Ptr('name', ZERO)]
    pos = ZERO
    if bounded:
        pos = atom(('start',), 0)
        st.facts.assume_iv(pos, 0, INF)
        st.mem['pos'] = Obj('pos', 'sym', C(4), 'sym', (('v', ZERO, 4, pos, None),), meta={'nonnull': True})
        args.append(Ptr('pos', ZERO))
    E.start(fn, args, st)
    T = E.run(st)
    kinds = set()
    for t in T:
        if t.end[0] != 'ret':
            out('use', 'loading ends abnormally (%s)' % t.end[0], name, str(t.end[-1]))
            continue
        ev = [e[0] for e in t.events]
        none = t.ret is NULL
        f = t.facts
        rep.ob('ends of a loading (path)')
        if 'fopenfail' in ev:
            kinds.add('missing')
            if not none:
                out('file', 'a missing file is not reported', name, str(t.ret))
            continue
        end = Sem.read(t, t.obj('pos'), ZERO, 4, 'i') if bounded else files.size
        if none:
            kinds.add('exhausted')
            if f.cmp('ge', pos, files.size) is not True:
                out('bytes', 'loading ends although bytes are left', name, 'position %s of %s' % (pos, files.size))
            elif not isinstance(end, Lin) or f.cmp('eq', end, pos) is not True:
                out('bytes', 'the position moves although nothing is loaded', name, str(end))
            continue
        kinds.add('loaded')
        if not isinstance(t.ret, Ptr):
            out('use', 'no text is returned', name, str(t.ret))
            continue
        o = t.obj(t.ret.obj)
        x = cstring(t, t.ret)
        if any(y[0] == 'undef' for y in x):
            out('term', 'a loaded portion is not terminated', name, show_text(x))
            continue
        x = merge(t, [('slice', 'file', 0, src_of(y[1])[1], src_of(y[1])[1] + C(1)) if y[0] == 'ch' and src_of(y[1]) else y for y in x])
        if not x and not bounded:
            if f.cmp('eq', files.size, ZERO) is not True:
                out('bytes', 'nothing is loaded although the file is not empty', name, '')
            continue
        if len(x) != 1 or x[0][0] != 'slice' or x[0][1] != 'file':
            if x and all(y[0] in ('slice', 'lit', 'ch') for y in x):
                out('bytes', 'the loaded bytes are not consecutive bytes of the file', name, show_text(x))
            else:
                out('undec', 'loaded text not determined: %s' % show_text(x), name, '')
            continue
        a, b = x[0][3], x[0][4]
        if f.cmp('eq', a, pos) is not True:
            out('bytes', 'a portion does not start where the one before it ended', name, 'starts at %s, expected %s' % (a, pos))
        if not isinstance(end, Lin) or f.cmp('eq', end, b) is not True:
            out('bytes', 'the new position is not the end of what was loaded', name, 'position %s, loaded up to %s' % (end, b))
        if bounded and f.cmp('gt', b, a) is not True:
            out('bytes', 'an empty portion is loaded', name, '%s to %s' % (a, b))
        if o.size is not None and f.cmp('ge', o.size, b - a + C(1)) is not True:
            out('room', 'a portion may be longer than its memory', name, 'length %s, size %s' % (b - a, o.size))
        if f.cmp('ge', b, files.size) is not True:
            if not bounded:
                out('bytes', 'the file is not loaded completely', name, '%s of %s' % (b, files.size))
            elif t.ghost['b'] != 'border' or f.cmp('eq', t.gv['qpos'], b) is not True:
                out('border', 'a portion ends in front of a byte that does not start a key or value', name, 'at %s (%s)' % (b, t.ghost['b']))
        elif f.cmp('le', b, files.size) is not True:
            out('bytes', 'more is loaded than the file holds', name, '%s of %s' % (b, files.size))
    rep.ob('bounded accesses', events(E, T, out, name))
    files_closed(T, out, name)
    rep.saw('functions', name)
    need = {'missing', 'loaded'} | ({'exhausted'} if bounded else set())
    if not need <= kinds and not rep.viol:
        raise Broken('%s: only %s seen' % (name, sorted(kinds)))


def run(rep, want=None):
    global WANT
    WANT = want
    P = build.program(['JSONQuery/file_partition.c', ('verif_api.c', build.API_TU)])
    L = build.layout({'PartitionInfo': ['stream', 'num_chunk']}, ['<stdio.h>', '"file_partition.h"'])
    n, stopped = 0, None
    for f in (lambda: in_memory(rep, P, L), lambda: loading(rep, P, 'loadBoundedInputStream', True), lambda: loading(rep, P, 'loadInputStream', False)):
        try:
            n += f() or 0
        except EngineError as e:
            stopped = e
            rep.undec('analysis stopped: %s' % e)
    if stopped is not None and not rep.viol:
        raise stopped
    rep.rule('Every path of the loading and splitting functions, loops generalised, for input of any size and content: the chunks or portions are compared with consecutive byte ranges of the source.')
    if not n and not rep.viol:
        raise Broken('no chunk was seen')
