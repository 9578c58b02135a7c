"""The token scanner against the JSON token grammar, one call from an arbitrary point between two tokens.

A ghost copy of the grammar is stepped by every load of a new input byte; its mode partitions the paths, its positions
are relational terms like any program value.  What the scanner returns is compared with what the ghost has seen."""
from engine import build
from engine.dom import *
from engine.interp import *
from engine.interp import put_entry
from engine import libc
from . import serial, textfn
from .common import Broken

LCB, RCB, LB, RB, COM, KY, PRI, END = 1, 2, 3, 4, 5, 6, 7, -1
TN = serial.TN
STRUCT = {ord('{'): LCB, ord('}'): RCB, ord('['): LB, ord(']'): RB, ord(','): COM}
WS = [32, 9, 10, 13]
LEN = ('len', 'json')
START = ('start', 'json')


def ch(off):
    return atom(('mem', 'json', off, 0, 1), -128, 127)


def setmode(m, **gv):
    def f(st):
        st.ghost['m'] = m
        for k, v in gv.items():
            st.gv[k] = v
    return f


class Lex:
    def __init__(self):
        self.P = build.program(['JSONQuery/lexing.c', 'JSONQuery/utility.c', ('verif_api.c', build.API_TU)])
        self.L = build.layout({'Lexer': serial.LAYOUT['Lexer'], 'Token': serial.LAYOUT['Token']},
                              ['<stdio.h>', '<stdlib.h>', '<string.h>', '"lexing.h"'])
        self.fn = self.P.find('nextToken', prefer='lexing')
        if self.fn is None:
            raise Broken('nextToken not found')

    # ---- the ghost grammar
    def on_load(self, E, st, p, ty):
        if p.obj != 'json' or ty.size != 1:
            return None
        off, pos = p.off, st.gv['pos']
        lo, hi = st.facts.bounds(off - pos)
        if lo == hi and lo not in (INF, -INF):
            off = pos + C(int(lo))
        if off == pos:
            return self.advance(E, st, pos)
        if st.decide('lt', off, pos):
            return self.reread(st, off)
        if st.decide('gt', off, pos):
            st.event('gap', off, pos, st.ghost['m'], st.where())
            raise Drop()
        return self.advance(E, st, pos)

    def reread(self, st, off):
        """facts the ghost has about a byte that was looked at before"""
        m, g, f = st.ghost['m'], st.gv, st.facts
        if f.cmp('ge', off, atom(LEN)) is True:
            return ZERO if st.decide('eq', off, atom(LEN)) else ch(off)
        if st.ghost.get('s'):
            d = g['qp'] - off
            run = g['prun']
            if not st.decide('lt', d, C(1)):
                if st.decide('le', d, run):
                    f.assume_iv(ch(off), 92, 92)
                elif st.decide('eq', d, run + C(1)):
                    f.assume_ne(ch(off), 92)
                    if all(c % 2 == 0 for _, c in d.t) and 'qpar' in st.ghost and (d.c + 1 - st.ghost['qpar']) % 2:
                        raise Drop()          # the run of backslashes has the other parity
        if m == 'prim' or m == 'done' and st.ghost['kind'] == PRI and not st.ghost.get('s'):
            end = g['pos'] if m == 'prim' else g['te']
            if f.cmp('lt', off, end) is True and f.cmp('ge', off, g['ts']) is True:
                f.assume_iv(ch(off), 43, 117)
                for x in (44, 93):
                    f.assume_ne(ch(off), x)
        if m == 'done' and st.ghost.get('lk') and st.ghost['kind'] == PRI:
            if f.cmp('eq', off, g['look']) is not False and st.decide('eq', off, g['look']):
                f.assume_iv(ch(off), 44, 125)
                f.assume_ne(ch(off), 58)
        return ch(off)

    def advance(self, E, st, pos):
        m = st.ghost['m']
        if m == 'done' and st.ghost.get('lk'):
            return self.reread(st, pos)
        n = atom(LEN)
        if not st.decide('lt', pos, n):
            if not st.decide('eq', pos, n):
                st.event('past', pos, m, st.where())
                raise Drop()
            if m in ('prim', 'str/0', 'str/1'):
                raise Drop()          # not a complete JSON object or array
            if m == 'after':
                self.found(st, PRI, st.gv['te'], look=pos)
            return ZERO
        alts = []
        c = ch(pos)

        def alt(vals, f, rng=None, exclude=()):
            def g(st2, vals=vals):
                lo, hi = vals
                if not st2.facts.assume_iv(c, lo, hi):
                    return False
                for x in exclude:
                    if not st2.facts.assume_ne(c, x):
                        return False
                st2.gv['pos'] = pos + C(1)
                f(st2)
                return True
            alts.append(g)
        nop = lambda s: None
        if m == 'out':
            for x, k in STRUCT.items():
                alt((x, x), lambda s, k=k: (s.gv.update(ts=pos), self.found(s, k, pos + C(1))))
            for w in WS:
                alt((w, w), nop)
            alt((34, 34), lambda s: (s.ghost.update(m='str/0', s=1), s.gv.update(ts=pos, run=ZERO, prun=ZERO, qp=pos)))
            for r in ((45, 45), (48, 57), (ord('f'), ord('f')), (ord('n'), ord('n')), (ord('t'), ord('t'))):
                alt(r, lambda s: (s.ghost.update(m='prim'), s.gv.update(ts=pos)))
        elif m in ('str/0', 'str/1'):
            odd = m == 'str/1'
            run = st.gv['run']

            def step(s):
                s.gv.update(qp=pos, prun=run)
                s.ghost['qpar'] = int(odd)
            if odd:
                alt((34, 34), lambda s: (step(s), s.ghost.update(m='str/0'), s.gv.update(run=ZERO)))
            else:
                alt((34, 34), lambda s: (step(s), s.ghost.update(m='after'), s.gv.update(te=pos + C(1))))
            alt((92, 92), lambda s: (step(s), s.ghost.update(m='str/0' if odd else 'str/1'), s.gv.update(run=run + C(1))))
            alt((-128, 127), lambda s: (step(s), s.ghost.update(m='str/0'), s.gv.update(run=ZERO)), exclude=(0, 34, 92))
        elif m == 'prim':
            for r in ((43, 43), (45, 46), (48, 57), (69, 69), (97, 117)):
                alt(r, nop)
            for x in (ord('}'), ord(']'), ord(',')):
                alt((x, x), lambda s: (s.gv.update(te=pos), self.found(s, PRI, pos, look=pos)))
            for w in WS:
                alt((w, w), lambda s: (s.gv.update(te=pos), self.found(s, PRI, pos)))
        elif m == 'after':
            for w in WS:
                alt((w, w), nop)
            alt((58, 58), lambda s: self.found(s, KY, pos + C(1)))
            for x in (ord('}'), ord(']'), ord(',')):
                alt((x, x), lambda s: self.found(s, PRI, s.gv['te'], look=pos))
        elif m == 'done':
            for w in WS:
                alt((w, w), nop)
            alt((-128, 127), lambda s: (s.ghost.update(lk=1), s.gv.update(look=pos)), exclude=WS + [0])
        else:
            raise Broken('ghost mode %s' % m)
        raise Split(alts)

    def found(self, st, kind, nmin, look=None):
        st.ghost['m'] = 'done'
        st.ghost['kind'] = kind
        st.gv['nmin'] = nmin
        if kind not in (KY, PRI):
            st.gv['te'] = nmin
        if look is not None:
            st.ghost['lk'] = 1
            st.gv['look'] = look

    def on_arith(self, E, st, op, a, b):
        """the parity of a number that equals the length of the current backslash run is the ghost's parity"""
        if not ((op in ('srem', 'urem') and b == C(2)) or (op == 'and' and b == C(1))) or not isinstance(a, Lin) or a.is_const():
            return None
        if 'qpar' not in st.ghost:
            return None
        for name, par in (('prun', st.ghost['qpar']), ('run', {'str/0': 0, 'str/1': 1}.get(st.ghost['m']))):
            if par is None or not isinstance(st.gv[name], Lin):
                continue
            d = a - st.gv[name]
            lo, hi = st.facts.bounds(d)
            if lo == hi:
                return C((par + int(lo)) % 2)
        return None

    def initial(self):
        L = self.L
        st = State()
        n = atom(LEN, 0)
        s = atom(START, 0)
        st.facts.assume_iv(n, 0, INF)
        st.facts.assume_iv(s, 0, INF)
        st.facts.assume_cmp('le', s, n)
        cp = atom(('cp', 'json'), 0)
        st.mem['json'] = Obj('json', 'sym', None, 'sym')
        st.mem['content'] = Obj('content', 'sym', None, 'sym', meta={'nonnull': True})
        ents = []
        for f, v in (('current_pointer', Ptr('json', cp)), ('current_start', Ptr('json', atom(('cs', 'json')))), ('next_start', Ptr('json', s)),
                     ('begin_stream', Ptr('json', ZERO)), ('end_stream', Ptr('json', n)), ('content', Ptr('content', ZERO))):
            ents.append(('v', C(L['Lexer.' + f]), 8, v, None))
        ents.append(('v', C(L['Lexer.lex_state']), 4, ZERO, None))
        st.mem['lx'] = Obj('lx', 'sym', C(L['Lexer']), 'sym', tuple(ents), meta={'nonnull': True})
        st.ghost.update(m='out')
        st.gv.update(pos=s, ts=ZERO, te=ZERO, nmin=ZERO, look=ZERO, run=ZERO, prun=ZERO, qp=ZERO)
        return st

    def engine(self):
        H = serial.txt_handlers()
        self.extra = textfn.extra_terminator(self.P)

        def strcopy(eng, st, a, i):
            r = libc.strcpy(eng, st, (a[1], a[0]), i)
            if self.extra:
                t = libc.text_of(eng, st, a[0])
                put_entry(st, st.obj(a[1].obj), ('v', a[1].off + text_len(t) + C(1), 1, ZERO, a[1].win))
            return r
        H['strcopy'] = strcopy
        E = Engine(self.P, H, on_load=self.on_load, nonnull=serial.nonnull)
        E.on_arith = self.on_arith
        return E

    def run(self):
        E = self.engine()
        st = self.initial()
        args = [Ptr('lx', ZERO)]
        if len(self.fn.params) != 1:
            raise Broken('nextToken has %d parameters' % len(self.fn.params))
        E.start(self.fn, args, st)
        T = E.run(st)
        return E, T

    # ---- comparison
    def check(self, out):
        E, T = self.run()
        L = self.L
        n = atom(LEN)
        count = {}
        for e, st in E.all_events(T):
            if e[0] == 'gap':
                out('order', 'skips an input byte in mode %s' % e[3], e[4], 'byte %s is looked at before byte %s' % (e[1], e[2]))
            elif e[0] == 'past':
                out('past', 'looks at bytes after the end of the text', e[3], 'byte %s' % (e[1],))
            elif e[0] in ('badptr', 'uaf', 'undef'):
                out('past', 'uses an undefined value or pointer', str(e[-1]), str(e[:2]))
        for st in T:
            if st.end[0] != 'ret':
                out('kind', 'scanning ends abnormally (%s)' % st.end[0], str(st.end[-1]), '')
                continue
            m = st.ghost['m']
            r = st.ret
            if not isinstance(r, Agg):
                raise Broken('nextToken returns %s' % r)
            content, kind = r.v[0], r.v[1]
            if kind is UNDEF:
                out('kind', 'a token without a kind is returned', 'nextToken', 'scanner mode %s' % m)
                continue
            kind = lin_of(kind)
            k = st.facts.value(kind) if not kind.is_const() else kind.c
            pos = st.gv['pos']
            what = 'mode %s' % m if m != 'done' else TN[st.ghost['kind']]
            count[what] = count.get(what, 0) + 1
            if k == END:
                if m == 'done':
                    out('kind', 'a complete %s is not reported' % TN[st.ghost['kind']], 'nextToken', '')
                elif st.facts.cmp('ge', pos, n) is not True:
                    out('end', 'the end is reported before all bytes have been looked at (%s)' % m, 'nextToken', 'position %s of %s' % (pos, n))
                continue
            if m != 'done':
                out('kind', '%s is reported although %s' % (TN.get(k, k), {'out': 'no token has been seen', 'after': 'it is not yet known whether the string is a key'}.get(m, 'the token is not complete')), 'nextToken', 'scanner mode %s' % m)
                continue
            want = st.ghost['kind']
            if k != want:
                out('kind', '%s is reported as %s' % (TN[want], TN.get(k, k)), 'nextToken', '')
                continue
            lx = st.obj('lx')

            def field(f, ty):
                return Sem.read(st, lx, C(L['Lexer.' + f]), 8 if ty == 'p' else 4, ty)
            ns = field('next_start', 'p')
            if not isinstance(ns, Ptr) or ns.obj != 'json':
                out('next', 'the next scan does not start in the text', 'nextToken', 'after %s: %s' % (what, ns))
            else:
                hi = st.gv['look'] if st.ghost.get('lk') else pos
                if st.facts.cmp('ge', ns.off, st.gv['nmin']) is not True:
                    out('next', 'after %s the next scan starts before its end' % what, 'nextToken', 'next start %s, end of token %s' % (ns.off, st.gv['nmin']))
                elif st.facts.cmp('le', ns.off, hi) is not True:
                    out('next', 'after %s the next scan starts behind the next token' % what, 'nextToken', 'next start %s, next token at %s' % (ns.off, hi))
            ls = field('lex_state', 'i')
            if not isinstance(ls, Lin) or st.facts.cmp('eq', ls, ZERO) is not True:
                out('next', 'after %s the next scan starts in a state other than the initial one' % what, 'nextToken', str(ls))
            for f, o, w in (('begin_stream', 'json', ZERO), ('end_stream', 'json', n), ('content', 'content', ZERO)):
                v = field(f, 'p')
                if not isinstance(v, Ptr) or v.obj != o or st.facts.cmp('eq', v.off, w) is not True:
                    out('next', 'the scanner field %s is changed' % f, 'nextToken', str(v))
            if k in (KY, PRI):
                ts, te = st.gv['ts'], st.gv['te']
                if not isinstance(content, Ptr):
                    out('text', '%s is reported without text' % what, 'nextToken', str(content))
                    continue
                t = cstring(st, content)
                if any(p[0] in ('bad', 'cstr', 'undef', 'copy') for p in t):
                    if any(p[0] == 'cstr' and p[1] == 'content' or p[0] == 'undef' for p in t):
                        out('text', 'the text of %s is not (completely) set' % what, 'nextToken', show_text(t))
                    else:
                        out('undec', 'text of %s not determined: %s' % (what, show_text(t)), 'nextToken', '')
                    continue
                inner = ('slice', 'json', 0, ts + C(1), te - C(1))
                if k == KY:
                    ok = serial.text_eq(st, t, (inner,))
                    w = (inner,)
                elif st.ghost.get('s'):
                    w = (('lit', b'"'), inner, ('lit', b'"'))
                    ok = serial.text_eq(st, t, w) or serial.text_eq(st, t, (('slice', 'json', 0, ts, te),))
                else:
                    w = (('slice', 'json', 0, ts, te),)
                    ok = serial.text_eq(st, t, w)
                if not ok:
                    out('text', 'the text of %s is not an exact copy' % ('a key' if k == KY else 'a string' if st.ghost.get('s') else 'a primitive'), 'nextToken',
                        'text %s, source %s' % (show_text(t), show_text(w)))
        return count, E

    def init(self, out):
        f = self.P.find('initLexer')
        if f is None:
            raise Broken('initLexer not found')
        E = Engine(self.P, serial.txt_handlers(), nonnull=serial.nonnull)
        st = State()
        st.mem['json'] = Obj('json', 'sym', None, 'sym')
        E.start(f, [Ptr('lx', ZERO), Ptr('json', ZERO)], st)
        T = E.run(st)
        n = 0
        for st in T:
            if st.end[0] != 'ret':
                out('next', 'scanner initialisation ends abnormally', 'initLexer', str(st.end))
                continue
            n += 1
            lx = st.obj('lx')
            full = text_len((('cstr', 'json', 0, ZERO),))
            for fl, w in (('begin_stream', ZERO), ('next_start', ZERO), ('end_stream', full)):
                v = Sem.read(st, lx, C(self.L['Lexer.' + fl]), 8, 'p')
                if not isinstance(v, Ptr) or v.obj != 'json' or v.off != w:
                    out('next', 'a new scanner does not cover the whole text', 'initLexer', '%s is %s' % (fl, v))
            if Sem.read(st, lx, C(self.L['Lexer.lex_state']), 4, 'i') != ZERO:
                out('next', 'a new scanner does not start in the initial state', 'initLexer', '')
            v = Sem.read(st, lx, C(self.L['Lexer.content']), 8, 'p')
            if not isinstance(v, Ptr) or v.obj == 'json' or st.obj(v.obj).kind != 'heap':
                out('next', 'a new scanner has no text buffer of its own', 'initLexer', str(v))
        return n


def run(rep, want):
    X = Lex()

    def out(kind, msg, where, detail):
        if kind == 'undec':
            if want('text'):
                rep.undec(msg)
            return
        if want(kind):
            rep.violation('scanner/%s: %s' % (kind, msg), msg, where if 'nextToken' not in where and 'initLexer' not in where else where + ' (lexing)', detail)
    count, E = X.check(out)
    n = X.init(out)
    rep.ob('ways a scan ends (path)', sum(count.values()))
    rep.ob('scanner initialisations', n)
    rep.saw('functions', 'nextToken')
    rep.saw('functions', 'initLexer')
    for k in count:
        rep.saw('tokens', k)
    if len(count) < 7 and not rep.viol:
        raise Broken('only %s were seen' % sorted(count))
    rep.rule('Every path of nextToken from an arbitrary point between two tokens of a text of any length, with loops generalised, is compared with the JSON token grammar stepped by the bytes the code looks at.')
    rep.notes.append('the text is a complete JSON object or array (or a chunk of one that ends between tokens); fixed token buffers are large enough (J23)')
