"""Path-sensitive abstract interpreter over LLVM IR (trace partitioning, affine loop generalisation, no solver).

A state keeps, per memory object, the writes made so far as an ordered log, so that the value of every location is a
linear term over value-numbered atoms.  Undecided comparisons partition the state; loop headers generalise it.
"""
from collections import namedtuple
from math import gcd
from .dom import *
from . import dom

LIMIT_STATES = 60000


def ftoi(v):
    """integer part of a number; whole numbers stay what they are"""
    def whole(x):
        if isinstance(x, Sym):
            if x.k[0] == 'itof':
                return lin_of(x.k[1])
            if x.k[0] == 'fp' and isinstance(x.k[1], (int, float)) and x.k[1] == int(x.k[1]):
                return C(int(x.k[1]))
            if x.k[0] in ('fadd', 'fsub'):
                a, b = whole(x.k[1]), whole(x.k[2])
                if a is not None and b is not None:
                    return a + b if x.k[0] == 'fadd' else a - b
        return None
    w = whole(v)
    return w if w is not None else atom(('ftoi', v))


class EngineError(Exception):
    pass


class Split(Exception):
    """re-execute the current instruction once per alternative; an alternative updates the facts and says if feasible"""

    def __init__(self, alts):
        self.alts = alts


class Drop(Exception):
    """the current path is infeasible or not of interest"""


# ---------------------------------------------------------------------------------------------- memory
# entries: ('v', off, size, value, win) | ('r', off, stride, size, count, beta, value, id) | ('c', off, size, obj, srcoff)
#          ('s', off, text) string copy incl. terminator | ('f', off, size, byte) | ('h', off, size, tag) unknown content
#          ('x', off, count, obj, srcoff) copied range of symbolic length
class Obj:
    __slots__ = ('name', 'kind', 'size', 'dflt', 'ents', 'freed', 'ver', 'meta')

    def __init__(self, name, kind, size=None, dflt='undef', ents=(), freed=False, ver=0, meta=None):
        self.name, self.kind, self.size, self.dflt, self.ents, self.freed, self.ver, self.meta = name, kind, size, dflt, ents, freed, ver, meta

    def rep(self, **k):
        o = Obj(self.name, self.kind, self.size, self.dflt, self.ents, self.freed, self.ver, self.meta)
        for a, b in k.items():
            setattr(o, a, b)
        return o

    def __repr__(self):
        return 'Obj(%s %s %s)' % (key_name(self.name), self.kind, self.ents)


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'loc', 'args', 'ctx', 'allocas', 'inst', 'onret')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.idx, f.prev, f.loc, f.args, f.ctx = self.fn, self.blk, self.idx, self.prev, dict(self.loc), self.args, self.ctx
        f.allocas, f.inst, f.onret = self.allocas, dict(self.inst), self.onret
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'events', 'ghost', 'gv', 'seq', 'lineage', 'ret', 'end', 'trace')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.events = ()
        self.ghost = {}
        self.gv = {}
        self.seq = 0
        self.lineage = ()
        self.ret = None
        self.end = None
        self.trace = ()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.events = self.events
        s.ghost = dict(self.ghost)
        s.gv = dict(self.gv)
        s.seq = self.seq
        s.lineage = self.lineage
        s.ret, s.end, s.trace = self.ret, self.end, self.trace
        return s

    # ---- decisions
    def cmp(self, pred, a, b):
        return self.facts.cmp(pred, a, b)

    def decide(self, pred, a, b):
        r = self.facts.cmp(pred, a, b)
        if r is None:
            n = NEG[pred]
            def mk(p):
                return lambda st: st.facts.assume_cmp(p, a, b)
            if pred == 'eq' or pred == 'ne':
                # split the complement into its two sides only when that is needed later
                pass
            raise Split([mk(pred), mk(n)])
        return r

    def choose(self, key):
        r = self.facts.b.get(key)
        if r is None:
            def mk(v):
                def f(st):
                    st.facts.b[key] = v
                    return True
                return f
            raise Split([mk(True), mk(False)])
        return r

    def event(self, *e):
        self.events = self.events + (e,)

    # ---- memory
    def obj(self, name):
        o = self.mem.get(name)
        if o is None:
            o = Obj(name, 'sym', None, 'sym')
        return o

    def setobj(self, o):
        self.mem[o.name] = o

    def where(self):
        if not self.frames:
            return '?'
        f = self.frames[-1]
        try:
            i = f.fn.blocks[f.blk].instrs[f.idx]
        except IndexError:
            return f.fn.name
        return '%s:%s:%d' % ((i.file or f.fn.file or '?').split('/')[-1], f.fn.name, i.line)


def lin_of(v):
    """any value as a linear term"""
    if isinstance(v, Lin):
        return v
    if v is NULL:
        return ZERO
    return atom(('int', v if not isinstance(v, (Sym, Cat, Ptr, Agg)) else v))


def split_half(v, hi):
    if isinstance(v, Cat):
        return v.hi if hi else v.lo
    if isinstance(v, Lin):
        if v.is_const():
            x = v.c & 0xffffffffffffffff
            x = (x >> 32) if hi else x & 0xffffffff
            return C(x - (1 << 32) if x >= 1 << 31 else x)
        return atom(('half', v, int(hi)))
    if v is UNDEF:
        return UNDEF
    return Sym('half', v, int(hi))


def outside(off, size, win, ewin):
    """the read lies outside the array (window) the entry was written through"""
    while ewin is not None:
        w = win
        while w is not None:
            wd = w[0] - ewin[0]
            if not wd.t and (wd.c >= ewin[1] or wd.c <= -w[1]):
                return True
            w = w[2]
        d = off - ewin[0]
        if not d.t and (d.c >= ewin[1] or d.c + size <= 0):
            return True
        ewin = ewin[2]
    return False


def halves(v):
    if isinstance(v, Cat):
        return v.lo, v.hi
    if v is UNDEF:
        return UNDEF, UNDEF
    if isinstance(v, Lin):
        if v.is_const():
            return split_half(v, False), split_half(v, True)
        return v, ZERO            # a zero-extended 32-bit value
    return None


def halves_op(op, a, b):
    """bit operations that only move 32-bit halves of a 64-bit value around"""
    if op in ('shl', 'lshr'):
        if not (isinstance(b, Lin) and b.is_const() and b.c == 32):
            return None
        if op == 'lshr':
            return halves(a)[1] if a is UNDEF or isinstance(a, Cat) else None
        h = halves(a) if not isinstance(a, (Sym, Ptr)) and a is not NULL else None
        return Cat(ZERO, h[0] if h else lin_of(a))
    x, y = halves(a), halves(b)
    if x is None or y is None:
        return None
    out = []
    for p, q in zip(x, y):
        if op == 'or':
            r = q if p == ZERO else p if q == ZERO else UNDEF if p is UNDEF or q is UNDEF else p if p == q else None
        else:
            one = C(-1)
            r = ZERO if p == ZERO or q == ZERO else q if p == one else p if q == one else UNDEF if p is UNDEF or q is UNDEF else None
        if r is None:
            return None
        out.append(r)
    if out[1] == ZERO:
        return out[0] if out[0] is not UNDEF else Cat(UNDEF, ZERO)
    return Cat(*out)


class Sem:
    """memory semantics shared by the interpreter and the harnesses"""

    @staticmethod
    def relation(st, off, size, eoff, esize, win=None, ewin=None):
        """None (disjoint), ('in', delta), 'part', or raises Split"""
        d = off - eoff
        if not d.t:
            if d.c >= esize or d.c <= -size:
                return None
            if d.c >= 0 and d.c + size <= esize:
                return ('in', d.c)
            return 'part'
        if outside(off, size, win, ewin):
            return None
        w = win
        while w is not None:
            # a plain field accessed against an element of an array it is not part of
            x = eoff - w[0]
            if not x.t and (x.c >= w[1] or x.c + esize <= 0):
                return None
            w = w[2]
        lo, hi = st.facts.bounds(d)
        if lo >= esize or hi <= -size:
            return None
        if lo == hi:
            x = int(lo)
            if x >= 0 and x + size <= esize:
                return ('in', x)
            return 'part'
        g = 0
        for _, c in d.t:
            g = gcd(g, c)
        poss = [x for x in range(-size + 1, esize) if (x - d.c) % g == 0 and lo <= x <= hi]
        if not poss:
            return None
        if len(poss) == 1:
            x = poss[0]
            if st.decide('eq', d, C(x)):
                return ('in', x) if x >= 0 and x + size <= esize else 'part'
            return None
        if size == 1 and esize == 1:
            return ('in', 0) if st.decide('eq', d, ZERO) else None
        if st.decide('lt', d, C(poss[0])):
            return None
        if st.decide('gt', d, C(poss[-1])):
            return None
        return 'part'

    @staticmethod
    def read(st, o, off, size, ty, win=None, noevent=False):
        ents = o.ents
        for k in range(len(ents) - 1, -1, -1):
            e = ents[k]
            t = e[0]
            if t == 'v':
                r = Sem.relation(st, off, size, e[1], e[2], win, e[4])
                if r is None:
                    continue
                if r == 'part':
                    if size == 8 and e[2] < 4 and o.kind == 'local' and not off.t:
                        return Sym('blob', o, off)          # bytes of several members of a union
                    if size == 8:
                        return Cat(Sem.read(st, o, off, 4, 'i'), Sem.read(st, o, off + 4, 4, 'i'))
                    return Sem.dflt(st, o.rep(ver=('mix', k, o.ver), dflt='sym'), off, size, ty)
                if isinstance(e[3], Sym) and e[3].k[0] == 'blob' and (size != 8 or ty != 'i'):
                    return Sem.read(st, e[3].k[1], e[3].k[2] + r[1], size, ty)
                return Sem.extract(e[3], e[2], r[1], size, ty)
            if t == 'c' and off.t and st.facts.cmp('ge', off - e[1], ZERO) is True and st.facts.cmp('le', off - e[1] + size, C(e[2]) if isinstance(e[2], int) else e[2]) is True:
                return Sem.read(st, e[3], e[4] + (off - e[1]), size, ty)
            if t == 'c':
                r = Sem.relation(st, off, size, e[1], e[2], win, None)
                if r is None:
                    continue
                if r == 'part':
                    return Sem.dflt(st, o.rep(ver=('mix', k, o.ver), dflt='sym'), off, size, ty)
                return Sem.read(st, e[3], e[4] + r[1] if isinstance(r[1], int) else e[4], size, ty)
            if t == 's':
                d = off - e[1]
                if outside(off, size, win, e[3]):
                    continue
                ln = text_len(e[2])
                if not d.t and d.c < 0 and -d.c >= size:
                    continue
                lo, hi = st.facts.bounds(d)
                if hi < 0:
                    continue
                if st.decide('lt', d, ZERO):
                    continue
                if st.decide('gt', d, ln):
                    continue
                if d == ln:
                    return ZERO
                return text_char(st, e[2], d)
            if t == 'x':
                d = off - e[1]
                if outside(off, size, win, e[5]):
                    continue
                if st.decide('lt', d, ZERO):
                    continue
                if st.decide('ge', d, e[2]):
                    continue
                return Sem.read(st, e[3], e[4] + d, size, ty)
            if t == 'f':
                d = off - e[1]
                if st.decide('lt', d, ZERO):
                    continue
                if st.decide('ge', d, e[2]):
                    continue
                if e[3] == 0:
                    return NULL if ty == 'p' else ZERO
                return C(e[3]) if size == 1 else atom(('fill', e[3], size))
            if t == 'r':
                d = off - e[1]
                # candidate index
                q = div_exact(d, e[2])
                if q is not None:
                    idx, rem = q, 0
                else:
                    q = div_exact(d - d.c % e[2], e[2]) if True else None
                    if q is None:
                        return Sem.dflt(st, o.rep(ver=('reg', k, o.ver), dflt='sym'), off, size, ty)
                    rem = d.c % e[2]
                    if rem >= e[3]:
                        continue
                    idx = q
                if st.decide('lt', idx, ZERO):
                    continue
                if st.decide('ge', idx, e[4]):
                    continue
                v = deep_subst(e[6], {e[5]: idx})
                return Sem.extract(v, e[3], rem, size, ty)
            if t == 'h':
                if e[1] is not None:
                    d = off - e[1]
                    if st.decide('lt', d, C(-size + 1)):
                        continue
                    if e[2] is not None and st.decide('ge', d, e[2]):
                        continue
                return Sem.dflt(st, o.rep(ver=e[3], dflt='sym', ents=()), off, size, ty)
        return Sem.dflt(st, o, off, size, ty)

    @staticmethod
    def extract(v, esize, delta, size, ty):
        if delta == 0 and size == esize:
            if ty == 'p' and isinstance(v, Lin) and v.is_const() and v.c == 0:
                return NULL
            if ty == 'i' and v is NULL:
                return ZERO
            if ty == 'i' and size == 8 and isinstance(v, Sym) and v.k[0] == 'fp':
                return v
            return v
        if v is UNDEF:
            return UNDEF
        if size == 4 and esize == 8:
            return split_half(v, delta == 4)
        if isinstance(v, Lin) and v.is_const():
            x = (v.c >> (8 * delta)) & ((1 << (8 * size)) - 1)
            if x >= 1 << (8 * size - 1):
                x -= 1 << (8 * size)
            return C(x)
        return atom(('part', v, delta, size))

    @staticmethod
    def dflt(st, o, off, size, ty):
        d = o.dflt
        if d == 'undef':
            return UNDEF
        if d == 'zero':
            return NULL if ty == 'p' else (Sym('fp', 0.0) if ty == 'd' else ZERO)
        if isinstance(d, tuple) and d[0] == 'init':
            return const_read(st, d[1], d[2], off, size, ty)
        if isinstance(d, tuple) and d[0] == 'snap':
            return Sem.read(st, d[1], off, size, ty)
        if o.meta and 'load' in o.meta:
            r = o.meta['load'](st, o, off, size, ty)
            if r is not None:
                return r
        if ty == 'p':
            return Ptr(('ld', o.name, o.ver, off), ZERO)
        if ty == 'd':
            return Sym('memd', o.name, o.ver, off)
        if size == 8 and not (o.meta and o.meta.get('wide')):
            return Cat(Sem.dflt(st, o, off, 4, 'i'), Sem.dflt(st, o, off + 4, 4, 'i'))
        if size == 1:
            return atom(('mem', o.name, off, o.ver, 1), -128, 127)
        return atom(('mem', o.name, off, o.ver, size))


def const_read(st, init, mod, off, size, ty):
    """read from a constant initialiser"""
    if not off.t:
        v = const_at(init, off.c, size, mod)
        if v is not None:
            return v
    b = st.facts.value(off)
    if b is not None:
        v = const_at(init, int(b), size, mod)
        if v is not None:
            return v
    return atom(('const', id(init), off, size), -128 if size == 1 else None, 127 if size == 1 else None) if ty == 'i' else Sym('const', id(init), off, size)


def const_at(init, off, size, mod):
    k = init[0]
    if k == 'zero':
        return ZERO
    if k == 'str':
        s = init[1]
        b = s[off:off + size]
        if len(b) < size:
            b = b + b'\0' * (size - len(b))
        x = int.from_bytes(b, 'little', signed=True)
        return C(x)
    if k == 'agg':
        ty = init[2]
        if ty.kind == 'struct':
            for i in range(len(ty.elems) - 1, -1, -1):
                if ty.offsets[i] <= off:
                    return const_at(init[1][i], off - ty.offsets[i], size, mod)
        else:
            i = off // ty.elem.size
            if 0 <= i < len(init[1]):
                return const_at(init[1][i], off - i * ty.elem.size, size, mod)
        return None
    if off != 0:
        if k == 'c':
            return C((init[1] >> (8 * off)) & ((1 << 8 * size) - 1))
        return None
    if k == 'c':
        return C(init[1])
    if k == 'null':
        return NULL
    if k == 'g':
        return Ptr(('g', init[1]), C(init[2]))
    if k == 'f':
        return Fn(init[1], mod)
    if k == 'fp':
        return Sym('fp', init[1])
    return None


def div_exact(d, k):
    if d.c % k or any(c % k for _, c in d.t):
        return None
    return Lin(d.c // k, tuple((a, c // k) for a, c in d.t))


# ---------------------------------------------------------------------------------------------- texts
# a text is a tuple of parts: ('lit', bytes) | ('slice', objname, ver, start, end) | ('cstr', objname, ver, off) | ('ch', value)
WHOLE = set()       # objects that hold one text, every position used lying inside of it


def part_len(p):
    if p[0] == 'cstr' and p[1] in WHOLE and p[3] != ZERO:
        return atom(('len', ('cstr', p[1], p[2], ZERO)), 0) - p[3]
    if p[0] == 'lit':
        return C(len(p[1]))
    if p[0] == 'slice':
        return p[4] - p[3]
    if p[0] == 'ch':
        return C(1)
    return atom(('len', p), 0)


def text_len(t):
    r = ZERO
    for p in t:
        r = r + part_len(p)
    return r


def text_char(st, t, d):
    pos = ZERO
    for p in t:
        n = part_len(p)
        x = d - pos
        if p[0] == 'lit' and not x.t and 0 <= x.c < n.c:
            b = p[1][x.c]
            return C(b - 256 if b > 127 else b)
        if p[0] == 'ch' and x == ZERO:
            return p[1]
        if p[0] in ('slice', 'cstr') and (st.facts.cmp('lt', x, n) or p is t[-1]):
            if p[0] == 'slice':
                return atom(('mem', p[1], p[3] + x, p[2], 1), -128, 127)
            return atom(('mem', p[1], p[3] + x, p[2], 1), -128, 127)
        pos = pos + n
    return atom(('ch', t, d), -128, 127)


def norm_text(t):
    out = []
    for p in t:
        if p[0] == 'ch' and isinstance(p[1], Lin) and p[1].is_const():
            p = ('lit', bytes([p[1].c & 255]))
        if p[0] == 'lit' and not p[1]:
            continue
        if p[0] == 'slice' and p[3] == p[4]:
            continue
        if out and p[0] == 'lit' and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        elif out and p[0] == 'slice' and out[-1][0] == 'slice' and out[-1][1:3] == p[1:3] and out[-1][4] == p[3]:
            out[-1] = ('slice', p[1], p[2], out[-1][3], p[4])
        else:
            out.append(p)
    return tuple(out)


def cstring(st, ptr):
    """the text stored at ptr up to its terminator"""
    if not isinstance(ptr, Ptr):
        return (('bad', ptr),)
    o = st.obj(ptr.obj)
    return norm_text(_cstr(st, o, ptr.off))


def _cstr(st, o, cur, depth=0):
    parts = []
    for _ in range(4000):
        hit = None
        for k in range(len(o.ents) - 1, -1, -1):
            e = o.ents[k]
            if e[0] == 'h' and e[1] is None:
                return parts + [('cstr', o.name, e[3], cur)]
            if e[0] == 'c' and e[1] is not None and not (cur - e[1]).t and 0 < (cur - e[1]).c < e[2]:
                # a newer copy of the surrounding object
                return parts + list(_cstr(st, e[3], e[4] + (cur - e[1]), depth + 1))
            if e[0] in ('v', 's', 'x', 'c', 'f', 'r', 'h') and (e[1] == cur or st.facts.cmp('eq', e[1], cur)):
                if e[0] == 'v' and e[2] != 1:
                    if isinstance(e[3], Lin) and e[3].is_const():
                        pass
                    else:
                        continue
                hit = e
                break
        if hit is None:
            # inside a wider entry?
            for k in range(len(o.ents) - 1, -1, -1):
                e = o.ents[k]
                d = cur - e[1] if e[1] is not None else None
                if e[0] == 'c' and d is not None and not d.t and 0 <= d.c < e[2]:
                    return parts + list(_cstr(st, e[3], e[4] + d, depth + 1))
                if e[0] == 'v' and d is not None and not d.t and 0 <= d.c < e[2]:
                    v = Sem.read(st, o, cur, 1, 'i')
                    hit = ('v', cur, 1, v, None)
                    break
                if e[0] in ('s', 'x') and d is not None and not d.t and d.c > 0:
                    if e[0] == 's':
                        t = text_drop(e[2], d.c)
                        if t is not None:
                            return parts + list(t)
                    else:
                        hit = ('x', cur, e[2] - d, e[3], e[4] + d, e[5])
                        break
        if hit is None:
            d = o.dflt
            if d == 'sym':
                return parts + [('cstr', o.name, o.ver, cur)]
            if d == 'zero':
                return parts
            if isinstance(d, tuple) and d[0] == 'init':
                if not cur.t and d[1][0] == 'str':
                    s = d[1][1]
                    j = s.find(b'\0', cur.c)
                    return parts + [('lit', s[cur.c:j if j >= 0 else len(s)])]
                if not cur.t and d[1][0] == 'zero':
                    return parts
                return parts + [('cstr', o.name, o.ver, cur)]
            if isinstance(d, tuple) and d[0] == 'snap':
                return parts + list(_cstr(st, d[1], cur, depth + 1))
            return parts + [('undef',)]
        e = hit
        if e[0] == 'v':
            v = e[3]
            if isinstance(v, Lin):
                if e[2] != 1:
                    v = Sem.extract(v, e[2], 0, 1, 'i')
                if st.facts.cmp('eq', v, ZERO):
                    return parts
                parts.append(('ch', v))
            else:
                return parts + [('bad', v)]
            cur = cur + 1
        elif e[0] == 's':
            t = list(e[2])
            end = cur + text_len(e[2])
            last = [x for x in o.ents[o.ents.index(e) + 1:] if x[0] == 'v' and x[2] == 1 and x[1] != cur and x[1] == end - 1]
            if last and t and t[-1][0] == 'slice' and isinstance(last[-1][3], Lin) and last[-1][3].is_const() and last[-1][3].c:
                # the last character was replaced
                t[-1] = t[-1][:4] + (t[-1][4] - 1,)
                t.append(('lit', bytes([last[-1][3].c & 255])))
            parts += t
            cur = end
            # a newer entry may have replaced the terminator
            newer = [x for x in o.ents[o.ents.index(e) + 1:] if x[0] in ('v', 's', 'x', 'c', 'f') and x[1] == cur]
            if not newer:
                return parts
        elif e[0] == 'x':
            n = e[2]
            parts.append(('slice', e[3].name, e[3].ver, e[4], e[4] + n) if plain_text(e[3]) else ('copy', e[3].name, e[4], e[4] + n))
            cur = cur + n
        elif e[0] == 'r':
            if e[2] == 1 and e[3] == 1 and isinstance(e[6], Lin) and len(e[6].t) == 1 and e[6].c == 0 and e[6].t[0][1] == 1:
                key = atom_key(e[6].t[0][0])
                if key[0] == 'mem' and key[4] == 1:
                    so = key[2] - Lin(0, ((e[5], 1),))
                    if e[5] not in deep_atoms(so):
                        parts.append(('slice', key[1], key[3], so, so + e[4]))
                        cur = cur + e[4]
                        continue
            return parts + [('bad', 'region')]
        elif e[0] == 'c':
            # a struct/array copy: continue in the source when it is a string buffer
            sub = _cstr(st, e[3], e[4], depth + 1)
            return parts + list(sub)
        elif e[0] == 'f':
            if e[3] == 0:
                return parts
            return parts + [('bad', 'fill')]
        else:
            return parts + [('cstr', o.name, e[3], cur)]
    return parts + [('bad', 'long')]


def text_drop(t, n):
    t = list(t)
    while n > 0 and t:
        p = t[0]
        if p[0] == 'lit':
            if len(p[1]) <= n:
                n -= len(p[1])
                t.pop(0)
            else:
                t[0] = ('lit', p[1][n:])
                n = 0
        elif p[0] == 'ch':
            n -= 1
            t.pop(0)
        elif p[0] == 'slice':
            t[0] = ('slice', p[1], p[2], p[3] + n, p[4])
            n = 0
        elif p[0] == 'cstr':
            t[0] = ('cstr', p[1], p[2], p[3] + n)
            n = 0
        else:
            return None
    return t


def show_text(t):
    out = []
    for p in t:
        if p[0] == 'lit':
            out.append(repr(p[1].decode('latin1')))
        elif p[0] == 'slice':
            out.append('%s[%s..%s)' % (key_name(p[1]), p[3], p[4]))
        elif p[0] == 'cstr':
            out.append('str(%s%s)' % (key_name(p[1]), '+%s' % p[3] if p[3] != ZERO else ''))
        elif p[0] == 'ch':
            out.append('char(%s)' % p[1])
        else:
            out.append(str(p))
    return ' . '.join(out) or '""'


def canon_copies(st, o):
    """joins bytes copied one by one into one block: 'x' entries whose length is a location of its own at loop headers"""
    out = []
    for e in o.ents:
        if e[0] == 'v' and e[2] == 1 and isinstance(e[3], Lin) and len(e[3].t) == 1 and e[3].c == 0 and e[3].t[0][1] == 1:
            k = atom_key(e[3].t[0][0])
            if k[0] == 'mem' and k[4] == 1 and st.mem.get(k[1]) is not None and st.mem[k[1]].kind == 'sym':
                f = out[-1] if out else None
                if f is not None and f[0] == 'x' and f[3].name == k[1] and f[3].ver == k[3] and \
                        st.facts.cmp('eq', f[1] + f[2], e[1]) is True and st.facts.cmp('eq', f[4] + f[2], k[2]) is True:
                    out[-1] = ('x', f[1], f[2] + C(1), f[3], f[4], f[5])
                else:
                    out.append(('x', e[1], C(1), plain_source(k[1], k[3]), k[2], e[4]))
                continue
        q = one_slice(st, e[2]) if e[0] == 's' else None
        if q is not None:
            n = q[4] - q[3]
            out.append(('v', e[1] + n, 1, ZERO, e[3]))
            out.append(('x', e[1], n, plain_source(q[1], q[2]), q[3], e[3]))
            continue
        out.append(e)
    out = tuple(out)
    return o if out == o.ents else o.rep(ents=out)


def plain_text(o):
    """an object whose only entry says that it holds its own text"""
    return o.dflt == 'sym' and (not o.ents or all(e[0] == 's' and len(e[2]) == 1 and e[2][0][0] == 'slice' and e[2][0][1:3] == (o.name, o.ver) and e[2][0][3] == e[1] for e in o.ents))


def one_slice(st, t):
    """the source range a text is, if it is one"""
    cur = None
    for p in t:
        if p[0] == 'ch':
            b = byte_loc(p[1])
            if b is None or b.obj[0] != 'mem':
                return None
            p = ('slice', b.obj[1], b.obj[2], b.off, b.off + C(1))
        if p[0] != 'slice':
            return None
        if cur is None:
            cur = p
        elif cur[1:3] == p[1:3] and st.facts.cmp('eq', cur[4], p[3]) is True:
            cur = cur[:4] + (p[4],)
        else:
            return None
    return cur


SOURCES = {}


def plain_source(name, ver):
    k = (name, ver)
    if k not in SOURCES:
        SOURCES[k] = Obj(name, 'sym', None, 'sym', (), False, ver)
    return SOURCES[k]


def byte_loc(v):
    """the place of the source byte a value is"""
    if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
        k = atom_key(v.t[0][0])
        if k[0] in ('mem', 'umem') and k[4] == 1:
            return Ptr((k[0], k[1], k[3]), k[2])
    return None


def byte_of(p):
    if p.obj[0] == 'umem':
        return atom(('umem', p.obj[1], p.off, p.obj[2], 1), 0, 255)
    return atom(('mem', p.obj[1], p.off, p.obj[2], 1), -128, 127)


def byte_values(facts, p):
    v = byte_of(p)
    lo, hi = facts.bounds(v)
    return frozenset(x for x in range(max(lo, -128), min(hi, 255) + 1) if not facts.excluded(v, x))


def copy_key(n, e):
    return ('x', n, e[1], e[3].name, e[3].ver, e[4])


# ---------------------------------------------------------------------------------------------- liveness
def liveness(fn):
    if getattr(fn, '_live', None) is not None:
        return fn._live
    succ, pred, rpo, loops = fn.cfg()
    use, defs = {}, {}
    for b in fn.blocks:
        u, d = set(), set()
        for i in b.instrs:
            if i.op == 'phi':
                d.add(i.id)
                continue
            for o in operands(i):
                if o[0] == 'v' and o[1] not in d:
                    u.add(o[1])
            d.add(i.id)
        use[b.id], defs[b.id] = u, d
    phiuse = {b.id: set() for b in fn.blocks}
    for b in fn.blocks:
        for i in b.instrs:
            if i.op == 'phi':
                for p, o in i.x.items():
                    if o[0] == 'v':
                        phiuse[p].add(o[1])
    live_in = {b.id: set() for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.blocks):
            out = set(phiuse[b.id])
            for s in succ[b.id]:
                out |= live_in[s]
            n = use[b.id] | (out - defs[b.id])
            if n != live_in[b.id]:
                live_in[b.id] = n
                ch = True
    # at a header the phis themselves are live when they are used
    fn._live = live_in
    fn._phis = {b.id: {i.id for i in b.instrs if i.op == 'phi'} for b in fn.blocks}
    # control variables: header phis whose ultimate sources are all constants
    fn._ctl = {}
    for h in loops:
        for i in fn.blocks[h].instrs:
            if i.op != 'phi' or i.ty.kind != 'int':
                continue
            seen, work, cs, ok = set(), [('v', i.id)], set(), True
            byid = fn_defs(fn)
            while work and ok:
                o = work.pop()
                if o in seen:
                    continue
                seen.add(o)
                if o[0] == 'c':
                    cs.add(o[1])
                elif o[0] == 'v' and byid[o[1]].op == 'phi':
                    work += list(byid[o[1]].x.values())
                elif o[0] == 'v' and byid[o[1]].op == 'select':
                    work += list(byid[o[1]].ops[1:])
                elif o[0] == 'v' and byid[o[1]].op == 'zext' and is_bool(byid, byid[o[1]].ops[0]):
                    cs |= {0, 1}
                elif o[0] == 'v' and byid[o[1]].op == 'xor' and byid[o[1]].ops[1] == ('c', 1) or \
                        o[0] == 'v' and byid[o[1]].op == 'sub' and byid[o[1]].ops[0] == ('c', 1):
                    work += [x for x in byid[o[1]].ops if x[0] != 'c']
                else:
                    ok = False
            if ok and len(cs) <= 10:
                fn._ctl.setdefault(h, set()).add(i.id)
    return live_in


def is_bool(byid, o):
    i = byid.get(o[1]) if o[0] == 'v' else None
    return i is not None and i.ty.kind == 'int' and i.ty.bits == 1


def fn_defs(fn):
    d = getattr(fn, '_defs', None)
    if d is None:
        d = {i.id: i for b in fn.blocks for i in b.instrs}
        fn._defs = d
    return d


def operands(i):
    r = list(i.ops)
    if i.op == 'gep':
        r += [v[0] for v in i.x[1]]
    elif i.op in ('call', 'invoke'):
        r.append(i.x)
    return r


# ---------------------------------------------------------------------------------------------- loop headers
ONE = C(1)


class Header:
    """generalised abstract state of one loop header partition of one loop instance"""

    def __init__(self, key, base):
        self.key = key
        self.base = base
        self.version = 0
        self.groups = []          # shared difference atoms
        self.loc = {}             # location -> ('lock', Lin over group atoms) | ('own', atom Lin) | ('junk', n)
        self.bounds = {}          # atom index -> [lo, hi]
        self.cand = []            # candidate facts (Lin, lo, hi)
        self.tried = set()
        self.dropped = set()      # base fact keys dropped
        self.regions = {}         # (obj, kind...) -> region description
        self.havoc = {}           # obj -> True
        self.passes = 0
        self.backs = []           # back-edge states of the current version
        self.state = base
        self.widened = set()
        self.rel = 0
        self.bytes = {}        # locations generalised as the position of a source byte


class Engine:
    def __init__(self, prog, handlers=None, **opt):
        self.prog = prog
        self.handlers = dict(handlers or {})
        self.headers = {}
        self.inst = 0
        self.nstates = 0
        self.opt = opt
        self.visited = set()       # (function, block)
        self.calls = {}            # callee -> count of resolved call sites
        self.undefs = []
        self.terminals = []
        self.max_states = opt.get('max_states', LIMIT_STATES)
        self.on_load = opt.get('on_load')
        self.on_arith = opt.get('on_arith')
        self.on_store = opt.get('on_store')
        self.partition = opt.get('partition')
        self.inline_depth = opt.get('inline_depth', 40)
        self.check_oob = opt.get('check_oob', False)
        self.stop_undef = opt.get('stop_undef', False)
        self.loc_seen = set()
        from . import libc
        self.builtins = libc.BUILTINS

    # ---- entry
    def call(self, st, fn, args):
        f = Frame()
        f.fn, f.blk, f.idx, f.prev = fn, 0, 0, None
        f.loc, f.args = {}, tuple(args)
        f.ctx = (st.frames[-1].ctx if st.frames else ()) + (fn.name,)
        f.allocas, f.inst, f.onret = (), {}, None
        st.frames.append(f)

    def start(self, fn, args, st=None):
        st = st or State()
        self.call(st, fn, args)
        return st

    def all_events(self, term):
        """events of finished paths and of completed loop iterations"""
        seen = set()
        for st in list(term) + [b for H in self.headers.values() for b in H.backs]:
            for e in st.events:
                try:
                    if e in seen:
                        continue
                    seen.add(e)
                except TypeError:
                    pass
                yield e, st

    def run(self, states):
        """explore until all paths ended; returns the terminal states"""
        work = list(states) if isinstance(states, (list, tuple)) else [states]
        term = []
        self.term = term
        while work:
            st = work.pop()
            if self.stale(st):
                continue
            self.nstates += 1
            if self.nstates > self.max_states:
                raise EngineError('state limit reached at ' + st.where())
            while True:
                try:
                    nxt = self.step(st)
                except Split as sp:
                    alts = []
                    for a in sp.alts:
                        s2 = st.copy()
                        if a(s2):
                            alts.append(s2)
                    if not alts:
                        break
                    if len(alts) > 1:
                        self.nstates += 1
                    work.extend(alts[1:])
                    st = alts[0]
                    continue
                except Drop:
                    break
                if nxt is None:
                    continue
                if nxt == 'end':
                    term.append(st)
                    break
                if nxt == 'stop':
                    break
                # list of successor states
                work.extend(nxt)
                break
        return [t for t in term if not self.stale(t)]

    def stale(self, st):
        for h, v in st.lineage:
            H = self.headers.get(h)
            if H is None or H.version != v:
                return True
        return False

    # ---- operands
    def val(self, st, fr, o):
        k = o[0]
        if k == 'v':
            v = fr.loc.get(o[1])
            if v is None:
                raise EngineError('no value for %%%d in %s' % (o[1], fr.fn.name))
            return v
        if k == 'a':
            return fr.args[o[1]] if o[1] < len(fr.args) else UNDEF
        if k == 'c':
            return Lin(o[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, fr.fn.module, o)
        if k == 'f':
            return Fn(o[1], fr.fn.module)
        if k == 'undef':
            ty = o[1]
            if ty.kind == 'struct':
                return Agg([UNDEF] * len(ty.elems))
            return UNDEF
        if k == 'fp':
            return Sym('fp', o[1])
        if k == 'zero':
            ty = o[1]
            if ty.kind == 'struct':
                return Agg([ZERO if e.kind == 'int' else NULL for e in ty.elems])
            return ZERO if ty.kind == 'int' else NULL
        if k == 'agg':
            return Agg([self.val(st, fr, x) for x in o[1]])
        return Sym('opaque', o)

    def global_ptr(self, st, mod, o):
        g = self.prog.resolve_global(mod, o[1])
        name = ('g', o[1]) if g is None or not g.internal else ('g', o[1], mod.path.split('/')[-1])
        if name not in st.mem:
            if g is not None and g.init is not None and g.const:
                st.mem[name] = Obj(name, 'const', C(g.ty.size), ('init', g.init, g.module))
            elif g is not None:
                st.mem[name] = Obj(name, 'global', C(g.ty.size), 'sym')
            else:
                st.mem[name] = Obj(name, 'global', None, 'sym')
        return Ptr(name, C(o[2]))

    # ---- memory access
    def load(self, st, p, ty, what='load'):
        if not isinstance(p, Ptr):
            st.event('badptr', what, p, st.where())
            if p is NULL or p is UNDEF:
                raise_end(st, 'badptr')
            return self.fresh_of(ty, ('viabad', p if isinstance(p, (Lin, Sym)) else str(p)))
        o = st.obj(p.obj)
        if ty.kind in ('struct', 'array'):
            vs = []
            n = len(ty.elems) if ty.kind == 'struct' else ty.n
            for i in range(n):
                et = ty.elems[i] if ty.kind == 'struct' else ty.elem
                eo = ty.offsets[i] if ty.kind == 'struct' else i * et.size
                vs.append(self.load(st, Ptr(p.obj, p.off + eo, p.win), et))
            return Agg(vs)
        t = 'p' if ty.kind == 'ptr' else 'd' if ty.kind in ('double', 'float') else 'i'
        if o.freed:
            st.event('uaf', 'read', p, st.where())
        if self.on_load:
            v = self.on_load(self, st, p, ty)
            if v is not None:
                return v
        self.access(st, p, o, ty.size, 'read')
        v = Sem.read(st, o, p.off, ty.size, t, p.win)
        if t == 'p' and isinstance(v, (Lin, Cat)):
            if isinstance(v, Lin) and v.is_const() and v.c == 0:
                return NULL
            if isinstance(v, Lin) and len(v.t) == 1:
                k = atom_key(v.t[0][0])
                if k[0] == 'mem':
                    return Ptr(('ld', k[1], k[3], k[2]), ZERO)
            if isinstance(v, Cat):
                return Ptr(('catp', v), ZERO)
        if t == 'i' and ty.bits == 1 and isinstance(v, Lin):
            pass
        if t == 'd' and isinstance(v, (Lin, Cat)):
            v = Sym('bits', v)
        return v

    def access(self, st, p, o, size, rw):
        if not self.check_oob:
            return
        lo, hi = None, None
        if p.win is not None:
            a = st.cmp('ge', p.off, p.win[0])
            b = st.cmp('le', p.off + size, p.win[0] + p.win[1])
            st.event('acc', rw, p, size, bool(a), bool(b), st.where(), 'win')
        elif o.size is not None:
            a = st.cmp('ge', p.off, ZERO)
            b = st.cmp('le', p.off + size, o.size)
            st.event('acc', rw, p, size, bool(a), bool(b), st.where(), 'obj')

    def store(self, st, p, v, ty):
        if not isinstance(p, Ptr):
            st.event('badptr', 'store', p, st.where())
            if p is NULL or p is UNDEF:
                raise_end(st, 'badptr')
            return
        if ty.kind in ('struct', 'array'):
            for i, x in enumerate(v.v):
                et = ty.elems[i] if ty.kind == 'struct' else ty.elem
                eo = ty.offsets[i] if ty.kind == 'struct' else i * et.size
                self.store(st, Ptr(p.obj, p.off + eo, p.win), x, et)
            return
        o = st.obj(p.obj)
        if o.freed:
            st.event('uaf', 'write', p, st.where())
        if self.on_store:
            if self.on_store(self, st, p, v, ty):
                return
        self.access(st, p, o, ty.size, 'write')
        if isinstance(v, Cat) and ty.size == 8:
            self.put(st, p, 4, v.lo)
            self.put(st, Ptr(p.obj, p.off + 4, p.win), 4, v.hi)
            return
        self.put(st, p, ty.size, v)

    def put(self, st, p, size, v):
        o = st.obj(p.obj)
        put_entry(st, o, ('v', p.off, size, v, p.win))

    def fresh_of(self, ty, key):
        if ty.kind == 'ptr':
            return Ptr(('fr', key), ZERO)
        if ty.kind in ('double', 'float'):
            return Sym('fr', key)
        if ty.kind == 'struct':
            return Agg([self.fresh_of(e, (key, i)) for i, e in enumerate(ty.elems)])
        if ty.kind == 'int':
            if ty.bits == 1:
                return atom(('fr', key), 0, 1)
            return atom(('fr', key))
        return UNDEF

    # ---- one instruction
    def step(self, st):
        fr = st.frames[-1]
        b = fr.fn.blocks[fr.blk]
        if fr.idx == 0:
            self.visited.add((fr.fn.name, fr.blk))
        i = b.instrs[fr.idx]
        op = i.op
        if op == 'phi':
            raise EngineError('phi not executed on entry')
        if op == 'br':
            if len(i.x['succ']) == 1:
                return self.goto(st, fr, i.x['succ'][0])
            c = self.val(st, fr, i.ops[0])
            return self.goto(st, fr, i.x['succ'][0] if self.truth(st, c) else i.x['succ'][1])
        if op == 'switch':
            c = self.val(st, fr, i.ops[0])
            if c is UNDEF:
                st.event('undef', 'switch', st.where())
                if self.stop_undef:
                    raise_end(st, 'undef')
                c = atom(('undefsw', st.where(), st.seq))
            c = lin_of(c)
            for v, t in i.x['cases']:
                if st.decide('eq', c, C(v)):
                    return self.goto(st, fr, t)
            return self.goto(st, fr, i.x['default'])
        if op == 'ret':
            return self.ret(st, fr, i)
        if op in ('call', 'invoke'):
            return self.do_call(st, fr, i)
        if op == 'unreachable':
            st.end = ('unreachable', st.where())
            return 'end'
        if op == 'store':
            v = self.val(st, fr, i.ops[0])
            p = self.val(st, fr, i.ops[1])
            try:
                self.store(st, p, v, i.x)
            except EndPath:
                return 'end'
            fr.idx += 1
            return None
        try:
            v = self.eval(st, fr, i)
        except EndPath:
            return 'end'
        if v is not None:
            fr.loc[i.id] = v
        fr.idx += 1
        return None

    def truth(self, st, c):
        if isinstance(c, Lin):
            if c.is_const():
                return bool(c.c)
            return st.decide('ne', c, ZERO)
        if c is UNDEF:
            st.event('undef', 'branch', st.where())
            if self.stop_undef:
                raise_end(st, 'undef')
            return st.choose(('undefbr', st.where(), st.seq))
        if isinstance(c, Sym):
            return st.choose(c)
        if isinstance(c, Ptr):
            return True
        return st.choose(('truth', str(c)))

    def goto(self, st, fr, blk):
        fn = fr.fn
        prev = fr.blk
        nb = fn.blocks[blk]
        newv = {}
        k = 0
        for i in nb.instrs:
            if i.op != 'phi':
                break
            newv[i.id] = self.val(st, fr, i.x[prev])
            k += 1
        fr.loc.update(newv)
        fr.prev, fr.blk, fr.idx = prev, blk, k
        succ, pred, rpo, loops = fn.cfg()
        # leaving loops
        if fr.inst:
            for h in list(fr.inst):
                if blk not in loops[h[1] if isinstance(h, tuple) else h]:
                    del fr.inst[h]
        if blk in loops:
            return self.header(st, fr, blk, prev in loops[blk] and blk in fr.inst)
        return None

    def ret(self, st, fr, i):
        v = self.val(st, fr, i.ops[0]) if i.ops else None
        for a in fr.allocas:
            st.mem.pop(a, None)
        st.frames.pop()
        if fr.onret:
            v = fr.onret(self, st, v)
        if not st.frames:
            st.ret = v
            st.end = ('ret',)
            return 'end'
        c = st.frames[-1]
        ci = c.fn.blocks[c.blk].instrs[c.idx]
        if v is not None:
            c.loc[ci.id] = v
        if ci.op == 'invoke':
            raise EngineError('invoke')
        c.idx += 1
        return None

    def do_call(self, st, fr, i):
        callee = i.x
        if callee[0] == 'f':
            name = callee[1]
        else:
            cv = self.val(st, fr, callee)
            if isinstance(cv, Fn):
                name = cv.name
            else:
                name = None
        if name and name.startswith('llvm.dbg'):
            fr.idx += 1
            return None
        args = tuple(self.val(st, fr, o) if o[0] != 'meta' else None for o in i.ops)
        h = self.handlers.get(name) if name else None
        if h is None and name and name.startswith('llvm.'):
            h = self.builtins.get(name.rsplit('.p0', 1)[0] if '.p0' in name else name)
            for pre in ('llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'llvm.lifetime', 'llvm.stacksave', 'llvm.stackrestore'):
                if name.startswith(pre):
                    h = self.builtins[pre]
        f = None
        if h is None and name:
            f = self.prog.resolve(fr.fn.module, name)
            if f is not None and f.decl:
                f = None
            if f is None:
                h = self.builtins.get(name)
        if h is not None:
            self.calls[name] = self.calls.get(name, 0) + 1
            try:
                v = h(self, st, args, i)
            except EndPath:
                return 'end'
            if v == 'end':
                return 'end'
            if isinstance(v, Inline):
                return self.push(st, v.fn, v.args)
            if v is not None:
                fr.loc[i.id] = v
            elif i.ty.kind != 'void':
                fr.loc[i.id] = self.fresh_of(i.ty, ('ret', name, st.seq, fr.ctx, i.id))
            st.seq += 1
            fr.idx += 1
            return None
        if f is not None:
            self.calls[name] = self.calls.get(name, 0) + 1
            return self.push(st, f, args)
        st.event('extern', name, args, st.where())
        if i.ty.kind != 'void':
            fr.loc[i.id] = self.fresh_of(i.ty, ('ret', name, st.seq, fr.ctx, i.id))
        st.seq += 1
        fr.idx += 1
        return None

    def push(self, st, f, args):
        if len(st.frames) > self.inline_depth or sum(1 for x in st.frames if x.fn is f) > self.opt.get('recursion', 3):
            raise EngineError('recursion through %s' % f.name)
        st.seq += 1
        self.call(st, f, args)
        return None

    # ---- expressions
    def eval(self, st, fr, i):
        op = i.op
        V = lambda k: self.val(st, fr, i.ops[k])
        if op == 'alloca':
            n = V(0)
            name = ('loc',) + fr.ctx + (i.id,)
            size = lin_of(n).mul(i.x.size) if isinstance(n, Lin) else None
            st.mem[name] = Obj(name, 'local', size, 'undef')
            fr.allocas = fr.allocas + (name,)
            return Ptr(name, ZERO)
        if op == 'load':
            return self.load(st, V(0), i.ty)
        if op == 'gep':
            b = V(0)
            co, var, win = i.x
            off = C(co)
            parts = []
            for (o, scale, bound) in var:
                x = self.val(st, fr, o)
                if x is UNDEF:
                    st.event('undef', 'index', st.where())
                    if self.stop_undef:
                        raise_end(st, 'undef')
                    x = atom(('undefidx', st.where(), st.seq))
                t = lin_of(x).mul(scale)
                parts.append(t)
                off = off + t
            if isinstance(b, Ptr):
                w = b.win
                for co1, nv, sz in win:
                    s = b.off + co1
                    for t in parts[:nv]:
                        s = s + t
                    w = (s, sz, w)
                return Ptr(b.obj, b.off + off, w)
            if b is NULL:
                if off == ZERO:
                    return NULL
                return Sym('nullplus', off)
            return Sym('gep', b, off) if b is not UNDEF else UNDEF
        if op == 'icmp':
            return self.icmp(st, i.x, V(0), V(1), i.ty)
        if op == 'fcmp':
            return self.fcmp(st, i.x, V(0), V(1))
        if op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return self.arith(st, op, V(0), V(1), i.ty)
        if op in ('sext', 'zext', 'trunc'):
            return self.cast(st, op, V(0), i.x, i.ty)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            v = V(0)
            if op == 'inttoptr' and isinstance(v, Lin) and v.is_const() and v.c == 0:
                return NULL
            return v
        if op == 'select':
            return V(1) if self.truth(st, V(0)) else V(2)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = V(0), V(1)
            if op in ('fadd', 'fmul') and repr(b) < repr(a):
                a, b = b, a
            if UNDEF in (a, b):
                return UNDEF
            return Sym(op, a, b)
        if op == 'fneg':
            return Sym('fneg', V(0))
        if op in ('sitofp', 'uitofp'):
            return Sym('itof', V(0))
        if op in ('fptosi', 'fptoui'):
            return ftoi(V(0))
        if op in ('fpext', 'fptrunc'):
            return V(0)
        if op == 'extractvalue':
            v = V(0)
            for ix in i.x:
                if not isinstance(v, Agg):
                    return UNDEF if v is UNDEF else Sym('xv', v, ix)
                v = v.v[ix]
            return v
        if op == 'insertvalue':
            a, x = V(0), V(1)
            return self.insval(a, x, i.x)
        raise EngineError('instruction %s at %s' % (op, st.where()))

    def insval(self, a, x, ix):
        if not ix:
            return x
        l = list(a.v)
        l[ix[0]] = self.insval(l[ix[0]], x, ix[1:])
        return Agg(l)

    def icmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Cat) and isinstance(b, Cat) and pred in ('eq', 'ne'):
            r = st.decide('eq', lin_of(a.lo), lin_of(b.lo)) and st.decide('eq', lin_of(a.hi), lin_of(b.hi))
            return C(int(r == (pred == 'eq')))
        if isinstance(a, Fn) or isinstance(b, Fn):
            r = a == b
            return C(int(r == (pred == 'eq')))
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is NULL or b is NULL:
            if a is NULL and b is NULL:
                return C(int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')))
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    p = {'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge'}.get(pred, pred)
                    return C(int(st.decide(p, a.off, b.off)))
                if pred in ('eq', 'ne'):
                    return C(int(pred == 'ne'))
                return C(int(st.choose(('pcmp', pred, a, b))))
            p, q = (a, b) if isinstance(a, Ptr) else (b, a)
            if q is NULL or (isinstance(q, Lin) and q == ZERO):
                isnull = self.is_null(st, p)
                if pred in ('eq', 'ne'):
                    return C(int(isnull == (pred == 'eq')))
            if isinstance(p, Ptr):
                return C(int(st.choose(('pcmp', pred, repr(a), repr(b)))))
        la, lb = lin_of(a), lin_of(b)
        if pred[0] == 'u' and self.opt.get('small_unsigned'):
            pred = 's' + pred[1:]
        if pred[0] == 'u':
            sp = {'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}[pred]
            na, nb = st.decide('lt', la, ZERO), st.decide('lt', lb, ZERO)
            if na == nb:
                return C(int(st.decide(sp, la, lb)))
            # exactly one is negative: it is the larger one
            r = {'lt': nb, 'le': nb, 'gt': na, 'ge': na}[sp]
            return C(int(r))
        p = {'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge'}.get(pred, pred)
        return C(int(st.decide(p, la, lb)))

    def is_null(self, st, p):
        if not isinstance(p, Ptr):
            return p is NULL
        if p.off != ZERO:
            return False
        o = st.mem.get(p.obj)
        if o is not None and (o.kind in ('local', 'heap', 'const', 'global') or (o.meta and o.meta.get('nonnull'))):
            return False
        k = ('null', p.obj)
        if self.opt.get('nonnull') and self.opt['nonnull'](p.obj):
            return False
        return st.choose(k)

    def fcmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred in ('ord', 'uno', 'true', 'false'):
            return C(int(pred in ('ord', 'true')))
        p = pred[1:]
        p = {'one': 'ne', 'une': 'ne'}.get(pred, p)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.k[0] == 'fp' and b.k[0] == 'fp':
            x, y = a.k[1], b.k[1]
            return C(int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]))
        if a == b:
            return C(int(p in ('eq', 'le', 'ge')))
        if repr(b) < repr(a):
            a, b = b, a
            p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
        return C(int(st.decide(p, atom(('fdiff', a, b)), ZERO)))

    def arith(self, st, op, a, b, ty):
        if self.on_arith:
            r = self.on_arith(self, st, op, a, b)
            if r is not None:
                return r
        if ty.bits == 64 and op in ('and', 'or', 'shl', 'lshr') and (isinstance(a, Cat) or isinstance(b, Cat) or a is UNDEF or b is UNDEF or op == 'shl'):
            r = halves_op(op, a, b)
            if r is not None:
                return r
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return a.off - b.off
            return atom(('pdiff', repr(a), repr(b)))
        if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, Lin):
            return Ptr(a.obj, a.off.add(b, 1 if op == 'add' else -1), a.win)
        la, lb = lin_of(a), lin_of(b)
        if ty.bits == 1 and op in ('and', 'or', 'xor'):
            if la.is_const() and lb.is_const():
                return C({'and': la.c & lb.c, 'or': la.c | lb.c, 'xor': la.c ^ lb.c}[op] & 1)
            x, y = self.truth(st, la), self.truth(st, lb)
            return C(int({'and': x and y, 'or': x or y, 'xor': x != y}[op]))
        if op == 'add':
            return la + lb
        if op == 'sub':
            return la - lb
        if op == 'mul':
            if lb.is_const():
                return la.mul(lb.c)
            if la.is_const():
                return lb.mul(la.c)
            if repr(lb) < repr(la):
                la, lb = lb, la
            return atom(('mul', la, lb))
        if la.is_const() and lb.is_const():
            x, y = la.c, lb.c
            if op in ('sdiv', 'udiv'):
                if y == 0:
                    st.event('divzero', st.where())
                    raise_end(st, 'divzero')
                q = abs(x) // abs(y)
                return C(q if (x < 0) == (y < 0) else -q)
            if op in ('srem', 'urem'):
                if y == 0:
                    st.event('divzero', st.where())
                    raise_end(st, 'divzero')
                r = abs(x) % abs(y)
                return C(-r if x < 0 else r)
            if op == 'and':
                return C(x & y)
            if op == 'or':
                return C(x | y)
            if op == 'xor':
                return C(x ^ y)
            if op == 'shl':
                return C(x << y)
            if op in ('ashr', 'lshr'):
                return C(x >> y if op == 'ashr' or x >= 0 else (x & ((1 << ty.bits) - 1)) >> y)
        if op == 'sdiv' and lb.is_const() and lb.c:
            q = div_exact(la, lb.c) if lb.c > 0 else None
            if q is not None:
                return q
        if op == 'shl' and lb.is_const():
            return la.mul(1 << lb.c)
        if op == 'xor' and lb.is_const() and lb.c == -1:
            return la.mul(-1) - C(1)
        if op in ('sdiv', 'srem', 'udiv', 'urem') and st.cmp('ne', lb, ZERO) is not True:
            z = st.decide('eq', lb, ZERO)
            if z:
                st.event('divzero', st.where())
                raise_end(st, 'divzero')
        if op in ('and', 'or', 'xor') and repr(lb) < repr(la):
            la, lb = lb, la
        lo = hi = None
        if op in ('srem', 'urem') and lb.is_const():
            hi = abs(lb.c) - 1
            lo = 0 if op == 'urem' or st.facts.bounds(la)[0] >= 0 else -hi
        if op == 'and' and lb.is_const() and lb.c >= 0:
            lo, hi = 0, lb.c
        return atom((op, la, lb), lo, hi)

    def cast(self, st, op, v, src, dst):
        if v is UNDEF:
            return UNDEF
        if op == 'trunc':
            if dst.bits == 1:
                if isinstance(v, Lin) and v.is_const():
                    return C(v.c & 1)
                return v
            if isinstance(v, Cat):
                return v.lo if dst.bits == 32 else lin_of(v)
            if isinstance(v, Lin):
                if v.is_const():
                    x = v.c & ((1 << dst.bits) - 1)
                    return C(x - (1 << dst.bits) if x >> (dst.bits - 1) else x)
                if dst.bits >= 32:
                    if src.bits == 64 and len(v.t) == 1 and v.c == 0:
                        k = atom_key(v.t[0][0])
                        if k[0] == 'lshr' and k[2] == C(32):
                            return split_half(k[1], True)
                    return v
                if dst.bits == 8 and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                    k = atom_key(v.t[0][0])
                    if k[0] == 'umem':
                        return atom(('mem',) + k[1:], -128, 127)
                lo, hi = st.facts.bounds(v)
                if lo >= -(1 << (dst.bits - 1)) and hi < 1 << (dst.bits - 1):
                    return v
                if dst.bits == 8 and lo >= 0 and hi <= 255:
                    if st.decide('gt', v, C(127)):
                        return v - C(256)
                    return v
                return atom(('trunc', dst.bits, v), -(1 << (dst.bits - 1)), (1 << (dst.bits - 1)) - 1)
            return v
        if isinstance(v, Lin):
            if op == 'sext':
                if src.bits == 1:
                    return v.mul(-1)
                return v
            if src.bits == 1:
                return v
            if src.bits == 32 and self.opt.get('small_unsigned') and not v.is_const():
                return v
            if st.decide('lt', v, ZERO):
                return v + C(1 << src.bits)
            return v
        if isinstance(v, Sym) and op in ('sext', 'zext'):
            return lin_of(v)
        return v

    # ---------------------------------------------------------------------------------------- loops
    def header(self, st, fr, blk, back):
        live = liveness(fr.fn)
        unroll = self.opt.get('unroll', 0)
        n = 0 if not back else fr.inst.get(('n', blk), 0) + 1
        if unroll:
            # the first iterations are followed one by one, each path on its own
            fr.inst[('n', blk)] = min(n, unroll + 1)
            if n < unroll:
                fr.inst.setdefault(blk, 0)
                keep = live[blk] | fr.fn._phis[blk]
                fr.loc = {k: v for k, v in fr.loc.items() if k in keep}
                return None
        if not back or unroll and n == unroll:
            self.inst += 1
            fr.inst[blk] = self.inst
        inst = fr.inst[blk]
        ctl = fr.fn._ctl.get(blk, ())
        extra = self.partition(self, st, fr, blk) if self.partition else None
        part = tuple(sorted((k, v) for k, v in st.ghost.items() if not k.startswith('_')))
        cv = tuple((k, fr.loc[k].c) for k in sorted(ctl) if isinstance(fr.loc.get(k), Lin) and fr.loc[k].is_const())
        peel = self.opt['peel'](st, fr, blk) if self.opt.get('peel') else 0
        if peel:
            # the first iterations are kept apart from the generalised ones
            fr.inst[('n', blk)] = min(n, peel)
            extra = (extra, min(n, peel))
        elif not unroll:
            fr.inst.pop(('n', blk), None)
        key = (inst, fr.fn.name, blk, cv, part, extra)
        if self.opt.get('copies'):
            for n, o in list(st.mem.items()):
                if o.ents and o.kind in ('heap', 'local'):
                    st.mem[n] = canon_copies(st, o)
        # prune dead locals
        keep = live[blk] | fr.fn._phis[blk]
        fr.loc = {k: v for k, v in fr.loc.items() if k in keep}
        H = self.headers.get(key)
        if H is None:
            H = Header(key, st.copy())
            H.lineage = st.lineage
            self.headers[key] = H
            st.lineage = st.lineage + ((key, 0),)
            H.state = st.copy()
            return None
        H.passes += 1
        if H.version > 40 or H.passes > 4000:
            raise EngineError('loop does not stabilise at %s' % st.where())
        A2 = self.merge(H, st, fr)
        if A2 is None:
            H.backs.append(st)
            return 'stop'
        H.version += 1
        H.backs = []
        # drop headers that were created below the old version
        for k in [k for k, h in self.headers.items() if any(x[0] == key for x in h.lineage)]:
            del self.headers[k]
        A2.lineage = H.lineage + ((key, H.version),)
        H.state = A2.copy()
        H.state.lineage = A2.lineage
        return [A2]

    # locations of a state that may differ between visits of a header
    def locations(self, st, fr):
        L = {}
        for k, v in fr.loc.items():
            L[('l', k)] = v
        for k, v in st.gv.items():
            L[('gv', k)] = v
        return L

    def merge(self, H, S, fr):
        """None if S is an instance of the header state; otherwise the generalised state"""
        A = H.state
        af, bf = A.frames[-1], H.base.frames[-1]
        gatoms = set()
        forced = False
        for v in H.loc.values():
            if v[0] in ('lock', 'own'):
                gatoms |= set(v[1].atoms())
        LA, LS, LB = self.locations(A, af), self.locations(S, fr), self.locations(H.base, bf)
        # memory scalars
        newents = {}
        memA, memS, memB = {}, {}, {}
        fuzzy, late = [], []
        objs = set(A.mem) | set(S.mem)
        moving = {k[1] for k in H.loc if k[0] in ('m', 'x', 'size')}
        for n in objs:
            oa, os_ = A.mem.get(n), S.mem.get(n)
            if oa is os_ and n not in moving:
                continue
            if os_ is None:
                continue
            if oa is None:
                if os_.kind in ('heap', 'const', 'global', 'sym', 'local'):
                    if os_.kind in ('global', 'sym') and os_.ents:
                        oa = Obj(n, os_.kind, os_.size, os_.dflt, (), False, 0, os_.meta)
                        A.mem[n] = oa
                        if n not in H.base.mem:
                            H.base.mem[n] = oa
                    else:
                        continue
            ob = H.base.mem.get(n, oa)
            if (oa.size != os_.size or ('size', n) in H.loc) and isinstance(oa.size, Lin) and isinstance(os_.size, Lin):
                LS[('size', n)], LA[('size', n)], LB[('size', n)] = os_.size, oa.size, ob.size
            if oa.ents == os_.ents and oa.freed == os_.freed and n not in moving:
                continue
            if self.opt.get('copies'):
                ca, cs, cb = ({copy_key(n, e): e for e in q.ents if e[0] == 'x'} for q in (oa, os_, ob))
                for kk, e in cs.items():
                    if set(deep_atoms(e[1])) & gatoms or set(deep_atoms(e[4])) & gatoms:
                        continue
                    LS[kk] = e[2]
                    LA[kk] = ca[kk][2] if kk in ca else ZERO
                    LB[kk] = cb[kk][2] if kk in cb else ZERO
                if any(kk not in cs for kk in ca) and n not in H.havoc:
                    fuzzy.append((n, ('x', None)))
            keysA = {}
            for e in oa.ents:
                if e[0] == 'v':
                    keysA[(e[1], e[2])] = e
            for e in os_.ents:
                if e[0] == 'v' and not (set(deep_atoms(e[1])) & gatoms):
                    kk = ('m', n, e[1], e[2])
                    if H.passes == 1 and (e[1], e[2]) not in keysA:
                        late.append((kk, e, oa))
                        continue
                    LS[kk] = e[3]
                    memS[kk] = e
                    ea = keysA.get((e[1], e[2]))
                    if ea is not None:
                        LA[kk] = ea[3]
                    else:
                        LA[kk] = self.scalar_default(A, oa, e)
                    eb = [x for x in ob.ents if x[0] == 'v' and x[1] == e[1] and x[2] == e[2]]
                    LB[kk] = eb[-1][3] if eb else self.scalar_default(H.base, ob, e)
                elif e not in oa.ents and not (e[0] == 'x' and copy_key(n, e) in LS):
                    fuzzy.append((n, e))
            if os_.freed != oa.freed:
                LA[('freed', n)] = C(int(oa.freed))
                LS[('freed', n)] = C(int(os_.freed))
                LB[('freed', n)] = C(int(ob.freed))
        if self.opt.get('copies'):
            # a value that is one source byte is generalised by the position of that byte
            for k in list(LS):
                if k not in LB or k not in LA:
                    continue
                w = [byte_loc(x[k]) for x in (LA, LS, LB)]
                if all(w) and w[0].obj == w[1].obj == w[2].obj:
                    cur = H.bytes.get(k)
                    if cur is None:
                        cur = H.bytes[k] = byte_values(H.base.facts, w[2])
                    new = byte_values(S.facts, w[1])
                    if not new <= cur:
                        H.bytes[k] = cur | new
                        forced = True
                    LA[k], LS[k], LB[k] = w
                elif k in H.bytes:
                    del H.bytes[k]
                    H.loc[k] = ('junk', len(H.loc))
                    forced = True
        # solve the group/own atoms
        theta = {}
        for k, d in H.loc.items():
            if k not in LS or k not in LB:
                continue
            if d[0] == 'own':
                v = self.diffval(LS[k])
                if v is not None:
                    theta[d[1].t[0][0]] = v
        while True:
            votes = {}
            for k, d in H.loc.items():
                if d[0] != 'lock' or k not in LS:
                    continue
                un = [a for a, c in d[1].t if a not in theta]
                if len(un) != 1:
                    continue
                c = dict(d[1].t)[un[0]]
                r = self.vdiff(LS[k], LB[k])
                if r is None:
                    continue
                rest = Lin(0, tuple((a, x) for a, x in d[1].t if a != un[0])).subst(theta)
                q = r - rest
                q = div_exact(q, abs(c))
                if q is None:
                    continue
                w = votes.setdefault(un[0], {})
                q = q if c > 0 else q.mul(-1)
                w[q] = w.get(q, 0) + 1
            if not votes:
                break
            for a, w in votes.items():
                theta[a] = max(w, key=lambda q: w[q])
        changed = forced
        first_const, first_sym, failed = [], [], []
        defer = False
        for k, vs in LS.items():
            va = LA.get(k)
            if va is None:
                continue
            exp = deep_subst(va, theta) if theta else va
            if same(vs, exp) or (k in H.loc and H.loc[k][0] == 'junk'):
                continue
            d = H.loc.get(k)
            if d is None:
                r = self.vdiff(vs, va)
                if r is None:
                    if k[0] == 'm' and H.passes == 1 and not H.loc and k not in LB:
                        defer = True
                        continue
                    H.loc[k] = ('junk', len(H.loc))
                    changed = True
                elif r.is_const():
                    first_const.append((k, r.c))
                else:
                    first_sym.append((k, r))
            elif d[0] == 'lock':
                failed.append((k, d[1], self.vdiff(vs, LB[k]) if k in LB else None, vs))
                changed = True
            elif d[0] == 'own':
                H.loc[k] = ('junk', len(H.loc))
                changed = True
        while failed:
            k, d, r, vs = failed.pop(0)
            mates = []
            if r is not None:
                for x in list(failed):
                    q = ratio(x[2], r) if x[2] is not None else None
                    if q is not None and x[1] == d.mul(q):
                        mates.append((x[0], q))
                        failed.remove(x)
            if mates:
                # these leave the group together: they keep their relation to each other
                g = fresh('shift')
                ga = g.t[0][0]
                H.groups.append(ga)
                l1, h1 = A.facts.bounds(d)
                l2, h2 = S.facts.bounds(r)
                H.bounds[ga] = [min(0, l1, l2), max(0, h1, h2)]
                for x, q in [(k, 1)] + mates:
                    H.loc[x] = ('lock', g.mul(q))
            else:
                H.loc[k] = ('own', fresh(('own', k[1] if k[0] != 'm' else k[2])))
                self.hull(H, H.loc[k][1].t[0][0], LB[k], vs, S)
        if first_const:
            # memory scalars join only if they behave like counters; others are treated as own values
            g = fresh('iter')
            ga = g.t[0][0]
            H.groups.append(ga)
            H.bounds[ga] = [0, INF]
            base = None
            for k, c in first_const:
                H.loc[k] = ('lock', g.mul(c))
            H.counter = ga
            H.cand_from = (S.facts, ga)
            self.candidates(H, A, S, ga)
            changed = True
        seen = []
        for k, r in first_sym:
            for (r0, g) in seen:
                q = ratio(r, r0)
                if q is not None:
                    H.loc[k] = ('lock', g.mul(q))
                    break
            else:
                g = fresh('shift')
                ga = g.t[0][0]
                H.groups.append(ga)
                f, s, c = norm(r)
                lo, hi = S.facts.bounds(r)
                H.bounds[ga] = [min(0, lo), max(0, hi)]
                H.loc[k] = ('lock', g)
                seen.append((r, g))
            changed = True
        # locations first written inside the loop: counters now, the rest once the addresses have been generalised
        for kk, e, oa in late:
            va = self.scalar_default(A, oa, e)
            r = self.vdiff(e[3], va)
            if changed and not (r is not None and r.is_const() and r.c and isinstance(e[3], Lin)):
                continue
            if same(e[3], va):
                continue
            if r is not None and r.is_const():
                if not H.groups:
                    ga = fresh('iter').t[0][0]
                    H.groups.append(ga)
                    H.bounds[ga] = [0, INF]
                    self.candidates(H, A, S, ga)
                H.loc[kk] = ('lock', Lin(0, ((H.groups[0], r.c),)))
            elif isinstance(va, Lin) and isinstance(e[3], Lin):
                H.loc[kk] = ('own', fresh(('own', kk[2])))
                self.hull(H, H.loc[kk][1].t[0][0], va, e[3], S)
            else:
                H.loc[kk] = ('junk', len(H.loc))
            changed = True
        # regions
        if fuzzy:
            changed |= self.regions(H, A, S, fuzzy, theta, gatoms)
        for (n, off0, c, size), R in H.regions.items():
            if R[2] is None:
                continue
            a = Lin(0, ((R[0], 1),))
            d = theta[R[0]] - a if R[0] in theta else ZERO
            at = off0 + a.mul(c)
            if d == ZERO or d == ONE and any(e[0] == 'v' and e[1] == at and e[2] == size for e in S.obj(n).ents):
                continue
            R[2] = None          # an iteration that leaves (or skips) its cell
            changed = True
        if changed:
            return self.rebuild(H)
        # facts of the header state must follow from S
        weak = False
        for a, (lo, hi) in list(H.bounds.items()):
            v = theta.get(a)
            if v is None:
                continue
            l2, h2 = S.facts.bounds(v)
            nl, nh = lo, hi
            if l2 < lo:
                nl = -INF if (a, 'lo') in H.widened else l2
                H.widened.add((a, 'lo'))
            if h2 > hi:
                nh = INF if (a, 'hi') in H.widened else h2
                H.widened.add((a, 'hi'))
            if (nl, nh) != (lo, hi):
                H.bounds[a] = [nl, nh]
                weak = True
        keep = []
        for (l, lo, hi) in H.cand:
            v = deep_subst(l, theta)
            l2, h2 = S.facts.bounds(v)
            if l2 >= lo and h2 <= hi:
                keep.append((l, lo, hi))
            else:
                weak = True
                # each side gives way on its own, first to what was found, then completely
                if l2 < lo:
                    lo = l2 if (l, 'lo') not in H.widened else -INF
                    H.widened.add((l, 'lo'))
                if h2 > hi:
                    hi = h2 if (l, 'hi') not in H.widened else INF
                    H.widened.add((l, 'hi'))
                if lo != -INF or hi != INF:
                    keep.append((l, lo, hi))
        H.cand = keep
        for f, iv in list(H.base.facts.iv.items()):
            if S.facts.iv.get(f) == iv:
                continue
            l = Lin(0, f)
            l2, h2 = S.facts.bounds(l)
            if l2 >= iv[0] and h2 <= iv[1] and all(S.facts.excluded(l, x) or x < l2 or x > h2 for x in iv[2]):
                continue
            nl, nh = iv[0], iv[1]
            if l2 < nl:
                nl = l2 if (f, 'lo') not in H.widened else -INF
                H.widened.add((f, 'lo'))
            if h2 > nh:
                nh = h2 if (f, 'hi') not in H.widened else INF
                H.widened.add((f, 'hi'))
            ex = frozenset(x for x in iv[2] if S.facts.excluded(l, x) or x < l2 or x > h2)
            if nl == -INF and nh == INF and not ex:
                del H.base.facts.iv[f]
            else:
                H.base.facts.iv[f] = (nl, nh, ex)
            weak = True
        for k, b in list(H.base.facts.b.items()):
            if S.facts.b.get(k) != b:
                del H.base.facts.b[k]
                weak = True
        if not evs_match(A.events, S.events, H):
            if H.key not in [e[1] for e in A.events if e[0] == 'loop']:
                weak = True
                H.star = True
        if not weak:
            weak = self.strengthen(H, A, S, theta)
        if weak:
            return self.rebuild(H)
        return None

    def strengthen(self, H, A, S, theta):
        """facts learnt on the way round, restated for the next iteration, when they also hold on entry"""
        steps = {}
        for a in H.groups:
            v = theta.get(a)
            if v is not None:
                d = v - Lin(0, ((a, 1),))
                if d.is_const():
                    steps[a] = d.c
        add = self.relations(H, A, S, theta) if self.opt.get('copies') else False
        if not steps:
            return add
        for f, (lo, hi, ex) in S.facts.iv.items():
            if A.facts.iv.get(f) == (lo, hi, ex) or len(f) > 5:
                continue
            l = Lin(0, f)
            if not any(a in steps for a in l.atoms()):
                continue
            if any(a in steps for x in l.atoms() for a in deep_atoms(atom_key(x))):
                continue
            c = l.subst({a: Lin(-k, ((a, 1),)) for a, k in steps.items()})
            if c in H.tried:
                continue
            H.tried.add(c)
            at0 = c.subst({a: ZERO for a in H.groups})
            bl, bh = H.base.facts.bounds(at0)
            nl, nh = (lo if bl >= lo else -INF), (hi if bh <= hi else INF)
            if nl == -INF and nh == INF:
                continue
            al, ah = A.facts.bounds(c)
            if al >= nl and ah <= nh:
                continue
            H.cand.append((c, nl, nh))
            add = True
        return add

    def relations(self, H, A, S, theta):
        """facts of S restated over the header's own terms"""
        known = set(H.groups)
        for f in H.base.facts.iv:
            known |= {a for a, _ in f}
        add = False
        for a in H.groups:
            v = theta.get(a)
            if v is None or v == Lin(0, ((a, 1),)):
                continue
            g = Lin(0, ((a, 1),))
            d = v - g
            new = [x for x in d.atoms() if x not in known]
            if not new and d.is_const():
                continue
            for f, (lo, hi, ex) in list(S.facts.iv.items()):
                if len(f) > 6 or lo == -INF and hi == INF:
                    continue
                l = Lin(0, f)
                if d.t and not set(l.atoms()) & set(d.atoms()):
                    continue
                for s in (1, -1):
                    c = l + d.mul(s)
                    c = Lin(0, c.t)
                    k = (l + d.mul(s)).c
                    if not c.t or c in H.tried or H.rel > 20 or any(x not in known or abs(q) > 1 for x, q in c.t):
                        continue
                    H.tried.add(c)
                    bl, bh = H.base.facts.bounds(c.subst({x: ZERO for x in H.groups}))
                    # at S: l in [lo,hi] means c (at the values of S) in ...
                    sl, sh = S.facts.bounds(c.subst(theta))
                    nl, nh = min(bl, sl), max(bh, sh)
                    if nl == -INF and nh == INF:
                        continue
                    al, ah = A.facts.bounds(c)
                    if al >= nl and ah <= nh:
                        continue
                    H.cand.append((c, nl, nh))
                    H.rel += 1
                    add = True
        return add

    def scalar_default(self, st, o, e):
        try:
            ty = 'p' if isinstance(e[3], (Ptr, Fn)) or e[3] is NULL else 'd' if isinstance(e[3], Sym) and e[2] == 8 else 'i'
            return Sem.read(st, o, e[1], e[2], ty)
        except Split:
            return Sym('unread', o.name, e[1])

    def diffval(self, v):
        return v if isinstance(v, Lin) else v.off if isinstance(v, Ptr) else None

    def vdiff(self, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return a - b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return a.off - b.off
        return None

    def hull(self, H, a, v0, vs, S):
        x = self.diffval(v0)
        y = self.diffval(vs)
        l1, h1 = H.base.facts.bounds(x) if x is not None else (-INF, INF)
        l2, h2 = S.facts.bounds(y) if y is not None else (-INF, INF)
        H.bounds[a] = [min(l1, l2), max(h1, h2)]

    def candidates(self, H, A, S, ga):
        """facts of S that may hold at every iteration once shifted by the counter"""
        g = Lin(0, ((ga, 1),))
        for f, (lo, hi, ex) in S.facts.iv.items():
            if A.facts.iv.get(f) == (lo, hi, ex):
                continue
            l = Lin(0, f)
            if len(f) > 4:
                continue
            for s in (-1, 1):
                c = l + (g - C(1)).mul(s)          # at g=1 equal to the fact
                at0 = l - C(s)
                bl, bh = H.base.facts.bounds(at0)
                if lo != -INF and bl >= lo:
                    H.cand.append((c, lo, INF))
                if hi != INF and bh <= hi:
                    H.cand.append((c, -INF, hi))

    def regions(self, H, A, S, fuzzy, theta, gatoms):
        """writes whose address moves with the loop"""
        changed = False
        for n, e in fuzzy:
            if e[0] == 'x' and e[1] is None:
                if n not in H.havoc:
                    H.havoc[n] = True
                    changed = True
                continue
            if e[0] == 'v':
                at = [a for a in e[1].atoms() if a in gatoms]
                handled = False
                if len(at) == 1 and at[0] in H.groups:
                    a = at[0]
                    c = dict(e[1].t)[a]
                    off0 = e[1] - Lin(0, ((a, c),))
                    rk = (n, off0, c, e[2])
                    if a not in theta or theta[a] != Lin(1, ((a, 1),)):
                        rk = None
                    if rk is not None and not (deep_atoms(off0) & gatoms):
                        handled = True
                        R = H.regions.get(rk)
                        beta = atom(('beta', H.key[0], n, off0, c, e[2]))
                        b = beta.t[0][0]
                        val = deep_subst(e[3], {a: beta})
                        oth = [x for x in deep_atoms(val) if x in gatoms]
                        if oth:
                            val = None
                        if R is None:
                            H.regions[rk] = [a, b, val, e[4]]
                            changed = True
                        elif R[2] is not None and not same(R[2], val):
                            R[2] = None
                            changed = True
                if not handled:
                    if n not in H.havoc:
                        H.havoc[n] = True
                        changed = True
            elif e[0] in ('r',) and len(e) > 7 and e[7] == H.key:
                continue
            else:
                if n not in H.havoc:
                    # an entry that is the same at every iteration
                    if not (deep_atoms(e[1]) & gatoms if e[1] is not None else False) and e[0] in ('s', 'c', 'f', 'x', 'r') and not (n, e) in H.havoc:
                        H.havoc[(n, 'e', entkey(e))] = e
                        if H.havoc.get((n, 'done', entkey(e))) is None:
                            H.havoc[(n, 'done', entkey(e))] = True
                            changed = True
                    else:
                        H.havoc[n] = True
                        changed = True
        return changed

    def rebuild(self, H):
        """build the header state from its description"""
        st = H.base.copy()
        fr = st.frames[-1]
        for a, (lo, hi) in H.bounds.items():
            l = Lin(0, ((a, 1),))
            if lo != -INF or hi != INF:
                if not st.facts.assume_iv(l, lo, hi):
                    raise EngineError('empty generalisation')
        for (l, lo, hi) in H.cand:
            st.facts.assume_iv(l, lo, hi)
        tops, copies = [], []
        for k, d in H.loc.items():
            if k[0] == 'l':
                old = fr.loc.get(k[1])
                if old is not None:
                    fr.loc[k[1]] = self.general(H, k, d, old, st)
            elif k[0] == 'gv':
                st.gv[k[1]] = self.general(H, k, d, st.gv[k[1]], st)
            elif k[0] == 'freed':
                pass
            elif k[0] == 'size':
                o = st.obj(k[1])
                v = self.general(H, k, d, o.size)
                st.mem[k[1]] = o.rep(size=v if isinstance(v, Lin) else None)
            elif k[0] == 'x':
                copies.append((k, d))
            else:
                tops.append((k, d))
        for k, d in copies:
            n = k[1]
            o = st.obj(n)
            old = [i for i, e in enumerate(o.ents) if e[0] == 'x' and copy_key(n, e) == k]
            v = self.general(H, k, d, o.ents[old[0]][2] if old else ZERO)
            if not isinstance(v, Lin):
                H.havoc[n] = True
                continue
            e = ('x', k[2], v, plain_source(k[3], k[4]), k[5], o.ents[old[0]][5] if old else None)
            ents = list(o.ents)
            if old:
                ents[old[0]] = e
            else:
                ents.append(e)
            st.mem[n] = o.rep(ents=tuple(ents))
        # regions first, scalars on top
        for (n, off0, c, size), (a, b, val, win) in H.regions.items():
            o = st.obj(n)
            cnt = Lin(0, ((a, 1),))
            if val is None:
                o2 = o.rep(ents=o.ents + (('h', off0, cnt.mul(c), ('hv', H.key[0], n)),)) if c > 0 else o.rep(ents=o.ents + (('h', None, None, ('hv', H.key[0], n)),))
            else:
                o2 = o.rep(ents=o.ents + (('r', off0, c, size, cnt, b, val, H.key),))
            st.mem[n] = o2
        for n in H.havoc:
            if isinstance(n, tuple) and len(n) == 3 and n[1] == 'e':
                o = st.obj(n[0])
                st.mem[n[0]] = o.rep(ents=o.ents + (('h', n[2][1], entsize(H.havoc[n]), ('hv', H.key[0], n[0])),))
                continue
            if isinstance(n, tuple) and len(n) == 3 and n[1] == 'done':
                continue
            o = st.obj(n)
            keepsc = []
            st.mem[n] = o.rep(ents=o.ents + (('h', None, None, ('hv', H.key[0], n, H.version)),))
            # scalars outside the moving part keep their value
            for e in o.ents:
                if e[0] == 'v' and not any(k[0] == 'm' and k[1] == n and k[2] == e[1] for k, _ in tops):
                    keepsc.append(e)
            o = st.mem[n]
            st.mem[n] = o.rep(ents=o.ents + tuple(keepsc))
        for k, d in tops:
            _, n, off, size = k
            o = st.obj(n)
            old = None
            for e in H.base.obj(n).ents:
                if e[0] == 'v' and e[1] == off and e[2] == size:
                    old = e[3]
            if old is None:
                old = self.scalar_default(H.base, H.base.obj(n), ('v', off, size, ZERO, None))
            if old is UNDEF:
                # written in the loop before it is read again
                v = Sym('junk', H.key[0], n, off)
            else:
                v = self.general(H, k, d, old, st)
            put_entry(st, o, ('v', off, size, v, None))
        if H.bytes:
            L = self.locations(st, fr)
            for k, vals in H.bytes.items():
                v = L.get(k) if k[0] != 'm' else next((e[3] for e in st.obj(k[1]).ents if e[0] == 'v' and e[1:3] == k[2:]), None)
                if v is None or not byte_loc(v):
                    continue
                st.facts.assume_iv(v, min(vals), max(vals))
                for x in range(min(vals), max(vals)):
                    if x not in vals:
                        st.facts.assume_ne(v, x)
        if getattr(H, 'star', False):
            st.events = st.events + (('loop', H.key),)
        return st

    def general(self, H, k, d, old, st=None):
        if k in H.bytes and d[0] != 'junk':
            b = byte_loc(old)
            g = self.general1(H, k, d, b)
            if isinstance(g, Ptr) and g.obj == b.obj:
                v = byte_of(g)
                return v
        return self.general1(H, k, d, old)

    def general1(self, H, k, d, old):
        if d[0] == 'lock':
            if isinstance(old, Lin):
                return old + d[1]
            if isinstance(old, Ptr):
                return Ptr(old.obj, old.off + d[1], old.win)
        if d[0] == 'own':
            if isinstance(old, Lin):
                return d[1]
            if isinstance(old, Ptr):
                return Ptr(old.obj, d[1], old.win)
        if isinstance(old, Lin):
            return atom(('junk', H.key[0], H.key[2], k))
        if isinstance(old, (Ptr,)) or old is NULL:
            return Ptr(('junk', H.key[0], H.key[2], k), ZERO)
        return Sym('junk', H.key[0], H.key[2], k)


def entkey(e):
    return (e[0], e[1], e[2] if e[0] in ('s',) else None)


def entsize(e):
    if e[0] == 's':
        return None
    if e[0] in ('c', 'f', 'x'):
        return e[2] if isinstance(e[2], Lin) else C(e[2])
    if e[0] == 'r':
        return e[4].mul(e[2])
    return None


def evs_match(a, s, H):
    return len(a) == len(s)


def same(a, b):
    if a is b:
        return True
    try:
        return a == b
    except Exception:
        return False


def ratio(a, b):
    """a == q*b for an integer q"""
    if not b.t or not a.t:
        return None
    q, r = divmod(a.t[0][1], b.t[0][1])
    if r:
        return None
    return q if a == b.mul(q) else None


class EndPath(Exception):
    pass


class Inline:
    def __init__(self, fn, args):
        self.fn, self.args = fn, args


def raise_end(st, why):
    st.end = (why, st.where())
    raise EndPath()


def put_entry(st, o, e):
    ents = o.ents
    if e[0] == 'v':
        out = []
        for x in ents:
            if x[0] == 'v':
                d = x[1] - e[1]
                if not d.t and d.c >= 0 and d.c + x[2] <= e[2]:
                    continue
            out.append(x)
        ents = tuple(out)
    st.mem[o.name] = o.rep(ents=ents + (e,))
