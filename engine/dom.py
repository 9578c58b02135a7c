"""Abstract values: linear integer terms over atoms, pointers, opaque (value-numbered) expressions."""
from math import gcd

_atoms = {}
_names = []


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t          # tuple of (atom, coef) sorted by atom index
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t

    def add(self, o, k=1):
        if isinstance(o, int):
            return Lin(self.c + o * k, self.t)
        if not o.t:
            return Lin(self.c + o.c * k, self.t)
        d = dict(self.t)
        for a, x in o.t:
            n = d.get(a, 0) + x * k
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Lin(self.c + o.c * k, tuple(sorted(d.items())))

    def __add__(self, o):
        return self.add(o)

    def __sub__(self, o):
        return self.add(o, -1)

    def mul(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def atoms(self):
        return [a for a, _ in self.t]

    def subst(self, m):
        r = Lin(self.c)
        for a, x in self.t:
            v = m.get(a)
            r = r.add(v.mul(x)) if v is not None else r.add(Lin(0, ((a, 1),)), x)
        return r

    def __repr__(self):
        s = []
        for a, x in self.t:
            n = atom_name(a)
            s.append(('+' if x > 0 else '-') + (n if abs(x) == 1 else '%d*%s' % (abs(x), n)))
        if self.c or not s:
            s.append('%+d' % self.c if s else '%d' % self.c)
        r = ''.join(s)
        return r[1:] if r.startswith('+') else r


ZERO = Lin(0)


def C(n):
    return Lin(n)


def atom(key, lo=None, hi=None):
    """value-numbered atom: the same key always gives the same atom; static bounds belong to the key"""
    i = _atoms.get(key)
    if i is None:
        i = len(_names)
        _atoms[key] = i
        _names.append((key, lo, hi))
    return Lin(0, ((i, 1),))


_fresh = [0]


def fresh(label, lo=None, hi=None):
    _fresh[0] += 1
    return atom((label, '#', _fresh[0]), lo, hi)


def atom_key(i):
    return _names[i][0]


def atom_bounds(i):
    return _names[i][1], _names[i][2]


def atom_name(i):
    return key_name(_names[i][0])


def key_name(k):
    if isinstance(k, tuple):
        if len(k) == 3 and k[1] == '#':
            return '%s#%d' % (key_name(k[0]), k[2])
        if k and k[0] == 'mem':
            return '%s[%s]%s' % (key_name(k[1]), k[3], '' if k[2] == 0 else "'%s" % k[2])
        return '(' + ' '.join(key_name(x) for x in k) + ')'
    return str(k)


class Ptr:
    __slots__ = ('obj', 'off', 'win', '_h')

    def __init__(self, obj, off=ZERO, win=None):
        self.obj = obj
        self.off = off
        self.win = win
        self._h = hash((obj, off))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)


class _Single:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NULL = _Single('NULL')
UNDEF = _Single('undef')
TOP = _Single('top')


class Fn:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name, self.mod = name, mod

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '@' + self.name


class Sym:
    """opaque value-numbered expression (floating point, casts of unknown contents, ...)"""
    __slots__ = ('k', '_h')

    def __init__(self, *k):
        self.k = k
        self._h = hash(k)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Sym) and self._h == o._h and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '<' + ' '.join(map(str, self.k)) + '>'


class Cat:
    """64-bit value made of two 32-bit halves"""
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __eq__(self, o):
        return isinstance(o, Cat) and o.lo == self.lo and o.hi == self.hi

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.lo, self.hi))

    def __repr__(self):
        return 'cat(%r,%r)' % (self.lo, self.hi)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'agg%r' % (self.v,)


def norm(l):
    """Lin -> (form tuple, scale, const): l = scale*form + const, form has gcd 1 and positive leading coefficient"""
    if not l.t:
        return None, 0, l.c
    g = 0
    for _, x in l.t:
        g = gcd(g, x)
    if l.t[0][1] < 0:
        g = -g
    if g == 1:
        return l.t, 1, l.c
    return tuple((a, x // g) for a, x in l.t), g, l.c


INF = float('inf')


class Facts:
    """intervals with excluded points on normalised linear forms, plus truth values of opaque predicates"""
    __slots__ = ('iv', 'b')

    def __init__(self, iv=None, b=None):
        self.iv = iv if iv is not None else {}
        self.b = b if b is not None else {}

    def copy(self):
        return Facts(dict(self.iv), dict(self.b))

    def form_iv(self, f):
        r = self.iv.get(f)
        lo, hi, ex = r if r else (-INF, INF, frozenset())
        if len(f) == 1 and f[0][1] == 1:
            l2, h2 = atom_bounds(f[0][0])
            if l2 is not None and l2 > lo:
                lo = l2
            if h2 is not None and h2 < hi:
                hi = h2
        return lo, hi, ex

    def bounds(self, l, depth=2):
        """interval of a linear term"""
        if not l.t:
            return l.c, l.c
        f, s, c = norm(l)
        lo, hi = self._fb(f, depth)
        a, b = lo * s, hi * s
        if a > b:
            a, b = b, a
        return a + c, b + c

    def _fb(self, f, depth):
        lo, hi, _ = self.form_iv(f)
        if len(f) > 1:
            # sum of atom bounds
            l2 = h2 = 0
            for a, x in f:
                al, ah, _ = self.form_iv(((a, 1),))
                if x > 0:
                    l2 += al * x
                    h2 += ah * x
                else:
                    l2 += ah * x
                    h2 += al * x
            if l2 > lo:
                lo = l2
            if h2 < hi:
                hi = h2
        if depth > 0 and (lo == -INF or hi == INF or len(f) > 1):
            at = {a for a, _ in f}
            L = Lin(0, f)
            for g, (gl, gh, _) in list(self.iv.items()):
                if g == f or len(g) < 2 and len(f) > 1 and False:
                    continue
                if g == f:
                    continue
                com = [a for a, _ in g if a in at]
                if not com or len(g) > 4:
                    continue
                gd = dict(g)
                for a in com[:1]:
                    cf = dict(f)[a]
                    cg = gd[a]
                    if cf % cg:
                        continue
                    k = cf // cg
                    rest = L.add(Lin(0, g), -k)
                    if len(rest.t) > len(f) + 1:
                        continue
                    rl, rh = self.bounds(rest, depth - 1) if len(rest.t) <= len(f) else (-INF, INF)
                    if k > 0:
                        nl, nh = rl + k * gl, rh + k * gh
                    else:
                        nl, nh = rl + k * gh, rh + k * gl
                    if nl == nl and nl > lo:
                        lo = nl
                    if nh == nh and nh < hi:
                        hi = nh
        return lo, hi

    def excluded(self, l, v):
        """is l == v impossible by an excluded point?"""
        f, s, c = norm(l)
        if f is None:
            return l.c != v
        d = v - c
        if d % s:
            return True
        return (d // s) in self.form_iv(f)[2]

    def assume_iv(self, l, lo, hi):
        """l in [lo,hi]; False if contradictory"""
        f, s, c = norm(l)
        if f is None:
            return lo <= l.c <= hi
        lo, hi = lo - c, hi - c
        if s < 0:
            lo, hi = -hi, -lo
            s = -s
        if s != 1:
            lo = -(-lo // s) if lo != -INF else lo
            hi = hi // s if hi != INF else hi
        ol, oh, ex = self.form_iv(f)
        nl, nh = max(lo, ol), min(hi, oh)
        while nl in ex:
            nl += 1
        while nh in ex:
            nh -= 1
        if nl > nh:
            return False
        self.iv[f] = (nl, nh, frozenset(e for e in ex if nl < e < nh))
        bl, bh = self._fb(f, 2)
        return bl <= bh

    def assume_ne(self, l, v):
        f, s, c = norm(l)
        if f is None:
            return l.c != v
        d = v - c
        if d % s:
            return True
        d //= s
        lo, hi, ex = self.form_iv(f)
        if lo == hi == d:
            return False
        if d == lo:
            return self.assume_iv(Lin(0, f), lo + 1, hi)
        if d == hi:
            return self.assume_iv(Lin(0, f), lo, hi - 1)
        if lo < d < hi:
            self.iv[f] = (lo, hi, ex | {d})
        return True

    def value(self, l):
        """constant value if determined"""
        if not l.t:
            return l.c
        lo, hi = self.bounds(l)
        return lo if lo == hi else None

    def cmp(self, pred, a, b):
        """True/False/None for a pred b (linear, mathematical)"""
        d = a - b
        if not d.t:
            x = d.c
            return {'eq': x == 0, 'ne': x != 0, 'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0}[pred]
        lo, hi = self.bounds(d)
        if pred in ('eq', 'ne'):
            if lo > 0 or hi < 0 or self.excluded(d, 0):
                return pred == 'ne'
            if lo == hi == 0:
                return pred == 'eq'
            return None
        if pred == 'lt':
            return True if hi < 0 else False if lo >= 0 else None
        if pred == 'le':
            return True if hi <= 0 else False if lo > 0 else None
        if pred == 'gt':
            return True if lo > 0 else False if hi <= 0 else None
        if pred == 'ge':
            return True if lo >= 0 else False if hi < 0 else None

    def assume_cmp(self, pred, a, b):
        d = a - b
        if pred == 'eq':
            return self.assume_iv(d, 0, 0)
        if pred == 'ne':
            return self.assume_ne(d, 0)
        if pred == 'lt':
            r = self.assume_iv(d, -INF, -1)
        elif pred == 'le':
            r = self.assume_iv(d, -INF, 0)
        elif pred == 'gt':
            r = self.assume_iv(d, 1, INF)
        else:
            r = self.assume_iv(d, 0, INF)
        return r


NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}


def _deep(x, m, memo):
    """substitute atoms (index -> Lin) everywhere inside a key or value"""
    if isinstance(x, Lin):
        if not x.t:
            return x
        h = memo.get(x)
        if h is not None:
            return h
        r = Lin(x.c)
        for a, c in x.t:
            v = m.get(a)
            if v is None:
                key, lo, hi = _names[a]
                k2 = _deep(key, m, memo)
                v = Lin(0, ((a, 1),)) if k2 == key else atom(k2, lo, hi)
            r = r.add(v, c) if c == 1 else r.add(v.mul(c))
        memo[x] = r
        return r
    if isinstance(x, tuple):
        y = tuple(_deep(e, m, memo) for e in x)
        return y
    if isinstance(x, Ptr):
        return Ptr(_deep(x.obj, m, memo), _deep(x.off, m, memo), None if x.win is None else _deep(x.win, m, memo))
    if isinstance(x, Sym):
        return Sym(*_deep(x.k, m, memo))
    if isinstance(x, Cat):
        return Cat(_deep(x.lo, m, memo), _deep(x.hi, m, memo))
    if isinstance(x, Agg):
        return Agg(_deep(x.v, m, memo))
    return x


def deep_subst(x, m):
    if not m:
        return x
    return _deep(x, m, {})


def deep_atoms(x, out=None):
    """all atoms occurring in a value, also inside atom keys"""
    if out is None:
        out = set()
    if isinstance(x, Lin):
        for a, _ in x.t:
            if a not in out:
                out.add(a)
                deep_atoms(_names[a][0], out)
    elif isinstance(x, tuple):
        for e in x:
            deep_atoms(e, out)
    elif isinstance(x, Ptr):
        deep_atoms(x.off, out)
        deep_atoms(x.obj, out)
    elif isinstance(x, Sym):
        deep_atoms(x.k, out)
    elif isinstance(x, Cat):
        deep_atoms(x.lo, out)
        deep_atoms(x.hi, out)
    elif isinstance(x, Agg):
        deep_atoms(x.v, out)
    return out
