"""Effects of C library calls on the abstract memory."""
from .dom import *
from . import interp as I


def heap_name(eng, st, fr_ctx, iid):
    base = ('heap',) + fr_ctx + (iid,)
    n = base
    k = 1
    while n in st.mem:
        k += 1
        n = base + ('#%d' % k,)
    return n


def _alloc(eng, st, args, i, size, dflt):
    fr = st.frames[-1]
    n = heap_name(eng, st, fr.ctx, i.id)
    st.mem[n] = I.Obj(n, 'heap', size, dflt, meta={'site': st.where()})
    st.event('alloc', n, size, st.where())
    return Ptr(n, ZERO)


def malloc(eng, st, args, i):
    return _alloc(eng, st, args, i, I.lin_of(args[0]) if args[0] is not UNDEF else None, 'undef')


def calloc(eng, st, args, i):
    a, b = I.lin_of(args[0]), I.lin_of(args[1])
    s = a.mul(b.c) if b.is_const() else b.mul(a.c) if a.is_const() else None
    return _alloc(eng, st, args, i, s, 'zero')


def free(eng, st, args, i):
    p = args[0]
    if p is NULL:
        return
    if isinstance(p, Ptr):
        if eng.is_null(st, p):
            return
        o = st.obj(p.obj)
        if o.freed:
            st.event('doublefree', p, st.where())
        if p.off != ZERO:
            st.event('badfree', p, st.where())
        st.mem[p.obj] = o.rep(freed=True)
        st.event('free', p.obj, st.where())
    else:
        st.event('badfree', p, st.where())


def used(st, p, rw, n=None):
    if isinstance(p, Ptr):
        o = st.obj(p.obj)
        if o.freed:
            st.event('uaf', rw, p, st.where())


def text_of(eng, st, p):
    if not isinstance(p, Ptr):
        st.event('badptr', 'string', p, st.where())
        I.raise_end(st, 'badptr')
    used(st, p, 'read')
    h = eng.opt.get('text_of')
    if h:
        t = h(eng, st, p)
        if t is not None:
            return t
    return I.cstring(st, p)


def strlen(eng, st, args, i):
    return I.text_len(text_of(eng, st, args[0]))


def set_text(st, dst, t):
    o = st.obj(dst.obj)
    I.put_entry(st, o, ('s', dst.off, t, dst.win))


def strcpy(eng, st, args, i):
    t = text_of(eng, st, args[1])
    used(st, args[0], 'write')
    if not isinstance(args[0], Ptr):
        st.event('badptr', 'strcpy', args[0], st.where())
        I.raise_end(st, 'badptr')
    set_text(st, args[0], t)
    st.event('strcpy', args[0], t, st.where())
    return args[0]


def strcat(eng, st, args, i):
    a = text_of(eng, st, args[0])
    b = text_of(eng, st, args[1])
    d = args[0]
    set_text(st, Ptr(d.obj, d.off + I.text_len(a), d.win), b)
    return d


def strncpy(eng, st, args, i):
    t = text_of(eng, st, args[1])
    n = I.lin_of(args[2])
    L = I.text_len(t)
    d = args[0]
    used(st, d, 'write')
    if st.decide('lt', L, n):
        set_text(st, d, t)
    else:
        o = st.obj(d.obj)
        I.put_entry(st, o, ('s', d.off, head(st, t, n), d.win))
        # no terminator is written
        I.put_entry(st, st.obj(d.obj), ('v', d.off + n, 1, UNDEF, d.win))
    return d


def head(st, t, n):
    if I.text_len(t) == n:
        return t
    """the first n bytes of a text"""
    pos, out = ZERO, []
    for p in t:
        if st.facts.cmp('eq', pos, n) is True:
            return tuple(out)
        out.append(p)
        pos = pos + I.part_len(p)
    return (('prefix', t, n),)


def strdup(eng, st, args, i):
    t = text_of(eng, st, args[0])
    p = _alloc(eng, st, args, i, I.text_len(t) + 1, 'undef')
    set_text(st, p, t)
    return p


def text_key(t):
    return I.norm_text(t)


def strcmp_(eng, st, a, b, lim=None):
    ta, tb = text_key(text_of(eng, st, a)), text_key(text_of(eng, st, b))
    if lim is not None and lim.is_const():
        ta, tb = cut(ta, lim.c), cut(tb, lim.c)
    if ta == tb:
        return C(0)
    d = differ(st, ta, tb)
    if d is not None:
        return C(d)
    if all(p[0] == 'lit' for p in ta + tb):
        x = ta[0][1] if ta else b''
        y = tb[0][1] if tb else b''
        return C(-1 if x < y else 1)
    if repr(tb) < repr(ta):
        ta, tb = tb, ta
        sg = -1
    else:
        sg = 1
    r = atom(('strcmp', ta, tb) if lim is None else ('strncmp', ta, tb, lim))
    return r if sg == 1 else r.mul(-1)


def differ(st, a, b):
    """-1/1 when the texts are known to differ at their first bytes that are not known to be the same"""
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if x == y:
            a.pop(0), b.pop(0)
            continue
        if x[0] not in ('lit', 'ch') or y[0] not in ('lit', 'ch'):
            return None
        f = lambda p: C(p[1][0]) if p[0] == 'lit' else I.lin_of(p[1])
        u, v = f(x), f(y)
        if st.facts.cmp('ne', u, v) is True:
            return -1 if st.facts.cmp('lt', u, v) is True else 1 if st.facts.cmp('gt', u, v) is True else None
        if u != v:
            return None
        for l in (a, b):
            p = l.pop(0)
            if p[0] == 'lit' and len(p[1]) > 1:
                l.insert(0, ('lit', p[1][1:]))
    for l, sg in ((a, 1), (b, -1)):
        if l and (l[0][0] == 'lit' or l[0][0] == 'ch' and st.facts.cmp('ne', I.lin_of(l[0][1]), ZERO) is True):
            return sg
    return None


def cut(t, n):
    out = []
    for p in t:
        if n <= 0:
            break
        if p[0] == 'lit':
            out.append(('lit', p[1][:n]))
            n -= len(p[1])
        else:
            out.append(p)
            if p[0] == 'ch':
                n -= 1
            else:
                return tuple(out)
    return I.norm_text(out)


def strcmp(eng, st, args, i):
    return strcmp_(eng, st, args[0], args[1])


def strncmp(eng, st, args, i):
    return strcmp_(eng, st, args[0], args[1], I.lin_of(args[2]))


def memcpy(eng, st, args, i):
    d, s, n = args[0], args[1], I.lin_of(args[2])
    if not isinstance(d, Ptr) or not isinstance(s, Ptr):
        st.event('badptr', 'memcpy', (d, s), st.where())
        if d is NULL or s is NULL or d is UNDEF or s is UNDEF:
            I.raise_end(st, 'badptr')
        return d
    used(st, s, 'read')
    used(st, d, 'write')
    so = st.obj(s.obj)
    do = st.obj(d.obj)
    if n.is_const():
        # copy small pieces as scalars when they are known as such
        eng.access(st, s, so, n.c, 'read')
        eng.access(st, d, do, n.c, 'write')
        plain = [e for e in so.ents if e[0] == 'v']
        if n.c <= 64 and len(plain) == len(so.ents):
            cov = {}
            for e in so.ents:
                dd = e[1] - s.off
                if not dd.t and 0 <= dd.c and dd.c + e[2] <= n.c:
                    cov[dd.c] = e
            if sum(e[2] for e in cov.values()) == n.c:
                for k, e in sorted(cov.items()):
                    I.put_entry(st, st.obj(d.obj), ('v', d.off + k, e[2], e[3], d.win))
                return d
        if n.c:
            # a copied block replaces whole scalars below it
            ents = tuple(x for x in do.ents if not (x[0] == 'v' and not (x[1] - d.off).t and 0 <= (x[1] - d.off).c and (x[1] - d.off).c + x[2] <= n.c))
            st.mem[d.obj] = do.rep(ents=ents + (('c', d.off, n.c, so, s.off),))
        return d
    st.mem[d.obj] = do.rep(ents=do.ents + (('x', d.off, n, so, s.off, d.win),))
    st.event('memcpy', d, s, n, st.where())
    return d


def memset(eng, st, args, i):
    d, b, n = args[0], I.lin_of(args[1]), I.lin_of(args[2])
    if not isinstance(d, Ptr):
        I.raise_end(st, 'badptr')
    used(st, d, 'write')
    o = st.obj(d.obj)
    if b.is_const():
        st.mem[d.obj] = o.rep(ents=o.ents + (('f', d.off, n, b.c & 255),))
    else:
        st.mem[d.obj] = o.rep(ents=o.ents + (('h', d.off, n, ('memset', st.seq)),))
    return d


def nop(eng, st, args, i):
    if i.ty.kind == 'int':
        return atom(('io', st.where(), st.seq))
    if i.ty.kind == 'ptr':
        return Ptr(('fr', ('io', st.where(), st.seq)), ZERO)
    return None


def exit_(eng, st, args, i):
    st.end = ('exit', args[0] if args else None, st.where())
    return 'end'


def strtod(eng, st, args, i):
    return Sym('strtod', text_key(text_of(eng, st, args[0])))


def strtol(eng, st, args, i):
    return atom(('strtol', text_key(text_of(eng, st, args[0])), args[2] if len(args) > 2 else C(10)))


def atoi(eng, st, args, i):
    return atom(('strtol', text_key(text_of(eng, st, args[0])), C(10)))


def fopen(eng, st, args, i):
    key = ('fopen', st.frames[-1].ctx, i.id, st.seq)
    mode = text_of(eng, st, args[1])
    name = text_of(eng, st, args[0]) if isinstance(args[0], Ptr) else None
    if st.choose(key):
        n = heap_name(eng, st, ('FILE',) + st.frames[-1].ctx, i.id)
        st.mem[n] = I.Obj(n, 'heap', C(216), 'sym', meta={'file': True})
        st.event('fopen', n, name, mode, st.where())
        return Ptr(n, ZERO)
    st.event('fopenfail', name, st.where())
    return NULL


def fclose(eng, st, args, i):
    p = args[0]
    if not isinstance(p, Ptr):
        st.event('badptr', 'fclose', p, st.where())
        I.raise_end(st, 'badptr')
    o = st.obj(p.obj)
    if o.freed:
        st.event('doublefree', p, st.where())
    st.mem[p.obj] = o.rep(freed=True)
    st.event('fclose', p.obj, st.where())
    return ZERO


def isdigit(eng, st, args, i):
    c = I.lin_of(args[0])
    if st.decide('lt', c, C(48)):
        return ZERO
    if st.decide('gt', c, C(57)):
        return ZERO
    return C(1)


def isspace(eng, st, args, i):
    c = I.lin_of(args[0])
    if st.decide('eq', c, C(32)):
        return C(1)
    if st.decide('lt', c, C(9)):
        return ZERO
    if st.decide('gt', c, C(13)):
        return ZERO
    return C(1)


def strchr(eng, st, args, i):
    p, c = args[0], I.lin_of(args[1])
    t = text_of(eng, st, p)
    if c.is_const() and len(t) <= 1 and all(x[0] == 'lit' for x in t):
        b = t[0][1] if t else b''
        k = (b + b'\0').find(bytes([c.c & 255]))
        return NULL if k < 0 else Ptr(p.obj, p.off + k, p.win)
    raise I.EngineError('strchr on an unknown string at ' + st.where())


def strchr_set(eng, st, args, i):
    """strchr(literal set, symbolic char): membership test"""
    p, c = args[0], I.lin_of(args[1])
    t = text_of(eng, st, p)
    if all(x[0] == 'lit' for x in t):
        b = (t[0][1] if t else b'') + b'\0'
        if c.is_const():
            k = b.find(bytes([c.c & 255]))
            return NULL if k < 0 else Ptr(p.obj, p.off + k, p.win)
        for k, x in enumerate(b):
            if st.decide('eq', c, C(x if x < 128 else x - 256)):
                return Ptr(p.obj, p.off + k, p.win)
        return NULL
    raise I.EngineError('strchr on an unknown string at ' + st.where())


def strcasecmp(eng, st, args, i):
    a, b = (text_key(text_of(eng, st, x)) for x in args[:2])
    if a == b:
        return ZERO
    return atom(('strcasecmp', a, b) + tuple(args[2:]))


def strndup(eng, st, args, i):
    t = text_of(eng, st, args[0])
    n = I.lin_of(args[1])
    if not st.decide('le', I.text_len(t), n):
        t = head(st, t, n)
    p = _alloc(eng, st, args, i, I.text_len(t) + 1, 'undef')
    set_text(st, p, t)
    return p


BUILTINS = {
    'strcasecmp': strcasecmp, 'strncasecmp': strcasecmp, 'strndup': strndup,
    'malloc': malloc, 'calloc': calloc, 'free': free, 'strlen': strlen, 'strcpy': strcpy, 'strncpy': strncpy, 'strcat': strcat,
    'strdup': strdup, 'strcmp': strcmp, 'strncmp': strncmp, 'memcpy': memcpy, 'memmove': memcpy, 'memset': memset, 'llvm.memcpy': memcpy,
    'llvm.memmove': memcpy, 'llvm.memset': memset, 'printf': nop, 'puts': nop, 'putchar': nop, 'fprintf': nop, 'perror': nop, 'fflush': nop,
    'exit': exit_, 'abort': exit_, 'strtod': strtod, 'strtol': strtol, 'atoi': atoi, 'atof': strtod, 'fopen': fopen, 'fclose': fclose,
    'isdigit': isdigit, 'isspace': isspace, 'strchr': strchr_set, 'llvm.lifetime': nop, 'llvm.stacksave': nop, 'llvm.stackrestore': nop,
    '__assert_fail': exit_, 'usleep': nop, 'sleep': nop, 'gettimeofday': nop, 'clock': nop, 'time': nop, 'sched_yield': nop,
}
