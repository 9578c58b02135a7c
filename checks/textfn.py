"""The copying helpers: for any source text and any range, what they leave in the destination (J02)."""
from engine import build
from engine.dom import *
from engine.interp import *
from . import serial
from .common import Broken

B, N = atom(('arg', 'begin')), atom(('arg', 'end'))
SRC = Ptr('src', ZERO)
SRCTEXT = (('cstr', 'src', 0, ZERO),)
FNS = {  # name -> (arguments, destination, text)
    'strcopy': ([SRC, Ptr('dst', ZERO)], 'dst', (('cstr', 'src', 0, ZERO),)),
    'substring': ([SRC, B, N], None, (('slice', 'src', 0, B, N),)),
    'substring_in_place': ([Ptr('dst', ZERO), SRC, B, N], 'dst', (('slice', 'src', 0, B, N),)),
    'allocate_and_copy': ([SRC], None, (('cstr', 'src', 0, ZERO),)),
}


def extra_terminator(P):
    """does strcopy leave a second terminator behind the text?  (the scanner lengthens its text by one byte in place)"""
    f = P.find('strcopy')
    if f is None:
        raise Broken('strcopy not found')
    E = Engine(P, {}, nonnull=lambda o: True)
    st = State()
    for o in ('src', 'dst'):
        st.mem[o] = Obj(o, 'sym', None, 'sym', meta={'nonnull': True})
    E.start(f, [SRC, Ptr('dst', ZERO)], st)
    T = E.run(st)
    try:
        return bool(T) and all(t.end[0] == 'ret' and Sem.read(t, t.obj('dst'), text_len(SRCTEXT) + C(1), 1, 'i') == ZERO for t in T)
    except Split:
        return False


def run(rep):
    P = build.program(['JSONQuery/utility.c'])
    for fn, (args, dst, want) in FNS.items():
        f = P.find(fn)
        if f is None:
            raise Broken(fn + ' not found')
        E = Engine(P, {}, nonnull=lambda o: True)
        st = State()
        for o in ('src', 'dst'):
            st.mem[o] = Obj(o, 'sym', None, 'sym', meta={'nonnull': True})
        st.facts.assume_cmp('ge', B, ZERO)
        st.facts.assume_cmp('le', B, N)
        E.start(f, args, st)
        T = E.run(st)
        rep.saw('functions', fn)
        if not T:
            raise Broken('no path through ' + fn)
        for t in T:
            def bad(msg, detail=''):
                rep.violation('copy/%s: %s' % (fn, msg), msg, fn + ' (utility)', detail)
            rep.ob('copying outcomes')
            if t.end[0] != 'ret':
                bad('copying ends abnormally (%s)' % t.end[0])
                continue
            p = Ptr(dst, ZERO) if dst else t.ret
            if not isinstance(p, Ptr):
                bad('no text is returned', str(p))
                continue
            x = cstring(t, p)
            if x and x[0][0] == 'slice' and x[0][3] == ZERO and t.facts.cmp('ge', x[0][4], text_len(SRCTEXT)) is True:
                x = SRCTEXT          # beyond its terminator a string has no text
            if any(q[0] == 'bad' or q[0] == 'undef' for q in x) or not serial.text_eq(t, x, want):
                bad('the copy differs from the requested range', 'copy %s, requested %s' % (show_text(x), show_text(want)))
                continue
            if dst is None:
                o = t.obj(p.obj)
                if o.kind != 'heap':
                    bad('the copy is not in memory of its own', str(p))
                elif o.size is None or t.facts.cmp('ge', o.size, text_len(want) + C(1)) is not True:
                    bad('the memory of the copy is too small', 'size %s for length %s' % (o.size, text_len(want)))
            for o in t.mem.values():
                if o.name == 'src' and o.ents:
                    bad('the source is changed')
    rep.rule('Every copying helper is summarised for arbitrary text and range (loops generalised) and its destination compared byte range by byte range with the request.')
