"""dfaNextStateByStr: exact-name column lookup (J07)."""
from engine import build
from engine.dom import *
from engine.interp import *
from engine.interp import div_exact
from .common import Broken
from .search import exhausted, texts_equal

LAY = {'JSONQueryDFA': ['states_num', 'inputs_num', 'table', 'stop_state', 'accept_type', 'array_index', 'names']}


def mulop(a, b):
    if repr(b) < repr(a):
        a, b = b, a
    return atom(('mul', a, b))


def run(rep):
    P = build.program([('verif_dfa.c', '#include "dfa.h"\n')])
    f = P.find('dfaNextStateByStr')
    if f is None:
        raise Broken('dfaNextStateByStr not found')
    L = build.layout(LAY, ['"dfa.h"'])
    where = 'dfaNextStateByStr (dfa.h)'
    n = atom(('mem', 'qa', C(L['JSONQueryDFA.inputs_num']), 0, 4))
    S = atom('state')
    table = ('ld', 'qa', 0, C(L['JSONQueryDFA.table']))
    names = ('ld', 'qa', 0, C(L['JSONQueryDFA.names']))

    def start(key):
        E = Engine(P, {}, nonnull=lambda o: True, small_unsigned=True)
        st = State()
        st.facts.assume_iv(S, 0, INF)
        st.facts.assume_iv(n, 3, INF)
        st.mem['qa'] = Obj('qa', 'sym', C(L['JSONQueryDFA']), 'sym', meta={'nonnull': True})
        E.start(f, [Ptr('qa', ZERO), S, key], st)
        return E, E.run(st)

    def column(t):
        """the column the result was read from"""
        r = t.ret
        if not isinstance(r, Lin) or len(r.t) != 1 or r.c or r.t[0][1] != 1:
            return None
        k = atom_key(r.t[0][0])
        if k[0] != 'mem' or k[1] != table or k[4] != 4:
            return None
        d = k[2] - mulop(n, S).mul(4)
        return div_exact(d, 4)

    def effects(E, t):
        for nme, o in t.mem.items():
            if o.ents and not (isinstance(nme, tuple) and nme[0] == 'loc') and o.kind != 'heap':
                rep.violation('lookup/write', 'lookup writes to %s' % key_name(nme), where)
        for e in t.events:
            if e[0] in ('extern', 'undef', 'badptr', 'uaf'):
                rep.violation('lookup/' + e[0], '%s in a table lookup at %s' % (e[0], e[-1]), where)
        rep.ob('lookup outcomes')

    # array step
    E, T = start(NULL)
    if not T:
        raise Broken('no path')
    for t in T:
        effects(E, t)
        if t.end[0] != 'ret' or column(t) != C(2):
            rep.violation('lookup/array', 'an array step reads %s instead of the array column' % (t.ret,), where)
    # key
    E, T = start(Ptr('key', ZERO))
    key = (('cstr', 'key', 0, ZERO),)
    found, miss = [], []
    for t in T:
        effects(E, t)
        if t.end[0] != 'ret':
            rep.violation('lookup/stop', 'lookup does not return (%s)' % t.end[0], where)
            continue
        c = column(t)
        if c is None:
            rep.violation('lookup/result', 'the result %s is not an entry of the row of the current position' % (t.ret,), where)
        elif c == C(1):
            miss.append(t)
        else:
            found.append((t, c))
    if not found:
        rep.violation('lookup/none', 'no path returns the entry of a named column', where)
    if not miss:
        rep.violation('lookup/default', 'no path returns the entry of the common column', where)
    for t, c in found:
        nm = (('cstr', ('ld', names, 0, c.mul(8)), 0, ZERO),)
        cell = t.ret
        if texts_equal(t, key, nm) is not True:
            rep.violation('lookup/compare', 'column %s is used although its name is not known to equal the whole key' % c, where,
                          'path facts: ' + '; '.join(str(Lin(0, f)) for f in t.facts.iv)[:300])
        if t.facts.cmp('ge', c, C(3)) is not True or t.facts.cmp('lt', c, n) is not True:
            rep.violation('lookup/bounds', 'column %s is not a named column' % c, where)
        if t.facts.cmp('ne', cell, ZERO) is not True:
            rep.violation('lookup/empty', 'a column without a transition is used instead of the common column', where)
        rep.ob('matching columns')
    def rejected(b, c):
        nm = (('cstr', ('ld', names, 0, c.mul(8)), 0, ZERO),)
        cell = atom(('mem', table, mulop(n, S).mul(4) + c.mul(4), 0, 4))
        return texts_equal(b, key, nm) is False or b.facts.cmp('eq', cell, ZERO) is True
    for t in miss:
        # every named column was examined and rejected
        why = exhausted(E, t, C(3), n, rejected)
        if why is not None:
            rep.violation('lookup/missed', 'the common column is returned although not every named column was compared (%s)' % why, where)
        rep.ob('exhausted searches')
    rep.saw('functions', 'dfaNextStateByStr')
    rep.rule('dfaNextStateByStr is interpreted with symbolic table, position and key; its search loop is summarised by its affine induction variable: '
             'a column is used only when its whole name equals the key and it holds a transition; the common column only after every named column was rejected; null means the array column; nothing is written.')
    rep.notes.append('column names are distinct (J10); products state*columns do not overflow')
    rep.need('lookup outcomes', 3)
