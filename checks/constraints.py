"""constraint.h: learned positions per key name / array (J20)."""
from engine import build
from engine.dom import *
from engine.interp import *
from engine.interp import div_exact
from engine import libc
from .common import Broken
from .search import exhausted, texts_equal
from .serial import txt_handlers, KY, LB

LAY = {'ConstraintInfo': ['token_name', 'type', 'state_set', 'num_state'], 'ConstraintTable': ['constraint_info', 'num_constraint_info']}


def run(rep):
    P = build.program([('verif_api.c', build.API_TU), 'JSONQuery/utility.c'])
    L = build.layout(LAY, ['<stdio.h>', '<stdlib.h>', '<string.h>', '"path_processor.h"'])
    ES, BASE, NUM = L['ConstraintInfo'], L['ConstraintTable.constraint_info'], L['ConstraintTable.num_constraint_info']
    O = {x: L['ConstraintInfo.' + x] for x in LAY['ConstraintInfo']}
    N, S = atom('entries'), atom('position')
    name = (('cstr', 'name', 0, ZERO),)

    def fld(i, f):
        return i.mul(ES) + C(BASE + O[f])

    def rd(t, o, off, s=4):
        return Sem.read(t, t.obj(o) if isinstance(o, str) else o, off, s, 'i')

    def mem(off):
        counted = div_exact(off - C(BASE + O['num_state']), ES) is not None      # every entry made by the learner has at least one position
        return atom(('mem', 'ct', off, 0, 4), 1 if counted else None)

    def load(st, o, off, size, ty):
        return mem(off) if size == 4 and o.name == 'ct' and o.ver == 0 else None

    def fresh_state():
        st = State()
        st.facts.assume_iv(N, 0, 900)
        st.facts.assume_iv(S, 0, INF)
        st.mem['ct'] = Obj('ct', 'sym', C(L['ConstraintTable']), 'sym', (('v', C(NUM), 4, N, None),), meta={'nonnull': True, 'load': load})
        st.mem['name'] = Obj('name', 'sym', None, 'sym', meta={'nonnull': True})
        return st

    def go(fn, args, st):
        f = P.find(fn)
        if f is None:
            raise Broken(fn + ' not found')
        E = Engine(P, txt_handlers(), nonnull=lambda o: True, small_unsigned=True)
        E.start(f, args, st)
        T = E.run(st)
        if not T:
            raise Broken('no path through ' + fn)
        rep.saw('functions', fn)
        for e, t in E.all_events(T):
            if e[0] in ('undef', 'badptr', 'extern', 'uaf'):
                rep.violation('constraint/%s/%s' % (fn, e[0]), '%s at %s' % (e[0], e[-1]), e[-1])
        for t in list(T):
            if t.end[0] != 'ret':
                rep.violation('constraint/%s/stop' % fn, 'does not return (%s)' % t.end[0], fn)
                T.remove(t)
        rep.ob('constraint table outcomes', len(T))
        return E, T

    def match(t, i, ty):
        """entry i is known (True) / known not (False) to belong to this token"""
        same_type = t.facts.cmp('eq', mem(fld(i, 'type')), C(ty))
        if ty == LB:
            return same_type
        same_name = texts_equal(t, name, (('cstr', 'ct', 0, fld(i, 'token_name')),))
        if same_type is False or same_name is False:
            return False
        return True if same_type and same_name else None

    where = 'addConstraintInfo (constraint.h)'
    tn = {KY: 'key', LB: 'array'}
    for ty in (KY, LB):
        st = fresh_state()
        init = st.mem['ct']
        E, T = go('addConstraintInfo', [Ptr('ct', ZERO), S, C(ty), Ptr('name', ZERO)], st)
        V = lambda k, m, d=None: rep.violation('constraint/add %s/%s' % (tn[ty], k), m, where, d)
        for t in T:
            eq = lambda a, b: isinstance(a, Lin) and isinstance(b, Lin) and t.facts.cmp('eq', a, b) is True
            new = [e for e in t.obj('ct').ents if e not in init.ents]
            n1 = rd(t, 'ct', C(NUM))
            rest = [e for e in new if e[1] != C(NUM)]
            if eq(n1, N + 1):
                why = exhausted(E, t, ZERO, N, lambda b, i: match(b, i, ty) is False)
                if why:
                    V('duplicate', 'a new entry is made although one for this token may exist (%s)' % why)
                if not eq(rd(t, 'ct', fld(N, 'type')), C(ty)):
                    V('kind', 'the new entry has kind %s' % rd(t, 'ct', fld(N, 'type')))
                if not eq(rd(t, 'ct', fld(N, 'num_state')), C(1)) or not eq(rd(t, 'ct', fld(N, 'state_set')), S):
                    V('first', 'the new entry does not hold exactly the position seen')
                if ty == KY and norm_text(cstring(t, Ptr('ct', fld(N, 'token_name')))) != name:
                    V('name', 'the new entry is not filed under the key name')
                for e in rest:
                    d = e[1] - N.mul(ES) - C(BASE)
                    if d.t or not 0 <= d.c < ES:
                        V('other', 'another entry is changed', str(e)[:120])
            elif eq(n1, N):
                if not rest:
                    # already present
                    hit = None
                    for f, iv in t.facts.iv.items():
                        if iv[0] == iv[1] == 0:
                            l = Lin(0, f)
                            for a, c in f:
                                k = atom_key(a)
                                if k[0] == 'mem' and k[1] == 'ct' and l == S.add(Lin(0, ((a, 1),)), -1) or k[0] == 'mem' and k[1] == 'ct' and l == Lin(0, ((a, 1),)) - S:
                                    d = k[2] - C(BASE + O['state_set'])
                                    for i, j in split_index(d, ES, 4):
                                        if match(t, i, ty) is True and t.facts.cmp('lt', i, N) is True and t.facts.cmp('lt', j, mem(fld(i, 'num_state'))) is True:
                                            hit = (i, j)
                    if hit is None:
                        V('lost', 'the position is not recorded although it is not known to be recorded already')
                    continue
                ns = [e for e in rest if e[0] == 'v' and div_exact(e[1] - C(BASE + O['num_state']), ES) is not None]
                if len(ns) != 1 or len(rest) != 2:
                    V('update', 'unexpected changes of the table', str(rest)[:200])
                    continue
                i = div_exact(ns[0][1] - C(BASE + O['num_state']), ES)
                old = mem(fld(i, 'num_state'))
                if match(t, i, ty) is not True or t.facts.cmp('lt', i, N) is not True or t.facts.cmp('ge', i, ZERO) is not True:
                    V('wrong', 'the position is filed under an entry that is not known to be the one of this token')
                if not eq(rd(t, 'ct', fld(i, 'num_state')), old + 1) or not eq(rd(t, 'ct', fld(i, 'state_set') + old.mul(4)), S):
                    V('append', 'the position is not appended to the recorded positions')
                why = exhausted(E, t, ZERO, old, lambda b, j: b.facts.cmp('eq', mem(fld(i, 'state_set') + j.mul(4)), S) is False)
                if why:
                    V('twice', 'a position may be recorded twice (%s)' % why)
            else:
                V('count', 'the number of entries becomes %s' % n1)
    # lookup
    where2 = 'updateStateInfo (constraint.h)'
    for ty in (KY, LB):
        st = fresh_state()
        init = st.mem['ct']
        st.mem['ci'] = Obj('ci', 'sym', C(ES), 'sym', (('v', C(O['type']), 4, C(ty), None), ('s', C(O['token_name']), name, (C(O['token_name']), 100, None))), meta={'nonnull': True})
        ci0 = st.mem['ci']
        E, T = go('updateStateInfo', [Ptr('ct', ZERO), Ptr('ci', ZERO)], st)
        V = lambda k, m, d=None: rep.violation('constraint/lookup %s/%s' % (tn[ty], k), m, where2, d)
        nf = nm = 0
        for t in T:
            eq = lambda a, b: isinstance(a, Lin) and isinstance(b, Lin) and t.facts.cmp('eq', a, b) is True
            if t.obj('ct').ents != init.ents:
                V('write', 'a lookup changes the table')
            g = rd(t, 'ci', C(O['num_state']))
            if eq(g, C(-1)):
                nm += 1
                why = exhausted(E, t, ZERO, N, lambda b, i: match(b, i, ty) is False)
                if why:
                    V('missed', 'the token is reported as unknown although it may be recorded (%s)' % why)
                continue
            nf += 1
            k = atom_key(g.t[0][0]) if isinstance(g, Lin) and len(g.t) == 1 and g.c == 0 else None
            i = div_exact(k[2] - C(BASE + O['num_state']), ES) if k and k[0] == 'mem' and k[1] == 'ct' else None
            if i is None or match(t, i, ty) is not True or t.facts.cmp('lt', i, N) is not True:
                V('wrong', 'positions are taken from an entry that is not known to be the one of this token')
                continue
            n = t.copy()
            K = atom('k')
            work = [n] if n.facts.assume_iv(K, 0, INF) and n.facts.assume_cmp('lt', K, g) else []
            while work:
                n = work.pop()
                try:
                    a = rd(n, 'ci', C(O['state_set']) + K.mul(4))
                    n.facts.cmp('eq', a, a) if isinstance(a, Lin) else None
                except Split as sp:
                    for al in sp.alts:
                        m = n.copy()
                        if al(m):
                            work.append(m)
                    continue
                want = mem(fld(i, 'state_set') + K.mul(4))
                if not (isinstance(a, Lin) and n.facts.cmp('eq', a, want) is True):
                    V('copy', 'position k of the result is %s, expected %s' % (a, want))
        if not nf or not nm:
            V('kinds', 'the lookup has no %s outcome' % ('positive' if not nf else 'negative'))
    st = State()
    E, T = go('createConstraintTable', [], st)
    for t in T:
        if not isinstance(t.ret, Ptr) or rd(t, t.obj(t.ret.obj), t.ret.off + C(NUM)) != ZERO:
            rep.violation('constraint/new', 'a new table is not empty', 'createConstraintTable')
    rep.rule('addConstraintInfo, updateStateInfo and createConstraintTable are interpreted on a symbolic table; their search loops are summarised, and each outcome '
             '(new entry, appended position, already present, found, unknown) must be justified by the comparisons made on its path and in every earlier iteration.')
    rep.need('constraint table outcomes', 10)
    rep.notes.append('table capacities (J23) are not part of this property')


def split_index(d, es, e2):
    """d = i*es + j*e2 (+const): possible (i, j)"""
    I = [(a, c) for a, c in d.t if c % es == 0]
    J = [(a, c) for a, c in d.t if c % es]
    if any(c % e2 for _, c in J):
        return
    i = Lin(0, tuple((a, c // es) for a, c in I))
    for ci in {d.c // es}:
        r = d.c - ci * es
        if r % e2 == 0:
            yield i + ci, Lin(r // e2, tuple((a, c // e2) for a, c in J))
