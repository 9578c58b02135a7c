"""stack.h: bounded last-in first-out stacks (J21)."""
from engine import build
from engine.dom import *
from engine.interp import *
from engine.interp import put_entry, halves
from .common import Broken

LAY = {'SyntaxStack': ['symbol', 'top_item'], 'QueryStack': ['item', 'top_item'], 'QueryStackElement': ['query_state', 'count', 'matched_start']}
FIELDS = ('query_state', 'count', 'matched_start')
INV = C(-1)


class Stacks:
    def __init__(self, rep):
        self.rep = rep
        self.P = build.program([('verif_stack.c', '#include "stack.h"\n')])
        self.L = L = build.layout(LAY, ['"stack.h"'])
        self.kind = {
            'syntax': (L['SyntaxStack'], L['SyntaxStack.symbol'], 4, L['SyntaxStack.top_item'], [('', 0)]),
            'query': (L['QueryStack'], L['QueryStack.item'], L['QueryStackElement'], L['QueryStack.top_item'],
                      [(x, L['QueryStackElement.' + x]) for x in FIELDS]),
        }

    def cap(self, k):
        size, base, es, top, fs = self.kind[k]
        return (top - base) // es if top > base else (size - base) // es

    def obj(self, k, name, lo=-1, hi=None, topname=None):
        size, base, es, top, fs = self.kind[k]
        o = Obj(name, 'sym', C(size), 'sym', meta={'nonnull': True})
        return o.rep(ents=(('v', C(top), 4, atom(topname or name + '.top'), None),))

    def run(self, fn, args, st, k):
        f = self.P.find(fn)
        if f is None:
            raise Broken(fn + ' not found')
        E = Engine(self.P, {}, nonnull=lambda o: True, small_unsigned=True, check_oob=True)
        E.start(f, args, st)
        T = E.run(st)
        if not T:
            raise Broken('no path through ' + fn)
        self.rep.saw('functions', fn)
        out = []
        for e, t in E.all_events(T):
            if e[0] == 'acc' and not (e[4] and e[5]):
                self.rep.violation('stack/%s/%s' % (fn, e[1]), '%s outside the storage of the stack is possible (%s)' % (e[1], e[2]), e[6])
            if e[0] in ('badptr', 'extern'):
                self.rep.violation('stack/%s/%s' % (fn, e[0]), e[0], e[-1])
            if e[0] == 'acc':
                self.rep.ob('bounded accesses')
        for t in T:
            if t.end[0] != 'ret':
                self.rep.violation('stack/%s/stop' % fn, 'does not return (%s)' % t.end[0], fn)
                continue
            out.append(t)
            self.rep.ob('stack operation outcomes')
        return out

    def elem(self, t, k, name, pos, init=None):
        size, base, es, top, fs = self.kind[k]
        o = init if init is not None else t.obj(name)
        return [Sem.read(t, o, pos.mul(es) + C(base + off), 4, 'i') for _, off in fs]

    def top(self, t, k, name='s'):
        return Sem.read(t, t.obj(name), C(self.kind[k][3]), 4, 'i')

    def retval(self, t, k, fn):
        """fields of a returned element"""
        r = t.ret
        if k == 'syntax':
            return [r]
        out = []
        if isinstance(r, Agg):
            for n, v in enumerate(r.v):
                if n == 0:
                    out += list(halves(v) or (v, UNDEF))
                else:
                    out.append(v)
        return out

    def unchanged(self, t, k, fn, keep, init, name='s'):
        """no element other than the ones listed in keep may differ from before"""
        size, base, es, top, fs = self.kind[k]
        for e in t.obj(name).ents:
            if e in init.ents or e[0] == 'v' and e[1] == C(top):
                continue
            if e[0] == 'v':
                ok = any(not (e[1] - (p.mul(es) + C(base))).t and 0 <= (e[1] - (p.mul(es) + C(base))).c < es for p in keep)
                if ok:
                    continue
                old = Sem.read(t, init, e[1], e[2], 'i')
                if isinstance(old, Lin) and isinstance(e[3], Lin) and t.facts.cmp('eq', old, e[3]):
                    continue
            elif e[0] == 'c' and any((e[1] - (p.mul(es) + C(base))) == ZERO and e[2] == es for p in keep):
                continue
            self.rep.violation('stack/%s/other' % fn, 'another element of the stack is changed', fn, str(e)[:200])

    def eq(self, t, a, b):
        return a is b or isinstance(a, Lin) and isinstance(b, Lin) and t.facts.cmp('eq', a, b) is True

    def check(self):
        for k, pre in (('syntax', 'syntaxStack'), ('query', 'queryStack')):
            self.ops(k, pre)
        self.merge()
        self.rep.rule('Every operation of stack.h is interpreted with a symbolic stack of any legal height: each array access must be provably inside the storage on its path, '
                      'and the effect on height, elements and result must be that of a last-in first-out stack (empty reads give the invalid marker; a push on a full stack leaves it unchanged).')
        self.rep.need('stack operation outcomes', 18)
        self.rep.need('bounded accesses', 20)

    def state(self, k, lo=-1, hi=None):
        st = State()
        T = atom('s.top')
        st.facts.assume_iv(T, lo, self.cap(k) - 1 if hi is None else hi)
        st.mem['s'] = self.obj(k, 's')
        return st, T, st.mem['s']

    def ops(self, k, pre):
        rep = self.rep
        cap = self.cap(k)
        S = Ptr('s', ZERO)

        def bad(fn, msg, t):
            rep.violation('stack/%s/effect' % fn, msg, fn, 'height before: %s' % (t.facts.bounds(atom('s.top')),))

        # init
        fn = 'init' + pre[0].upper() + pre[1:]
        st, T, init = self.state(k)
        for t in self.run(fn, [S], st, k):
            if not self.eq(t, self.top(t, k), INV):
                bad(fn, 'a new stack is not empty', t)
        # push
        fn = pre + 'Push'
        st, T, init = self.state(k)
        if k == 'syntax':
            data = [atom('data')]
            args = [S, data[0]]
        else:
            data = [atom('data.' + x) for x in FIELDS]
            args = [S, Cat(data[0], data[1]), data[2]]
        for t in self.run(fn, args, st, k):
            lo, hi = t.facts.bounds(T)
            t1 = self.top(t, k)
            if self.eq(t, t1, T):
                if lo < cap - 1:
                    bad(fn, 'push has no effect although the stack is not full', t)
                self.unchanged(t, k, fn, [], init)
                continue
            if not self.eq(t, t1, T + 1):
                bad(fn, 'push changes the height from %s to %s' % (T, t1), t)
            got = self.elem(t, k, 's', T + 1)
            if not all(self.eq(t, a, b) for a, b in zip(got, data)):
                bad(fn, 'the pushed element is not on top', t)
            self.unchanged(t, k, fn, [T + 1], init)
        # pop / top / second
        for fn, depth, delta in ((pre + 'Pop', 0, -1), (pre + 'Top', 0, 0), (pre + 'SecondTop', 1, 0)):
            if depth and k == 'query' and self.P.find(fn) is None:
                continue            # unused helper
            st, T, init = self.state(k)
            for t in self.run(fn, [S], st, k):
                lo, hi = t.facts.bounds(T)
                r = self.retval(t, k, fn)
                t1 = self.top(t, k)
                self.unchanged(t, k, fn, [], init)
                if hi < depth:
                    if not r or not self.eq(t, r[0], INV):
                        bad(fn, 'an empty stack does not give the invalid marker', t)
                    if any(x is UNDEF for x in r):
                        rep.violation('stack/%s/unset' % fn, 'part of the result for an empty stack is never set', fn)
                    if not self.eq(t, t1, T):
                        bad(fn, 'reading an empty stack changes its height', t)
                elif lo >= depth:
                    want = self.elem(t, k, 's', T - C(depth), init)
                    if len(r) != len(want) or not all(self.eq(t, a, b) for a, b in zip(r, want)):
                        bad(fn, 'the result is not the element %d below the top' % depth, t)
                    if not self.eq(t, t1, T + delta):
                        bad(fn, 'the height becomes %s' % t1, t)
                else:
                    bad(fn, 'empty and non-empty stacks are not told apart', t)
        if k == 'query' and self.P.find('queryStackTopUpdate') is not None:
            fn = 'queryStackTopUpdate'
            st, T, init = self.state(k, 0)
            data = [atom('data.' + x) for x in FIELDS]
            for t in self.run(fn, [S, Cat(data[0], data[1]), data[2]], st, k):
                if not all(self.eq(t, a, b) for a, b in zip(self.elem(t, k, 's', T), data)) or not self.eq(t, self.top(t, k), T):
                    bad(fn, 'the top element is not replaced', t)
                self.unchanged(t, k, fn, [T], init)
        if k == 'syntax':
            fn = 'syntaxStackSize'
            st, T, init = self.state(k)
            for t in self.run(fn, [S], st, k):
                if not self.eq(t, t.ret, T + 1):
                    bad(fn, 'the size is reported as %s' % t.ret, t)
                self.unchanged(t, k, fn, [], init)

    def merge(self):
        k = 'syntax'
        cap = self.cap(k)
        fn = 'combineSyntaxStack'
        st = State()
        T, U = atom('s.top'), atom('src.top')
        st.facts.assume_iv(T, -1, cap - 1)
        st.facts.assume_iv(U, -1, cap - 1)
        st.facts.assume_iv(T + U, -2, cap - 2)
        st.mem['s'] = self.obj(k, 's')
        st.mem['src'] = self.obj(k, 'src')
        init = st.mem['s']
        # any two heights: storage is respected
        any_ = State()
        any_.facts.assume_iv(T, -1, cap - 1)
        any_.facts.assume_iv(U, -1, cap - 1)
        any_.mem = dict(st.mem)
        self.run(fn, [Ptr('s', ZERO), Ptr('src', ZERO)], any_, k)
        # room for both: effect
        for t in self.run(fn, [Ptr('s', ZERO), Ptr('src', ZERO)], st, k):
            if not self.eq(t, self.top(t, k), T + U + 1):
                self.rep.violation('stack/%s/height' % fn, 'the height becomes %s, expected %s' % (self.top(t, k), T + U + 1), fn)
            if t.obj('src').ents != st.mem['src'].ents:
                self.rep.violation('stack/%s/source' % fn, 'the appended stack is changed', fn)
            size, base, es, top, fs = self.kind[k]
            n = t.copy()
            K = atom('k')
            ok = n.facts.assume_iv(K, 0, INF) and n.facts.assume_cmp('le', K, U)
            work = [n] if ok else []
            while work:
                n = work.pop()
                try:
                    g = Sem.read(n, n.obj('s'), (T + 1 + K).mul(es) + C(base), 4, 'i')
                    w = Sem.read(n, n.obj('src'), K.mul(es) + C(base), 4, 'i')
                    n.facts.assume_iv(atom('j'), 0, INF)
                except Split as sp:
                    for a in sp.alts:
                        m = n.copy()
                        if a(m):
                            work.append(m)
                    continue
                if not self.eq(n, g, w):
                    self.rep.violation('stack/%s/order' % fn, 'element k of the appended stack ends up as %s at its place' % g, fn)
            # elements that were there before stay
            n = t.copy()
            K = atom('j')
            ok = n.facts.assume_iv(K, 0, INF) and n.facts.assume_cmp('le', K, T)
            work = [n] if ok else []
            while work:
                n = work.pop()
                try:
                    g = Sem.read(n, n.obj('s'), K.mul(es) + C(base), 4, 'i')
                    w = Sem.read(n, init, K.mul(es) + C(base), 4, 'i')
                except Split as sp:
                    for a in sp.alts:
                        m = n.copy()
                        if a(m):
                            work.append(m)
                    continue
                if not self.eq(n, g, w):
                    self.rep.violation('stack/%s/keep' % fn, 'an element that was on the stack before is changed', fn)


def run(rep):
    Stacks(rep).check()
