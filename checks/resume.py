"""Serial evaluation may stop after any token and go on with the next portion (J18)."""
from engine.dom import *
from engine.interp import *
from engine.interp import norm_text, cstring
from . import serial as S
from .common import Broken
from .serial import LCB, RCB, LB, RB, COM, KY, PRI, END, TN

NEXT = {LB: [PRI, RB, LCB], KY: [PRI, LB], LCB: [KY, RCB], None: [LCB]}


class Resume(S.Serial):
    snaps = None

    def next_token(self, eng, st, args, i):
        if self.snaps is not None and st.ghost['tok'] == 1 and self.base == 0 and len(self.script) == 1:
            self.snaps.append(st.copy())
            st.ghost['_snap'] = len(self.snaps) - 1
        return super().next_token(eng, st, args, i)

    def top(self, st):
        """innermost open symbol"""
        t = Sem.read(st, st.obj('sa'), C(self.TOP), 4, 'i')
        if isinstance(t, Lin) and st.facts.value(t) == -1:
            return None
        v = Sem.read(st, st.obj('sa'), t.mul(4) + C(self.SYM), 4, 'i') if isinstance(t, Lin) else None
        c = st.facts.value(v) if isinstance(v, Lin) else None
        return c if c in (LCB, LB, KY) else LCB

    def differ(self, a, b):
        """what the end states of the two runs differ in"""
        L = self.L
        F = b.facts

        def same(x, y):
            if isinstance(x, Lin) and isinstance(y, Lin):
                return F.cmp('eq', x, y) is True
            return x == y
        rd = lambda st, off, s=4, ty='i': Sem.read(st, st.obj('sa'), off if isinstance(off, Lin) else C(off), s, ty)
        out = []
        for off, what in ((self.TOP, 'the nesting depth'), (self.QTOP, 'the depth of the query stack'), (L['StreamingAutomaton.query_state'], 'the query position'),
                          (L['StreamingAutomaton.count'], 'the element index'), (L['StreamingAutomaton.matched_start'], 'the start of the open match')):
            if not same(rd(a, off), rd(b, off)):
                out.append(what)
        if not out:
            T, Q = rd(a, self.TOP), rd(a, self.QTOP)
            for k in range(3):
                p = T - C(k)
                if F.cmp('ge', p, ZERO) is True and not same(rd(a, p.mul(4) + C(self.SYM)), rd(b, p.mul(4) + C(self.SYM))):
                    out.append('the nesting stack')
                p = Q - C(k)
                if F.cmp('ge', p, ZERO) is True:
                    for f in ('query_state', 'count', 'matched_start'):
                        o = p.mul(self.ES) + C(self.QIT) + C(L['QueryStackElement.' + f])
                        if not same(rd(a, o), rd(b, o)):
                            out.append('the query stack')
        n = [Sem.read(x, x.obj('tl'), C(L['TupleList.count']), 4, 'i') for x in (a, b)]
        if not same(*n):
            out.append('the number of records')
        else:
            TC = atom('ntuples')
            for k in range(1, 4):
                p = TC + k
                if F.cmp('le', p, n[0]) is not True:
                    break
                o = p.mul(L['Tuple'])
                x, y = [(Sem.read(q, q.obj('tl'), o + L['Tuple.state'], 4, 'i'), cstring(q, Ptr('tl', o + L['Tuple.text']))) for q in (a, b)]
                if not same(x[0], y[0]) or norm_text(x[1]) != norm_text(y[1]) and not S.text_eq(b, x[1], y[1]):
                    out.append('the records')
        return out

    def check_resume(self, rep):
        for ctx in self.contexts():
            tok, top, sec, flag = ctx
            if flag or tok == END:
                continue
            self.snaps = []
            T = self.run(ctx)
            snaps, self.snaps = self.snaps, None
            for e in T:
                if e.end[0] != 'ret' or '_snap' not in e.ghost:
                    continue
                s = snaps[e.ghost['_snap']]
                for t2 in NEXT[self.top(s)]:
                    self.script, self.base = [tok, t2], 0
                    E = self.engine()
                    E.inst = 1000000
                    go = s.copy()
                    go.lineage = ()
                    for a in E.run(go):
                        if a.end[0] != 'ret':
                            continue
                        n = State()
                        n.mem = {k: v for k, v in e.mem.items() if not (isinstance(k, tuple) and k[0] == 'loc')}
                        n.facts = a.facts.copy()
                        n.ghost = {'tok': 0}
                        self.script, self.base = [t2], 1
                        E2 = self.engine()
                        E2.start(self.f, [Ptr('sa', ZERO), Ptr('json', ZERO), C(flag)], n)
                        for b in E2.run(n):
                            rep.ob('continuations (path, compared with an uninterrupted run)')
                            d = self.differ(a, b) if b.end[0] == 'ret' else ['the outcome']
                            for x in d:
                                rep.violation('resume/serial/%s' % x, '%s differs when the input is split between two tokens' % x, 'executeAutomaton (streaming_automaton.c)',
                                              'split after token %s (innermost %s) in front of %s' % (TN[tok], TN.get(top, top), TN[t2]))
                        self.script, self.base = [tok, t2], 0


def run(rep):
    R = Resume()
    R.check_resume(rep)
    rep.saw('functions', 'executeAutomaton')
    for c in R.fn_seen:
        rep.saw('functions', c)
    rep.need('continuations (path, compared with an uninterrupted run)', 100)
    rep.rule('For every situation of the serial automaton and every token kind that can follow, evaluating two tokens in one call and in two calls must end in the same state with the same records.')
