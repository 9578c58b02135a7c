"""Transition relation of the serial streaming automaton, one token from an arbitrary well-nested situation."""
from engine import build
from engine.dom import *
from engine.interp import *
from engine.interp import put_entry
from engine import libc
from .common import Broken

LCB, RCB, LB, RB, COM, KY, PRI, END = 1, 2, 3, 4, 5, 6, 7, -1
TN = {1: '{', 2: '}', 3: '[', 4: ']', 5: ',', 6: 'key', 7: 'primitive', -1: 'end', None: 'nothing'}
OUTPUT, CONDITION, PREDICATE = 1, 2, 3

LAYOUT = {
    'StreamingAutomaton': ['query_automaton', 'syntax_stack', 'query_stack', 'tuple_list', 'query_state', 'count', 'matched_start',
                           'constraint_flag', 'constraint_table', 'finish_flag'],
    'SyntaxStack': ['symbol', 'top_item'], 'QueryStack': ['item', 'top_item'],
    'QueryStackElement': ['query_state', 'count', 'matched_start'],
    'Tuple': ['start_position', 'end_position', 'state', 'text', 'next_index'], 'TupleList': ['element', 'count'],
    'Lexer': ['current_pointer', 'current_start', 'next_start', 'begin_stream', 'end_stream', 'lex_state', 'content'],
    'Token': ['content', 'token_type'],
    'JSONQueryDFA': ['states_num', 'inputs_num', 'table', 'stop_state', 'accept_type', 'array_index', 'names'],
    'JSONQueryIndexPair': ['lower', 'upper'],
}
STEP = 'next'


def txt_handlers(H=None):
    """text utilities, each verified on its own under J02"""
    def strcopy(eng, st, a, i):
        return libc.strcpy(eng, st, (a[1], a[0]), i)

    def sl(eng, st, a):
        p, b, e = a
        if not isinstance(p, Ptr):
            raise_end(st, 'badptr')
        o = st.obj(p.obj)
        b, e = lin_of(b), lin_of(e)
        st.event('slice', p, b, e, st.where())
        return (('slice', o.name, o.ver, p.off + b, p.off + e),)

    def substring(eng, st, a, i):
        t = sl(eng, st, a)
        p = libc._alloc(eng, st, a, i, lin_of(a[2]) - lin_of(a[1]) + 1, 'undef')
        libc.set_text(st, p, t)
        return p

    def substring_in_place(eng, st, a, i):
        t = sl(eng, st, a[1:])
        libc.set_text(st, a[0], t)

    def alloc_copy(eng, st, a, i):
        return libc.strdup(eng, st, a, i)
    return {'strcopy': strcopy, 'substring': substring, 'substring_in_place': substring_in_place, 'allocate_and_copy': alloc_copy}


def dfa_next(eng, st, a, i):
    qa, s, k = a
    if not isinstance(qa, Ptr) or qa.obj != 'qa':
        st.event('badqa', qa, st.where())
    if k is NULL:
        key = 'ARRAY'
    elif isinstance(k, Ptr):
        key = libc.text_of(eng, st, k)
    else:
        key = k
    return atom((STEP, lin_of(s), key), 0)


def nonnull(o):
    return True


class Serial:
    def __init__(self, rep=None):
        self.P = build.program(['JSONQuery/streaming_automaton.c', 'JSONQuery/utility.c'])
        self.f = self.P.find('executeAutomaton')
        if self.f is None:
            raise Broken('executeAutomaton not found')
        self.L = build.layout(LAYOUT, ['"streaming_automaton.h"'])
        L = self.L
        self.SYM = L['StreamingAutomaton.syntax_stack'] + L['SyntaxStack.symbol']
        self.TOP = L['StreamingAutomaton.syntax_stack'] + L['SyntaxStack.top_item']
        self.QIT = L['StreamingAutomaton.query_stack'] + L['QueryStack.item']
        self.QTOP = L['StreamingAutomaton.query_stack'] + L['QueryStack.top_item']
        self.ES = L['QueryStackElement']
        self.fn_seen = set()
        self.nterm = 0
        self.nstates = 0
        self.blocks = set()
        self.bad = {}
        self.npath = 0
        self.lexobj = set()
        self.carried = 0

    # ---- contexts
    def contexts(self):
        for flag in (0, 1):
            for top in (None, KY, LB):
                yield (LCB, top, None, flag)
                yield (LB, top, None, flag)
            for top in (KY, LB):
                yield (PRI, top, None, flag)
            yield (KY, LCB, None, flag)
            for sec in (None, KY, LB):
                yield (RCB, LCB, sec, flag)
                yield (RB, LB, sec, flag)
            yield (COM, LCB, None, flag)
            yield (COM, LB, None, flag)
            yield (END, 'any', None, flag)

    def initial(self, tok, top, sec, flag):
        L = self.L
        st = State()
        o = Obj('sa', 'sym', C(L['StreamingAutomaton']), 'sym', meta={'load': self.sa_load, 'nonnull': True})
        st.mem['sa'] = o
        F = st.facts
        T, Q = atom('depth'), atom('qdepth')
        lo = {None: -1}.get(top, 0)
        if top == KY:
            lo = 1
        if sec == KY:
            lo = 2
        elif sec == LB:
            lo = 1
        qlo = -1
        if tok in (LCB, LB, PRI) and top in (KY, LB):
            qlo = 0
        if tok in (RCB,) and sec in (KY, LB):
            qlo = 0
        if tok == RB:
            qlo = 0 if sec is None else 1
        if top == LB:
            qlo = max(qlo, 0)
        F.assume_iv(T, lo, 97)
        F.assume_iv(Q, qlo, 97)
        F.assume_cmp('le', Q, T)
        if top is None:
            F.assume_iv(T, -1, -1)
            F.assume_iv(Q, -1, -1)
        if tok in (RCB, RB) and sec is None:
            F.assume_iv(T, 0, 0)
            F.assume_iv(Q, 0 if tok == RB else -1, 0 if tok == RB else -1)
        if tok == END:
            F.iv.clear()
            F.assume_iv(T, -1, 97)
            F.assume_iv(Q, -1, 97)
        w = lambda off, v, s=4: put_entry(st, st.obj('sa'), ('v', off if isinstance(off, Lin) else C(off), s, v, None))
        w(self.TOP, T)
        w(self.QTOP, Q)
        S, Cn, M = atom('state'), atom('count'), atom('matched_start')
        F.assume_iv(S, 0, INF)
        F.assume_iv(Cn, 0, INF)
        F.assume_iv(M, -1, INF)
        w(L['StreamingAutomaton.query_state'], S)
        w(L['StreamingAutomaton.count'], Cn)
        w(L['StreamingAutomaton.matched_start'], M)
        w(L['StreamingAutomaton.query_automaton'], Ptr('qa', ZERO), 8)
        w(L['StreamingAutomaton.tuple_list'], Ptr('tl', ZERO), 8)
        w(L['StreamingAutomaton.constraint_table'], Ptr('ct0', ZERO), 8)
        if top not in (None, 'any'):
            w(T.mul(4) + C(self.SYM), C(top))
        if sec is not None:
            w((T - C(1)).mul(4) + C(self.SYM), C(sec))
            if sec == KY:
                w((T - C(2)).mul(4) + C(self.SYM), C(LCB))
        if top == KY:
            w((T - C(1)).mul(4) + C(self.SYM), C(LCB))
        st.mem['tl'] = Obj('tl', 'sym', C(L['TupleList']), 'sym')
        TC = atom('ntuples')
        F.assume_iv(TC, -1, 4000000)
        put_entry(st, st.obj('tl'), ('v', C(L['TupleList.count']), 4, TC, None))
        st.mem['json'] = Obj('json', 'sym', None, 'sym', meta={'nonnull': True})
        st.ghost = {'tok': 0}
        return st

    def sa_load(self, st, o, off, size, ty):
        return None

    # ---- oracle for the scanner
    def next_token(self, eng, st, args, i):
        k = st.ghost['tok']
        n = self.base + k
        kind = self.script[k] if k < len(self.script) else END
        st.ghost['tok'] = k + 1
        lx = args[0]
        self.lexobj.add(lx.obj)
        L = self.L
        f = lambda name: Ptr(lx.obj, lx.off + L['Lexer.' + name])
        begin = Sem.read(st, st.obj(lx.obj), lx.off + L['Lexer.begin_stream'], 8, 'p')
        N = atom(('consumed', n), 1)
        if kind == END:
            return Agg([Ptr('stale', ZERO), C(END)])
        if n == 0:
            M = atom('matched_start')
            st.facts.assume_cmp('lt', M, N)
        if not isinstance(begin, Ptr):
            raise EngineError('scanner without input')
        put_entry(st, st.obj(lx.obj), ('v', f('next_start').off, 8, Ptr(begin.obj, begin.off + N), None))
        for x in ('current_pointer', 'current_start'):
            put_entry(st, st.obj(lx.obj), ('v', f(x).off, 8, Ptr(('lexpos', n, x), ZERO), None))
        content = Ptr('stale', ZERO)
        if kind in (KY, PRI):
            content = Sem.read(st, st.obj(lx.obj), lx.off + L['Lexer.content'], 8, 'p')
            if not isinstance(content, Ptr):
                raise EngineError('scanner without buffer')
            libc.set_text(st, content, (('cstr', ('token', n), 0, ZERO),))
        return Agg([content, C(kind)])

    def learn(self, eng, st, a, i):
        ct, s, ty, name = a
        t = None
        if ty == C(KY):
            t = libc.text_of(eng, st, name)
        st.event('learn', ct.obj if isinstance(ct, Ptr) else ct, lin_of(s), lin_of(ty), t, st.where())

    def create_ct(self, eng, st, a, i):
        p = libc._alloc(eng, st, a, i, None, 'sym')
        o = st.obj(p.obj)
        return p

    def engine(self, hidden=None):
        h = txt_handlers()
        h.update({'nextToken': self.next_token, 'dfaNextStateByStr': dfa_next, 'addConstraintInfo': self.learn,
                  'createConstraintTable': self.create_ct})
        E = Engine(self.P, h, nonnull=nonnull, small_unsigned=True, max_states=8000)
        E.arrivals = {}
        orig = E.header

        def header(st, fr, blk, back, E=E, orig=orig):
            if len(st.frames) == 1 and (st.ghost.get('_hdr') is None or st.ghost.get('_hdr') == blk):
                st.ghost['_hdr'] = blk
                n = st.ghost.get('_arr', 0)
                st.ghost['_arr'] = n + 1
                self.npath += 1
                st.ghost['path'] = self.npath
                live = liveness(fr.fn)
                keep = live[blk] | fr.fn._phis[blk]
                fr.loc = {k: v for k, v in fr.loc.items() if k in keep}
                snap = dict((('l', k), v) for k, v in fr.loc.items())
                for a in fr.allocas:
                    for e in st.obj(a).ents:
                        if e[0] == 'v':
                            snap[('m', a, e[1], e[2])] = e[3]
                        else:
                            snap[('m', a) + tuple(map(repr, e[1:3]))] = e[0]
                if n == 0 and hidden:
                    for k, v in hidden.items():
                        if k[0] == 'l' and k[1] in fr.loc:
                            fr.loc[k[1]] = conv(v, fr.loc[k[1]])
                        elif k[0] == 'm' and len(k) == 4 and k[1] in st.mem and isinstance(k[3], int):
                            put_entry(st, st.obj(k[1]), ('v', k[2], k[3], v, None))
                st.ghost['_s%d' % n] = snap
            return orig(st, fr, blk, back)
        E.header = header
        return E

    def run(self, ctx, hidden=None):
        tok, top, sec, flag = ctx
        self.script = [tok] if tok != END else []
        self.base = 0
        st = self.initial(*ctx)
        E = self.engine(hidden)
        E.start(self.f, [Ptr('sa', ZERO), Ptr('json', ZERO), C(flag)], st)
        T = E.run(st)
        self.nstates += E.nstates
        self.blocks |= E.visited
        for c in E.calls:
            self.fn_seen.add(c)
        return T

    # ---- reference transition
    def spec(self, st, ctx, h):
        """expected effect, deciding on the facts of the finished path (may raise Split)"""
        tok, top, sec, flag = ctx
        T, Q = atom('depth'), atom('qdepth')
        S, Cn, M = atom('state'), atom('count'), atom('matched_start')
        I0 = h['init']
        N = atom(('consumed', 0), 1)
        L = self.L

        def qel(pos):
            b = pos.mul(self.ES) + C(self.QIT)
            r = [Sem.read(st, I0, b + L['QueryStackElement.' + x], 4, 'i') for x in ('query_state', 'count', 'matched_start')]
            return tuple(r)

        def acc(s):
            return atom(('mem', ('ld', 'qa', 0, C(L['JSONQueryDFA.accept_type'])), s.mul(4), 0, 4))

        def bound(s, which):
            return atom(('mem', ('ld', 'qa', 0, C(L['JSONQueryDFA.array_index'])), s.mul(L['JSONQueryIndexPair']) + L['JSONQueryIndexPair.' + which], 0, 4))

        def inrange(s, c):
            lo, hi = bound(s, 'lower'), bound(s, 'upper')
            if st.decide('eq', lo, ZERO) and st.decide('eq', hi, ZERO):
                return True
            return st.decide('ge', c, lo) and st.decide('lt', c, hi)

        def mtype(s, c):
            for k in (OUTPUT, CONDITION, PREDICATE):
                if st.decide('eq', acc(s), C(k)):
                    if k == OUTPUT and not inrange(s, c):
                        return 0
                    return k
            return 0
        X = {'T': T, 'Q': Q, 'sym': {}, 'q': {}, 'cur': (S, Cn, (M,)), 'tup': [], 'learn': []}
        INV = C(-1)
        if tok in (COM, END):
            return X
        if tok == LCB:
            X['T'] = T + 1
            X['sym'][T + 1] = C(LCB)
            m = mtype(S, Cn)
            if m == PREDICATE and top != LB:
                return None
            if m == OUTPUT:
                X['cur'] = (S, Cn, (N - C(1),))
            else:
                X['cur'] = (S, Cn, (M, INV))
            if m == PREDICATE:
                X['tup'].append((S, (('lit', b'{'),)))
            if m == CONDITION:
                X['tup'].append((S, ()))
            return X
        if tok == LB:
            m = mtype(S, Cn)
            X['T'], X['Q'] = T + 1, Q + 1
            X['sym'][T + 1] = C(LB)
            X['q'][Q + 1] = (S, Cn, (N - C(1),) if m == OUTPUT else (M, INV))
            if m == CONDITION:
                X['tup'].append((S, ()))
            r = inrange(S, Cn)
            X['cur'] = (atom((STEP, S, 'ARRAY'), 0) if r else ZERO, ZERO, (INV,))
            X['learn'] = [(S, LB, None)] + ([] if r else [(ZERO, LB, None)])
            return X
        if tok == KY:
            text = (('cstr', ('token', 0), 0, ZERO),)
            X['T'], X['Q'] = T + 1, Q + 1
            X['sym'][T + 1] = C(KY)
            X['q'][Q + 1] = (S, Cn, (M,))
            r = inrange(S, Cn)
            X['cur'] = (atom((STEP, S, text), 0) if r else ZERO, ZERO, (INV,))
            X['learn'] = [(S, KY, text)] + ([] if r else [(ZERO, KY, text)])
            return X
        if tok == PRI:
            m = mtype(S, Cn)
            if m in (OUTPUT, CONDITION):
                X['tup'].append((S, (('cstr', ('token', 0), 0, ZERO),)))
            if top == KY:
                X['T'], X['Q'] = T - C(1), Q - C(1)
                e = qel(Q)
                X['cur'] = (e[0], e[1], (e[2],))
            else:
                X['cur'] = (S, Cn + 1, (M, INV))
            return X
        if tok == RCB:
            m = mtype(S, Cn)
            if m == PREDICATE and sec != LB:
                return None
            emit = False
            if not st.decide('eq', M, INV) and m == OUTPUT:
                emit = True
                X['tup'].append((S, (('slice', 'json', 0, M, N),)))
            if sec is None:
                X['T'] = T - C(1)
                X['cur'] = (S, Cn, (M, INV))
            elif sec == KY:
                X['T'], X['Q'] = T - C(2), Q - C(1)
                e = qel(Q)
                X['cur'] = (e[0], e[1], (e[2],))
            else:
                X['T'] = T - C(1)
                X['cur'] = (S, Cn + 1, (M, INV))
                if st.decide('eq', acc(S), C(PREDICATE)):
                    X['tup'].append((S, (('lit', b'}'),)))
            return X
        if tok == RB:
            e = qel(Q)
            emit = False
            if not st.decide('eq', e[2], INV) and mtype(e[0], e[1]) == OUTPUT:
                emit = True
                X['tup'].append((e[0], (('slice', 'json', 0, e[2], N),)))
            if sec is None:
                X['T'], X['Q'] = T - C(1), Q - C(1)
                X['cur'] = (e[0], e[1], (e[2], INV))
            elif sec == KY:
                X['T'], X['Q'] = T - C(2), Q - C(2)
                e2 = qel(Q - C(1))
                X['cur'] = (e2[0], e2[1], (e2[2],))
            else:
                X['T'], X['Q'] = T - C(1), Q - C(1)
                X['cur'] = (e[0], e[1] + 1, (e[2], INV))
            return X

    # ---- comparison
    def compare(self, st, ctx, h, X, out):
        tok, top, sec, flag = ctx
        L = self.L
        sa = st.obj('sa')
        if st.end[0] != 'ret':
            out('path', 'evaluation stops (%s) at %s' % (st.end[0], st.end[-1]))
            return
        F = st.facts
        eq = lambda a, b: isinstance(a, Lin) and isinstance(b, Lin) and F.cmp('eq', a, b) is True
        rd = lambda off, s=4, ty='i': Sem.read(st, st.obj('sa'), off if isinstance(off, Lin) else C(off), s, ty)
        T1, Q1 = rd(self.TOP), rd(self.QTOP)
        if not eq(T1, X['T']):
            out('nesting', 'nesting stack top becomes %s, expected %s' % (T1, X['T']))
        if not eq(Q1, X['Q']):
            out('nesting', 'query stack top becomes %s, expected %s' % (Q1, X['Q']))
        for pos, v in X['sym'].items():
            g = rd(pos.mul(4) + C(self.SYM))
            if not eq(g, v):
                out('nesting', 'symbol at nesting level %s is %s, expected %s' % (pos, g, v))
        names = ('query_state', 'count', 'matched_start')
        kinds = ('position', 'counter', 'match')
        for pos, el in X['q'].items():
            b = pos.mul(self.ES) + C(self.QIT)
            for k, nm in enumerate(names):
                g = rd(b + L['QueryStackElement.' + nm])
                exp = el[k] if k == 2 else (el[k],)
                if not any(eq(g, x) for x in exp):
                    out(kinds[k], 'saved %s is %s, expected %s' % (nm, g, ' or '.join(map(str, exp))))
        # nothing else on the stacks changes
        init = h['init']
        for e in sa.ents:
            if e[0] != 'v' or e in init.ents:
                continue
            for base, size, n, exps, topx, what in ((self.SYM, 4, 100, X['sym'], X['T'], 'nesting'), (self.QIT, self.ES, 100, X['q'], X['Q'], 'position')):
                d = e[1] - C(base)
                if e[4] is not None and e[4][0] == C(base) or (not d.t and 0 <= d.c < size * n):
                    q = div_exact(d - C(d.c % size), size)
                    if q is None:
                        continue
                    if any(eq(q, p) for p in exps):
                        continue
                    if F.cmp('gt', q, topx):
                        continue
                    old = Sem.read(st, init, e[1], e[2], 'i')
                    if not eq(old, e[3]):
                        out(what, 'level %s of the %s stack is overwritten' % (q, 'nesting' if base == self.SYM else 'query'))
        for k, nm in enumerate(names):
            g = rd(L['StreamingAutomaton.' + nm])
            exp = X['cur'][k] if k == 2 else (X['cur'][k],)
            if not any(eq(g, x) for x in exp):
                out(kinds[k], 'current %s is %s, expected %s' % (nm, g, ' or '.join(map(str, exp))))
        # records
        tl = st.obj('tl')
        TC = atom('ntuples')
        n1 = Sem.read(st, tl, C(L['TupleList.count']), 4, 'i')
        exp = TC + len(X['tup'])
        got = self.records(st, n1)
        if not eq(n1, exp):
            out('record', '%s record(s) added, expected %d' % (n1 - TC, len(X['tup'])), got)
        else:
            for k, (s, t) in enumerate(X['tup']):
                b = (TC + 1 + k).mul(L['Tuple'])
                gs = Sem.read(st, tl, b + L['Tuple.state'], 4, 'i')
                gt = cstring(st, Ptr('tl', b + L['Tuple.text']))
                if not eq(gs, s):
                    out('record', 'record carries query position %s, expected %s' % (gs, s), got)
                if norm_text(gt) != norm_text(t) and not text_eq(st, gt, t):
                    out('text', 'record text is %s, expected %s' % (show_text(gt), show_text(t)), got)
        p = rd(L['StreamingAutomaton.tuple_list'], 8, 'p')
        if p != Ptr('tl', ZERO):
            out('record', 'the record list is replaced')
        # learning
        ev = [e for e in st.events if e[0] == 'learn']
        gotl = [(e[2], e[3], e[4]) for e in ev]
        if flag == 0:
            if ev:
                out('learn', 'constraints are learned although learning is off')
        else:
            ctp = rd(L['StreamingAutomaton.constraint_table'], 8, 'p')
            for e in ev:
                if not (isinstance(ctp, Ptr) and e[1] == ctp.obj):
                    out('learn', 'constraint recorded in another table than the one handed on')
            want = list(X['learn'])
            for (s, ty, t) in gotl:
                m = [w for w in want if eq(s, w[0]) and ty == C(w[1]) and (w[2] is None or w[2] == t)]
                if m:
                    want.remove(m[0])
                elif not [w for w in X['learn'] if eq(s, w[0]) and ty == C(w[1]) and (w[2] is None or w[2] == t)]:
                    out('learn', 'unexpected constraint: position %s for %s' % (s, TN.get(ty.c, ty)))
            for w in want:
                out('learn', 'no constraint recorded: position %s for %s' % (w[0], TN[w[1]]))
            if flag == 1 and (not isinstance(ctp, Ptr) or st.obj(ctp.obj).kind != 'heap'):
                out('learn', 'no new constraint table')
            fl = rd(L['StreamingAutomaton.constraint_flag'])
            if not eq(fl, C(1)):
                out('learn', 'learned table is not announced')
        for e in st.events:
            if e[0] in ('uaf', 'badptr', 'doublefree', 'badfree', 'divzero', 'badqa'):
                out('memory', '%s at %s' % (e[0], e[-1]))
            if e[0] == 'undef':
                out('memory', 'a value that was never set is used at %s' % e[-1])
        # temporary memory of this call
        seen, work = set(), ['sa', 'tl']
        while work:
            n = work.pop()
            if n in seen or n not in st.mem:
                continue
            seen.add(n)
            work += [e[3].obj for e in st.mem[n].ents if e[0] == 'v' and isinstance(e[3], Ptr)]
        for n, o in st.mem.items():
            if o.kind == 'heap' and not o.freed and n not in seen:
                out('leak', 'memory allocated at %s is never released' % o.meta.get('site'))
        for n, o in st.mem.items():
            if n in ('qa', 'json') or isinstance(n, tuple) and n[0] == 'ld' and n[1] == 'qa':
                if o.ents:
                    out('readonly', 'writes to %s' % key_name(n))

    def records(self, st, n1):
        tl = st.obj('tl')
        L = self.L
        out = []
        for e in tl.ents:
            if e[0] == 's':
                out.append(show_text(e[2]))
        return 'records written: ' + ' | '.join(out) if out else 'no record text written'

    def check(self, rep_out, hidden=None):
        """rep_out(ctx, st, kind, message, detail)"""
        results = []
        for ctx in self.contexts():
            T = self.run(ctx, hidden)
            if not T:
                raise Broken('no completed path for ' + str(ctx))
            work = list(T)
            while work:
                st = work.pop()
                h = {'init': None}
                h['init'] = self.initial(*ctx).mem['sa']
                try:
                    X = self.spec(st, ctx, h)
                    if X is None:
                        continue
                    self.nterm += 1
                    buf = []
                    self.compare(st, ctx, h, X, lambda k, m, d=None: buf.append((k, m, d)))
                except Split as sp:
                    for a in sp.alts:
                        s2 = st.copy()
                        if a(s2):
                            work.append(s2)
                    continue
                for k, m, d in buf:
                    rep_out(ctx, st, k, m, d)
                results.append((ctx, st, bool(buf)))
        return results

    def hidden_of(self, results):
        """local variables that survive a token and are not a function of the saved state: their possible values"""
        vals = {}
        for ctx, st, bad in results:
            if bad or '_s1' not in st.ghost or ctx[0] == END:
                continue
            s1 = st.ghost['_s1']
            key = (ctx, tuple(sorted(((repr(k), repr(v)) for k, v in s1.items()))))
            # fresh entry from the state left behind
            self.script, self.base = [], 1
            n = State()
            n.mem = {k: v for k, v in st.mem.items() if not (isinstance(k, tuple) and k[0] == 'loc')}
            n.facts = st.facts.copy()
            n.ghost = {'tok': 0}
            E = self.engine()
            E.start(self.f, [Ptr('sa', ZERO), Ptr('json', ZERO), C(ctx[3])], n)
            for t in E.run(n):
                s0 = t.ghost.get('_s0')
                if s0 is None:
                    continue
                d = {}
                for k, a in s1.items():
                    b = s0.get(k)
                    if k[0] == 'm' and k[1] in self.lexobj:
                        continue
                    if same(a, b) or isinstance(a, Lin) and isinstance(b, Lin) and t.facts.cmp('eq', a, b):
                        continue
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj != b.obj and str(a.obj).startswith("('heap'") and str(b.obj).startswith("('heap'"):
                        continue
                    d[k] = a
                if d:
                    vals.setdefault(tuple(sorted(((k, v) for k, v in d.items()), key=repr)), ctx)
        return vals

    def closure(self, rep_out, limit=24):
        """check every context from a fresh entry, then from every value local variables can carry over from earlier tokens"""
        seen, work = set(), [None]
        total = 0
        while work:
            h = work.pop(0)
            hid = None
            if h is not None:
                hid = {}
                for n, (k, v) in enumerate(h):
                    if isinstance(v, Lin) and not v.is_const():
                        v = atom(('carried', repr(k)))
                    hid[k] = v
            R = self.check(rep_out if h is None else (lambda c, st, k, m, d: rep_out(c, st, k, m + ' (after an earlier token left a local variable changed)', d)), hid)
            total += len(R)
            for v, ctx in self.hidden_of(R).items():
                w = tuple((k, x if isinstance(x, Lin) and x.is_const() or not isinstance(x, Lin) else 'any') for k, x in v)
                if w not in seen:
                    seen.add(w)
                    if len(seen) > limit:
                        raise Broken('too many carried-over local values')
                    work.append(v)
        self.carried = len(seen)
        return total


def text_eq(st, a, b):
    a, b = norm_text(a), norm_text(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == 'slice':
            if x[1:3] != y[1:3] or not st.facts.cmp('eq', x[3], y[3]) or not st.facts.cmp('eq', x[4], y[4]):
                return False
        elif x != y:
            return False
    return True


def conv(v, old):
    return v


def run(rep, want):
    """serial harness for one property; want(kind, st) selects the mismatches that concern it"""
    S = Serial()

    def out(ctx, st, kind, msg, detail):
        if not want(kind, st, S):
            return
        tok, top, sec, flag = ctx
        where = 'executeAutomaton (streaming_automaton.c)'
        at = 'token %s, innermost %s%s%s' % (TN[tok], TN.get(top, top), ', inside %s' % TN[sec] if tok in (RCB, RB) else '', ', learning' if flag else '')
        rep.violation('serial/%s/%s in %s' % (kind, TN[tok], TN.get(sec if tok in (RCB, RB) else top, top)), msg, where, at + (': ' + detail if detail else ''))
    n = S.closure(out)
    rep.ob('token situations of the serial automaton (path, fully compared)', n)
    rep.saw('functions', 'executeAutomaton')
    for f in S.fn_seen:
        rep.saw('callees', f)
    rep.need('token situations of the serial automaton (path, fully compared)', 100)
    rep.rule('Every path of executeAutomaton for one token from an arbitrary well-nested situation (token kind x innermost x enclosing bracket x learning mode, all other values symbolic) is compared with the reference transition.')
    rep.notes.append('nesting depth below the stack capacity (the capacity itself: J21); token sequence is well-nested JSON; scanner, table lookup and copying helpers replaced by their specification (J01, J07, J02)')
    return S


def ranged(st, L):
    """the path depends on the index range of a position"""
    o = ('ld', 'qa', 0, C(L['JSONQueryDFA.array_index']))
    for f in st.facts.iv:
        for a, _ in f:
            k = atom_key(a)
            if k[0] == 'mem' and k[1] == o:
                return True
    return False
