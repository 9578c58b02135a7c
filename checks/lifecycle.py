"""The interface functions over several input portions: state hand-over (J18) and releases (J19)."""
from engine import build, libc
from engine.dom import *
from engine.interp import *
from engine.interp import put_entry
from .common import Broken
from .search import exhausted

LAY = {'PathProcessor': ['query_context', 'query_automaton'],
       'StreamingAutomaton': ['query_automaton', 'syntax_stack', 'query_stack', 'tuple_list', 'query_state', 'count', 'matched_start', 'constraint_flag', 'constraint_table', 'finish_flag'],
       'SyntaxStack': ['symbol', 'top_item'], 'QueryStack': ['item', 'top_item'], 'QueryStackElement': ['query_state', 'count', 'matched_start'],
       'TupleList': ['element', 'count'], 'PartitionInfo': ['stream', 'num_chunk'],
       'ThreadInfo': ['thread_id', 'input_stream', 'worker_automaton'],
       'WorkerAutomaton': ['id', 'query_automaton', 'syntax_stack', 'query_stacks', 'query_stacks_element', 'tuple_list', 'constraint_flag', 'constraint_table', 'need_reprocess', 'initial_flag'],
       'PredicateFilter': ['tuple_list', 'ctx', 'predicate_conditions', 'pstack', 'buffer', 'output', 'finish_flag'],
       'PredicateStack': ['elements', 'top_element'], 'PredicateStackElement': ['predicate_state', 'output_buffer_pointer', 'conditions'],
       'PredicateCondition': ['name', 'text'], 'Output': ['element', 'count'], 'ASTNode': ['string'], 'QueryStacks': [], 'JSONQueryDFAContext': ['states_num', 'subtrees', 'states_mapping', 'array_predicate_states'], 'JSONQueryIntVecPair': ['value', 'value_size'],
       'JSONQueryDFA': ['states_num', 'inputs_num', 'table', 'stop_state', 'accept_type', 'array_index', 'names'], 'QueryStacksElement': []}
INC = ['<stdio.h>', '<stdlib.h>', '<string.h>', '"path_processor.h"']
PORTIONS = 3
PRED = {1: [41], 99: [42, 43]}


class Life:
    def __init__(self, rep, P=None):
        self.rep = rep
        self.P = P or build.program([('verif_life.c', build.API_TU), 'JSONQuery/predicate.c'])
        self.L = build.layout(LAY, INC)
        self.K = build.consts(['OPEN', 'CLOSE', 'INVALID'], INC)
        for f in ('serialRun', 'parallelRun', 'parallelRunOpt', 'collectDataConstraints', 'createPathProcessor', 'freePathProcessor'):
            if self.P.find(f) is None:
                raise Broken(f + ' not found')
        L = self.L
        S = 'StreamingAutomaton.'
        ss, qs = L[S + 'syntax_stack'], L[S + 'query_stack']
        self.sa_cells = [(ss + L['SyntaxStack.top_item'], 'the nesting depth')] + [(ss + L['SyntaxStack.symbol'] + 4 * k, 'the nesting stack') for k in (0, 50, 99)] + \
            [(qs + L['QueryStack.top_item'], 'the depth of the query stack')] + \
            [(qs + L['QueryStack.item'] + k * L['QueryStackElement'] + L['QueryStackElement.' + f], 'the query stack') for k in (0, 99) for f in ('query_state', 'count', 'matched_start')] + \
            [(L[S + 'query_state'], 'the query position'), (L[S + 'count'], 'the element index'), (L[S + 'matched_start'], 'the start of the open match')]
        W = 'WorkerAutomaton.'
        def part(a, n, what):
            return [(L[W + a] + k, what) for k in sorted({0, 4, n // 8 * 4, n - 4})]
        self.wa_cells = part('syntax_stack', L['SyntaxStack'], 'the nesting stack') + part('query_stacks', L['QueryStacks'], 'the query stacks') + part('query_stacks_element', L['QueryStacksElement'], 'the current query positions')
        self.outcomes = 0

    # ---- reading and writing of the model
    def rd(self, st, p, off=0, size=4, ty='i'):
        return Sem.read(st, st.obj(p.obj), p.off + off, size, ty)

    def wr(self, st, p, off, v, size=4):
        put_entry(st, st.obj(p.obj), ('v', p.off + off, size, v, None))

    def live(self, st, p, what):
        if not isinstance(p, Ptr):
            st.event('fault', 'mem', '%s is not set' % what, st.where())
            return False
        o = st.obj(p.obj)
        if o.freed:
            st.event('fault', 'gone', '%s has been released before' % what, st.where())
            return False
        return True

    def stream(self, st, p, what):
        """the text of the current portion"""
        if self.live(st, p, what):
            cur = st.ghost.get('_portion')
            if p.obj not in st.ghost.get('_streams', ()):
                st.event('fault', 'resume', '%s is not the one of the current portion' % what, st.where())

    def records(self, st, p, what):
        L = self.L
        if not self.live(st, p, what):
            return False
        n = self.rd(st, p, L['TupleList.count'])
        if n != C(-1):
            st.event('fault', 'repeat', 'a portion starts with %s that already holds records of an earlier one' % what, st.where())
        return True

    def handlers(self):
        L = self.L

        def load(eng, st, a, i):
            k = st.ghost.get('_loads', 0)
            more = k < PORTIONS and st.choose(('another portion', k))
            st.ghost['_loads'] = k + 1
            if not more:
                return NULL
            p = libc._alloc(eng, st, a, i, None, 'sym')
            st.ghost['_streams'] = (p.obj,)
            st.ghost['_portion'] = k
            return p

        def execute(eng, st, a, i):
            """serial evaluation of one portion"""
            sa, js, flag = a
            k = st.ghost.get('_runs', 0)
            st.ghost['_runs'] = k + 1
            self.stream(st, js, 'the text that is evaluated')
            if self.rd(st, sa, L['StreamingAutomaton.query_automaton'], 8, 'p') != Ptr('qa', ZERO):
                st.event('fault', 'resume', 'another query is evaluated', st.where())
            tl = self.rd(st, sa, L['StreamingAutomaton.tuple_list'], 8, 'p')
            ok = self.records(st, tl, 'a record list')
            exp = st.ghost.get('_sa')
            S = 'StreamingAutomaton.'
            if exp is None:
                init = {L[S + 'query_state']: C(1), L[S + 'count']: ZERO, L[S + 'matched_start']: C(self.K['INVALID']),
                        L[S + 'syntax_stack'] + L['SyntaxStack.top_item']: C(-1), L[S + 'query_stack'] + L['QueryStack.top_item']: C(-1)}
            else:
                init = exp
            for off, what in self.sa_cells:
                if off in init and self.rd(st, sa, off) != init[off]:
                    st.event('fault', 'resume', '%s starts with %s' % (what, 'another value than the previous portion ended with' if exp else 'another value than the initial one'), st.where())
            new = {}
            for off, what in self.sa_cells:
                new[off] = atom(('sa', k, off))
                self.wr(st, sa, off, new[off])
            st.ghost['_sa'] = new
            if flag == C(self.K['OPEN']):
                ct = self.rd(st, sa, L[S + 'constraint_table'], 8, 'p')
                if ct is not NULL:
                    if self.live(st, ct, 'the previous constraint table'):
                        st.mem[ct.obj] = st.mem[ct.obj].rep(freed=True)
                p = libc._alloc(eng, st, a, i, None, 'sym')
                self.wr(st, sa, L[S + 'constraint_table'], p, 8)
                st.ghost['_ct'] = p
            if ok:
                n = atom(('records', k), 0)
                self.wr(st, tl, L['TupleList.count'], n)
                st.ghost['_tl'] = (tl, n)
            return ZERO

        def filt(eng, st, a, i):
            """filtering of the records of one portion"""
            pf = a[0]
            F = 'PredicateFilter.'
            tl = self.rd(st, pf, L[F + 'tuple_list'], 8, 'p')
            cur = st.ghost.get('_tl')
            k = st.ghost.get('_filters', 0)
            st.ghost['_filters'] = k + 1
            if cur is None:
                st.event('fault', 'repeat', 'records are filtered twice or before evaluation', st.where())
            elif self.live(st, tl, 'the record list that is filtered') and (tl != cur[0] or self.rd(st, tl, L['TupleList.count']) != cur[1]):
                st.event('fault', 'repeat', 'other records are filtered than those of the current portion', st.where())
            st.ghost['_tl'] = None
            if self.rd(st, pf, L[F + 'ctx'], 8, 'p') != Ptr('ctx', ZERO):
                st.event('fault', 'resume', 'the filter works on another query', st.where())
            out = self.rd(st, pf, L[F + 'output'], 8, 'p')
            buf = self.rd(st, pf, L[F + 'buffer'], 8, 'p')
            exp = st.ghost.get('_pf')
            top = L[F + 'pstack'] + L['PredicateStack.top_element']
            el = L[F + 'pstack'] + L['PredicateStack.elements']
            for s in sorted(PRED):
                c = self.rd(st, pf, L[F + 'predicate_conditions'] + 8 * s, 8, 'p')
                self.live(st, c, 'the condition list of a filter')
            ok = self.live(st, out, 'the result list')
            if exp is None:
                if buf is not NULL:
                    st.event('fault', 'resume', 'the filter starts with candidates', st.where())
                if ok and self.rd(st, out, L['Output.count']) != C(-1):
                    st.event('fault', 'resume', 'the result list is not empty at the start', st.where())
                if self.rd(st, pf, top) != C(-1):
                    st.event('fault', 'resume', 'the filter starts with open elements', st.where())
                buf = self.newout(eng, st, a, i)
                self.wr(st, pf, L[F + 'buffer'], buf, 8)
                con = libc._alloc(eng, st, a, i, C(2 * L['PredicateCondition']), 'undef')
                self.wr(st, con, L['PredicateCondition.name'], Ptr('elements', ZERO), 8)
                self.wr(st, con, L['PredicateCondition.text'], libc._alloc(eng, st, a, i, None, 'sym'), 8)
                self.wr(st, con, L['PredicateCondition'] + L['PredicateCondition.name'], NULL, 8)
                self.wr(st, pf, el + L['PredicateStackElement.conditions'], con, 8)
                self.wr(st, pf, top, ZERO)
            else:
                if out != exp['out']:
                    st.event('fault', 'resume', 'results of earlier portions are lost', st.where())
                elif ok and self.rd(st, out, L['Output.count']) != exp['nout']:
                    st.event('fault', 'resume', 'the result list is changed between portions', st.where())
                if buf != exp['buf']:
                    st.event('fault', 'resume', 'undecided candidates of earlier portions are lost', st.where())
                elif self.live(st, buf, 'the candidate list') and self.rd(st, buf, L['Output.count']) != exp['nbuf']:
                    st.event('fault', 'resume', 'undecided candidates are changed between portions', st.where())
                if self.rd(st, pf, top) != ZERO:
                    st.event('fault', 'resume', 'open filtered elements of earlier portions are lost', st.where())
                else:
                    con = self.rd(st, pf, el + L['PredicateStackElement.conditions'], 8, 'p')
                    if con != exp['con']:
                        st.event('fault', 'resume', 'conditions of open filtered elements are lost', st.where())
                    else:
                        self.live(st, con, 'the condition list of an open element')
                    for f in ('predicate_state', 'output_buffer_pointer'):
                        if self.rd(st, pf, el + L['PredicateStackElement.' + f]) != exp[f]:
                            st.event('fault', 'resume', 'an open filtered element is changed between portions', st.where())
            con = self.rd(st, pf, el + L['PredicateStackElement.conditions'], 8, 'p')
            new = {'out': out, 'buf': buf, 'con': con, 'nout': atom(('nout', k), 0), 'nbuf': atom(('nbuf', k), 0)}
            for f in ('predicate_state', 'output_buffer_pointer'):
                new[f] = atom((f, k), 0)
                self.wr(st, pf, el + L['PredicateStackElement.' + f], new[f])
            for p, n in ((out, 'nout'), (buf, 'nbuf')):
                if isinstance(p, Ptr) and not st.obj(p.obj).freed:
                    self.wr(st, p, L['Output.count'], new[n])
            st.ghost['_pf'] = new
            return out

        def split(eng, st, a, i):
            self.stream(st, a[0], 'the text that is split')
            k = 2
            tab = libc._alloc(eng, st, a, i, C(8 * k), 'undef')
            ch = []
            for j in range(k):
                c = libc._alloc(eng, st, a, i, None, 'sym')
                self.wr(st, tab, 8 * j, c, 8)
                ch.append(c.obj)
            st.ghost['_streams'] = tuple(ch)
            return Agg([tab, C(k)])

        def thread(eng, st, a, i):
            """a worker evaluates one chunk"""
            ti = a[3]
            W = 'WorkerAutomaton.'
            js = self.rd(st, ti, L['ThreadInfo.input_stream'], 8, 'p')
            self.stream(st, js, 'the chunk that is evaluated')
            wa = self.rd(st, ti, L['ThreadInfo.worker_automaton'], 8, 'p')
            if not self.live(st, wa, 'a worker'):
                return ZERO
            if self.rd(st, wa, L[W + 'query_automaton'], 8, 'p') != Ptr('qa', ZERO):
                st.event('fault', 'resume', 'another query is evaluated', st.where())
            tl = self.rd(st, wa, L[W + 'tuple_list'], 8, 'p')
            ok = self.records(st, tl, 'a record list')
            exp = st.ghost.get('_wa')
            if self.rd(st, ti, L['ThreadInfo.thread_id']) == ZERO:
                if exp is None:
                    st.ghost['_ini'] = tuple(self.rd(st, wa, L[W + f]) for f in ('need_reprocess', 'initial_flag'))
                else:
                    if wa != exp['wa']:
                        st.event('fault', 'resume', 'the worker of the first chunk does not continue the previous portion', st.where())
                    else:
                        for off, what in self.wa_cells:
                            if self.rd(st, wa, off) != exp[off]:
                                st.event('fault', 'resume', '%s starts with another value than the previous portion ended with' % what, st.where())
                        for f in ('need_reprocess', 'initial_flag'):
                            if self.rd(st, wa, L[W + f]) != exp[f]:
                                st.event('fault', 'resume', 'the first worker forgets that it continues a document', st.where())
                st.ghost['_w0'] = wa
            if ok:
                self.wr(st, tl, L['TupleList.count'], atom(('recorded', st.ghost.get('_runs', 0)), 0))
            return ZERO

        def merge(eng, st, a, i):
            W = 'WorkerAutomaton.'
            k = st.ghost.get('_runs', 0)
            st.ghost['_runs'] = k + 1
            n = a[1]
            for j in range(n.c if isinstance(n, Lin) and n.is_const() else 0):
                w = self.rd(st, a[0], j * L['ThreadInfo'] + L['ThreadInfo.worker_automaton'], 8, 'p')
                if self.live(st, w, 'a worker that is merged'):
                    self.live(st, self.rd(st, w, L[W + 'tuple_list'], 8, 'p'), 'a record list that is merged')
            wa = self.rd(st, a[0], L['ThreadInfo.worker_automaton'], 8, 'p')
            if not self.live(st, wa, 'the first worker'):
                return NULL
            new = {'wa': wa}
            for off, what in self.wa_cells:
                new[off] = atom(('wa', k, off))
                self.wr(st, wa, off, new[off])
            for f in ('need_reprocess', 'initial_flag'):
                new[f] = atom((f, k))
                self.wr(st, wa, L[W + f], new[f])
            st.ghost['_wa'] = new
            tl = self.rd(st, wa, L[W + 'tuple_list'], 8, 'p')
            if isinstance(tl, Ptr) and not st.obj(tl.obj).freed:
                m = atom(('records', k), 0)
                self.wr(st, tl, L['TupleList.count'], m)
                st.ghost['_tl'] = (tl, m)
            return tl

        def newout(eng, st, a, i):
            return self.newout(eng, st, a, i)

        def freeout(eng, st, a, i):
            return libc.free(eng, st, a, i)

        def const(st, v):
            r = st.facts.value(lin_of(v))
            if r is None:
                raise EngineError('position is not constant')
            return r
        h = {'loadBoundedInputStream': load, 'loadInputStream': load, 'executeAutomaton': execute, 'generateFinalOutput': filt, 'partitionInputStream': split,
             'pthread_create': thread, 'pthread_join': lambda e, s, a, i: ZERO, 'combine': merge, 'createOutput': newout, 'freeOutput': freeout,
             'getContextSizeOfPredicateStates': lambda e, s, a, i: C(len(PRED)),
             'getContextPredicateStates': lambda e, s, a, i: C(sorted(PRED)[const(s, a[1])]),
             'getContextSizeOfMapping': lambda e, s, a, i: C(len(PRED[const(s, a[1])])),
             'getContextValueOfMapping': lambda e, s, a, i: C(PRED[const(s, a[1])][const(s, a[2])]),
             'getContextSubtree': lambda e, s, a, i: Ptr('node', ZERO)}
        return h

    def newout(self, eng, st, a, i):
        p = libc._alloc(eng, st, a, i, C(self.L['Output']), 'undef')
        self.wr(st, p, self.L['Output.count'], C(-1))
        self.wr(st, p, self.L['Output.element'], Ptr('elements', ZERO), 8)
        return p

    def run(self, fn, extra=()):
        L = self.L
        f = self.P.find(fn)
        st = State()
        for n in ('pp', 'qa', 'ctx', 'ct', 'node', 'elements', 'file'):
            st.mem[n] = Obj(n, 'sym', C(L['PathProcessor']) if n == 'pp' else None, 'sym', meta={'nonnull': True})
        self.wr(st, Ptr('pp', ZERO), L['PathProcessor.query_context'], Ptr('ctx', ZERO), 8)
        self.wr(st, Ptr('pp', ZERO), L['PathProcessor.query_automaton'], Ptr('qa', ZERO), 8)
        E = Engine(self.P, self.handlers(), nonnull=lambda o: True, small_unsigned=True, unroll=110, max_states=20000)
        E.start(f, [Ptr('pp', ZERO), Ptr('file', ZERO)] + list(extra), st)
        T = E.run(st)
        if not T:
            raise Broken('no path through ' + fn)
        self.rep.saw('functions', fn)
        for c in E.calls:
            self.rep.saw('functions', c)
        return T

    def faults(self, t, fn, what, want):
        for e in t.events:
            if e[0] == 'fault' and (e[1] in want or e[1] == 'gone'):
                self.rep.violation('life/%s/%s/%s' % (e[1], fn, e[2]), e[2], e[-1], what)
            elif 'mem' in want and e[0] in ('uaf', 'doublefree', 'badfree', 'badptr', 'undef'):
                msg = {'uaf': 'memory is used after its release', 'doublefree': 'memory is released twice', 'badfree': 'memory is released that was not allocated',
                       'badptr': 'an unset or null pointer is used', 'undef': 'a value that was never set is used'}[e[0]]
                self.rep.violation('life/%s/%s' % (e[0], e[-1]), msg, e[-1], '%s: %s' % (fn, what))
        if t.end[0] != 'ret' and 'mem' in want:
            self.rep.violation('life/stop/%s' % fn, 'the call stops (%s)' % t.end[0], str(t.end[-1]), what)

    def leaks(self, t, roots, fn, what):
        seen, work = set(), [r.obj for r in roots if isinstance(r, Ptr)]
        while work:
            n = work.pop()
            if n in seen or n not in t.mem:
                continue
            seen.add(n)
            for e in t.mem[n].ents:
                if e[0] == 'v' and isinstance(e[3], Ptr):
                    work.append(e[3].obj)
        for n, o in t.mem.items():
            if o.kind == 'heap' and not o.freed and n not in seen:
                site = o.meta.get('site')
                self.rep.violation('life/leak/%s/%s' % (fn, site), 'memory allocated here is never released', site, '%s: %s' % (fn, what))

    def check(self, want):
        """want: subset of {'resume', 'repeat', 'mem'}"""
        rep = self.rep
        for fn, extra in (('serialRun', ()), ('parallelRun', (C(2),)), ('parallelRunOpt', (C(2), Ptr('ct', ZERO)))):
            for t in self.run(fn, extra):
                n = t.ghost.get('_loads', 1) - 1
                what = '%d input portion%s' % (n, '' if n == 1 else 's') if n else 'the file does not exist'
                rep.ob('histories of the interface functions')
                self.faults(t, fn, what, want)
                if t.end[0] != 'ret':
                    continue
                if 'mem' in want:
                    self.leaks(t, [t.ret], fn, what)
                last = t.ghost.get('_pf')
                if n == 0 and t.ret is not NULL and 'mem' in want:
                    rep.violation('life/missing/%s' % fn, 'a missing file does not lead to an empty result', fn, what)
                if n and t.ghost.get('_filters', 0) != n and 'repeat' in want:
                    rep.violation('life/repeat/%s' % fn, '%d portions are evaluated %d times' % (n, t.ghost.get('_filters', 0)), fn, what)
                if n and last and t.ret != last['out'] and 'repeat' in want:
                    rep.violation('life/result/%s' % fn, 'the result list is not what is returned', fn, what)
        for t in self.run('collectDataConstraints'):
            what = 'the file %s' % ('exists' if t.ghost.get('_runs') else 'does not exist')
            rep.ob('histories of the interface functions')
            self.faults(t, 'collectDataConstraints', what, want)
            if t.end[0] == 'ret' and 'mem' in want:
                self.leaks(t, [t.ret], 'collectDataConstraints', what)
                if t.ret != t.ghost.get('_ct', NULL):
                    rep.violation('life/learn', 'the learned constraints are not what is returned', 'collectDataConstraints', what)
        if 'mem' in want:
            self.processor()
            self.lists()

    def lists(self):
        """a result list releases all it allocates"""
        L, rep = self.L, self.rep
        N = build.consts(['MAX_OUTPUT'], INC)['MAX_OUTPUT']
        P = self.P
        if P.find('createOutput') is None or P.find('freeOutput') is None:
            rep.undec('createOutput or freeOutput not found')
            return
        st = State()
        st.mem['list'] = Obj('list', 'heap', C(L['Output']), 'sym', (('v', C(L['Output.element']), 8, Ptr('elems', ZERO), None),), meta={'nonnull': True})
        st.mem['elems'] = Obj('elems', 'heap', C(8 * N), 'sym', meta={'nonnull': True})
        E = Engine(P, {}, nonnull=lambda o: True, small_unsigned=True)
        E.start(P.find('freeOutput'), [Ptr('list', ZERO)], st)

        def freed(b, j):
            for e in b.events:
                if e[0] == 'free' and isinstance(e[1], tuple) and e[1][0] == 'ld' and e[1][1] == 'elems':
                    i = div_exact(e[1][3], 8)
                    if i is not None and b.facts.cmp('eq', i, j) is True:
                        return True
            return False
        for t in E.run(st):
            rep.ob('histories of the interface functions')
            self.faults(t, 'freeOutput', 'a result list is released', {'mem'})
            why = exhausted(E, t, ZERO, C(N), freed)
            if why:
                rep.violation('life/leak/freeOutput', 'not every text of a released list is released (%s)' % why, 'freeOutput (output.h)')
            for n in ('list', 'elems'):
                if not t.obj(n).freed:
                    rep.violation('life/leak/freeOutput', 'a released list is not released completely', 'freeOutput (output.h)')

    def processor(self):
        """creating and freeing the compiled query"""
        L, rep = self.L, self.rep

        def build_(eng, st, a, i):
            if not self.live(st, a[1], 'the query context') or not st.choose('valid query'):
                return NULL
            new = lambda n, d='sym': libc._alloc(eng, st, a, i, C(n), d)
            w = lambda p, off, v, size=8: self.wr(st, p, off, v, size)
            c, X = a[1], 'JSONQueryDFAContext.'
            V = 'JSONQueryIntVecPair.'
            w(c, L[X + 'states_num'], C(3), 4)
            w(c, L[X + 'subtrees'], new(32))
            m = new(4 * L['JSONQueryIntVecPair'], 'zero')
            w(m, L['JSONQueryIntVecPair'] + L[V + 'value'], new(8))
            w(m, 2 * L['JSONQueryIntVecPair'] + L[V + 'value'], new(8))
            w(c, L[X + 'states_mapping'], m)
            w(c, L[X + 'array_predicate_states'] + L[V + 'value'], new(12))
            d, Y = new(L['JSONQueryDFA']), 'JSONQueryDFA.'
            w(d, L[Y + 'states_num'], C(3), 4)
            w(d, L[Y + 'inputs_num'], C(5), 4)
            for f in ('table', 'stop_state', 'accept_type', 'array_index'):
                w(d, L[Y + f], new(64))
            n = new(40, 'zero')
            for k in range(1, 5):
                w(n, 8 * k, new(8))
            w(d, L[Y + 'names'], n)
            return d
        h = self.handlers()
        h['buildJSONQueryDFA'] = build_
        st = State()
        st.mem['path'] = Obj('path', 'sym', None, 'sym', meta={'nonnull': True})
        E = Engine(self.P, h, nonnull=lambda o: True, small_unsigned=True, unroll=110)
        E.start(self.P.find('createPathProcessor'), [Ptr('path', ZERO)], st)
        for t in E.run(st):
            rep.ob('histories of the interface functions')
            self.faults(t, 'createPathProcessor', 'a query is compiled', {'mem'})
            if t.end[0] != 'ret':
                continue
            self.leaks(t, [t.ret], 'createPathProcessor', 'a query is compiled' if t.ret is not NULL else 'the path is not valid')
            if not isinstance(t.ret, Ptr):
                continue
            s = State()
            s.mem, s.facts = dict(t.mem), t.facts.copy()
            E2 = Engine(self.P, h, nonnull=lambda o: True, small_unsigned=True, unroll=110)
            E2.start(self.P.find('freePathProcessor'), [t.ret], s)
            for u in E2.run(s):
                rep.ob('histories of the interface functions')
                self.faults(u, 'freePathProcessor', 'a compiled query is released', {'mem'})
                if u.end[0] == 'ret':
                    self.leaks(u, [], 'freePathProcessor', 'a compiled query is released')


def run(rep, want):
    Life(rep).check(want)
    rep.rule('The interface functions are followed over every history of up to %d input portions (and a missing file), serial, parallel and with learned constraints, with evaluation and filtering '
             'replaced by stand-ins that look at all state they are given and leave new state behind.' % PORTIONS)
    rep.need('histories of the interface functions', 8)
