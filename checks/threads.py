"""Parallel workers: what they may write, and how they are started, awaited and released (J14)."""
from engine import build, libc
from engine.effects import Effects, STAR, meets
from engine.dom import *
from engine.interp import *
from engine.interp import put_entry, div_exact
from .common import Broken
from .search import exhausted

LAY = {'ThreadInfo': ['thread', 'thread_id', 'input_stream', 'worker_automaton'],
       'WorkerAutomaton': ['id', 'query_automaton', 'tuple_list', 'constraint_table', 'constraint_flag', 'need_reprocess', 'initial_flag', 'query_states_info'],
       'ParallelAutomata': ['query_automaton', 'tuple_list', 'major_automaton', 'finish_flag'],
       'PartitionInfo': ['stream', 'num_chunk']}
INC = ['"path_processor.h"']
TU = ('verif_threads.c', '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <sys/time.h>\n#include "path_processor.h"\n')
SHARED = {'query': 'the compiled query', 'constraints': 'the learned constraints', 'input': 'the input text'}


def effects(rep, P, L):
    f = P.find('main_thread')
    if f is None:
        raise Broken('main_thread not found')
    TI, WA, TL = ('reg', 'thread'), ('reg', 'worker'), ('reg', 'records')
    Q, CT, IN, OWN = ('reg', 'query'), ('reg', 'constraints'), ('reg', 'input'), ('reg', 'own')
    fields = {TI: {L['ThreadInfo.input_stream']: IN, L['ThreadInfo.worker_automaton']: WA},
              WA: {L['WorkerAutomaton.query_automaton']: Q, L['WorkerAutomaton.constraint_table']: CT, L['WorkerAutomaton.tuple_list']: TL,
                   L['WorkerAutomaton.query_states_info']: OWN}}

    def child(o, off):
        m = fields.get(o)
        if m is None:
            if off is None:
                return set()
            return {(o, STAR)} if o in (Q, CT, IN) else set()
        if off is None:
            return set(m)
        return {(x, 0) for k, x in m.items() if meets(k, off)}
    E = Effects(P, f, [{(TI, 0)}], child, fields)
    for fn in E.funcs:
        rep.saw('functions', fn)
    for s in E.sites:
        rep.saw('writing instructions', s)
    rep.ob('writing instructions reachable in a worker', len(E.sites))
    sizes = {TI: L['ThreadInfo'], WA: L['WorkerAutomaton']}
    for (o, off), sites in E.writes.items():
        for chain, where in sites:
            if o[0] == 'glob':
                rep.violation('threads/global/%s' % o[1], 'a worker writes the global %s' % o[1], where, chain)
            elif o[1] in SHARED:
                rep.violation('threads/shared/%s' % o[1], 'a worker writes %s, which other workers use' % SHARED[o[1]], where, chain)
            elif o in sizes and not meets(off, (0, sizes[o])):
                rep.violation('threads/neighbour', 'a worker writes outside its own record', where, chain)
    for o, sites in E.frees.items():
        for chain, where in sites:
            what = SHARED.get(o[1], 'memory it did not allocate')
            if o not in (TL, OWN):
                rep.violation('threads/free/%s' % o[1], 'a worker releases %s' % what, where, chain)
    for n, sites in E.hidden.items():
        rep.violation('threads/hidden/%s' % n, 'a worker calls %s, which keeps data shared by all threads' % n, sites[0][1], sites[0][0])
    for n, sites in E.unknown.items():
        rep.undec('%s is called in a worker at %s' % (n, sites[0][1]))
    for n, sites in E.unresolved.items():
        for s in sites:
            rep.undec('the target of the write at %s is not known' % s[1])
    rep.rule('Inclusion-based points-to analysis, cloned per call path, of everything reachable from main_thread: the target of every store, copy and release is the '
             'worker itself, its thread record, its records, a local or memory it allocated.')


def run(rep):
    P = build.program([TU, 'JSONQuery/worker_automaton.c', 'JSONQuery/lexing.c', 'JSONQuery/utility.c'])
    L = build.layout(LAY, ['<stdio.h>', '<stdlib.h>', '<string.h>', '<sys/time.h>'] + INC)
    effects(rep, P, L)
    lifecycle(rep, P, L)


class Lifecycle:
    """executeParallelAutomata: one worker per chunk, all awaited before merging, released afterwards"""

    def __init__(self, rep, P, L):
        self.rep, self.P, self.L = rep, P, L
        self.f = P.find('executeParallelAutomata')
        if self.f is None:
            raise Broken('executeParallelAutomata not found')

    def bad(self, kind, msg, detail=None):
        self.rep.violation('threads/' + kind, msg, 'executeParallelAutomata (parallel_automata_execution.h)', detail)

    def rd(self, st, p, off, size=8, ty='p'):
        return Sem.read(st, st.obj(p.obj), p.off + off, size, ty) if isinstance(p, Ptr) else UNDEF

    def handlers(self, fail):
        L = self.L

        def mk(eng, st, a, i):
            k = st.ghost.get('_mk', 0)
            st.ghost['_mk'] = k + 1
            name = ('worker', k)
            st.mem[name] = Obj(name, 'sym', C(L['WorkerAutomaton']), 'sym', meta={'nonnull': True})
            p = Ptr(name, ZERO)
            st.event('mk', p, a, st.where())
            return p

        def info(st, arg):
            return (self.rd(st, arg, L['ThreadInfo.thread_id'], 4, 'i'), self.rd(st, arg, L['ThreadInfo.input_stream']), self.rd(st, arg, L['ThreadInfo.worker_automaton']))

        def create(eng, st, a, i):
            r = ZERO
            if fail <= 5:
                k = st.ghost.get('_creates', 0)
                ok = st.choose(('thread starts', k))
                st.ghost['_creates'] = k + 1
                r = ZERO if ok else atom(('error', k), 1)
            arg = a[3]
            tid = atom(('tid', st.seq, i.id))
            if r == ZERO and isinstance(a[0], Ptr):
                put_entry(st, st.obj(a[0].obj), ('v', a[0].off, 8, tid, None))
            st.event('create', a[0], a[2], arg, info(st, arg), r == ZERO, tid, st.where())
            return r

        def join(eng, st, a, i):
            for e in list(st.events):
                if e[0] == 'create' and e[5] and info(st, e[3]) != e[4]:
                    st.event('changed', e[3])
            st.event('join', a[0], st.where())
            return ZERO

        def direct(eng, st, a, i):
            st.event('direct', a[0], st.where())
            return NULL

        def combine(eng, st, a, i):
            s = st.copy()
            st.ghost['_combine'] = s
            st.event('combine', a, st.where())
            return Ptr('combined', ZERO)

        def free(eng, st, a, i):
            st.event('free', a[0], st.where())
            return ZERO
        return {'createWorkerAutomaton': mk, 'pthread_create': create, 'pthread_join': join, 'main_thread': direct, 'combine': combine, 'freeWorkerAutomaton': free}

    def start(self, n, major, fail):
        L = self.L
        st = State()
        O = lambda name, size: st.mem.__setitem__(name, Obj(name, 'sym', C(size) if size else None, 'sym', meta={'nonnull': True}))
        O('pa', L['ParallelAutomata']); O('qa', None); O('ct', None); O('streams', None); O('combined', None)
        self.major = Ptr('major', ZERO) if major else NULL
        if major:
            O('major', L['WorkerAutomaton'])
        w = lambda off, v, s=8: put_entry(st, st.obj('pa'), ('v', C(off), s, v, None))
        w(L['ParallelAutomata.query_automaton'], Ptr('qa', ZERO))
        w(L['ParallelAutomata.major_automaton'], self.major)
        st.mem['par'] = Obj('par', 'sym', C(L['PartitionInfo']), 'sym', (('v', C(L['PartitionInfo.stream']), 8, Ptr('streams', ZERO), None), ('v', C(L['PartitionInfo.num_chunk']), 4, n, None)), meta={'nonnull': True})
        E = Engine(self.P, self.handlers(fail), nonnull=lambda o: True, small_unsigned=True, unroll=fail + 2)
        par = Ptr('par', ZERO)
        args = [Ptr('pa', ZERO), par, Ptr('ct', ZERO)]
        if len(self.f.params) == 4:
            args = [Ptr('pa', ZERO), Ptr('streams', ZERO), n, Ptr('ct', ZERO)]
        E.start(self.f, args, st)
        return E, E.run(st)

    def concrete(self):
        """few chunks, any of the threads may fail to start"""
        L, rep = self.L, self.rep
        for n in (1, 2, 3, 4, 5, 8, 16):
            for major in (False, True):
                E, T = self.start(C(n), major, n)
                if not T:
                    raise Broken('no path through executeParallelAutomata')
                for t in T:
                    rep.ob('outcomes of starting and awaiting workers')
                    self.walk(t, n, major)

    def walk(self, t, n, major):
        L = self.L
        failed = [str(i) for i, e in enumerate([e for e in t.events if e[0] == 'create']) if not e[5]]
        what = '%d chunks%s%s' % (n, ', continued document' if major else '', ', thread %s cannot be started' % ', '.join(failed) if failed else '')
        running, done, infos, autos, freed = {}, [], {}, [], []
        merged = False
        if t.end[0] != 'ret':
            self.bad('stop', 'workers are not awaited (%s)' % t.end[0], what)
            return
        mks = [e for e in t.events if e[0] == 'mk']
        for e in t.events:
            if e[0] == 'create':
                if merged:
                    self.bad('late', 'a worker is started after merging', what)
                if not isinstance(e[2], Fn) or e[2].name != 'main_thread':
                    self.bad('entry', 'a thread runs %s' % (e[2],), what)
                self.worker(t, e[3], e[4], major, mks, what, infos, autos)
                if e[5]:
                    running[e[6]] = e[3]
                else:
                    infos[e[3]] = False
            elif e[0] == 'direct':
                if e[1] in infos and infos[e[1]] is False:
                    infos[e[1]] = True
                else:
                    self.bad('twice', 'a chunk is processed twice', what)
            elif e[0] == 'changed':
                self.bad('changed', 'the record of a running thread is changed', what)
            elif e[0] == 'join':
                if e[1] in running:
                    del running[e[1]]
                else:
                    self.bad('join', 'a thread is awaited that was not started or is awaited twice', what)
            elif e[0] == 'combine':
                if running:
                    self.bad('early', 'results are merged while %d worker(s) may be running' % len(running), what)
                if merged:
                    self.bad('twice', 'results are merged twice', what)
                merged = True
                if len(infos) != n or not all(infos.values()):
                    self.bad('missing', '%d of %d chunks are processed' % (len([x for x in infos.values() if x]), n), what)
                if e[1][1] != C(n):
                    self.bad('count', '%s chunks are merged instead of %d' % (e[1][1], n), what)
            elif e[0] == 'free':
                if running or not merged:
                    self.bad('release', 'a worker is released before it is merged', what)
                freed.append(e[1])
        if running:
            self.bad('early', 'the threads are not awaited', what)
        if not merged:
            self.bad('missing', 'results are not merged', what)
        first = self.major if major else mks[0][1] if mks else None
        for p in freed:
            if p == first:
                self.bad('release', 'the first worker is released although it is kept for the next portion', what)
            elif freed.count(p) > 1:
                self.bad('release', 'a worker is released twice', what)
        for m in mks:
            if m[1] != first and m[1] not in freed:
                self.bad('leak', 'a worker is not released', what)
        if self.rd(t, Ptr('pa', ZERO), L['ParallelAutomata.major_automaton']) != first:
            self.bad('keep', 'the worker kept for the next portion is not the first one', what)
        if self.rd(t, Ptr('pa', ZERO), L['ParallelAutomata.tuple_list']) != Ptr('combined', ZERO):
            self.bad('result', 'the merged records are not handed on', what)

    def worker(self, t, arg, info, major, mks, what, infos, autos):
        tid, stream, wa = info
        if arg in infos:
            self.bad('share', 'two workers share their thread record', what)
        infos[arg] = True
        k = len(infos) - 1
        if not isinstance(tid, Lin) or not tid.is_const():
            self.bad('id', 'the number of a worker is %s' % (tid,), what)
            return
        n = tid.c
        s = stream.obj if isinstance(stream, Ptr) else None
        if not (isinstance(s, tuple) and s[0] == 'ld' and s[1] == 'streams' and s[3] == C(8 * n)):
            self.bad('chunk', 'worker %d gets another chunk' % n, what)
        if n == 0 and major:
            if wa != self.major:
                self.bad('continue', 'the first worker does not continue the previous portion', what)
            return
        m = [e for e in mks if e[1] == wa]
        if not m:
            self.bad('share', 'worker %d gets an automaton that is not its own' % n, what)
            return
        a = m[0][2]
        if a[0] != Ptr('qa', ZERO) or a[1] != C(n) or a[2] != Ptr('ct', ZERO):
            self.bad('setup', 'the automaton of worker %d is created for other data' % n, what)
        if wa in autos:
            self.bad('share', 'two workers share an automaton', what)
        autos.append(wa)

    def entry(self):
        """a thread runs its own automaton over its own chunk"""
        L = self.L
        m = self.P.find('main_thread')
        if m is None or self.P.find('executeWorkerAutomaton') is None:
            raise Broken('main_thread or executeWorkerAutomaton not found')
        st = State()
        st.mem['ti'] = Obj('ti', 'sym', C(L['ThreadInfo']), 'sym', (('v', C(L['ThreadInfo.input_stream']), 8, Ptr('chunk', ZERO), None), ('v', C(L['ThreadInfo.worker_automaton']), 8, Ptr('wa', ZERO), None)), meta={'nonnull': True})
        for o in ('chunk', 'wa'):
            st.mem[o] = Obj(o, 'sym', None, 'sym', meta={'nonnull': True})

        def exe(eng, st, a, i):
            st.event('execute', a)
        E = Engine(self.P, {'executeWorkerAutomaton': exe}, nonnull=lambda o: True)
        E.start(m, [Ptr('ti', ZERO)], st)
        for t in E.run(st):
            self.rep.ob('outcomes of a thread')
            got = [e[1] for e in t.events if e[0] == 'execute']
            if len(got) != 1:
                self.bad('work', 'a thread processes its chunk %d times' % len(got), 'main_thread')
            elif got[0][0] != Ptr('wa', ZERO) or got[0][1] != Ptr('chunk', ZERO):
                self.bad('work', 'a thread does not process its own chunk with its own automaton', 'main_thread')

    def worker_record(self):
        """createWorkerAutomaton: fresh, with its own records, for the given query, number and constraints"""
        L = self.L
        f = self.P.find('createWorkerAutomaton')
        if f is None:
            raise Broken('createWorkerAutomaton not found')
        for table in (True, False):
            st = State()
            for o in ('qa', 'ct'):
                st.mem[o] = Obj(o, 'sym', None, 'sym', meta={'nonnull': True})
            E = Engine(self.P, {}, nonnull=lambda o: True)
            E.start(f, [Ptr('qa', ZERO), atom('number', 1), Ptr('ct', ZERO) if table else NULL], st)
            for t in E.run(st):
                if t.end[0] != 'ret':
                    continue
                self.rep.ob('outcomes of creating a worker')
                p = t.ret
                where = 'createWorkerAutomaton (with%s constraints)' % ('' if table else 'out')
                if not isinstance(p, Ptr) or t.obj(p.obj).kind != 'heap' or t.obj(p.obj).freed:
                    self.bad('fresh', 'the automaton of a worker is not newly allocated', where)
                    continue
                g = lambda n, s=8, ty='p': self.rd(t, p, L['WorkerAutomaton.' + n], s, ty)
                if g('query_automaton') != Ptr('qa', ZERO):
                    self.bad('setup', 'a worker evaluates another query', where)
                if g('id', 4, 'i') != atom('number', 1):
                    self.bad('setup', 'a worker gets another number', where)
                if g('constraint_table') != (Ptr('ct', ZERO) if table else NULL):
                    self.bad('setup', 'a worker uses other constraints', where)
                tl = g('tuple_list')
                if not isinstance(tl, Ptr) or t.obj(tl.obj).kind != 'heap' or t.obj(tl.obj).freed or tl.obj == p.obj:
                    self.bad('fresh', 'the records of a worker are not its own', where)
                v = g('constraint_flag', 4, 'i')
                if v != (C(self.K['OPEN']) if table else C(self.K['CLOSE'])):
                    self.bad('setup', 'the constraints of a worker are %s' % ('not used' if table else 'used although there are none'), where)


def lifecycle(rep, P, L):
    rep.rule('executeParallelAutomata is followed for 1 to 16 chunks (for up to 5, with every set of threads that fail to start; with and without a continued document): every chunk is processed '
             'exactly once, with its own number, chunk, thread record and automaton; no merging before every started thread is awaited, no release before merging; all workers but the kept one are released.')
    rep.rule('main_thread runs its own automaton on its own chunk once; createWorkerAutomaton returns newly allocated memory with records of its own.')
    Lc = Lifecycle(rep, P, L)
    Lc.K = build.consts(['OPEN', 'CLOSE'], INC)
    Lc.concrete()
    Lc.entry()
    Lc.worker_record()
    rep.need('writing instructions reachable in a worker', 20)
    rep.need('outcomes of starting and awaiting workers', 50)
    rep.need('outcomes of a thread', 1)
    rep.need('outcomes of creating a worker', 2)
