"""Merging chunk results: combine() interpreted on symbolic worker results, compared with the serial rule (J16)."""
import os, re, signal
from engine import build, libc
from engine.dom import *
from engine.interp import *
from engine import interp
from engine.interp import raise_end, put_entry, norm_text, cstring, show_text, text_len
from .common import Broken
from .serial import LCB, RCB, LB, RB, COM, KY, PRI, END, TN, OUTPUT, CONDITION, PREDICATE, txt_handlers, text_eq
from . import worker as W_

LAYOUT = dict(W_.LAYOUT, ThreadInfo=['thread_id', 'input_stream', 'worker_automaton'])
INC = ['"parallel_automata_execution.h"']
TC = 9              # index of the last result of the first chunk
NODES = 24          # capacity of the node table during the analysis
INV = C(-1)
RB_KIND = RB


class Rec:
    """one record of a worker: of the start position itself (own) or of a deeper one"""
    def __init__(s, own, virtual=False):
        s.own, s.virtual = own, virtual


class Unit:
    def __init__(s, syms=(), roots='hit', recs=(), matched=True, single=False):
        s.syms, s.roots, s.recs, s.matched, s.single = list(syms), roots, list(recs), matched, single

    def show(s):
        return '[%s%s]' % (' '.join(TN[x] for x in s.syms), (', records ' + ' '.join(('own' if r.own else 'deeper') + ('*' if r.virtual else '') for r in s.recs) if s.recs else '')
                           + ('' if s.roots == 'hit' else ', start position ' + ('missing' if s.matched else 'none')))


class Chunk:
    """what a worker hands over; open: symbols and levels left open at its end (levels: list of lists of (query state, root indices))"""
    def __init__(s, units, ss=(), levels=(), rootms=False):
        s.units, s.ss, s.levels, s.rootms = units, list(ss), list(levels), rootms


class Case:
    def __init__(s, ss, n, chunks, kind=None, ranged=None, begun=True):
        s.ss, s.n, s.chunks, s.kind, s.ranged, s.begun = list(ss), n, chunks, kind, ranged, begun

    def show(s):
        return 'open after the first chunk: %s; then %s' % (' '.join(TN[x] for x in s.ss) or 'nothing',
                                                            '; '.join('units %s%s' % (' '.join(u.show() for u in c.units), ', left open: ' + ' '.join(TN[x] for x in c.ss) if c.ss else '') for c in s.chunks)) \
            + {None: '', 0: ' (position of no kind)', OUTPUT: ' (output position)', PREDICATE: ' (filtered position)', CONDITION: ' (condition position)'}[s.kind] \
            + {None: '', True: ' with an index range', False: ' without an index range'}[s.ranged] + ('' if s.begun else ', no match begun')


def overlay():
    """the headers with a smaller node table: its capacity is a parameter of the code"""
    d = os.path.join(build.tmp(), 'merge')
    if os.path.isdir(d):
        return d
    os.mkdir(d)
    src = os.path.join(build.REPO, 'JSONQuery')
    for f in os.listdir(src):
        if f.endswith('.h'):
            t = open(os.path.join(src, f), errors='replace').read()
            t = re.sub(r'(?m)^([ \t]*#[ \t]*define[ \t]+MAX_NODE[ \t]+)\d+', r'\g<1>%d' % NODES, t)
            open(os.path.join(d, f), 'w').write(t)
    return d


class Merge:
    def __init__(self):
        d = overlay()
        old = list(build.INC)
        build.INC[:] = [d] + [x for x in old if x != 'JSONQuery']
        try:
            self.P = build.program([('merge/verif_merge.c', '#include "parallel_automata_execution.h"\n')])
            self.L = build.layout(LAYOUT, INC)
            self.K = build.consts(['UNIT_MATCHED', 'UNIT_UNMATCHED', 'REPROCESS', 'NOREPROCESS', 'MAX_NODE'], INC)
        finally:
            build.INC[:] = old
        self.f = self.P.find('combine')
        if self.f is None:
            raise Broken('combine not found')
        self.fn_seen = set()

    # ---- cases
    def cases(self):
        O, Dp = Rec(True), Rec(False)
        OV, DV = Rec(True, True), Rec(False, True)
        A = [LCB, KY, LB]
        # results of a unit, by the kind of the position that holds
        for kind, ranged, recs in ((0, False, [Dp, DV]), (0, True, [Dp, O, DV]), (0, True, [O, Dp, O]), (OUTPUT, True, [O, OV]), (OUTPUT, True, [OV, O, O]), (OUTPUT, False, [O, OV]), (OUTPUT, False, [DV, O]),
                                   (PREDICATE, False, [O, Dp, O]), (CONDITION, False, [O])):
            yield Case(A, 3, [Chunk([Unit([], 'hit', recs)])], kind, ranged)
        yield Case([LCB], 1, [Chunk([Unit([], 'hit', [DV, Dp])])], 0, False)
        yield Case([LB], 2, [Chunk([Unit([], 'hit', [O, OV])]), Chunk([Unit([], 'hit', [OV])])], OUTPUT, None)
        # symbols whose opening lies in an earlier chunk
        for ss, n, sy in (([LCB, KY, LCB], 2, [RCB]), ([LCB, KY, LCB], 2, [RCB, RCB]), (A, 3, [RB]), (A, 3, [RB, RCB]), (A + [LCB], 3, [RCB]), (A + [LCB], 3, [RCB, RB]), (A + [LB], 4, [RB]), (A + [LB], 4, [RB, RB]),
                          ([LB], 2, [RB]), ([LB, LCB], 2, [RCB, RB]), ([LB, LB], 3, [RB, RB]), ([LCB], 1, [RCB]), (A + [LCB, KY, LCB], 4, [RCB, RCB]), (A + [LCB, KY, LB], 5, [RB, RCB])):
            yield Case(ss, n, [Chunk([Unit(sy, 'none', matched=False)])])
            yield Case(ss, n, [Chunk([Unit(sy, 'none', matched=False)])], begun=False)
        for sy in ([RB, RCB, RB], [RB, RCB, RB, RCB]):
            yield Case(A + [LCB, KY, LB], 5, [Chunk([Unit(sy, 'none', matched=False)])], begun=False)
        yield Case([LB] * 6, 7, [Chunk([Unit([RB] * 5, 'none', matched=False)]), Chunk([Unit([RB], 'none', matched=False)])], begun=False)
        yield Case([LCB, KY] * 6 + [LCB], 7, [Chunk([Unit([RCB] * 6, 'none', matched=False)])], begun=False)
        yield Case([LCB, KY] * 6 + [LCB], 7, [Chunk([Unit([RCB], 'none', matched=False), Unit([RCB], 'none', matched=False), Unit([RCB], 'none', matched=False), Unit([RCB], 'none', matched=False)])], begun=False)
        yield Case(A + [LCB], 3, [Chunk([Unit([RCB], 'hit', [OV])])], OUTPUT, True)
        yield Case(A + [LCB], 3, [Chunk([Unit([RCB], 'hit', [Dp])])], 0, True)
        yield Case(A + [LCB], 3, [Chunk([Unit([], 'hit', [Dp]), Unit([RCB], 'hit', [Dp])])], 0, None)
        yield Case(A + [LB], 4, [Chunk([Unit([], 'hit', [O]), Unit([RB], 'hit', [O])])], OUTPUT, False)
        yield Case(A + [LCB], 3, [Chunk([Unit([], 'hit', [Dp])]), Chunk([Unit([RCB], 'hit', [Dp])])], 0, False)
        yield Case(A + [LCB], 3, [Chunk([Unit([], 'hit', [])]), Chunk([Unit([], 'hit', [])]), Chunk([Unit([RCB], 'none', matched=False)])], OUTPUT, None)
        # what a chunk leaves open
        three = [[(0, None), ('cur', None), (9, None)], [(0, (0, 2)), (7, (1,))], [(0, (0, 1)), (8, (2,))]]
        two = three[:2]
        more = [three[0], [(0, (0,)), (6, (1, 2))], [(5, (1,)), (0, (0,)), (8, (2,))]]
        for lv, ss in ((two, [LB]), (two, [KY]), (two, [LCB, KY]), (three, [LCB, KY, LB]), (more, [LB, LB]), (more, [KY, LCB, KY]), (more[:2], [KY, LCB])):
            yield Case(A, 3, [Chunk([Unit([], 'hit', [])], ss, lv, rootms=True)], OUTPUT, False)
            yield Case(A, 3, [Chunk([Unit([], 'hit', [])], ss, lv)], 0, True)
        for ss, sy in (([LCB], [RCB, RB]), ([LB], [RB, RB])):
            lv = [three[0]] if ss == [LCB] else two
            yield Case(A, 3, [Chunk([Unit([], 'hit', [])], ss, lv, rootms=True), Chunk([Unit(sy[:1], 'hit', [])])], OUTPUT, None)
            yield Case(A, 3, [Chunk([Unit([], 'hit', [])], ss, lv, rootms=True), Chunk([Unit([], 'none', matched=False)]), Chunk([Unit(sy[:1], 'hit', [])])], OUTPUT, False)
        yield Case(A, 3, [Chunk([Unit([], 'hit', [Dp])], [LCB, KY, LB], more, rootms=True), Chunk([Unit([RB, RCB], 'hit', [Dp])])], OUTPUT, False)
        back = [[(9, None), ('cur', None), (0, None)]] + three[1:]
        yield Case(A, 3, [Chunk([Unit([], 'hit', [])], [LCB, KY, LB], back, rootms=True)], OUTPUT, False)
        # units evaluated again
        yield Case(A, 3, [Chunk([Unit([], 'miss', [Dp])])])
        gone = [[(0, None), (9, None)], [(0, (0,)), (7, (1,))]]
        yield Case(A, 3, [Chunk([Unit([], 'miss', [Dp])], [LB], gone)])
        yield Case(A + [LCB], 3, [Chunk([Unit([RCB], 'miss', [Dp])], [LCB, KY], gone)], begun=False)
        yield Case(A + [LB], 4, [Chunk([Unit([RB], 'miss', [O])])], 0, None, begun=False)
        yield Case(A, 3, [Chunk([Unit([RB], 'miss', [O])], [KY], gone)], begun=False)
        yield Case(A, 3, [Chunk([Unit([], 'miss', [], single=True)]), Chunk([Unit([RB], 'hit', [])])])
        yield Case(A + [LCB], 3, [Chunk([Unit([RCB], 'miss', [Dp]), Unit([RB], 'hit', [Dp])], [LCB, KY], two)], 0, False)
        yield Case(A + [LCB], 3, [Chunk([Unit([RCB], 'hit', [Dp]), Unit([], 'miss', [Dp])])], begun=False)
        yield Case(A, 3, [Chunk([Unit([], 'miss', [Dp])]), Chunk([Unit([RB, RB], 'none', matched=False)])])
        yield Case(A, 3, [Chunk([Unit([], 'miss', [O])]), Chunk([Unit([], 'miss', [O])]), Chunk([Unit([RB, RB], 'hit', [DV])], [KY], two)])

    # ---- injected state
    def path(self, c):
        """for every unit, the query state that holds when its records are taken over (None: unknown before the run)"""
        lv = [d + 1 for d in range(c.n)]
        ss = list(c.ss)
        out = []
        for i, ch in enumerate(c.chunks):
            redo = False
            for j, u in enumerate(ch.units):
                for s in u.syms:
                    if s == RCB:
                        ss.pop()
                        if ss and ss[-1] == KY:
                            ss.pop()
                            lv.pop()
                    else:
                        ss.pop()
                        lv.pop()
                        if ss and ss[-1] == KY:
                            ss.pop()
                            lv.pop()
                out.append(lv[-1])
                redo = u.roots == 'miss' and j + 1 == len(ch.units)
                if redo:
                    ss.append(LB)
                    lv.append(20 + 2 * len(out))
            if not redo:
                if ch.levels:
                    cur = lv[-1]
                    ix = [k for k, (q, _) in enumerate(ch.levels[0]) if q == 'cur'][0]
                    for l in ch.levels[1:]:
                        q = [q for q, roots in l if ix in roots]
                        lv.append(q[0])
                ss += ch.ss
        return out

    def initial(self, c):
        L, K = self.L, self.K
        st = State()
        st.ghost = {}
        now = self.path(c)
        nw = 0
        Wf = lambda f: L['WorkerAutomaton.' + f]

        def put(obj, off, v, s=4):
            put_entry(st, st.obj(obj), ('v', off if isinstance(off, Lin) else C(off), s, v if not isinstance(v, int) else C(v), None))
        interp.WHOLE.update('json%d' % k for k in range(len(c.chunks) + 1))
        st.mem['ti'] = Obj('ti', 'sym', None, 'sym', meta={'nonnull': True})

        def stacks(wo, ss, levels, cnts, mss, wroot, chunk):
            o = Wf('syntax_stack')
            for i, x in enumerate(ss):
                put(wo, o + L['SyntaxStack.symbol'] + 4 * i, x)
            put(wo, o + L['SyntaxStack.top_item'], len(ss) - 1)
            o = Wf('query_stacks')
            Q = lambda f: o + L['QueryStacks.' + f]
            idx = par = roo = 0
            spans = []
            for d, l in enumerate(levels):
                a = idx
                for i, (q, roots) in enumerate(l):
                    b = Q('node') + idx * L['TreeNode']
                    T = lambda f: b + L['TreeNode.' + f]
                    put(wo, T('query_state'), q)
                    put(wo, T('count'), cnts(d, i))
                    put(wo, T('matched_start'), mss(d, i))
                    put(wo, T('first_tuple_index'), -1)
                    put(wo, T('last_tuple_index'), -1)
                    if roots is None:
                        for r in ('parent_range', 'root_range'):
                            put(wo, T(r) + L['Range.start'], 0)
                            put(wo, T(r) + L['Range.end'], -1)
                    else:
                        up = [j for j, (_, rr) in enumerate(levels[d - 1]) if set(rr if rr is not None else (j,)) & set(roots)]
                        put(wo, T('parent_range') + L['Range.start'], par)
                        for j in up:
                            put(wo, Q('parent_pointers') + 4 * par, spans[-1][0] + j)
                            par += 1
                        put(wo, T('parent_range') + L['Range.end'], par - 1)
                        put(wo, T('root_range') + L['Range.start'], roo)
                        for j in roots:
                            put(wo, Q('root_pointers') + 4 * roo, j)
                            roo += 1
                        put(wo, T('root_range') + L['Range.end'], roo - 1)
                    idx += 1
                spans.append((a, idx - 1))
            put(wo, Q('num_node'), idx)
            put(wo, Q('num_parent_pointers'), par)
            put(wo, Q('num_root_pointers'), roo)
            for i, (a, b) in enumerate(spans[:-1]):
                put(wo, Q('item') + i * L['Range'] + L['Range.start'], a)
                put(wo, Q('item') + i * L['Range'] + L['Range.end'], b)
            put(wo, Q('top_item'), len(spans) - 2)
            o = Wf('query_stacks_element')
            put(wo, o + L['Range.start'], spans[-1][0])
            put(wo, o + L['Range.end'], spans[-1][1])

        for k in range(len(c.chunks) + 1):
            wo, jo, to = 'wa%d' % k, 'json%d' % k, 'tl%d' % k
            st.mem[wo] = Obj(wo, 'sym', C(L['WorkerAutomaton']), 'sym', meta={'nonnull': True})
            st.mem[jo] = Obj(jo, 'sym', None, 'sym', meta={'nonnull': True})
            st.mem[to] = Obj(to, 'sym', C(L['TupleList']), 'sym', meta={'nonnull': True})
            b = k * L['ThreadInfo']
            put('ti', b + L['ThreadInfo.thread_id'], k)
            put('ti', b + L['ThreadInfo.input_stream'], Ptr(jo, ZERO), 8)
            put('ti', b + L['ThreadInfo.worker_automaton'], Ptr(wo, ZERO), 8)
            put(wo, Wf('id'), k)
            put(wo, Wf('query_automaton'), Ptr('qa', ZERO), 8)
            put(wo, Wf('tuple_list'), Ptr(to, ZERO), 8)
            put(wo, Wf('need_reprocess'), K['NOREPROCESS'])
        # the first chunk
        def cn(d, i):
            a = atom(('cnt', d))
            st.facts.assume_iv(a, 0, INF)
            return a

        def mn(d, i):
            if not self.begun(c, d):
                return -1
            a = atom(('ms', d))
            st.facts.assume_iv(a, 0, INF)
            return a
        lv = [[(d + 1, None if d == 0 else (0,))] for d in range(c.n)]
        stacks('wa0', c.ss, lv, cn, mn, None, 0)
        put('tl0', L['TupleList.count'], TC)
        put('wa0', Wf('unit_list') + L['UnitList.count_units'], -1)
        for k, ch in enumerate(c.chunks):
            wo, to = 'wa%d' % (k + 1), 'tl%d' % (k + 1)
            nt = 0
            U = Wf('unit_list')
            put(wo, U + L['UnitList.count_units'], len(ch.units) - 1)
            for j, u in enumerate(ch.units):
                cur = now[nw]
                nw += 1
                b = U + L['UnitList.units'] + j * L['Unit']
                X = lambda f: b + L['Unit.' + f]
                put(wo, X('count_unmatched_symbols'), len(u.syms) - 1)
                for n, s in enumerate(u.syms):
                    y = X('unmatched_symbols') + n * L['UnmatchedSymbol']
                    ix = atom(('sym', k + 1, j, n))
                    st.facts.assume_iv(ix, 0, INF)
                    put(wo, y + L['UnmatchedSymbol.token_type'], s)
                    put(wo, y + L['UnmatchedSymbol.index'], ix)
                put(wo, X('unit_state'), K['UNIT_MATCHED'] if u.matched else K['UNIT_UNMATCHED'])
                us, ue = atom(('us', k + 1, j)), atom(('ue', k + 1, j))
                st.facts.assume_iv(us, 0, INF)
                st.facts.assume_cmp('lt', us, ue)
                put(wo, X('start'), Ptr('json%d' % (k + 1), us), 8)
                put(wo, X('end'), Ptr('json%d' % (k + 1), ue), 8)
                roots = [0, cur, 9] if u.roots == 'hit' else [9] if u.single else [0, 9] if u.roots == 'miss' else [0, 9, 11]
                put(wo, X('num_root'), len(roots))
                for r, q in enumerate(roots):
                    T = lambda f: X('root_node') + r * L['TreeNode'] + L['TreeNode.' + f]
                    put(wo, T('query_state'), q)
                    put(wo, T('count'), atom(('rcnt', k + 1, j, r)))
                    put(wo, T('matched_start'), -1)
                    for rg in ('parent_range', 'root_range'):
                        put(wo, T(rg) + L['Range.start'], 0)
                        put(wo, T(rg) + L['Range.end'], -1)
                    # records of the other assumed positions lie in between
                    recs = [] if q == 0 else u.recs
                    first = prev = -1
                    for n, rec in enumerate(recs):
                        ti = (3 * nt + r) if q == cur else 200 + 3 * nt + r
                        nt += 1
                        e = ti * L['Tuple']
                        if not rec.virtual:
                            t = (('cstr', ('rec', k + 1, ti), 0, ZERO),)
                            if rec.own and c.kind == 0:
                                t = (('lit', b'}' if n % 2 == 0 else b']'),)
                            libc.set_text(st, Ptr(to, C(e + L['Tuple.text'])), t)
                        put(to, e + L['Tuple.state'], q if rec.own else 30)
                        put(to, e + L['Tuple.next_index'], -1)
                        if rec.virtual:
                            s0, s1 = atom(('rs', k + 1, ti)), atom(('re', k + 1, ti))
                            st.facts.assume_iv(s0, 0, INF)
                            st.facts.assume_cmp('lt', s0, s1)
                            put(to, e + L['Tuple.start_position'], s0)
                            put(to, e + L['Tuple.end_position'], s1)
                        else:
                            put(to, e + L['Tuple.start_position'], -1)
                        if prev >= 0:
                            put(to, prev * L['Tuple'] + L['Tuple.next_index'], ti)
                        else:
                            first = ti
                        prev = ti
                    put(wo, T('first_tuple_index'), first)
                    put(wo, T('last_tuple_index'), prev)
            put(to, L['TupleList.count'], 400)
            cur = now[nw - 1]
            lv = [[(cur if q == 'cur' else q, r) for q, r in l] for l in ch.levels] or [[(0, None), (cur, None), (9, None)]]
            if ch.units[-1].roots == 'none':
                lv = [[(0, None), (cur, None), (9, None)]] if not ch.levels else lv

            def mm(d, i, k=k, ch=ch):
                if d == 0 and not (ch.rootms and i == 1):
                    return -1
                a = atom(('wms', k + 1, d, i))
                st.facts.assume_iv(a, 0 if (d + i) % 2 else -1, INF)
                return a

            def cc(d, i, k=k):
                a = atom(('wcnt', k + 1, d, i))
                st.facts.assume_iv(a, 0, INF)
                return a
            stacks(wo, ch.ss, lv, cc, mm, None, k + 1)
        st.mem['qa'] = Obj('qa', 'sym', C(L['JSONQueryDFA']), 'sym', meta={'nonnull': True})
        put('qa', L['JSONQueryDFA.states_num'], 40)
        for f, sz in (('accept_type', 4), ('array_index', L['JSONQueryIndexPair'])):
            n = ('qa', f)
            st.mem[n] = Obj(n, 'sym', None, 'sym', meta={'nonnull': True})
            put('qa', L['JSONQueryDFA.' + f], Ptr(n, ZERO), 8)
            for x in range(0, sz, 4):
                put(n, x, ZERO)
        self.vers = None
        return st

    def begun(self, c, d):
        """a match can only be open at a position whose object or array is"""
        return c.begun and (d + 1 < c.n or c.ss[-1] == LCB)

    def prepare(self, st, c):
        """fixes the kind of the position that holds where the records are taken over"""
        self.vers = {f: st.obj(('qa', f)).ver for f in ('accept_type', 'array_index')}
        now = self.path(c)
        F = st.facts
        for q in sorted(set(now)):
            if c.kind is not None:
                F.assume_cmp('eq', self.acc_atom(q), C(c.kind))
            lo, hi = self.bounds(st, q)
            if c.ranged is False:
                F.assume_cmp('eq', lo, ZERO)
                F.assume_cmp('eq', hi, ZERO)
            elif c.ranged:
                F.assume_iv(lo, 0, INF)
                F.assume_cmp('lt', lo, hi)

    # ---- stand-ins
    def reprocess(self, eng, st, a, i):
        c = self.case
        n = st.ghost.get('redo', 0)
        st.ghost['redo'] = n + 1
        if not (isinstance(a[0], Ptr) and a[0].obj == 'wa0'):
            st.event('wrongworker', st.where())
            return
        snap = self.snapshot(st)
        tx = norm_text(libc.text_of(eng, st, a[1]))
        L = self.L
        fl = Sem.read(st, st.obj('wa0'), C(L['WorkerAutomaton.need_reprocess']), 4, 'i')
        st.event('redo', snap, tx, isinstance(fl, Lin) and st.facts.value(fl) == self.K['REPROCESS'])
        if isinstance(snap, str):
            return
        ss, lv = snap
        # the last unit of a chunk leaves an array open
        if self.redo_last(c, n):
            now = 20 + 2 * self.redo_unit(c, n)
            w = lambda off, v: put_entry(st, st.obj('wa0'), ('v', C(off), 4, C(v) if isinstance(v, int) else v, None))
            o = L['WorkerAutomaton.syntax_stack']
            w(o + L['SyntaxStack.symbol'] + 4 * len(ss), LB)
            w(o + L['SyntaxStack.top_item'], len(ss))
            o = L['WorkerAutomaton.query_stacks']
            Q = lambda f: o + L['QueryStacks.' + f]
            rd = lambda off: st.facts.value(lin_of(Sem.read(st, st.obj('wa0'), C(off), 4, 'i')))
            e = L['WorkerAutomaton.query_stacks_element']
            s0 = rd(e + L['Range.start'])
            ix = s0 + 1
            m = atom(('redo ms', n))
            st.facts.assume_iv(m, 0, INF)
            w(Q('node') + s0 * L['TreeNode'] + L['TreeNode.matched_start'], m)
            b = Q('node') + ix * L['TreeNode']
            T = lambda f: b + L['TreeNode.' + f]
            w(T('query_state'), now)
            w(T('count'), 0)
            w(T('matched_start'), -1)
            npar, nroo = rd(Q('num_parent_pointers')), rd(Q('num_root_pointers'))
            for f, g, k in (('parent_range', 'parent_pointers', npar), ('root_range', 'root_pointers', nroo)):
                w(T(f) + L['Range.start'], k)
                w(T(f) + L['Range.end'], k)
                w(Q(g) + 4 * k, s0 if g[0] == 'p' else 0)
                w(Q('num_' + g), k + 1)
            top = len(lv) - 2
            w(Q('item') + (top + 1) * L['Range'] + L['Range.start'], s0)
            w(Q('item') + (top + 1) * L['Range'] + L['Range.end'], s0)
            w(Q('top_item'), top + 1)
            w(Q('num_node'), ix + 1)
            w(e + L['Range.start'], ix)
            w(e + L['Range.end'], ix)
        k = st.facts.value(lin_of(Sem.read(st, st.obj('tl0'), C(L['TupleList.count']), 4, 'i'))) + 1
        t = k * L['Tuple']
        libc.set_text(st, Ptr('tl0', C(t + L['Tuple.text'])), (('cstr', ('redo', n), 0, ZERO),))
        for f, v in (('state', 40), ('start_position', -1), ('next_index', -1)):
            put_entry(st, st.obj('tl0'), ('v', C(t + L['Tuple.' + f]), 4, C(v), None))
        put_entry(st, st.obj('tl0'), ('v', C(L['TupleList.count']), 4, C(k), None))
        put_entry(st, st.obj('wa0'), ('v', C(L['WorkerAutomaton.unit_list'] + L['UnitList.count_units']), 4, ZERO, None))

    def redo_last(self, c, n):
        k = [j + 1 == len(ch.units) for ch in c.chunks for j, u in enumerate(ch.units) if u.roots == 'miss']
        return n < len(k) and k[n]

    def redo_unit(self, c, n):
        k = 0
        for ch in c.chunks:
            for u in ch.units:
                k += 1
                if u.roots == 'miss':
                    if n == 0:
                        return k
                    n -= 1
        return 99

    # ---- reference
    def bounds(self, st, q):
        if q == 0:
            return ZERO, ZERO
        L = self.L
        b = lambda w: atom(('mem', ('qa', 'array_index'), C(q * L['JSONQueryIndexPair'] + L['JSONQueryIndexPair.' + w]), self.vers['array_index'], 4))
        return b('lower'), b('upper')

    def acc_atom(self, q):
        return atom(('mem', ('qa', 'accept_type'), C(4 * q), self.vers['accept_type'], 4))

    def acc(self, st, q):
        if q == 0:
            return 0
        a = self.acc_atom(q)
        for k in (OUTPUT, CONDITION, PREDICATE):
            if st.decide('eq', a, C(k)):
                return k
        return 0

    def ranged(self, st, q):
        lo, hi = self.bounds(st, q)
        return not (st.decide('eq', lo, ZERO) and st.decide('eq', hi, ZERO))

    def inrange(self, st, n):
        if not self.ranged(st, n['q']):
            return True
        lo, hi = self.bounds(st, n['q'])
        return st.decide('ge', n['cnt'], lo) and st.decide('lt', n['cnt'], hi)

    def spec(self, st, c):
        M = {'ss': list(c.ss), 'lv': [dict(q=d + 1, cnt=atom(('cnt', d)), ms=atom(('ms', d)) if self.begun(c, d) else INV, chunk=0) for d in range(c.n)], 'rec': [], 'redo': []}
        ss, lv, rec = M['ss'], M['lv'], M['rec']
        now = self.path(c)
        nu = 0
        redo = 0

        def close(n, k, pos):
            if not isinstance(n['ms'], tuple) and not st.decide('eq', n['ms'], INV):
                if self.acc(st, n['q']) == OUTPUT and self.inrange(st, n):
                    t = ()
                    for x in range(n['chunk'], k):
                        t += (('cstr', 'json%d' % x, None, n['ms'] if x == n['chunk'] else ZERO),)
                    b = n['ms'] if n['chunk'] == k else ZERO
                    t += (('slice', 'json%d' % k, None, b, pos + 1),)
                    rec.append((n['q'], t))
                    n['ms'] = ('gone', INV)
                    return True
            return False
        for k, ch in enumerate(c.chunks):
            k += 1
            last = False
            nt = 0
            for j, u in enumerate(ch.units):
                for x, s in enumerate(u.syms):
                    pos = atom(('sym', k, j, x))
                    if s == RCB:
                        close(lv[-1], k, pos)
                        ss.pop()
                        if ss and ss[-1] == KY:
                            ss.pop()
                            lv.pop()
                        elif ss:
                            n = lv[-1]
                            if self.acc(st, n['q']) == PREDICATE:
                                rec.append((n['q'], (('lit', b'}'),)))
                            n['cnt'] = n['cnt'] + 1
                    else:
                        close(lv[-2], k, pos)
                        ss.pop()
                        lv.pop()
                        if ss and ss[-1] == KY:
                            ss.pop()
                            lv.pop()
                        elif ss:
                            lv[-1]['cnt'] = lv[-1]['cnt'] + 1
                nu += 1
                n = lv[-1]
                base = nt
                last = False
                if u.roots == 'miss':
                    M['redo'].append((list(ss), [dict(y) for y in lv], k, atom(('us', k, j)), atom(('ue', k, j))))
                    if j + 1 == len(ch.units):
                        n['ms'], n['chunk'] = atom(('redo ms', redo)) + atom(('us', k, j)), k
                        lv.append(dict(q=20 + 2 * nu, cnt=ZERO, ms=INV, chunk=k))
                        ss.append(LB)
                        last = True
                    rec.append((40, (('cstr', ('redo', redo), 0, ZERO),)))
                    redo += 1
                    nt += len(u.recs)
                    continue
                if u.roots != 'hit':
                    nt += 2 * len(u.recs)
                    continue
                rg = self.ranged(st, n['q']) if u.recs else False
                for y, r in enumerate(u.recs):
                    ti = 3 * (base + y) + 1
                    t = (('slice', 'json%d' % k, None, atom(('rs', k, ti)), atom(('re', k, ti))),) if r.virtual else (('cstr', ('rec', k, ti), 0, ZERO),)
                    mark = r.own and c.kind == 0 and not r.virtual
                    if not rg:
                        if mark:
                            t = (('lit', b'}' if y % 2 == 0 else b']'),)
                        rec.append((n['q'] if r.own else 30, t))
                        continue
                    ok = self.inrange(st, n)
                    if r.own:
                        n['cnt'] = n['cnt'] + 1
                        if self.acc(st, n['q']) != OUTPUT:
                            continue
                    if ok:
                        rec.append((n['q'] if r.own else 30, t))
                nt += 2 * len(u.recs)
            if last:
                continue
            ss += ch.ss
            n = lv[-1]
            ok = self.inrange(st, n) if ch.levels else True
            if ch.levels:
                if ch.rootms:
                    m = atom(('wms', k, 0, 1))
                    if not st.decide('eq', m, INV):
                        if ok:
                            n['ms'], n['chunk'] = m, k
                        else:
                            n['ms'] = ('any', n['ms'], m)
                ix = 1
                for d, l in enumerate(ch.levels[1:]):
                    i = [i for i, (q, roots) in enumerate(l) if ix in roots][0]
                    if ok:
                        lv.append(dict(q=l[i][0], cnt=atom(('wcnt', k, d + 1, i)), ms=atom(('wms', k, d + 1, i)), chunk=k))
                    else:
                        lv.append(dict(q=0, cnt=None, ms=None, chunk=k))
        return M

    # ---- comparison
    def snapshot(self, st):
        """open symbols and tracked positions of the first worker"""
        L = self.L
        rd = lambda off: Sem.read(st, st.obj('wa0'), C(off), 4, 'i')
        val = lambda off: (lambda v: st.facts.value(v) if isinstance(v, Lin) else None)(rd(off))
        o = L['WorkerAutomaton.syntax_stack']
        n = val(o + L['SyntaxStack.top_item'])
        if n is None or not -1 <= n < 30:
            return 'the number of open symbols is unknown'
        ss = [val(o + L['SyntaxStack.symbol'] + 4 * i) for i in range(n + 1)]
        o = L['WorkerAutomaton.query_stacks']
        Q = lambda f: o + L['QueryStacks.' + f]
        top = val(Q('top_item'))
        if top is None or not -1 <= top < 30:
            return 'the number of levels is unknown'
        sp = [(val(Q('item') + i * L['Range'] + L['Range.start']), val(Q('item') + i * L['Range'] + L['Range.end'])) for i in range(top + 1)]
        e = L['WorkerAutomaton.query_stacks_element']
        sp.append((val(e + L['Range.start']), val(e + L['Range.end'])))
        lv = []
        for a, b in sp:
            if a is None or b is None or a != b or a < 0:
                return 'a level does not have exactly one position'
            T = lambda f: Q('node') + a * L['TreeNode'] + L['TreeNode.' + f]
            lv.append((val(T('query_state')), rd(T('count')), rd(T('matched_start')), a))
        nn = val(Q('num_node'))
        if nn is None or nn <= max(x[3] for x in lv):
            return 'the number of tree nodes does not cover the tracked ones'
        if len({x[3] for x in lv}) != len(lv):
            return 'two levels share their position'
        return ss, lv

    def same(self, st, snap, ss, lv, out, when):
        F = st.facts
        if isinstance(snap, str):
            return out('stack', '%s: %s' % (when, snap))
        if snap[0] != ss:
            return out('nesting', '%s the open symbols are %s, expected %s' % (when, ' '.join(TN.get(x, '?') for x in snap[0]) or 'none', ' '.join(TN[x] for x in ss) or 'none'))
        if len(snap[1]) != len(lv):
            return out('nesting', '%s %d levels of query positions are open, expected %d' % (when, len(snap[1]), len(lv)))

        def eq(a, b):
            if isinstance(b, tuple):
                return any(eq(a, x) for x in b if not isinstance(x, str))
            return isinstance(a, Lin) and isinstance(b, Lin) and F.cmp('eq', a, b) is True
        for d, ((q, cnt, ms, _), n) in enumerate(zip(snap[1], lv)):
            dead = False
            if q != n['q']:
                if q == 0 and n['q'] and self.ranged(st, n['q']) and st.decide('ge', n['cnt'], self.bounds(st, n['q'])[1]):
                    dead = True     # past the range nothing can match any more
                else:
                    out('position', '%s the query position of level %d is %s, expected %s' % (when, d + 1, q, n['q']))
                    continue
            if n['q'] and not dead and not eq(cnt, n['cnt']) and self.ranged(st, n['q']):
                out('counter', '%s the element index of a position is %s, expected %s' % (when, cnt, n['cnt']))
            if n['q'] and not dead and not eq(ms, n['ms']) and self.acc(st, n['q']) == OUTPUT:
                out('match', '%s the start of an open match is %s, expected %s' % (when, ms, n['ms']))

    def compare(self, st, c, M, out):
        L = self.L
        if st.end[0] in ('undef', 'oob'):
            return out('memory', {'undef': 'a value that was never set is used', 'oob': 'a write behind the end of a local array'}[st.end[0]] + ' at %s' % st.end[-1])
        if st.end[0] != 'ret':
            return out('path', 'merging stops (%s) at %s' % (st.end[0], st.end[-1]))
        F = st.facts
        redo = []
        for e in st.events:
            if e[0] in ('uaf', 'badptr', 'doublefree', 'badfree', 'divzero'):
                out('memory', '%s at %s' % (e[0], e[-1]))
            if e[0] == 'undef':
                return out('memory', 'a value that was never set is used at %s' % e[-1])
            if e[0] == 'wrongworker':
                return out('again', 'a unit is evaluated again by another worker than the first')
            if e[0] == 'redo':
                redo.append(e[1:])
        if not (isinstance(st.ret, Ptr) and st.ret.obj == 'tl0' and st.ret.off == ZERO):
            out('result', 'the merged results are not those of the first worker')
        if len(redo) != len(M['redo']):
            return out('again', '%d unit(s) are evaluated again, expected %d' % (len(redo), len(M['redo'])))
        for (snap, tx, fl), (ss, lv, k, us, ue) in zip(redo, M['redo']):
            self.same(st, snap, ss, lv, out, 'before a unit is evaluated again')
            if not fl:
                out('again', 'a unit is evaluated again from the beginning instead of from the real position')
            self.unit_text(st, tx, k, us, ue, out)
        self.same(st, self.snapshot(st), M['ss'], M['lv'], out, 'after merging')
        rd = lambda off, s=4, ty='i': Sem.read(st, st.obj('tl0'), C(off), s, ty)
        val = lambda off: (lambda v: F.value(v) if isinstance(v, Lin) else None)(rd(off))
        n1 = val(L['TupleList.count'])
        if n1 != TC + len(M['rec']):
            return out('result', '%s result(s) are added, expected %d' % ('?' if n1 is None else n1 - TC, len(M['rec'])))
        for x, (q, t) in enumerate(M['rec']):
            b = (TC + 1 + x) * L['Tuple']
            g = val(b + L['Tuple.state'])
            if g != q:
                out('result', 'result %d belongs to query position %s, expected %s' % (x + 1, g, q))
            if val(b + L['Tuple.start_position']) != -1:
                out('text', 'a result refers to a part of a chunk instead of holding its text')
                continue
            g = norm_text(cstring(st, Ptr('tl0', C(b + L['Tuple.text']))))
            if not self.teq(st, g, t):
                out('text', 'the text of a result is %s, expected %s' % (show_text(g), show_text(t)))

    def unit_text(self, st, g, k, us, ue, out):
        F = st.facts
        g = self.flat(g)
        p = g[0] if g else None
        ok = p is not None and p[0] == 'slice' and p[1] == 'json%d' % k and F.cmp('eq', p[3], us) is True and F.cmp('eq', p[4], ue) is True \
            and all(x[0] == 'lit' and not x[1].strip() for x in g[1:])
        if not ok:
            out('again', 'the text evaluated again is %s, not that of the unit' % show_text(g))

    def flat(self, t):
        return tuple(norm_text(t))

    def teq(self, st, g, t):
        F = st.facts
        g = list(self.flat(g))
        t = list(t)
        # empty pieces are dropped
        if len(g) != len(t):
            return False
        for a, b in zip(g, t):
            if a[0] != b[0]:
                return False
            if a[0] == 'lit':
                if a[1] != b[1]:
                    return False
            elif a[0] == 'cstr':
                if a[1] != b[1] or b[2] is not None and a[2] != b[2] or F.cmp('eq', a[3], b[3]) is not True:
                    return False
            elif a[0] == 'slice':
                if a[1] != b[1] or F.cmp('eq', a[3], b[3]) is not True or F.cmp('eq', a[4], b[4]) is not True:
                    return False
            else:
                return False
        return True

    def run(self, c):
        self.case = c
        h = txt_handlers()
        h.update({'executeWorkerAutomaton': self.reprocess, 'printf': libc.nop})
        E = Engine(self.P, h, on_load=self.on_load, on_store=self.on_store, stop_undef=True, nonnull=lambda o: True, small_unsigned=True, unroll=3 * NODES, max_states=6000)
        st = self.initial(c)
        self.prepare(st, c)
        E.start(self.f, [Ptr('ti', ZERO), C(len(c.chunks) + 1)], st)
        T = E.run(st)
        self.fn_seen |= set(E.calls)
        return T

    def on_load(self, eng, st, p, ty):
        if p.obj == ('qa', 'accept_type') and ty.size == 4:
            v = Sem.read(st, st.obj(p.obj), p.off, 4, 'i')
            if isinstance(v, Lin) and not v.is_const():
                st.facts.assume_iv(v, 0, PREDICATE)

    def on_store(self, eng, st, p, v, ty):
        o = st.obj(p.obj)
        if o.kind == 'local' and o.size is not None and st.facts.cmp('ge', p.off + ty.size, o.size + 1) is True:
            st.event('oob', st.where())
            raise_end(st, 'oob')

    def check(self, c):
        V, n = [], 0
        T = self.run(c)
        if not T:
            return [('path', 'merging never ends: no path leaves combine')], 0
        work = list(T)
        while work:
            st = work.pop()
            try:
                M = self.spec(st, c)
                buf = []
                self.compare(st, c, M, lambda k, m: buf.append((k, m)))
                n += 1
            except W_.Skip:
                continue
            except Split as sp:
                for a in sp.alts:
                    s2 = st.copy()
                    if a(s2):
                        work.append(s2)
                continue
            V += buf
        return V, n


def _job(i):
    c = _CASES[i]

    def late(*_):
        raise EngineError('time limit reached')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(30)
    try:
        V, n = _M.check(c)
        return i, V, n, None, sorted(_M.fn_seen)
    except Exception as e:
        return i, [], 0, str(e) if isinstance(e, EngineError) else repr(e), []
    finally:
        signal.alarm(0)


def run(rep):
    import concurrent.futures as cf
    import multiprocessing as mp
    global _M, _CASES
    _M = Merge()
    _CASES = list(_M.cases())
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for i, V, n, err, fns in ex.map(_job, range(len(_CASES)), chunksize=1):
            c = _CASES[i]
            if err:
                rep.undec('%s: %s' % (c.show(), err))
                continue
            for k, m in V:
                rep.violation('merge/' + k, m, 'parallel_automata_execution.h:combine', c.show())
            rep.ob('situations', 1)
            rep.ob('paths compared with the serial rule', n)
            for f in fns:
                rep.saw('functions', f)
            if len(rep.samples) < 12:
                rep.samples.append('%s: %d paths' % (c.show(), n))
    rep.notes += ['The query automaton, the counters, the beginnings of open matches, the texts and the positions of records are arbitrary; the shape of what a worker hands over is enumerated (up to three later chunks, two units, two symbols of earlier chunks per unit, '
                  'three records per start position, three levels left open). What a worker hands over for its chunk is J15.',
                  'Evaluating a unit again is replaced by a stand-in that checks what it is given (J15 decides the evaluation itself).',
                  'The headers are analysed with a node table of %d instead of 500 entries: the capacity is a parameter of the code (J23 is about its size).' % NODES]
    rep.rule('combine and everything it calls is interpreted on the IR for every enumerated situation; on every path the open symbols, query positions, element indices and open matches after merging, the results added '
             '(number, order, query position, text), and the units evaluated again (from which state, which text) are compared with the serial rule applied to the same symbols.')
    if rep.obl.get('situations', 0) < len(_CASES) // 2 and not rep.viol:
        raise Broken('merging could not be followed in most situations')
