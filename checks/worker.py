"""Transition relation of the parallel worker: one or a few tokens, every tracked query position compared with the serial rule (J15)."""
from engine import build, libc
from engine.dom import *
from engine.interp import *
from engine.interp import put_entry, norm_text, cstring, show_text, key_name
from .common import Broken
from .serial import LCB, RCB, LB, RB, COM, KY, PRI, END, TN, OUTPUT, CONDITION, PREDICATE, txt_handlers, text_eq

OBJECT, ARRAY = 8, 9
LAYOUT = {
    'WorkerAutomaton': ['id', 'query_automaton', 'syntax_stack', 'query_stacks', 'query_stacks_element', 'unit_list', 'tuple_list', 'constraint_flag',
                        'constraint_table', 'need_reprocess', 'initial_flag'],
    'SyntaxStack': ['symbol', 'top_item'],
    'QueryStacks': ['node', 'num_node', 'parent_pointers', 'num_parent_pointers', 'root_pointers', 'num_root_pointers', 'item', 'top_item'],
    'TreeNode': ['query_state', 'count', 'matched_start', 'parent_range', 'root_range', 'first_tuple_index', 'last_tuple_index'],
    'Range': ['start', 'end'],
    'UnitList': ['units', 'count_units'],
    'Unit': ['unmatched_symbols', 'count_unmatched_symbols', 'root_node', 'num_root', 'unit_state', 'has_pruned', 'start', 'end'],
    'UnmatchedSymbol': ['token_type', 'index'],
    'Tuple': ['start_position', 'end_position', 'state', 'text', 'next_index'], 'TupleList': ['element', 'count'],
    'Lexer': ['current_pointer', 'current_start', 'next_start', 'begin_stream', 'end_stream', 'lex_state', 'content'],
    'Token': ['content', 'token_type'],
    'JSONQueryDFA': ['states_num', 'inputs_num', 'table', 'stop_state', 'accept_type', 'array_index', 'names'],
    'JSONQueryIndexPair': ['lower', 'upper'],
    'ConstraintInfo': ['num_state', 'state_set', 'type', 'token_name'],
}
INC = ['"worker_automaton.h"']
TC = 9               # index of the last record present at the start
NSTATES = 3


class Skip(Exception):
    pass


class Node:
    def __init__(s, q, cnt, ms, roots=None, chain=None):
        s.q, s.cnt, s.ms, s.roots, s.chain = q, cnt, ms, roots, chain

    def copy(s):
        return Node(s.q, s.cnt, s.ms, s.roots, s.chain)


class Case:
    """a situation and the tokens that follow. levels: list of [(query state, root indices or None)]"""
    def __init__(s, wid, ss, levels, script, ahead=(), fresh=False, prune=None):
        s.wid, s.ss, s.levels, s.script, s.ahead, s.fresh, s.prune = wid, ss, levels, script, list(ahead), fresh, prune

    def show(s):
        r = 'worker %s, open: %s, token%s %s' % ('of the first chunk' if not s.wid else 'of a later chunk', ' '.join(TN[x] for x in s.ss) or 'nothing of this chunk',
                                                 's' * (len(s.script) > 1), ' '.join(TN[x] for x in s.script))
        if s.ahead:
            r += ', then ' + ' '.join(TN[x] for x in s.ahead)
        if s.prune is not None:
            r += ', with learned positions'
        return r


class Worker:
    def __init__(self):
        self.P = build.program(['JSONQuery/worker_automaton.c', 'JSONQuery/utility.c'])
        self.f = self.P.find('executeWorkerAutomaton')
        if self.f is None:
            raise Broken('executeWorkerAutomaton not found')
        self.L = build.layout(LAYOUT, INC)
        self.K = build.consts(['UNIT_MATCHED', 'UNIT_UNMATCHED', 'REPROCESS', 'NOREPROCESS', 'INITIAL', 'NOINITIAL', 'OPEN', 'CLOSE'], INC)
        self.fn_seen = set()

    # ---- cases
    def cases(self):
        R = [(0, None), (1, None), (2, None)]
        L1 = [(0, (0,)), (3, (1,)), (4, (2,))]
        M1 = [(3, (0, 1)), (0, (2,))]
        L2 = [(0, (0,)), (5, (1, 2))]
        N2 = [(0, (0, 2)), (5, (1,))]
        for ss, lv in (([], [R]), ([LCB], [R])):
            if not ss:
                for t in (KY, LCB, LB, RCB, RB, COM):
                    yield Case(1, ss, lv, [t])
                for la in ([COM, PRI], [RB, COM], [COM, LCB], [COM, END], [COM, LB], [RB, RCB]):
                    yield Case(1, ss, lv, [PRI], la)
            else:
                yield Case(1, ss, lv, [KY])
                for la in ([COM, LCB], [RB, RCB], [COM, END], [COM, PRI], [COM, LB], [RB, END], [END, END]):
                    yield Case(1, ss, lv, [RCB], la)
        for ss, two, toks in (([LCB, KY], 1, (PRI, LCB, LB)), ([LCB, KY, LCB], 1, (KY, RCB)), ([KY], 1, (PRI, LCB, LB)), ([KY, LCB], 1, (KY, RCB)),
                              ([LB], 1, (PRI, LCB, LB)), ([LB, LCB], 1, (KY, RCB)), ([LB, LCB, KY], 2, (PRI, LCB, LB)), ([LB, LB], 2, (RB, PRI)),
                              ([LCB, KY, LB], 2, (RB, PRI, LCB)), ([KY, LB], 2, (RB,)), ([LB, LCB, KY, LCB], 2, (RCB,)), ([LCB, KY, LB, LCB], 2, (RCB, KY)),
                              ([LB, LB, LB], 3, (RB,)), ([LB, LCB, KY, LB], 3, (RB,))):
            for A, B in ((L1, L2), (M1, N2)):
                if A is M1 and len(ss) < 2 and two < 2:
                    B = None
                lv = [R, A] + ([B or N2] if two >= 2 else []) + ([[(0, (0,)), (6, (1, 2))]] if two >= 3 else [])
                for t in toks:
                    yield Case(1, ss, lv, [t])
            S0 = [[(1, None)], [(3, (0,))], [(5, (0,))], [(6, (0,))]]
            if ss[0] == LCB or ss[0] == LB:
                for t in toks:
                    yield Case(0, ss, S0[:two + 1], [t])
        for la in ([COM, LCB], [RB, RCB], [COM, END], [RB, END], [END, END]):
            yield Case(1, [LB], [R, L1], [RB], la)
            yield Case(1, [LB], [R, M1], [RB], la)
        S0 = [[(1, None)], [(3, (0,))]]
        yield Case(0, [], S0[:1], [LCB])
        yield Case(0, [], S0[:1], [LB])
        yield Case(0, [LCB], S0[:1], [KY])
        for la in ([END, END], [LCB, KY]):
            yield Case(0, [LCB], S0[:1], [RCB], la)
        yield Case(0, [LB], S0, [RB], [END, END])
        # from the very start
        F = [(q, None) for q in range(NSTATES)]
        yield Case(0, [], [[(1, None)]], [LCB], fresh=True)
        yield Case(0, [], [[(1, None)]], [LCB, KY], fresh=True)
        yield Case(0, [], [[(1, None)]], [LB, PRI], fresh=True)
        for t in ([KY], [LCB], [LB], [RCB], [RB], [RB, RCB], [KY, PRI, RCB]):
            yield Case(1, [], [F], t, [COM, PRI], fresh=True)
        yield Case(1, [], [F], [PRI, RB], [RB, RCB], fresh=True)
        yield Case(1, [], [F], [LCB, RCB, RB], [RB, RCB], fresh=True)
        yield Case(1, [], [F], [LB, RB, RB], [RB, RCB], fresh=True)
        yield Case(1, [], [F], [RB, KY, PRI, RCB], [RB, RCB], fresh=True)
        # a new unit after an unmatched symbol starts afresh; a learned restriction is used once per unit
        yield Case(1, [], [F], [PRI, RB, LCB, RCB], [LCB, KY], fresh=True)
        yield Case(1, [], [F], [KY, PRI, KY], fresh=True, prune=[1])
        yield Case(1, [], [F], [LB, RB, LB], [COM, LB], fresh=True, prune=[1])
        yield Case(1, [], [F], [KY, PRI, RCB, KY], fresh=True, prune=[1])
        yield Case(1, [], [F], [KY, PRI], fresh=True, prune=[1, 2])
        for pr in ([], [1], [2, 1], [1, 2]):
            yield Case(1, [], [F], [KY], fresh=True, prune=pr)
            yield Case(1, [], [F], [LB], fresh=True, prune=pr)

    # ---- state
    def model(self, c):
        lv = []
        for d, l in enumerate(c.levels):
            row = []
            for i, (q, roots) in enumerate(l):
                if c.fresh:
                    row.append(Node(q, ZERO, C(-1), None, [None, []]))
                    continue
                cnt, ms = atom(('cnt', d, i)), atom(('ms', d, i))
                ch = None
                if d == 0:
                    ch = [None, []] if i % 2 == 0 else [(3 + i, 5 + i), []]
                row.append(Node(q, cnt, ms, roots, ch))
            lv.append(row)
        return {'ss': list(c.ss), 'lv': lv, 'rec': [], 'units': [], 'syms': [], 'matched': False, 'asked': not c.fresh}

    def initial(self, c):
        L, K = self.L, self.K
        st = State()
        st.mem['wa'] = Obj('wa', 'sym', C(L['WorkerAutomaton']), 'sym', meta={'nonnull': True})
        w = lambda off, v, s=4: put_entry(st, st.obj('wa'), ('v', C(off), s, v if not isinstance(v, int) else C(v), None))
        W = lambda f: L['WorkerAutomaton.' + f]
        w(W('id'), C(0) if not c.wid else atom('id'))
        if c.wid:
            st.facts.assume_iv(atom('id'), 1, 99)
        w(W('query_automaton'), Ptr('qa', ZERO), 8)
        w(W('tuple_list'), Ptr('tl', ZERO), 8)
        w(W('constraint_flag'), K['OPEN'] if c.prune is not None else K['CLOSE'])
        w(W('constraint_table'), Ptr('ct', ZERO), 8)
        w(W('need_reprocess'), K['NOREPROCESS'] if c.fresh else K['REPROCESS'])
        w(W('initial_flag'), K['NOINITIAL'] if c.fresh or c.wid else K['INITIAL'])
        if not c.fresh:
            o = W('syntax_stack')
            for i, x in enumerate(c.ss):
                w(o + L['SyntaxStack.symbol'] + 4 * i, x)
            w(o + L['SyntaxStack.top_item'], len(c.ss) - 1)
            o = W('query_stacks')
            Q = lambda f: o + L['QueryStacks.' + f]
            N = L['TreeNode']
            idx, par, roo, spans = 0, 0, 0, []
            for d, l in enumerate(c.levels):
                a = idx
                for i, (q, roots) in enumerate(l):
                    b = Q('node') + idx * N
                    T = lambda f: b + L['TreeNode.' + f]
                    w(T('query_state'), q)
                    cnt, ms = atom(('cnt', d, i)), atom(('ms', d, i))
                    st.facts.assume_iv(cnt, 0, INF)
                    st.facts.assume_iv(ms, -1, INF)
                    w(T('count'), cnt)
                    w(T('matched_start'), ms)
                    if d == 0:
                        for r in ('parent_range', 'root_range'):
                            w(T(r) + L['Range.start'], 0)
                            w(T(r) + L['Range.end'], -1)
                        w(T('first_tuple_index'), -1 if i % 2 == 0 else 3 + i)
                        w(T('last_tuple_index'), -1 if i % 2 == 0 else 5 + i)
                    else:
                        up = [j for j, (_, rr) in enumerate(c.levels[d - 1]) if set(rr if rr is not None else (j,)) & set(roots)]
                        w(T('parent_range') + L['Range.start'], par)
                        for j in up:
                            w(Q('parent_pointers') + 4 * par, spans[-1][0] + j)
                            par += 1
                        w(T('parent_range') + L['Range.end'], par - 1)
                        w(T('root_range') + L['Range.start'], roo)
                        for j in roots:
                            w(Q('root_pointers') + 4 * roo, j)
                            roo += 1
                        w(T('root_range') + L['Range.end'], roo - 1)
                    idx += 1
                spans.append((a, idx - 1))
            w(Q('num_node'), idx)
            w(Q('num_parent_pointers'), par)
            w(Q('num_root_pointers'), roo)
            for i, (a, b) in enumerate(spans[:-1]):
                w(Q('item') + i * L['Range'] + L['Range.start'], a)
                w(Q('item') + i * L['Range'] + L['Range.end'], b)
            w(Q('top_item'), len(spans) - 2)
            o = W('query_stacks_element')
            w(o + L['Range.start'], spans[-1][0])
            w(o + L['Range.end'], spans[-1][1])
        st.mem['tl'] = Obj('tl', 'sym', C(L['TupleList']), 'sym')
        put_entry(st, st.obj('tl'), ('v', C(L['TupleList.count']), 4, C(TC), None))
        st.mem['json'] = Obj('json', 'sym', None, 'sym', meta={'nonnull': True})
        st.mem['qa'] = Obj('qa', 'sym', C(L['JSONQueryDFA']), 'sym', meta={'nonnull': True})
        put_entry(st, st.obj('qa'), ('v', C(L['JSONQueryDFA.states_num']), 4, C(NSTATES), None))
        # position 0 is the dead position
        for f, sz in (('accept_type', 4), ('array_index', L['JSONQueryIndexPair'])):
            n = ('qa', f)
            st.mem[n] = Obj(n, 'sym', None, 'sym', meta={'nonnull': True})
            put_entry(st, st.obj('qa'), ('v', C(L['JSONQueryDFA.' + f]), 8, Ptr(n, ZERO), None))
            for k in range(0, sz, 4):
                put_entry(st, st.obj(n), ('v', C(k), 4, ZERO, None))
        st.ghost = {}
        return st

    # ---- stand-ins
    def next_token(self, eng, st, args, i):
        c, L = self.case, self.L
        lx = args[0]
        f = lambda name: Ptr(lx.obj, lx.off + L['Lexer.' + name])
        o = st.obj(lx.obj)
        begin = Sem.read(st, o, f('begin_stream').off, 8, 'p')
        if not isinstance(begin, Ptr):
            raise EngineError('scanner without input')
        cur = Sem.read(st, o, f('lex_state').off, 4, 'i')
        n = st.facts.value(cur) if isinstance(cur, Lin) else None
        if n is None:
            raise EngineError('the state of the scanner is unknown')
        main = st.ghost.get('lex')
        if main is None:
            st.ghost['lex'] = main = (lx.obj, len(st.frames))
        ahead = lx.obj != main[0] or len(st.frames) > main[1]
        toks = c.script + (c.ahead if ahead else [])
        if not ahead:
            st.ghost['_tok'] = n
        kind = toks[n] if n < len(toks) else END
        put_entry(st, o, ('v', f('lex_state').off, 4, C(n + 1), None))
        if kind == END:
            return Agg([Ptr('stale', ZERO), C(END)])
        N = atom(('consumed', n), 1)
        if n:
            st.facts.assume_cmp('lt', atom(('consumed', n - 1), 1), N)
        elif not c.fresh:
            for d, l in enumerate(c.levels):
                for k in range(len(l)):
                    st.facts.assume_cmp('lt', atom(('ms', d, k)), N)
        put_entry(st, st.obj(lx.obj), ('v', f('next_start').off, 8, Ptr(begin.obj, begin.off + N), None))
        S = atom(('begins', n), 1)
        st.facts.assume_cmp('lt', S, N)
        st.facts.assume_cmp('le', self.before(n), S)
        if kind in (KY, PRI):
            old = Sem.read(st, st.obj(lx.obj), f('current_pointer').off, 8, 'p')
            if not isinstance(old, Ptr):
                raise EngineError('the position of the scanner is unknown')
            cs = Ptr(old.obj, old.off + ONE)
            cp = Ptr(begin.obj, begin.off + N - ONE) if kind == KY else Ptr(begin.obj, begin.off + atom(('behind', n), 1))
        else:
            st.facts.assume_cmp('eq', S, N - ONE)
            cs = cp = Ptr(begin.obj, begin.off + N)
        for x, v in (('current_pointer', cp), ('current_start', cs)):
            put_entry(st, st.obj(lx.obj), ('v', f(x).off, 8, v, None))
        content = Ptr('stale', ZERO)
        if kind in (KY, PRI):
            content = Sem.read(st, st.obj(lx.obj), f('content').off, 8, 'p')
            if not isinstance(content, Ptr):
                raise EngineError('scanner without buffer')
            libc.set_text(st, content, (('cstr', ('token', n), 0, ZERO),))
        return Agg([content, C(kind)])

    def before(self, n):
        return atom(('consumed', n - 1), 1) if n else ZERO

    def init_lexer(self, eng, st, args, i):
        L = self.L
        lx = args[0]
        p = libc._alloc(eng, st, args, i, None, 'undef')
        for f, v, s in (('content', p, 8), ('begin_stream', args[1], 8), ('lex_state', ZERO, 4), ('current_pointer', args[1], 8), ('current_start', args[1], 8),
                        ('next_start', args[1], 8), ('end_stream', Ptr('json', atom('json_len')), 8)):
            put_entry(st, st.obj(lx.obj), ('v', lx.off + L['Lexer.' + f], s, v, None))

    def destroy_lexer(self, eng, st, args, i):
        pass

    def step(self, st, q, key):
        """next position: dead, one reached from another tracked position as well, or a new one"""
        if q == 0:
            return 0
        k = ('nx', q, key)
        for x in st.ghost.get('nx', ()):
            if x[0] == k:
                return x[1]
        if st.choose(k + ('dead',)):
            r = 0
        else:
            r = None
            for x in st.ghost.get('nx', ()):
                if x[0][2] == key and x[1] and st.choose(k + ('as', x[1])):
                    r = x[1]
                    break
            if r is None:
                r = 10 + 7 * q + len(str(key)) % 5
                while r in [x[1] for x in st.ghost.get('nx', ())]:
                    r += 1
        st.ghost['nx'] = st.ghost.get('nx', ()) + ((k, r),)
        return r

    def key_of(self, eng, st, k):
        if k is NULL:
            return 'ARRAY'
        if isinstance(k, Ptr):
            return str(norm_text(libc.text_of(eng, st, k)))
        raise EngineError('unknown key')

    def dfa_next(self, eng, st, a, i):
        qa, s, k = a
        s = lin_of(s)
        if not isinstance(qa, Ptr) or qa.obj != 'qa' or st.facts.value(s) is None:
            raise EngineError('transition of an unknown position')
        return C(self.step(st, st.facts.value(s), self.key_of(eng, st, k)))

    def update_info(self, eng, st, a, i):
        L, ci = self.L, a[1]
        ty = Sem.read(st, st.obj(ci.obj), ci.off + L['ConstraintInfo.type'], 4, 'i')
        n = st.ghost.get('_tok', 0)
        want = self.case.script[n]
        tx = None
        if want == KY:
            tx = norm_text(cstring(st, Ptr(ci.obj, ci.off + L['ConstraintInfo.token_name'])))
        if not (isinstance(ty, Lin) and st.facts.value(ty) == want) or want == KY and tx != norm_text((('cstr', ('token', n), 0, ZERO),)):
            st.event('badask', st.where())
        st.event('asked', st.where())
        pr = self.case.prune
        put_entry(st, st.obj(ci.obj), ('v', ci.off + L['ConstraintInfo.num_state'], 4, C(len(pr) if pr else -1), None))
        for k, x in enumerate(pr):
            put_entry(st, st.obj(ci.obj), ('v', ci.off + L['ConstraintInfo.state_set'] + 4 * k, 4, C(x), None))

    def on_load(self, eng, st, p, ty):
        if p.obj == ('qa', 'accept_type') and ty.size == 4:
            v = Sem.read(st, st.obj(p.obj), p.off, 4, 'i')
            if isinstance(v, Lin) and not v.is_const():
                st.facts.assume_iv(v, 0, PREDICATE)
            return v

    # ---- reference
    def bounds(self, st, q):
        if q == 0:
            return ZERO, ZERO
        L = self.L
        b = lambda w: atom(('mem', ('qa', 'array_index'), C(q * L['JSONQueryIndexPair'] + L['JSONQueryIndexPair.' + w]), self.qver('array_index'), 4))
        return b('lower'), b('upper')

    def qver(self, f):
        return self.vers[f]

    def acc(self, st, q):
        if q == 0:
            return 0
        a = atom(('mem', ('qa', 'accept_type'), C(4 * q), self.qver('accept_type'), 4))
        for k in (OUTPUT, CONDITION, PREDICATE):
            if st.decide('eq', a, C(k)):
                return k
        return 0

    def inrange(self, st, n):
        lo, hi = self.bounds(st, n.q)
        if st.decide('eq', lo, ZERO) and st.decide('eq', hi, ZERO):
            return True
        if n.roots is None:
            # the array began elsewhere: at least this many elements precede; what remains possible is kept and settled when merging
            if not self.case.wid:
                raise Skip()
            return st.decide('lt', n.cnt, hi)
        return st.decide('ge', n.cnt, lo) and st.decide('lt', n.cnt, hi)

    def mtype(self, st, n, inarray=None):
        a = self.acc(st, n.q)
        if a == OUTPUT:
            return OUTPUT if self.inrange(st, n) else 0
        if a in (CONDITION, PREDICATE):
            lo, hi = self.bounds(st, n.q)
            if not (st.decide('eq', lo, ZERO) and st.decide('eq', hi, ZERO)):
                raise Skip()    # such positions carry no range (J10)
        if a == PREDICATE and inarray is False:
            raise Skip()
        return a

    def marked(self, st, M, n, i):
        """an element of a start position whose range is settled when merging leaves a record of its own (whatever its text) if it is no output"""
        if n.roots is not None:
            return
        self.mtype(st, n)
        if self.acc(st, n.q) != 0:
            return
        lo, hi = self.bounds(st, n.q)
        if st.decide('eq', lo, ZERO) and st.decide('eq', hi, ZERO):
            return
        if self.inrange(st, n):
            self.emit(M, n, i, None)

    def emit(self, M, n, idx, text):
        """one record for every start position the node stems from"""
        for r in (n.roots if n.roots is not None else (idx,)):
            M['rec'].append((n.q, text))
            M['lv'][0][r].chain[1].append(TC + len(M['rec']))

    def spec(self, st, c):
        M = self.model(c)
        for k, tok in enumerate(c.script):
            self.one(st, c, M, k, tok)
        return M

    def reset(self, c, M, k):
        """a unit ends in front of a symbol that closes what an earlier chunk opened"""
        if M['matched']:
            M['units'].append(dict(roots=M['lv'][0], syms=M['syms'], matched=M['matched'], end=k))
            M['syms'] = []
            M['ss'] = []
            M['lv'] = [[Node(q, ZERO, C(-1), None, [None, []]) for q in range(NSTATES)]]
            M['matched'] = False
        M['asked'] = False

    def one(self, st, c, M, k, tok):
        N = atom(('consumed', k), 1)
        ss, lv = M['ss'], M['lv']
        cur = lv[-1]
        top = ss[-1] if ss else None
        inarray = top == LB if ss else None
        text = (('cstr', ('token', k), 0, ZERO),)
        INV = C(-1)

        def push(key):
            nxt = []
            for i, n in enumerate(cur):
                q = 0
                if self.inrange(st, n):
                    q = self.step(st, n.q, key)
                roots = tuple(n.roots if n.roots is not None else (i,))
                m = [x for x in nxt if x.q == q]
                if m:
                    m[0].roots += roots
                else:
                    nxt.append(Node(q, ZERO, INV, roots))
            lv.append(nxt)

        def closed(level, level_no, virtual):
            for i, n in enumerate(level):
                if st.decide('eq', n.ms, INV):
                    continue
                m = self.mtype(st, n)
                if m == OUTPUT:
                    self.emit(M, n, i, ('virtual', n.ms, N) if virtual else (('slice', 'json', 0, n.ms, N),))
                    n.ms = ('gone', INV)
        virt = c.wid > 0
        if tok == COM:
            return
        if (tok in (LCB, LB, KY) or tok == PRI and not ss) and not M['matched']:
            M['matched'] = k + 1
        if c.prune and not M['asked'] and tok in (KY, LB):
            lv[0] = cur = [cur[x] for x in c.prune]
        if tok in (KY, LB):
            M['asked'] = True
        if tok == LCB:
            ss.append(LCB)
            for i, n in enumerate(cur):
                m = self.mtype(st, n, inarray)
                if m == OUTPUT:
                    n.ms = N - C(1)
                elif m == PREDICATE:
                    self.emit(M, n, i, (('lit', b'{'),))
                elif m == CONDITION:
                    self.emit(M, n, i, ())
        elif tok == LB:
            for i, n in enumerate(cur):
                m = self.mtype(st, n)
                if m == OUTPUT:
                    n.ms = N - C(1)
                elif m == CONDITION:
                    self.emit(M, n, i, ())
            push('ARRAY')
            ss.append(LB)
        elif tok == KY:
            push(str(norm_text(text)))
            ss.append(KY)
        elif tok == PRI:
            for i, n in enumerate(cur):
                if self.mtype(st, n) in (OUTPUT, CONDITION):
                    self.emit(M, n, i, text)
                if not ss:
                    self.marked(st, M, n, i)
                if top != KY:
                    n.cnt = n.cnt + 1
            if top == KY:
                lv.pop()
                ss.pop()
        elif tok == RCB:
            if not ss:
                self.reset(c, M, k)
                M['syms'].append((RCB, N - C(1)))
                M['matched'] = False
                return
            closed(cur, len(lv) - 1, virt)
            sec = ss[-2] if len(ss) > 1 else None
            nxt = (c.script + c.ahead)[k + 1:]
            ss.pop()
            if sec == KY:
                lv.pop()
                ss.pop()
            elif sec == LB or sec is None and virt and nxt[:1] not in ([], [END], [LCB]):
                for i, n in enumerate(cur):
                    m = self.mtype(st, n, True)
                    self.marked(st, M, n, i)
                    n.cnt = n.cnt + 1
                    if m == PREDICATE:
                        self.emit(M, n, i, (('lit', b'}'),))
        elif tok == RB:
            if not ss:
                self.reset(c, M, k)
                M['syms'].append((RB, N - C(1)))
                M['matched'] = False
                return
            up = lv[-2]
            closed(up, len(lv) - 2, virt)
            sec = ss[-2] if len(ss) > 1 else None
            nxt = (c.script + c.ahead)[k + 1:]
            ss.pop()
            lv.pop()
            if sec == KY:
                lv.pop()
                ss.pop()
            elif sec == LB or sec is None and virt and nxt[:1] not in ([], [END], [LB]):
                for i, n in enumerate(up):
                    self.marked(st, M, n, i)
                    n.cnt = n.cnt + 1

    # ---- comparison
    def compare(self, st, c, M, out):
        L, K = self.L, self.K
        if st.end[0] != 'ret':
            return out('path', 'evaluation stops (%s) at %s' % (st.end[0], st.end[-1]))
        F = st.facts
        for e in st.events:
            if e[0] in ('uaf', 'badptr', 'doublefree', 'badfree', 'divzero'):
                return out('memory', '%s at %s' % (e[0], e[-1]))
            if e[0] == 'undef':
                return out('memory', 'a value that was never set is used at %s' % e[-1])
            if e[0] == 'badask':
                out('prune', 'the learned positions of another symbol are used')
        rd = lambda off, s=4, ty='i', o='wa': Sem.read(st, st.obj(o), off if isinstance(off, Lin) else C(off), s, ty)
        val = lambda off, o='wa': (lambda v: F.value(v) if isinstance(v, Lin) else None)(rd(off, o=o))

        def eq(a, b):
            if isinstance(b, tuple):
                return any(eq(a, x) for x in b if x != 'gone')
            return isinstance(a, Lin) and isinstance(b, Lin) and F.cmp('eq', a, b) is True
        W = lambda f: L['WorkerAutomaton.' + f]
        o = W('syntax_stack')
        n = val(o + L['SyntaxStack.top_item'])
        got = [val(o + L['SyntaxStack.symbol'] + 4 * i) for i in range(n + 1)] if n is not None and n < 20 else None
        if got != M['ss']:
            return out('nesting', 'the open symbols become %s, expected %s' % (' '.join(TN.get(x, '?') for x in got) or 'none' if got is not None else 'unknown', ' '.join(TN[x] for x in M['ss']) or 'none'))
        o = W('query_stacks')
        Q = lambda f: o + L['QueryStacks.' + f]
        top = val(Q('top_item'))
        if top != len(M['lv']) - 2:
            return out('nesting', '%s levels of query positions are open, expected %d' % (top if top is None else top + 1, len(M['lv']) - 1))
        spans = [(val(Q('item') + i * L['Range'] + L['Range.start']), val(Q('item') + i * L['Range'] + L['Range.end'])) for i in range(top + 1)]
        e = W('query_stacks_element')
        spans.append((val(e + L['Range.start']), val(e + L['Range.end'])))
        where = {}
        for d, (sp, l) in enumerate(zip(spans, M['lv'])):
            if None in sp or sp[0] < 0 or sp[1] - sp[0] > 30:
                return out('position', 'the tracked positions of a level are unknown')
            nodes = {}
            for i in range(sp[0], sp[1] + 1):
                q = val(Q('node') + i * L['TreeNode'] + L['TreeNode.query_state'])
                if q in nodes:
                    return out('position', 'a query position is tracked twice')
                nodes[q] = i
            if sorted(map(str, nodes)) != sorted(str(x.q) for x in l):
                return out('position', 'the tracked query positions are not the ones the serial rule gives (level %d of %d)' % (d + 1, len(spans)))
            for j, x in enumerate(l):
                b = Q('node') + nodes[x.q] * L['TreeNode']
                where[id(x)] = nodes[x.q]
                g = rd(b + L['TreeNode.count'])
                if not eq(g, x.cnt):
                    out('counter', 'the element index of a tracked position is %s, expected %s' % (g, x.cnt))
                g = rd(b + L['TreeNode.matched_start'])
                ok = eq(g, x.ms) or not isinstance(x.ms, tuple) and d == len(spans) - 1 and c.script[-1] in (LCB,) and eq(g, C(-1)) and F.cmp('eq', x.ms, N_last(c) - C(1)) is not True
                if not ok:
                    out('match', 'the start of the open match of a tracked position is %s' % (g,))
                rs, re = val(b + L['TreeNode.root_range'] + L['Range.start']), val(b + L['TreeNode.root_range'] + L['Range.end'])
                if x.roots is None:
                    if re != -1:
                        out('root', 'a start position refers to another start position')
                elif rs is None or re is None or re - rs > 30:
                    out('root', 'the start positions a tracked position stems from are unknown')
                else:
                    gr = [val(Q('root_pointers') + 4 * r) for r in range(rs, re + 1)]
                    wr = [where[id(M['lv'][0][r])] for r in x.roots]
                    if sorted(map(str, gr)) != sorted(map(str, wr)):
                        out('root', 'a tracked position stems from start positions %s, expected %s' % (gr, wr))
        nn = val(Q('num_node'))
        if nn is None or nn <= max(x[1] for x in spans):
            out('position', 'the number of query tree nodes does not cover the tracked ones')
        elif nn > max(x[1] for x in spans) + 1:
            out('growth', 'tree nodes that are no longer tracked are kept')
        for f, g in (('parent_range', 'num_parent_pointers'), ('root_range', 'num_root_pointers')):
            last = [val(Q('node') + i * L['TreeNode'] + L['TreeNode.' + f] + L['Range.end']) for sp in spans for i in range(sp[0], sp[1] + 1)]
            n = val(Q(g))
            if n is None or None in last or n < max(last) + 1:
                out('position', 'the list of start positions does not cover the tracked positions')
            elif n > max(last) + 1:
                out('growth', 'start positions of positions no longer tracked are kept')
        # records
        n1 = val(L['TupleList.count'], 'tl')
        if n1 != TC + len(M['rec']):
            out('record', '%s record(s) added, expected %d' % ('?' if n1 is None else n1 - TC, len(M['rec'])))
        else:
            # records of one token may come in any order of the tracked positions: match them by start position
            recs = {}
            for k in range(TC + 1, n1 + 1):
                b = k * L['Tuple']
                t = lambda f: rd(b + L['Tuple.' + f], o='tl')
                sp = t('start_position')
                v = F.value(sp) if isinstance(sp, Lin) else None
                tx = ('text', norm_text(cstring(st, Ptr('tl', C(b + L['Tuple.text']))))) if v == -1 else ('virtual', sp, t('end_position'))
                recs[k] = (val(b + L['Tuple.state'], 'tl'), tx, val(b + L['Tuple.next_index'], 'tl'))
            used = set()
            allroots = [x for u in M['units'] for x in u['roots']] + M['lv'][0]
            for x in allroots:
                exp = [M['rec'][k - TC - 1] for k in x.chain[1]]
                if not exp and x.chain[0] is None:
                    first, last = -1, -1
                u = [u for u in M['units'] if x in u['roots']]
                if u:
                    b = W('unit_list') + L['UnitList.units'] + M['units'].index(u[0]) * L['Unit'] + L['Unit.root_node'] + u[0]['roots'].index(x) * L['TreeNode']
                else:
                    b = Q('node') + where[id(x)] * L['TreeNode']
                gf, gl = val(b + L['TreeNode.first_tuple_index']), val(b + L['TreeNode.last_tuple_index'])
                if not exp:
                    w = x.chain[0] or (-1, -1)
                    if (gf, gl) != w and not (w == (-1, -1) and gf == -1):
                        out('record', 'a start position without new records has its record list changed')
                    continue
                if x.chain[0] is not None:
                    if gf != x.chain[0][0]:
                        out('record', 'the record list of a start position loses its beginning')
                    k = val(x.chain[0][1] * L['Tuple'] + L['Tuple.next_index'], 'tl')
                else:
                    k = gf
                seq = []
                while k in recs and k not in seq:
                    seq.append(k)
                    k = recs[k][2]
                if len(seq) != len(exp) or k != -1 or gl != (seq[-1] if seq else None):
                    out('record', 'the record list of a start position has %d new record(s), expected %d' % (len(seq), len(exp)))
                    continue
                for s, (q, tx) in zip(seq, exp):
                    used.add(s)
                    if recs[s][0] != q:
                        out('record', 'a record carries another query position than the one that matched')
                    g = recs[s][1]
                    if tx is None:
                        if g[0] != 'text':
                            out('text', 'the mark of a passed element refers to a part of the chunk')
                        continue
                    if isinstance(tx, tuple) and tx[:1] == ('virtual',):
                        if g[0] != 'virtual' or not eq(g[1], tx[1]) or not eq(g[2], tx[2]):
                            out('text', 'a record does not refer to the matched text')
                    elif g[0] != 'text' or norm_text(g[1]) != norm_text(tx) and not text_eq(st, g[1], tx):
                        out('text', 'record text is %s, expected %s' % (show_text(g[1]) if g[0] == 'text' else 'a reference', show_text(tx)))
            if set(recs) != used and not [1 for x in allroots if 0]:
                out('record', 'a record belongs to no start position')
        # units
        U = W('unit_list')
        nu = val(U + L['UnitList.count_units'])
        want = M['units'] + [dict(roots=M['lv'][0], syms=M['syms'], matched=M['matched'] or None)]
        if nu != len(want) - 1:
            return out('unit', '%s unit(s) are reported, expected %d' % ('?' if nu is None else nu + 1, len(want)))
        for k, u in enumerate(want):
            b = U + L['UnitList.units'] + k * L['Unit']
            X = lambda f: b + L['Unit.' + f]
            ns = val(X('count_unmatched_symbols'))
            if ns != len(u['syms']) - 1:
                out('unmatched', '%s symbol(s) are handed on for merging, expected %d' % ('?' if ns is None else ns + 1, len(u['syms'])))
                continue
            for j, (t, pos) in enumerate(u['syms']):
                y = X('unmatched_symbols') + j * L['UnmatchedSymbol']
                if val(y + L['UnmatchedSymbol.token_type']) != t:
                    out('unmatched', 'a symbol handed on for merging is of another kind')
                if not eq(rd(y + L['UnmatchedSymbol.index']), pos):
                    out('unmatched', 'a symbol handed on for merging carries another position')
            if val(X('num_root')) != len(u['roots']):
                out('unit', 'a unit reports %s start positions, expected %d' % (val(X('num_root')), len(u['roots'])))
                continue
            gs = sorted((str(val(X('root_node') + j * L['TreeNode'] + L['TreeNode.query_state'])), str(val(X('root_node') + j * L['TreeNode'] + L['TreeNode.first_tuple_index'])))
                        for j in range(len(u['roots'])))
            ws = sorted((str(x.q), str(x.chain[0][0] if x.chain[0] else val_chain(x, st, val, Q, L, where, M))) for x in u['roots'])
            if [g[0] for g in gs] != [w[0] for w in ws] or any(w[1] != '?' and w[1] != g[1] for g, w in zip(gs, ws)):
                out('unit', 'a unit does not report the start positions and records it was evaluated from')
            inside = lambda p, n: isinstance(p, Ptr) and p.obj == 'json' and F.cmp('le', self.before(n), p.off) is True and F.cmp('le', p.off, atom(('begins', n), 1)) is True
            if u['matched'] and not inside(rd(X('start'), 8, 'p'), u['matched'] - 1):
                out('unit', 'the text of a unit does not begin with its first symbol')
            p = rd(X('end'), 8, 'p')
            if 'end' in u and not inside(p, u['end']) or 'end' not in u and not (isinstance(p, Ptr) and p.obj == 'json' and eq(p.off, atom('json_len'))):
                out('unit', 'the text of a unit does not end where the unit ends')
            if u['matched']:
                if val(X('unit_state')) != K['UNIT_MATCHED']:
                    out('unit', 'a unit evaluated from assumed start positions is not marked as such')

    def run(self, c):
        self.case = c
        h = txt_handlers()
        h.update({'nextToken': self.next_token, 'initLexer': self.init_lexer, 'destroyLexer': self.destroy_lexer, 'dfaNextStateByStr': self.dfa_next, 'updateStateInfo': self.update_info})
        E = Engine(self.P, h, on_load=self.on_load, nonnull=lambda o: True, small_unsigned=True, unroll=40, max_states=20000)
        st = self.initial(c)
        self.vers = {f: st.obj(('qa', f)).ver for f in ('accept_type', 'array_index')}
        E.start(self.f, [Ptr('wa', ZERO), Ptr('json', ZERO)], st)
        T = E.run(st)
        self.fn_seen |= set(E.calls)
        return T

    def check(self, c):
        V, n = [], 0
        T = self.run(c)
        if not T:
            raise EngineError('no completed path')
        work = list(T)
        while work:
            st = work.pop()
            try:
                M = self.spec(st, c)
                buf = []
                self.compare(st, c, M, lambda k, m: buf.append((k, m)))
                n += 1
            except Skip:
                continue
            except Split as sp:
                for a in sp.alts:
                    s2 = st.copy()
                    if a(s2):
                        work.append(s2)
                continue
            V += buf
        return V, n


def val_chain(x, st, val, Q, L, where, M):
    return -1 if not x.chain[1] else '?'


def N_last(c):
    return atom(('consumed', len(c.script) - 1), 1)


def _job(i):
    c = _CASES[i]
    try:
        V, n = _W.check(c)
        return i, V, n, None, sorted(_W.fn_seen)
    except EngineError as e:
        return i, [], 0, str(e), []


def run(rep):
    import concurrent.futures as cf
    import multiprocessing as mp
    global _W, _CASES
    _W = Worker()
    _CASES = list(_W.cases())
    order = sorted(range(len(_CASES)), key=lambda i: -(3 * (LB in _CASES[i].script or RB in _CASES[i].script) + 9 * len(_CASES[i].script) + (_CASES[i].wid > 0)))
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for i, V, n, err, fns in ex.map(_job, order, chunksize=1):
            c = _CASES[i]
            if err:
                rep.undec('%s: %s' % (c.show(), err))
                continue
            for k, m in V:
                rep.violation('worker/' + k, m, 'worker_automaton.c:executeWorkerAutomaton', c.show())
            rep.ob('situations', 1)
            rep.ob('paths compared with the serial rule', n)
            for f in fns:
                rep.saw('functions', f)
            if len(rep.samples) < 12:
                rep.samples.append('%s: %d paths' % (c.show(), n))
    if rep.obl.get('situations', 0) < len(_CASES) // 2 and not rep.viol:
        raise Broken('the worker could not be followed in most situations')
    rep.notes += ['The query automaton is arbitrary (three to seven tracked positions of any kind, transitions may coincide or be dead); the scanner is replaced by a token source whose own behaviour is J01.',
                  'A start position whose element index range depends on an earlier chunk keeps every match that is still possible and leaves one record for every other passed element, from which merging settles the range (J16).',
                  'At a chunk border only an array element, a key or a further record can follow (J17), so a value closed at the outermost level of a chunk is an array element or a record.']
    rep.rule('Every token kind in every nesting context of a worker (outermost level of its chunk, one, two or three levels inside, first or later chunk, with and without learned positions) is interpreted '
             'on the IR of executeWorkerAutomaton and everything it calls; open symbols, tracked positions, element indices, open matches, start positions, recorded matches and their lists, '
             'symbols handed on and unit borders on every path are compared with the serial rule.')
