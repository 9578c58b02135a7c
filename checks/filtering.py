"""predicate.c: results inside filtered elements are delivered exactly when their filters are true (J13)."""
from engine import build, libc
from engine.dom import *
from engine.interp import *
from engine.interp import put_entry, raise_end
from .common import Broken
from .search import exhausted

LAY = {'PredicateFilter': ['tuple_list', 'ctx', 'predicate_conditions', 'pstack', 'buffer', 'output', 'finish_flag'],
       'PredicateStack': ['elements', 'top_element'], 'PredicateStackElement': ['predicate_state', 'output_buffer_pointer', 'conditions'],
       'PredicateCondition': ['name', 'text'], 'Output': ['element', 'count'], 'TupleList': ['element', 'count'],
       'Tuple': ['state', 'text'], 'ASTNode': ['string']}
INC = ['<stdlib.h>', '<string.h>', '"predicate.h"']
# query positions of the model: filters -> names of their conditions; conditions -> name
CONDS = {41: 'a', 42: 'b', 43: 'ab', 44: 'bc'}


def build_room(L):
    """bytes of the text field of a record"""
    return L['Tuple'] - L['Tuple.text'] - (L['Tuple'] - L['Tuple.text']) % 8


class Filtering:
    def __init__(self, rep):
        self.rep, self.leak = rep, False
        self.P = build.program(['JSONQuery/predicate.c', 'JSONQuery/utility.c'])
        self.L = L = build.layout(LAY, INC)
        for f in ('generateFinalOutput', 'initPredicateFilter'):
            if self.P.find(f) is None:
                raise Broken(f + ' not found')
        self.last = (L['PredicateFilter.pstack'] - L['PredicateFilter.predicate_conditions']) // 8 - 1
        if not 44 < self.last < 5000:
            raise Broken('unexpected layout of the filter state')
        self.PRED = {1: [41, 42, 43], self.last: [44, 42]}
        self.seen = set()

    # ---- environment
    def node(self, st, s):
        """filter expression or condition variable of a query position"""
        if s in self.PRED or s in CONDS:
            n = ('subtree', s)
            if n not in st.mem:
                ents = ()
                if s in CONDS:
                    nm = ('cname', CONDS[s])
                    st.mem[nm] = Obj(nm, 'sym', None, 'sym', (('s', ZERO, (('lit', CONDS[s].encode()),), None),), meta={'nonnull': True})
                    ents = (('v', C(self.L['ASTNode.string']), 8, Ptr(nm, ZERO), None),)
                st.mem[n] = Obj(n, 'sym', C(self.L['ASTNode']), 'sym', ents, meta={'nonnull': True})
            return Ptr(n, ZERO)
        return NULL

    def handlers(self):
        L = self.L
        from .serial import txt_handlers

        def const(eng, st, v):
            l = lin_of(v)
            if not l.is_const():
                r = st.facts.value(l)
                if r is None:
                    if 'undef' in repr(l):
                        st.event('undef', str(l), st.where())
                        raise_end(st, 'a query position that was never set')
                    raise EngineError('query position %s of a filter is not determined at %s' % (l, st.where()))
                return r
            return l.c

        def put(eng, st, dst, t):
            if isinstance(dst, Ptr) and isinstance(dst.obj, tuple) and dst.obj[0] == 'ld' and dst.off == ZERO and dst.obj[1] in self.elems:
                st.event('put', self.elems[dst.obj[1]], dst.obj[3], t, st.seq, st.where())
                return True
            return False

        def strcopy(eng, st, a, i):
            t = libc.text_of(eng, st, a[0])
            if not put(eng, st, a[1], t):
                return libc.strcpy(eng, st, (a[1], a[0]), i)

        def strcpy(eng, st, a, i):
            t = libc.text_of(eng, st, a[1])
            if not put(eng, st, a[0], t):
                return libc.strcpy(eng, st, a, i)
            return a[0]

        def evaluate(eng, st, a, i):
            n, pc = a
            tab = None
            if isinstance(pc, Ptr):
                tab = []
                o = st.obj(pc.obj)
                if o.freed:
                    st.event('uaf', 'read', pc, st.where())
                for k in range(8):
                    off = pc.off + k * L['PredicateCondition']
                    nm = Sem.read(st, o, off + L['PredicateCondition.name'], 8, 'p')
                    if nm is NULL:
                        break
                    tx = Sem.read(st, o, off + L['PredicateCondition.text'], 8, 'p')
                    tab.append((norm_text(cstring(st, nm)) if isinstance(nm, Ptr) else nm, norm_text(cstring(st, tx)) if isinstance(tx, Ptr) else tx))
                tab = tuple(tab)
            k = st.ghost.get('_evals', 0)
            r = st.choose(('filter value', k))
            st.ghost['_evals'] = k + 1
            st.event('eval', n.obj if isinstance(n, Ptr) else n, tab, r, st.where())
            return C(int(r))

        def create(eng, st, a, i):
            p = libc._alloc(eng, st, a, i, C(L['Output']), 'undef')
            put_entry(st, st.obj(p.obj), ('v', C(L['Output.count']), 4, C(-1), None))
            put_entry(st, st.obj(p.obj), ('v', C(L['Output.element']), 8, Ptr(('newelems', p.obj), ZERO), None))
            st.mem[('newelems', p.obj)] = Obj(('newelems', p.obj), 'sym', None, 'sym', meta={'nonnull': True})
            self.elems[('newelems', p.obj)] = 'new'
            return p
        h = txt_handlers()
        h.update({
            'strcopy': strcopy, 'strcpy': strcpy, 'evaluateExpression': evaluate, 'createOutput': create,
            'getContextSubtree': lambda e, s, a, i: self.node(s, const(e, s, a[1])),
            'getContextSizeOfPredicateStates': lambda e, s, a, i: C(len(self.PRED)) if self.filters else ZERO,
            'getContextPredicateStates': lambda e, s, a, i: C(sorted(self.PRED)[const(e, s, a[1])]),
            'getContextSizeOfMapping': lambda e, s, a, i: C(len(self.PRED[const(e, s, a[1])])),
            'getContextValueOfMapping': lambda e, s, a, i: C(self.PRED[const(e, s, a[1])][const(e, s, a[2])]),
        })
        return h

    def engine(self, peel):
        self.elems = {'outel': 'output', 'bufel': 'buffer'}
        return Engine(self.P, self.handlers(), nonnull=lambda o: True, small_unsigned=True, max_states=30000,
                      unroll=5 if peel else 0)

    # ---- states
    def base(self, filters=True):
        L = self.L
        st = State()
        st.mem['ctx'] = Obj('ctx', 'sym', None, 'sym', meta={'nonnull': True})
        st.mem['pf'] = Obj('pf', 'sym', C(L['PredicateFilter']), 'sym', meta={'nonnull': True})
        w = lambda off, v, s=8: put_entry(st, st.obj('pf'), ('v', off if isinstance(off, Lin) else C(off), s, v, None))
        st.mem['pf'] = st.mem['pf'].rep(ents=(('f', C(L['PredicateFilter.predicate_conditions']), C(8 * (self.last + 1)), 0),))
        w(L['PredicateFilter.tuple_list'], Ptr('tl', ZERO))
        w(L['PredicateFilter.ctx'], Ptr('ctx', ZERO))
        w(L['PredicateFilter.output'], Ptr('out', ZERO))
        if filters:
            for s in self.PRED:
                self.conds(st, ('names', s), s, False)
                w(L['PredicateFilter.predicate_conditions'] + 8 * s, Ptr(('names', s), ZERO))
        for n, el, cnt in (('out', 'outel', atom('noutput', -1)), ('buf', 'bufel', atom('nbuffer', -1))):
            st.mem[n] = Obj(n, 'sym', C(L['Output']), 'sym', (('v', C(L['Output.count']), 4, cnt, None), ('v', C(L['Output.element']), 8, Ptr(el, ZERO), None)), meta={'nonnull': True})
            st.mem[el] = Obj(el, 'sym', None, 'sym', meta={'nonnull': True})
        return st

    def conds(self, st, name, s, texts):
        """a condition list; texts: position of the condition -> text object, where set"""
        L = self.L
        ents = []
        for k, c in enumerate(self.PRED[s]):
            self.node(st, c)
            ents.append(('v', C(k * L['PredicateCondition'] + L['PredicateCondition.name']), 8, Ptr(('cname', CONDS[c]), ZERO), None))
            t = NULL
            if texts and k != 1:
                t = Ptr(('ctext', name, k), ZERO)
                st.mem[t.obj] = Obj(t.obj, 'heap', None, 'sym', meta={'nonnull': True})
            ents.append(('v', C(k * L['PredicateCondition'] + L['PredicateCondition.text']), 8, t, None))
        ents.append(('v', C(len(self.PRED[s]) * L['PredicateCondition'] + L['PredicateCondition.name']), 8, NULL, None))
        st.mem[name] = Obj(name, 'heap' if texts is not False else 'sym', C((len(self.PRED[s]) + 1) * L['PredicateCondition']), 'undef', tuple(ents), meta={'nonnull': True})

    def elem(self, f, pos):
        L = self.L
        return pos.mul(L['PredicateStackElement']) + C(L['PredicateFilter.pstack'] + L['PredicateStack.elements'] + L['PredicateStackElement.' + f])

    def tuples(self, st, kinds):
        L = self.L
        st.mem['tl'] = Obj('tl', 'sym', C(L['TupleList']), 'sym', meta={'nonnull': True})
        w = lambda e: put_entry(st, st.obj('tl'), e)
        room = build_room(L)
        for i, (s, t) in enumerate(kinds):
            if t in ('{', '}'):
                t = (('lit', t.encode()),)
            else:
                t = self.plain(i, t)
                st.facts.assume_cmp('lt', text_len(t), C(room))
            w(('s', C(i * L['Tuple'] + L['TupleList.element'] + L['Tuple.text']), t, None))
        for i, (s, t) in enumerate(kinds):
            w(('v', C(i * L['Tuple'] + L['TupleList.element'] + L['Tuple.state']), 4, C(s), None))
        w(('v', C(L['TupleList.count']), 4, C(len(kinds) - 1), None))

    def plain(self, i, kind='v'):
        # the text of a value: never one of the two markers
        if kind == 'o':
            return (('lit', b'{'), ('ch', atom(('second', i), 32, 125)), ('cstr', ('value', i), 0, ZERO))
        return (('ch', atom(('first', i), 34, 57)), ('cstr', ('value', i), 0, ZERO))

    KINDS = property(lambda self: [(s, '{') for s in sorted(self.PRED)] + [(s, '}') for s in sorted(self.PRED)] + [(s, 'v') for s in CONDS] + [(60, 'v'), (60, 'o'), (43, 'o')])

    def stacks(self):
        yield None, 0
        for s in sorted(self.PRED):
            yield s, 1
            yield s, 2

    # ---- reference
    def model(self, top, depth):
        T = C(-1) if depth == 0 else ZERO if depth == 1 else atom('height', 1, 60)
        m = {'T': T, 'B': atom('nbuffer', -1), 'O': atom('noutput', -1), 'stack': [], 'puts': [], 'moves': [], 'evals': []}
        if depth == 2:
            # the element below
            m['stack'].append({'state': min(self.PRED), 'first': atom('first below', 0), 'tab': self.tab('cb', min(self.PRED)), 'obj': 'cb'})
        if depth:
            m['stack'].append({'state': top, 'first': atom('first', 0), 'tab': self.tab('ct', top), 'obj': 'ct'})
        return m

    def tab(self, name, s):
        return [[(('lit', CONDS[c].encode()),), NULL if k == 1 else (('cstr', ('ctext', name, k), 0, ZERO),)] for k, c in enumerate(self.PRED[s])]

    def fits(self, m, kinds, buffered):
        """the tuples can come in this order"""
        st = [e['state'] for e in m['stack']]
        deep = len(st) == 2
        for s, t in kinds:
            if t == '{':
                st.append(s)
            elif not st:
                return False
            elif t == '}':
                if st.pop() != s:
                    return False
                if deep and not st:
                    return False          # what lies below is not modelled
            elif s in CONDS and False:
                return False
        return True

    def step(self, m, i, kind, values):
        s, t = kind
        if t == '{':
            m['T'] = m['T'] + 1
            m['stack'].append({'state': s, 'first': m['B'] + 1, 'tab': [[(('lit', CONDS[c].encode()),), NULL] for c in self.PRED[s]], 'obj': None})
        elif t == '}':
            e = m['stack'].pop()
            v = values(len(m['evals']))
            m['evals'].append((('subtree', e['state']), tuple((a, b if b is NULL else norm_text(b)) for a, b in e['tab']), v))
            if v is None:
                return False
            alone = m['T'] == ZERO
            m['T'] = m['T'] - C(1)
            if v and alone:
                m['moves'].append((m['O'], e['first'], m['B'] + 1))
                m['O'] = m['O'] + (m['B'] + 1 - e['first'])
            if not v or alone:
                m['B'] = e['first'] - C(1)
        else:
            e = m['stack'][-1]
            if s in CONDS and CONDS[s] in [CONDS[c] for c in self.PRED[e['state']]]:
                for row in e['tab']:
                    if row[0] == (('lit', CONDS[s].encode()),):
                        row[1] = self.plain(i, t)
            else:
                m['B'] = m['B'] + 1
                m['puts'].append((m['B'], self.plain(i, t)))
        return True

    # ---- one situation
    def case(self, top, depth, kinds):
        L = self.L
        self.filters = True
        m = self.model(top, depth)
        if not self.fits(m, kinds, False):
            return
        st = self.base()
        F = st.facts
        w = lambda off, v, s=8: put_entry(st, st.obj('pf'), ('v', off if isinstance(off, Lin) else C(off), s, v, None))
        w(L['PredicateFilter.buffer'], Ptr('buf', ZERO))
        w(L['PredicateFilter.pstack'] + L['PredicateStack.top_element'], m['T'], 4)
        n = len(m['stack'])
        for k, e in enumerate(m['stack']):
            pos = m['T'] - C(n - 1 - k)
            self.conds(st, e['obj'], e['state'], True)
            w(self.elem('predicate_state', pos), C(e['state']), 4)
            w(self.elem('output_buffer_pointer', pos), e['first'], 4)
            w(self.elem('conditions', pos), Ptr(e['obj'], ZERO))
            F.assume_cmp('le', e['first'], m['B'] + 1)
        if n == 2:
            F.assume_cmp('le', m['stack'][0]['first'], m['stack'][1]['first'])
        self.tuples(st, kinds)
        init = st.mem['pf']
        E = self.engine(True)
        h0 = dict(st.mem)
        E.start(self.P.find('generateFinalOutput'), [Ptr('pf', ZERO)], st)
        T = E.run(st)
        if not T:
            raise Broken('no path through generateFinalOutput')
        what = 'records %s with %s' % (' '.join(t if t in '{}' else 'condition %s' % CONDS[s] if s in CONDS else 'value' for s, t in kinds),
                                       'no open element' if not depth else '%s open element%s' % ('one' if depth == 1 else 'several', '' if depth == 1 else 's'))
        self.events(E, T)
        for t in T:
            if t.end[0] != 'ret':
                self.bad('stop', 'filtering does not return (%s)' % t.end[0], what)
                continue
            m = self.model(top, depth)
            ev = [e for e in t.events if e[0] == 'eval']
            ok = True
            for i, k in enumerate(kinds):
                if not self.step(m, i, k, lambda q: ev[q][3] if q < len(ev) else None):
                    self.bad('eval', 'the filter of a closed element is not evaluated', what)
                    ok = False
                    break
            if ok:
                self.leaks(t, m, what)
                self.compare(E, t, m, init, what)
                self.rep.ob('filtering outcomes (path, compared with the reference)')

    def leaks(self, t, m, what):
        """only the conditions of the elements that are still open stay allocated"""
        if not self.leak:
            return
        L = self.L
        work, seen = ['out', 'buf'], set()
        n = len(m['stack'])
        for k, e in enumerate(m['stack']):
            p = Sem.read(t, t.obj('pf'), self.elem('conditions', m['T'] - C(n - 1 - k)), 8, 'p')
            if isinstance(p, Ptr):
                work.append(p.obj)
        while work:
            x = work.pop()
            if x in seen or x not in t.mem:
                continue
            seen.add(x)
            work += [e[3].obj for e in t.mem[x].ents if e[0] == 'v' and isinstance(e[3], Ptr)]
        for x, o in t.mem.items():
            if o.kind == 'heap' and not o.freed and x not in seen:
                site = o.meta.get('site', 'the conditions of a closed element')
                self.rep.violation('filtering/leak/%s' % site, 'memory is never released when an element is closed', site, what)

    def bad(self, kind, msg, what, where='generateFinalOutput (predicate.c)'):
        if self.leak:
            return
        self.rep.violation('filtering/' + kind, msg, where, what)

    def events(self, E, T):
        for e, t in E.all_events(T):
            if e[0] == 'extern':
                self.rep.undec('unknown function %s' % (e[1:],))
            if e[0] in ('uaf', 'badptr', 'doublefree', 'badfree', 'undef', 'divzero'):
                self.rep.violation('filtering/%s' % e[0], '%s at %s' % ('a value that was never set is used' if e[0] == 'undef' else e[0], e[-1]), e[-1])

    def compare(self, E, t, m, init, what):
        L = self.L
        F = t.facts
        eq = lambda a, b: isinstance(a, Lin) and isinstance(b, Lin) and F.cmp('eq', a, b) is True
        rd = lambda off, s=4, ty='i': Sem.read(t, t.obj('pf'), off if isinstance(off, Lin) else C(off), s, ty)
        cnt = lambda o: Sem.read(t, t.obj(o), C(L['Output.count']), 4, 'i')
        bad = lambda k, msg: self.bad(k, msg, what)
        if t.ret != Ptr('out', ZERO):
            bad('result', 'the returned result list is %s' % (t.ret,))
        if rd(L['PredicateFilter.buffer'], 8, 'p') != Ptr('buf', ZERO) or rd(L['PredicateFilter.output'], 8, 'p') != Ptr('out', ZERO):
            bad('lists', 'the lists of the filter are replaced')
        # evaluations
        ev = [e[1:4] for e in t.events if e[0] == 'eval']
        if len(ev) != len(m['evals']):
            bad('eval', '%d filter evaluations, expected %d' % (len(ev), len(m['evals'])))
        for a, b in zip(ev, m['evals']):
            if a[0] != b[0]:
                bad('expression', 'the filter expression of another position is evaluated')
            if a[1] is None or sorted(map(repr, a[1])) != sorted(map(repr, b[1])):
                bad('conditions', 'the filter is evaluated with conditions %s, expected %s' % (self.showtab(a[1]), self.showtab(b[1])))
        # open elements
        top = rd(L['PredicateFilter.pstack'] + L['PredicateStack.top_element'])
        if not eq(top, m['T']):
            bad('open', 'number of open elements becomes %s, expected %s' % (top + 1 if isinstance(top, Lin) else top, m['T'] + 1))
        else:
            n = len(m['stack'])
            for k, e in enumerate(m['stack']):
                pos = m['T'] - C(n - 1 - k)
                s = rd(self.elem('predicate_state', pos))
                f = rd(self.elem('output_buffer_pointer', pos))
                if not eq(s, C(e['state'])):
                    bad('open', 'an open element gets query position %s' % s)
                if not eq(f, e['first']):
                    bad('first', 'the first candidate of an open element is %s, expected %s' % (f, e['first']))
                p = rd(self.elem('conditions', pos), 8, 'p')
                if not isinstance(p, Ptr) or t.obj(p.obj).freed or p.obj in [('names', x) for x in self.PRED]:
                    bad('conditions', 'an open element has no conditions of its own')
                    continue
                tab = self.read_tab(t, p)
                if sorted(map(repr, tab)) != sorted(map(repr, [(a, b if b is NULL else norm_text(b)) for a, b in e['tab']])):
                    bad('conditions', 'conditions of an open element become %s, expected %s' % (self.showtab(tab), self.showtab(e['tab'])))
        for e in t.obj('pf').ents:
            pass
        # candidates and results
        if not eq(cnt('buf'), m['B']):
            bad('buffer', 'number of undecided candidates becomes %s, expected %s' % (cnt('buf') + 1, m['B'] + 1))
        if not eq(cnt('out'), m['O']):
            bad('result', 'number of results becomes %s, expected %s' % (cnt('out') + 1, m['O'] + 1))
        puts = [e for e in t.events if e[0] == 'put' and e[1] == 'buffer']
        want = list(m['puts'])
        for e in puts:
            i = div_exact(e[2], 8)
            hit = [x for x in want if i is not None and eq(i, x[0]) and norm_text(x[1]) == norm_text(e[3])]
            if not hit:
                bad('candidate', 'the text %s is put at place %s of the candidates' % (show_text(e[3]), i))
            else:
                want.remove(hit[0])
        for x in want:
            bad('candidate', 'a candidate is not kept')
        # every text written to the results comes from the released range, at the right place
        moves = m['moves']
        for q in [t] + [b for H in E.headers.values() for b in H.backs]:
            for e in q.events:
                if e[0] != 'put' or e[1] != 'output':
                    continue
                i = div_exact(e[2], 8)
                src = e[3][0][1] if len(e[3]) == 1 and e[3][0][0] == 'cstr' and e[3][0][3] == ZERO else None
                j = div_exact(src[3], 8) if isinstance(src, tuple) and src[0] == 'ld' and src[1] == 'bufel' and src[2] == 0 else None
                if j is None and i is not None and q is t:
                    # a candidate of these records
                    own = [x for x in m['puts'] if norm_text(x[1]) == norm_text(e[3])]
                    j = own[0][0] if own else None
                if i is None or j is None:
                    bad('result', 'a result gets the text %s' % show_text(e[3]))
                    continue
                if not moves:
                    if q is t:
                        bad('result', 'a candidate is delivered although no filter was decided to be true')
                    continue
                if q is t and not any(q.facts.cmp('eq', i - j, a[0] + 1 - a[1]) is True for a in moves):
                    bad('order', 'candidate %s is delivered as result %s' % (j, i))
        for a in moves:
            def moved(b, j):
                return any(e[0] == 'put' and e[1] == 'output' and div_exact(e[2], 8) is not None and b.facts.cmp('eq', div_exact(e[2], 8), j + a[0] + 1 - a[1]) is True
                           and self.from_buffer(b, e[3], j) for e in b.events)
            why = self.covered(E, t, a[1], a[2], moved)
            if why:
                bad('release', 'not every candidate of a true filter is delivered (%s)' % why)

    def from_buffer(self, b, txt, j):
        src = txt[0][1] if len(txt) == 1 and txt[0][0] == 'cstr' and txt[0][3] == ZERO else None
        if not (isinstance(src, tuple) and src[0] == 'ld' and src[1] == 'bufel'):
            return False
        k = div_exact(src[3], 8)
        return k is not None and b.facts.cmp('eq', k, j) is True

    def covered(self, E, t, lo, hi, done):
        """every index in [lo, hi) was handled: by an iteration of a loop, or one by one on the path"""
        if t.facts.cmp('ge', lo, hi) is True:
            return None
        why = None
        for p in range(8):
            # the first iterations of a loop may be kept apart
            why = exhausted(E, t, lo + p, hi, done)
            if why is None:
                return None
            if not done(t, lo + p):
                break
        n = t.facts.value(hi - lo)
        if n is not None and 0 <= n <= 8 and all(done(t, lo + k) for k in range(n)):
            return None
        return why

    def read_tab(self, t, p):
        L = self.L
        out = []
        o = t.obj(p.obj)
        for k in range(9):
            off = p.off + k * L['PredicateCondition']
            nm = Sem.read(t, o, off + L['PredicateCondition.name'], 8, 'p')
            if nm is NULL:
                break
            tx = Sem.read(t, o, off + L['PredicateCondition.text'], 8, 'p')
            out.append((norm_text(cstring(t, nm)) if isinstance(nm, Ptr) else nm, norm_text(cstring(t, tx)) if isinstance(tx, Ptr) else tx))
        return tuple(out)

    def showtab(self, tab):
        if tab is None:
            return 'none'
        return '{%s}' % ', '.join('%s: %s' % (show_text(a) if isinstance(a, tuple) else a, show_text(b) if isinstance(b, tuple) else 'unset' if b is NULL else b) for a, b in tab)

    # ---- the other parts
    def plain_query(self):
        """no filters: every record is delivered in order"""
        L = self.L
        self.filters = False
        st = self.base(False)
        N = atom('records', 0)
        st.mem['tl'] = Obj('tl', 'sym', C(L['TupleList']), 'sym', (('v', C(L['TupleList.count']), 4, N - C(1), None),), meta={'nonnull': True})
        w = lambda off, v, s=8: put_entry(st, st.obj('pf'), ('v', C(off), s, v, None))
        w(L['PredicateFilter.buffer'], NULL)
        w(L['PredicateFilter.pstack'] + L['PredicateStack.top_element'], C(-1), 4)
        E = self.engine(False)
        E.start(self.P.find('generateFinalOutput'), [Ptr('pf', ZERO)], st)
        T = E.run(st)
        if not T:
            raise Broken('no path through generateFinalOutput')
        self.events(E, T)
        O = atom('noutput', -1)
        what = 'query without filters'

        def delivered(b, j):
            for e in b.events:
                if e[0] == 'put' and e[1] == 'output' and e[2] is not None and div_exact(e[2], 8) is not None and b.facts.cmp('eq', div_exact(e[2], 8), O + 1 + j) is True:
                    if self.tuple_text(b, e[3], j):
                        return True
            return False
        for t in T:
            self.rep.ob('filtering outcomes (path, compared with the reference)')
            if t.end[0] != 'ret' or t.ret != Ptr('out', ZERO):
                self.bad('result', 'the returned result list is %s' % (t.ret,), what)
                continue
            c = Sem.read(t, t.obj('out'), C(L['Output.count']), 4, 'i')
            if t.facts.cmp('eq', c, O + N) is not True:
                self.bad('result', '%s results are delivered for %s records' % (c - O, N), what)
            why = self.covered(E, t, ZERO, N, delivered)
            if why:
                self.bad('release', 'not every record is delivered in order (%s)' % why, what)
            # nothing else
        for b in [b for H in E.headers.values() for b in H.backs]:
            for e in b.events:
                if e[0] == 'put' and e[1] != 'output':
                    self.bad('result', 'a result is kept back', what)

    def tuple_text(self, b, txt, j):
        L = self.L
        if len(txt) != 1 or txt[0][0] != 'cstr' or txt[0][1] != 'tl':
            return False
        return b.facts.cmp('eq', txt[0][3], j.mul(L['Tuple']) + C(L['TupleList.element'] + L['Tuple.text'])) is True

    def setup(self):
        """initPredicateFilter and the first portion"""
        L = self.L
        for filters in (True, False):
            self.filters = filters
            st = State()
            st.mem['pf'] = Obj('pf', 'sym', C(L['PredicateFilter']), 'undef', meta={'nonnull': True})
            for n in ('ctx', 'tl'):
                st.mem[n] = Obj(n, 'sym', None, 'sym', meta={'nonnull': True})
            E = self.engine(True)
            E.start(self.P.find('initPredicateFilter'), [Ptr('pf', ZERO), Ptr('tl', ZERO), Ptr('ctx', ZERO)], st)
            T = E.run(st)
            if not T:
                raise Broken('no path through initPredicateFilter')
            self.events(E, T)
            for t in T:
                self.rep.ob('filtering outcomes (path, compared with the reference)')
                rd = lambda off, s=8, ty='p': Sem.read(t, t.obj('pf'), C(off), s, ty)
                bad = lambda k, msg: self.bad(k, msg, 'query with filters' if filters else 'query without filters', 'initPredicateFilter (predicate.h)')
                if rd(L['PredicateFilter.tuple_list']) != Ptr('tl', ZERO) or rd(L['PredicateFilter.ctx']) != Ptr('ctx', ZERO):
                    bad('init', 'the filter is set up for another record list or query')
                if rd(L['PredicateFilter.pstack'] + L['PredicateStack.top_element'], 4, 'i') != C(-1):
                    bad('init', 'elements are open before the first record')
                for s in range(self.last + 1):
                    p = rd(L['PredicateFilter.predicate_conditions'] + 8 * s)
                    if filters and s in self.PRED:
                        if not isinstance(p, Ptr):
                            bad('init', 'the filter at position %d has no conditions' % s)
                            continue
                        tab = self.read_tab(t, p)
                        want = [((('lit', CONDS[c].encode()),), NULL) for c in self.PRED[s]]
                        if sorted(map(repr, tab)) != sorted(map(repr, want)):
                            bad('init', 'the filter at position %d gets conditions %s, expected %s' % (s, self.showtab(tab), self.showtab(want)))
                    elif p is not NULL:
                        bad('init', 'position %d has conditions although it is no filter (%s)' % (s, p))
                        break
                o = rd(L['PredicateFilter.output'])
                if not isinstance(o, Ptr) or t.obj(o.obj).kind != 'heap' or Sem.read(t, t.obj(o.obj), o.off + L['Output.count'], 4, 'i') != C(-1):
                    bad('init', 'the result list does not start empty')
                b = rd(L['PredicateFilter.buffer'])
                if b is not NULL and (not isinstance(b, Ptr) or b.obj == getattr(o, 'obj', None) or Sem.read(t, t.obj(b.obj), b.off + L['Output.count'], 4, 'i') != C(-1)):
                    bad('init', 'the candidate list does not start empty')
                if filters:
                    self.first_portion(t)
        # a new list is empty
        st = State()
        E = Engine(self.P, {}, nonnull=lambda o: True, small_unsigned=True)
        E.start(self.P.find('createOutput'), [], st)
        for t in E.run(st):
            if not isinstance(t.ret, Ptr) or Sem.read(t, t.obj(t.ret.obj), t.ret.off + L['Output.count'], 4, 'i') != C(-1):
                self.bad('init', 'a new list is not empty', '', 'createOutput (output.h)')

    def first_portion(self, t0):
        """one element opened in a fresh filter: the candidate list exists and is empty"""
        L = self.L
        s = min(self.PRED)
        st = State()
        st.mem = {k: v for k, v in t0.mem.items() if not (isinstance(k, tuple) and k[0] == 'loc')}
        st.facts = t0.facts.copy()
        self.tuples(st, [(s, '{'), (60, 'v')])
        E = self.engine(True)
        E.start(self.P.find('generateFinalOutput'), [Ptr('pf', ZERO)], st)
        T = E.run(st)
        if not T:
            raise Broken('no path')
        self.events(E, T)
        for t in T:
            self.rep.ob('filtering outcomes (path, compared with the reference)')
            b = Sem.read(t, t.obj('pf'), C(L['PredicateFilter.buffer']), 8, 'p')
            if not isinstance(b, Ptr) or Sem.read(t, t.obj(b.obj), b.off + L['Output.count'], 4, 'i') != ZERO:
                self.bad('first', 'a candidate of the first portion is not kept', 'first portion')
            n = Sem.read(t, t.obj('pf'), C(L['PredicateFilter.pstack'] + L['PredicateStack.top_element']), 4, 'i')
            if n != ZERO:
                self.bad('first', 'an element opened in the first portion is not open after it', 'first portion')

    def check(self):
        rep = self.rep
        K = self.KINDS
        for top, depth in self.stacks():
            for a in K:
                self.case(top, depth, [a])
                for b in K:
                    self.case(top, depth, [a, b])
                    for c in K:
                        self.case(top, depth, [a, b, c])
        self.plain_query()
        self.setup()
        for f in ('generateFinalOutput', 'initPredicateFilter', 'createPredicateConditions', 'clearPredicateCondtion'):
            if self.P.find(f) is not None:
                rep.saw('functions', f)
        rep.rule('generateFinalOutput is interpreted for every sequence of up to three kinds of record from an arbitrary filter state with none, one or several open elements: '
                 'open elements, their own conditions, the filter evaluations, undecided candidates and delivered results must become those of the reference; the release loop is summarised.')
        rep.notes.append('two filters with three and two conditions; the value of a filter expression itself is J11; list capacities are J23')
        rep.need('filtering outcomes (path, compared with the reference)', 100)


def run(rep, leak=False):
    F = Filtering(rep)
    F.leak = leak
    F.check()
