"""Property paths inside filters (evaluatorModifyReference): joined names (value) and releases (memory)."""
from engine import build, libc
from engine.dom import *
from engine.interp import *
from engine.interp import norm_text, cstring, part_len
from .common import Broken
from . import filterexpr as FE

LAY = {'ASTNode': ['node_type', 'string', 'number', 'opt', 'left', 'right']}
KINDS = ['jnt_operator', 'jnt_variable', 'jnt_string', 'jnt_number', 'jnt_concat', 'jnt_reference', 'jnt_id', 'jnt_fliter', 'jot_and', 'jot_not']


def strchr(eng, st, a, i):
    """names have no dot inside"""
    p, c = a[0], a[1]
    pos = ZERO
    for x in norm_text(libc.text_of(eng, st, p)):
        if x[0] == 'lit':
            k = x[1].find(bytes([c.c & 255])) if c.is_const() else -1
            if k >= 0:
                return Ptr(p.obj, p.off + pos + k, p.win)
        elif not (c.is_const() and c.c == 46 and x[0] == 'cstr'):
            raise EngineError('strchr on an unknown string at ' + st.where())
        pos = pos + part_len(x)
    return NULL


class Reference:
    def __init__(self):
        self.P = build.program([('verif_filter.c', FE.TU)], passes='mem2reg')
        self.f = self.P.find('evaluatorModifyReference')
        if self.f is None:
            raise Broken('evaluatorModifyReference not found')
        self.L = build.layout(LAY, FE.INC)
        self.K = build.consts(KINDS, FE.INC)

    def node(self, st, tree, n):
        """('path', n steps) | ('str',) | ('num',) | ('not', x) | ('and', x, y) | ('filter', x)"""
        L, K = self.L, self.K
        nm = 'node%d' % n[0]
        n[0] += 1
        ents = []
        w = lambda f, v, s=8: ents.append(('v', C(L['ASTNode.' + f]), s, v, None))
        left = right = NULL
        k = tree[0]
        if k == 'path':
            if tree[1] == 0:
                w('node_type', C(K['jnt_reference']), 4)
            else:
                w('node_type', C(K['jnt_concat']), 4)
                left = self.node(st, ('path', tree[1] - 1, tree[2]), n)
                right = self.node(st, ('id', (tree[2], tree[1])), n)
        elif k in ('id', 'str'):
            w('node_type', C(K['jnt_id' if k == 'id' else 'jnt_string']), 4)
            s = ('name', tree[1])
            st.mem[s] = Obj(s, 'heap', None, 'sym', (('s', ZERO, (('cstr', s, 0, ZERO),), None),), meta={'nonnull': True, 'site': 'the parser'})
            w('string', Ptr(s, ZERO))
        elif k == 'num':
            w('node_type', C(K['jnt_number']), 4)
            w('number', Sym('num', n[0]))
        elif k == 'filter':
            w('node_type', C(K['jnt_fliter']), 4)
            left = self.node(st, tree[1], n)
        else:
            w('node_type', C(K['jnt_operator']), 4)
            w('opt', C(K['jot_' + k]), 4)
            left = self.node(st, tree[1], n)
            if len(tree) > 2:
                right = self.node(st, tree[2], n)
        w('left', left)
        w('right', right)
        st.mem[nm] = Obj(nm, 'heap', C(L['ASTNode']), 'undef', tuple(ents), meta={'nonnull': True, 'site': 'the parser'})
        return Ptr(nm, ZERO)

    def expected(self, tree):
        k = tree[0]
        if k == 'path':
            if tree[1] == 0:
                return ('ref',)
            t = ()
            for i in range(1, tree[1] + 1):
                t += ((('lit', b'.'),) if i > 1 else ()) + (('cstr', ('name', (tree[2], i)), 0, ZERO),)
            return ('var', norm_text(t))
        if k == 'str':
            return ('str', (('cstr', ('name', tree[1]), 0, ZERO),))
        if k == 'num':
            return ('num',)
        return (k,) + tuple(self.expected(x) for x in tree[1:])

    def got(self, st, p, seen):
        L, K = self.L, self.K
        if not isinstance(p, Ptr) or p == NULL:
            return None
        o = st.obj(p.obj)
        if o.freed:
            return ('released',)
        seen.add(p.obj)
        rd = lambda f, s=8, ty='p': Sem.read(st, o, p.off + L['ASTNode.' + f], s, ty)
        t = rd('node_type', 4, 'i')
        t = t.c if isinstance(t, Lin) and t.is_const() else None
        if t in (K['jnt_variable'], K['jnt_string']):
            s = rd('string')
            if not isinstance(s, Ptr) or st.obj(s.obj).freed:
                return ('released text',)
            seen.add(s.obj)
            return ('var' if t == K['jnt_variable'] else 'str', norm_text(cstring(st, s)))
        if t == K['jnt_number']:
            return ('num',)
        l, r = self.got(st, rd('left'), seen), self.got(st, rd('right'), seen)
        if t == K['jnt_reference']:
            return ('ref',)
        if t == K['jnt_fliter']:
            return ('filter', l)
        if t == K['jnt_operator']:
            op = rd('opt', 4, 'i')
            op = {K['jot_and']: 'and', K['jot_not']: 'not'}.get(op.c if isinstance(op, Lin) else None, '?')
            return (op, l) if r is None else (op, l, r)
        return ('node', t, l, r)

    def cases(self):
        P = lambda n, i='p': ('path', n, i)
        for n in (0, 1, 2, 3):
            for e in (P(n), ('not', P(n)), ('and', P(n), ('num',)), ('and', ('str', 'lit'), P(n)), ('and', P(n), P(2, 'q')), ('and', ('not', P(n)), ('and', P(1, 'q'), P(3, 'r')))):
                yield ('filter', e)

    def check(self, rep, values=True, memory=True):
        def viol(kind, msg, tree):
            rep.violation('reference/' + kind, msg, 'evaluatorModifyReference (jsonpath_evaluator.h)', repr(tree))
        for tree in self.cases():
            st = State()
            root = self.node(st, tree, [0])
            E = Engine(self.P, {'strchr': strchr, 'index': strchr}, nonnull=lambda o: True, small_unsigned=True, recursion=8, peel=lambda st, fr, blk: 8)
            E.start(self.f, [root], st)
            T = E.run(st)
            bad = False
            for e, t in E.all_events(T):
                if e[0] == 'extern':
                    rep.undec('unknown function %s' % (e[1:],))
                    bad = True
                if e[0] in ('uaf', 'badptr', 'doublefree', 'badfree', 'undef') and memory:
                    viol('memory/' + e[0], {'uaf': 'released memory is accessed', 'doublefree': 'memory is released twice', 'undef': 'a value that was never set is used'}.get(e[0], e[0]) + ' at %s' % e[-1], tree)
            if bad:
                continue
            for t in T:
                if t.end[0] != 'ret':
                    continue
                rep.ob('filter expressions with property paths')
                seen = set()
                g, w = self.got(t, root, seen), self.expected(tree)
                if memory:
                    if 'released' in repr(g):
                        viol('released', 'the expression refers to released memory', tree)
                    for nm, o in t.mem.items():
                        if o.kind == 'heap' and not o.freed and nm not in seen:
                            viol('leak', 'memory allocated at %s is never released' % (o.meta.get('site'),), tree)
                if values and g != w:
                    viol('name', 'a property path in a filter is not joined to the name of its condition', tree)
        for c in ('evaluatorModifyReference',):
            rep.saw('functions', c)


def run(rep, values=True, memory=True):
    Reference().check(rep, values, memory)
    rep.rule('evaluatorModifyReference is interpreted on filter expressions with paths of up to three steps in every operand place.')
    rep.need('filter expressions with property paths', 20)
