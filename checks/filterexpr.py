"""Filter expressions (jsonpath_evaluator.h): values of operands and operators (J11)."""
import concurrent.futures as cf
from engine import build, libc
from engine.dom import *
from engine.interp import *
from .common import Broken

LAY = {'ASTNode': ['node_type', 'string', 'number', 'opt', 'left', 'right'], 'PredicateCondition': ['name', 'text']}
INC = ['<stdlib.h>', '<string.h>', '<ctype.h>', '"jsonpath_evaluator.h"']
TU = '\n'.join('#include ' + i for i in INC) + '\n'
OPS = ['or', 'and', 'equal', 'less', 'greater', 'neq', 'leq', 'geq', 'add', 'minus', 'multiply', 'div', 'mod']
ARITH = {'add': 'fadd', 'minus': 'fsub', 'multiply': 'fmul', 'div': 'fdiv', 'mod': None}
REL = {'less': 'olt', 'greater': 'ogt', 'leq': 'ole', 'geq': 'oge'}
CLASSES = ['absent', 'true', 'false', 'null', 'empty', 'string', 'number', 'negative']


class I64:
    bits = 64
    kind = 'int'


class Filter:
    def __init__(self):
        self.P = build.program([('verif_filter.c', TU)], passes='mem2reg')
        self.f = self.P.find('evaluateExpression')
        if self.f is None:
            raise Broken('evaluateExpression not found')
        self.L = build.layout(LAY, INC)
        self.K = build.consts(['jot_' + o for o in OPS] + ['jot_not', 'jnt_operator', 'jnt_variable', 'jnt_string', 'jnt_number'], INC)
        self.calls = set()

    # ---- inputs
    def text(self, st, cls, name):
        q = ('lit', b'"')
        if cls in ('true', 'false', 'null'):
            return (('lit', cls.encode()),)
        if cls == 'empty':
            return ()
        if cls == 'string':
            n = atom(('strlen', name))
            st.facts.assume_iv(n, 0, 900)
            return (q, ('slice', name, 0, ZERO, n), q)
        d = atom(('digit', name), 48, 57)
        t = (('ch', d), ('cstr', name, 0, ZERO))
        return t if cls == 'number' else (('lit', b'-'),) + t

    def node(self, st, tree, n):
        """tree: ('var', name) | ('str', id) | ('num', id) | (op, left[, right])"""
        L, K = self.L, self.K
        nm = 'node%d' % n[0]
        n[0] += 1
        ents = []
        w = lambda f, v, s=8: ents.append(('v', C(L['ASTNode.' + f]), s, v, None))
        k = tree[0]
        left = right = NULL
        if k == 'var':
            w('node_type', C(K['jnt_variable']), 4)
            w('string', self.cstr(st, ('name', tree[1]), (('lit', tree[1].encode()),)))
        elif k == 'str':
            w('node_type', C(K['jnt_string']), 4)
            w('string', self.cstr(st, ('lit', tree[1]), (('cstr', ('lit', tree[1]), 0, ZERO),)))
        elif k == 'num':
            w('node_type', C(K['jnt_number']), 4)
            w('number', Sym('num', tree[1]))
        else:
            w('node_type', C(K['jnt_operator']), 4)
            w('opt', C(K['jot_' + k]), 4)
            left = self.node(st, tree[1], n)
            if len(tree) > 2:
                right = self.node(st, tree[2], n)
        w('left', left)
        w('right', right)
        st.mem[nm] = Obj(nm, 'sym', C(L['ASTNode']), 'undef', tuple(ents), meta={'nonnull': True})
        return Ptr(nm, ZERO)

    def cstr(self, st, name, t):
        if name not in st.mem:
            st.mem[name] = Obj(name, 'sym', None, 'sym', (('s', ZERO, t, None),) if t and t[0][0] != 'cstr' or not t else (), meta={'nonnull': True})
        return Ptr(name, ZERO)

    def initial(self, tree, conds):
        """conds: [(name, class)]"""
        st = State()
        L = self.L
        root = self.node(st, tree, [0])
        ents = []
        size = L['PredicateCondition']
        self.texts = {}
        for i, (nm, cls) in enumerate(conds):
            t = None
            p = NULL
            if cls != 'absent':
                t = self.text(st, cls, ('data', i))
                p = self.cstr(st, ('text', i), t)
            if nm not in self.texts:
                self.texts[nm] = (cls, t)
            ents.append(('v', C(i * size + L['PredicateCondition.name']), 8, self.cstr(st, ('cname', i), (('lit', nm.encode()),)), None))
            ents.append(('v', C(i * size + L['PredicateCondition.text']), 8, p, None))
        ents.append(('v', C(len(conds) * size + L['PredicateCondition.name']), 8, NULL, None))
        st.mem['conds'] = Obj('conds', 'sym', C((len(conds) + 1) * size), 'undef', tuple(ents), meta={'nonnull': True})
        return st, root

    # ---- reference
    def strcmp(self, st, a, b):
        a, b = norm_text(a), norm_text(b)
        if a == b:
            return True
        if all(p[0] == 'lit' for p in a + b) or libc.differ(st, a, b) is not None:
            return False
        if repr(b) < repr(a):
            a, b = b, a
        return st.decide('eq', atom(('strcmp', a, b)), ZERO)

    def truth(self, st, E, v):
        if v[0] == 'bool':
            return v[1]
        if v[0] == 'num':
            return not bool(E.fcmp(st, 'oeq', v[1], Sym('fp', 0.0)).c)
        return v[0] == 'str'

    def spec(self, st, E, tree):
        k = tree[0]
        if k == 'var':
            cls, t = self.texts.get(tree[1], ('absent', None))
            if cls in ('absent', 'null'):
                return ('null',)
            if cls in ('true', 'false'):
                return ('bool', cls == 'true')
            if cls == 'empty':
                return ('bool', True)
            if cls == 'string':
                return ('str', t[1:-1])
            return ('num', Sym('strtod', norm_text(t)))
        if k == 'str':
            return ('str', (('cstr', ('lit', tree[1]), 0, ZERO),))
        if k == 'num':
            return ('num', Sym('num', tree[1]))
        a = self.spec(st, E, tree[1])
        if k == 'not':
            return ('bool', not self.truth(st, E, a))
        b = self.spec(st, E, tree[2])
        if k in ('or', 'and'):
            x, y = self.truth(st, E, a), self.truth(st, E, b)
            return ('bool', (x or y) if k == 'or' else (x and y))
        if k in ('equal', 'neq'):
            if a[0] != b[0]:
                r = False
            elif a[0] == 'null':
                r = True
            elif a[0] == 'bool':
                r = a[1] == b[1]
            elif a[0] == 'num':
                r = bool(E.fcmp(st, 'oeq', a[1], b[1]).c)
            else:
                r = self.strcmp(st, a[1], b[1])
            return ('bool', r == (k == 'equal'))
        num = a[0] == b[0] == 'num'
        if k in REL:
            return ('bool', num and bool(E.fcmp(st, REL[k], a[1], b[1]).c))
        if not num:
            return ('null',)
        if k == 'mod':
            x, y = ftoi(a[1]), ftoi(b[1])
            if st.decide('eq', y, ZERO):
                return ('null',)
            return ('num', Sym('itof', E.arith(st, 'srem', x, y, I64)))
        x, y = a[1], b[1]
        if k in ('add', 'multiply') and repr(y) < repr(x):
            x, y = y, x
        return ('num', Sym(ARITH[k], x, y))

    # ---- one expression
    def case(self, tree, conds):
        st, root = self.initial(tree, conds)
        base = dict(st.mem)
        E = Engine(self.P, {}, nonnull=lambda o: True, small_unsigned=True, peel=lambda st, fr, blk: 8)
        E.start(self.f, [root, Ptr('conds', ZERO)], st)
        T = E.run(st)
        out, n, leaks, unk = [], 0, [], []
        work = list(T)
        if not T:
            raise Broken('no path for %s' % (tree,))
        for e, t in E.all_events(T):
            if e[0] == 'extern':
                unk.append('unknown function %s' % (e[1:],))
            if e[0] in ('uaf', 'badptr', 'doublefree', 'badfree', 'divzero', 'undef'):
                out.append(('memory', {'undef': 'a value that was never set is used', 'divzero': 'division by zero is possible'}.get(e[0], e[0]) + ' at %s' % e[-1]))
        while work:
            t = work.pop()
            if t.end[0] != 'ret':
                if t.end[0] != 'divzero':
                    out.append(('stop', 'evaluation does not return (%s)' % (t.end[0],)))
                continue
            try:
                want = self.truth(t, E, self.spec(t, E, tree))
                got = t.ret
                if not isinstance(got, Lin):
                    out.append(('memory', 'the result is %s' % got))
                    continue
                got = t.decide('ne', got, ZERO)
            except Split as sp:
                for a in sp.alts:
                    s2 = t.copy()
                    if a(s2):
                        work.append(s2)
                continue
            n += 1
            if got != want:
                out.append(('value', 'is %s, expected %s' % (got, want)))
            for nm, o in t.mem.items():
                if nm in base and o.ents != base[nm].ents:
                    out.append(('write', 'evaluation changes %s' % (nm,)))
                if o.kind == 'heap' and not o.freed:
                    leaks.append(str(o.meta.get('site')))
        self.calls |= set(E.calls)
        return [] if unk else out, n, leaks, unk

    def cases(self):
        var = lambda n: ('var', n)
        for c in CLASSES:
            yield (var('a'), [('a', c)])
            yield (('not', var('a')), [('a', c)])
        for l in (('str', 1), ('num', 1)):
            yield (l, [])
            yield (('not', l), [])
        for op in OPS:
            for i, c in enumerate(CLASSES):
                for d in CLASSES:
                    yield ((op, var('a'), var('b')), [('a', c), ('b', d)])
                for l in (('str', 1), ('num', 1)):
                    yield ((op, var('a'), l), [('a', c)])
                    yield ((op, l, var('a')), [('a', c)])
            for o2 in OPS:
                e = (o2, ('num', 1), ('num', 2))
                yield ((op, e, ('num', 3)), [])
                yield ((op, ('num', 3), e), [])
            yield (('not', (op, ('num', 1), ('num', 2))), [])
            yield ((op, ('not', ('num', 1)), ('num', 2)), [])
            if op in ARITH:
                for c in CLASSES:
                    # the value itself, compared with an absent value and with a number
                    yield (('equal', (op, var('a'), ('num', 1)), var('z')), [('a', c)])
                    yield (('equal', (op, var('a'), ('num', 1)), ('num', 2)), [('a', c)])
        for names in (('a', 'ab'), ('ab', 'a'), ('b', 'a', 'ab')):
            for v in ('a', 'ab', 'b', 'abc'):
                for cl in (('true', 'false', 'string'), ('false', 'true', 'number')):
                    yield (var(v), list(zip(names, cl)))


_F = None


def _one(k):
    tree, conds = _CASES[k]
    return k, _F.case(tree, conds)


def show(tree, conds):
    d = dict(conds)

    def s(t):
        if t[0] == 'var':
            return '@.%s' % t[1]
        if t[0] in ('str', 'num'):
            return {'str': '"text%d"', 'num': 'number%d'}[t[0]] % t[1]
        return '%s(%s)' % (t[0], ', '.join(s(x) for x in t[1:]))
    return s(tree) + (' with ' + ', '.join('%s: %s' % c for c in conds) if conds else '')


def run(rep, leak_only=False):
    global _F, _CASES
    _F = Filter()
    _CASES = list(_F.cases())
    nout = 0
    with cf.ProcessPoolExecutor(8) as ex:
        for k, (out, n, leaks, unk) in ex.map(_one, range(len(_CASES)), chunksize=20):
            tree, conds = _CASES[k]
            nout += n
            for u in unk:
                rep.undec(u)
            if leak_only:
                for s in leaks:
                    rep.violation('filter/leak', 'memory allocated while a filter is evaluated is never released', s)
                continue
            for kind, msg in out:
                rep.violation('filter/%s/%s' % (kind, tree[0] if tree[0] not in ('var', 'str', 'num') else 'operand'),
                              'the value of a filter is wrong' if kind == 'value' else msg, 'evaluateExpression (jsonpath_evaluator.h)', '%s: %s' % (show(tree, conds), msg))
    rep.ob('filter expressions', len(_CASES))
    rep.ob('filter outcomes (path, compared with the reference value)', nout)
    rep.saw('functions', 'evaluateExpression')
    rep.need('filter outcomes (path, compared with the reference value)', 1000)
    rep.rule('evaluateExpression is interpreted on every operator with every kind of operand (absent, true, false, null, valueless, string, number, negative number, literals; '
             'texts and numbers symbolic), on nested operators and on name tables; each path result must be the reference value.')
    rep.notes.append('expressions with up to two operators; numbers are compared as real numbers (no NaN); conversion of digits to a number is left to the C library')
