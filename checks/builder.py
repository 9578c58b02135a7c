"""The compiled query: matching rules per path step (J08) and the description of its positions (J10).

The C++ sources are compiled against analysis-only stand-ins for the standard library (stubs/) so that every container
operation is visible to the interpreter.  Names, numbers and the transitions of the automaton are symbolic."""
import itertools, os
from engine import build, libc, ir
from engine.dom import *
from engine.interp import *
from engine.interp import norm_text, cstring, part_len, raise_end
from .common import Broken

STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
CXX = ['-std=c++11', '-fno-exceptions', '-fno-threadsafe-statics', '-nostdinc++', '-I', STUBS, '-D_GNU_SOURCE', '-D__NO_CTYPE', '-g', '-O0',
       '-Xclang', '-disable-O0-optnone', '-Wno-everything', '-fno-discard-value-names']
SRC = ['DFABuilder/src/dfa_builder.cpp', 'DFABuilder/src/pass.cpp', 'DFABuilder/src/Lexer/regex_model.cpp', 'DFABuilder/src/Lexer/set_converter.cpp',
       'DFABuilder/src/Lexer/regex_builder.cpp', 'DFABuilder/src/Lexer/dfa_mixer.cpp', 'DFABuilder/src/Lexer/dfa_simple.cpp',
       'DFABuilder/src/Lexer/dfa_compressed.cpp']
LAY = {'ASTNode': ['node_type', 'string', 'number', 'opt', 'left', 'right'],
       'JSONQueryDFA': ['states_num', 'inputs_num', 'table', 'stop_state', 'accept_type', 'array_index', 'names'],
       'JSONQueryDFAContext': ['states_num', 'subtrees', 'states_mapping', 'array_predicate_states'],
       'JSONQueryIntVecPair': ['value', 'value_size']}
INC = ['<stdlib.h>', '<string.h>', '<stdio.h>', '"dfa_builder.h"']
KINDS = ['jnt_root', 'jnt_concat', 'jnt_parent_concat', 'jnt_id', 'jnt_operator', 'jnt_predicate', 'jnt_wildcard', 'jnt_number', 'jnt_reference',
         'jnt_fliter', 'jnt_range', 'jnt_variable', 'jot_and', 'jot_greater', 'DFA_OUTPUT_CANDIDATE', 'DFA_CONDITION', 'DFA_PREDICATE']
OPT = {0: '', 1: '?', 2: '*', 3: '+'}
COMPILE = ('buildJSONQueryDFAFromAST',)
BIG = (1 << 31) - 1


def compile_cxx(srcs):
    import concurrent.futures as cf
    import tempfile
    T = tempfile.mkdtemp(dir=build.tmp())

    def one(s):
        src = s if os.path.isabs(s) else os.path.join(build.REPO, s)
        out = os.path.join(T, os.path.basename(s) + '.ll')
        inc = sum((['-I', os.path.join(build.REPO, d)] for d in build.INC), [])
        build.sh(['clang++'] + CXX + inc + ['-S', '-emit-llvm', src, '-o', out + '.raw'])
        build.sh(['opt', '-S', '-passes=sroa', out + '.raw', '-o', out])
        return out
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    ms = [ir.Module(o) for o in outs]
    for m, s in zip(ms, srcs):
        m.src = s
    return ir.Program(ms)


# ---- texts made of literal bytes, names (no delimiters inside, not empty) and printed numbers
def parts(t):
    """[(byte) | ('name', obj)]"""
    r = []
    for x in norm_text(t):
        if x[0] == 'lit':
            r += list(x[1])
        elif x[0] == 'cstr' and x[2] == 0 and x[3] == ZERO:
            r.append(x)
        else:
            raise EngineError('text of unknown structure')
    return r


def unparts(ps):
    r, lit = [], b''
    for x in ps:
        if isinstance(x, int):
            lit += bytes([x])
        else:
            if lit:
                r.append(('lit', lit))
                lit = b''
            r.append(x)
    if lit:
        r.append(('lit', lit))
    return tuple(r)


def compare(st, a, b):
    """-1, 0, 1"""
    pa, pb = parts(a), parts(b)
    for x, y in itertools.zip_longest(pa, pb):
        if x == y:
            continue
        if x is None or y is None:
            return -1 if x is None else 1
        if isinstance(x, int) and isinstance(y, int):
            return -1 if x < y else 1
        ox, oy = (x[1] if not isinstance(x, int) else None), (y[1] if not isinstance(y, int) else None)
        if ox is not None and oy is not None and ox[0] == 'number' and oy[0] == 'number':
            if st.decide('eq', ox[1], oy[1]):
                continue
            return 1
        num = ox if ox is not None and ox[0] == 'number' else oy if oy is not None and oy[0] == 'number' else None
        lit = x if isinstance(x, int) else y if isinstance(y, int) else None
        if num is not None and lit is not None and (chr(lit).isdigit() or lit == 45):
            raise EngineError('a number is compared with digits')
        return -1 if repr(x) < repr(y) else 1
    return 0


def handlers():
    def new(eng, st, i, t):
        p = libc._alloc(eng, st, (), i, None, 'undef')
        I_put(st, p, t)
        return p

    def I_put(st, p, t):
        from engine.interp import put_entry
        put_entry(st, st.obj(p.obj), ('s', ZERO, unparts(parts(t)), None))
        st.obj(p.obj).meta['library'] = True

    tx = lambda eng, st, p: libc.text_of(eng, st, p)

    def cat(e, s, a, i):
        return new(e, s, i, tuple(tx(e, s, a[0])) + tuple(tx(e, s, a[1])))

    def char(e, s, a, i):
        c = lin_of(a[1])
        if not c.is_const():
            raise EngineError('unknown character appended')
        return new(e, s, i, tuple(tx(e, s, a[0])) + (('lit', bytes([c.c & 255])),))

    def num(e, s, a, i):
        n = lin_of(a[0])
        return new(e, s, i, (('lit', str(n.c).encode()),) if n.is_const() else (('cstr', ('number', n), 0, ZERO),))

    def split(t, c):
        p = parts(t)
        return (p[:p.index(c)], p[p.index(c) + 1:]) if c in p else (p, None)

    def until(e, s, a, i):
        return new(e, s, i, unparts(split(tx(e, s, a[0]), lin_of(a[1]).c & 255)[0]))

    def after(e, s, a, i):
        r = split(tx(e, s, a[0]), lin_of(a[1]).c & 255)[1]
        return NULL if r is None else new(e, s, i, unparts(r))

    def find(e, s, a, i):
        t, c, f = tx(e, s, a[0]), lin_of(a[1]), lin_of(a[2])
        if not c.is_const():
            raise EngineError('unknown character searched')
        pos = ZERO
        for x in parts(t):
            if x == (c.c & 255) and s.decide('ge', pos, f):
                return pos
            pos = pos + (1 if isinstance(x, int) else part_len(x))
        return C(-1)

    def sub(e, s, a, i):
        t, b, n = tx(e, s, a[0]), lin_of(a[1]), lin_of(a[2])
        pos, out, on = ZERO, [], False
        end = None if n.is_const() and n.c < 0 else b + n
        for x in parts(t) + [None]:
            if pos == b:
                on = True
            if end is not None and pos == end:
                on = None
                break
            if x is None:
                break
            if on:
                out.append(x)
            pos = pos + (1 if isinstance(x, int) else part_len(x))
        if on is False or on and end is not None and not s.decide('ge', end, pos):
            raise EngineError('a part of a text that does not start or end at a name')
        return new(e, s, i, unparts(out))

    def dyn(e, s, a, i):
        """the classes of the model are related by single inheritance"""
        p = a[0]
        if p is NULL:
            return NULL
        v = e.load(s, p, PTRTY)
        want = a[2]
        if not isinstance(v, Ptr) or not isinstance(want, Ptr):
            raise EngineError('dynamic_cast of an unknown object')
        c = v.obj[1].replace('_ZTV', '', 1)
        while c:
            if '_ZTI' + c == want.obj[1]:
                return p
            c = base(e, c)
        return NULL

    def base(e, c):
        for m in e.prog.mods:
            g = m.globals.get('_ZTI' + c)
            if g is not None and g.init is not None:
                for x in walk(g.init):
                    if isinstance(x, str) and x.startswith('_ZTI') and x != '_ZTI' + c:
                        return x[4:]
                return None
        return None

    def walk(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                yield from walk(y)
        else:
            yield x

    def unsupported(e, s, a, i):
        raise EngineError('the library stand-in does not support this use')
    quiet = lambda e, s, a, i: C(0)
    h = {'_Znwm': libc.malloc, '_Znam': libc.malloc, '_ZdlPv': libc.free, '_ZdlPvm': libc.free, '_ZdaPv': libc.free, '_ZdaPvm': libc.free,
         'verif_str_cat': cat, 'verif_str_char': char, 'verif_str_num': num, 'verif_str_until': until, 'verif_str_after': after,
         'verif_str_copy': lambda e, s, a, i: new(e, s, i, tx(e, s, a[0])), 'verif_str_sub': sub, 'verif_str_find': find,
         'verif_str_cmp': lambda e, s, a, i: C(compare(s, tx(e, s, a[0]), tx(e, s, a[1]))),
         'verif_str_len': lambda e, s, a, i: text_len(tx(e, s, a[0])),
         'verif_str_empty': lambda e, s, a, i: C(int(not parts(tx(e, s, a[0])))),
         'strcmp': lambda e, s, a, i: C(compare(s, tx(e, s, a[0]), tx(e, s, a[1]))),
         'verif_unsupported': unsupported, '__dynamic_cast': dyn, 'printf': quiet, 'puts': quiet, 'putchar': quiet, 'fprintf': quiet,
         'printDFA': lambda e, s, a, i: None}
    return h


class PTRTY:
    kind, size, bits = 'ptr', 8, 64


class Builder:
    def __init__(self, rep):
        self.rep = rep
        self.L = build.layout(LAY, INC)
        self.K = build.consts(KINDS, INC)
        self.P = compile_cxx(SRC + [os.path.join(STUBS, 'probe.cpp')])
        self.f = self.P.find('buildJSONQueryDFAFromAST')
        if self.f is None:
            raise Broken('buildJSONQueryDFAFromAST not found')
        self.rep.saw('functions', 'buildJSONQueryDFAFromAST')

    # ---- the syntax tree
    def node(self, st, kind, left=NULL, right=NULL, string=None, number=None, opt=None):
        L = self.L
        nm = ('node', len([1 for n in st.mem if n[0] == 'node']))
        w = []
        w.append(('v', C(L['ASTNode.node_type']), 4, C(self.K['jnt_' + kind]), None))
        if string is not None:
            t = ('text', nm)
            st.mem[t] = Obj(t, 'heap', None, 'sym', (('s', ZERO, (('cstr', ('name', string), 0, ZERO),), None),), meta={'nonnull': True})
            w.append(('v', C(L['ASTNode.string']), 8, Ptr(t, ZERO), None))
        if number is not None:
            w.append(('v', C(L['ASTNode.number']), 8, Sym('itof', number), None))
        if opt is not None:
            w.append(('v', C(L['ASTNode.opt']), 4, C(self.K['jot_' + opt]), None))
        w += [('v', C(L['ASTNode.left']), 8, left, None), ('v', C(L['ASTNode.right']), 8, right, None)]
        st.mem[nm] = Obj(nm, 'heap', C(L['ASTNode']), 'undef', tuple(w), meta={'nonnull': True})
        return Ptr(nm, ZERO)

    def number(self, st, key):
        a = atom(('number', key))
        st.facts.assume_iv(a, 0, BIG - 1)
        return a

    def relpath(self, st, names):
        p = self.node(st, 'reference')
        for n in names:
            p = self.node(st, 'concat', p, self.node(st, 'id', string=n))
        return p

    def tree(self, st, steps):
        """-> root node, expected steps with their numbers"""
        p = self.node(st, 'root')
        for k, s in enumerate(steps):
            if s[0] == 'name':
                p = self.node(st, 'concat', p, self.node(st, 'id', string=s[1]))
            elif s[0] == 'any':
                p = self.node(st, 'concat', p, self.node(st, 'wildcard'))
            elif s[0] == 'below':
                p = self.node(st, 'parent_concat', p, self.node(st, 'id', string=s[1]))
            elif s[0] == 'anybelow':
                p = self.node(st, 'parent_concat', p, self.node(st, 'wildcard'))
            else:
                if s[0] == 'index':
                    x = self.node(st, 'number', number=self.number(st, (k, 0)))
                elif s[0] == 'all':
                    x = self.node(st, 'wildcard')
                elif s[0] == 'range':
                    l = self.node(st, 'number', number=self.number(st, (k, 0))) if s[1] else NULL
                    r = self.node(st, 'number', number=self.number(st, (k, 1))) if s[2] else NULL
                    x = self.node(st, 'range', l, r)
                else:
                    e = None
                    for names in s[1]:
                        c = self.node(st, 'operator', self.relpath(st, names), self.node(st, 'number', number=self.number(st, (k, 'c', names))), opt='greater')
                        e = c if e is None else self.node(st, 'operator', e, c, opt='and')
                    if e is None:
                        e = self.node(st, 'number', number=C(1))
                    x = self.node(st, 'fliter', e, NULL)
                p = self.node(st, 'predicate', p, x)
        return p

    # ---- what has to come out
    def expected_rules(self, steps):
        """[(items, role, step)] : items = ('c', name | '[]') / ('any', '' | '*' | '+')"""
        R, pre = [], []
        for k, s in enumerate(steps):
            pre = pre + self.items(s)
            if s[0] in ('index', 'range'):
                R.append((tuple(pre), 'range', k))
            if s[0] == 'filter':
                R.append((tuple(pre), 'filter', k))
                for names in dict.fromkeys(s[1]):
                    R.append((tuple(pre + [('c', n) for n in names]), 'condition', (k, names)))
        if not steps or steps[-1][0] not in ('index', 'range', 'filter'):
            R.append((tuple(pre), 'path', len(steps) - 1))
        return R

    def items(self, s):
        if s[0] == 'name':
            return [('c', s[1])]
        if s[0] == 'any':
            return [('any', '')]
        if s[0] == 'below':
            return [('any', '*'), ('c', s[1])]
        if s[0] == 'anybelow':
            return [('any', '+')]
        return [('c', '[]')]

    @staticmethod
    def canon(items):
        """runs of arbitrary steps as (minimum, open)"""
        r = []
        for x in items:
            if x[0] == 'any':
                lo, op = {'': (1, False), '*': (0, True), '+': (1, True), '?': (0, None)}[x[1]]
                if r and r[-1][0] == 'any':
                    p = r.pop()
                    op = True if True in (op, p[2]) else op if op == p[2] else None
                    lo += p[1]
                r.append(('any', lo, op))
            else:
                r.append(x)
        return tuple(r)

    # ---- reading the rules off the model
    def read(self, items):
        out, depth = [], 0
        for k, o, c, d in items:
            if k == 0:
                depth += 1
                if o or c and len(items) > 3:
                    return None
            elif k == 4:
                depth -= 1
            elif k == 1:
                if d != '^':
                    return None
                out.append(('any', OPT[o]))
            elif k == 2:
                if o:
                    return None
                out.append(('c', c))
            else:
                return None
        return out

    def prepare(self, steps):
        """state at the hand-over of the rules; [(state, rules, columns, last number of columns)]"""
        H = handlers()
        caught = []

        def hand(e, s, a, i):
            s.ghost['_rules'] = ()
            return Inline(self.P.find('verif_pass'), [a[1]])

        def rule(e, s, a, i):
            s.ghost['_rules'] = s.ghost['_rules'] + ((),)

        def columns(e, s, a, i):
            s.ghost['_cols'] = lin_of(a[0])

        def item(e, s, a, i):
            v = [lin_of(x) for x in a[:3]]
            if not all(x.is_const() for x in v):
                raise EngineError('a rule whose items are unknown')
            d = b''.join(x[1] if x[0] == 'lit' else b'?' for x in norm_text(libc.text_of(e, s, a[3]))).decode('latin1')
            r = s.ghost['_rules']
            s.ghost['_rules'] = r[:-1] + (r[-1] + ((v[0].c, v[1].c, v[2].c, d),),)

        def states(e, s, a, i):
            caught.append(s.copy())
            raise Drop()
        for n in {n for m in self.P.mods for n in m.functions}:
            if '8printDFAP' in n:
                H[n] = lambda e, s, a, i: None
            if n.endswith('10ExecuteAllEPNS_9IPassableE') or n.endswith('7ExecuteEPNS_9IPassableES2_'):
                H[n] = hand
        H.update({'verif_rule': rule, 'verif_item': item, 'verif_states': states, 'verif_columns': columns})
        st = State()
        root = self.tree(st, steps)
        L = self.L
        st.mem['context'] = Obj('context', 'heap', C(L['JSONQueryDFAContext']), 'undef', meta={'nonnull': True})
        E = Engine(self.P, H, nonnull=lambda o: True, small_unsigned=True, unroll=60, recursion=12, max_states=20000, inline_depth=60)
        E.start(self.f, [root, Ptr('context', ZERO)], st)
        T = E.run(st)
        return H, E, caught, T

    def show(self, steps):
        r = '$'
        for s in steps:
            r += {'name': lambda: '.' + s[1], 'any': lambda: '.*', 'below': lambda: '..' + s[1], 'anybelow': lambda: '..*', 'index': lambda: '[n]', 'all': lambda: '[*]',
                  'range': lambda: '[%s:%s]' % ('a' * s[1], 'b' * s[2]), 'filter': lambda: '[?(%s)]' % ' && '.join('@.' + '.'.join(n) + ' > 1' for n in s[1])}[s[0]]()
        return r

    # ---- J08
    def shapes(self):
        base = [('name', 'a'), ('name', 'b'), ('any',), ('below', 'a'), ('below', 'b'), ('anybelow',), ('index',), ('all',), ('range', 1, 1), ('range', 1, 0), ('range', 0, 1),
                ('filter', (('x',),)), ('filter', (('x',), ('y', 'z', 'y'))), ('filter', (('a',), ('x',), ('a',))), ('filter', ())]
        yield []
        for k in (1, 2):
            yield from (list(c) for c in itertools.product(base, repeat=k))
        small = [('name', 'a'), ('any',), ('below', 'a'), ('anybelow',), ('index',), ('all',), ('range', 1, 0), ('filter', (('x', 'y'),))]
        yield from (list(c) for c in itertools.product(small, repeat=3))
        yield [('name', 'a'), ('filter', (('x',),)), ('name', 'x')]
        yield [('below', 'a'), ('range', 1, 1), ('name', 'b'), ('filter', (('x', 'y'), ('z',))), ('any',), ('index',), ('anybelow',)]
        yield [('name', x) for x in 'abcabd']
        yield [('range', 1, 1), ('range', 1, 1), ('range', 1, 0), ('index',), ('range', 0, 1)]

    def rules(self, s, steps, viol):
        """compares the rules handed over; returns [(role, step) per rule number] or None"""
        cols = s.ghost['_cols']
        cols = s.facts.value(cols)
        got, col = [], {}
        for it in s.ghost['_rules']:
            r = self.read(it)
            if r is None:
                viol('form', 'a matching rule is not a sequence of steps')
                return None
            got.append(r)
        want = self.expected_rules(steps)
        if cols is None:
            raise EngineError('number of columns unknown')
        # rules are found by what they match; the column of a name is the one its rules use
        roles = [None] * len(got)
        left = list(want)
        for n, r in enumerate(got):
            hit = None
            for w in left:
                m = self.match(r, w[0], col)
                if m is not None:
                    hit = (w, m)
                    break
            if hit is None:
                viol('rule', 'a matching rule differs from every step prefix of the path (rule %d: %s)' % (n + 1, ' '.join(map(str, r))))
                return None
            left.remove(hit[0])
            col = hit[1]
            roles[n] = hit[0][1:]
        same = {w[0] for w in want if w not in left}
        for w in left:
            if w[0] in same and w[1] == 'path':
                viol('roles/path-is-condition', 'the path of the query is also the path of a condition of its filter: the position is not an output position')
                return None
            viol('missing', 'no matching rule for %s of the path' % {'range': 'an index step', 'filter': 'a filter step', 'condition': 'a condition', 'path': 'the end'}[w[1]])
            return None
        for n, c in col.items():
            if n == '[]':
                continue
            if not 3 <= c < cols:
                viol('column', 'the name of a step has a column of other use (%d of %d)' % (c, cols))
                return None
        return roles, col, cols

    def match(self, got, want, col):
        col = dict(col)
        g, w = self.canon(got), self.canon(want)
        if len(g) != len(w):
            return None
        for x, y in zip(g, w):
            if x[0] != y[0] or x[0] == 'any' and x != y:
                return None
            if x[0] == 'c':
                if y[1] == '[]':
                    if x[1] != 2:
                        return None
                elif x[1] == 2:
                    return None
                elif col.setdefault(y[1], x[1]) != x[1] or any(c == x[1] and n != y[1] for n, c in col.items()):
                    return None
        return col

    # ---- J10
    def configs(self, n):
        """which rule (1..n, 0 none) every position 0..m accepts"""
        base = [0] + list(range(1, n + 1))
        yield [0, 0] + list(range(1, n + 1))
        yield [0] + list(range(n, 0, -1)) + [0]
        if n > 1:
            yield [0, 0] + list(range(2, n + 1)) + [1] + [n]
            yield [0, n] + [1] * 2 + list(range(2, n))

    def finish(self, s, steps, roles, col, cols, H, stops, shift, want, viol, symbolic):
        L, K = self.L, self.K
        n = len(stops)

        def trans(i, j):
            return atom(('next', i, j)) if symbolic else C((i * 5 + j * 3 + i * j + 1) % n)
        arr = [i for i in range(n) if stops[i] and roles[stops[i] - 1][0] in ('filter', 'range')]
        out = max(range(len(roles)), key=lambda r: 0) if not roles else None
        lastrule = [r for r, x in enumerate(roles) if x[0] == 'path' or x[0] in ('range', 'filter') and x[1] == len(steps) - 1]
        if steps and steps[-1][0] == 'all':
            arr += [i for i in range(n) if stops[i] and (stops[i] - 1) in lastrule]
        src = {}
        for x, i in enumerate(arr):
            src[(1 + (x + shift) % (n - 1)) if n > 1 else 0] = i
        if n > 1:
            for i in arr:          # every position reached by an array step has a place it is reached from
                if i not in src.values():
                    return False

        def nxt(e, st, a, i):
            x, y = lin_of(a[-2]), lin_of(a[-1])
            if not (x.is_const() and y.is_const()):
                raise EngineError('a transition of an unknown position is read')
            if x.c == 0 or y.c == 0:
                return ZERO
            if y.c == 2:
                return C(src.get(x.c, 0))
            return trans(x.c, y.c)

        def stop(e, st, a, i):
            x = lin_of(a[-1])
            if not x.is_const() or not 0 <= x.c < n:
                raise EngineError('an unknown position is asked for its rule')
            return C(stops[x.c])
        h = dict(H)
        for m in self.P.mods:
            for f in m.functions:
                if f.startswith('_ZN11dragontooth') and f.endswith('9nextStateEij'):
                    h[f] = nxt
                if f.startswith('_ZN11dragontooth') and f.endswith('11isStopStateEi'):
                    h[f] = stop
        h['verif_states'] = lambda e, st, a, i: C(n)
        c = s.copy()
        c.lineage = ()
        E = Engine(self.P, h, nonnull=lambda o: True, small_unsigned=True, unroll=60, recursion=12, max_states=400 if symbolic else 2000, inline_depth=60)
        E.inst = 1000000
        T = E.run(c)
        for e, t in E.all_events(T):
            if e[0] == 'extern':
                raise EngineError('unknown function %s' % e[1])
        for t in T:
            self.compare(t, steps, roles, col, cols, stops, src, lastrule, viol, want, trans)
        self.callees |= set(E.calls)
        return True

    def compare(self, t, steps, roles, col, cols, stops, src, lastrule, viol, want, trans):
        L, K, rep = self.L, self.K, self.rep
        n = len(stops)
        desc = 'positions accept rules %s' % stops
        for e in t.events:
            if e[0] in ('uaf', 'badptr', 'doublefree', 'undef'):
                return viol('memory', 'a position is described from unset or released data at %s' % e[-1], desc) if 'J10' in want else None
        if t.end[0] != 'ret' or not isinstance(t.ret, Ptr):
            return viol('result', 'no compiled query is returned', desc) if 'J10' in want else None

        def rd(p, off, size=8, ty='p'):
            return Sem.read(t, t.obj(p.obj), p.off + off, size, ty)

        def num(p, off):
            v = rd(p, off, 4, 'i')
            return v if isinstance(v, Lin) else None

        def val(v):
            return None if v is None else t.facts.value(v)
        D, X = t.ret, Ptr('context', ZERO)
        F = lambda f: rd(D, L['JSONQueryDFA.' + f])
        self.ob('compiled queries compared (automaton configuration)', 1)
        if 'J10' in want:
            if val(num(D, L['JSONQueryDFA.states_num'])) != n or val(num(D, L['JSONQueryDFA.inputs_num'])) != cols or val(num(X, L['JSONQueryDFAContext.states_num'])) != n:
                return viol('size', 'the compiled table does not have the size of the automaton', desc)
            tab = F('table')
            for i in range(n):
                for j in range(cols):
                    w = ZERO if not i or not j else C(src.get(i, 0)) if j == 2 else trans(i, j)
                    g = num(tab, 4 * (i * cols + j)) if isinstance(tab, Ptr) else None
                    if g is None or t.facts.cmp('eq', g, w) is not True:
                        return viol('table', 'the compiled table is not a copy of the automaton (position %d, column %d)' % (i, j), desc)
            names = F('names')
            seen = set()
            for j in range(3, cols):
                p = rd(names, 8 * j) if isinstance(names, Ptr) else None
                tx = norm_text(cstring(t, p)) if isinstance(p, Ptr) else None
                w = [m for m, cc in col.items() if cc == j]
                if w and tx != norm_text((('cstr', ('name', w[0]), 0, ZERO),)):
                    return viol('names', 'a column does not carry the name of the step that uses it', desc)
                if tx in seen:
                    return viol('names', 'two columns have one name', desc)
                seen.add(tx)
        acc, stp, ary = F('accept_type'), F('stop_state'), F('array_index')
        pst = X.off + L['JSONQueryDFAContext.array_predicate_states'] + L['JSONQueryIntVecPair.value_size']
        npred = val(num(X, pst))
        predv = rd(X, L['JSONQueryDFAContext.array_predicate_states'] + L['JSONQueryIntVecPair.value'])
        preds = [val(num(predv, 4 * k)) for k in range(npred)] if npred is not None and isinstance(predv, Ptr) and npred <= n else None
        wantpred = []
        maps, subs = rd(X, L['JSONQueryDFAContext.states_mapping']), rd(X, L['JSONQueryDFAContext.subtrees'])
        size = L['JSONQueryIntVecPair']
        for i in range(n):
            r = stops[i] - 1
            role = roles[r] if r >= 0 else None
            outp = role is not None and r in lastrule
            ranged = role is not None and role[0] == 'range'
            typ = 0 if role is None or ranged and not outp else K['DFA_OUTPUT_CANDIDATE'] if outp else K['DFA_PREDICATE'] if role[0] == 'filter' else K['DFA_CONDITION']
            g = val(num(acc, 4 * i)) if isinstance(acc, Ptr) else None
            if g != typ:
                nm = {0: 'no position of its own', K['DFA_OUTPUT_CANDIDATE']: 'an output position', K['DFA_CONDITION']: 'a condition position', K['DFA_PREDICATE']: 'a predicate position'}
                if 'J08' in want and (typ == K['DFA_OUTPUT_CANDIDATE'] or g == K['DFA_OUTPUT_CANDIDATE']):
                    viol('output', 'a position accepting %s is %s, not %s' % (self.role(role), nm.get(g, 'of unknown kind'), nm[typ]), desc)
                if 'J10' in want:
                    viol('class', 'a position accepting %s is %s, not %s' % (self.role(role), nm.get(g, 'of unknown kind'), nm[typ]), desc)
                return
            if 'J10' in want and typ and val(num(stp, 4 * i)) != stops[i]:
                return viol('stop', 'a position does not carry the number of its rule', desc)
            # index range
            lo, up = num(ary, 8 * i), num(ary, 8 * i + 4)
            if lo is None or up is None:
                return viol('range', 'the index range of a position is unset', desc)
            if not ranged:
                if val(lo) != 0 or val(up) != 0:
                    return viol('range/other', 'a position accepting %s carries an index range' % self.role(role), desc)
            else:
                s = steps[role[1]]
                k = role[1]
                a, b = atom(('number', (k, 0))), atom(('number', (k, 1)))
                c = lambda p, x, y: t.facts.cmp(p, x, y)
                none = val(lo) == 0 and val(up) == 0
                if s[0] == 'index':
                    ok = c('eq', lo, a) is True and c('eq', up, a + 1) is True and not none
                else:
                    wl = a if s[1] else None
                    wu = b if s[2] else None
                    okl = c('eq', lo, wl) is True if wl is not None else val(lo) is not None and val(lo) <= 0
                    oku = c('eq', up, wu) is True if wu is not None else val(up) is not None and val(up) >= BIG
                    empty = wu is not None and c('ge', wl if wl is not None else ZERO, wu) is True
                    ok = (okl and oku or empty and c('ge', lo, up) is True) and not none
                    if none and wl is not None and c('eq', wl, ZERO) is not True or not ok and none and c('eq', wu if wu is not None else C(BIG), ZERO) is None:
                        ok = False
                if not ok:
                    return viol('range/' + s[0], 'the index range of %s is not the one of its step' % ('an index step' if s[0] == 'index' else 'a range step'), desc)
            if 'J10' not in want:
                continue
            if outp and role[0] == 'filter':
                viol('roles/filter-at-end', 'the last step of the path is a filter: its position is an output position only and no predicate position', desc)
            # filters
            if role is not None and role[0] == 'filter' and not outp:
                wantpred.append(i)
            if role is not None and role[0] == 'filter':
                sub = rd(subs, 8 * i) if isinstance(subs, Ptr) else None
                if not isinstance(sub, Ptr):
                    return viol('filter', 'a filter position has no expression', desc)
                m = self.expr(t, sub)
                if m is None or sorted(m) != sorted('.'.join(x) for x in steps[role[1]][1]):
                    return viol('filter', 'a filter position has the expression of another filter', desc)
                cnt = val(num(maps, size * i + L['JSONQueryIntVecPair.value_size'])) if isinstance(maps, Ptr) else None
                vec = rd(maps, size * i + L['JSONQueryIntVecPair.value']) if isinstance(maps, Ptr) else None
                wc = [q for q, x in enumerate(roles) if x[0] == 'condition' and x[1][0] == role[1]]
                gc = [val(num(vec, 4 * k)) for k in range(cnt)] if cnt and isinstance(vec, Ptr) and cnt < 40 else []
                if cnt is None or len(gc) != cnt or sorted(stops[x] - 1 if x is not None and 0 <= x < n else -9 for x in gc) != sorted(x for x in wc if x + 1 in stops):
                    return viol('conditions', 'a filter position does not list the positions of its conditions', desc)
                for x in gc:
                    if x is None or not 0 <= x < n:
                        continue
                    cs = rd(subs, 8 * x)
                    nmx = self.expr(t, cs) if isinstance(cs, Ptr) else None
                    if nmx != ['.'.join(roles[stops[x] - 1][1][1])]:
                        return viol('condition-name', 'a condition position does not carry the name of its condition', desc)
        if 'J10' in want and (preds is None or sorted(preds) != wantpred):
            return viol('predicates', 'the list of predicate positions is not the set of filter positions', desc)

    def role(self, role):
        return 'no rule' if role is None else {'range': 'an index step', 'filter': 'a filter step', 'condition': 'a condition', 'path': 'the whole path'}[role[0]]

    def expr(self, t, p):
        """names of the variables of an expression, in order"""
        L, K = self.L, self.K
        if not isinstance(p, Ptr) or p is NULL:
            return []
        o = t.obj(p.obj)
        if o.freed:
            return None
        rd = lambda f, s=8, ty='p': Sem.read(t, o, p.off + L['ASTNode.' + f], s, ty)
        k = rd('node_type', 4, 'i')
        k = k.c if isinstance(k, Lin) and k.is_const() else None
        r = []
        if k == K['jnt_variable']:
            s = rd('string')
            if not isinstance(s, Ptr) or t.obj(s.obj).freed:
                return None
            r.append(''.join(chr(x) if isinstance(x, int) else str(x[1][1]) for x in parts(cstring(t, s))))
        for c in ('left', 'right'):
            x = self.expr(t, rd(c))
            if x is None:
                return None
            r += x
        return r

    def one(self, steps, want):
        """one path: [(key, message, detail)], [undecided], {obligation: count}, {callees}"""
        V, U, O = [], [], {}
        what = self.show(steps)
        ob = lambda k, n=1: O.__setitem__(k, O.get(k, 0) + n)
        self.ob = ob
        self.callees = set()

        def viol(kind, msg, detail=''):
            V.append(('compile/' + kind, msg, (what + '; ' + detail).rstrip('; ')))
        try:
            H, E, caught, T = self.prepare(steps)
            bad = [e for e, t in E.all_events(T) if e[0] in ('extern',)] + [e for s in caught for e in s.events if e[0] == 'extern']
            if bad:
                return V, ['unknown function %s' % bad[0][1]], O, set()
            if T and not caught and 'J08' in want:
                viol('none', 'no matching rules are handed over')
            for s in caught:
                und = [e for e in s.events if e[0] in ('undef', 'uaf', 'badptr', 'doublefree')]
                if und:
                    viol('memory', 'compilation depends on unset or released data at %s' % und[0][-1])
                    continue
                r = self.rules(s, steps, viol if 'J08' in want else (lambda *a: None))
                if r is None:
                    continue
                ob('paths whose matching rules were compared')
                roles, col, cols = r
                first = True
                for stops in self.configs(len(roles)):
                    for sh in (0, 1) if len(roles) > 1 else (0,):
                        done = self.finish(s, steps, roles, col, cols, H, stops, sh, want, viol, False)
                        if done and first:
                            first = False
                            self.finish(s, steps, roles, col, cols, H, stops, sh, want, viol, True)
            self.callees |= set(E.calls)
        except EngineError as e:
            U.append('%s: %s' % (what, e))
        return V, U, O, self.callees

    def check(self, want):
        import concurrent.futures as cf
        import multiprocessing as mp
        rep = self.rep
        S = list(self.shapes())
        S.sort(key=lambda s: -sum(3 if x[0] in ('filter', 'range', 'index') else 1 for x in s))
        jobs = [S[i::64] for i in range(64)]
        global _B, _W
        _B, _W = self, want
        with cf.ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
            for rs in ex.map(_job, jobs):
                for V, U, O, c in rs:
                    for k, m, d in V:
                        rep.violation(k, m, 'dfa_builder.cpp', d)
                    for u in U:
                        rep.undec(u)
                    for k, n in O.items():
                        rep.ob(k, n)
                    for f in c:
                        rep.saw('callees', f)


def _job(S):
    return [_B.one(s, _W) for s in S]


def run(rep, want):
    try:
        b = Builder(rep)
    except build.BuildError as e:
        rep.undec('the sources use something the library stand-in lacks: ' + str(e)[-300:])
        return
    b.check(want)
    rep.notes += ['The automaton construction proper is replaced by an arbitrary automaton with the given accepting rules (its own correctness is J09).',
                  'Paths have at most three steps, filters at most two conditions of at most two names; numbers are non-negative.']
    rep.rule('Paths of up to three steps of every kind (names, numbers, transitions symbolic) are compiled by interpretation of the C++ sources; the rules handed over, and the description '
             'of every position for automata with every kind of accepting position, are compared with the reference.')
