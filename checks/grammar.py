"""The path language (scanner_j.l, parser_j.y): token recognition and expression structure (J12)."""
import itertools, os, re
import xml.etree.ElementTree as ET
from engine import build
from engine.dom import *
from engine.interp import *
from engine.interp import norm_text, cstring, put_entry
from .common import Broken
from .search import exhausted

DIR = 'JSONPathParser'
AST = {'ASTNode': ['node_type', 'string', 'number', 'opt', 'left', 'right']}
INC = ['<stdlib.h>', '<string.h>', '"jsonpath_model.h"']
BIN = {'||': ('or', 1), '&&': ('and', 2), '==': ('equal', 3), '!=': ('neq', 3), '<': ('less', 3), '>': ('greater', 3), '<=': ('leq', 3), '>=': ('geq', 3),
       '+': ('add', 4), '-': ('minus', 4), '*': ('multiply', 5), '/': ('div', 5), '%': ('mod', 5)}
KINDS = ['root', 'concat', 'parent_concat', 'id', 'operator', 'predicate', 'wildcard', 'number', 'string', 'reference', 'script', 'fliter', 'range']
OPS = ['or', 'and', 'not', 'equal', 'less', 'greater', 'neq', 'leq', 'geq', 'add', 'minus', 'multiply', 'div', 'mod']


# ---- reference tokens: sets of (token, position) items over small deterministic machines
class Ref:
    """machines: token -> (start, {state: [(set of bytes, next)]}, accepting states)"""
    def __init__(self):
        self.m = {}
        for s in '* - + / % ? [ ] ( ) =~ == != < > <= >= && || ! $ @ . , .. :'.split():
            self.m[s] = (0, {i: [({ord(c)}, i + 1)] for i, c in enumerate(s)}, {len(s)})
        al = set(range(65, 91)) | set(range(97, 123)) | {95}
        dg = set(range(48, 58))
        allb = set(range(1, 256)) - {10}
        self.m['blank'] = (0, {0: [({32, 9, 11, 12}, 1)]}, {1})
        self.m['NAME'] = (0, {0: [(al, 1)], 1: [(al | dg, 1)]}, {1})
        self.m['NUMBER'] = (0, {0: [(dg, 1)], 1: [(dg, 1), ({46}, 2)], 2: [(dg, 3)], 3: [(dg, 3)]}, {1, 3})
        for n, q in (('STRING', 34), ('STRING1', 39)):
            self.m[n] = (0, {0: [({q}, 1)], 1: [(allb - {q, 92}, 1), ({92}, 2), ({q}, 3)], 2: [(allb, 1)]}, {3})

    def start(self):
        return frozenset((t, m[0]) for t, m in self.m.items())

    def step(self, S, b):
        return frozenset((t, n) for t, s in S for bs, n in self.m[t][1].get(s, ()) if b in bs)

    def accept(self, S):
        r = sorted(t for t, s in S if s in self.m[t][2])
        return r[0] if r else None


SAMPLE = {'blank': ' ', 'NAME': 'a', 'NUMBER': '1', 'STRING': '"a"', 'STRING1': "'a'"}


class Language:
    def __init__(self, rep):
        self.rep = rep
        T = build.tmp()
        y, l = os.path.join(build.REPO, DIR, 'parser_j.y'), os.path.join(build.REPO, DIR, 'scanner_j.l')
        for f in (y, l):
            if not os.path.exists(f):
                raise Broken(f + ' is gone')
        build.sh(['bison', '-Wnone', '--xml=' + T + '/parser_j.xml', '-d', '-o', T + '/parser_j.c', y])
        build.sh(['flex', '-Cf', '-8', '--header-file=' + T + '/scanner_j.h', '-o', T + '/scanner_j.c', l])
        self.tables(open(T + '/scanner_j.c', errors='replace').read())
        self.automaton(T + '/parser_j.xml')
        self.actions(open(T + '/parser_j.c', errors='replace').read(), open(T + '/scanner_j.c', errors='replace').read())
        self.L = build.layout(AST, INC)
        k = build.consts(['jnt_' + x for x in KINDS] + ['jot_' + x for x in OPS], INC)
        self.kind = {k['jnt_' + x]: x for x in KINDS}
        self.op = {k['jot_' + x]: x for x in OPS}
        self.loc = {'lex': 'scanner_j.l', 'gram': 'parser_j.y'}

    # ---- scanner
    def tables(self, c):
        m = re.search(r'yy_nxt\[\]\[\d+\]\s*=\s*\{(.*?)\}\s*;', c, re.S)
        a = re.search(r'yy_accept\[\d+\]\s*=\s*\{(.*?)\}\s*;', c, re.S)
        if not m or not a:
            raise Broken('scanner tables not found')
        self.nxt = [[int(x) for x in r.split(',') if x.strip()] for r in re.findall(r'\{([^{}]*)\}', m.group(1) + '}' if not m.group(1).rstrip().endswith('}') else m.group(1))]
        self.acc = [int(x) for x in a.group(1).split(',') if x.strip()]
        if re.search(r'\bYY_AT_BOL\(\)', c.split('while ( /*CONSTCOND*/1 )')[-1][:2000]):
            self.rep.undec('rules bound to the start of a line are not followed')

    def scan1(self, text):
        """accept number of the longest match and its length"""
        s, best = 1, (0, 0)
        for i, ch in enumerate(text):
            s = self.nxt[s][ord(ch)]
            if s <= 0:
                break
            if self.acc[s]:
                best = (self.acc[s], i + 1)
        return best

    def actions(self, pc, sc):
        t = '#include "parser_j.c"\n'
        sw = pc.split('switch (yyn)')[-1].split('default: break;')[0]
        self.red = set()
        for m in re.finditer(r'\n  case (\d+):[^\n]*\n(.*?)\n    break;(?=\n)', sw, re.S):
            body = '\n'.join(x for x in m.group(2).split('\n') if not x.startswith('#line'))
            t += 'void verif_red_%s(JSTYPE* yyvsp, JLTYPE* yylsp, JSTYPE* out, ASTNode** root, yyscan_t yyscanner)\n{\n JSTYPE yyval; JLTYPE yyloc;\n%s\n *out = yyval;\n}\n' % (m.group(1), body)
            self.red.add(int(m.group(1)))
        s = '#include "scanner_j.c"\n#undef yytext\n#undef yyleng\n#undef yylval\n#undef YY_BREAK\n#define YY_BREAK\n'
        body = sc.split('switch ( yy_act )')[-1]
        self.act = set()
        for m in re.finditer(r'\ncase (\d+):\n(/\* rule \d+ can match eol \*/\n)?YY_RULE_SETUP\n(.*?)\n\tYY_BREAK(?=\n)', body, re.S):
            b = '\n'.join(x for x in m.group(3).split('\n') if not x.startswith('#line'))
            if 'ECHO' in b:
                continue
            s += 'int verif_act_%s(JSTYPE* yylval, JLTYPE* yylloc, char* yytext, int yyleng, yyscan_t yyscanner)\n{\n%s\nreturn -1;\n}\n' % (m.group(1), b)
            self.act.add(int(m.group(1)))
        if len(self.red) < 20 or len(self.act) < 20:
            raise Broken('actions of the generated parser or scanner not found')
        self.P = build.program([('verif_red.c', t), ('verif_act.c', s)], passes='mem2reg')

    def engine(self):
        return Engine(self.P, {}, nonnull=lambda o: True, small_unsigned=True, peel=lambda st, fr, blk: 4)

    def token(self, k, text, n):
        """(token number or -1, string value, number value) of rule k for a text"""
        st = State()
        st.mem['text'] = Obj('text', 'sym', None, 'sym', (('s', ZERO, text, None),), meta={'nonnull': True})
        st.mem['lval'] = Obj('lval', 'sym', C(8), 'undef', meta={'nonnull': True})
        st.mem['lloc'] = Obj('lloc', 'sym', None, 'sym', meta={'nonnull': True})
        st.mem['scanner'] = Obj('scanner', 'sym', None, 'sym', meta={'nonnull': True})
        E = self.engine()
        E.start(self.P.find('verif_act_%d' % k), [Ptr('lval', ZERO), Ptr('lloc', ZERO), Ptr('text', ZERO), n, Ptr('scanner', ZERO)], st)
        T = E.run(st)
        r = []
        for e, t in E.all_events(T):
            if e[0] == 'extern' and e[1] not in ('printf', 'fprintf', 'puts'):
                raise EngineError('unknown function %s in a scanner action' % e[1])
        for t in T:
            if t.end[0] == 'ret' and isinstance(t.ret, Lin) and t.facts.value(t.ret) is not None:
                v = None
                for x in t.obj('lval').ents:
                    if x[0] == 'v' and x[1] == ZERO:
                        v = x[3]
                if isinstance(v, Ptr):
                    v = ('text', norm_text(cstring(t, v))) if not t.obj(v.obj).freed else ('released',)
                r.append((t.facts.value(t.ret), v))
            else:
                r.append((t.end[0], None))
        return r

    def lexical(self):
        rep, R = self.rep, Ref()
        self.num = {}
        code = {}

        def codes(k):
            if k not in code:
                if k not in self.act:
                    code[k] = {-2}
                else:
                    t = (('cstr', 'tok', 0, ZERO),)
                    code[k] = {c for c, v in self.token(k, t, text_len(t))}
            return code[k]

        def bad(kind, msg, detail=''):
            rep.violation('lex/' + kind, msg, self.loc['lex'], detail)
        for t in R.m:
            s = SAMPLE.get(t, t)
            k, m = self.scan1(s)
            c = codes(k) if k else set()
            if m != len(s) or len(c) != 1:
                bad('token/%s' % t, '%r is not recognised as one token' % s)
                self.num[t] = None
            else:
                self.num[t] = list(c)[0]
                if (self.num[t] == -1) != (t == 'blank') and t != '=~':
                    bad('token/%s' % t, '%r is ignored' % s if t != 'blank' else 'a blank is not ignored')
        if self.num['STRING'] != self.num['STRING1']:
            bad('token/STRING1', 'the two forms of a string are different tokens')
        # every text: the recognised token is the one of the reference
        seen, work, n = {}, [(1, R.start(), '')], 0
        seen[(1, R.start())] = 1
        while work:
            s, S, w = work.pop(0)
            for b in range(1, 256):
                if b == 10:
                    continue
                s2 = self.nxt[s][b] if s > 0 else 0
                s2 = s2 if s2 > 0 else 0
                S2 = R.step(S, b)
                if not s2 and not S2 or (s2, S2) in seen:
                    continue
                seen[(s2, S2)] = 1
                w2 = w + chr(b)
                n += 1
                rt = R.accept(S2)
                k = self.acc[s2] if s2 else 0
                if rt is not None:
                    if not k:
                        bad('accept/%s' % rt, 'a text that is one token is not recognised', repr(w2))
                    elif rt != '=~' and self.num.get(rt) is not None and codes(k) != {self.num[rt]}:
                        bad('accept/%s' % rt, 'a text is recognised as another token', repr(w2))
                elif k and len(w2) > 1:
                    bad('join', 'a text of several tokens is recognised as one token', repr(w2))
                work.append((s2, S2, w2))
        rep.ob('situations of the scanner (automaton state, reference state)', n)
        # what a token hands on
        q, q1 = ('lit', b'"'), ('lit', b"'")
        inner = ('slice', 'src', 0, ZERO, atom(('inner',), 0))
        for t, text, want in (('NAME', (('cstr', 'tok', 0, ZERO),), lambda v: v == ('text', norm_text((('cstr', 'tok', 0, ZERO),)))),
                              ('NUMBER', (('cstr', 'tok', 0, ZERO),), lambda v: v == Sym('strtod', norm_text((('cstr', 'tok', 0, ZERO),)))),
                              ('STRING', (q, inner, q), lambda v: v == ('text', norm_text((inner,)))), ('STRING1', (q1, inner, q1), lambda v: v == ('text', norm_text((inner,))))):
            k, m = self.scan1(SAMPLE[t])
            if k not in self.act:
                continue
            for c, v in self.token(k, text, text_len(text)):
                rep.ob('token values')
                if not want(v):
                    bad('value/%s' % t, 'the value of a token is not its text', '%s: %s' % (t, v))

    # ---- parser
    def automaton(self, path):
        r = ET.parse(path).getroot()
        g = r.find('grammar')
        self.rules = {}
        for x in g.find('rules'):
            rhs = [s.text for s in x.find('rhs') if s.tag == 'symbol']
            self.rules[int(x.get('number'))] = (x.find('lhs').text, rhs)
        self.sym = {}
        for x in g.find('terminals'):
            self.sym[int(x.get('token-number'))] = x.get('name')
        self.states = {}
        for s in r.find('automaton'):
            a = s.find('actions')
            sh, rd, go, er = {}, {}, {}, set()
            for t in a.find('transitions') or ():
                (sh if t.get('type') == 'shift' else go)[t.get('symbol')] = int(t.get('state'))
            for t in a.find('errors') if a.find('errors') is not None else ():
                er.add(t.get('symbol'))
            for t in a.find('reductions') if a.find('reductions') is not None else ():
                if t.get('enabled') == 'true':
                    rd[t.get('symbol')] = t.get('rule')
            self.states[int(s.get('number'))] = (sh, rd, go, er)

    def summary(self, rule):
        """what a reduction builds: a template over $1..$n"""
        if not hasattr(self, '_sum'):
            self._sum = {}
        if rule in self._sum:
            return self._sum[rule]
        lhs, rhs = self.rules[rule]
        n = len(rhs)
        if rule + 1 not in self.red:
            self._sum[rule] = ('$', 1)
            return ('$', 1)
        st = State()
        ents = []
        # each semantic value is used as a node, a text or a number: opaque
        for i in range(n):
            t = rhs[i]
            if t in self.numeric:
                v = Sym('$', i + 1)
            else:
                st.mem[('$', i + 1)] = Obj(('$', i + 1), 'heap', None, 'sym', meta={'nonnull': True})
                v = Ptr(('$', i + 1), ZERO)
            ents.append(('v', C(8 * i), 8, v, None))
        st.mem['vs'] = Obj('vs', 'sym', C(8 * max(n, 1)), 'undef', tuple(ents), meta={'nonnull': True})
        for x in ('ls', 'scanner'):
            st.mem[x] = Obj(x, 'sym', None, 'sym', meta={'nonnull': True})
        for x in ('out', 'root'):
            st.mem[x] = Obj(x, 'sym', C(8), 'undef', meta={'nonnull': True})
        E = self.engine()
        E.start(self.P.find('verif_red_%d' % (rule + 1)), [Ptr('vs', C(8 * (n - 1))), Ptr('ls', ZERO), Ptr('out', ZERO), Ptr('root', ZERO), Ptr('scanner', ZERO)], st)
        T = E.run(st)
        if len(T) != 1 or T[0].end[0] != 'ret':
            raise EngineError('the action of rule %s: %s is not a single path' % (lhs, ' '.join(rhs)))
        for e, t in E.all_events(T):
            if e[0] == 'extern':
                raise EngineError('unknown function %s in a parser action' % e[1])
        t = T[0]
        L = self.L
        self.anchor[rule] = '%s: %s' % (lhs, ' '.join(rhs))

        def tree(v):
            if v is NULL:
                return None
            if isinstance(v, Sym):
                if v.k[0] == '$':
                    return ('$', v.k[1])
                return ('val', repr(v))
            if not isinstance(v, Ptr):
                return ('unset',)
            if isinstance(v.obj, tuple) and v.obj[0] == '$':
                return v.obj if v.off == ZERO else ('unset',)
            o = t.obj(v.obj)
            rd = lambda f, s, ty: Sem.read(t, o, v.off + L['ASTNode.' + f], s, ty)
            k = rd('node_type', 4, 'i')
            k = self.kind.get(k.c if isinstance(k, Lin) and k.is_const() else None, 'unknown kind')
            r = [k]
            if k == 'operator':
                x = rd('opt', 4, 'i')
                r.append(self.op.get(x.c if isinstance(x, Lin) and x.is_const() else None, 'unknown operator'))
            elif k in ('id', 'string'):
                r.append(tree(rd('string', 8, 'p')))
            elif k == 'number':
                x = None
                for e in o.ents:
                    if e[0] == 'v' and e[1] == v.off + L['ASTNode.number']:
                        x = e[3]
                r.append(('num', x))
            r += [tree(rd('left', 8, 'p')), tree(rd('right', 8, 'p'))]
            return tuple(r)

        def get(o):
            for e in t.obj(o).ents:
                if e[0] == 'v' and e[1] == ZERO:
                    return e[3]
            return UNDEF
        v = get('root')
        if v is not UNDEF:
            r = ('root!', tree(v))
        else:
            r = tree(get('out'))
        self._sum[rule] = r
        return r

    def fill(self, tm, vals):
        if tm is None:
            return None
        if tm[0] == '$':
            return vals[tm[1] - 1]
        if tm[0] == 'num':
            return ('num', self.numval(tm[1], vals))
        return tuple(self.fill(x, vals) if isinstance(x, tuple) else x for x in tm)

    def numval(self, x, vals):
        if isinstance(x, Sym):
            if x.k[0] == '$':
                return vals[x.k[1] - 1]
            return (x.k[0],) + tuple(self.numval(y, vals) for y in x.k[1:])
        return x

    def parse(self, toks):
        """toks: [(token number, value)] -> tree, or None where it is rejected"""
        st, vs, res = [0], [], None
        toks = [(self.sym.get(n), v) for n, v in toks] + [('$end', None)]
        i = 0
        for _ in range(10000):
            if i == len(toks):
                return res
            sh, rd, go, er = self.states[st[-1]]
            s, v = toks[i]
            if s is None or s in er:
                return None
            if s in sh:
                st.append(sh[s])
                vs.append(v)
                i += 1
                continue
            r = rd.get(s, rd.get('$default'))
            if r is None:
                return None
            if r == 'accept':
                return res
            r = int(r)
            lhs, rhs = self.rules[r]
            n = len(rhs)
            if r == 0:
                return res
            val = self.fill(self.summary(r), vs[len(vs) - n:])
            self.used.add(r)
            if n:
                del st[-n:]
                del vs[-n:]
            if isinstance(val, tuple) and val and val[0] == 'root!':
                res = val[1]
            st.append(self.states[st[-1]][2][lhs])
            vs.append(val)
        raise EngineError('the parser does not stop')

    # ---- sentences and their reference trees
    def sentences(self):
        N = lambda i: ('number', ('num', 'N%d' % i), None, None)
        ID = lambda i: ('id', 'I%d' % i, None, None)
        T = lambda i: ('NUMBER', 'N%d' % i)
        n = lambda i: ('NAME', 'I%d' % i)
        root = ('root', None, None)
        steps = [
            ([('.',), n(1)], lambda l: ('concat', l, ID(1))),
            ([('.',), ('*',)], lambda l: ('concat', l, ('wildcard', None, None))),
            ([('..',), n(2)], lambda l: ('parent_concat', l, ID(2))),
            ([('..',), ('*',)], lambda l: ('parent_concat', l, ('wildcard', None, None))),
        ]

        def br(toks, tree):
            steps.append(([('[',)] + toks + [(']',)], lambda l: ('predicate', l, tree)))
        br([T(1)], N(1))
        br([('*',)], ('wildcard', None, None))
        br([T(1), (':',), T(2)], ('range', N(1), N(2)))
        br([(':',), T(2)], ('range', None, N(2)))
        br([T(1), (':',)], ('range', N(1), None))
        br([('?',), ('(',), T(3), (')',)], ('fliter', N(3), None))
        for k in (0, 1, 2, 3):
            for c in itertools.product(steps, repeat=k):
                toks, t = [('$',)], root
                for a, f in c:
                    toks = toks + a
                    t = f(t)
                yield 'path', toks, t
        # filters
        neg = lambda i: ('number', ('num', ('fneg', 'N%d' % i)), None, None)
        atoms = [([T(1)], N(1)), ([('-',), T(2)], neg(2)), ([('STRING', 'S1')], ('string', 'S1', None, None)), ([('@',)], ('reference', None, None)),
                 ([('@',), ('.',), n(1)], ('concat', ('reference', None, None), ID(1))),
                 ([('@',), ('.',), n(1), ('.',), n(2)], ('concat', ('concat', ('reference', None, None), ID(1)), ID(2)))]

        def expr(items):
            """items: operands (tokens, tree), '!' and binary operators; parentheses as nested lists"""
            pos = [0]

            def unary():
                x = items[pos[0]]
                pos[0] += 1
                if x == '!':
                    return ('operator', 'not', unary(), None)
                if isinstance(x, list):
                    return expr(x)
                return x[1]

            def level(p):
                l = unary()
                return climb(l, p)

            def climb(l, p):
                while pos[0] < len(items) and BIN[items[pos[0]]][1] >= p:
                    o = BIN[items[pos[0]]]
                    pos[0] += 1
                    r = unary()
                    while pos[0] < len(items) and BIN[items[pos[0]]][1] > o[1]:
                        r = climb(r, BIN[items[pos[0]]][1])
                    l = ('operator', o[0], l, r)
                return l
            return level(1)

        def flat(items):
            r = []
            for x in items:
                if isinstance(x, str):
                    r.append((x,))
                elif isinstance(x, list):
                    r += [('(',)] + flat(x) + [(')',)]
                else:
                    r += x[0]
            return r

        def filt(items):
            return [('$',), ('[',), ('?',), ('(',)] + flat(items) + [(')',), (']',)], ('predicate', root, ('fliter', expr(items), None))
        o = [([T(i)], N(i)) for i in range(1, 6)]
        for a in atoms:
            for items in ([a], ['!', a], ['!', '!', a], [[a]], ['!', [a]]):
                yield ('filter',) + filt(items)
        for b in BIN:
            for x in atoms:
                for y in atoms:
                    yield ('filter',) + filt([x, b, y])
                yield ('filter',) + filt(['!', x, b, o[0]])
                yield ('filter',) + filt([o[0], b, '!', x])
            for b2 in BIN:
                for x in (atoms[0], atoms[5]):
                    yield ('filter',) + filt([o[0], b, x, b2, o[2]])
                yield ('filter',) + filt([[o[0], b, o[1]], b2, o[2]])
                yield ('filter',) + filt([o[0], b, [o[1], b2, o[2]]])
                yield ('filter',) + filt([o[0], b, '!', o[1], b2, o[2]])
                yield ('filter',) + filt(['!', [o[0], b, o[1]], b2, o[2]])
                for b3 in BIN:
                    yield ('filter',) + filt([o[0], b, o[1], b2, o[2], b3, o[3]])

    def syntax(self):
        rep = self.rep
        self.anchor, self.used, self.numeric = {}, set(), {self.sym.get(self.num['NUMBER'])}
        for kind, toks, want in self.sentences():
            seq = []
            for t in toks:
                k = self.num.get(t[0])
                if k is None:
                    break
                seq.append((k, t[1] if len(t) > 1 else None))
            else:
                got = self.parse(seq)
                rep.ob('sentences of the path language (%s)' % kind)
                if got != want:
                    txt = ' '.join(t[1] if len(t) > 1 else t[0] for t in toks)
                    if got is None:
                        rep.violation('grammar/%s/rejected' % kind, 'a %s is rejected' % ('filter' if kind == 'filter' else 'path'), self.loc['gram'], txt)
                    else:
                        what, ops = self.diff(got, want)
                        rep.violation('grammar/%s/%s' % (kind, ops), what, self.loc['gram'], '%s gives %s, expected %s' % (txt, self.show(got), self.show(want)))

    def entry(self):
        """analysisJSONPath hands the text to the parser and returns what it built"""
        rep = self.rep
        f = self.P.find('analysisJSONPath')
        if f is None:
            raise Broken('analysisJSONPath not found')
        st = State()
        for n in ('data', 'tree', 'buffer', 'lexer'):
            st.mem[n] = Obj(n, 'sym', None, 'sym', meta={'nonnull': True})
        log = []

        def init(eng, st, a, i):
            put_entry(st, st.obj(a[0].obj), ('v', a[0].off, 8, Ptr('lexer', ZERO), None))
            return ZERO

        def scan(eng, st, a, i):
            st.event('given', a[0], st.where())
            st.ghost['buf'] = 1
            return Ptr('buffer', ZERO)

        def parse(eng, st, a, i):
            st.event('parsed', st.ghost.get('buf', 0), st.where())
            put_entry(st, st.obj(a[-1].obj), ('v', a[-1].off, 8, Ptr('tree', ZERO), None))
            return ZERO

        def drop(eng, st, a, i):
            st.event('dropped', a[0], st.where())
            st.ghost['buf'] = 0
            return ZERO
        E = Engine(self.P, {'jlex_init': init, 'j_scan_string': scan, 'jparse': parse, 'j_delete_buffer': drop, 'jlex_destroy': lambda *a: ZERO}, nonnull=lambda o: True)
        E.start(f, [Ptr('data', ZERO)], st)
        for t in E.run(st):
            rep.ob('parses (path through analysisJSONPath)')
            ev = {}
            for e in t.events:
                ev.setdefault(e[0], []).append(e[1])
            if ev.get('extern'):
                rep.undec('analysisJSONPath calls %s' % ev['extern'])
                continue
            if ev.get('given') != [Ptr('data', ZERO)] or ev.get('parsed') != [1]:
                rep.violation('entry/input', 'the text of the path is not what is parsed', 'analysisJSONPath (parser_j.y)')
            if t.end[0] != 'ret' or t.ret != Ptr('tree', ZERO):
                rep.violation('entry/result', 'the parsed path is not returned', 'analysisJSONPath (parser_j.y)')

    def diff(self, a, b):
        ops = lambda t: sorted(set(re.findall(r"'operator', '(\w+)'", repr(t))))
        if ops(a) != ops(b):
            return 'an operator builds another expression', '+'.join(ops(b))
        if len(ops(b)) > 1:
            return 'operators are grouped wrongly', '+'.join(ops(b))
        return 'the parsed path has another structure', a[0] if isinstance(a, tuple) and a else 'none'

    def show(self, t):
        if not isinstance(t, tuple):
            return str(t)
        if t and t[0] == 'operator':
            sub = [self.show(x) for x in t[2:] if x is not None]
            return '%s(%s)' % (t[1], ', '.join(sub))
        if t and t[0] == 'number':
            return str(t[1][1]) if isinstance(t[1], tuple) else str(t[1])
        if t and t[0] == 'fliter':
            return '?(%s)' % self.show(t[1])
        if t and t[0] == 'predicate':
            return '%s[%s]' % (self.show(t[1]), self.show(t[2]))
        return '%s' % (t,) if len(t) < 3 else '%s(%s)' % (t[0], ', '.join(self.show(x) for x in t[1:] if x is not None))


def run(rep):
    g = Language(rep)
    g.lexical()
    g.syntax()
    g.entry()
    for r in sorted(g.used):
        rep.saw('grammar rules', '%s: %s' % (g.rules[r][0], ' '.join(g.rules[r][1])))
    rep.saw('functions', 'scanner rules (scanner_j.l)')
    rep.rule('The scanner automaton (generated from scanner_j.l on this run) is compared with the reference automaton in every reachable pair of states; the LALR automaton (generated from parser_j.y) '
             'is applied to every path of up to three steps and every filter of up to three binary operators, with the effect of each rule summarised from the code of its action.')
    rep.need('situations of the scanner (automaton state, reference state)', 40)
    rep.need('sentences of the path language (filter)', 1000)
