"""Loads LLVM IR (text) through the LLVM C API and turns it into plain Python objects."""
import ctypes, os, sys
from ctypes import c_void_p as P, c_char_p, c_uint, c_int, c_size_t, c_ulonglong, c_longlong, c_double, byref, POINTER

_LIBS = ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.18.1', 'libLLVM-18.so', 'libLLVM-18.so.1']
_l = None


def lib():
    global _l
    if _l is not None:
        return _l
    for n in _LIBS:
        try:
            _l = ctypes.CDLL(n)
            break
        except OSError:
            continue
    if _l is None:
        raise RuntimeError('libLLVM-18 not found')
    def d(name, res, *args):
        f = getattr(_l, name)
        f.restype = res
        f.argtypes = list(args)
    d('LLVMContextCreate', P)
    d('LLVMCreateMemoryBufferWithContentsOfFile', c_int, c_char_p, POINTER(P), POINTER(c_char_p))
    d('LLVMParseIRInContext', c_int, P, P, POINTER(P), POINTER(c_char_p))
    d('LLVMGetModuleDataLayout', P, P)
    d('LLVMABISizeOfType', c_ulonglong, P, P)
    d('LLVMOffsetOfElement', c_ulonglong, P, P, c_uint)
    for n in ['LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
              'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetFirstGlobal', 'LLVMGetNextGlobal',
              'LLVMGetInitializer', 'LLVMGetElementType', 'LLVMGetGEPSourceElementType', 'LLVMGetAllocatedType',
              'LLVMGetCalledValue', 'LLVMGetCondition', 'LLVMGetReturnType', 'LLVMGlobalGetValueType', 'LLVMBasicBlockAsValue',
              'LLVMGetCalledFunctionType', 'LLVMGetSwitchDefaultDest', 'LLVMGetFirstParam', 'LLVMGetNextParam']:
        d(n, P, P)
    d('LLVMGetValueName2', P, P, POINTER(c_size_t))
    for n in ['LLVMGetValueKind', 'LLVMGetTypeKind', 'LLVMGetInstructionOpcode', 'LLVMGetNumOperands', 'LLVMGetIntTypeWidth',
              'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate', 'LLVMCountIncoming', 'LLVMGetNumIndices', 'LLVMCountStructElementTypes',
              'LLVMGetArrayLength', 'LLVMIsDeclaration', 'LLVMGetLinkage', 'LLVMIsGlobalConstant', 'LLVMGetConstOpcode',
              'LLVMGetNumSuccessors', 'LLVMIsNull', 'LLVMGetNumArgOperands', 'LLVMGetDebugLocLine', 'LLVMIsConditional',
              'LLVMCountParams', 'LLVMIsConstantString', 'LLVMGetVectorSize']:
        d(n, c_uint, P)
    d('LLVMGetOperand', P, P, c_uint)
    d('LLVMGetSuccessor', P, P, c_uint)
    d('LLVMGetIncomingBlock', P, P, c_uint)
    d('LLVMGetIncomingValue', P, P, c_uint)
    d('LLVMGetIndices', POINTER(c_uint), P)
    d('LLVMStructGetTypeAtIndex', P, P, c_uint)
    d('LLVMConstIntGetSExtValue', c_longlong, P)
    d('LLVMConstIntGetZExtValue', c_ulonglong, P)
    d('LLVMConstRealGetDouble', c_double, P, POINTER(c_int))
    d('LLVMGetDebugLocFilename', P, P, POINTER(c_uint))
    d('LLVMGetAsString', P, P, POINTER(c_size_t))
    d('LLVMGetAggregateElement', P, P, c_uint)
    d('LLVMGetArrayLength2', c_ulonglong, P)
    d('LLVMGetParam', P, P, c_uint)
    d('LLVMGetStructName', c_char_p, P)
    d('LLVMPrintValueToString', c_char_p, P)
    return _l


OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul',
       13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 60: 'addrspacecast', 68: 'freeze'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge',
         12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Type:
    __slots__ = ('kind', 'bits', 'elems', 'offsets', 'elem', 'n', 'size', 'name')

    def __init__(self, kind):
        self.kind = kind
        self.bits = 0
        self.elems = self.offsets = self.elem = None
        self.n = 0
        self.size = 0
        self.name = None

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.bits
        if self.kind == 'struct':
            return '%%%s' % (self.name or '{' + ','.join(map(repr, self.elems)) + '}')
        if self.kind == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        return self.kind


class Instr:
    __slots__ = ('op', 'ty', 'ops', 'x', 'id', 'line', 'file', 'block', 'idx')

    def __repr__(self):
        return '%%%s = %s %r %r @%s' % (self.id, self.op, self.ops, self.x, self.line)


class Block:
    __slots__ = ('id', 'instrs', 'name', 'phis')


class Function:
    def __init__(self):
        self.name = ''
        self.blocks = []
        self.params = []
        self.decl = False
        self.internal = False
        self.module = None
        self.file = None
        self.line = 0
        self._cfg = None

    def cfg(self):
        """(succs, preds, rpo index, loop headers -> body set)"""
        if self._cfg is not None:
            return self._cfg
        succ = {b.id: succs(b) for b in self.blocks}
        pred = {b.id: [] for b in self.blocks}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onpath = {0}
        back = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    onpath.add(s)
                    stack.append((s, iter(succ[s])))
                    break
                elif s in onpath:
                    back.add((b, s))
            else:
                order.append(b)
                onpath.discard(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        loops = {}
        for (t, h) in back:
            body = loops.setdefault(h, {h})
            work = [t]
            while work:
                n = work.pop()
                if n in body:
                    continue
                body.add(n)
                work.extend(p for p in pred[n] if p in rpo)
        self._cfg = (succ, pred, rpo, loops)
        return self._cfg


def succs(b):
    t = b.instrs[-1]
    if t.op == 'br':
        return list(dict.fromkeys(t.x['succ']))
    if t.op == 'switch':
        return list(dict.fromkeys([t.x['default']] + [c[1] for c in t.x['cases']]))
    return []


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'module', 'internal')


class Module:
    def __init__(self, path):
        L = lib()
        self.path = path
        self.functions = {}
        self.globals = {}
        ctx = L.LLVMContextCreate()
        buf, err = P(), c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(err)):
            raise RuntimeError('cannot read %s' % path)
        m = P()
        if L.LLVMParseIRInContext(ctx, buf, byref(m), byref(err)):
            raise RuntimeError('cannot parse %s: %s' % (path, err.value))
        self._dl = L.LLVMGetModuleDataLayout(m)
        self._types = {}
        self._m = m
        g = L.LLVMGetFirstGlobal(m)
        while g:
            G = Global()
            G.name = self._name(g)
            G.ty = self.type(L.LLVMGlobalGetValueType(g))
            G.const = bool(L.LLVMIsGlobalConstant(g))
            G.module = self
            G.internal = L.LLVMGetLinkage(g) in (8, 9)
            init = None if L.LLVMIsDeclaration(g) else L.LLVMGetInitializer(g)
            G.init = init
            self.globals[G.name] = G
            g = L.LLVMGetNextGlobal(g)
        for G in self.globals.values():
            G.init = self.const(G.init) if G.init else None
        f = L.LLVMGetFirstFunction(m)
        while f:
            F = self._function(f)
            self.functions[F.name] = F
            f = L.LLVMGetNextFunction(f)

    def _name(self, v):
        n = c_size_t()
        p = lib().LLVMGetValueName2(v, byref(n))
        return ctypes.string_at(p, n.value).decode('latin1') if p else ''

    def type(self, t):
        if t in self._types:
            return self._types[t]
        L = lib()
        k = L.LLVMGetTypeKind(t)
        if k == 8:
            r = Type('int')
            r.bits = L.LLVMGetIntTypeWidth(t)
            r.size = L.LLVMABISizeOfType(self._dl, t)
        elif k == 10:
            r = Type('struct')
            self._types[t] = r
            n = L.LLVMCountStructElementTypes(t)
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
            try:
                r.elems = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
                opaque = any(e.kind == 'opaque' for e in r.elems)
                r.offsets = [L.LLVMOffsetOfElement(self._dl, t, i) for i in range(n)]
                r.size = L.LLVMABISizeOfType(self._dl, t) if n else 0
            except Exception:
                r.kind = 'opaque'
        elif k == 11:
            r = Type('array')
            r.elem = self.type(L.LLVMGetElementType(t))
            r.n = L.LLVMGetArrayLength(t)
            r.size = r.elem.size * r.n
        elif k == 13:
            r = Type('vector')
            r.elem = self.type(L.LLVMGetElementType(t))
            r.n = L.LLVMGetVectorSize(t)
            r.size = L.LLVMABISizeOfType(self._dl, t)
        elif k == 12:
            r = Type('ptr')
            r.size = 8
        elif k == 3:
            r = Type('double')
            r.size = 8
        elif k == 2:
            r = Type('float')
            r.size = 4
        elif k == 0:
            r = Type('void')
        elif k in (4,):
            r = Type('fp80')
            r.size = 16
        else:
            r = Type('other%d' % k)
        self._types[t] = r
        return r

    def const(self, v):
        """constant -> operand tuple"""
        L = lib()
        k = L.LLVMGetValueKind(v)
        if k == 18:
            ty = self.type(L.LLVMTypeOf(v))
            if ty.bits > 64:
                return ('opaque', 'bigint')
            x = L.LLVMConstIntGetSExtValue(v)
            if ty.bits == 1:
                x &= 1
            return ('c', x, ty.bits)
        if k == 20:
            return ('null',)
        if k in (14, 25):
            return ('undef', self.type(L.LLVMTypeOf(v)))
        if k == 5:
            return ('f', self._name(v))
        if k == 8:
            return ('g', self._name(v), 0)
        if k == 6:
            return ('g', self._name(v), 0)
        if k == 19:
            li = c_int()
            return ('fp', L.LLVMConstRealGetDouble(v, byref(li)))
        if k == 15:
            return ('zero', self.type(L.LLVMTypeOf(v)))
        if k in (11, 12, 13, 16, 17):
            ty = self.type(L.LLVMTypeOf(v))
            if k == 16 and L.LLVMIsConstantString(v):
                n = c_size_t()
                p = L.LLVMGetAsString(v, byref(n))
                return ('str', ctypes.string_at(p, n.value), ty)
            n = len(ty.elems) if ty.kind == 'struct' else ty.n
            return ('agg', [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)], ty)
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == 'gep':
                base = self.const(L.LLVMGetOperand(v, 0))
                co, var = self.gep(v, True)
                if not var and base[0] == 'g':
                    return ('g', base[1], base[2] + co)
                if not var and base[0] == 'null':
                    return ('c', co, 64)
            elif op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                return self.const(L.LLVMGetOperand(v, 0))
            elif op in ('sub', 'add'):
                a = self.const(L.LLVMGetOperand(v, 0))
                b = self.const(L.LLVMGetOperand(v, 1))
                if a[0] == 'c' and b[0] == 'c':
                    return ('c', a[1] - b[1] if op == 'sub' else a[1] + b[1], a[2])
            return ('opaque', 'constexpr')
        if k == 22:
            return ('meta',)
        return ('opaque', 'kind%d' % k)

    def operand(self, v):
        i = self._vals.get(v)
        if i is not None:
            return i
        return self.const(v)

    def gep(self, v, const=False):
        """byte offset decomposition: constant part, [(operand, scale, bound)], and the last array passed through as
        (constant start, number of variable terms before it, byte size) or None"""
        win = ()
        L = lib()
        ty = self.type(L.LLVMGetGEPSourceElementType(v))
        n = L.LLVMGetNumOperands(v)
        co, var = 0, []
        for i in range(1, n):
            o = L.LLVMGetOperand(v, i)
            idx = self.const(o) if const else self.operand(o)
            if i == 1:
                scale, bound = ty.size, None
            elif ty.kind == 'struct':
                co += ty.offsets[idx[1]]
                ty = ty.elems[idx[1]]
                continue
            elif ty.kind in ('array', 'vector'):
                bound = ty.n
                win += ((co, len(var), ty.size),)
                ty = ty.elem
                scale = ty.size
            else:
                raise RuntimeError('gep into ' + repr(ty))
            if idx[0] == 'c':
                co += idx[1] * scale
            else:
                var.append((idx, scale, bound))
        self._win = win
        return co, var

    def _function(self, f):
        L = lib()
        F = Function()
        F.module = self
        F.name = self._name(f)
        F.decl = bool(L.LLVMIsDeclaration(f))
        F.internal = L.LLVMGetLinkage(f) in (8, 9)
        fty = L.LLVMGlobalGetValueType(f)
        F.ret = self.type(L.LLVMGetReturnType(fty))
        self._vals = {}
        np_ = L.LLVMCountParams(f)
        for i in range(np_):
            p = L.LLVMGetParam(f, i)
            self._vals[p] = ('a', i)
            F.params.append((self._name(p), self.type(L.LLVMTypeOf(p))))
        if F.decl:
            return F
        bbs = {}
        lst = []
        b = L.LLVMGetFirstBasicBlock(f)
        nid = 0
        while b:
            bbs[b] = len(lst)
            bbs[L.LLVMBasicBlockAsValue(b)] = len(lst)
            ins = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                self._vals[i] = ('v', nid)
                nid += 1
                ins.append(i)
                i = L.LLVMGetNextInstruction(i)
            lst.append((b, ins))
            b = L.LLVMGetNextBasicBlock(b)
        for bid, (b, ins) in enumerate(lst):
            B = Block()
            B.id = bid
            B.name = self._name(L.LLVMBasicBlockAsValue(b)) if False else str(bid)
            B.instrs = []
            for k, i in enumerate(ins):
                I = Instr()
                I.id = self._vals[i][1]
                opn = L.LLVMGetInstructionOpcode(i)
                I.op = OPC.get(opn, 'op%d' % opn)
                I.ty = self.type(L.LLVMTypeOf(i))
                I.line = L.LLVMGetDebugLocLine(i)
                ln = c_uint()
                fp = L.LLVMGetDebugLocFilename(i, byref(ln))
                I.file = ctypes.string_at(fp, ln.value).decode() if fp else None
                if F.file is None and I.file:
                    F.file, F.line = I.file, I.line
                I.x = None
                I.block = bid
                I.ops = ()
                if I.op in ('br',):
                    ns = L.LLVMGetNumSuccessors(i)
                    I.x = {'succ': [bbs[L.LLVMGetSuccessor(i, j)] for j in range(ns)]}
                    if ns == 2:
                        I.ops = (self.operand(L.LLVMGetCondition(i)),)
                elif I.op == 'switch':
                    no = L.LLVMGetNumOperands(i)
                    I.ops = (self.operand(L.LLVMGetOperand(i, 0)),)
                    I.x = {'default': bbs[L.LLVMGetOperand(i, 1)],
                           'cases': [(self.const(L.LLVMGetOperand(i, j))[1], bbs[L.LLVMGetOperand(i, j + 1)]) for j in range(2, no, 2)]}
                elif I.op == 'phi':
                    n = L.LLVMCountIncoming(i)
                    I.x = {}
                    for j in range(n):
                        I.x[bbs[L.LLVMGetIncomingBlock(i, j)]] = self.operand(L.LLVMGetIncomingValue(i, j))
                elif I.op == 'gep':
                    I.ops = (self.operand(L.LLVMGetOperand(i, 0)),)
                    co, var = self.gep(i)
                    I.x = (co, var, self._win)
                elif I.op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(i)
                    callee = self.operand(L.LLVMGetCalledValue(i))
                    I.ops = tuple(self.operand(L.LLVMGetOperand(i, j)) for j in range(na))
                    I.x = callee
                elif I.op == 'alloca':
                    I.x = self.type(L.LLVMGetAllocatedType(i))
                    I.ops = (self.operand(L.LLVMGetOperand(i, 0)),)
                elif I.op == 'icmp':
                    I.x = IPRED[L.LLVMGetICmpPredicate(i)]
                    I.ops = (self.operand(L.LLVMGetOperand(i, 0)), self.operand(L.LLVMGetOperand(i, 1)))
                    I.ty = self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif I.op == 'fcmp':
                    I.x = FPRED[L.LLVMGetFCmpPredicate(i)]
                    I.ops = (self.operand(L.LLVMGetOperand(i, 0)), self.operand(L.LLVMGetOperand(i, 1)))
                elif I.op in ('extractvalue', 'insertvalue'):
                    n = L.LLVMGetNumIndices(i)
                    ix = L.LLVMGetIndices(i)
                    I.x = [ix[j] for j in range(n)]
                    I.ops = tuple(self.operand(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i)))
                else:
                    I.ops = tuple(self.operand(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i)))
                    if I.op in ('trunc', 'zext', 'sext', 'ptrtoint', 'fptosi', 'fptoui', 'sitofp', 'uitofp'):
                        I.x = self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif I.op == 'store':
                        I.x = self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                I.idx = k
                B.instrs.append(I)
            F.blocks.append(B)
        self._vals = None
        return F


class Program:
    """Several modules; a call resolves to the caller's module first, then to an exported definition elsewhere."""

    def __init__(self, mods):
        self.mods = mods

    def resolve(self, mod, name):
        f = mod.functions.get(name) if mod else None
        if f is not None and not f.decl:
            return f
        for m in self.mods:
            g = m.functions.get(name)
            if g is not None and not g.decl and (not g.internal or mod is None):
                return g
        return f

    def find(self, name, prefer=None):
        """a defined function by name, in the module whose path contains `prefer` if given"""
        for m in self.mods:
            if prefer and prefer not in m.path:
                continue
            g = m.functions.get(name)
            if g is not None and not g.decl:
                return g
        return None

    def resolve_global(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and (g.init is not None or g.internal):
            return g
        for m in self.mods:
            h = m.globals.get(name)
            if h is not None and h.init is not None and not h.internal:
                return h
        return g
