"""Load LLVM bitcode/IR into plain Python objects through the LLVM-C API (ctypes).

Only inspection: nothing of the analysed program is executed."""
import ctypes as C
import ctypes.util

_L = None
P = C.c_void_p
U = C.c_uint

# LLVM-C opcode numbers (LLVMOpcode enum)
OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement',
       53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'atomicCmpXchg', 57: 'atomicrmw',
       60: 'addrspacecast', 66: 'fneg', 67: 'callbr', 68: 'freeze'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
# type kinds
TK_VOID, TK_FLOAT, TK_DOUBLE, TK_INT, TK_FUNC, TK_STRUCT, TK_ARRAY, TK_PTR = 0, 2, 3, 8, 9, 10, 11, 12
# value kinds
VK_ARG, VK_BB, VK_FUNC, VK_GALIAS = 0, 1, 5, 6
VK_GVAR, VK_CEXPR, VK_CARRAY, VK_CSTRUCT, VK_CVEC = 8, 10, 11, 12, 13
VK_UNDEF, VK_CAGGZERO, VK_CDARRAY, VK_CDVEC, VK_CINT, VK_CFP, VK_CNULL = 14, 15, 16, 17, 18, 19, 20
VK_MD = 22
VK_ASM = 23
VK_INST = 24
VK_POISON = 25


def lib():
    global _L
    if _L is None:
        _L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so')
        def f(name, res, *args):
            fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args)
        f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
        f('LLVMContextCreate', P)
        f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
        for n in ('LLVMGetFirstFunction', 'LLVMGetFirstGlobal', 'LLVMGetModuleDataLayout'): f(n, P, P)
        for n in ('LLVMGetNextFunction', 'LLVMGetNextGlobal', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
                  'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetInitializer',
                  'LLVMGlobalGetValueType', 'LLVMGetCalledValue', 'LLVMGetCalledFunctionType', 'LLVMGetAllocatedType',
                  'LLVMGetElementType', 'LLVMGetReturnType', 'LLVMGetGEPSourceElementType', 'LLVMBasicBlockAsValue',
                  'LLVMValueAsBasicBlock', 'LLVMGetFirstParam', 'LLVMGetNextParam'): f(n, P, P)
        for n in ('LLVMGetInstructionOpcode', 'LLVMGetConstOpcode', 'LLVMGetICmpPredicate', 'LLVMGetTypeKind', 'LLVMGetValueKind',
                  'LLVMIsDeclaration', 'LLVMIsGlobalConstant', 'LLVMGetLinkage', 'LLVMGetNumOperands',
                  'LLVMGetNSW', 'LLVMIsFunctionVarArg', 'LLVMIsThreadLocal', 'LLVMGetOrdering', 'LLVMGetVolatile'): f(n, C.c_int, P)
        for n in ('LLVMCountParams', 'LLVMCountIncoming', 'LLVMGetIntTypeWidth', 'LLVMCountStructElementTypes',
                  'LLVMGetArrayLength', 'LLVMGetNumSuccessors', 'LLVMGetNumArgOperands', 'LLVMGetDebugLocLine',
                  'LLVMGetNumIndices'): f(n, U, P)
        for n in ('LLVMGetParam', 'LLVMGetIncomingValue', 'LLVMGetIncomingBlock', 'LLVMGetOperand', 'LLVMStructGetTypeAtIndex',
                  'LLVMGetSuccessor', 'LLVMGetAggregateElement'): f(n, P, P, U)
        f('LLVMGetArrayLength2', C.c_uint64, P)
        f('LLVMABISizeOfType', C.c_uint64, P, P)
        f('LLVMOffsetOfElement', C.c_uint64, P, P, U)
        f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
        f('LLVMConstIntGetZExtValue', C.c_uint64, P)
        f('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
        f('LLVMIsConstantString', C.c_int, P)
        f('LLVMGetDebugLocFilename', P, P, C.POINTER(U))
        f('LLVMGetSubprogram', P, P)
        f('LLVMDISubprogramGetLine', U, P)
        f('LLVMPrintValueToString', C.c_char_p, P)
        f('LLVMPrintTypeToString', C.c_char_p, P)
        f('LLVMGetIndices', C.POINTER(U), P)
        f('LLVMDIScopeGetFile', P, P)
        f('LLVMDIFileGetFilename', P, P, C.POINTER(U))
        f('LLVMGetStructName', C.c_char_p, P)
    return _L


class Type:
    __slots__ = ('kind', 'bits', 'size', 'text', 'fields', 'elem', 'count', 'name')
    def __repr__(self): return self.text


class CInt:
    __slots__ = ('v', 'bits')
    k = 'int'
    def __init__(s, v, bits): s.v = v; s.bits = bits
    def __repr__(s): return 'i%d %d' % (s.bits, s.v)


class CNull:
    k = 'null'
    def __repr__(s): return 'null'


class CUndef:
    k = 'undef'
    def __repr__(s): return 'undef'


class CGlobal:
    __slots__ = ('name',)
    k = 'global'
    def __init__(s, n): s.name = n
    def __repr__(s): return '@' + s.name


class CExpr:
    __slots__ = ('op', 'ops', 'gep', 'pred')
    k = 'expr'
    def __init__(s, op, ops, gep=None, pred=None): s.op = op; s.ops = ops; s.gep = gep; s.pred = pred
    def __repr__(s): return 'ce(%s %r)' % (s.op, s.ops)


class CFP:
    k = 'fp'


class Arg:
    __slots__ = ('idx', 'type', 'fn')
    k = 'arg'
    def __repr__(s): return 'arg%d' % s.idx


class Inst:
    __slots__ = ('op', 'type', 'ops', 'id', 'line', 'file', 'block', 'extra', 'idx', 'fn')
    k = 'inst'
    def __repr__(s): return '%%%d=%s' % (s.id, s.op)


class Block:
    __slots__ = ('insts', 'idx', 'succs', 'preds', 'fn', 'phis')
    def __repr__(s): return 'bb%d' % s.idx


class Function:
    def __init__(s): s.blocks = []; s.args = []; s.decl = True; s.ninst = 0
    def __repr__(s): return 'fn ' + s.name


class Global:
    __slots__ = ('name', 'const', 'type', 'init', 'decl', 'linkage', 'tls', '_raw', '_mod')


def _s(p, n=None):
    if not p: return ''
    if isinstance(p, bytes): return p.decode('latin1')
    return C.string_at(p, n).decode('latin1')


class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = L.LLVMContextCreate()
        buf = P(); msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('cannot read %s' % path)
        m = P()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.functions = {}
        self.globals = {}
        self._fraw = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            G = Global(); G.name = self._name(g); G._raw = g; G._mod = self
            G.decl = bool(L.LLVMIsDeclaration(g)); G.const = bool(L.LLVMIsGlobalConstant(g))
            G.type = self.type(L.LLVMGlobalGetValueType(g)); G.linkage = L.LLVMGetLinkage(g)
            G.tls = bool(L.LLVMIsThreadLocal(g))
            G.init = None
            self.globals[G.name] = G
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(m)
        while f:
            F = Function(); F.name = self._name(f); F.raw = f; F.module = self
            F.decl = bool(L.LLVMIsDeclaration(f)); F.linkage = L.LLVMGetLinkage(f)
            ft = L.LLVMGlobalGetValueType(f)
            F.vararg = bool(L.LLVMIsFunctionVarArg(ft)); F.rtype = self.type(L.LLVMGetReturnType(ft))
            F.loaded = False
            for i in range(L.LLVMCountParams(f)):
                a = Arg(); a.idx = i; a.fn = F; a.type = self.type(L.LLVMTypeOf(L.LLVMGetParam(f, i)))
                F.args.append(a)
            F.file = ''
            F.line = 0
            sp = L.LLVMGetSubprogram(f)
            if sp:
                F.line = L.LLVMDISubprogramGetLine(sp)
                fi = L.LLVMDIScopeGetFile(sp); n = U()
                p = L.LLVMDIFileGetFilename(fi, C.byref(n)); F.file = _s(p, n.value)
            self.functions[F.name] = F
            f = L.LLVMGetNextFunction(f)

    def _name(self, v):
        n = C.c_size_t()
        return _s(lib().LLVMGetValueName2(v, C.byref(n)))

    def type(self, t):
        if t in self.types: return self.types[t]
        L = lib()
        T = Type(); self.types[t] = T
        k = L.LLVMGetTypeKind(t); T.kind = k; T.bits = 0; T.size = 0; T.fields = None; T.elem = None; T.count = 0; T.name = None
        T.text = _s(L.LLVMPrintTypeToString(t))
        if k == TK_INT:
            T.bits = L.LLVMGetIntTypeWidth(t); T.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == TK_PTR:
            T.bits = 64; T.size = 8
        elif k == TK_ARRAY:
            T.elem = self.type(L.LLVMGetElementType(t)); T.count = L.LLVMGetArrayLength2(t); T.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == TK_STRUCT:
            T.name = _s(L.LLVMGetStructName(t))
            try:
                T.size = L.LLVMABISizeOfType(self.dl, t)
                T.fields = [(L.LLVMOffsetOfElement(self.dl, t, i), self.type(L.LLVMStructGetTypeAtIndex(t, i)))
                            for i in range(L.LLVMCountStructElementTypes(t))]
            except Exception:
                pass
        elif k in (TK_FLOAT, TK_DOUBLE):
            T.size = 4 if k == TK_FLOAT else 8; T.bits = T.size * 8
        return T

    # ---- constants
    def const(self, v):
        L = lib()
        k = L.LLVMGetValueKind(v)
        if k == VK_CINT:
            bits = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(v))
            if bits > 64:
                return CInt(int(_s(L.LLVMPrintValueToString(v)).split()[1]) % (1 << bits), bits)
            return CInt(L.LLVMConstIntGetZExtValue(v), bits)
        if k == VK_CNULL: return CNull()
        if k in (VK_UNDEF, VK_POISON): return CUndef()
        if k == VK_FUNC or k == VK_GVAR: return CGlobal(self._name(v))
        if k == VK_CEXPR:
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            g = self._gep(v, True) if op == 'gep' else None
            return CExpr(op, ops, g)
        if k == VK_CFP: return CFP()
        if k == VK_CAGGZERO: return ('zero', self.type(L.LLVMTypeOf(v)))
        return None

    def _gep(self, v, const=False):
        """-> (base operand index 0, const offset, [(operand index, scale)])"""
        L = lib()
        st = L.LLVMGetGEPSourceElementType(v)
        n = L.LLVMGetNumOperands(v)
        off = 0; var = []
        t = st
        for i in range(1, n):
            o = L.LLVMGetOperand(v, i)
            isc = L.LLVMGetValueKind(o) == VK_CINT
            if i == 1:
                scale = L.LLVMABISizeOfType(self.dl, st)
            else:
                tk = L.LLVMGetTypeKind(t)
                if tk == TK_STRUCT:
                    idx = L.LLVMConstIntGetZExtValue(o)
                    off += L.LLVMOffsetOfElement(self.dl, t, idx)
                    t = L.LLVMStructGetTypeAtIndex(t, idx)
                    continue
                t = L.LLVMGetElementType(t)
                scale = L.LLVMABISizeOfType(self.dl, t)
            if isc:
                bits = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(o))
                c = L.LLVMConstIntGetZExtValue(o)
                if c >= 1 << (bits - 1): c -= 1 << bits
                off += c * scale
            else:
                var.append((i, scale))
        return (off, var)

    def global_cells(self, name):
        """Flattened initializer: dict offset -> (size, const) with CInt/CGlobal/CExpr/CNull leaves; missing = zero."""
        G = self.globals[name]
        if G.init is not None: return G.init
        L = lib()
        out = {}
        G.init = out
        if G.decl: return out
        def walk(v, off):
            k = L.LLVMGetValueKind(v)
            t = L.LLVMTypeOf(v)
            if k == VK_CAGGZERO: return
            if k == VK_CDARRAY:
                et = self.type(L.LLVMGetElementType(t))
                n = L.LLVMGetArrayLength2(t)
                ln = C.c_size_t()
                if et.bits == 8:
                    p = L.LLVMGetAsString(v, C.byref(ln))
                    data = C.string_at(p, ln.value)
                    for i, b in enumerate(data): out[off + i] = (1, CInt(b, 8))
                else:
                    for i in range(n):
                        e = L.LLVMGetAggregateElement(v, i)
                        out[off + i * et.size] = (et.size, self.const(e))
                return
            if k == VK_CARRAY:
                et = self.type(L.LLVMGetElementType(t))
                for i in range(L.LLVMGetArrayLength2(t)):
                    walk(L.LLVMGetAggregateElement(v, i), off + i * et.size)
                return
            if k == VK_CSTRUCT:
                for i in range(L.LLVMCountStructElementTypes(t)):
                    walk(L.LLVMGetAggregateElement(v, i), off + L.LLVMOffsetOfElement(self.dl, t, i))
                return
            c = self.const(v)
            out[off] = (self.type(t).size, c)
        init = L.LLVMGetInitializer(G._raw)
        if init: walk(init, 0)
        return out

    # ---- function bodies
    def load(self, F):
        if F.loaded: return F
        F.loaded = True
        L = lib()
        f = F.raw
        if F.decl: return F
        bbs = {}
        b = L.LLVMGetFirstBasicBlock(f)
        vals = {}
        for a in F.args: vals[L.LLVMGetParam(f, a.idx)] = a
        raws = []
        while b:
            B = Block(); B.idx = len(F.blocks); B.insts = []; B.succs = []; B.preds = []; B.fn = F; B.phis = []
            bbs[L.LLVMBasicBlockAsValue(b)] = B
            bbs[b] = B
            F.blocks.append(B)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Inst(); I.id = len(raws); I.block = B; I.fn = F
                I.op = OPC.get(L.LLVMGetInstructionOpcode(i), 'op%d' % L.LLVMGetInstructionOpcode(i))
                I.type = self.type(L.LLVMTypeOf(i)); I.extra = None; I.ops = []
                I.line = L.LLVMGetDebugLocLine(i); n = U()
                p = L.LLVMGetDebugLocFilename(i, C.byref(n)); I.file = _s(p, n.value) if p else ''
                vals[i] = I; raws.append((i, I))
                I.idx = len(B.insts)
                B.insts.append(I)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        def val(v):
            if v in vals: return vals[v]
            if v in bbs: return bbs[v]
            k = L.LLVMGetValueKind(v)
            if k == VK_MD: return None
            c = self.const(v)
            return c
        for raw, I in raws:
            op = I.op
            n = L.LLVMGetNumOperands(raw)
            if op == 'phi':
                k = L.LLVMCountIncoming(raw)
                I.extra = {bbs[L.LLVMGetIncomingBlock(raw, j)].idx: val(L.LLVMGetIncomingValue(raw, j)) for j in range(k)}
                I.block.phis.append(I)
                continue
            if op == 'br':
                ns = L.LLVMGetNumSuccessors(raw)
                I.extra = [bbs[L.LLVMGetSuccessor(raw, j)] for j in range(ns)]
                if ns == 2: I.ops = [val(L.LLVMGetOperand(raw, 0))]
            elif op == 'switch':
                I.ops = [val(L.LLVMGetOperand(raw, 0))]
                cases = []
                for j in range(2, n, 2):
                    cases.append((self.const(L.LLVMGetOperand(raw, j)).v, bbs[L.LLVMGetOperand(raw, j + 1)]))
                I.extra = (bbs[L.LLVMGetOperand(raw, 1)], cases)
            elif op == 'call':
                cv = L.LLVMGetCalledValue(raw)
                na = L.LLVMGetNumArgOperands(raw)
                I.extra = val(cv) if L.LLVMGetValueKind(cv) != VK_ASM else CUndef()
                I.ops = [val(L.LLVMGetOperand(raw, j)) for j in range(na)]
            else:
                I.ops = [val(L.LLVMGetOperand(raw, j)) for j in range(n)]
                if op == 'gep': I.extra = self._gep(raw)
                elif op in ('add', 'sub', 'mul'): I.extra = bool(L.LLVMGetNSW(raw))
                elif op == 'icmp': I.extra = PRED[L.LLVMGetICmpPredicate(raw)]
                elif op == 'alloca': I.extra = self.type(L.LLVMGetAllocatedType(raw))
                elif op in ('extractvalue', 'insertvalue'):
                    ix = L.LLVMGetIndices(raw); I.extra = [ix[j] for j in range(L.LLVMGetNumIndices(raw))]
        F.ninst = len(raws)
        F._ops_t = None
        for B in F.blocks:
            t = B.insts[-1]
            s = []
            if t.op == 'br': s = t.extra
            elif t.op == 'switch': s = [t.extra[0]] + [c[1] for c in t.extra[1]]
            seen = set()
            for x in s:
                if x.idx not in seen:
                    seen.add(x.idx); B.succs.append(x); x.preds.append(B)
        return F


def dominators(F):
    n = len(F.blocks)
    order = []
    seen = set()
    def dfs(b):
        stack = [(b, iter(b.succs))]; seen.add(b.idx)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s.idx not in seen:
                    seen.add(s.idx); stack.append((s, iter(s.succs))); break
            else:
                order.append(x); stack.pop()
    dfs(F.blocks[0])
    rpo = list(reversed(order)); num = {b.idx: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p.idx in idom:
                    if new is None: new = p.idx
                    else:
                        a, c = p.idx, new
                        while a != c:
                            while num[a] > num[c]: a = idom[a]
                            while num[c] > num[a]: c = idom[c]
                        new = a
            if idom.get(b.idx) != new:
                idom[b.idx] = new; ch = True
    return idom, num


def loops(F):
    """-> dict header idx -> set of block idx in the natural loop"""
    if getattr(F, '_loops', None) is not None: return F._loops
    idom, num = dominators(F)
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    res = {}
    for b in F.blocks:
        if b.idx not in num: continue
        for s in b.succs:
            if dom(s.idx, b.idx):
                body = res.setdefault(s.idx, {s.idx})
                st = [b]
                while st:
                    x = st.pop()
                    if x.idx in body: continue
                    body.add(x.idx)
                    st.extend(p for p in x.preds if p.idx in num)
    F._loops = res
    return res
