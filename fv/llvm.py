"""LLVM-C binding (ctypes): loads the bitcode clang produced from the contract file + /repo headers, runs a fixed pass
pipeline, and turns functions into plain Python objects for the symbolic executor."""
import ctypes as C
import struct

L = C.CDLL('libLLVM.so.18.1')
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


u = C.c_uint
i = C.c_int
s = C.c_char_p
ull = C.c_ulonglong
CtxCreate = _f('LLVMContextCreate', P)
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', i, s, C.POINTER(P), C.POINTER(s))
ParseBC = _f('LLVMParseBitcodeInContext2', i, P, P, C.POINTER(P))
Verify = _f('LLVMVerifyModule', i, P, i, C.POINTER(s))
GetFirstFunction = _f('LLVMGetFirstFunction', P, P)
GetNextFunction = _f('LLVMGetNextFunction', P, P)
GetNamedFunction = _f('LLVMGetNamedFunction', P, P, s)
GetFirstGlobal = _f('LLVMGetFirstGlobal', P, P)
GetNextGlobal = _f('LLVMGetNextGlobal', P, P)
GetFirstAlias = _f('LLVMGetFirstGlobalAlias', P, P)
GetNextAlias = _f('LLVMGetNextGlobalAlias', P, P)
AliasGetAliasee = _f('LLVMAliasGetAliasee', P, P)
GetInitializer = _f('LLVMGetInitializer', P, P)
IsGlobalConstant = _f('LLVMIsGlobalConstant', i, P)
IsThreadLocal = _f('LLVMIsThreadLocal', i, P)
GlobalGetValueType = _f('LLVMGlobalGetValueType', P, P)
IsDeclaration = _f('LLVMIsDeclaration', i, P)
GetValueName2 = _f('LLVMGetValueName2', P, P, C.POINTER(C.c_size_t))
CountParams = _f('LLVMCountParams', u, P)
GetParam = _f('LLVMGetParam', P, P, u)
TypeOf = _f('LLVMTypeOf', P, P)
GetTypeKind = _f('LLVMGetTypeKind', i, P)
GetIntTypeWidth = _f('LLVMGetIntTypeWidth', u, P)
GetElementType = _f('LLVMGetElementType', P, P)
GetArrayLength2 = _f('LLVMGetArrayLength2', C.c_uint64, P)
GetVectorSize = _f('LLVMGetVectorSize', u, P)
CountStructElementTypes = _f('LLVMCountStructElementTypes', u, P)
StructGetTypeAtIndex = _f('LLVMStructGetTypeAtIndex', P, P, u)
IsOpaqueStruct = _f('LLVMIsOpaqueStruct', i, P)
GetReturnType = _f('LLVMGetReturnType', P, P)
IsFunctionVarArg = _f('LLVMIsFunctionVarArg', i, P)
GetModuleDataLayout = _f('LLVMGetModuleDataLayout', P, P)
ABISizeOfType = _f('LLVMABISizeOfType', ull, P, P)
StoreSizeOfType = _f('LLVMStoreSizeOfType', ull, P, P)
OffsetOfElement = _f('LLVMOffsetOfElement', ull, P, P, u)
GetFirstBasicBlock = _f('LLVMGetFirstBasicBlock', P, P)
GetNextBasicBlock = _f('LLVMGetNextBasicBlock', P, P)
GetFirstInstruction = _f('LLVMGetFirstInstruction', P, P)
GetNextInstruction = _f('LLVMGetNextInstruction', P, P)
GetInstructionOpcode = _f('LLVMGetInstructionOpcode', i, P)
GetNumOperands = _f('LLVMGetNumOperands', i, P)
GetOperand = _f('LLVMGetOperand', P, P, u)
GetValueKind = _f('LLVMGetValueKind', i, P)
ValueIsBasicBlock = _f('LLVMValueIsBasicBlock', i, P)
ValueAsBasicBlock = _f('LLVMValueAsBasicBlock', P, P)
GetICmpPredicate = _f('LLVMGetICmpPredicate', i, P)
GetFCmpPredicate = _f('LLVMGetFCmpPredicate', i, P)
GetConstOpcode = _f('LLVMGetConstOpcode', i, P)
ConstIntGetZExtValue = _f('LLVMConstIntGetZExtValue', ull, P)
ConstRealGetDouble = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(i))
GetAggregateElement = _f('LLVMGetAggregateElement', P, P, u)
CountIncoming = _f('LLVMCountIncoming', u, P)
GetIncomingValue = _f('LLVMGetIncomingValue', P, P, u)
GetIncomingBlock = _f('LLVMGetIncomingBlock', P, P, u)
GetGEPSourceElementType = _f('LLVMGetGEPSourceElementType', P, P)
IsInBounds = _f('LLVMIsInBounds', i, P)
GetIndices = _f('LLVMGetIndices', C.POINTER(u), P)
GetNumIndices = _f('LLVMGetNumIndices', u, P)
GetCalledValue = _f('LLVMGetCalledValue', P, P)
GetCalledFunctionType = _f('LLVMGetCalledFunctionType', P, P)
GetNumArgOperands = _f('LLVMGetNumArgOperands', u, P)
GetNormalDest = _f('LLVMGetNormalDest', P, P)
GetUnwindDest = _f('LLVMGetUnwindDest', P, P)
GetSuccessor = _f('LLVMGetSuccessor', P, P, u)
GetNumSuccessors = _f('LLVMGetNumSuccessors', u, P)
GetNumClauses = _f('LLVMGetNumClauses', u, P)
GetClause = _f('LLVMGetClause', P, P, u)
IsCleanup = _f('LLVMIsCleanup', i, P)
GetAllocatedType = _f('LLVMGetAllocatedType', P, P)
GetAtomicRMWBinOp = _f('LLVMGetAtomicRMWBinOp', i, P)
GetNumMaskElements = _f('LLVMGetNumMaskElements', u, P)
GetMaskValue = _f('LLVMGetMaskValue', i, P, u)
GetDebugLocLine = _f('LLVMGetDebugLocLine', u, P)
GetDebugLocFilename = _f('LLVMGetDebugLocFilename', P, P, C.POINTER(u))
GetEnumKind = _f('LLVMGetEnumAttributeKindForName', u, s, C.c_size_t)
CreateEnumAttribute = _f('LLVMCreateEnumAttribute', P, P, u, C.c_uint64)
AddAttributeAtIndex = _f('LLVMAddAttributeAtIndex', None, P, u, P)
RemoveEnumAttributeAtIndex = _f('LLVMRemoveEnumAttributeAtIndex', None, P, u, u)
GetEnumAttributeAtIndex = _f('LLVMGetEnumAttributeAtIndex', P, P, u, u)
GetTypeAttributeValue = _f('LLVMGetTypeAttributeValue', P, P)
GetCallSiteEnumAttribute = _f('LLVMGetCallSiteEnumAttribute', P, P, u, u)
RunPasses = _f('LLVMRunPasses', P, P, s, P, P)
CreatePBO = _f('LLVMCreatePassBuilderOptions', P)
GetErrorMessage = _f('LLVMGetErrorMessage', s, P)
PrintValueToString = _f('LLVMPrintValueToString', P, P)
PrintTypeToString = _f('LLVMPrintTypeToString', P, P)
PrintModuleToFile = _f('LLVMPrintModuleToFile', i, P, s, C.POINTER(s))
IsConstant = _f('LLVMIsConstant', i, P)
GetNSW = _f('LLVMGetNSW', i, P)
GetExact = _f('LLVMGetExact', i, P)
SetLinkage = _f('LLVMSetLinkage', None, P, i)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
         11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}


class Unsupported(Exception):
    pass


def vname(v):
    n = C.c_size_t()
    p = GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode() if n.value else ''


def vstr(v):
    return C.cast(PrintValueToString(v), s).value.decode(errors='replace')


class Fn:
    __slots__ = ('name', 'params', 'blocks', 'ret', 'nregs', 'loops', 'order', 'byval', 'sret', 'names', 'allocas')


class Block:
    __slots__ = ('idx', 'phis', 'ins', 'preds')


class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        buf = P()
        msg = s()
        if MemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if ParseBC(self.ctx, buf, C.byref(m)):
            raise RuntimeError('cannot parse bitcode ' + path)
        self.m = m
        self.dl = GetModuleDataLayout(m)
        self._ty = {}
        self._fn = {}
        self.globals = {}
        self.funcs = {}
        self.refresh()

    def refresh(self):
        self.globals = {}
        g = GetFirstGlobal(self.m)
        while g:
            self.globals[vname(g)] = g
            g = GetNextGlobal(g)
        self.aliases = {}
        g = GetFirstAlias(self.m)
        while g:
            self.aliases[vname(g)] = AliasGetAliasee(g)
            g = GetNextAlias(g)
        self.funcs = {}
        f = GetFirstFunction(self.m)
        while f:
            self.funcs[vname(f)] = f
            f = GetNextFunction(f)

    def add_fn_attr(self, name, attr):
        k = GetEnumKind(attr.encode(), len(attr))
        AddAttributeAtIndex(self.funcs[name], 0xFFFFFFFF, CreateEnumAttribute(self.ctx, k, 0))

    def del_fn_attr(self, name, attr):
        k = GetEnumKind(attr.encode(), len(attr))
        RemoveEnumAttributeAtIndex(self.funcs[name], 0xFFFFFFFF, k)

    def run_passes(self, pipeline):
        e = RunPasses(self.m, pipeline.encode(), None, CreatePBO())
        if e:
            raise RuntimeError(GetErrorMessage(e))
        self.refresh()
        self._fn = {}

    def dump(self, path):
        PrintModuleToFile(self.m, path.encode(), None)

    # ---- types
    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            r = self._ty[t] = self._mkty(t)
        return r

    def _mkty(self, t):
        k = GetTypeKind(t)
        if k == 8:
            return ('i', GetIntTypeWidth(t))
        if k == 12:
            return 'ptr'
        if k == 3:
            return 'f64'
        if k == 2:
            return 'f32'
        if k == 0:
            return 'void'
        if k == 4:
            return 'f80'
        if k == 11:
            return ('arr', GetArrayLength2(t), self.ty(GetElementType(t)), self.size(t))
        if k == 10:
            if IsOpaqueStruct(t):
                return ('struct', (), (), 0)
            n = CountStructElementTypes(t)
            return ('struct', tuple(self.ty(StructGetTypeAtIndex(t, j)) for j in range(n)),
                    tuple(OffsetOfElement(self.dl, t, j) for j in range(n)), self.size(t))
        if k == 13:
            return ('vec', GetVectorSize(t), self.ty(GetElementType(t)), self.size(t))
        if k in (7, 16, 14):
            return 'other'
        return 'other'

    def size(self, t):
        return ABISizeOfType(self.dl, t)

    def tsize(self, ty):
        if ty == 'ptr' or ty == 'f64':
            return 8
        if ty == 'f32':
            return 4
        if ty == 'f80':
            return 16
        if ty[0] == 'i':
            b = (ty[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p
        return ty[3]

    def ssize(self, ty):
        """bytes touched by a load or store"""
        if isinstance(ty, tuple) and ty[0] == 'i':
            return (ty[1] + 7) // 8
        return self.tsize(ty)

    # ---- constants
    def const(self, v):
        k = GetValueKind(v)
        # kinds: 0 Argument 1 BasicBlock 2 MemoryUse.. 5 Function 6 GlobalAlias 7 GlobalIFunc 8 GlobalVariable
        # 9 BlockAddress 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 AggregateZero
        # 16 DataArray 17 DataVector 18 ConstantInt 19 ConstantFP 20 PointerNull 21 TokenNone 22 MetadataAsValue
        # 23 InlineAsm 24 Instruction 25 Poison 26 TargetNone
        if k == 5:
            return ('fn', vname(v))
        if k == 8:
            return ('g', vname(v))
        if k == 6:
            return self.const(AliasGetAliasee(v))
        if k == 18:
            t = self.ty(TypeOf(v))
            w = t[1]
            if w <= 64:
                return ('int', w, ConstIntGetZExtValue(v) & ((1 << w) - 1))
            return ('int', w, int(vstr(v).split()[-1]) & ((1 << w) - 1))
        if k == 19:
            t = self.ty(TypeOf(v))
            if t == 'f80':
                return ('fp80', vstr(v))
            lost = i()
            d = ConstRealGetDouble(v, C.byref(lost))
            if t == 'f32':
                return ('fp', 'f32', struct.unpack('<I', struct.pack('<f', d))[0])
            return ('fp', 'f64', struct.unpack('<Q', struct.pack('<d', d))[0])
        if k == 20:
            return ('null',)
        if k in (14, 25):
            return ('undef', self.ty(TypeOf(v)))
        if k == 15:
            return ('zero', self.ty(TypeOf(v)))
        if k in (11, 12, 13, 16, 17):
            t = self.ty(TypeOf(v))
            n = t[1] if t[0] != 'struct' else len(t[1])
            return ('agg', t, [self.const(GetAggregateElement(v, j)) for j in range(n)])
        if k == 10:
            op = OPC.get(GetConstOpcode(v))
            n = GetNumOperands(v)
            ops = [GetOperand(v, j) for j in range(n)]
            if op == 'gep':
                return ('cgep', self.const(ops[0]), self.gep_const(GetGEPSourceElementType(v), ops[1:]))
            return ('cexpr', op, self.ty(TypeOf(v)), [self.const(o) for o in ops],
                    IPRED.get(GetICmpPredicate(v)) if op == 'icmp' else None)
        if k == 22:
            return ('md',)
        if k == 23:
            return ('asm', vstr(v))
        raise Unsupported(f'constant kind {k}: {vstr(v)}')

    def gep_const(self, srct, idx):
        off = 0
        t = srct
        for n, ix in enumerate(idx):
            v = ConstIntGetZExtValue(ix)
            w = GetIntTypeWidth(TypeOf(ix))
            if v >> (w - 1) & 1:
                v -= 1 << w
            if n == 0:
                off += v * self.size(t)
            else:
                k = GetTypeKind(t)
                if k == 10:
                    off += OffsetOfElement(self.dl, t, v)
                    t = StructGetTypeAtIndex(t, v)
                else:
                    t = GetElementType(t)
                    off += v * self.size(t)
        return off

    # ---- functions
    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            f = self._fn[name] = self._translate(name)
        return f

    def has_body(self, name):
        f = self.funcs.get(name)
        return f is not None and not IsDeclaration(f)

    def _translate(self, name):
        v = self.funcs[name]
        fn = Fn()
        fn.name = name
        np = CountParams(v)
        regs = {}
        fn.params = []
        kbv = GetEnumKind(b'byval', 5)
        fn.byval = {}
        fn.names = {}
        fn.allocas = []
        for j in range(np):
            p = GetParam(v, j)
            fn.names[j] = vname(p)
            regs[p] = j
            fn.params.append(self.ty(TypeOf(p)))
            a = GetEnumAttributeAtIndex(v, j + 1, kbv)
            if a:
                fn.byval[j] = self.size(GetTypeAttributeValue(a))
        bbs = []
        b = GetFirstBasicBlock(v)
        while b:
            bbs.append(b)
            b = GetNextBasicBlock(b)
        bidx = {b: j for j, b in enumerate(bbs)}
        n = np
        raw = []
        for b in bbs:
            lst = []
            ins = GetFirstInstruction(b)
            while ins:
                regs[ins] = n
                n += 1
                lst.append(ins)
                ins = GetNextInstruction(ins)
            raw.append(lst)
        fn.nregs = n
        ret = None

        def op(x):
            r = regs.get(x)
            if r is not None:
                return ('r', r)
            return self.const(x)

        fn.blocks = []
        for bi, lst in enumerate(raw):
            B = Block()
            B.idx = bi
            B.phis = []
            B.ins = []
            B.preds = set()
            for ins in lst:
                o = OPC.get(GetInstructionOpcode(ins))
                d = regs[ins]
                t = self.ty(TypeOf(ins))
                nops = GetNumOperands(ins)
                if o == 'phi':
                    fn.names[d] = vname(ins)
                    inc = {}
                    for j in range(CountIncoming(ins)):
                        inc[bidx[GetIncomingBlock(ins, j)]] = op(GetIncomingValue(ins, j))
                    B.phis.append((d, t, inc))
                    continue
                line = GetDebugLocLine(ins)
                if o == 'br':
                    if nops == 1:
                        e = ('br', bidx[GetSuccessor(ins, 0)])
                    else:
                        e = ('cbr', op(GetOperand(ins, 0)), bidx[GetSuccessor(ins, 0)], bidx[GetSuccessor(ins, 1)])
                elif o == 'switch':
                    cases = []
                    for j in range(2, nops, 2):
                        cases.append((self.const(GetOperand(ins, j)), bidx[ValueAsBasicBlock(GetOperand(ins, j + 1))]))
                    e = ('switch', op(GetOperand(ins, 0)), cases, bidx[ValueAsBasicBlock(GetOperand(ins, 1))])
                elif o == 'ret':
                    e = ('ret', op(GetOperand(ins, 0)) if nops else None)
                elif o in ('call', 'invoke'):
                    cv = GetCalledValue(ins)
                    na = GetNumArgOperands(ins)
                    args = []
                    bvl = {}
                    for j in range(na):
                        a = GetOperand(ins, j)
                        args.append(op(a))
                        at = GetCallSiteEnumAttribute(ins, j + 1, kbv)
                        if at:
                            bvl[j] = self.size(GetTypeAttributeValue(at))
                    e = (o, d, t, op(cv), args, bvl,
                         (bidx[GetNormalDest(ins)], bidx[GetUnwindDest(ins)]) if o == 'invoke' else None, line)
                elif o == 'gep':
                    e = self._gep(ins, d, op)
                elif o == 'icmp':
                    e = ('icmp', d, IPRED[GetICmpPredicate(ins)], op(GetOperand(ins, 0)), op(GetOperand(ins, 1)),
                         self.ty(TypeOf(GetOperand(ins, 0))))
                elif o == 'fcmp':
                    e = ('fcmp', d, FPRED[GetFCmpPredicate(ins)], op(GetOperand(ins, 0)), op(GetOperand(ins, 1)))
                elif o == 'alloca':
                    fn.names[d] = vname(ins)
                    if bi == 0:
                        fn.allocas.append((d, t))
                    e = ('alloca', d, self.size(GetAllocatedType(ins)), op(GetOperand(ins, 0)))
                elif o == 'load':
                    e = ('load', d, t, op(GetOperand(ins, 0)), line)
                elif o == 'store':
                    e = ('store', op(GetOperand(ins, 0)), op(GetOperand(ins, 1)),
                         self.ty(TypeOf(GetOperand(ins, 0))), line)
                elif o in ('extractvalue', 'insertvalue'):
                    ni = GetNumIndices(ins)
                    ix = GetIndices(ins)
                    e = (o, d, t, [op(GetOperand(ins, j)) for j in range(nops)], [ix[j] for j in range(ni)])
                elif o == 'landingpad':
                    cl = []
                    for j in range(GetNumClauses(ins)):
                        c = GetClause(ins, j)
                        ct = self.ty(TypeOf(c))
                        cl.append(('filter' if ct != 'ptr' else 'catch', self.const(c)))
                    e = ('landingpad', d, t, cl, bool(IsCleanup(ins)))
                elif o == 'cmpxchg':
                    e = ('cmpxchg', d, [op(GetOperand(ins, j)) for j in range(3)], self.ty(TypeOf(GetOperand(ins, 1))), line)
                elif o == 'atomicrmw':
                    e = ('atomicrmw', d, RMW.get(GetAtomicRMWBinOp(ins)), [op(GetOperand(ins, j)) for j in range(2)], t, line)
                elif o == 'shufflevector':
                    e = ('shufflevector', d, t, [op(GetOperand(ins, j)) for j in range(2)],
                         [GetMaskValue(ins, j) for j in range(GetNumMaskElements(ins))])
                elif o in ('unreachable', 'fence'):
                    e = (o, line)
                elif o == 'resume':
                    e = ('resume', op(GetOperand(ins, 0)))
                else:
                    ex = bool(GetExact(ins)) if o in ('sdiv', 'udiv', 'ashr', 'lshr') else False
                    e = (o, d, t, [op(GetOperand(ins, j)) for j in range(nops)],
                         self.ty(TypeOf(GetOperand(ins, 0))) if nops else None, ex, line)
                B.ins.append(e)
            fn.blocks.append(B)
        for B in fn.blocks:
            for sx in succs(B):
                fn.blocks[sx].preds.add(B.idx)
        ft = GlobalGetValueType(v)
        fn.ret = self.ty(GetReturnType(ft))
        analyse_loops(fn)
        return fn

    def _gep(self, ins, d, op):
        """-> ('gep', d, base, const_off, [(scale, operand, width)])"""
        base = op(GetOperand(ins, 0))
        t = GetGEPSourceElementType(ins)
        off = 0
        var = []
        n = GetNumOperands(ins)
        for j in range(1, n):
            x = GetOperand(ins, j)
            c = None
            if GetValueKind(x) == 18:
                c = ConstIntGetZExtValue(x)
                w = GetIntTypeWidth(TypeOf(x))
                if c >> (w - 1) & 1:
                    c -= 1 << w
            if j == 1:
                sz = self.size(t)
            else:
                k = GetTypeKind(t)
                if k == 10:
                    off += OffsetOfElement(self.dl, t, c)
                    t = StructGetTypeAtIndex(t, c)
                    continue
                t = GetElementType(t)
                sz = self.size(t)
            if c is not None:
                off += c * sz
            else:
                var.append((sz, op(x)))
        return ('gep', d, base, off, var)


def succs(B):
    t = B.ins[-1]
    o = t[0]
    if o == 'br':
        return [t[1]]
    if o == 'cbr':
        return [t[2], t[3]]
    if o == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if o == 'invoke':
        return [t[6][0], t[6][1]]
    return []


def analyse_loops(fn):
    """block order such that loop bodies precede loop exits; natural loops with headers"""
    n = len(fn.blocks)
    sc = [list(dict.fromkeys(succs(b))) for b in fn.blocks]
    # dominators via simple iteration on RPO
    seen = [False] * n
    post = []
    st = [(0, iter(sc[0]))]
    seen[0] = True
    while st:
        b, it = st[-1]
        for x in it:
            if not seen[x]:
                seen[x] = True
                st.append((x, iter(sc[x])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: k for k, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in fn.blocks[b].preds:
                if p in idom and p in num:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for x in sc[b]:
            if dom(x, b):
                body = loops.setdefault(x, {x})
                st = [b]
                while st:
                    y = st.pop()
                    if y not in body:
                        body.add(y)
                        st.extend(p for p in fn.blocks[y].preds if p in num)
    fn.loops = loops
    # order: DFS postorder visiting loop-exits first so that, reversed, bodies come before exits
    inner = {}
    for b in rpo:
        hs = [h for h in loops if b in loops[h]]
        inner[b] = sorted(hs, key=lambda h: len(loops[h]))
    seen = set()
    post = []

    def key(b, x):
        # number of loops of b that x leaves: visit leaving edges first (they end up later in the order)
        return -sum(1 for h in inner[b] if x not in loops[h])

    def visit(b0):
        st = [(b0, iter(sorted(sc[b0], key=lambda x: key(b0, x))))]
        seen.add(b0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(sorted(sc[x], key=lambda y, x=x: key(x, y)))))
                    break
            else:
                post.append(b)
                st.pop()

    visit(0)
    order = post[::-1]
    fn.order = {b: k for k, b in enumerate(order)}
