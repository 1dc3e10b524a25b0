"""LLVM-18 bitcode reader (ctypes over libLLVM's C API).

Turns a linked module into plain Python objects that the symbolic executor
interprets.  Nothing in here knows about properties: it is a pure decoder.
"""
import ctypes as C
import ctypes.util
import glob
import struct

_l = None


def _lib():
    global _l
    if _l is not None:
        return _l
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"):
        try:
            _l = C.CDLL(p)
            break
        except OSError:
            continue
    if _l is None:
        raise RuntimeError("libLLVM-18 not found")
    vp, cp, u, ull, i = C.c_void_p, C.c_char_p, C.c_uint, C.c_ulonglong, C.c_int
    sz = C.c_size_t

    def d(name, res, *args):
        f = getattr(_l, name)
        f.restype = res
        f.argtypes = list(args)
    d("LLVMContextCreate", vp)
    d("LLVMCreateMemoryBufferWithContentsOfFile", i, cp, C.POINTER(vp), C.POINTER(cp))
    d("LLVMParseIRInContext", i, vp, vp, C.POINTER(vp), C.POINTER(cp))
    d("LLVMGetModuleDataLayout", vp, vp)
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal", "LLVMGetNextGlobal",
              "LLVMGetFirstGlobalAlias", "LLVMGetNextGlobalAlias", "LLVMAliasGetAliasee",
              "LLVMGetInitializer", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
              "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetElementType",
              "LLVMGetGEPSourceElementType", "LLVMGetAllocatedType", "LLVMGetCalledValue",
              "LLVMGetNormalDest", "LLVMGetUnwindDest", "LLVMGetCondition", "LLVMGetSwitchDefaultDest",
              "LLVMGlobalGetValueType", "LLVMGetCalledFunctionType", "LLVMGetReturnType",
              "LLVMValueAsBasicBlock", "LLVMGetInstructionParent"):
        d(n, vp, vp)
    d("LLVMGetValueName2", vp, vp, C.POINTER(sz))
    d("LLVMCountParams", u, vp)
    d("LLVMGetParam", vp, vp, u)
    d("LLVMGetInstructionOpcode", i, vp)
    d("LLVMGetConstOpcode", i, vp)
    d("LLVMGetNumOperands", i, vp)
    d("LLVMGetOperand", vp, vp, u)
    d("LLVMGetTypeKind", i, vp)
    d("LLVMGetIntTypeWidth", u, vp)
    d("LLVMGetArrayLength2", ull, vp)
    d("LLVMGetVectorSize", u, vp)
    d("LLVMCountStructElementTypes", u, vp)
    d("LLVMStructGetTypeAtIndex", vp, vp, u)
    d("LLVMGetValueKind", i, vp)
    d("LLVMConstIntGetZExtValue", ull, vp)
    d("LLVMConstRealGetDouble", C.c_double, vp, C.POINTER(i))
    d("LLVMABISizeOfType", ull, vp, vp)
    d("LLVMStoreSizeOfType", ull, vp, vp)
    d("LLVMOffsetOfElement", ull, vp, vp, u)
    d("LLVMGetICmpPredicate", i, vp)
    d("LLVMGetFCmpPredicate", i, vp)
    d("LLVMGetNumIndices", u, vp)
    d("LLVMGetIndices", C.POINTER(u), vp)
    d("LLVMGetNumArgOperands", u, vp)
    d("LLVMGetNumSuccessors", u, vp)
    d("LLVMGetSuccessor", vp, vp, u)
    d("LLVMIsConditional", i, vp)
    d("LLVMCountIncoming", u, vp)
    d("LLVMGetIncomingValue", vp, vp, u)
    d("LLVMGetIncomingBlock", vp, vp, u)
    d("LLVMGetNumClauses", u, vp)
    d("LLVMGetClause", vp, vp, u)
    d("LLVMIsCleanup", i, vp)
    d("LLVMGetNumMaskElements", u, vp)
    d("LLVMGetMaskValue", i, vp, u)
    d("LLVMGetAggregateElement", vp, vp, u)
    d("LLVMIsNull", i, vp)
    d("LLVMIsUndef", i, vp)
    d("LLVMIsPoison", i, vp)
    d("LLVMGetEnumAttributeKindForName", u, cp, sz)
    d("LLVMGetEnumAttributeAtIndex", vp, vp, u, u)
    d("LLVMGetCallSiteEnumAttribute", vp, vp, u, u)
    d("LLVMGetTypeAttributeValue", vp, vp)
    d("LLVMPrintValueToString", vp, vp)
    d("LLVMIsGlobalConstant", i, vp)
    d("LLVMIsDeclaration", i, vp)
    d("LLVMIsABasicBlock", vp, vp)
    d("LLVMGetAtomicRMWBinOp", i, vp)
    return _l


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 66: "fneg", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]


class Type:
    __slots__ = ("kind", "bits", "size", "store", "elem", "n", "fields", "offs")

    def __repr__(self):
        return "%s%s" % (self.kind, self.bits or "")


class Const:
    __slots__ = ("kind", "ty", "val")
    # kind: int float null undef zero agg global func expr block

    def __init__(self, kind, ty, val):
        self.kind, self.ty, self.val = kind, ty, val


class Reg:
    __slots__ = ("idx",)

    def __init__(self, idx):
        self.idx = idx


class Instr:
    __slots__ = ("op", "ty", "dst", "ops", "x", "y", "z", "ref")


class Function:
    def __init__(self, name, ref):
        self.name = name
        self.ref = ref
        self.decl = True
        self.params = []
        self.byval = {}
        self.blocks = None
        self.nregs = 0
        self.loaded = False
        self.code = None
        self.ninstr = 0

    def __repr__(self):
        return "<fn %s>" % self.name


class Global:
    def __init__(self, name, ref):
        self.name, self.ref = name, ref
        self.size = 0
        self.init = None
        self.const = False


class Module:
    def __init__(self, path):
        L = _lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.consts = {}
        self.functions = {}
        self.globals = {}
        self.fref = {}
        self.gref = {}
        self.byval_kind = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Function(self.name(f), f)
            fn.decl = bool(L.LLVMIsDeclaration(f))
            self.functions[fn.name] = fn
            self.fref[f] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            G = Global(self.name(g), g)
            t = self.type(L.LLVMGlobalGetValueType(g))
            G.size = t.size
            G.const = bool(L.LLVMIsGlobalConstant(g))
            self.globals[G.name] = G
            self.gref[g] = G
            g = L.LLVMGetNextGlobal(g)
        self.alias = {}
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.alias[a] = L.LLVMAliasGetAliasee(a)
            t = self.alias[a]
            if t in self.fref:
                self.functions[self.name(a)] = self.fref[t]
            a = L.LLVMGetNextGlobalAlias(a)

    def name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def text(self, v):
        return C.string_at(self.L.LLVMPrintValueToString(v)).decode()

    def type(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        r = Type()
        r.bits = r.elem = r.n = r.fields = r.offs = None
        r.size = r.store = 0
        if k == 0:
            r.kind = "void"
        elif k == 2:
            r.kind, r.bits = "float", 32
        elif k == 3:
            r.kind, r.bits = "float", 64
        elif k == 4:
            r.kind, r.bits = "float", 80
        elif k == 7:
            r.kind = "label"
        elif k == 8:
            r.kind, r.bits = "int", L.LLVMGetIntTypeWidth(t)
        elif k == 9:
            r.kind = "func"
        elif k == 10:
            r.kind = "struct"
            n = L.LLVMCountStructElementTypes(t)
            r.fields = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r.n = n
        elif k == 11:
            r.kind = "array"
            r.elem = self.type(L.LLVMGetElementType(t))
            r.n = L.LLVMGetArrayLength2(t)
        elif k == 12:
            r.kind, r.bits = "ptr", 64
        elif k == 13:
            r.kind = "vector"
            r.elem = self.type(L.LLVMGetElementType(t))
            r.n = L.LLVMGetVectorSize(t)
        elif k == 14:
            r.kind = "meta"
        else:
            r.kind = "other%d" % k
        if r.kind not in ("void", "label", "func", "meta") and not r.kind.startswith("other"):
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.store = L.LLVMStoreSizeOfType(self.dl, t)
            if r.kind == "struct":
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(r.n)]
        self.types[t] = r
        return r

    # ---------------------------------------------------------------- consts
    def const(self, v):
        c = self.consts.get(v)
        if c is not None:
            return c
        L = self.L
        k = L.LLVMGetValueKind(v)
        # LLVMValueKind numbering (LLVM 18)
        # 0 Argument 1 BasicBlock 2 MemoryUse 3 MemoryDef 4 MemoryPhi 5 Function 6 GlobalAlias 7 GlobalIFunc
        # 8 GlobalVariable 9 BlockAddress 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector
        # 14 Undef 15 AggregateZero 16 ConstantDataArray 17 ConstantDataVector 18 ConstantInt 19 ConstantFP
        # 20 ConstantPointerNull 21 TokenNone 22 MetadataAsValue 23 InlineAsm 24 Instruction 25 Poison
        ty = self.type(L.LLVMTypeOf(v)) if k != 1 else None
        if k == 5:
            c = Const("func", ty, self.fref[v])
        elif k == 6:
            c = self.const(self.alias[v])
        elif k == 8:
            c = Const("global", ty, self.gref[v])
        elif k == 18:
            if ty.bits > 64:
                txt = self.text(v)
                c = Const("int", ty, int(txt.split()[-1]) & ((1 << ty.bits) - 1))
            elif ty.kind == "vector":
                c = Const("agg", ty, [Const("int", ty.elem, L.LLVMConstIntGetZExtValue(v))] * ty.n)
            else:
                c = Const("int", ty, L.LLVMConstIntGetZExtValue(v))
        elif k == 19:
            lo = C.c_int()
            if ty.bits == 80:
                c = Const("float", ty, L.LLVMConstRealGetDouble(v, C.byref(lo)))
            else:
                c = Const("float", ty, L.LLVMConstRealGetDouble(v, C.byref(lo)))
        elif k == 20:
            c = Const("null", ty, 0)
        elif k in (14, 25) or "poison" == self.text(v).split()[-1]:
            c = Const("undef", ty, None)
        elif k == 15:
            c = Const("zero", ty, None)
        elif k in (11, 12, 13, 16, 17):
            n = ty.n
            c = Const("agg", ty, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        elif k == 10:
            op = OPC[L.LLVMGetConstOpcode(v)]
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            extra = None
            if op == "gep":
                extra = self.type(L.LLVMGetGEPSourceElementType(v))
            elif op == "icmp":
                extra = ICMP[L.LLVMGetICmpPredicate(v)]
            c = Const("expr", ty, (op, ops, extra))
        elif k == 22:
            c = Const("meta", ty, None)
        else:
            c = Const("other", ty, self.text(v))
        self.consts[v] = c
        return c

    def ginit(self, G):
        if G.init is None:
            iv = self.L.LLVMGetInitializer(G.ref)
            G.init = self.const(iv) if iv else False
        return G.init

    # -------------------------------------------------------------- functions
    def load(self, fn):
        """Decode the body of fn."""
        if fn.loaded:
            return
        fn.loaded = True
        L = self.L
        regs = {}
        np = L.LLVMCountParams(fn.ref)
        for i in range(np):
            p = L.LLVMGetParam(fn.ref, i)
            regs[p] = i
            a = L.LLVMGetEnumAttributeAtIndex(fn.ref, i + 1, self.byval_kind)
            if a:
                fn.byval[i] = self.type(L.LLVMGetTypeAttributeValue(a))
        fn.params = list(range(np))
        nreg = np
        blocks = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(fn.ref)
        ins = []
        while b:
            bidx[b] = len(blocks)
            blocks.append([])
            cur = []
            k = L.LLVMGetFirstInstruction(b)
            while k:
                cur.append(k)
                regs[k] = nreg
                nreg += 1
                k = L.LLVMGetNextInstruction(k)
            ins.append(cur)
            b = L.LLVMGetNextBasicBlock(b)
        fn.nregs = nreg

        def val(v):
            r = regs.get(v)
            if r is not None:
                return Reg(r)
            return self.const(v)
        for bi, cur in enumerate(ins):
            out = blocks[bi]
            for k in cur:
                I = Instr()
                opn = L.LLVMGetInstructionOpcode(k)
                I.op = OPC.get(opn, "op%d" % opn)
                I.ty = self.type(L.LLVMTypeOf(k))
                I.dst = regs[k]
                I.ref = k
                I.x = I.y = I.z = None
                I.ops = ()
                op = I.op
                if op in ("call", "invoke"):
                    n = L.LLVMGetNumArgOperands(k)
                    I.ops = tuple(val(L.LLVMGetOperand(k, i)) for i in range(n))
                    I.x = val(L.LLVMGetCalledValue(k))
                    if op == "invoke":
                        I.y = (bidx[L.LLVMGetNormalDest(k)], bidx[L.LLVMGetUnwindDest(k)])
                    bv = {}
                    for i in range(n):
                        a = L.LLVMGetCallSiteEnumAttribute(k, i + 1, self.byval_kind)
                        if a:
                            bv[i] = self.type(L.LLVMGetTypeAttributeValue(a))
                    I.z = bv
                elif op == "br":
                    ns = L.LLVMGetNumSuccessors(k)
                    I.x = tuple(bidx[L.LLVMGetSuccessor(k, i)] for i in range(ns))
                    if L.LLVMIsConditional(k):
                        I.ops = (val(L.LLVMGetCondition(k)),)
                elif op == "switch":
                    no = L.LLVMGetNumOperands(k)
                    I.ops = (val(L.LLVMGetOperand(k, 0)),)
                    I.x = bidx[L.LLVMGetOperand(k, 1)]
                    I.y = [(self.const(L.LLVMGetOperand(k, i)).val, bidx[L.LLVMGetOperand(k, i + 1)])
                           for i in range(2, no, 2)]
                elif op == "phi":
                    I.x = {bidx[L.LLVMGetIncomingBlock(k, i)]: val(L.LLVMGetIncomingValue(k, i))
                           for i in range(L.LLVMCountIncoming(k))}
                else:
                    n = L.LLVMGetNumOperands(k)
                    if op != "landingpad":
                        I.ops = tuple(val(L.LLVMGetOperand(k, i)) for i in range(n))
                    if op in ("icmp",):
                        I.x = ICMP[L.LLVMGetICmpPredicate(k)]
                        I.y = self.type(L.LLVMTypeOf(L.LLVMGetOperand(k, 0)))
                    elif op == "fcmp":
                        I.x = FCMP[L.LLVMGetFCmpPredicate(k)]
                        I.y = self.type(L.LLVMTypeOf(L.LLVMGetOperand(k, 0)))
                    elif op == "gep":
                        I.x = self.type(L.LLVMGetGEPSourceElementType(k))
                    elif op == "alloca":
                        I.x = self.type(L.LLVMGetAllocatedType(k))
                    elif op in ("extractvalue", "insertvalue"):
                        ni = L.LLVMGetNumIndices(k)
                        p = L.LLVMGetIndices(k)
                        I.x = [p[i] for i in range(ni)]
                    elif op == "landingpad":
                        I.x = [self.const(L.LLVMGetClause(k, i)) for i in range(L.LLVMGetNumClauses(k))]
                        I.y = bool(L.LLVMIsCleanup(k))
                    elif op == "shufflevector":
                        I.x = [L.LLVMGetMaskValue(k, i) for i in range(L.LLVMGetNumMaskElements(k))]
                        I.y = self.type(L.LLVMTypeOf(L.LLVMGetOperand(k, 0)))
                    elif op == "store":
                        I.x = self.type(L.LLVMTypeOf(L.LLVMGetOperand(k, 0)))
                    elif op == "atomicrmw":
                        I.x = L.LLVMGetAtomicRMWBinOp(k)
                        I.y = self.type(L.LLVMTypeOf(L.LLVMGetOperand(k, 1)))
                    elif op in ("trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc",
                                "fpext", "ptrtoint", "inttoptr", "bitcast"):
                        I.x = self.type(L.LLVMTypeOf(L.LLVMGetOperand(k, 0)))
                out.append(I)
                fn.ninstr += 1
        fn.blocks = blocks
