"""LLVM IR -> plain Python objects (ctypes over libLLVM-18, no build step).

The source in /repo is compiled with clang-18 at -O0 (debug info on), cleaned
with `opt -passes=sroa` (locals become SSA values, nothing is inlined, folded
across functions or reordered) and loaded here.  Every analysis of this
framework works on these objects, never on source text.
"""
import ctypes, os, subprocess, tempfile, sys, hashlib

REPO = os.environ.get("TGSA_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
OPT = "/usr/bin/opt-18"
LINK = "/usr/bin/llvm-link-18"
for alt, name in ((CLANG, "clang-18"),):
    pass


class AnalysisBroken(Exception):
    """The analysis lost its anchor (exit code 3, never a pass or violation)."""


def _tool(*cands):
    for c in cands:
        if os.path.exists(c):
            return c
    return cands[-1]


CLANG = _tool("/usr/bin/clang-18", "/usr/lib/llvm-18/bin/clang")
OPT = _tool("/usr/bin/opt-18", "/usr/lib/llvm-18/bin/opt")
LINK = _tool("/usr/bin/llvm-link-18", "/usr/lib/llvm-18/bin/llvm-link")
LIBLLVM = _tool("/usr/lib/llvm-18/lib/libLLVM-18.so",
                "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
                "/usr/lib/llvm-18/lib/libLLVM.so.1")

L = None


def _load():
    global L
    if L is not None:
        return
    L = ctypes.CDLL(LIBLLVM)
    vp, cp, u, ull, ci = (ctypes.c_void_p, ctypes.c_char_p, ctypes.c_uint,
                          ctypes.c_ulonglong, ctypes.c_int)
    def d(name, res, *args):
        f = getattr(L, name)
        f.restype = res
        f.argtypes = list(args)
    d("LLVMContextCreate", vp)
    d("LLVMCreateMemoryBufferWithContentsOfFile", ci, cp,
      ctypes.POINTER(vp), ctypes.POINTER(cp))
    d("LLVMParseIRInContext", ci, vp, vp, ctypes.POINTER(vp),
      ctypes.POINTER(cp))
    for n in ("LLVMGetFirstFunction", "LLVMGetFirstGlobal",
              "LLVMGetFirstBasicBlock", "LLVMGetFirstInstruction",
              "LLVMGetNextFunction", "LLVMGetNextGlobal",
              "LLVMGetNextBasicBlock", "LLVMGetNextInstruction",
              "LLVMTypeOf", "LLVMGetInitializer", "LLVMGetCalledValue",
              "LLVMGlobalGetValueType", "LLVMGetGEPSourceElementType",
              "LLVMGetElementType", "LLVMGetModuleDataLayout",
              "LLVMGetReturnType", "LLVMGetAllocatedType",
              "LLVMGetInstructionParent", "LLVMGetFirstParam",
              "LLVMGetNextParam", "LLVMGetSwitchDefaultDest",
              "LLVMGetCalledFunctionType", "LLVMGetSubprogram"):
        d(n, vp, vp)
    for n in ("LLVMGetNumOperands", "LLVMGetInstructionOpcode",
              "LLVMGetTypeKind", "LLVMGetICmpPredicate",
              "LLVMGetFCmpPredicate", "LLVMGetLinkage",
              "LLVMIsGlobalConstant", "LLVMGetOrdering",
              "LLVMGetAtomicRMWBinOp", "LLVMIsFunctionVarArg",
              "LLVMIsNull", "LLVMIsUndef", "LLVMIsConstant",
              "LLVMIsDeclaration", "LLVMGetVolatile",
              "LLVMIsThreadLocal", "LLVMGetConstOpcode",
              "LLVMIsConstantString"):
        d(n, ci, vp)
    for n in ("LLVMGetIntTypeWidth", "LLVMCountParams",
              "LLVMGetNumSuccessors", "LLVMCountIncoming",
              "LLVMGetNumArgOperands", "LLVMCountStructElementTypes",
              "LLVMGetArrayLength", "LLVMGetDebugLocLine",
              "LLVMDISubprogramGetLine", "LLVMGetNumIndices"):
        d(n, u, vp)
    d("LLVMGetArrayLength2", ctypes.c_uint64, vp)
    for n in ("LLVMGetOperand", "LLVMGetSuccessor", "LLVMGetIncomingValue",
              "LLVMGetIncomingBlock", "LLVMStructGetTypeAtIndex"):
        d(n, vp, vp, u)
    d("LLVMGetElementAsConstant", vp, vp, u)
    d("LLVMGetAggregateElement", vp, vp, u)
    d("LLVMGetIndices", ctypes.POINTER(u), vp)
    d("LLVMConstIntGetZExtValue", ull, vp)
    d("LLVMConstIntGetSExtValue", ctypes.c_longlong, vp)
    d("LLVMConstRealGetDouble", ctypes.c_double, vp, ctypes.POINTER(ci))
    d("LLVMGetValueName2", cp, vp, ctypes.POINTER(ctypes.c_size_t))
    d("LLVMGetStructName", cp, vp)
    d("LLVMGetDebugLocFilename", cp, vp, ctypes.POINTER(u))
    d("LLVMABISizeOfType", ull, vp, vp)
    d("LLVMStoreSizeOfType", ull, vp, vp)
    d("LLVMOffsetOfElement", ull, vp, vp, u)
    for n in ("ConstantInt", "ConstantPointerNull", "UndefValue",
              "ConstantFP", "GlobalVariable", "Function", "ConstantExpr",
              "ConstantAggregateZero", "Argument", "Instruction",
              "BasicBlock", "ConstantArray", "ConstantStruct",
              "ConstantDataArray", "ConstantDataSequential", "PoisonValue",
              "InlineAsm", "MetadataAsValue", "GlobalAlias",
              "ConstantVector", "ConstantDataVector"):
        try:
            d("LLVMIsA" + n, vp, vp)
        except AttributeError:
            pass
    d("LLVMGetMetadata", vp, vp, u)
    d("LLVMGetMDKindIDInContext", u, vp, cp, u)
    d("LLVMGetMDNodeNumOperands", u, vp)
    d("LLVMGetMDNodeOperands", None, vp, ctypes.POINTER(vp))
    d("LLVMGetMDString", cp, vp, ctypes.POINTER(u))
    d("LLVMGetAsString", cp, vp, ctypes.POINTER(ctypes.c_size_t))
    d("LLVMPrintValueToString", cp, vp)


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke",
       7: "unreachable", 67: "callbr", 66: "fneg", 8: "add", 9: "fadd",
       10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext",
       33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp",
       44: "phi", 45: "call", 46: "select", 49: "va_arg",
       50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg",
       57: "atomicrmw", 58: "resume", 59: "landingpad", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
        38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole",
        6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt", 11: "uge",
        12: "ult", 13: "ule", 14: "une", 15: "true"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor"}
ORD = {0: "notatomic", 1: "unordered", 2: "monotonic", 4: "acquire",
       5: "release", 6: "acq_rel", 7: "seq_cst"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80",
      5: "fp128", 7: "label", 8: "int", 9: "func", 10: "struct", 11: "array",
      12: "ptr", 13: "vector", 14: "metadata"}

# Operands are tuples:
#  ('r', regid)            SSA register of the enclosing function
#  ('i', width, value)     integer constant (unsigned)
#  ('null',)               null pointer
#  ('undef', width)        undef / poison
#  ('f', kind, value)      float constant
#  ('g', name, offset)     address of global variable + constant byte offset
#  ('fn', name)            function address
#  ('agg', ...)            other constant (aggregates)


class Ty:
    """kind: void,int,float,double,x86_fp80,ptr,struct,array,vector,func."""
    __slots__ = ("kind", "bits", "size", "name", "elems", "offs", "count")

    def __init__(s, kind, bits=0, size=0, name=None, elems=None, offs=None,
                 count=0):
        s.kind, s.bits, s.size, s.name = kind, bits, size, name
        s.elems, s.offs, s.count = elems, offs, count

    def __repr__(s):
        return f"{s.name or s.kind}{s.bits or ''}"


class Inst:
    __slots__ = ("op", "id", "ty", "ops", "line", "file", "block", "idx",
                 "pred", "callee", "args", "succs", "incoming", "cases",
                 "gep", "ordering", "rmw", "fn", "volatile", "aty", "tbaa",
                 "indices", "elty", "inlined")

    def __repr__(s):
        return f"<{s.op} %{s.id} {s.ops} @{s.line}>"


class Block:
    __slots__ = ("id", "insts", "fn", "succs", "preds", "name")

    def __repr__(s):
        return f"<bb{s.id} {s.fn.name}>"


class Func:
    __slots__ = ("name", "args", "argtys", "blocks", "ret", "decl", "line",
                 "insts", "vararg", "linkage", "mod", "_cache", "nregs",
                 "file")

    def __repr__(s):
        return f"<fn {s.name}>"


class Global:
    __slots__ = ("name", "const", "ty", "init", "linkage", "tls", "raw")


class Module:
    def __init__(s):
        s.funcs = {}
        s.globals = {}
        s.tag = ""
        s.srcs = []

    def defined(s):
        return [f for f in s.funcs.values() if not f.decl]


class _Loader:
    def __init__(self, path):
        _load()
        self.ctx = L.LLVMContextCreate()
        buf = ctypes.c_void_p()
        err = ctypes.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(
                path.encode(), ctypes.byref(buf), ctypes.byref(err)):
            raise AnalysisBroken("cannot read bitcode " + path)
        m = ctypes.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, ctypes.byref(m),
                                  ctypes.byref(err)):
            raise AnalysisBroken("cannot parse bitcode %s" % err.value)
        self.m = m.value
        self.dl = L.LLVMGetModuleDataLayout(self.m)
        self.types = {}
        self.tb = {}

    def ty(self, t):
        r = self.types.get(t)
        if r:
            return r
        k = TK.get(L.LLVMGetTypeKind(t), "other")
        if k == "int":
            b = L.LLVMGetIntTypeWidth(t)
            r = Ty("int", b, L.LLVMABISizeOfType(self.dl, t))
        elif k in ("float", "double", "x86_fp80", "fp128", "half"):
            sz = L.LLVMABISizeOfType(self.dl, t)
            r = Ty(k, {"float": 32, "double": 64, "half": 16}.get(k, 80), sz)
        elif k == "ptr":
            r = Ty("ptr", 64, 8)
        elif k == "struct":
            n = L.LLVMCountStructElementTypes(t)
            nm = L.LLVMGetStructName(t)
            r = Ty("struct", name=nm.decode() if nm else None)
            self.types[t] = r
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i))
                       for i in range(n)]
            try:
                r.size = L.LLVMABISizeOfType(self.dl, t)
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i)
                          for i in range(n)]
            except Exception:
                pass
        elif k == "array":
            e = self.ty(L.LLVMGetElementType(t))
            c = L.LLVMGetArrayLength2(t)
            r = Ty("array", elems=[e], count=c, size=e.size * c)
        elif k == "vector":
            r = Ty("vector", size=L.LLVMABISizeOfType(self.dl, t),
                   elems=[self.ty(L.LLVMGetElementType(t))])
        else:
            r = Ty(k)
        self.types[t] = r
        return r

    def tbaa(self, i):
        """(record name, offset) of the access, when clang recorded it"""
        k = L.LLVMGetMDKindIDInContext(self.ctx, b"tbaa", 4)
        m = L.LLVMGetMetadata(i, k)
        if not m:
            return None
        r = self.tb.get(m)
        if r is None and m not in self.tb:
            a = self.mdops(m)
            if len(a) == 3 and a[0]:
                n = ctypes.c_uint()
                b = self.mdops(a[0])
                s = L.LLVMGetMDString(b[0], ctypes.byref(n)) if b else None
                r = (s[:n.value].decode(), L.LLVMConstIntGetZExtValue(a[2])) \
                    if s else None
            self.tb[m] = r
        return r

    def mdops(self, m):
        n = L.LLVMGetMDNodeNumOperands(m)
        a = (ctypes.c_void_p * n)()
        L.LLVMGetMDNodeOperands(m, a)
        return list(a)

    def name(self, v):
        n = ctypes.c_size_t()
        s = L.LLVMGetValueName2(v, ctypes.byref(n))
        return s.decode() if s else ""

    def gep_parts(self, v, regs):
        """(base operand, const offset, [(operand, scale)], [field path])"""
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        n = L.LLVMGetNumOperands(v)
        base = self.operand(L.LLVMGetOperand(v, 0), regs)
        off = 0
        var = []
        cur = t
        path = []
        for i in range(1, n):
            o = self.operand(L.LLVMGetOperand(v, i), regs)
            if i == 1:
                sz = t.size
            elif cur.kind == "struct":
                idx = o[2]
                off += cur.offs[idx]
                path.append((cur.name, idx))
                cur = cur.elems[idx]
                continue
            elif cur.kind in ("array", "vector"):
                cur = cur.elems[0]
                sz = cur.size
            else:
                raise AnalysisBroken("gep type")
            if o[0] == "i":
                val = o[2]
                if val >= 1 << (o[1] - 1):
                    val -= 1 << o[1]
                off += sz * val
            else:
                var.append((o, sz))
        return base, off, var, path, t

    def operand(self, v, regs):
        r = regs.get(v)
        if r is not None:
            return ("r", r)
        if L.LLVMIsAConstantInt(v):
            w = self.ty(L.LLVMTypeOf(v)).bits
            x = (L.LLVMConstIntGetZExtValue(v) if w <= 64 else 0)
            return ("i", w, x & ((1 << w) - 1))
        if L.LLVMIsAConstantPointerNull(v):
            return ("null",)
        if L.LLVMIsAUndefValue(v):
            return ("undef", self.ty(L.LLVMTypeOf(v)).bits)
        if L.LLVMIsAConstantFP(v):
            li = ctypes.c_int()
            return ("f", self.ty(L.LLVMTypeOf(v)).kind,
                    L.LLVMConstRealGetDouble(v, ctypes.byref(li)))
        if L.LLVMIsAFunction(v):
            return ("fn", self.name(v))
        if L.LLVMIsAGlobalVariable(v):
            return ("g", self.name(v), 0)
        if L.LLVMIsAConstantExpr(v):
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                base, off, var, _, _ = self.gep_parts(v, regs)
                if base[0] == "g" and not var:
                    return ("g", base[1], base[2] + off)
            elif op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"):
                return self.operand(L.LLVMGetOperand(v, 0), regs)
            return ("constexpr",)
        if L.LLVMIsAConstantAggregateZero(v):
            return ("zero", self.ty(L.LLVMTypeOf(v)))
        if L.LLVMGetTypeKind(L.LLVMTypeOf(v)) == 14:
            return ("meta",)
        if L.LLVMGetTypeKind(L.LLVMTypeOf(v)) == 7:
            return ("bb", v)
        if L.LLVMIsAConstantStruct(v) or L.LLVMIsAConstantArray(v) or \
                L.LLVMIsAConstantDataSequential(v):
            t = self.ty(L.LLVMTypeOf(v))
            n = len(t.elems) if t.kind == "struct" else t.count
            if t.kind in ("array",) and t.elems[0].kind == "int" and \
                    t.elems[0].bits == 8 and \
                    L.LLVMIsAConstantDataSequential(v):
                ln = ctypes.c_size_t()
                L.LLVMGetAsString.restype = ctypes.c_void_p
                p = L.LLVMGetAsString(v, ctypes.byref(ln))
                return ("bytes", ctypes.string_at(p, ln.value))
            return ("agg", t, [self.operand(L.LLVMGetAggregateElement(v, i),
                                            regs) for i in range(n)])
        if L.LLVMIsAInlineAsm(v):
            return ("asm",)
        return ("other",)

    def load(self):
        mod = Module()
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            G = Global()
            G.name = self.name(g)
            G.const = bool(L.LLVMIsGlobalConstant(g))
            G.ty = self.ty(L.LLVMGlobalGetValueType(g))
            G.linkage = L.LLVMGetLinkage(g)
            G.tls = bool(L.LLVMIsThreadLocal(g))
            init = None if L.LLVMIsDeclaration(g) else L.LLVMGetInitializer(g)
            G.init = self.operand(init, {}) if init else None
            mod.globals[G.name] = G
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.m)
        while f:
            self.func(f, mod)
            f = L.LLVMGetNextFunction(f)
        return mod

    def func(self, f, mod):
        F = Func()
        F.name = self.name(f)
        F.mod = mod
        F._cache = {}
        F.linkage = L.LLVMGetLinkage(f)
        fty = L.LLVMGlobalGetValueType(f)
        F.ret = self.ty(L.LLVMGetReturnType(fty))
        F.vararg = bool(L.LLVMIsFunctionVarArg(fty))
        F.decl = bool(L.LLVMIsDeclaration(f))
        F.blocks, F.insts, F.args, F.argtys = [], [], [], []
        F.file = None
        mod.funcs[F.name] = F
        sp = L.LLVMGetSubprogram(f)
        F.line = L.LLVMDISubprogramGetLine(sp) if sp else 0
        regs = {}
        p = L.LLVMGetFirstParam(f)
        nid = 0
        while p:
            regs[p] = nid
            F.args.append(nid)
            F.argtys.append(self.ty(L.LLVMTypeOf(p)))
            nid += 1
            p = L.LLVMGetNextParam(p)
        if F.decl:
            F.nregs = nid
            return
        bbs = {}
        raw = []
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            B = Block()
            B.id = len(F.blocks)
            B.fn = F
            B.insts, B.succs, B.preds = [], [], []
            bbs[b] = B
            F.blocks.append(B)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                raw.append((B, i))
                regs[i] = nid
                nid += 1
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        F.nregs = nid
        fl = ctypes.c_uint()
        for B, i in raw:
            op = OPC.get(L.LLVMGetInstructionOpcode(i), "?")
            if op == "call":
                cv = L.LLVMGetCalledValue(i)
                if L.LLVMIsAFunction(cv) and \
                        self.name(cv).startswith("llvm.dbg."):
                    continue
            I = Inst()
            I.op = op
            I.id = regs[i]
            I.ty = self.ty(L.LLVMTypeOf(i))
            I.fn = F
            I.block = B
            I.line = L.LLVMGetDebugLocLine(i)
            nm = L.LLVMGetDebugLocFilename(i, ctypes.byref(fl))
            I.file = os.path.basename(nm[:fl.value].decode()) if nm else None
            if I.file and not F.file:
                F.file = I.file
            I.pred = I.callee = I.args = I.gep = I.ordering = I.rmw = None
            I.succs, I.incoming, I.cases, I.aty, I.indices = \
                [], None, None, None, None
            I.volatile = False
            I.elty = I.tbaa = None
            if op in ("load", "store"):
                I.tbaa = self.tbaa(i)
            n = L.LLVMGetNumOperands(i)
            if op == "call":
                cv = L.LLVMGetCalledValue(i)
                I.callee = self.operand(cv, regs)
                na = L.LLVMGetNumArgOperands(i)
                I.args = [self.operand(L.LLVMGetOperand(i, k), regs)
                          for k in range(na)]
                I.ops = I.args
            elif op == "phi":
                k = L.LLVMCountIncoming(i)
                I.incoming = [(bbs[L.LLVMGetIncomingBlock(i, q)],
                               self.operand(L.LLVMGetIncomingValue(i, q),
                                            regs)) for q in range(k)]
                I.ops = [v for _, v in I.incoming]
            elif op == "gep":
                base, off, var, path, st = self.gep_parts(i, regs)
                I.gep = (off, var, path)
                I.elty = st
                I.ops = [base] + [v for v, _ in var]
            elif op == "switch":
                I.ops = [self.operand(L.LLVMGetOperand(i, 0), regs)]
                I.succs = [bbs[L.LLVMGetSwitchDefaultDest(i)]]
                I.cases = []
                for k in range(2, n, 2):
                    c = self.operand(L.LLVMGetOperand(i, k), regs)
                    I.cases.append((c[2], bbs[L.LLVMGetOperand(i, k + 1)]))
                    I.succs.append(I.cases[-1][1])
            elif op == "br":
                ns = L.LLVMGetNumSuccessors(i)
                I.succs = [bbs[L.LLVMGetSuccessor(i, k)] for k in range(ns)]
                I.ops = ([self.operand(L.LLVMGetOperand(i, 0), regs)]
                         if ns == 2 else [])
            else:
                I.ops = [self.operand(L.LLVMGetOperand(i, k), regs)
                         for k in range(n)]
            if op == "icmp":
                I.pred = ICMP[L.LLVMGetICmpPredicate(i)]
            elif op == "fcmp":
                I.pred = FCMP[L.LLVMGetFCmpPredicate(i)]
            elif op == "alloca":
                I.aty = self.ty(L.LLVMGetAllocatedType(i))
            elif op in ("atomicrmw", "fence", "load", "store"):
                try:
                    I.ordering = ORD.get(L.LLVMGetOrdering(i))
                except Exception:
                    I.ordering = None
                if op == "atomicrmw":
                    I.rmw = RMW.get(L.LLVMGetAtomicRMWBinOp(i), "?")
                if op in ("load", "store"):
                    I.volatile = bool(L.LLVMGetVolatile(i))
            elif op in ("extractvalue", "insertvalue"):
                k = L.LLVMGetNumIndices(i)
                p = L.LLVMGetIndices(i)
                I.indices = [p[q] for q in range(k)]
            I.idx = len(B.insts)
            B.insts.append(I)
            F.insts.append(I)
        for B in F.blocks:
            B.succs = list(dict.fromkeys(B.insts[-1].succs)) \
                if B.insts else []
            for s in B.succs:
                s.preds.append(B)


CONFIGS = {
    # name: (list of sources, flags)
    "amalga": (["tg.c"], []),
    "noamalga": (["tg.c", "deps/json.c", "deps/fp.c"], ["-DTG_NOAMALGA"]),
    "noatomics": (["tg.c"], ["-DTG_NOATOMICS"]),
    "static": (["tg.c"], ["-DTG_STATIC"]),
    "ix64": (["tg.c"], ["-DTG_IXFLOAT64"]),
}


# Normal form for rules that must not depend on how the code is split into
# helpers: static helpers are inlined, comparisons canonicalised.
NORM = ("function(sroa,early-cse),cgscc(inline),"
        "function(sroa,early-cse,"
        "instcombine<no-verify-fixpoint>,simplifycfg,gvn)")


def compile_ll(config, outdir, extra=(), passes="sroa", opt=()):
    srcs, flags = CONFIGS[config]
    objs = []
    for s in srcs:
        o = os.path.join(outdir, config + "_" + s.replace("/", "_") + ".bc")
        cmd = [CLANG, *(("-O0", "-Xclang", "-disable-O0-optnone")
                        if passes == "sroa" else
                        ("-O1", "-Xclang", "-disable-llvm-passes",
                         "-Xclang", "-disable-lifetime-markers",
                         "-fno-strict-aliasing")), "-g", "-w",
               "-std=gnu11", "-emit-llvm", "-c", "-fno-discard-value-names",
               "-ffp-contract=off", *flags, *extra, "-I", REPO,
               os.path.join(REPO, s), "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("clang failed on %s:\n%s" %
                                 (s, r.stderr[-2000:]))
        objs.append(o)
    out = os.path.join(outdir, config + ".bc")
    if len(objs) > 1:
        subprocess.run([LINK, *objs, "-o", out], check=True)
    else:
        out = objs[0]
    out2 = os.path.join(outdir, config + ".opt.bc")
    subprocess.run([OPT, "-passes=" + passes, *opt, out, "-o", out2],
                   check=True)
    return out2


def load(config="amalga", passes="sroa", extra=(), opt=()):
    with tempfile.TemporaryDirectory(prefix="tgsa") as td:
        bc = compile_ll(config, td, passes=passes, extra=extra, opt=opt)
        mod = _Loader(bc).load()
    mod.tag = config
    mod.srcs = CONFIGS[config][0]
    return mod


if __name__ == "__main__":
    import time
    t = time.time()
    m = load(sys.argv[1] if len(sys.argv) > 1 else "amalga")
    print(len(m.defined()), "functions",
          sum(len(f.insts) for f in m.defined()), "insts",
          round(time.time() - t, 2), "s")
    if len(sys.argv) > 2:
        F = m.funcs[sys.argv[2]]
        for b in F.blocks:
            print("bb", b.id)
            for i in b.insts:
                print("   ", i, i.callee or "", i.gep or "", i.pred or "",
                      [s.id for s in i.succs])


def check_c(text):
    """text must compile; it holds what the analysis takes for granted"""
    r = subprocess.run([CLANG, "-fsyntax-only", "-w", "-x", "c", "-"],
                       input=text, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("assumption does not hold: " + r.stderr[:300])
