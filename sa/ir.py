"""LLVM IR loaded through the LLVM-C API (ctypes) into plain Python objects."""
import ctypes as C
import functools
import os

_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]
L = None
for _c in _cands:
    if os.path.exists(_c):
        L = C.CDLL(_c)
        break
if L is None:
    raise ImportError("libLLVM 18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


U = C.c_uint
LLVMContextCreate = _f("LLVMContextCreate", P)
LLVMCreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
LLVMParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
DL = _f("LLVMGetModuleDataLayout", P, P)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P)
NextGl = _f("LLVMGetNextGlobal", P, P)
ValName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
GetOp = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffElem = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
ElemTy = _f("LLVMGetElementType", P, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, U)
NStructElem = _f("LLVMCountStructElementTypes", U, P)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_ulonglong, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
NSucc = _f("LLVMGetNumSuccessors", U, P)
Succ = _f("LLVMGetSuccessor", P, P, U)
IsCond = _f("LLVMIsConditional", C.c_int, P)
CondV = _f("LLVMGetCondition", P, P)
NIncoming = _f("LLVMCountIncoming", U, P)
IncV = _f("LLVMGetIncomingValue", P, P, U)
IncB = _f("LLVMGetIncomingBlock", P, P, U)
CalledV = _f("LLVMGetCalledValue", P, P)
NArgs = _f("LLVMGetNumArgOperands", U, P)
GEPTy = _f("LLVMGetGEPSourceElementType", P, P)
DbgLine = _f("LLVMGetDebugLocLine", U, P)
DbgFile = _f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(U))
AllocTy = _f("LLVMGetAllocatedType", P, P)
ZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
IsConstStr = _f("LLVMIsConstantString", C.c_int, P)
GetAsString = _f("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
ElemAsConst = _f("LLVMGetElementAsConstant", P, P, U)
IsGlobConst = _f("LLVMIsGlobalConstant", C.c_int, P)
GetInit = _f("LLVMGetInitializer", P, P)
GlobValTy = _f("LLVMGlobalGetValueType", P, P)
GetVolatile = _f("LLVMGetVolatile", C.c_int, P)
NIdx = _f("LLVMGetNumIndices", U, P)
GetIdx = _f("LLVMGetIndices", C.POINTER(U), P)
ConstOp = _f("LLVMGetConstOpcode", C.c_int, P)
PrintV = _f("LLVMPrintValueToString", C.c_void_p, P)
ValKind = _f("LLVMGetValueKind", C.c_int, P)
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
BB2V = _f("LLVMBasicBlockAsValue", P, P)
V2BB = _f("LLVMValueAsBasicBlock", P, P)
BBName = _f("LLVMGetBasicBlockName", C.c_char_p, P)
AttrKind = _f("LLVMGetEnumAttributeKindForName", U, C.c_char_p, C.c_size_t)
FnAttr = _f("LLVMGetEnumAttributeAtIndex", P, P, C.c_int, U)
CSAttr = _f("LLVMGetCallSiteEnumAttribute", P, P, C.c_int, U)
AttrTy = _f("LLVMGetTypeAttributeValue", P, P)
Linkage = _f("LLVMGetLinkage", C.c_int, P)
FnTy = _f("LLVMGetCalledFunctionType", P, P)
RetTy = _f("LLVMGetReturnType", P, P)
ConstRealDbl = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
IsThreadLocal = _f("LLVMIsThreadLocal", C.c_int, P)
LLVMGetGlobalParent = _f("LLVMGetGlobalParent", P, P)
GetSubprogram = _f("LLVMGetSubprogram", P, P)
DISubLine = _f("LLVMDISubprogramGetLine", U, P)
DIScopeFile = _f("LLVMDIScopeGetFile", P, P)
DIFileName = _f("LLVMDIFileGetFilename", C.c_void_p, P, C.POINTER(U))
DIFileDir = _f("LLVMDIFileGetDirectory", C.c_void_p, P, C.POINTER(U))

OPC = {1: "ret", 2: "br", 3: "switch", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem",
       18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or",
       25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc",
       38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp",
       44: "phi", 45: "call", 46: "select", 49: "va_arg", 53: "extractvalue",
       54: "insertvalue", 66: "fneg", 68: "freeze", 4: "indirectbr", 5: "invoke"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
        38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = {1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno",
         9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une"}


class Type:
    __slots__ = ("kind", "width", "size", "elem", "fields", "offsets", "count", "name")

    def __repr__(self):
        return "Type(%s,%s,%s)" % (self.kind, self.width, self.size)


class Const:
    __slots__ = ("value", "width", "ty")

    def __init__(self, value, width, ty=None):
        self.value, self.width, self.ty = value, width, ty


class ConstFP:
    __slots__ = ("value", "ty")


class Null:
    __slots__ = ("ty",)


class Undef:
    __slots__ = ("ty",)


class Agg:            # constant aggregate / data array
    __slots__ = ("elems", "ty")


class Bytes:          # constant string data
    __slots__ = ("data", "ty")


class Zero:           # zeroinitializer of an aggregate
    __slots__ = ("ty",)


class CExpr:
    __slots__ = ("op", "ops", "ty", "gepty")


class Global:
    __slots__ = ("name", "const", "init", "ty", "size", "internal", "tls", "file")

    def __repr__(self):
        return "@" + self.name


class Fn:
    __slots__ = ("name", "params", "blocks", "decl", "noreturn", "internal", "retty",
                 "file", "line", "byval", "vararg")

    def __repr__(self):
        return "@" + self.name

    @property
    def entry(self):
        return self.blocks[0]

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i


class Arg:
    __slots__ = ("name", "ty", "index", "fn")


class Block:
    __slots__ = ("name", "insts", "fn", "preds", "succs", "index", "rpo")

    def __repr__(self):
        return "%s:%s" % (self.fn.name, self.name)


class Inst:
    __slots__ = ("op", "ops", "ty", "pred", "block", "name", "line", "file", "targets",
                 "incoming", "callee", "args", "srcty", "cases", "indices", "alloc",
                 "noreturn", "id", "byval", "fn", "volatile")

    def __repr__(self):
        return "<%s %s @%s:%s>" % (self.op, self.name, self.file, self.line)

    @property
    def loc(self):
        return "%s:%s" % (short(self.file), self.line)


@functools.lru_cache(maxsize=None)
def short(f):
    if not f:
        return "?"
    r = os.path.realpath(os.environ.get("SA_REPO", "/repo")) + "/"
    f = os.path.normpath(f)
    if f.startswith(r):
        return f[len(r):]
    return f


class Module:
    def __init__(self):
        self.fns = {}
        self.globals = {}


class _Loader:
    def __init__(self, path):
        ctx = LLVMContextCreate()
        buf = P()
        err = C.c_char_p()
        if LLVMCreateMemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise IOError(err.value)
        mod = P()
        if LLVMParseIR(ctx, buf, C.byref(mod), C.byref(err)):
            raise IOError(err.value)
        self.mod = mod
        self.dl = DL(mod)
        self.types = {}
        self.vals = {}
        self.m = Module()
        self.noreturn = AttrKind(b"noreturn", 8)
        self.byval = AttrKind(b"byval", 5)
        self.sret = AttrKind(b"sret", 4)
        self.nid = 0

    def ty(self, t):
        if t in self.types:
            return self.types[t]
        k = TypeKind(t)
        o = Type()
        self.types[t] = o
        o.width = o.size = 0
        o.elem = None
        o.fields = None
        o.offsets = None
        o.count = 0
        o.name = None
        kinds = {0: "void", 2: "float", 3: "double", 4: "x86fp80", 7: "label", 8: "int",
                 9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata"}
        o.kind = kinds.get(k, "k%d" % k)
        if o.kind == "int":
            o.width = IntWidth(t)
            o.size = ABISize(self.dl, t)
        elif o.kind == "ptr":
            o.width, o.size = 64, 8
        elif o.kind in ("double", "float", "x86fp80"):
            o.size = ABISize(self.dl, t)
        elif o.kind == "struct":
            n = NStructElem(t)
            o.fields = [self.ty(StructElem(t, i)) for i in range(n)]
            o.offsets = [OffElem(self.dl, t, i) for i in range(n)]
            try:
                o.size = ABISize(self.dl, t)
            except Exception:
                o.size = 0
            nm = StructName(t)
            o.name = nm.decode() if nm else None
        elif o.kind == "array":
            o.elem = self.ty(ElemTy(t))
            o.count = ArrLen(t)
            o.size = o.elem.size * o.count
        elif o.kind == "vector":
            o.size = ABISize(self.dl, t)
        return o

    def name(self, v):
        n = C.c_size_t()
        p = ValName(v, C.byref(n))
        return C.string_at(p, n.value).decode("utf8", "replace") if n.value else ""

    def val(self, v):
        if v in self.vals:
            return self.vals[v]
        o = self._const(v)
        self.vals[v] = o
        return o

    def _const(self, v):
        k = ValKind(v)
        t = self.ty(TypeOf(v))
        # LLVMValueKind: 3 Function? use enumeration of LLVM 18
        # 0 Argument,1 BasicBlock,2 MemoryUse,3 MemoryDef,4 MemoryPhi,5 Function,6 GlobalAlias,
        # 7 GlobalIFunc,8 GlobalVariable,9 BlockAddress,10 ConstantExpr,11 ConstantArray,
        # 12 ConstantStruct,13 ConstantVector,14 Undef,15 AggregateZero,16 DataArray,
        # 17 DataVector,18 ConstantInt,19 ConstantFP,20 NullPtr,21 TokenNone,22 MDAsValue,
        # 23 InlineAsm,24 Instruction,25 Poison
        if k == 18:
            if t.width <= 64:
                return Const(ZExt(v), t.width, t)
            p = PrintV(v)
            s = C.string_at(p).decode()
            return Const(int(s.split()[-1]) & ((1 << t.width) - 1), t.width, t)
        if k == 19:
            o = ConstFP()
            li = C.c_int()
            o.value = ConstRealDbl(v, C.byref(li))
            o.ty = t
            return o
        if k == 20:
            o = Null()
            o.ty = t
            return o
        if k in (14, 25):
            o = Undef()
            o.ty = t
            return o
        if k == 15:
            o = Zero()
            o.ty = t
            return o
        if k == 16:
            if IsConstStr(v):
                n = C.c_size_t()
                p = GetAsString(v, C.byref(n))
                o = Bytes()
                o.data = C.string_at(p, n.value)
                o.ty = t
                return o
            o = Agg()
            o.ty = t
            o.elems = [self.val(ElemAsConst(v, i)) for i in range(t.count)]
            return o
        if k in (11, 12, 13):
            o = Agg()
            o.ty = t
            o.elems = [self.val(GetOp(v, i)) for i in range(NumOps(v))]
            return o
        if k == 10:
            o = CExpr()
            o.ty = t
            op = ConstOp(v)
            o.op = OPC.get(op, "op%d" % op)
            o.ops = [self.val(GetOp(v, i)) for i in range(NumOps(v))]
            o.gepty = self.ty(GEPTy(v)) if o.op == "gep" else None
            return o
        if k == 22:
            o = Undef()
            o.ty = t
            return o
        p = PrintV(v)
        raise ValueError("value kind %d: %s" % (k, C.string_at(p)[:200]))

    def load(self):
        m = self.m
        raw = []
        f = FirstFn(self.mod)
        while f:
            o = Fn()
            o.name = self.name(f)
            o.decl = bool(IsDecl(f))
            o.internal = Linkage(f) in (8, 9)
            o.noreturn = bool(FnAttr(f, -1, self.noreturn))
            o.blocks = []
            o.params = []
            o.byval = {}
            o.file = None
            o.line = 0
            sp = GetSubprogram(f)
            if sp:
                o.line = DISubLine(sp)
                df = DIScopeFile(sp)
                if df:
                    n = U()
                    p = DIFileName(df, C.byref(n))
                    fn = C.string_at(p, n.value).decode() if n.value else ""
                    p = DIFileDir(df, C.byref(n))
                    d = C.string_at(p, n.value).decode() if n.value else ""
                    o.file = os.path.join(d, fn)
            for i in range(CountParams(f)):
                a = Arg()
                pv = GetParam(f, i)
                a.name = self.name(pv) or "arg%d" % i
                a.ty = self.ty(TypeOf(pv))
                a.index = i
                a.fn = o
                o.params.append(a)
                self.vals[pv] = a
                at = FnAttr(f, i + 1, self.byval)
                if at:
                    o.byval[i] = self.ty(AttrTy(at))
            self.vals[f] = o
            m.fns[o.name] = o
            raw.append((f, o))
            f = NextFn(f)
        g = FirstGl(self.mod)
        graw = []
        while g:
            o = Global()
            o.name = self.name(g)
            o.const = bool(IsGlobConst(g))
            o.ty = self.ty(GlobValTy(g))
            o.size = o.ty.size
            o.internal = Linkage(g) in (8, 9)
            o.tls = bool(IsThreadLocal(g))
            o.init = None
            o.file = None
            self.vals[g] = o
            m.globals[o.name] = o
            graw.append((g, o))
            g = NextGl(g)
        for g, o in graw:
            if not IsDecl(g):
                iv = GetInit(g)
                if iv:
                    o.init = self.val(iv)
        for f, o in raw:
            if not o.decl:
                self.body(f, o)
        return m

    def body(self, f, o):
        bb = FirstBB(f)
        bmap = {}
        order = []
        while bb:
            b = Block()
            b.name = (BBName(bb) or b"").decode() or "bb%d" % len(order)
            b.fn = o
            b.insts = []
            b.preds = []
            b.succs = []
            b.index = len(order)
            bmap[bb] = b
            order.append((bb, b))
            bb = NextBB(bb)
        o.blocks = [b for _, b in order]
        raw = []
        for bb, b in order:
            i = FirstI(bb)
            while i:
                x = Inst()
                self.nid += 1
                x.id = self.nid
                x.op = OPC.get(Opcode(i), "op%d" % Opcode(i))
                x.ty = self.ty(TypeOf(i))
                x.block = b
                x.fn = o
                x.name = self.name(i) or "v%d" % self.nid
                x.line = DbgLine(i)
                n = U()
                p = DbgFile(i, C.byref(n))
                x.file = C.string_at(p, n.value).decode() if p and n.value else o.file
                if x.file and not os.path.isabs(x.file) and o.file:
                    x.file = os.path.join(os.path.dirname(o.file), os.path.basename(x.file))
                x.pred = x.targets = x.incoming = x.callee = x.args = None
                x.srcty = x.cases = x.indices = x.alloc = None
                x.noreturn = False
                x.byval = None
                self.vals[i] = x
                b.insts.append(x)
                raw.append((i, x))
                i = NextI(i)
        for i, x in raw:
            op = x.op
            if op == "phi":
                x.incoming = [(bmap[IncB(i, k)], None) for k in range(NIncoming(i))]
        for i, x in raw:
            op = x.op
            if op == "phi":
                x.incoming = [(bmap[IncB(i, k)], self.val(IncV(i, k))) for k in range(NIncoming(i))]
                x.ops = []
                continue
            if op == "br":
                x.targets = [bmap[Succ(i, k)] for k in range(NSucc(i))]
                x.ops = [self.val(CondV(i))] if IsCond(i) else []
                continue
            if op == "switch":
                x.ops = [self.val(GetOp(i, 0))]
                ns = NSucc(i)
                x.targets = [bmap[Succ(i, k)] for k in range(ns)]
                x.cases = [(self.val(GetOp(i, 2 * k)).value, x.targets[k]) for k in range(1, ns)]
                continue
            if op == "call":
                cv = CalledV(i)
                if ValKind(cv) == 23:
                    x.callee = "asm"
                else:
                    x.callee = self.val(cv)
                na = NArgs(i)
                x.args = []
                x.byval = {}
                if isinstance(x.callee, Fn) and x.callee.name.startswith("llvm.dbg."):
                    x.args = []
                    x.ops = []
                    continue
                for k in range(na):
                    x.args.append(self.val(GetOp(i, k)))
                    at = CSAttr(i, k + 1, self.byval)
                    if at:
                        x.byval[k] = self.ty(AttrTy(at))
                x.noreturn = bool(CSAttr(i, -1, self.noreturn)) or (
                    isinstance(x.callee, Fn) and x.callee.noreturn)
                x.ops = list(x.args)
                continue
            x.ops = [self.val(GetOp(i, k)) for k in range(NumOps(i))]
            if op == "icmp":
                x.pred = PRED[ICmpPred(i)]
            elif op == "fcmp":
                x.pred = FPRED.get(FCmpPred(i), "?")
            elif op == "gep":
                x.srcty = self.ty(GEPTy(i))
            elif op in ("load", "store"):
                x.volatile = bool(GetVolatile(i))
            elif op == "alloca":
                x.alloc = self.ty(AllocTy(i))
            elif op in ("extractvalue", "insertvalue"):
                n = NIdx(i)
                p = GetIdx(i)
                x.indices = [p[k] for k in range(n)]
        for b in o.blocks:
            t = b.insts[-1] if b.insts else None
            if t is not None and t.targets:
                for s in t.targets:
                    if s not in b.succs:
                        b.succs.append(s)
        for b in o.blocks:
            for s in b.succs:
                s.preds.append(b)
            # drop debug intrinsics
            b.insts = [x for x in b.insts
                       if not (x.op == "call" and isinstance(x.callee, Fn)
                               and x.callee.name.startswith("llvm.dbg."))]
        # reverse post order
        seen = set()
        post = []

        def dfs(b):
            st = [(b, iter(b.succs))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(s.succs)))
                        break
                else:
                    post.append(x)
                    st.pop()
        dfs(o.blocks[0])
        post.reverse()
        for b in o.blocks:
            b.rpo = -1
        for i, b in enumerate(post):
            b.rpo = i


def load(path):
    return _Loader(path).load()
