"""Load LLVM IR through the LLVM-C API (libLLVM-18) into plain Python objects.

Only reading: the IR is produced by clang from /repo's working tree and is never
executed.
"""
import ctypes
import re
from ctypes import c_void_p, c_char_p, c_uint, c_ulonglong, c_longlong, c_size_t, c_int

_LIBS = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
         "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1", "libLLVM-18.so", "libLLVM-18.so.1"]


def _load():
    err = None
    for p in _LIBS:
        try:
            return ctypes.CDLL(p)
        except OSError as e:
            err = e
    raise err


L = _load()


def _sig(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


P = c_void_p
ContextCreate = _sig("LLVMContextCreate", P)
MemBuf = _sig("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p,
              ctypes.POINTER(P), ctypes.POINTER(c_char_p))
ParseIR = _sig("LLVMParseIRInContext", c_int, P, P, ctypes.POINTER(P), ctypes.POINTER(c_char_p))
FirstFn = _sig("LLVMGetFirstFunction", P, P)
NextFn = _sig("LLVMGetNextFunction", P, P)
FirstGlob = _sig("LLVMGetFirstGlobal", P, P)
NextGlob = _sig("LLVMGetNextGlobal", P, P)
FirstBB = _sig("LLVMGetFirstBasicBlock", P, P)
NextBB = _sig("LLVMGetNextBasicBlock", P, P)
FirstI = _sig("LLVMGetFirstInstruction", P, P)
NextI = _sig("LLVMGetNextInstruction", P, P)
Opcode = _sig("LLVMGetInstructionOpcode", c_int, P)
NumOps = _sig("LLVMGetNumOperands", c_int, P)
Operand = _sig("LLVMGetOperand", P, P, c_uint)
ICmpPred = _sig("LLVMGetICmpPredicate", c_int, P)
TypeOf = _sig("LLVMTypeOf", P, P)
TypeKind = _sig("LLVMGetTypeKind", c_int, P)
IntWidth = _sig("LLVMGetIntTypeWidth", c_uint, P)
IsConstInt = _sig("LLVMIsAConstantInt", P, P)
IsConstNull = _sig("LLVMIsAConstantPointerNull", P, P)
IsConstExpr = _sig("LLVMIsAConstantExpr", P, P)
IsUndef = _sig("LLVMIsAUndefValue", P, P)
IsFunction = _sig("LLVMIsAFunction", P, P)
IsGlobalVar = _sig("LLVMIsAGlobalVariable", P, P)
GetNSW = _sig("LLVMGetNSW", c_int, P)
GetNUW = _sig("LLVMGetNUW", c_int, P)
GetInit = _sig("LLVMGetInitializer", P, P)
AggElem = _sig("LLVMGetAggregateElement", P, P, c_uint)
CountStruct = _sig("LLVMCountStructElementTypes", c_uint, P)
ArrLen = _sig("LLVMGetArrayLength", c_uint, P)
IsArg = _sig("LLVMIsAArgument", P, P)
IsInst = _sig("LLVMIsAInstruction", P, P)
IsBB = _sig("LLVMValueIsBasicBlock", c_int, P)
AsBB = _sig("LLVMValueAsBasicBlock", P, P)
IsInlineAsm = _sig("LLVMIsAInlineAsm", P, P)
IsAggZero = _sig("LLVMIsAConstantAggregateZero", P, P)
IsConst = _sig("LLVMIsConstant", c_int, P)
SExtVal = _sig("LLVMConstIntGetSExtValue", c_longlong, P)
ZExtVal = _sig("LLVMConstIntGetZExtValue", c_ulonglong, P)
ConstOpcode = _sig("LLVMGetConstOpcode", c_int, P)
ValueName = _sig("LLVMGetValueName2", c_char_p, P, ctypes.POINTER(c_size_t))
BBName = _sig("LLVMGetBasicBlockName", c_char_p, P)
CalledValue = _sig("LLVMGetCalledValue", P, P)
NumArgOps = _sig("LLVMGetNumArgOperands", c_uint, P)
NumSucc = _sig("LLVMGetNumSuccessors", c_uint, P)
Succ = _sig("LLVMGetSuccessor", P, P, c_uint)
CountIn = _sig("LLVMCountIncoming", c_uint, P)
InVal = _sig("LLVMGetIncomingValue", P, P, c_uint)
InBlk = _sig("LLVMGetIncomingBlock", P, P, c_uint)
IsCond = _sig("LLVMIsConditional", c_int, P)
Cond = _sig("LLVMGetCondition", P, P)
GEPType = _sig("LLVMGetGEPSourceElementType", P, P)
AllocType = _sig("LLVMGetAllocatedType", P, P)
DataLayout = _sig("LLVMGetModuleDataLayout", P, P)
ABISize = _sig("LLVMABISizeOfType", c_ulonglong, P, P)
StoreSize = _sig("LLVMStoreSizeOfType", c_ulonglong, P, P)
OffElem = _sig("LLVMOffsetOfElement", c_ulonglong, P, P, c_uint)
StructElem = _sig("LLVMStructGetTypeAtIndex", P, P, c_uint)
NStructElem = _sig("LLVMCountStructElementTypes", c_uint, P)
StructName = _sig("LLVMGetStructName", c_char_p, P)
ElemType = _sig("LLVMGetElementType", P, P)
IsDecl = _sig("LLVMIsDeclaration", c_int, P)
Linkage = _sig("LLVMGetLinkage", c_int, P)
NParams = _sig("LLVMCountParams", c_uint, P)
Param = _sig("LLVMGetParam", P, P, c_uint)
DebugLine = _sig("LLVMGetDebugLocLine", c_uint, P)
DebugFile = _sig("LLVMGetDebugLocFilename", c_char_p, P, ctypes.POINTER(c_uint))
Volatile = _sig("LLVMGetVolatile", c_int, P)
Ordering = _sig("LLVMGetOrdering", c_int, P)
RMWOp = _sig("LLVMGetAtomicRMWBinOp", c_int, P)
Initializer = _sig("LLVMGetInitializer", P, P)
IsGlobalConst = _sig("LLVMIsGlobalConstant", c_int, P)
IsThreadLocal = _sig("LLVMIsThreadLocal", c_int, P)
GetReturnType = _sig("LLVMGetReturnType", P, P)
GlobValType = _sig("LLVMGlobalGetValueType", P, P)
AggElem = _sig("LLVMGetAggregateElement", P, P, c_uint)
Visibility = _sig("LLVMGetVisibility", c_int, P)
AsmStr = _sig("LLVMPrintValueToString", c_void_p, P)
DisposeMsg = _sig("LLVMDisposeMessage", None, c_void_p)
NumIndices = _sig("LLVMGetNumIndices", c_uint, P)
Indices = _sig("LLVMGetIndices", ctypes.POINTER(c_uint), P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep",
       30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast",
       42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       49: "va_arg", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 68: "freeze", 66: "fneg"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
        38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
ORD = {0: "notatomic", 1: "unordered", 2: "monotonic", 4: "acquire", 5: "release",
       6: "acq_rel", 7: "seq_cst"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor"}


def name_of(v):
    n = c_size_t()
    s = ValueName(v, ctypes.byref(n))
    return s.decode("latin1") if s else ""


class Inst:
    __slots__ = ("op", "id", "ops", "line", "file", "extra", "bits", "isptr", "name",
                 "size", "blk", "tyname")

    def __repr__(self):
        return "<%s %s@%s:%s>" % (self.op, self.name, self.file, self.line)


class Block:
    __slots__ = ("name", "insts", "succs", "preds", "idx")

    def __repr__(self):
        return "<bb %s>" % self.name


class Function:
    def __init__(self):
        self.name = None          # link name
        self.blocks = []
        self.args = []            # (value id, name)
        self.decl = True
        self.internal = False
        self.srcname = None
        self.file = None
        self.line = None
        self.loops = None

    def __repr__(self):
        return "<fn %s>" % self.name


class Module:
    """functions: name -> Function; globals: name -> dict

    The program is a set of translation units; file-local functions and variables get the
    unit's number appended (name.N) so that names are unique."""

    def __init__(self, paths):
        self.functions = {}
        self.globals = {}
        for i, path in enumerate(paths):
            self.unit = ".%d" % i
            self._load_unit(path)

    def gname(self, v):
        n = name_of(v)
        if Linkage(v) in (8, 9):
            return n + self.unit
        return n

    def _load_unit(self, path):
        self.ctx = ContextCreate()
        buf = P()
        msg = c_char_p()
        if MemBuf(path.encode(), ctypes.byref(buf), ctypes.byref(msg)):
            raise RuntimeError("cannot read %s: %s" % (path, msg.value))
        mod = P()
        if ParseIR(self.ctx, buf, ctypes.byref(mod), ctypes.byref(msg)):
            raise RuntimeError("cannot parse %s: %s" % (path, msg.value))
        self.mod = mod
        self.dl = DataLayout(mod)
        self._tycache = {}
        self._strcache = {}
        g = FirstGlob(mod)
        while g:
            nm = self.gname(g)
            if nm in self.globals and IsDecl(g):
                g = NextGlob(g)
                continue
            self.globals[nm] = {"decl": bool(IsDecl(g)), "const": bool(IsGlobalConst(g)),
                                "tls": bool(IsThreadLocal(g)), "internal": Linkage(g) in (8, 9),
                                "val": g, "size": self.abi(GlobValType(g)),
                                "type": self.tname(GlobValType(g)), "unit": path}
            g = NextGlob(g)
        f = FirstFn(mod)
        while f:
            self._fn(f)
            f = NextFn(f)

    def ginit(self, name, off):
        """operand a global holds initially at a byte offset, None if it has no initial value"""
        g = self.globals.get(name)
        if g is None or g["decl"]:
            return None
        v = GetInit(g["val"])
        t = GlobValType(g["val"])
        while v:
            k = TypeKind(t)
            if IsAggZero(v):
                return ("c", 0, 64)
            if k == 10:
                n = CountStruct(t)
                fi = max([i for i in range(n) if OffElem(self.dl, t, i) <= off] or [0])
                off -= OffElem(self.dl, t, fi)
                v, t = AggElem(v, fi), StructElem(t, fi)
            elif k == 11:
                et = ElemType(t)
                es = self.abi(et)
                fi = off // es
                off -= fi * es
                v, t = AggElem(v, fi), et
            else:
                return self.operand(v, {}) if off == 0 else None
        return None

    # -- types
    def abi(self, t):
        k = TypeKind(t)
        if k in (0, 7, 9, 14):     # void / label / function / metadata
            return 0
        try:
            return ABISize(self.dl, t)
        except Exception:
            return 0

    def tname(self, t):
        k = TypeKind(t)
        if k == 10:
            s = StructName(t)
            return s.decode() if s else "{anon}"
        if k == 11:
            return "[%s]" % self.tname(ElemType(t))
        if k == 8:
            return "i%d" % IntWidth(t)
        if k == 12:
            return "ptr"
        return "k%d" % k

    # -- operands
    def operand(self, v, vid):
        """('v', id) | ('c', int, bits) | ('null',) | ('g', name) | ('f', name) | ('undef',)
        | ('gepc', operand, off) | ('asm',) | ('md',)"""
        if v in vid:
            return ("v", vid[v])
        if IsConstInt(v):
            w = IntWidth(TypeOf(v))
            if w > 64:
                return ("undef",)
            return ("c", SExtVal(v), w)
        if IsConstNull(v):
            return ("c", 0, 64)
        if IsFunction(v):
            return ("f", self.gname(v))
        if IsGlobalVar(v):
            return ("g", self.gname(v))
        if IsInlineAsm(v):
            return ("asm",)
        if IsUndef(v):
            return ("undef",)
        if IsAggZero(v):
            return ("c", 0, 64)
        if IsConstExpr(v):
            oc = OPC.get(ConstOpcode(v))
            if oc == "gep":
                base = self.operand(Operand(v, 0), vid)
                off, dyn, tag = self.gep_parts(v, vid, const=True)
                return ("gepc", base, off, tag)
            if oc in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext"):
                return self.operand(Operand(v, 0), vid)
            return ("undef",)
        k = TypeKind(TypeOf(v))
        if k == 16 or k == 14:
            return ("md",)
        return ("undef",)

    def gep_parts(self, v, vid, const=False):
        """-> (const offset, [(operand, scale)], tag) ; tag=(struct, offset in struct)"""
        t = GEPType(v)
        n = NumOps(v)
        off = 0
        dyn = []
        tag = None
        idx = Operand(v, 1)
        sz = self.abi(t)
        o = self.operand(idx, vid)
        # an element of the array pointed to, or a step along it
        elem = TypeKind(t) == 11 and o == ("c", 0) + o[2:] or n == 2 and TypeKind(t) not in (10, 11) and sz > 1
        if o[0] == "c":
            off += o[1] * sz
        else:
            dyn.append((o, sz))
        for i in range(2, n):
            o = self.operand(Operand(v, i), vid)
            k = TypeKind(t)
            if k == 10:
                fi = o[1]
                fo = OffElem(self.dl, t, fi)
                off += fo
                tag = (self.tname(t), fo)
                t = StructElem(t, fi)
            else:
                et = ElemType(t)
                es = self.abi(et)
                if o[0] == "c":
                    off += o[1] * es
                else:
                    dyn.append((o, es))
                t = et
        if elem and tag is None and not const and TypeKind(t) not in (10, 11):
            tag = ("elem",)
        return off, dyn, tag

    def _fn(self, f):
        fn = Function()
        fn.name = self.gname(f)
        fn.decl = bool(IsDecl(f))
        if fn.decl and fn.name in self.functions:
            return
        fn.internal = Linkage(f) in (8, 9)   # internal/private
        fn.visible = Visibility(f) == 0
        fn.val = f
        self.functions[fn.name] = fn
        if fn.decl:
            return
        vid = {}
        nid = 0
        for i in range(NParams(f)):
            p = Param(f, i)
            vid[p] = nid
            t = TypeOf(p)
            fn.args.append((nid, name_of(p), TypeKind(t) == 12,
                            IntWidth(t) if TypeKind(t) == 8 else 64))
            nid += 1
        bmap = {}
        bb = FirstBB(f)
        raw = []
        while bb:
            b = Block()
            b.name = (BBName(bb) or b"").decode()
            b.insts = []
            b.succs = []
            b.preds = []
            b.idx = len(fn.blocks)
            bmap[bb] = b
            fn.blocks.append(b)
            i = FirstI(bb)
            lst = []
            while i:
                vid[i] = nid
                nid += 1
                lst.append(i)
                i = NextI(i)
            raw.append((b, lst))
            bb = NextBB(bb)
        ln = c_uint()
        for b, lst in raw:
            for i in lst:
                oc = OPC.get(Opcode(i), "op%d" % Opcode(i))
                ins = Inst()
                ins.op = oc
                ins.id = vid[i]
                ins.name = name_of(i)
                ins.blk = b
                ins.extra = None
                t = TypeOf(i)
                k = TypeKind(t)
                ins.bits = IntWidth(t) if k == 8 else (64 if k == 12 else 0)
                ins.isptr = k == 12
                ins.size = self.abi(t)
                ins.tyname = None
                ins.line = DebugLine(i)
                fp = DebugFile(i, ctypes.byref(ln))
                ins.file = fp[:ln.value].decode() if fp else None
                if oc == "call":
                    cv = CalledValue(i)
                    n = NumArgOps(i)
                    ins.ops = [self.operand(Operand(i, j), vid) for j in range(n)]
                    ins.extra = self.operand(cv, vid)
                    if ins.extra[0] == "asm":
                        s = AsmStr(cv)
                        ins.extra = ("asm", ctypes.string_at(s).decode())
                        DisposeMsg(s)
                elif oc == "br":
                    ins.ops = []
                    if IsCond(i):
                        ins.ops = [self.operand(Cond(i), vid)]
                    b.succs = [bmap[Succ(i, j)] for j in range(NumSucc(i))]
                elif oc == "switch":
                    n = NumOps(i)
                    ins.ops = [self.operand(Operand(i, 0), vid)]
                    cases = []
                    for j in range(2, n, 2):
                        cases.append((SExtVal(Operand(i, j)), bmap[AsBB(Operand(i, j + 1))]))
                    dflt = bmap[AsBB(Operand(i, 1))]
                    ins.extra = (cases, dflt)
                    b.succs = [c[1] for c in cases] + [dflt]
                elif oc == "phi":
                    ins.ops = []
                    ins.extra = [(self.operand(InVal(i, j), vid), bmap[InBlk(i, j)])
                                 for j in range(CountIn(i))]
                elif oc == "gep":
                    off, dyn, tag = self.gep_parts(i, vid)
                    ins.ops = [self.operand(Operand(i, 0), vid)]
                    ins.extra = (off, dyn, tag)
                elif oc == "alloca":
                    t2 = AllocType(i)
                    ins.ops = [self.operand(Operand(i, 0), vid)]
                    ins.extra = (self.abi(t2), self.tname(t2))
                else:
                    n = NumOps(i)
                    ins.ops = [self.operand(Operand(i, j), vid) for j in range(n)]
                    if oc == "icmp":
                        ins.extra = PRED[ICmpPred(i)]
                    elif oc in ("add", "sub", "mul", "shl"):
                        ins.extra = (bool(GetNSW(i)), bool(GetNUW(i)))
                    elif oc in ("load", "store"):
                        ins.extra = (bool(Volatile(i)), ORD.get(Ordering(i)))
                        if oc == "store":
                            vt = TypeOf(Operand(i, 0))
                            ins.size = StoreSize(self.dl, vt)
                            ins.extra += (TypeKind(vt) == 12,)
                        else:
                            ins.size = StoreSize(self.dl, t)
                    elif oc == "atomicrmw":
                        ins.extra = (RMW.get(RMWOp(i), "?"), ORD.get(Ordering(i)))
                        ins.size = StoreSize(self.dl, t)
                    elif oc == "fence":
                        ins.extra = ORD.get(Ordering(i))
                    elif oc in ("extractvalue", "insertvalue"):
                        ins.extra = [Indices(i)[j] for j in range(NumIndices(i))]
                b.insts.append(ins)
        for b in fn.blocks:
            for s in b.succs:
                if b not in s.preds:
                    s.preds.append(b)
        self._loops(fn)

    @staticmethod
    def _loops(fn):
        """natural loops: header idx -> set of block idx"""
        n = len(fn.blocks)
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks[1:]:
                ps = [dom[p.idx] for p in b.preds]
                new = set.intersection(*ps) if ps else set()
                new = new | {b.idx}
                if new != dom[b.idx]:
                    dom[b.idx] = new
                    ch = True
        loops = {}
        for b in fn.blocks:
            for s in b.succs:
                if s.idx in dom[b.idx]:
                    body = loops.setdefault(s.idx, {s.idx})
                    st = [b.idx]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p.idx for p in fn.blocks[x].preds)
        fn.loops = loops
        fn.dom = dom
        # irreducible check: DFS back edges must all target dominators
        fn.irreducible = False
        seen, onst = set(), set()

        def dfs(b0):
            stack = [(b0, iter(b0.succs))]
            seen.add(b0.idx)
            onst.add(b0.idx)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s.idx in onst:
                        if s.idx not in dom[b.idx]:
                            fn.irreducible = True
                    elif s.idx not in seen:
                        seen.add(s.idx)
                        onst.add(s.idx)
                        stack.append((s, iter(s.succs)))
                        break
                else:
                    stack.pop()
                    onst.discard(b.idx)
        if fn.blocks:
            dfs(fn.blocks[0])


# ---------------------------------------------------------------- debug info
class DebugInfo:
    """struct layouts and subprogram signatures from the textual module's metadata"""
    RX = re.compile(r"^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$")
    RXL = re.compile(r"^!(\d+) = (?:distinct )?!\{(.*)\}$")

    def __init__(self, text):
        self.nodes = {}
        self.lists = {}
        for ln in text.splitlines():
            if not ln.startswith("!"):
                continue
            m = self.RX.match(ln)
            if m:
                self.nodes[int(m.group(1))] = (m.group(2), m.group(3))
                continue
            m = self.RXL.match(ln)
            if m:
                self.lists[int(m.group(1))] = [
                    int(x.strip()[1:]) if x.strip().startswith("!") and x.strip()[1:].isdigit()
                    else None for x in m.group(2).split(",")] if m.group(2).strip() else []
        self.structs = {}       # name -> (size, [(field, off, size, type id)])
        self.fnsig = {}         # link/source name -> [ret, params...] type ids
        self.enums = {}
        for i, (k, a) in self.nodes.items():
            if k == "DICompositeType":
                at = self.attrs(a)
                nm = at.get("name")
                if "elements" in at and at.get("tag") in ("DW_TAG_structure_type", "DW_TAG_union_type"):
                    fl = []
                    for e in self.lists.get(self.ref(at["elements"]), []):
                        kk, aa = self.nodes.get(e, (None, ""))
                        if kk != "DIDerivedType":
                            continue
                        ea = self.attrs(aa)
                        fl.append((ea.get("name"), int(ea.get("offset", 0)) // 8,
                                   int(ea.get("size", 0)) // 8, self.ref(ea.get("baseType"))))
                    key = nm or "#%d" % i
                    if key not in self.structs or not self.structs[key][1]:
                        self.structs[key] = (int(at.get("size", 0)) // 8, fl)
                    self.structs["#%d" % i] = (int(at.get("size", 0)) // 8, fl)
            elif k == "DIEnumerator":
                at = self.attrs(a)
                if at.get("name"):
                    self.enums[at["name"]] = int(at.get("value", 0))
            elif k == "DISubprogram":
                at = self.attrs(a)
                ty = self.ref(at.get("type"))
                kk, aa = self.nodes.get(ty, (None, ""))
                if kk == "DISubroutineType":
                    ta = self.attrs(aa)
                    fileid = self.ref(at.get("file"))
                    fname = None
                    if fileid in self.nodes:
                        fname = self.attrs(self.nodes[fileid][1]).get("filename")
                    self.fnsig.setdefault(at.get("linkageName") or at.get("name"), []).append(
                        {"types": self.lists.get(self.ref(ta.get("types")), []),
                         "file": fname, "line": int(at.get("line", 0)),
                         "def": "DISPFlagDefinition" in at.get("spFlags", ""), "id": i})

    ATTR = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+(?:\([^)]*\))?)')

    def attrs(self, s):
        d = {}
        for m in self.ATTR.finditer(s):
            v = m.group(2).strip()
            if v.startswith('"'):
                v = v[1:-1]
            d[m.group(1)] = v
        return d

    @staticmethod
    def ref(v):
        if v and v.startswith("!") and v[1:].isdigit():
            return int(v[1:])
        return None

    def strip(self, tid):
        """skip typedef/const/volatile; -> (kind, attrs, id)"""
        while tid in self.nodes:
            k, a = self.nodes[tid]
            at = self.attrs(a)
            if k == "DIDerivedType" and at.get("tag") in (
                    "DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type",
                    "DW_TAG_restrict_type", "DW_TAG_atomic_type"):
                tid = self.ref(at.get("baseType"))
                continue
            return k, at, tid
        return None, {}, None

    def pointee_struct(self, tid):
        k, at, i = self.strip(tid)
        if k == "DIDerivedType" and at.get("tag") == "DW_TAG_pointer_type":
            k, at, i = self.strip(self.ref(at.get("baseType")))
            if k == "DICompositeType":
                return at.get("name") or "#%d" % i
        return None

    def struct_of(self, tid):
        k, at, i = self.strip(tid)
        if k == "DICompositeType" and at.get("tag") in ("DW_TAG_structure_type", "DW_TAG_union_type"):
            nm = at.get("name")
            return nm if nm in self.structs else "#%d" % i
        return None

    def off(self, struct, path):
        """(offset, size) of a dotted field path"""
        o = 0
        sz = None
        st = struct
        for f in path.split("."):
            if st not in self.structs:
                raise KeyError("struct %s" % st)
            for (n, fo, fs, ft) in self.structs[st][1]:
                if n == f:
                    o += fo
                    sz = fs
                    st = self.struct_of(ft)
                    break
            else:
                raise KeyError("field %s of %s" % (path, struct))
        return o, sz

    def field_at(self, struct, off):
        """dotted name and type id of the innermost scalar field at byte offset"""
        if struct not in self.structs:
            return None, None
        best = None
        for (n, fo, fs, ft) in self.structs[struct][1]:
            if fo <= off < fo + max(fs, 1) or (fs == 0 and off >= fo):
                sub = self.struct_of(ft)
                if sub:
                    nm, t = self.field_at(sub, off - fo)
                    if nm:
                        return (n + "." if n else "") + nm, t
                best = (n if off == fo else "%s+%d" % (n, off - fo), ft)
                if fs:
                    break
        return best if best else (None, None)


class Layouts:
    """debug information of all translation units"""

    def __init__(self, dis):
        self.dis = dis
        self.enums = {}
        for d in dis:
            self.enums.update(d.enums)

    def _of(self, struct):
        for d in self.dis:
            if struct in d.structs and d.structs[struct][1]:
                return d
        raise KeyError("struct %s" % struct)

    def off(self, struct, path):
        return self._of(struct).off(struct, path)

    def field_at(self, struct, off):
        return self._of(struct).field_at(struct, off)

    def size(self, struct):
        return self._of(struct).structs[struct][0]
