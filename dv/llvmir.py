"""LLVM-IR front end: compiles a harness TU with clang++-18, inlines every
function that carries no contract (LLVM's always-inline pass), normalises with
mem2reg-style passes and converts the module into plain (picklable) Python objects.

Everything the verifier sees is produced from /repo's sources by the compiler on
this run; no function body is written by hand."""
import ctypes as C, subprocess, re, os, sys

CLANG = os.environ.get("DV_CLANG", "clang++-18")
_lib = None

def lib():
    global _lib
    if _lib is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1", "libLLVM-18.so.1", "libLLVM-18.so"):
            try:
                _lib = C.CDLL(p); break
            except OSError:
                continue
        else:
            raise RuntimeError("libLLVM-18 not found")
        P = C.c_void_p
        def sig(n, r, *a):
            f = getattr(_lib, n); f.restype = r; f.argtypes = list(a)
        sig("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
        sig("LLVMContextCreate", P)
        sig("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
        for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
                  "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetFirstParam", "LLVMGetNextParam",
                  "LLVMGetElementType", "LLVMGetReturnType", "LLVMGlobalGetValueType", "LLVMGetCalledValue", "LLVMGetAllocatedType",
                  "LLVMGetGEPSourceElementType", "LLVMGetModuleDataLayout", "LLVMGetModuleContext", "LLVMGetInitializer",
                  "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetCalledFunctionType", "LLVMGetBasicBlockParent"):
            sig(n, P, P)
        for n in ("LLVMGetOperand", "LLVMGetIncomingValue", "LLVMGetIncomingBlock", "LLVMGetSuccessor", "LLVMStructGetTypeAtIndex", "LLVMGetAggregateElement"):
            sig(n, P, P, C.c_uint)
        for n in ("LLVMCountBasicBlocks", "LLVMGetNumOperands", "LLVMCountIncoming", "LLVMGetNumSuccessors", "LLVMGetInstructionOpcode",
                  "LLVMGetTypeKind", "LLVMGetIntTypeWidth", "LLVMCountStructElementTypes", "LLVMGetICmpPredicate", "LLVMGetFCmpPredicate", "LLVMGetNumIndices",
                  "LLVMIsDeclaration", "LLVMGetNSW", "LLVMGetNUW", "LLVMGetExact", "LLVMGetValueKind", "LLVMGetArrayLength", "LLVMGetNumArgOperands",
                  "LLVMIsAGlobalVariable", "LLVMIsGlobalConstant", "LLVMGetAlignment"):
            sig(n, C.c_uint, P)
        sig("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
        sig("LLVMConstIntGetSExtValue", C.c_longlong, P)
        sig("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
        sig("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
        sig("LLVMGetIndices", C.POINTER(C.c_uint), P)
        sig("LLVMABISizeOfType", C.c_ulonglong, P, P)
        sig("LLVMABIAlignmentOfType", C.c_uint, P, P)
        sig("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
        sig("LLVMPrintValueToString", C.c_void_p, P)
        sig("LLVMDisposeMessage", None, P)
        sig("LLVMBasicBlockAsValue", P, P)
        sig("LLVMValueAsBasicBlock", P, P)
        sig("LLVMGetBasicBlockName", C.c_char_p, P)
        sig("LLVMIsConstant", C.c_int, P)
        sig("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
        sig("LLVMCreateEnumAttribute", P, P, C.c_uint, C.c_uint64)
        sig("LLVMAddAttributeAtIndex", None, P, C.c_uint, P)
        sig("LLVMRemoveEnumAttributeAtIndex", None, P, C.c_uint, C.c_uint)
        sig("LLVMSetLinkage", None, P, C.c_int)
        sig("LLVMSetComdat", None, P, P)
        sig("LLVMCreatePassBuilderOptions", P)
        sig("LLVMRunPasses", P, P, C.c_char_p, P, P)
        sig("LLVMGetErrorMessage", C.c_char_p, P)
        sig("LLVMPrintModuleToString", C.c_void_p, P)
        sig("LLVMGetConstOpcode", C.c_uint, P)
        sig("LLVMDeleteFunction", None, P)
        sig("LLVMGetFirstUse", P, P)
        for n in ("LLVMGetFirstGlobalAlias", "LLVMGetNextGlobalAlias", "LLVMAliasGetAliasee"): sig(n, P, P)
        sig("LLVMReplaceAllUsesWith", None, P, P)
    return _lib

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",67:"callbr",66:"fneg",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",
 14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",
 29:"gep",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",40:"inttoptr",41:"bitcast",
 60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",47:"u1",48:"u2",49:"vaarg",50:"extractelement",51:"insertelement",52:"shufflevector",
 53:"extractvalue",54:"insertvalue",68:"freeze",55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad"}
PRED = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
FPRED = {0:"false",1:"oeq",2:"ogt",3:"oge",4:"olt",5:"ole",6:"one",7:"ord",8:"uno",9:"ueq",10:"ugt",11:"uge",12:"ult",13:"ule",14:"une",15:"true"}

class Ty:
    """kind in int/ptr/struct/array/void/double/float/vector/other."""
    __slots__ = ("kind", "width", "size", "align", "elems", "offs", "elem", "n")
    def __init__(s, kind, width=0, size=0, align=1, elems=(), offs=(), elem=None, n=0):
        s.kind, s.width, s.size, s.align, s.elems, s.offs, s.elem, s.n = kind, width, size, align, elems, offs, elem, n
    def __repr__(s):
        if s.kind == "int": return "i%d" % s.width
        if s.kind == "struct": return "{%s}" % ",".join(map(repr, s.elems))
        if s.kind == "array": return "[%d x %r]" % (s.n, s.elem)
        return s.kind

class Val:  # operand: ('c',int) ('null',) ('undef',) ('v',name-id) ('f',fname) ('g',gname) ('bb',i) ('agg',[...]) ('d',float) ('ce',op,ty,operands,extra)
    pass

class Ins:
    __slots__ = ("op", "id", "ty", "args", "x", "text")
    def __repr__(s): return s.text

class Fn:
    pass

class Module:
    pass

def compile_bc(src, out, incs=(), flags=(), std="-std=c++17"):
    cmd = [CLANG, std, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-fno-exceptions", "-fno-access-control",
           "-w", "-emit-llvm", "-c", src, "-o", out] + ["-I" + i for i in incs] + list(flags)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise CompileError(r.stderr[-6000:])
    return cmd

class CompileError(Exception):
    pass

def demangle(names):
    out = subprocess.run(["llvm-cxxfilt-18"] if os.path.exists("/usr/bin/llvm-cxxfilt-18") else ["/usr/lib/llvm-18/bin/llvm-cxxfilt"],
                         input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, out))

PASSES = "always-inline,globaldce,function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,adce)"

def load(bc, is_contract, passes=PASSES, dump=None):
    """is_contract(demangled short name) -> True when the function is verified on its own / called through its contract."""
    L = lib()
    ctx = L.LLVMContextCreate()
    buf = C.c_void_p(); err = C.c_char_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(bc.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError(err.value)
    mod = C.c_void_p()
    if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(err)):
        raise RuntimeError(err.value)
    def vname(v):
        n = C.c_size_t(); s = L.LLVMGetValueName2(v, C.byref(n)); return s.decode() if s else ""
    fns = []
    f = L.LLVMGetFirstFunction(mod)
    while f:
        fns.append(f); f = L.LLVMGetNextFunction(f)
    names = [vname(f) for f in fns]
    dem = demangle(names)
    K = lambda s: L.LLVMGetEnumAttributeKindForName(s.encode(), len(s))
    kn, ka, ko = K("noinline"), K("alwaysinline"), K("optnone")
    an, aa = L.LLVMCreateEnumAttribute(ctx, kn, 0), L.LLVMCreateEnumAttribute(ctx, ka, 0)
    FI = 0xFFFFFFFF
    allnames = {}
    for f, n in zip(fns, names):
        if L.LLVMIsDeclaration(f):
            continue
        for k in (kn, ka, ko):
            L.LLVMRemoveEnumAttributeAtIndex(f, FI, k)
        keep = is_contract(dem[n])
        allnames[n] = (dem[n], bool(keep))
        if keep:
            L.LLVMAddAttributeAtIndex(f, FI, an)
        else:
            L.LLVMAddAttributeAtIndex(f, FI, aa)
    al = L.LLVMGetFirstGlobalAlias(mod)      # C1/C2 constructor aliases: call the aliasee directly, so it can be inlined
    while al:
        L.LLVMReplaceAllUsesWith(al, L.LLVMAliasGetAliasee(al))
        al = L.LLVMGetNextGlobalAlias(al)
    opts = L.LLVMCreatePassBuilderOptions()
    e = L.LLVMRunPasses(mod, passes.encode(), None, opts)
    if e:
        raise RuntimeError(L.LLVMGetErrorMessage(e).decode())
    if dump:
        p = L.LLVMPrintModuleToString(mod)
        open(dump, "wb").write(C.string_at(p)); L.LLVMDisposeMessage(p)
    dl = L.LLVMGetModuleDataLayout(mod)
    tcache = {}
    def ty(t):
        if t in tcache: return tcache[t]
        k = L.LLVMGetTypeKind(t)
        if k == 8:
            w = L.LLVMGetIntTypeWidth(t); r = Ty("int", w, (w + 7) // 8, L.LLVMABIAlignmentOfType(dl, t))
        elif k == 12: r = Ty("ptr", 64, 8, 8)
        elif k == 0: r = Ty("void")
        elif k == 3: r = Ty("double", 64, 8, 8)
        elif k == 2: r = Ty("float", 32, 4, 4)
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t)
            el = [ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try: sz, al = L.LLVMABISizeOfType(dl, t), L.LLVMABIAlignmentOfType(dl, t)
            except Exception: sz, al = 0, 1
            r = Ty("struct", 0, sz, al, el, [L.LLVMOffsetOfElement(dl, t, i) for i in range(n)])
        elif k == 11:
            r = Ty("array", 0, L.LLVMABISizeOfType(dl, t), L.LLVMABIAlignmentOfType(dl, t), elem=ty(L.LLVMGetElementType(t)), n=L.LLVMGetArrayLength(t))
        else:
            r = Ty("other")
        tcache[t] = r
        return r
    globs = {}
    def operand(v, ids):
        vk = L.LLVMGetValueKind(v)
        # LLVMValueKind: 0 Argument 1 BasicBlock 5 Function 6 GlobalAlias 7 GlobalIFunc 8 GlobalVariable 9 BlockAddress 10 ConstantExpr
        # 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 AggZero 16 DataArray 17 DataVector 18 ConstantInt 19 FP 20 PtrNull 21 TokenNone 22 Metadata 23 InlineAsm 24 Instruction 25 Poison
        if v in ids: return ("v", ids[v])
        if vk == 18:
            t = ty(L.LLVMTypeOf(v))
            if t.width > 64: return ("wide",)
            return ("c", L.LLVMConstIntGetZExtValue(v) if t.width == 1 else L.LLVMConstIntGetSExtValue(v))
        if vk == 20: return ("null",)
        if vk in (14, 25): return ("undef",)
        if vk == 5: return ("f", vname(v))
        if vk == 8:
            return ("g", vname(v))
        if vk == 15: return ("zero",)
        if vk == 19:
            li = C.c_int(); return ("d", L.LLVMConstRealGetDouble(v, C.byref(li)))
        if vk in (11, 12, 13, 16, 17):
            t = ty(L.LLVMTypeOf(v))
            n = t.n if t.kind == "array" else len(t.elems)
            return ("agg", [operand(L.LLVMGetAggregateElement(v, i), ids) for i in range(n)])
        if vk == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v), "?")
            args = [operand(L.LLVMGetOperand(v, i), ids) for i in range(L.LLVMGetNumOperands(v))]
            st = ty(L.LLVMGetGEPSourceElementType(v)) if op == "gep" else None
            return ("ce", op, ty(L.LLVMTypeOf(v)), args, st, [ty(L.LLVMTypeOf(L.LLVMGetOperand(v, i))) for i in range(L.LLVMGetNumOperands(v))])
        if vk == 22: return ("meta",)
        return ("unk", vk)
    M = Module(); M.fns = {}; M.decls = {}; M.dem = dem; M.all = allnames
    f = L.LLVMGetFirstFunction(mod)
    while f:
        n = vname(f)
        if L.LLVMIsDeclaration(f):
            M.decls[n] = dem.get(n, n)
            f = L.LLVMGetNextFunction(f); continue
        F = Fn(); F.name = n; F.dem = dem.get(n, n)
        ids = {}
        F.params = []
        ft = L.LLVMGlobalGetValueType(f)
        F.ret = ty(L.LLVMGetReturnType(ft))
        p = L.LLVMGetFirstParam(f); i = 0
        while p:
            ids[p] = "%%a%d" % i
            F.params.append(("%%a%d" % i, ty(L.LLVMTypeOf(p)), vname(p))); i += 1
            p = L.LLVMGetNextParam(p)
        bbs = []; b = L.LLVMGetFirstBasicBlock(f)
        while b:
            bbs.append(b); b = L.LLVMGetNextBasicBlock(b)
        bbid = {b: i for i, b in enumerate(bbs)}
        k = 0; order = []
        for b in bbs:
            ins = L.LLVMGetFirstInstruction(b); lst = []
            while ins:
                ids[ins] = "%%%d" % k; k += 1; lst.append(ins)
                ins = L.LLVMGetNextInstruction(ins)
            order.append(lst)
        F.blocks = []; F.bbnames = [L.LLVMGetBasicBlockName(b).decode() for b in bbs]
        F.vnames = {ids[v]: vname(v) for v in ids}
        for b, lst in zip(bbs, order):
            out = []
            for v in lst:
                I = Ins(); I.op = OPC.get(L.LLVMGetInstructionOpcode(v), "?"); I.id = ids[v]; I.ty = ty(L.LLVMTypeOf(v)); I.x = {}
                sp = L.LLVMPrintValueToString(v); I.text = C.string_at(sp).decode().strip()[:300]; L.LLVMDisposeMessage(sp)
                if I.op == "br" or I.op == "switch":
                    I.x["succ"] = [bbid[L.LLVMGetSuccessor(v, j)] for j in range(L.LLVMGetNumSuccessors(v))]
                    if I.op == "br":
                        I.args = [operand(L.LLVMGetOperand(v, 0), ids)] if len(I.x["succ"]) == 2 else []
                    else:
                        I.args = [operand(L.LLVMGetOperand(v, 0), ids)]
                        # operands: cond, default, (case, bb)*
                        I.x["cases"] = [operand(L.LLVMGetOperand(v, j), ids) for j in range(2, L.LLVMGetNumOperands(v), 2)]
                elif I.op == "phi":
                    I.args = [(operand(L.LLVMGetIncomingValue(v, j), ids), bbid[L.LLVMGetIncomingBlock(v, j)]) for j in range(L.LLVMCountIncoming(v))]
                elif I.op in ("call", "invoke"):
                    if I.op == "invoke": I.x["succ"] = [bbid[L.LLVMGetSuccessor(v, j)] for j in range(2)]
                    cv = L.LLVMGetCalledValue(v)
                    na = L.LLVMGetNumArgOperands(v)
                    I.args = [operand(L.LLVMGetOperand(v, j), ids) for j in range(na)]
                    I.x["tys"] = [ty(L.LLVMTypeOf(L.LLVMGetOperand(v, j))) for j in range(na)]
                    I.x["callee"] = operand(cv, ids)
                else:
                    no = L.LLVMGetNumOperands(v)
                    I.args = [operand(L.LLVMGetOperand(v, j), ids) for j in range(no)]
                    I.x["tys"] = [ty(L.LLVMTypeOf(L.LLVMGetOperand(v, j))) for j in range(no)]
                    if I.op == "icmp": I.x["pred"] = PRED[L.LLVMGetICmpPredicate(v)]
                    if I.op == "fcmp": I.x["pred"] = FPRED[L.LLVMGetFCmpPredicate(v)]
                    if I.op == "gep": I.x["src"] = ty(L.LLVMGetGEPSourceElementType(v))
                    if I.op == "alloca": I.x["aty"] = ty(L.LLVMGetAllocatedType(v))
                    if I.op in ("add", "sub", "mul", "shl"): I.x["nsw"] = bool(L.LLVMGetNSW(v)); I.x["nuw"] = bool(L.LLVMGetNUW(v))
                    if I.op in ("sdiv", "udiv", "lshr", "ashr"): I.x["exact"] = bool(L.LLVMGetExact(v))
                    if I.op in ("load", "store"): I.x["align"] = L.LLVMGetAlignment(v)
                    if I.op in ("extractvalue", "insertvalue"):
                        nn = L.LLVMGetNumIndices(v); ip = L.LLVMGetIndices(v); I.x["idx"] = [ip[j] for j in range(nn)]
                out.append(I)
            F.blocks.append(out)
        M.fns[n] = F
        f = L.LLVMGetNextFunction(f)
    g = L.LLVMGetFirstGlobal(mod)
    M.globs = {}
    while g:
        init = None
        try:
            iv = L.LLVMGetInitializer(g)
            if iv and L.LLVMIsGlobalConstant(g): init = operand(iv, {})
        except Exception:
            init = None
        M.globs[vname(g)] = (ty(L.LLVMGlobalGetValueType(g)), init, bool(L.LLVMIsGlobalConstant(g)))
        g = L.LLVMGetNextGlobal(g)
    return M

if __name__ == "__main__":
    compile_bc(sys.argv[1], "/tmp/x.bc", ["/repo/include", "/repo/src/benchmark"])
    M = load("/tmp/x.bc", lambda d: False)
    print(len(M.fns))
