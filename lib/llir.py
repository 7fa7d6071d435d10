"""The compiler's intermediate representation of the current sources, read through the LLVM C interface."""
import ctypes as C, os, re, subprocess, tempfile, glob
from eva import REPO, AnalysisBroken
_lib = None
def lib():
    global _lib
    if _lib is None:
        cand = glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*") + glob.glob("/usr/lib/*/libLLVM*18*")
        for p in sorted(cand, key=len):
            try: _lib = C.CDLL(p); break
            except OSError: pass
        if _lib is None: raise AnalysisBroken("libLLVM not found")
    return _lib
P = C.c_void_p
def fn(name, res, *args):
    f = getattr(lib(), name); f.restype = res; f.argtypes = list(args); return f
_cache = {}
def call(name, res, args, vals):
    f = _cache.get(name)
    if f is None: f = _cache[name] = fn(name, res, *args)
    return f(*vals)
def _p(name, v): return call(name, P, (P,), (v,))
def _u(name, v): return call(name, C.c_uint, (P,), (v,))
def _op(v, i): return call("LLVMGetOperand", P, (P, C.c_uint), (v, i))
def _str(name, v):
    n = C.c_size_t(0); f = _cache.get(name) or _cache.setdefault(name, fn(name, P, P, C.POINTER(C.c_size_t)))
    p = f(v, C.byref(n)); return C.string_at(p, n.value).decode("utf-8", "replace") if p else ""
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 60: "addrspacecast", 66: "fneg", 67: "callbr", 68: "freeze"}
# value kinds (LLVMValueKind)
KIND = {0: "arg", 1: "block", 3: "function", 4: "alias", 6: "global", 8: "cvector_", 9: "carray", 10: "cstruct", 7: "blockaddr", 11: "cvector", 12: "undef", 13: "czero", 14: "carraydata", 15: "cvecdata", 16: "cint", 17: "cfp", 18: "cnull", 19: "ctoken", 20: "metadata", 21: "asm", 22: "inst", 23: "poison", 24: "ctarget", 10: "cstruct", 9: "carray", 8: "cexpr"}
KIND[8] = "cexpr"

def compile_ir(src, defs=(), passes="mem2reg", opt="-O0", std="-std=gnu11", cxx=False, debug=True):
    d = tempfile.mkdtemp(prefix="zvir"); p = os.path.join(d, "a." + ("cpp" if cxx else "c")); o = os.path.join(d, "a.bc"); q = os.path.join(d, "b.bc")
    open(p, "w").write(src)
    try:
        r = subprocess.run(["clang++" if cxx else "clang", std, opt, "-w"] + (["-g"] if debug else []) + ["-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-ffp-contract=off", "-emit-llvm", "-c", "-I" + REPO + "/code"] + list(defs) + [p, "-o", o], capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken("the sources do not compile to IR: " + r.stderr[-800:])
        if passes:
            r = subprocess.run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "/usr/lib/llvm-18/bin/opt", "-passes=" + passes, o, "-o", q], capture_output=True, text=True)
            if r.returncode: raise AnalysisBroken("opt failed: " + r.stderr[-500:])
        else: q = o
        return Module(q)
    finally:
        for f in (p, o, q):
            if os.path.exists(f): os.unlink(f)
        os.rmdir(d)

class Module:
    def __init__(self, path):
        L = lib(); buf = P(); msg = C.c_char_p()
        f = L.LLVMCreateMemoryBufferWithContentsOfFile; f.argtypes = [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]
        if f(path.encode(), C.byref(buf), C.byref(msg)): raise AnalysisBroken("cannot read IR")
        g = L.LLVMContextCreate; g.restype = P; ctx = g()
        m = P(); h = L.LLVMParseIRInContext; h.argtypes = [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]
        if h(ctx, buf, C.byref(m), C.byref(msg)): raise AnalysisBroken("cannot parse IR: %s" % msg.value)
        self.m = m; self.ctx = ctx
        self.vals = {}
        self.functions = {}
        v = _p("LLVMGetFirstFunction", m)
        while v:
            x = Function(self, v); self.functions[x.name] = x; self.vals[v] = x; v = _p("LLVMGetNextFunction", v)
        for x in list(self.functions.values()): x.build()
    def val(self, v):
        if v is None: return None
        x = self.vals.get(v)
        if x is None: x = self.vals[v] = Value(self, v)
        return x

class Value:
    def __init__(self, mod, v):
        self.mod, self.v = mod, v
        k = call("LLVMGetValueKind", C.c_int, (P,), (v,))
        self.kind = KINDNAME(k)
        self.name = _str("LLVMGetValueName2", v)
        self._ops = None
        self.index = None
    @property
    def type(self):
        t = _p("LLVMTypeOf", self.v); s = call("LLVMPrintTypeToString", P, (P,), (t,)); r = C.string_at(s).decode(); return r
    @property
    def ops(self):
        if self._ops is None:
            n = call("LLVMGetNumOperands", C.c_int, (P,), (self.v,))
            self._ops = [self.mod.val(_op(self.v, i)) for i in range(n)]
        return self._ops
    @property
    def int(self): return call("LLVMConstIntGetSExtValue", C.c_longlong, (P,), (self.v,)) if self.kind == "cint" else None
    @property
    def text(self):
        s = call("LLVMPrintValueToString", P, (P,), (self.v,)); return C.string_at(s).decode("utf-8", "replace").strip()
    @property
    def initializer(self): return self.mod.val(_p("LLVMGetInitializer", self.v)) if self.kind == "global" else None
    @property
    def isconst(self): return bool(call("LLVMIsGlobalConstant", C.c_int, (P,), (self.v,))) if self.kind == "global" else False
    @property
    def cstring(self):
        """the bytes of a constant character array, or None"""
        if self.kind == "czero" and self.type.endswith("x i8]"): return b"\0" * int(self.type[1:].split(" ")[0])
        if self.kind != "carraydata" or not self.type.endswith("x i8]"): return None
        n = C.c_size_t(0); f = _cache.get("gas") or _cache.setdefault("gas", fn("LLVMGetAsString", P, P, C.POINTER(C.c_size_t)))
        p = f(self.v, C.byref(n)); return C.string_at(p, n.value)
    @property
    def constop(self): return OPC.get(call("LLVMGetConstOpcode", C.c_int, (P,), (self.v,))) if self.kind == "cexpr" else None
    def __repr__(self): return self.text[:120]

_kn = None
def KINDNAME(k):
    # order of llvm-c/Core.h LLVMValueKind in LLVM 18
    names = ["arg", "block", "memuse", "memdef", "memphi", "function", "alias", "ifunc", "global", "blockaddr", "cexpr", "carray", "cstruct", "cvector", "undef", "czero", "carraydata", "cvecdata", "cint", "cfp", "cnull", "ctoken", "metadata", "asm", "inst", "poison", "ctarget"]
    return names[k] if k < len(names) else "other"

class Inst(Value):
    def __init__(self, fun, blk, v):
        Value.__init__(self, fun.mod, v); self.fun, self.block = fun, blk
        self.op = OPC.get(call("LLVMGetInstructionOpcode", C.c_int, (P,), (v,)), "?")
    @property
    def callee(self):
        return self.mod.val(_p("LLVMGetCalledValue", self.v)) if self.op in ("call", "invoke") else None
    @property
    def args(self):
        n = call("LLVMGetNumArgOperands", C.c_uint, (P,), (self.v,)); return self.ops[:n]
    @property
    def pred(self): return call("LLVMGetICmpPredicate", C.c_int, (P,), (self.v,))
    @property
    def line(self): return _u("LLVMGetDebugLocLine", self.v)
    @property
    def file(self): return _dbgfile(self.v)
    @property
    def where(self):
        f = self.file; k = f.find("/code/"); f = f[k + 1:] if k >= 0 else f
        return "%s:%d" % (f, self.line)
    def incoming(self):
        n = _u("LLVMCountIncoming", self.v)
        return [(self.mod.val(call("LLVMGetIncomingValue", P, (P, C.c_uint), (self.v, i))), call("LLVMGetIncomingBlock", P, (P, C.c_uint), (self.v, i))) for i in range(n)]

def _dbgfile(v):
    n = C.c_uint(0); f = _cache.get("dbf") or _cache.setdefault("dbf", fn("LLVMGetDebugLocFilename", P, P, C.POINTER(C.c_uint)))
    p = f(v, C.byref(n)); return C.string_at(p, n.value).decode() if p and n.value else "?"

class Function(Value):
    def __init__(self, mod, v):
        Value.__init__(self, mod, v)
        self.decl = bool(call("LLVMIsDeclaration", C.c_int, (P,), (v,)))
        self.linkage = call("LLVMGetLinkage", C.c_int, (P,), (v,))   # 8 internal, 9 private
        self.internal = self.linkage in (8, 9)
        t = call("LLVMGlobalGetValueType", P, (P,), (v,)); self.vararg = bool(call("LLVMIsFunctionVarArg", C.c_int, (P,), (t,)))
        self.ftype = C.string_at(call("LLVMPrintTypeToString", P, (P,), (t,))).decode()
        self.params = []; self.blocks = []
    def build(self):
        n = _u("LLVMCountParams", self.v)
        for i in range(n):
            a = self.mod.val(call("LLVMGetParam", P, (P, C.c_uint), (self.v, i))); a.index = i; a.fun = self; self.params.append(a)
        b = _p("LLVMGetFirstBasicBlock", self.v)
        while b:
            blk = Block(self, b); self.blocks.append(blk); self.mod.vals[b] = blk
            i = _p("LLVMGetFirstInstruction", b)
            while i:
                x = Inst(self, blk, i); self.mod.vals[i] = x; blk.insts.append(x); i = _p("LLVMGetNextInstruction", i)
            b = _p("LLVMGetNextBasicBlock", b)
    def insts(self):
        for b in self.blocks:
            for i in b.insts: yield i

class Block(Value):
    def __init__(self, fun, b):
        self.mod, self.v, self.fun, self.kind = fun.mod, b, fun, "block"; self.insts = []; self._ops = []; self.index = None
        self.name = C.string_at(call("LLVMGetBasicBlockName", P, (P,), (b,))).decode()
    @property
    def succs(self):
        t = _p("LLVMGetBasicBlockTerminator", self.v)
        if not t: return []
        n = _u("LLVMGetNumSuccessors", t)
        return [self.mod.vals[call("LLVMGetSuccessor", P, (P, C.c_uint), (t, i))] for i in range(n)]
