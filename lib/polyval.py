"""Value numbering of compiled arithmetic over canonical rational functions: every floating value of a function is the
polynomial quotient (in the components of its inputs, and square roots or transcendental applications of such quotients)
that real arithmetic gives it. Branch conditions on inputs are assumed one way or the other, consistently."""
import struct, ctypes
from fractions import Fraction as Q
import llir
from llir import call, P
import ctypes as C

class Stop(Exception): pass          # a construct outside the domain
class Bad(Exception): pass           # the function itself does something wrong (out of bounds, ...)

# ---- polynomials: dict monomial -> Fraction; monomial = tuple of (var, exp) sorted
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for v, e in n: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    r = {}
    for m, c in a.items():
        for n, k in b.items():
            x = mmul(m, n); v = r.get(x, 0) + c * k
            if v: r[x] = v
            else: r.pop(x, None)
    return r
ONE = {(): Q(1)}
def pkey(p): return tuple(sorted(p.items()))
def pconst(p): return p.get((), Q(0)) if all(m == () for m in p) else None

class R:
    """numerator / product of factors"""
    __slots__ = ("n", "d")
    def __init__(self, n, d=None): self.n = n; self.d = d or {}
    @staticmethod
    def const(x): x = Q(x); return R({(): x} if x else {})
    @staticmethod
    def var(v): return R({((v, 1),): Q(1)})
    def cval(self): return pconst(self.n) if not self.d else (Q(0) if not self.n else None)
    def __add__(self, o, k=1):
        o = lift(o)
        if not o.n: return self
        if not self.n: return o if k == 1 else R(padd({}, o.n, -1), o.d)
        if self.d == o.d: return R(padd(self.n, o.n, k), self.d).simp()
        d = dict(self.d)
        for f, e in o.d.items(): d[f] = max(d.get(f, 0), e)
        return R(padd(up(self, d), up(o, d), k), d).simp()
    def __sub__(self, o): return self.__add__(o, -1)
    def __radd__(self, o): return lift(o) + self
    def __rsub__(self, o): return lift(o) - self
    def __neg__(self): return R({m: -c for m, c in self.n.items()}, self.d)
    def __mul__(self, o):
        o = lift(o); d = dict(self.d)
        for f, e in o.d.items(): d[f] = d.get(f, 0) + e
        n1, n2 = self.n, o.n
        r = R(pmul(n1, n2), d); return r.simp()
    def __rmul__(self, o): return lift(o) * self
    def inv(self):
        if not self.n: raise Bad("divides by zero for every input")
        n = dict(ONE)
        for f, e in self.d.items():
            for _ in range(e): n = pmul(n, dict(f))
        c = pconst(self.n)
        if c is not None: return R({m: k / c for m, k in n.items()})
        lead = self.n[min(self.n)]
        return R({m: k / lead for m, k in n.items()}, {pkey({m: k / lead for m, k in self.n.items()}): 1})
    def __truediv__(self, o): return self * lift(o).inv()
    def __rtruediv__(self, o): return lift(o) * self.inv()
    def simp(self):
        if not self.n: return R({})
        if self.d:
            for f in list(self.d):
                c = None
                g = dict(f)
                if len(g) == 1:
                    (m, k), = g.items()                      # a single term: cancel common powers
                    e = self.d[f]; d = dict(self.d); n = self.n; done = 0
                    while e and all(all(dict(x).get(v, 0) >= ex for v, ex in m) for x in n):
                        n = {tuple((v, ex - dict(m).get(v, 0)) for v, ex in x if ex - dict(m).get(v, 0)): c / k for x, c in n.items()}; e -= 1; done = 1
                    if done:
                        if e: d[f] = e
                        else: d.pop(f)
                        return R(n, d).simp()
                elif len(g) == len(self.n):
                    k = self.n.get(min(g)); g0 = g[min(g)]
                    if k and all(self.n.get(m) == c * k / g0 for m, c in g.items()):
                        d = dict(self.d); d[f] -= 1
                        if not d[f]: d.pop(f)
                        return R({(): k / g0}, d)
        return self
    def vars(self):
        s = set()
        for m in self.n: s |= {v for v, _ in m}
        for f in self.d:
            for m, _ in f: s |= {v for v, _ in m}
        return s
    def show(self):
        def ps(p):
            t = []
            for m, c in sorted(p.items())[:12]:
                x = "*".join(v if e == 1 else "%s^%d" % (v, e) for v, e in m)
                t.append(("%s" % (c if c.denominator == 1 else float(c)) + ("*" + x if x else "")) if c != 1 or not x else x)
            return " + ".join(t) + (" + ..." if len(p) > 12 else "") if t else "0"
        s = ps(self.n)
        if self.d: s = "(%s) / (%s)" % (s, " * ".join("(%s)^%d" % (ps(dict(f)), e) if e > 1 else "(%s)" % ps(dict(f)) for f, e in self.d.items()))
        return s[:300]
def lift(x): return x if isinstance(x, R) else R.const(x)
def up(r, d):
    n = r.n
    for f, e in d.items():
        for _ in range(e - r.d.get(f, 0)): n = pmul(n, dict(f))
    return n

def qsqrt(c):
    import math
    if c < 0: return None
    p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Q(p, q) if p * p == c.numerator and q * q == c.denominator else None

class Atoms:
    """applications of functions that are not rational: one symbol per function and equal arguments"""
    def __init__(self): self.tab = []; self.rel = []      # rel: (variable, R) with variable^2 = R assumed
    def find(self, name, args):
        for nm, as_, v in self.tab:
            if nm == name and len(as_) == len(args) and all(self.zero(x - y) for x, y in zip(as_, args)): return v
        return None
    def new(self, name, args):
        v = self.find(name, args)
        if v is None: v = "%s#%d" % (name, len(self.tab)); self.tab.append((name, args, v))
        return R.var(v)
    def def_of(self, r):
        """(name, args) when r is exactly one application"""
        if r.d or len(r.n) != 1: return None
        (m, c), = r.n.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1: return None
        for nm, as_, v in self.tab:
            if v == m[0][0]: return nm, as_
        return None
    def app(self, name, *args):
        args = [lift(a) for a in args]; a = args[0]
        if name == "sqrt":
            a = self.canon(a)
            if not a.n: return R.const(0)
            num, pre = dict(a.n), R.const(1); den = {}
            for f, e in a.d.items():                 # square root of a quotient: roots are not negative, so their even powers come out
                g = dict(f)
                if len(g) == 1 and next(iter(g.values())) == 1 and all(v.startswith("sqrt#") for v, _ in next(iter(g))):
                    (m, c), = g.items(); outm = []; inm = []
                    for v, x in m:
                        if (x * e) // 2: outm.append((v, (x * e) // 2))
                        if (x * e) % 2: inm.append((v, 1))
                    if outm: pre = pre * R({tuple(outm): Q(1)}).inv()
                    if inm: den[pkey({tuple(inm): Q(1)})] = 1
                else: den[f] = e
            lead = num[min(num)]; s = qsqrt(abs(lead))
            if s: pre = pre * s; num = {m: c / (s * s) for m, c in num.items()}
            arg = R(num, den).simp()
            if arg.cval() == 1: return pre
            return pre * self.new("sqrt", [arg])
        d = self.def_of(a) if len(args) == 1 else None
        if name in ("sin", "tan", "atan", "asin") and len(args) == 1:
            if a.cval() == 0: return R.const(0)
            if name == "sin" and d and d[0] == "acos": return self.app("sqrt", R.const(1) - d[1][0] * d[1][0])
            if name == "sin" and d and d[0] == "asin": return d[1][0]
            if a.n[min(a.n)] < 0: return -self.app(name, -a)
        if name == "cos":
            if a.cval() == 0: return R.const(1)
            if d and d[0] == "acos": return d[1][0]
            if d and d[0] == "asin": return self.app("sqrt", R.const(1) - d[1][0] * d[1][0])
            if a.n[min(a.n)] < 0: return self.app(name, -a)
        if name == "tan":                            # tan = sin / cos
            return self.app("sin", a) / self.app("cos", a)
        if name == "exp" and a.cval() == 0: return R.const(1)
        if name == "log" and a.cval() == 1: return R.const(0)
        return self.new(name, args)
    def subst(self, n, v, sq):
        """numerator and denominator with v^2 replaced by sq"""
        parts = [R({}), R({})]; pw = [R.const(1)]
        for m, c in n.items():
            e = dict(m).get(v, 0); rest = tuple((x, k) for x, k in m if x != v)
            while len(pw) <= e // 2: pw.append(pw[-1] * sq)
            parts[e % 2] = parts[e % 2] + R({rest: c}) * pw[e // 2]
        return parts
    def canon(self, r):
        """squares of roots and of related variables replaced in the numerator"""
        for v, sq in self.rel + [(v, as_[0]) for nm, as_, v in reversed(self.tab) if nm == "sqrt"]:
            if any(x == v and e > 1 for m in r.n for x, e in m):
                p = self.subst(r.n, v, sq); r = (p[0] + p[1] * R.var(v)) * R(dict(ONE), r.d)
        return r
    def reduce(self, n):
        for v, sq in self.rel:
            if any(x == v and e > 1 for m in n for x, e in m):
                p = self.subst(n, v, sq); n = (p[0] + p[1] * R.var(v)).n
        return n
    def zero(self, r, tol=0):
        """is r identically zero, using root(p)^2 = p, sin^2 + cos^2 = 1 and the relations assumed"""
        n = r.n
        if not n: return True
        subs = [(v, as_[0]) for nm, as_, v in reversed(self.tab) if nm == "sqrt"]
        for nm, as_, v in self.tab:
            if nm == "sin" and any(x == v and e > 1 for m in n for x, e in m):
                c = self.find("cos", as_)
                if c: subs.append((v, R.const(1) - R.var(c) * R.var(c)))
        for v, sq in subs + self.rel:
            if not any(x == v for m in n for x, _ in m): continue
            p = self.subst(n, v, sq)
            if v.startswith("sqrt#") or not p[1].n: return all(self.zero(R(q.n), tol) for q in p) if p[1].n else self.zero(R(p[0].n), tol)
            n = (p[0] + p[1] * R.var(v)).n
            if not n: return True
        return bool(tol) and all(abs(c) <= tol for c in n.values())
    def equal(self, a, b, facts=None):
        """equal up to the rounding of written constants, or forced equal by the assumptions made"""
        a, b = lift(a), lift(b)
        if self.zero(a - b): return True
        d = dict(a.d)
        for f, e in b.d.items(): d[f] = max(d.get(f, 0), e)
        x, y = up(a, d), up(b, d); df = padd(x, y, -1)
        scale = max([abs(c) for c in list(x.values()) + list(y.values())] or [Q(1)])
        if self.zero(R(df), scale * Q(4, 10**6)): return True
        if facts is not None:
            p = facts.poly(a - b)
            return not facts.feasible(facts.cons + [(p, True)]) and not facts.feasible(facts.cons + [({m: -c for m, c in p.items()}, True)])
        return False

# ---- conditions
class Facts:
    """linear (in monomials) constraints assumed so far; decides or forks a comparison"""
    def __init__(self, script, atoms): self.script = script; self.k = 0; self.cons = []; self.A = atoms; self.trunced = set(); self.signs = {}
    def assume(self, r, strict=False): self.cons.append((self.poly(lift(r)), strict))
    def feasible(self, cons):
        """Fourier-Motzkin over monomials; cons = [(poly, strict)] meaning poly > 0 or >= 0"""
        cs = []
        if cons and len(cons) > 1:               # only what shares a monomial with the newest constraint, transitively
            rel = {m for m in cons[-1][0] if m != ()}; rest = list(cons[:-1]); keep = [cons[-1]]; ch = True
            while ch and rest:
                ch = False; left = []
                for k in rest:
                    if any(m in rel for m in k[0]): keep.append(k); rel |= {m for m in k[0] if m != ()}; ch = True
                    else: left.append(k)
                rest = left
            cons = keep
        seen0 = set()
        for p, s in cons:
            k = (pkey(p), s)
            if k in seen0: continue
            seen0.add(k)
            c = pconst(p)
            if c is not None:
                if c < 0 or (s and c == 0): return False
                continue
            cs.append((p, s))
        vs = {m for p, _ in cs for m in p if m != ()}
        while vs:
            v = min(vs, key=lambda m: sum(1 for p, _ in cs if p.get(m, 0) > 0) * sum(1 for p, _ in cs if p.get(m, 0) < 0)); vs.discard(v)
            pos = [(p, s) for p, s in cs if p.get(v, 0) > 0]; neg = [(p, s) for p, s in cs if p.get(v, 0) < 0]; cs = [(p, s) for p, s in cs if not p.get(v, 0)]
            if len(pos) * len(neg) > 4000: return True
            seen = set()
            for p, s in pos:
                for q, t in neg:
                    r = padd({m: c * -q[v] for m, c in p.items()}, q, p[v]); r.pop(v, None)
                    c = pconst(r)
                    if c is not None:
                        if c < 0 or ((s or t) and c == 0): return False
                        continue
                    lead = abs(r[min(r)]); r = {m: c / lead for m, c in r.items()}
                    k = (pkey(r), s or t)
                    if k not in seen: seen.add(k); cs.append((r, s or t))
        return True
    def poly(self, r):
        d = self.A.def_of(r)
        if d and d[0] == "sqrt": r = d[1][0]     # a root is positive exactly when its argument is
        n = r.n
        for f, e in r.d.items():                 # sign of a quotient: multiply by the denominator where its power is odd
            if e % 2 and len(f) == 1 and len(f[0][0]) == 1 and f[0][0][0][0] in self.signs:
                if (f[0][1] > 0) != (self.signs[f[0][0][0][0]] ** f[0][0][0][1] > 0): n = {m: -c for m, c in n.items()}
            elif e % 2 and not (len(f) == 1 and f[0][1] > 0 and all(v.startswith("sqrt#") for v, _ in f[0][0])): n = pmul(n, dict(f))
        return self.A.reduce(n)
    def positive(self, r, strict):
        """is r > 0 (or >= 0)?"""
        d = self.A.def_of(r)
        if d and d[0] == "sqrt" and not strict: return True
        p = self.poly(r); c = pconst(p)
        if c is not None: return c > 0 or (not strict and c == 0)
        lead = abs(p[min(p)]); p = {m: k / lead for m, k in p.items()}
        yes = (p, strict); no = ({m: -k for m, k in p.items()}, not strict)
        fy, fn_ = self.feasible(self.cons + [yes]), self.feasible(self.cons + [no])
        if fy and fn_:
            if self.k < len(self.script): ans = self.script[self.k]
            else: ans = True; self.script.append(True)
            self.k += 1
        else: ans = fy
        self.cons.append(yes if ans else no); return ans

class Ptr:
    __slots__ = ("o", "off")
    def __init__(self, o, off=0): self.o, self.off = o, off
class Obj:
    def __init__(self, name, size): self.name, self.size, self.cells = name, size, {}

LIBM = {"sqrtf": "sqrt", "sqrt": "sqrt", "sinf": "sin", "cosf": "cos", "tanf": "tan", "asinf": "asin", "acosf": "acos", "atanf": "atan", "atan2f": "atan2", "sin": "sin", "cos": "cos", "tan": "tan",
        "expf": "exp", "logf": "log", "powf": "pow", "llvm.sqrt.f32": "sqrt", "llvm.sqrt.f64": "sqrt", "llvm.sin.f32": "sin", "llvm.cos.f32": "cos", "llvm.exp.f32": "exp", "llvm.log.f32": "log", "llvm.pow.f32": "pow", "asin": "asin", "acos": "acos", "atan2": "atan2"}

def tsize(t):
    t = t.strip()
    if t in ("float", "i32"): return 4
    if t in ("double", "i64", "ptr"): return 8
    if t == "i16": return 2
    if t in ("i8", "i1"): return 1
    return None

class Interp:
    def __init__(self, mod, atoms, facts, limit=60000):
        self.mod, self.A, self.F, self.limit = mod, atoms, facts, limit; self.steps = 0
        self.dl = call("LLVMGetModuleDataLayout", P, (P,), (mod.m,)); self.funcs = set()
    # types through the C interface
    def size(self, ty): return call("LLVMABISizeOfType", C.c_ulonglong, (P, P), (self.dl, ty))
    def kind(self, ty): return call("LLVMGetTypeKind", C.c_int, (P,), (ty,))
    def tyof(self, v): return call("LLVMTypeOf", P, (P,), (v.v,))
    def elems(self, ty):
        """[(offset, leaf type)] of a type"""
        k = self.kind(ty)
        if k == 10:   # struct
            n = call("LLVMCountStructElementTypes", C.c_uint, (P,), (ty,)); r = []
            for i in range(n):
                t = call("LLVMStructGetTypeAtIndex", P, (P, C.c_uint), (ty, i)); off = call("LLVMOffsetOfElement", C.c_ulonglong, (P, P, C.c_uint), (self.dl, ty, i))
                r.append((off, t))
            return r
        if k in (11, 13):
            n = call("LLVMGetArrayLength" if k == 11 else "LLVMGetVectorSize", C.c_uint, (P,), (ty,)); t = call("LLVMGetElementType", P, (P,), (ty,)); s = self.size(t)
            return [(i * s, t) for i in range(n)]
        return None
    def loadt(self, p, ty):
        es = self.elems(ty)
        if es is not None: return [self.loadt(Ptr(p.o, p.off + o), t) for o, t in es]
        n = self.size(ty)
        if p.o is None: raise Bad("reads through a null pointer")
        if p.off < 0 or p.off + n > p.o.size: raise Bad("reads outside %s (offset %d)" % (p.o.name, p.off))
        c = p.o.cells.get(p.off)
        if c is None or c[1] != n:
            if n == 8 and self.kind(ty) in (8, 3):      # two adjacent single cells moved as one
                a, b = p.o.cells.get(p.off), p.o.cells.get(p.off + 4)
                if a and b and a[1] == 4 and b[1] == 4: return ("pair", a[0], b[0])
            if c is None and not any(p.off <= o < p.off + n for o in p.o.cells): return ("undef",)
            raise Stop("reads part of a value")
        return c[0]
    def storet(self, p, v, ty):
        es = self.elems(ty)
        if es is not None:
            if isinstance(v, tuple) and v and v[0] in ("undef", "zero"): v = [v] * len(es)
            for (o, t), x in zip(es, v): self.storet(Ptr(p.o, p.off + o), x, t)
            return
        n = self.size(ty)
        if p.o is None: raise Bad("writes through a null pointer")
        if p.off < 0 or p.off + n > p.o.size: raise Bad("writes outside %s (offset %d)" % (p.o.name, p.off))
        if v == ("zero",): v = R.const(0) if self.kind(ty) in (2, 3) else 0
        if isinstance(v, tuple) and v[0] == "pair":
            p.o.cells.pop(p.off, None); p.o.cells[p.off] = (v[1], 4); p.o.cells[p.off + 4] = (v[2], 4); return
        for o in [o for o, c in p.o.cells.items() if o < p.off + n and o + c[1] > p.off]: del p.o.cells[o]
        p.o.cells[p.off] = (v, n)
    def copy(self, d, s, n):
        if s.off < 0 or s.off + n > s.o.size: raise Bad("copies %d bytes out of %s, which has %d" % (n, s.o.name, s.o.size))
        if d.off < 0 or d.off + n > d.o.size: raise Bad("copies %d bytes into %s, which has %d" % (n, d.o.name, d.o.size))
        cs = [(o, c) for o, c in s.o.cells.items() if o < s.off + n and o + c[1] > s.off]
        if any(o < s.off or o + c[1] > s.off + n for o, c in cs): raise Stop("copies part of a value")
        for o in [o for o, c in d.o.cells.items() if o < d.off + n and o + c[1] > d.off]: del d.o.cells[o]
        for o, c in cs: d.o.cells[o - s.off + d.off] = c
    def const(self, v):
        k = v.kind
        if k == "cint": return v.int
        if k == "cfp":
            li = C.c_int(0); x = call("LLVMConstRealGetDouble", C.c_double, (P, C.POINTER(C.c_int)), (v.v, C.byref(li)))
            if x != x or x in (float("inf"), float("-inf")): return ("undef",)
            return R.const(Q(x))
        if k == "cnull": return Ptr(None)
        if k in ("undef", "poison"): return ("undef",)
        if k == "czero": return self.zero(self.tyof(v))
        if k in ("cvecdata", "carraydata"):
            n = len(self.elems(self.tyof(v))); f = "LLVMGetElementAsConstant"
            return [self.const(self.mod.val(call(f, P, (P, C.c_uint), (v.v, i)))) for i in range(n)]
        if k in ("cvector", "carray", "cstruct"): return [self.const(o) for o in v.ops]
        if k == "global":
            o = self.globals.get(v.v) if hasattr(self, "globals") else None
            if not hasattr(self, "globals"): self.globals = {}
            if o is None:
                ty = call("LLVMGlobalGetValueType", P, (P,), (v.v,)); o = Obj(v.name, self.size(ty)); self.globals[v.v] = o
                if v.initializer is not None: self.storet(Ptr(o), self.const(v.initializer), ty)
            return Ptr(o)
        if k == "function": return v
        raise Stop("constant %s" % v.text[:60])
    def zero(self, ty):
        es = self.elems(ty)
        if es is not None: return [self.zero(t) for _, t in es]
        k = self.kind(ty)
        return R.const(0) if k in (2, 3) else Ptr(None) if k == 12 else 0
    def run(self, f, args, depth=0):
        if f.decl: raise Stop("calls %s" % f.name)
        if depth > 12: raise Stop("recursion")
        self.funcs.add(f.name)
        env = {}
        for p, a in zip(f.params, args): env[p.v] = a
        def g(v):
            if v.kind in ("inst", "arg"):
                if v.v not in env: raise Stop("value used before definition")
                return env[v.v]
            if v.kind == "cexpr":
                if v.constop == "getelementptr": return self.gep(v, g)
                raise Stop("constant expression")
            return self.const(v)
        blk = f.blocks[0]; prev = None
        while True:
            nxt = None
            phis = {}
            for i in blk.insts:
                if i.op != "phi": break
                for val, b in i.incoming():
                    if b == prev.v: phis[i.v] = g(val)
            env.update(phis)
            for i in blk.insts:
                if i.op == "phi": continue
                self.steps += 1
                if self.steps > self.limit: raise Stop("too long")
                if i.op == "ret": return g(i.ops[0]) if i.ops else None
                if i.op == "br":
                    if len(i.ops) == 1: nxt = i.ops[0]
                    else: nxt = i.ops[2] if self.truth(g(i.ops[0])) else i.ops[1]
                    break
                if i.op == "switch":
                    x = g(i.ops[0]); nxt = i.ops[1]
                    if not isinstance(x, int): raise Stop("switch on unknown value")
                    for k in range(2, len(i.ops), 2):
                        if i.ops[k].int == x: nxt = i.ops[k + 1]
                    break
                if i.op == "unreachable": raise Bad("reaches an assertion failure")
                env[i.v] = self.inst(i, g, depth)
            prev = blk; blk = self.mod.vals[nxt.v]
    def truth(self, c):
        if isinstance(c, int): return bool(c)
        if isinstance(c, tuple) and c[0] == "cond": return c[1]()
        raise Stop("branch on unknown value")
    def gep(self, v, g):
        b = g(v.ops[0])
        ty = call("LLVMGetGEPSourceElementType", P, (P,), (v.v,)); off = 0
        for k, o in enumerate(v.ops[1:]):
            x = g(o)
            if not isinstance(x, int): raise Stop("index not constant")
            if k == 0: off += x * self.size(ty); continue
            kd = self.kind(ty)
            if kd == 10:
                off += call("LLVMOffsetOfElement", C.c_ulonglong, (P, P, C.c_uint), (self.dl, ty, x)); ty = call("LLVMStructGetTypeAtIndex", P, (P, C.c_uint), (ty, x))
            else: ty = call("LLVMGetElementType", P, (P,), (ty,)); off += x * self.size(ty)
        if not isinstance(b, Ptr): raise Stop("address of unknown object")
        return Ptr(b.o, b.off + off)
    def vec(self, f, *xs):
        if any(isinstance(x, list) for x in xs):
            n = max(len(x) for x in xs if isinstance(x, list)); return [f(*[x[i] for x in xs]) for i in range(n)]
        return f(*xs)
    def num(self, x):
        if isinstance(x, R): return x
        if isinstance(x, tuple) and x[0] == "undef": raise Bad("computes with a value nothing has set")
        raise Stop("arithmetic on a value that is not a number")
    def inst(self, i, g, depth):
        op = i.op; o = i.ops
        if op == "alloca":
            ty = call("LLVMGetAllocatedType", P, (P,), (i.v,)); return Ptr(Obj(i.name or "local", self.size(ty)))
        if op == "load": return self.loadt(g(o[0]), self.tyof(i))
        if op == "store": self.storet(g(o[1]), g(o[0]), self.tyof(o[0])); return None
        if op == "getelementptr": return self.gep(i, g)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            F = {"fadd": lambda a, b: self.num(a) + self.num(b), "fsub": lambda a, b: self.num(a) - self.num(b), "fmul": lambda a, b: self.num(a) * self.num(b), "fdiv": lambda a, b: self.num(a) / self.num(b)}[op]
            return self.vec(F, g(o[0]), g(o[1]))
        if op == "fneg": return self.vec(lambda a: -self.num(a), g(o[0]))
        if op in ("fpext", "fptrunc", "freeze", "bitcast"):
            x = g(o[0])
            if op == "bitcast" and self.elems(self.tyof(i)) is not None and isinstance(x, tuple) and x[0] == "pair": return [x[1], x[2]]
            if op == "bitcast" and isinstance(x, list) and len(x) == 2: return ("pair", x[0], x[1])
            return x
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr", "sdiv", "srem"):
            a, b = g(o[0]), g(o[1])
            if op in ("and", "or", "xor") and i.type == "i1":
                if op == "xor": a, b = self.truth(a), self.truth(b); return int(a != b)
                a, b = self.truth(a), self.truth(b); return int(a and b) if op == "and" else int(a or b)
            if op in ("and", "or", "xor") and not (isinstance(a, int) and isinstance(b, int)):    # the bits of a floating value
                if isinstance(a, int): a, b = b, a
                full = (1 << (8 * self.size(self.tyof(i)))) - 1; top = (full + 1) >> 1
                if op == "and" and isinstance(a, R) and isinstance(b, int):
                    if b & full == full ^ top: return a if self.F.positive(a, False) else -a
                    if b & full == top: return ("sign", a)
                if op != "and" and isinstance(a, R) and isinstance(b, int) and b & full == top:
                    return -a if op == "xor" else (-a if self.F.positive(a, False) else a)
                if op == "xor":
                    if isinstance(b, R): a, b = b, a
                    if isinstance(a, R) and isinstance(b, tuple) and b[0] == "sign": return a if self.F.positive(b[1], False) else -a
                if op == "or":
                    if isinstance(b, R): a, b = b, a
                    if isinstance(a, R) and isinstance(b, tuple) and b[0] == "sign" and self.F.positive(a, False): return a if self.F.positive(b[1], False) else -a
                raise Stop("bit operation on a number")
            if (isinstance(a, R) or isinstance(b, R)) and op in ("add", "sub", "mul") and isinstance(a, (R, int)) and isinstance(b, (R, int)):
                return {"add": lambda: lift(a) + b, "sub": lambda: lift(a) - b, "mul": lambda: lift(a) * b}[op]()
            if not isinstance(a, int) or not isinstance(b, int): raise Stop("integer arithmetic on unknown values")
            return {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b, "shl": a << b, "ashr": a >> b, "lshr": a >> b, "sdiv": int(a / b) if b else 0, "srem": a - b * int(a / b) if b else 0}[op]
        if op in ("zext", "sext", "trunc"):
            x = g(o[0])
            if isinstance(x, tuple) and x[0] == "cond": x = int(self.truth(x))
            if op == "sext" and self.mod and o[0].type == "i1" and x == 1: return -1
            return x
        if op in ("sitofp", "uitofp"):
            x = g(o[0])
            if isinstance(x, tuple) and x[0] == "cond": x = int(self.truth(x))
            if isinstance(x, int): return R.const(x)
            if isinstance(x, R): return x
            raise Stop("conversion of unknown integer")
        if op in ("fptosi", "fptoui"):          # truncation towards zero; the conversion is assumed to be in range
            x = self.num(g(o[0])); c = x.cval()
            if c is not None: return int(c)
            b = 8 * self.size(self.tyof(i)) - 1; lo, hi = (-2**b - 1, 2**b) if op == "fptosi" else (-1, 2**(b + 1))
            if self.F.feasible(self.F.cons + [(self.F.poly(x - hi), False)]) or self.F.feasible(self.F.cons + [(self.F.poly(lift(lo) - x), False)]): raise Bad("converts a value to an integer type it may not fit")
            t = self.A.app("trunc", x); v = next(iter(t.n))[0][0]
            if v not in self.F.trunced:
                self.F.trunced.add(v)
                if self.F.positive(x, False): self.F.assume(x - t); self.F.assume(t + 1 - x, True); self.F.assume(t)
                else: self.F.assume(t - x); self.F.assume(x - t + 1, True); self.F.assume(-t)
            return t
        if op == "icmp":
            a, b = g(o[0]), g(o[1]); p = i.pred
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                same = a.o is b.o and a.off == b.off
                if p == 32: return int(same)
                if p == 33: return int(not same)
                if a.o is b.o: a, b = a.off, b.off
                else: raise Stop("order of unrelated addresses")
            if isinstance(a, tuple) and a[0] == "cond": a = int(self.truth(a))
            if isinstance(b, tuple) and b[0] == "cond": b = int(self.truth(b))
            if isinstance(a, R) or isinstance(b, R):
                a, b = lift(a), lift(b); F = self.F
                if p in (32, 33): r = int(F.positive(a - b, False) and F.positive(b - a, False)); return r if p == 32 else 1 - r
                return int({38: lambda: F.positive(a - b, True), 39: lambda: F.positive(a - b, False), 40: lambda: F.positive(b - a, True), 41: lambda: F.positive(b - a, False)}[p]())
            if not isinstance(a, int) or not isinstance(b, int): raise Stop("comparison of unknown integers")
            m = 0xffffffffffffffff
            return int({32: a == b, 33: a != b, 34: (a & m) > (b & m), 35: (a & m) >= (b & m), 36: (a & m) < (b & m), 37: (a & m) <= (b & m), 38: a > b, 39: a >= b, 40: a < b, 41: a <= b}[p])
        if op == "fcmp":
            p = call("LLVMGetFCmpPredicate", C.c_int, (P,), (i.v,)); a, b = self.num(g(o[0])), self.num(g(o[1])); q = p & 7
            if p == 7: return 1          # ordered
            if p == 8: return 0
            F = self.F
            # oeq 1 ogt 2 oge 3 olt 4 ole 5 one 6; unordered forms add 8
            if q == 2: return int(F.positive(a - b, True))
            if q == 3: return int(F.positive(a - b, False))
            if q == 4: return int(F.positive(b - a, True))
            if q == 5: return int(F.positive(b - a, False))
            if q == 1: return int(F.positive(a - b, False) and F.positive(b - a, False))
            if q == 6: return int(F.positive(a - b, True) or F.positive(b - a, True))
            raise Stop("comparison")
        if op == "select": return g(o[1]) if self.truth(g(o[0])) else g(o[2])
        if op == "extractelement": return self.idx(g(o[0]), g(o[1]))
        if op == "insertelement":
            v = g(o[0]); n = len(self.elems(self.tyof(i)))
            v = list(v) if isinstance(v, list) else [v] * n
            v[g(o[2])] = g(o[1]); return v
        if op == "shufflevector":
            a, b = g(o[0]), g(o[1]); n = len(self.elems(self.tyof(o[0])))
            a = a if isinstance(a, list) else [a] * n; b = b if isinstance(b, list) else [b] * n; ab = a + b
            k = call("LLVMGetNumMaskElements", C.c_uint, (P,), (i.v,)); ms = [call("LLVMGetMaskValue", C.c_int, (P, C.c_uint), (i.v, j)) for j in range(k)]
            return [ab[m] if 0 <= m < len(ab) else ("undef",) for m in ms]
        if op == "extractvalue":
            x = g(o[0])
            n = call("LLVMGetNumIndices", C.c_uint, (P,), (i.v,)); ix = call("LLVMGetIndices", C.POINTER(C.c_uint), (P,), (i.v,))
            for k in range(n): x = x[ix[k]]
            return x
        if op == "insertvalue":
            x = g(o[0]); n = call("LLVMGetNumIndices", C.c_uint, (P,), (i.v,)); ix = call("LLVMGetIndices", C.POINTER(C.c_uint), (P,), (i.v,))
            if n != 1: raise Stop("nested aggregate")
            x = list(x) if isinstance(x, list) else [x] * len(self.elems(self.tyof(i))); x[ix[0]] = g(o[1]); return x
        if op in ("call", "invoke"):
            c = i.callee
            if c is None or c.kind != "function": raise Stop("indirect call")
            nm = c.name
            if nm.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias")): return None
            a = [g(x) for x in i.args]
            if nm.startswith(("llvm.memcpy", "llvm.memmove")) or nm in ("memcpy", "memmove", "zpl_memcopy", "zpl_memmove"):
                if not isinstance(a[2], int): raise Stop("copy of unknown length")
                if a[2]: self.copy(a[0], a[1], a[2])
                return a[0]
            if nm.startswith("llvm.memset") or nm in ("memset", "zpl_memset"):
                if not isinstance(a[2], int) or a[1] != 0: raise Stop("memset")
                d, n = a[0], a[2]
                if d.off < 0 or d.off + n > d.o.size: raise Bad("clears %d bytes of %s, which has %d" % (n, d.o.name, d.o.size))
                for k in [k for k, cc in d.o.cells.items() if k < d.off + n and k + cc[1] > d.off]: del d.o.cells[k]
                for k in range(0, n, 4): d.o.cells[d.off + k] = (R.const(0), 4)
                return d
            if nm.startswith("llvm.fmuladd") or nm.startswith("llvm.fma"): return self.vec(lambda x, y, z: self.num(x) * self.num(y) + self.num(z), *a)
            if nm.startswith("llvm.fabs") or nm in ("fabsf", "fabs"):
                x = self.num(a[0]); return x if self.F.positive(x, False) else -x
            if nm in LIBM: return self.A.app(LIBM[nm], *[self.num(x) for x in a])
            return self.run(c, a, depth + 1)
        raise Stop("instruction %s" % op)
    def idx(self, v, k):
        if isinstance(v, list): return v[k]
        return v
