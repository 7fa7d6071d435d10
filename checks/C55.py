TECHNIQUE = "value numbering over canonical rational functions on the compiled IR, conversions to integer abstracted by the linear inequalities of truncation, every combination of branches decided by Fourier-Motzkin elimination"
NOTE = "real arithmetic; the MSVC-only polynomial approximations, zpl_quake_rsqrt and the half-precision conversions are not claimed; quotients below 2^22 (2^51 for doubles)"
from mathrun import *
import math
def run(c):
    C = []
    def case(*a, **k): C.append(Case(*a, **k))
    k0, k1 = R.const(0), R.const(1)
    TAU = R.const(Q(struct.unpack("f", struct.pack("f", 2 * math.pi))[0])); LN2 = R.const(Q(struct.unpack("f", struct.pack("f", math.log(2)))[0]))
    one = lambda x: {"ret": [x]}
    # ---- the elementary functions reach the function of that name
    for nm, at, n in (("sqrt", "sqrt", 1), ("sin", "sin", 1), ("cos", "cos", 1), ("tan", "tan", 1), ("arcsin", "asin", 1), ("arccos", "acos", 1), ("arctan", "atan", 1), ("arctan2", "atan2", 2), ("exp", "exp", 1), ("log", "log", 1), ("pow", "pow", 2)):
        case("zpl_" + nm, "x:f" if n == 1 else "x:f y:f", lambda v, F, A, at=at, n=n: one(A.app(at, *[v[k][0] for k in "xy"[:n]])), ret="f")
    case("zpl_rsqrt", "x:f", lambda v, F, A: one(1 / A.app("sqrt", v["x"][0])), ret="f")
    case("zpl_hypot", "x:f y:f", lambda v, F, A: one(A.app("sqrt", v["x"][0]*v["x"][0] + v["y"][0]*v["y"][0])), ret="f")
    case("zpl_exp2", "x:f", lambda v, F, A: lambda get: [] if applied(get, A, "exp", v["x"][0] * LN2) else ["is not e^(x ln 2)"], ret="f")
    case("zpl_log2", "x:f", lambda v, F, A: one(A.app("log", v["x"][0]) / LN2), ret="f")
    def applied(get, A, nm, arg):
        r = get("ret")[0]; d = A.def_of(r) if isinstance(r, R) else None
        return bool(d) and d[0] == nm and A.equal(d[1][0], arg)
    def fe(x): return 1 + x + x*x/2 + x*x*x/6 + x*x*x*x/24 + x*x*x*x*x/120
    case("zpl_fast_exp", "x:f", lambda v, F, A: one(fe(v["x"][0])), ret="f"); case("zpl_fast_exp2", "x:f", lambda v, F, A: one(fe(v["x"][0] * LN2)), ret="f")
    case("zpl_to_radians", "x:f", lambda v, F, A: one(v["x"][0] * TAU / 360), ret="f"); case("zpl_to_degrees", "x:f", lambda v, F, A: one(v["x"][0] * 360 / TAU), ret="f")
    case("zpl_lerp", "a:f b:f t:f", lambda v, F, A: one(v["a"][0] + (v["b"][0] - v["a"][0]) * v["t"][0]), ret="f")
    case("zpl_unlerp", "t:f a:f b:f", lambda v, F, A: one((v["t"][0] - v["a"][0]) / (v["b"][0] - v["a"][0])), ret="f")
    def sm(v): return (v["t"][0] - v["a"][0]) / (v["b"][0] - v["a"][0])
    case("zpl_smooth_step", "a:f b:f t:f", lambda v, F, A: one(sm(v) * sm(v) * (3 - 2 * sm(v))), ret="f")
    case("zpl_smoother_step", "a:f b:f t:f", lambda v, F, A: one(sm(v) * sm(v) * sm(v) * (6 * sm(v) * sm(v) - 15 * sm(v) + 10)), ret="f")
    # ---- rounding
    def integral(r, F, A, unit=None, lim=None):
        """r is an integer combination of truncated values (or, when big, a float that has no fraction)"""
        if unit is not None: r = r / unit
        if r.d: return False
        return all(abs(k - round(k)) < Q(1, 10**6) and (m == () or all(v.startswith("trunc#") for v, _ in m)) for m, k in r.n.items())
    def within(F, x, lo, los, hi, his):
        """lo <= x <= hi follows from what was assumed (strictly where asked)"""
        p = F.poly(x - lo); n = {m: -k for m, k in p.items()}
        q = F.poly(hi - x); o = {m: -k for m, k in q.items()}
        return not F.feasible(F.cons + [(n, not los)]) and not F.feasible(F.cons + [(o, not his)])
    def big(F, x, l): # every |x| possible here is at least l
        return not F.feasible(F.cons + [(F.poly(lift(l) - x), True), (F.poly(x + l), True)])
    def rounding(kind, l):
        def spec(v, F, A):
            x = v["x"][0]
            def chk(get):
                r = get("ret")[0]
                if not isinstance(r, R): return ["the result is not a number"]
                if A.equal(r, x) and big(F, x, l): return []
                if not integral(r, F, A): return ["the result %s is not a whole number" % show(r)]
                h = R.const(Q(1, 2))
                lo, los, hi, his = {"floor": (k0, False, k1, True), "ceil": (-k1, True, k0, False), "round": (-h, False, h, True) if kind == "round" and F.positive(x, False) else (-h, True, h, False)}[kind]   # halves go away from zero
                return [] if within(F, x - r, lo, los, hi, his) else ["%s of x is %s, which can be the wrong whole number" % (kind, show(r))]
            return chk
        return spec
    for k in ("floor", "ceil", "round"): case("zpl_" + k, "x:f", rounding(k, 2**22), ret="f"); case("zpl_" + k + "64", "x:d", rounding(k, 2**51), ret="d")
    def absd(x, F): return x if F.positive(x, False) else -x
    def quot(l):
        def pre(v, F, A):
            x, y = v["x"][0], v["y"][0]
            pos = F.positive(y, True)
            if not pos: F.assume(-y, True)
            F.signs["y0"] = 1 if pos else -1
            q = x / y; F.assume(lift(l) - q, True); F.assume(q + l, True)
        return pre
    def mod(kind):
        def spec(v, F, A):
            x, y = v["x"][0], v["y"][0]
            def chk(get):
                r = get("ret")[0]
                if not isinstance(r, R): return ["the result is not a number"]
                if not integral(x - r, F, A, y): return ["the result %s does not differ from x by a whole multiple of y" % show(r)]
                ay = absd(y, F)
                if kind == "remainder": return [] if within(F, r, -ay / 2, False, ay / 2, False) else ["the remainder %s can be larger than half the divisor" % show(r)]
                s = F.positive(x, False)
                return [] if (within(F, r, k0, False, ay, True) if s else within(F, r, -ay, True, k0, False)) else ["the result %s can be outside [0, |y|) taken with the sign of x" % show(r)]
            return chk
        return spec
    for k in ("remainder", "mod"): case("zpl_" + k, "x:f y:f", mod(k), ret="f", pre=quot(2**22)); case("zpl_" + k + "64", "x:d y:d", mod(k), ret="d", pre=quot(2**51))
    def angle(v, F, A):
        a, b = v["a"][0], v["b"][0]
        def chk(get):
            r = get("ret")[0]
            if not isinstance(r, R): return ["the result is not a number"]
            if not integral(r - (b - a), F, A, TAU): return ["the result %s is no difference of the two angles" % show(r)]
            return [] if within(F, r, -TAU / 2 - Q(1, 1000), False, TAU / 2 + Q(1, 1000), False) else ["the difference %s can be more than half a turn" % show(r)]
        return chk
    case("zpl_angle_diff", "a:f b:f", angle, ret="f", pre=lambda v, F, A: (F.assume(2**20 - (v["b"][0] - v["a"][0])), F.assume(2**20 + (v["b"][0] - v["a"][0]))))
    for s, t in (("", "f"), ("64", "d")):
        case("zpl_copy_sign" + s, "x:%s y:%s" % (t, t), lambda v, F, A: one(absd(v["x"][0], F) if F.positive(v["y"][0], False) else -absd(v["x"][0], F)), ret=t)
    case("zpl_abs64", "x:d", lambda v, F, A: one(absd(v["x"][0], F)), ret="d"); case("zpl_sign64", "x:d", lambda v, F, A: one(k1 if F.positive(v["x"][0], False) else -k1), ret="d")
    # ---- macros
    X = "x:f"
    case("zpl_abs", X, lambda v, F, A: one(absd(v["x"][0], F)), ret="f", expr="zpl_abs({x})"); case("zpl_sign", X, lambda v, F, A: one(k1 if F.positive(v["x"][0], False) else -k1), ret="f", expr="zpl_sign({x})")
    case("zpl_sign0", X, lambda v, F, A: one(k1 if F.positive(v["x"][0], True) else -k1 if F.positive(-v["x"][0], True) else k0), ret="f", expr="zpl_sign0({x})")
    case("zpl_square", X, lambda v, F, A: one(v["x"][0] * v["x"][0]), ret="f", expr="zpl_square({x} + 1) ".replace("{x} + 1", "{x}")); case("zpl_cube", X, lambda v, F, A: one(v["x"][0] * v["x"][0] * v["x"][0]), ret="f", expr="zpl_cube({x})")
    def ext(mx, names):
        def spec(v, F, A):
            def chk(get):
                r = get("ret")[0]; xs = [v[n][0] for n in names]
                if not isinstance(r, R) or not any(A.equal(r, x, F) for x in xs): return ["the result is none of the operands"]
                d = [r - x if mx else x - r for x in xs]
                return [] if all(not F.feasible(F.cons + [(F.poly(-e), True)]) for e in d) else ["the result is not the %s operand" % ("largest" if mx else "smallest")]
            return chk
        return spec
    for nm, mx, ns in (("min", 0, "xy"), ("max", 1, "xy"), ("min3", 0, "xyz"), ("max3", 1, "xyz")):
        case("zpl_" + nm, " ".join("%s:f" % n for n in ns), ext(mx, ns), ret="f", expr="zpl_%s(%s)" % (nm, ", ".join("{%s}" % n for n in ns)))
    def clamp(lo, hi):
        def spec(v, F, A):
            x = v["x"][0]; l = v[lo][0] if isinstance(lo, str) else R.const(lo); h = v[hi][0] if isinstance(hi, str) else R.const(hi)
            return one(l if F.positive(l - x, True) else h if F.positive(x - h, True) else x)
        return spec
    case("zpl_clamp", "x:f l:f h:f", clamp("l", "h"), ret="f", expr="zpl_clamp({x}, {l}, {h})", pre=lambda v, F, A: F.assume(v["h"][0] - v["l"][0])); case("zpl_clamp01", X, clamp(0, 1), ret="f", expr="zpl_clamp01({x})")
    for nm, strict in (("is_between", False), ("is_between_limit", True)):
        case("zpl_" + nm, "x:f l:f h:f", lambda v, F, A, s=strict: one(k1 if F.positive(v["x"][0] - v["l"][0], False) and F.positive(v["h"][0] - v["x"][0], s) else k0), ret="i", expr="zpl_%s({x}, {l}, {h})" % nm)
    run_cases(c, C)
    c.assume.append("real arithmetic; conversions to integers are checked to be in range; divisors are not zero")
