TECHNIQUE = "value numbering over canonical rational functions on the compiled IR of the geometry helpers, with linear reasoning about every combination of comparisons they make, against their set-theoretic definition"
NOTE = "real arithmetic; zpl_frustum_box_inside is decided one plane at a time (the other five containing everything)"
from mathrun import *
def run(c):
    C = []
    def case(*a, **k): C.append(Case(*a, **k))
    k0, k1 = R.const(0), R.const(1)
    # ---- conversions
    for n in (2, 3):
        v = "v%d" % n; r = "r%d" % n; b = "b%d" % n; ax = "xyz"[:n]
        case("zpl_rect%df" % n, "p:%s d:%s" % (v, v), lambda v, F, A: {"ret": v["p"] + v["d"]}, ret=r)
        case("zpl_aabb%df" % n, " ".join("l%s:f" % x for x in ax) + " " + " ".join("h%s:f" % x for x in ax), lambda v, F, A, ax=ax: {"ret": [v["l" + x][0] for x in ax] + [v["h" + x][0] for x in ax]}, ret=b)
        case("zpl_aabb%d_rect%d" % (n, n), "a:%s" % r, lambda v, F, A, n=n: {"ret": v["a"][:n] + [v["a"][i] + v["a"][n + i] for i in range(n)]}, ret=b)
        case("zpl_rect%d_aabb%d" % (n, n), "a:%s" % b, lambda v, F, A, n=n: {"ret": v["a"][:n] + [v["a"][n + i] - v["a"][i] for i in range(n)]}, ret=r)
    # ---- containment
    def span(p, d, F): return (p, p + d) if F.positive(d, False) else (p + d, p)
    def truth(get, F, want):
        x = get("ret")[0]
        if isinstance(x, R): x = x.cval()
        if x is None or not isinstance(x, (int, Q)): return ["the result is not a truth value"]
        return [] if bool(x) == want else ["the result is %s where the definition gives %s" % (bool(x), want)]
    def contains(v, F, A):
        a = v["a"]; pt = v["p"] if "p" in v else v["x"] + v["y"]
        def chk(get):
            want = True
            for i in range(2):
                lo, hi = span(a[i], a[2 + i], F)
                if want and not (F.positive(pt[i] - lo, False) and F.positive(hi - pt[i], True)): want = False
            return truth(get, F, want)
        return chk
    case("zpl_rect2_contains", "a:r2 x:f y:f", contains, ret="i"); case("zpl_rect2_contains_vec2", "a:r2 p:v2", contains, ret="i")
    def aabb(n):
        def spec(v, F, A):
            def chk(get):
                want = True
                for i, x in enumerate("xyz"[:n]):
                    if want and not (F.positive(v[x][0] - v["a"][i], False) and F.positive(v["a"][n + i] - v[x][0], True)): want = False
                return truth(get, F, want)
            return chk
        return spec
    case("zpl_aabb2_contains", "a:b2 x:f y:f", aabb(2), ret="i"); case("zpl_aabb3_contains", "a:b3 x:f y:f z:f", aabb(3), ret="i")
    # ---- intersection: the common part of the two half-open rectangles
    def inter(store):
        def spec(v, F, A):
            def chk(get):
                res = []
                for i in range(2):
                    (a0, a1), (b0, b1) = span(v["a"][i], v["a"][2 + i], F), span(v["b"][i], v["b"][2 + i], F)
                    lo = a0 if F.positive(a0 - b0, False) else b0; hi = a1 if F.positive(b1 - a1, False) else b1; res.append((lo, hi))
                want = all([F.positive(h - l, True) for l, h in res]) if True else 0
                out = truth(get, F, want)
                if store:
                    exp = [res[0][0], res[1][0], res[0][1] - res[0][0], res[1][1] - res[1][0]] if want else [k0] * 4
                    for k, (g, e) in enumerate(zip(get("d"), exp)):
                        if not isinstance(g, R) or not A.equal(g, e, F): out.append("component %d of the intersection is %s, not %s" % (k, show(g), show(e)))
                return out
            return chk
        return spec
    case("zpl_rect2_intersection_result", "a:r2 b:r2 d:*r2", inter(1), ret="i", outs=["d"], split=5); case("zpl_rect2_intersects", "a:r2 b:r2", inter(0), ret="i", split=5)
    # ---- partitioning: the piece and the rest tile the box
    def proper(v, F, A):
        a = v["a"]; F.assume(a[2] - a[0]); F.assume(a[3] - a[1]); F.assume(v["s"][0])
    def cut(side, keep):
        i = 0 if side in ("left", "right") else 1; low = side in ("left", "top")
        def spec(v, F, A):
            a = list(v["a"]); s = v["s"][0]
            w = a[2 + i] - a[i]; s = s if F.positive(w - s, False) else w
            piece, rest = list(a), list(a)
            if low: piece[2 + i] = rest[i] = a[i] + s
            else: piece[i] = rest[2 + i] = a[2 + i] - s
            return {"ret": piece, "a": a if keep else rest}
        return spec
    for s in ("left", "right", "top", "bottom"):
        case("zpl_aabb2_cut_" + s, "a:*b2 s:f", cut(s, 0), ret="b2", pre=proper); case("zpl_aabb2_get_" + s, "a:*b2 s:f", cut(s, 1), ret="b2", pre=proper)
        i = 0 if s in ("left", "right") else 1
        def grow(v, F, A, i=i, low=s in ("left", "top")):
            a = v["a"]; p = list(a)
            if low: p[i], p[2 + i] = a[i] - v["s"][0], a[i]
            else: p[i], p[2 + i] = a[2 + i], a[2 + i] + v["s"][0]
            return {"ret": p}
        case("zpl_aabb2_add_" + s, "a:*b2 s:f", grow, ret="b2", pre=proper)
    def shrink(sg):
        def spec(v, F, A):
            a, s = v["a"], v["s"][0] * sg
            r = [a[0] + s, a[1] + s, a[2] - s, a[3] - s]
            return {"ret": r if F.positive(r[2] - r[0], False) and F.positive(r[3] - r[1], False) else [k0] * 4}
        return spec
    case("zpl_aabb2_contract", "a:*b2 s:f", shrink(1), ret="b2", pre=lambda v, F, A: (F.assume(v["a"][2] - v["a"][0]), F.assume(v["a"][3] - v["a"][1])))
    case("zpl_aabb2_expand", "a:*b2 s:f", shrink(-1), ret="b2", pre=lambda v, F, A: (F.assume(v["a"][2] - v["a"][0]), F.assume(v["a"][3] - v["a"][1])))
    # ---- planes and frusta
    def pd(p, x): return p[0]*x[0] + p[1]*x[1] + p[2]*x[2] + p[3]
    case("zpl_plane_distance", "p:*pl x:v3", lambda v, F, A: {"ret": [pd(v["p"], v["x"])]}, ret="f", outs=[])
    def sphere(v, F, A):
        def chk(get):
            rad = v["s"][0] if "s" in v else k0; want = True
            for k in range(6):
                if want and not F.positive(pd(v["f"][4*k:4*k + 4], v["x"]) + rad, True): want = False
            return truth(get, F, want)
        return chk
    case("zpl_frustum_sphere_inside", "f:*fr x:v3 s:f", sphere, ret="b8"); case("zpl_frustum_point_inside", "f:*fr x:v3", sphere, ret="b8")
    for pk in range(6):
        def binit(v, A, pk=pk):
            r = []
            for k in range(6): r += vars_of("p", 4) if k == pk else [k0, k0, k0, k1]
            return r
        def box(v, F, A, pk=pk):
            def chk(get):
                b = v["b"]; p = v["f"][4*pk:4*pk + 4]; want = False
                for m in range(8):
                    if not want and F.positive(pd(p, [b[3*((m >> i) & 1) + i] for i in range(3)]), True): want = True
                return truth(get, F, want)
            return chk
        case("zpl_frustum_box_inside", "f:*fr b:b3", box, ret="b8", split=2, init={"f": binit}, label="zpl_frustum_box_inside(plane %d)" % pk, pre=lambda v, F, A: [F.assume(v["b"][3 + i] - v["b"][i]) for i in range(3)])
    def frustum(v, F, A):
        """a point is within plane k exactly when its clip coordinate obeys -w <= x <= w, and the normals have unit length"""
        cam, pr = v["c"], v["p"]
        m = [sum((pr[4*k + r] * cam[4*cc + k] for k in range(4)), k0) for cc in range(4) for r in range(4)]
        row = lambda i: [m[4*cc + i] for cc in range(4)]
        sets = {"x": 0, "y": 1, "z": 2}; names = ["x1", "x2", "y1", "y2", "z1", "z2"]
        def chk(get):
            f = get("d"); out = []
            if any(not isinstance(x, R) for x in f): return ["a plane is never stored"]
            for axis in range(3):
                want = [[a + s * b for a, b in zip(row(3), row(axis))] for s in (1, -1)]
                got = [f[4*(2*axis + j):4*(2*axis + j) + 4] for j in range(2)]
                def same(g, w):
                    L = A.app("sqrt", w[0]*w[0] + w[1]*w[1] + w[2]*w[2])
                    return all(A.equal(x * L, y, F) for x, y in zip(g, w))
                if not (same(got[0], want[0]) and same(got[1], want[1]) or same(got[0], want[1]) and same(got[1], want[0])):
                    out.append("planes %s1 and %s2 do not bound the clip coordinate of that axis" % ("xyz"[axis], "xyz"[axis]))
            return out
        return chk
    def affine(v, A):
        q = vars_of("c", 16); q[3] = q[7] = q[11] = k0; q[15] = k1; return q
    def pers(v, A): return [R.var("p0"), k0, k0, k0, k0, R.var("p5"), k0, k0, k0, k0, R.var("p10"), k0 - 1, k0, k0, R.var("p14"), k0]
    case("zpl_frustum_create", "d:*fr c:*m4 p:*m4", frustum, init={"c": affine, "p": pers})
    run_cases(c, C, configs=["C"])
    c.assume.append("real arithmetic; boxes have min <= max and cuts are not negative; a frustum is made of an affine camera matrix and a perspective projection")
