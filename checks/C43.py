TECHNIQUE = "value numbering over canonical rational functions on the compiled IR of every vector, matrix and quaternion function and operator, on all branch combinations, compared component by component with the textbook polynomial"
NOTE = "real arithmetic: rounding is not modelled; the iterative approximations (zpl_quake_rsqrt) are not claimed"
from mathrun import *
def run(c):
    C = []
    def case(*a, **k): C.append(Case(*a, **k))
    k0, k1 = R.const(0), R.const(1)
    def dot(a, b): return sum((x * y for x, y in zip(a, b)), k0)
    def cross(a, b): return [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]]
    def add(a, b): return [x + y for x, y in zip(a, b)]
    def sub(a, b): return [x - y for x, y in zip(a, b)]
    def mul(a, s): return [x * s for x in a]
    def div(a, s): return [x / s for x in a]
    def neg(a): return [-x for x in a]
    def mag(a, A): return A.app("sqrt", dot(a, a))
    def norm(a, A): return div(a, mag(a, A))
    def ident(n): return [k1 if i // n == i % n else k0 for i in range(n * n)]
    def mm(a, b, n): return [sum((a[n*k + r] * b[n*cc + k] for k in range(n)), k0) for cc in range(n) for r in range(n)]
    def mv(m, x, n): return [sum((m[n*k + r] * x[k] for k in range(n)), k0) for r in range(n)]
    def tr(m, n): return [m[n*r + cc] for cc in range(n) for r in range(n)]
    def det(m, n):
        if n == 1: return m[0]
        return sum(((1 if j % 2 == 0 else -1) * m[n*j] * det([m[n*a + b] for a in range(n) if a != j for b in range(1, n)], n - 1) for j in range(n)), k0)
    def qm(p, q):
        x0, y0, z0, w0 = p; x1, y1, z1, w1 = q
        return [w0*x1 + x0*w1 + y0*z1 - z0*y1, w0*y1 - x0*z1 + y0*w1 + z0*x1, w0*z1 + x0*y1 - y0*x1 + z0*w1, w0*w1 - x0*x1 - y0*y1 - z0*z1]
    def conj(q): return neg(q[:3]) + [q[3]]
    def qinv(q): return div(conj(q), dot(q, q))
    def lerp(a, b, t): return [x + (y - x) * t for x, y in zip(a, b)]
    # ---- vectors
    for n in (2, 3, 4):
        v = "v%d" % n; V = "zpl_vec%d" % n
        case(V + "f_zero", "", lambda v, F, A, n=n: {"ret": [k0] * n}, ret=v)
        case(V + "f", " ".join("%s:f" % "xyzw"[i] for i in range(n)), lambda v, F, A, n=n: {"ret": [v["xyzw"[i]][0] for i in range(n)]}, ret=v)
        case(V + "fv", "a:*%s" % v, lambda v, F, A: {"ret": v["a"]}, ret=v, expr=V + "fv((zpl_f32 *)a)", outs=[])
        case(V + "_add", "d:*%s a:%s b:%s" % (v, v, v), lambda v, F, A: {"d": add(v["a"], v["b"])})
        case(V + "_sub", "d:*%s a:%s b:%s" % (v, v, v), lambda v, F, A: {"d": sub(v["a"], v["b"])})
        case(V + "_mul", "d:*%s a:%s s:f" % (v, v), lambda v, F, A: {"d": mul(v["a"], v["s"][0])})
        case(V + "_div", "d:*%s a:%s s:f" % (v, v), lambda v, F, A: {"d": div(v["a"], v["s"][0])})
        case(V + "_addeq", "d:*%s a:%s" % (v, v), lambda v, F, A: {"d": add(v["d"], v["a"])}, alias={"d": "d"})
        case(V + "_subeq", "d:*%s a:%s" % (v, v), lambda v, F, A: {"d": sub(v["d"], v["a"])}, alias={"d": "d"})
        case(V + "_muleq", "d:*%s s:f" % v, lambda v, F, A: {"d": mul(v["d"], v["s"][0])}, alias={"d": "d"})
        case(V + "_diveq", "d:*%s s:f" % v, lambda v, F, A: {"d": div(v["d"], v["s"][0])}, alias={"d": "d"})
        case(V + "_dot", "a:%s b:%s" % (v, v), lambda v, F, A: {"ret": [dot(v["a"], v["b"])]}, ret="f")
        case(V + "_mag2", "a:%s" % v, lambda v, F, A: {"ret": [dot(v["a"], v["a"])]}, ret="f")
        case(V + "_mag", "a:%s" % v, lambda v, F, A: {"ret": [mag(v["a"], A)]}, ret="f")
        case(V + "_norm", "d:*%s a:%s" % (v, v), lambda v, F, A: {"d": norm(v["a"], A)})
        case(V + "_norm0", "d:*%s a:%s" % (v, v), lambda v, F, A, n=n: {"d": norm(v["a"], A) if F.positive(mag(v["a"], A), True) else [k0] * n})
        case(V + "_lerp", "d:*%s a:%s b:%s t:f" % (v, v, v), lambda v, F, A: {"d": lerp(v["a"], v["b"], v["t"][0])})
        if n < 4:
            def mx(v, F, A, n=n):
                m = v["a"][0]
                for x in v["a"][1:]: m = m if F.positive(m - x, False) else x
                return {"ret": [m]}
            case(V + "_max", "a:%s" % v, mx, ret="f")
            case(V + "_reflect", "d:*%s i:%s n:%s" % (v, v, v), lambda v, F, A: {"d": sub(v["i"], mul(v["n"], 2 * dot(v["n"], v["i"])))})
            def refr(v, F, A, n=n):
                dv = dot(v["n"], v["i"]); e = v["e"][0]; k = 1 - e * e * (1 - dv * dv)
                if not F.positive(k, False): return {"d": [k0] * n}
                return {"d": sub(mul(v["i"], e), mul(v["n"], e * dv + A.app("sqrt", k)))}
            case(V + "_refract", "d:*%s i:%s n:%s e:f" % (v, v, v), refr)
            def csl(v, F, A):
                t = v["t"][0]; h = [2*t*t*t - 3*t*t + 1, t*t*t - 2*t*t + t, 3*t*t - 2*t*t*t, t*t*t - t*t]
                return {"d": [h[0]*a + h[1]*p + h[2]*b + h[3]*q for a, p, b, q in zip(v["a"], v["p"], v["b"], v["q"])]}
            def dcsl(v, F, A):
                t = v["t"][0]; h = [6*t*t - 6*t, 3*t*t - 4*t + 1, 6*t - 6*t*t, 3*t*t - 2*t]
                return {"d": [h[0]*a + h[1]*p + h[2]*b + h[3]*q for a, p, b, q in zip(v["a"], v["p"], v["b"], v["q"])]}
            sg = "d:*%s a:%s p:%s b:%s q:%s t:f" % (v, v, v, v, v)
            case(V + "_cslerp", sg, csl); case(V + "_dcslerp", sg, dcsl)
        # C++ operators
        P = V
        for op, f in (("+", add), ("-", sub)):
            case("operator%s(%s, %s)" % (op, V, V), "a:%s b:%s" % (v, v), lambda v, F, A, f=f: {"ret": f(v["a"], v["b"])}, ret=v, only_cxx=True, expr="{a} %s {b}" % op)
            case("operator%s=(%s)" % (op, V), "a:*%s b:%s" % (v, v), lambda v, F, A, f=f: {"a": f(v["a"], v["b"])}, only_cxx=True, expr="(*{a}) %s= {b}" % op, outs=[])
        case("unary operator-(%s)" % V, "a:%s" % v, lambda v, F, A: {"ret": neg(v["a"])}, ret=v, only_cxx=True, expr="-{a}")
        case("unary operator+(%s)" % V, "a:%s" % v, lambda v, F, A: {"ret": v["a"]}, ret=v, only_cxx=True, expr="+{a}")
        case("operator*(%s, float)" % V, "a:%s s:f" % v, lambda v, F, A: {"ret": mul(v["a"], v["s"][0])}, ret=v, only_cxx=True, expr="{a} * {s}")
        case("operator*(float, %s)" % V, "a:%s s:f" % v, lambda v, F, A: {"ret": mul(v["a"], v["s"][0])}, ret=v, only_cxx=True, expr="{s} * {a}")
        case("operator/(%s, float)" % V, "a:%s s:f" % v, lambda v, F, A: {"ret": div(v["a"], v["s"][0])}, ret=v, only_cxx=True, expr="{a} / {s}")
        case("operator*=(%s, float)" % V, "a:*%s s:f" % v, lambda v, F, A: {"a": mul(v["a"], v["s"][0])}, only_cxx=True, expr="(*{a}) *= {s}", outs=[])
        case("operator/=(%s, float)" % V, "a:*%s s:f" % v, lambda v, F, A: {"a": div(v["a"], v["s"][0])}, only_cxx=True, expr="(*{a}) /= {s}", outs=[])
        case("operator*(%s, %s)" % (V, V), "a:%s b:%s" % (v, v), lambda v, F, A: {"ret": [x * y for x, y in zip(v["a"], v["b"])]}, ret=v, only_cxx=True, expr="{a} * {b}")
        case("operator/(%s, %s)" % (V, V), "a:%s b:%s" % (v, v), lambda v, F, A: {"ret": [x / y for x, y in zip(v["a"], v["b"])]}, ret=v, only_cxx=True, expr="{a} / {b}")
        def eqs(v, F, A, want=1): return {"ret": [R.const(want if all(F.positive(x - y, False) and F.positive(y - x, False) for x, y in zip(v["a"], v["b"])) else 1 - want)]}
        case("operator==(%s, %s)" % (V, V), "a:%s b:%s" % (v, v), eqs, ret="i", only_cxx=True, expr="(int)({a} == {b})")
        case("operator!=(%s, %s)" % (V, V), "a:%s b:%s" % (v, v), lambda v, F, A, e=eqs: e(v, F, A, 0), ret="i", only_cxx=True, expr="(int)({a} != {b})")
    case("zpl_vec2_cross", "d:*f a:v2 b:v2", lambda v, F, A: {"d": [v["a"][0]*v["b"][1] - v["b"][0]*v["a"][1]]})
    case("zpl_vec3_cross", "d:*v3 a:v3 b:v3", lambda v, F, A: {"d": cross(v["a"], v["b"])})
    case("zpl_vec2_side", "p:v2 q:v2 r:v2", lambda v, F, A: {"ret": [(v["q"][0]-v["p"][0])*(v["r"][1]-v["p"][1]) - (v["r"][0]-v["p"][0])*(v["q"][1]-v["p"][1])]}, ret="f")
    case("zpl_vec2_aspect_ratio", "a:v2", lambda v, F, A: {"ret": [v["a"][0] / v["a"][1] if F.positive(v["a"][1] - R.const(Q(struct.unpack("f", struct.pack("f", 0.0001))[0])), False) else k0]}, ret="f")
    # ---- matrices
    for n in (2, 3, 4):
        m = "m%d" % n; M = "zpl_mat%d" % n; Fl = "zpl_float%d%d" % (n, n); FF = "F%d" % n; v = "v%d" % n
        case(M + "_identity", "m:*" + m, lambda v, F, A, n=n: {"m": ident(n)})
        case(Fl + "_identity", "m:*" + FF, lambda v, F, A, n=n: {"m": ident(n)})
        case(M + "_copy", "d:*%s a:*%s" % (m, m), lambda v, F, A: {"d": v["a"]})
        case(M + "_transpose", "m:*" + m, lambda v, F, A, n=n: {"m": tr(v["m"], n)}, alias={"m": "m"})
        case(Fl + "_transpose", "m:*" + FF, lambda v, F, A, n=n: {"m": tr(v["m"], n)}, alias={"m": "m"})
        case(M + "_mul_vec%d" % n, "d:*%s m:*%s x:%s" % (v, m, v), lambda v, F, A, n=n: {"d": mv(v["m"], v["x"], n)})
        case(Fl + "_mul_vec%d" % n, "d:*%s m:*%s x:%s" % (v, FF, v), lambda v, F, A, n=n: {"d": mv(v["m"], v["x"], n)})
        for fn, t in ((M + "_mul", m), (Fl + "_mul", FF)):
            for al in ({}, {"a": "d"}, {"b": "d"}, {"a": "d", "b": "d"}, {"b": "a"}):
                case(fn, "d:*%s a:*%s b:*%s" % (t, t, t), lambda v, F, A, n=n: {"d": mm(v["a"], v["b"], n)}, alias=al)
        if n < 4: case(M + "_determinate", "m:*" + m, lambda v, F, A, n=n: {"ret": [det(v["m"], n)]}, ret="f", outs=[])
        def inverse(v, F, A, n=n):
            def chk(get):
                d = get("d")
                if any(not isinstance(x, R) for x in d): return ["component %d of the inverse is never stored" % [isinstance(x, R) for x in d].index(False)]
                p = mm(d, v["m"], n); e = ident(n)
                bad = [i for i in range(n * n) if not A.equal(p[i], e[i], F)]
                if [show(x) for x in get("m")] != [show(x) for x in v["m"]]: return ["the argument is modified"]
                return ["the product of the result with the argument is not the identity (column %d, row %d)" % (bad[0] // n, bad[0] % n)] if bad else []
            return chk
        case(M + "_inverse", "d:*%s m:*%s" % (m, m), inverse)
        case(M + "_v", "a:*V%d" % n, None, retptr="a", outs=[]); case(M + "_f", "a:*" + FF, None, retptr="a", outs=[])
        case(Fl + "_m", "a:*" + m, None, retptr="a", outs=[]); case(Fl + "_v", "a:*V%d" % n, None, retptr="a", outs=[])
        case(Fl + "_%d" % (n * n), "a:*" + m, None, retptr="a", outs=[], expr=Fl + "_%d((zpl_f32 *)a)" % (n * n))
        for op, f in (("+", add), ("-", sub)):
            case("operator%s(%s, %s)" % (op, M, M), "a:%s b:%s" % (m, m), lambda v, F, A, f=f: {"ret": f(v["a"], v["b"])}, ret=m, only_cxx=True, expr="{a} %s {b}" % op)
            case("operator%s=(%s)" % (op, M), "a:*%s b:%s" % (m, m), lambda v, F, A, f=f: {"a": f(v["a"], v["b"])}, only_cxx=True, expr="(*{a}) %s= {b}" % op, outs=[])
        case("operator*(%s, %s)" % (M, M), "a:%s b:%s" % (m, m), lambda v, F, A, n=n: {"ret": mm(v["a"], v["b"], n)}, ret=m, only_cxx=True, expr="{a} * {b}")
        case("operator*=(%s)" % M, "a:*%s b:%s" % (m, m), lambda v, F, A, n=n: {"a": mm(v["a"], v["b"], n)}, only_cxx=True, expr="(*{a}) *= {b}", outs=[])
        case("operator*(%s, vec)" % M, "a:%s b:%s" % (m, v), lambda v, F, A, n=n: {"ret": mv(v["a"], v["b"], n)}, ret=v, only_cxx=True, expr="{a} * {b}")
        case("operator*(%s, float)" % M, "a:%s s:f" % m, lambda v, F, A: {"ret": mul(v["a"], v["s"][0])}, ret=m, only_cxx=True, expr="{a} * {s}")
        case("operator*(float, %s)" % M, "a:%s s:f" % m, lambda v, F, A: {"ret": mul(v["a"], v["s"][0])}, ret=m, only_cxx=True, expr="{s} * {a}")
        case("operator/(%s, float)" % M, "a:%s s:f" % m, lambda v, F, A: {"ret": div(v["a"], v["s"][0])}, ret=m, only_cxx=True, expr="{a} / {s}")
    # ---- transforms (column-major, column vectors)
    def rot(v, A):
        x, y, z = norm(v["a"], A); t = v["t"][0]; cc, s = A.app("cos", t), A.app("sin", t); o = 1 - cc
        return [cc + o*x*x, o*x*y + s*z, o*x*z - s*y, k0, o*x*y - s*z, cc + o*y*y, o*y*z + s*x, k0, o*x*z + s*y, o*y*z - s*x, cc + o*z*z, k0, k0, k0, k0, k1]
    def tra(x): r = ident(4); r[12], r[13], r[14] = x; return r
    def sca(x): r = ident(4); r[0], r[5], r[10] = x; return r
    case("zpl_mat4_axis_angle", "d:*m4 a:v3 t:f", lambda v, F, A: {"d": rot(v, A)})
    case("zpl_mat4_to_rotate", "d:*m4 a:v3 t:f", lambda v, F, A: {"d": rot(v, A)})
    case("zpl_mat4_to_translate", "d:*m4 a:v3", lambda v, F, A: {"d": tra(v["a"])})
    case("zpl_mat4_to_scale", "d:*m4 a:v3", lambda v, F, A: {"d": sca(v["a"])})
    case("zpl_mat4_to_scalef", "d:*m4 s:f", lambda v, F, A: {"d": sca(v["s"] * 3)})
    I = {"alias": {"m": "m"}}
    case("zpl_mat4_rotate", "m:*m4 a:v3 t:f", lambda v, F, A: {"m": mm(v["m"], rot(v, A), 4)}, **I)
    case("zpl_mat4_translate", "m:*m4 a:v3", lambda v, F, A: {"m": mm(v["m"], tra(v["a"]), 4)}, **I)
    case("zpl_mat4_scale", "m:*m4 a:v3", lambda v, F, A: {"m": mm(v["m"], sca(v["a"]), 4)}, **I)
    case("zpl_mat4_scalef", "m:*m4 s:f", lambda v, F, A: {"m": mm(v["m"], sca(v["s"] * 3), 4)}, **I)
    # projections: stated by where the corners of the view volume go
    def ortho(v, F, A, z):
        l, r, b, t = (v[x][0] for x in "lrbt"); m = ident(4)
        m[0] = 2 / (r - l); m[5] = 2 / (t - b); m[12] = -(r + l) / (r - l); m[13] = -(t + b) / (t - b)
        if z == "2d": m[10] = R.const(-1)
        elif z == "gl": n, f = v["n"][0], v["f"][0]; m[10] = -2 / (f - n); m[14] = -(f + n) / (f - n)
        else: n, f = v["n"][0], v["f"][0]; m[10] = -1 / (f - n); m[14] = -n / (f - n)
        return {"d": m}
    case("zpl_mat4_ortho2d", "d:*m4 l:f r:f b:f t:f", lambda v, F, A: ortho(v, F, A, "2d")); case("zpl_mat4_ortho2d_dx", "d:*m4 l:f r:f b:f t:f", lambda v, F, A: ortho(v, F, A, "2d"))
    case("zpl_mat4_ortho3d", "d:*m4 l:f r:f b:f t:f n:f f:f", lambda v, F, A: ortho(v, F, A, "gl")); case("zpl_mat4_ortho3d_dx", "d:*m4 l:f r:f b:f t:f n:f f:f", lambda v, F, A: ortho(v, F, A, "dx"))
    def persp(v, F, A, kind):
        t = A.app("tan", v["y"][0] / 2); a, n = v["a"][0], v["n"][0]; m = [k0] * 16
        m[0] = 1 / (a * t); m[5] = 1 / t; m[11] = R.const(-1)
        if kind == "gl": f = v["f"][0]; m[10] = -(f + n) / (f - n); m[14] = -2 * f * n / (f - n)
        elif kind == "dx": f = v["f"][0]; m[10] = -f / (f - n); m[14] = -f * n / (f - n)
        elif kind == "igl": m[10] = R.const(-1); m[14] = -2 * n
        else: m[10] = R.const(-1); m[14] = -n
        return {"d": m}
    case("zpl_mat4_perspective", "d:*m4 y:f a:f n:f f:f", lambda v, F, A: persp(v, F, A, "gl")); case("zpl_mat4_perspective_dx", "d:*m4 y:f a:f n:f f:f", lambda v, F, A: persp(v, F, A, "dx"))
    case("zpl_mat4_infinite_perspective", "d:*m4 y:f a:f n:f", lambda v, F, A: persp(v, F, A, "igl")); case("zpl_mat4_infinite_perspective_dx", "d:*m4 y:f a:f n:f", lambda v, F, A: persp(v, F, A, "idx"))
    def look(v, F, A, lh):
        f = norm(sub(v["c"], v["e"]), A)
        s = norm(cross(v["u"], f) if lh else cross(f, v["u"]), A); u = cross(f, s) if lh else cross(s, f)
        z = f if lh else neg(f); m = ident(4)
        for r, row in enumerate((s, u, z)):
            for k in range(3): m[4*k + r] = row[k]
            m[12 + r] = -dot(row, v["e"])
        return {"d": m}
    case("zpl_mat4_look_at", "d:*m4 e:v3 c:v3 u:v3", lambda v, F, A: look(v, F, A, 0)); case("zpl_mat4_look_at_lh", "d:*m4 e:v3 c:v3 u:v3", lambda v, F, A: look(v, F, A, 1))
    # ---- quaternions
    def aa(ax, t, A): n = norm(ax, A); return mul(n, A.app("sin", t / 2)) + [A.app("cos", t / 2)]
    case("zpl_quatf", "x:f y:f z:f w:f", lambda v, F, A: {"ret": [v[k][0] for k in "xyzw"]}, ret="q")
    case("zpl_quatfv", "a:*q", lambda v, F, A: {"ret": v["a"]}, ret="q", outs=[], expr="zpl_quatfv((zpl_f32 *)a)")
    case("zpl_quat_identity", "", lambda v, F, A: {"ret": [k0, k0, k0, k1]}, ret="q")
    case("zpl_quat_axis_angle", "a:v3 t:f", lambda v, F, A: {"ret": aa(v["a"], v["t"][0], A)}, ret="q")
    case("zpl_quat_euler_angles", "p:f y:f r:f", lambda v, F, A: {"ret": qm(qm(aa([k0, k1, k0], v["y"][0], A), aa([k1, k0, k0], v["p"][0], A)), aa([k0, k0, k1], v["r"][0], A))}, ret="q")
    case("zpl_quat_add", "d:*q a:q b:q", lambda v, F, A: {"d": add(v["a"], v["b"])}); case("zpl_quat_sub", "d:*q a:q b:q", lambda v, F, A: {"d": sub(v["a"], v["b"])})
    case("zpl_quat_mul", "d:*q a:q b:q", lambda v, F, A: {"d": qm(v["a"], v["b"])}); case("zpl_quat_div", "d:*q a:q b:q", lambda v, F, A: {"d": qm(v["a"], qinv(v["b"]))})
    case("zpl_quat_mulf", "d:*q a:q s:f", lambda v, F, A: {"d": mul(v["a"], v["s"][0])}); case("zpl_quat_divf", "d:*q a:q s:f", lambda v, F, A: {"d": div(v["a"], v["s"][0])})
    D = {"alias": {"d": "d"}}
    case("zpl_quat_addeq", "d:*q a:q", lambda v, F, A: {"d": add(v["d"], v["a"])}, **D); case("zpl_quat_subeq", "d:*q a:q", lambda v, F, A: {"d": sub(v["d"], v["a"])}, **D)
    case("zpl_quat_muleq", "d:*q a:q", lambda v, F, A: {"d": qm(v["d"], v["a"])}, **D); case("zpl_quat_diveq", "d:*q a:q", lambda v, F, A: {"d": qm(v["d"], qinv(v["a"]))}, **D)
    case("zpl_quat_muleqf", "d:*q s:f", lambda v, F, A: {"d": mul(v["d"], v["s"][0])}, **D); case("zpl_quat_diveqf", "d:*q s:f", lambda v, F, A: {"d": div(v["d"], v["s"][0])}, **D)
    case("zpl_quat_dot", "a:q b:q", lambda v, F, A: {"ret": [dot(v["a"], v["b"])]}, ret="f"); case("zpl_quat_mag", "a:q", lambda v, F, A: {"ret": [mag(v["a"], A)]}, ret="f")
    case("zpl_quat_norm", "d:*q a:q", lambda v, F, A: {"d": norm(v["a"], A)}); case("zpl_quat_conj", "d:*q a:q", lambda v, F, A: {"d": conj(v["a"])}); case("zpl_quat_inverse", "d:*q a:q", lambda v, F, A: {"d": qinv(v["a"])})
    def qaxis(v, F, A): n = norm(v["a"], A); return {"d": div(n[:3], A.app("sqrt", 1 - n[3] * n[3]))}
    case("zpl_quat_axis", "d:*v3 a:q", qaxis)
    case("zpl_quat_angle", "a:q", lambda v, F, A: {"ret": [2 * A.app("acos", norm(v["a"], A)[3])]}, ret="f")
    def unit(n):
        def f(v, F, A):
            q = v[n]; A.rel.append((n + "3", 1 - q[0]*q[0] - q[1]*q[1] - q[2]*q[2]))
            for x in q[:3]: F.assume(x * x)
            F.assume(q[3] * q[3])
        return f
    case("zpl_quat_roll", "a:q", lambda v, F, A: (lambda x, y, z, w: {"ret": [A.app("atan2", 2*(x*y + z*w), x*x + w*w - y*y - z*z)]})(*v["a"]), ret="f", pre=unit("a"))
    case("zpl_quat_pitch", "a:q", lambda v, F, A: (lambda x, y, z, w: {"ret": [A.app("atan2", 2*(y*z + w*x), w*w - x*x - y*y + z*z)]})(*v["a"]), ret="f", pre=unit("a"))
    case("zpl_quat_yaw", "a:q", lambda v, F, A: (lambda x, y, z, w: {"ret": [A.app("asin", -2*(x*z - w*y))]})(*v["a"]), ret="f", pre=unit("a"))
    def qrot(q, x): return qm(qm(q, x + [k0]), conj(q))[:3]
    case("zpl_quat_rotate_vec3", "d:*v3 q:q x:v3", lambda v, F, A: {"d": qrot(v["q"], v["x"])}, pre=unit("q"))
    case("operator*(zpl_quat, zpl_vec3)", "q:q x:v3", lambda v, F, A: {"ret": qrot(v["q"], v["x"])}, ret="v3", pre=unit("q"), only_cxx=True, expr="{q} * {x}")
    def qmat(q): return [x for k in range(3) for x in qrot(q, [k1 if j == k else k0 for j in range(3)]) + [k0]] + [k0, k0, k0, k1]
    case("zpl_mat4_from_quat", "d:*m4 q:q", lambda v, F, A: {"d": qmat(norm(v["q"], A))})
    def frommat(v, F, A):
        q = v["_q"]
        def chk(get):
            d = get("d")
            if any(not isinstance(x, R) for x in d): return ["a component of the quaternion is never stored"]
            for i in range(4):
                for j in range(i, 4):
                    if not A.equal(d[i] * d[j], q[i] * q[j], F): return ["the quaternion of the rotation matrix of q is not q or -q (components %d and %d)" % (i, j)]
            for nm, a, _ in A.tab:
                if nm == "sqrt" and F.feasible(F.cons + [(F.poly(-a[0]), False)]): return ["divides by a square root that can be zero"]
            return []
        return chk
    def qinit(v, A):
        q = v["_q"] = vars_of("q", 4); A.rel.append(("q3", 1 - q[0]*q[0] - q[1]*q[1] - q[2]*q[2])); return qmat(q)
    def qpre(v, F, A):
        for x in v["_q"]: F.assume(x * x)
    case("zpl_quat_from_mat4", "d:*q m:*m4", frommat, init={"m": qinit}, pre=qpre)
    # ---- quaternion interpolation
    def nlerp(a, b, t, A): return norm(lerp(a, b, t), A)
    def slerp(a, b, t, F, A):
        ct = dot(a, b); z = b
        if not F.positive(ct, False): z = neg(b); ct = -ct
        if F.positive(ct - 1, True): return lerp(a, z, t), lerp(a, b, t)
        an = A.app("acos", ct); s = A.app("sin", an)
        return (add(mul(a, A.app("sin", (1 - t) * an) / s), mul(z, A.app("sin", t * an) / s)),) * 2
    def approx(a, b, t, A): return nlerp(a, b, t + (1 - dot(a, b)) / 3 * t * (-2*t*t + 3*t - 1), A)
    QS = "d:*q p:q a:q b:q q:q t:f"
    case("zpl_quat_lerp", "d:*q a:q b:q t:f", lambda v, F, A: {"d": lerp(v["a"], v["b"], v["t"][0])})
    case("zpl_quat_nlerp", "d:*q a:q b:q t:f", lambda v, F, A: {"d": nlerp(v["a"], v["b"], v["t"][0], A)})
    case("zpl_quat_slerp_approx", "d:*q a:q b:q t:f", lambda v, F, A: {"d": approx(v["a"], v["b"], v["t"][0], A)})
    def slerp_spec(v, F, A):
        s = slerp(v["a"], v["b"], v["t"][0], F, A)
        def chk(get):
            d = get("d")
            if any(not isinstance(x, R) for x in d): return ["a component is never stored"]
            # beyond a unit cosine the operands are no rotations: interpolating linearly towards b, or towards its nearer sign
            return [] if any(all(A.equal(x, y, F) for x, y in zip(d, o)) for o in s) else ["the result is %s ...; the definition gives %s ..." % (show(d[0]), show(s[0][0]))]
        return chk
    case("zpl_quat_slerp", "d:*q a:q b:q t:f", slerp_spec)
    case("zpl_quat_nquad", QS, lambda v, F, A: {"d": nlerp(nlerp(v["p"], v["q"], v["t"][0], A), nlerp(v["a"], v["b"], v["t"][0], A), 2 * v["t"][0] * (1 - v["t"][0]), A)})
    def endpoint(which, normalised):
        def spec(v, F, A):
            want = v["p"] if which == 0 else v["q"]
            if normalised: want = norm(want, A)
            def chk(get):
                d = get("d")
                if any(not isinstance(x, R) for x in d): return ["a component is never stored"]
                return [] if all(A.equal(x, y, F) for x, y in zip(d, want)) or all(A.equal(x, -y, F) for x, y in zip(d, want)) else ["at t = %d the curve is at %s ..., not at its end point" % (which, show(d[0]))]
            return chk
        return spec
    for t in (0, 1):
        for nm, nz in (("zpl_quat_squad", 0), ("zpl_quat_squad_approx", 1)):
            case(nm, QS, endpoint(t, nz), init={"t": lambda v, A, t=t: [R.const(t)]}, label="%s(t = %d)" % (nm, t))
    # ---- operators of quaternions
    for op, f in (("+", add), ("-", sub), ("*", qm)):
        case("operator%s(zpl_quat, zpl_quat)" % op, "a:q b:q", lambda v, F, A, f=f: {"ret": f(v["a"], v["b"])}, ret="q", only_cxx=True, expr="{a} %s {b}" % op)
        case("operator%s=(zpl_quat)" % op, "a:*q b:q", lambda v, F, A, f=f: {"a": f(v["a"], v["b"])}, only_cxx=True, expr="(*{a}) %s= {b}" % op, outs=[])
    case("operator/=(zpl_quat)", "a:*q b:q", lambda v, F, A: {"a": qm(v["a"], qinv(v["b"]))}, only_cxx=True, expr="(*{a}) /= {b}", outs=[])
    case("unary operator-(zpl_quat)", "a:q", lambda v, F, A: {"ret": neg(v["a"])}, ret="q", only_cxx=True, expr="-{a}")
    for e, f in (("{a} * {s}", mul), ("{s} * {a}", mul), ("{a} / {s}", div)): case("quaternion scaling " + e, "a:q s:f", lambda v, F, A, f=f: {"ret": f(v["a"], v["s"][0])}, ret="q", only_cxx=True, expr=e)
    for e, f in (("(*{a}) *= {s}", mul), ("(*{a}) /= {s}", div)): case("quaternion scaling " + e, "a:*q s:f", lambda v, F, A, f=f: {"a": f(v["a"], v["s"][0])}, only_cxx=True, expr=e, outs=[])
    case("operator==(zpl_quat, zpl_quat)", "a:q b:q", eqs, ret="i", only_cxx=True, expr="(int)({a} == {b})")
    run_cases(c, C)
    c.expl.append("each function is compiled from the current sources inside a wrapper, interpreted with one symbol per input component, and every component of every argument and of the result is compared with the definition; where pointers may coincide (matrix product) every coincidence is a case of its own")
    c.assume.append("real arithmetic; written constants are compared to a relative error of 4e-6; squares and square roots are of non-negative numbers, divisors are not zero")
