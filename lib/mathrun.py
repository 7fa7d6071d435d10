"""Runs polyval over wrappers of the library's math functions and compares every component with a specification."""
import sys
sys.setrecursionlimit(20000)
import llir
from polyval import *
T = {"f": ("zpl_f32", 4), "v2": ("zpl_vec2", 8), "v3": ("zpl_vec3", 12), "v4": ("zpl_vec4", 16), "q": ("zpl_quat", 16), "m2": ("zpl_mat2", 16), "m3": ("zpl_mat3", 36), "m4": ("zpl_mat4", 64),
     "pl": ("zpl_plane", 16), "fr": ("zpl_frustum", 96), "r2": ("zpl_rect2", 16), "r3": ("zpl_rect3", 24), "b2": ("zpl_aabb2", 16), "b3": ("zpl_aabb3", 24), "i": ("int", 4), "b8": ("zpl_b8", 1),
     "F2": ("zpl_float2", 16), "F3": ("zpl_float3", 36), "F4": ("zpl_float4", 64), "V2": ("zpl_vec2", 16), "V3": ("zpl_vec3", 36), "V4": ("zpl_vec4", 64), "d": ("zpl_f64", 8)}
CONFIGS = [("C", "", False), ("C without math.h", "#define ZPL_NO_MATH_H\n", False), ("C++", "", True)]
PRE = "#define ZPL_IMPLEMENTATION\n#define ZPL_NANO\n#define ZPL_ENABLE_MATH\n#include \"zpl.h\"\n"

class Case:
    """fn: name; args: 'd:*v3 a:v3 s:f' (* = passed by pointer); ret: type or None; spec(v, F, A) -> {object: list or None}; alias: groups of objects sharing storage; init: objects with given contents"""
    def __init__(self, fn, args, spec, ret=None, alias=(), only_cxx=False, expr=None, init=None, outs=None, pre=None, label=None, retptr=None, split=0):
        self.split = split
        self.fn, self.spec, self.ret, self.alias, self.cxx, self.expr, self.init, self.pre, self.retptr = fn, spec, ret, dict(alias), only_cxx, expr, init, pre, retptr
        self.args = []
        for a in args.split():
            n, t = a.split(":"); self.args.append((n, t.startswith("*"), t.lstrip("*")))
        self.outs = outs if outs is not None else ([self.args[0][0]] if self.args and self.args[0][1] and ret is None else [])
        self.label = label or (fn + (" [%s]" % ", ".join("%s is %s" % x for x in self.alias.items()) if self.alias else ""))
    def code(self, k):
        ps = [n for n, _, _ in self.args] + (["ret"] if self.ret or self.retptr else [])
        use = {n: ("(%s *)%s" if p else "*(%s *)%s") % (T[t][0], n) for n, p, t in self.args}
        e = self.expr.format(**{n: "(" + u + ")" for n, u in use.items()}) if self.expr else "%s(%s)" % (self.fn, ", ".join(use[n] for n, _, _ in self.args))
        st = "*(%s *)ret = %s;" % (T[self.ret][0], e) if self.ret else "*(void **)ret = (void *)%s;" % e if self.retptr else e + ";"
        return "void w_%d(%s) { %s }\n" % (k, ", ".join("char *" + p for p in ps) or "void", st)

def vars_of(name, n): return [R.var("%s%d" % (name, i)) for i in range(n)]

def run_cases(c, cases, jobs=8, configs=None):
    import multiprocessing as mp
    mods = []
    parts = []
    for ci, (cn, defs, cxx) in enumerate(CONFIGS):
        if configs and cn not in configs: continue
        idx = [i for i, x in enumerate(cases) if cxx or not x.cxx]
        if cn == "C++": idx = [i for i in idx if cases[i].cxx]
        if not idx: continue
        src = defs + PRE + ("extern \"C\" {\n" if cxx else "") + "".join(cases[i].code(i) for i in idx) + ("}\n" if cxx else "")
        parts.append((cn, src, cxx, idx))
    global _cases, _mods; _cases = cases; _mods = {}
    from concurrent.futures import ThreadPoolExecutor
    def comp(p): return llir.compile_ir(p[1], std="-std=c++17" if p[2] else "-std=gnu11", cxx=p[2], passes="function(sroa,mem2reg,simplifycfg<no-switch-to-lookup>)")
    with ThreadPoolExecutor(3) as ex:
        for p, m in zip(parts, ex.map(comp, parts)): _mods[p[0]] = m
    work = []
    for cn, src, cxx, idx in parts:
        light = [i for i in idx if not cases[i].split]
        for i in idx:
            if cases[i].split:
                for b in range(1 << cases[i].split): work.append((cn, [i], [not (b >> k) & 1 for k in range(cases[i].split)]))
        n = max(1, len(light) // 8)
        for k in range(n): work.append((cn, light[k::n], []))
    ctx = mp.get_context("fork")
    with ctx.Pool(min(jobs, len(work))) as pool: res = list(pool.imap_unordered(_worker, work, chunksize=1))
    fns = set(); und = []
    for cn, good, bad, stops, stat, fs in sorted(res, key=lambda r: r[0]):
        fns |= fs
        c.good(good)
        for k, v in stat.items(): c.count(k, v)
        for key, where, msg in bad: c.finding(key, where, msg)
        und += ["%s: %s" % (cn, x) for x in stops]
    if und: print("note: undecided (written outside the domain): " + "; ".join(und[:6])[:900])
    und = sorted(set(und)); c.cov["undecided_cases"] = und
    c.require(len(und) * 2 <= sum(len(p[3]) for p in parts), "most cases are outside the domain: " + "; ".join(und[:5]))
    c.cov["functions_interpreted"] = len(fns)
    c.count("cases", len(cases))

def _worker(w):
    cn, idx, prefix = w; mod = _mods[cn]
    good, bad, stops, stat, fs = 0, [], [], {}, set()
    for i in idx:
        case = _cases[i]
        try: g, b, st, f = run_case(mod, "w_%d" % i, case, prefix)
        except Stop as e: stops.append("%s: outside the domain: %s" % (case.label, e)); continue
        except Exception as e:
            import traceback; stops.append("%s: %s" % (case.label, traceback.format_exc()[-300:])); continue
        good += g; fs |= f
        bad += [("%s|%s" % (case.label, k), "code/source/math.c" if not case.cxx else "code/header/math.h", "%s (%s): %s" % (case.label, cn, m)) for k, m in b]
        for k, v in st.items(): stat[k] = stat.get(k, 0) + v
    return cn, good, bad, stops, stat, fs

def run_case(mod, wname, case, prefix=(), maxpaths=20000):
    script = list(prefix); paths = 0; good = 0; bad = {}; fs = set(); stat = {}
    while True:
        A = Atoms(); F = Facts(script, A); it = Interp(mod, A, F)
        objs = {}; v = {}
        for n, p, t in case.args:
            root = case.alias.get(n, n)
            if root in objs: objs[n] = objs[root]; v[n] = v[root]; continue
            o = objs[n] = Obj("argument " + n, T[t][1]); es = 8 if t == "d" else 4
            cnt = T[t][1] // es
            if n in case.outs and not any(a == n or b == n for a, b in case.alias.items()) and not (case.init and n in case.init): v[n] = None; continue
            v[n] = case.init[n](v, A) if case.init and n in case.init else vars_of(n, cnt)
            for k in range(cnt): o.cells[es * k] = (v[n][k], es)
        if case.pre: case.pre(v, F, A)
        if case.ret: objs["ret"] = Obj("the result", T[case.ret][1])
        elif case.retptr: objs["ret"] = Obj("the result", 8)
        before = {n: dict(o.cells) for n, o in objs.items()}
        try:
            it.run(mod.functions[wname], [Ptr(objs[n]) for n, _, _ in case.args] + ([Ptr(objs["ret"])] if case.ret or case.retptr else []))
            probs = []
        except Bad as e: probs = [("bad", str(e))]
        fs |= {f for f in it.funcs if f != wname}
        if not probs and case.retptr:
            x = objs["ret"].cells.get(0)
            if not x or not isinstance(x[0], Ptr) or x[0].o is not objs[case.retptr] or x[0].off: probs.append(("view", "the result does not point at the argument's storage"))
            else: good += 1
        elif not probs:
            want = case.spec(v, F, A)
            if callable(want):
                def get(n):
                    es = 8 if any(a == n and t == "d" for a, _, t in case.args) or n == "ret" and case.ret == "d" else 4
                    if n == "ret" and case.ret == "b8": es = 1
                    return [objs[n].cells.get(es * k, (("undef",), es))[0] for k in range(objs[n].size // es)]
                r = want(get)
                probs += [("spec", m) for m in r]
                good += 1 if not r else 0
            else:
                done = set()
                for n, o in objs.items():
                    if id(o) in done: continue
                    es = 8 if (n == "ret" and case.ret == "d") or any(a == n and t == "d" for a, _, t in case.args) else 1 if n == "ret" and case.ret == "b8" else 4
                    names = [m for m in objs if objs[m] is o]
                    w = next((want[m] for m in names if m in want), "same")
                    if w is None: continue
                    done.add(id(o))
                    for k in range(o.size // es):
                        got = o.cells.get(es * k); got = got[0] if got and got[1] == es else None
                        if w == "same":
                            exp = before[n].get(es * k); exp = exp[0] if exp else None
                            if exp is None and got is None: continue
                            if exp is None or got is None or not (got is exp or A.equal(got, exp, F)): probs.append(("%s.%d" % (n, k), "component %d of %s changes from %s to %s, but it is no result of the operation" % (k, n, show(exp), show(got))))
                            else: good += 1
                            continue
                        exp = w[k]
                        if exp is None: continue
                        if got is None or isinstance(got, tuple): probs.append(("%s.%d" % (n, k), "component %d of %s is never stored; it should be %s" % (k, n, show(exp))))
                        elif not A.equal(got, exp, F): probs.append(("%s.%d" % (n, k), "component %d of %s is %s; the definition gives %s" % (k, n, show(got), show(exp))))
                        else: good += 1
        if F.k < len(prefix) and not all(prefix[F.k:]): break      # another work unit has this path
        for k, m in probs: bad.setdefault(k, m + (" (when %s)" % cond(F) if F.k else ""))
        paths += 1
        if F.k <= len(prefix): break
        script[:] = script[:F.k]
        while len(script) > len(prefix) and script[-1] is False: script.pop()
        if len(script) <= len(prefix): break
        script[-1] = False
        if paths > maxpaths: raise Stop("more than %d branch combinations" % maxpaths)
        if len(bad) > 12: break
    stat["paths"] = paths
    return good, list(bad.items()), stat, fs
def show(x): return "nothing" if x is None else x.show() if isinstance(x, R) else str(x)
def cond(F):
    return " and ".join("%s %s 0" % (R(p).show(), ">" if s else ">=") for p, s in F.cons[-3:])[:200]
