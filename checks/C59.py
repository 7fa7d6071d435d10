TECHNIQUE = "effect analysis over the compiler's IR: every write that can reach a variable with static storage, through pointers, helpers and parameters, attributed to the public operations it serves; plus the set of external functions called, against those with hidden state"
NOTE = "documented process-wide state: standard files, comparison offsets, clock start, the UCS-2 conversion buffers, heap statistics"
import llir, ptrflow, cdecl
SRC = '#define ZPL_IMPLEMENTATION\n#include "zpl.h"\n'
# operations whose documentation says they keep process-wide state, with the reason
SHARED = {"zpl_file_get_standard": "the standard files, set up once with fixed contents", "zpl_time_rel_ms": "the clock's starting point", "zpl_utf8_to_ucs2_buf": "documented static buffer", "zpl_ucs2_to_utf8_buf": "documented static buffer",
          "zpl_heap_stats_init": "heap statistics", "zpl_heap_stats_check": "heap statistics", "zpl_heap_allocator_proc": "heap statistics"}
SHARED.update({"zpl_%s_cmp" % t: "comparison offset" for t in ("u8", "i16", "i32", "i64", "isize", "f32", "f64", "str")})
HIDDEN = {"strtok", "localtime", "gmtime", "ctime", "asctime", "strerror", "rand", "srand", "random", "srandom", "drand48", "lrand48", "tmpnam", "ttyname", "getpwnam", "getpwuid", "getgrnam", "gethostbyname", "gethostbyaddr", "getservbyname", "inet_ntoa", "setlocale", "basename", "dirname", "ptsname", "crypt", "getlogin", "mblen", "mbtowc", "wctomb", "wcstombs", "mbstowcs", "hcreate", "signal", "chdir", "umask", "alarm"}
def roots(m, f, callers, seen=None):
    """the externally visible functions that reach f through internal helpers (or take its address)"""
    seen = seen if seen is not None else set()
    if f.name in seen: return set()
    seen.add(f.name)
    if not f.internal: return {f.name}
    r = set()
    for g in callers.get(f.name, ()): r |= roots(m, g, callers, seen)
    return r
def run(c):
    for cfg, defs in (("default", []), ("heap analysis", ["-DZPL_HEAP_ANALYSIS"]), ("without modules", ["-DZPL_NANO"])):
        m = llir.compile_ir(SRC, defs=defs); D = cdecl.functions(SRC, defs)
        def ext(n, k):
            d = D.get(n)
            if not d or k >= len(d["params"]): return d is None
            t = d["params"][k].rstrip(); return t.endswith("*") and not cdecl.pointee_const(t) and n != "free"
        F = ptrflow.Flow(m, ext, indirect=True); callers = {}
        for f in m.functions.values():
            for i in f.insts():
                for o in i.ops:
                    if o is not None and o.kind == "function": callers.setdefault(o.name, set()).add(f)
        v = llir._p("LLVMGetFirstGlobal", m.m); n = 0
        while v:
            g = m.val(v); v = llir._p("LLVMGetNextGlobal", v)
            if g.name.startswith("llvm."): continue
            n += 1
            if g.isconst: c.good(); continue
            tls = bool(llir.call("LLVMIsThreadLocal", llir.C.c_int, (llir.P,), (g.v,)))
            ws = F.trace([g])[0]
            c.count("static_variables_%s" % cfg.replace(" ", "_")); c.count("write_sites_attributed", len(ws))
            if tls: c.good(); c.sample("%s is private to the calling thread (%d writes)" % (g.name, len(ws))); continue
            bad = []
            for kind, i in ws:
                if kind == "atomic": continue
                r = roots(m, i.fun, callers)
                x = sorted(r - set(SHARED))
                if cfg == "without modules" and "zpl_random_init" in x: x.remove("zpl_random_init")      # no threading module, no atomics
                if cfg == "without modules" and set(x) <= {"zpl_fprintf_va", "zpl_bprintf_va", "zpl_asprintf_va", "zpl_string_sprintf_buf"}: x = []
                if x: bad.append((x, i))
            for x, i in bad[:4]:
                c.finding("%s|%s|%s" % (cfg, g.name, x[0]), i.where, "%s (%s configuration): %s changes %s, which every thread shares" % (", ".join(x[:3]), cfg, i.fun.name, g.name))
            if not bad: c.good(); c.sample("%s: %d writes, all atomic or by %s" % (g.name, len(ws), sorted({y for k, i in ws for y in roots(m, i.fun, callers)})[:3]))
        c.require(n > 20, "only %d static variables" % n)
        for f in m.functions.values():
            if not f.decl or f.name.startswith("llvm."): continue
            c.count("external_functions")
            if f.name in HIDDEN:
                for g in sorted(callers.get(f.name, ()), key=lambda g: g.name):
                    w = next((i.where for i in g.insts() if any(o is f for o in i.ops)), g.name)
                    c.finding("%s|calls %s" % (g.name, f.name), w, "%s calls %s, which keeps hidden process-wide state" % (g.name, f.name))
            else: c.good()
    c.expl.append("effect analysis: every store, atomic update, memory intrinsic and writing call on a variable with static storage is found through address arithmetic and parameters and must be thread-private, atomic, or belong to an operation documented to keep process-wide state")
