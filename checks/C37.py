TECHNIQUE = "abstract interpretation of the compiled atomic functions (gcc and clang, C and C++, optimised and not, processor-specific and generic branch) over symbolic register values, with interference on every read of the cell; compile-time layout witnesses"
NOTE = "each function's machine code, as generated from the current sources by five compiler configurations for x86-64, is interpreted over symbolic values on every path; the 32-bit and MSVC branches are not analysed"
import concurrent.futures, os, subprocess, tempfile
import asmrmw
from eva import REPO
PLAIN = '#define ZPL_IMPL\n#include "zpl.h"\n'
GENERIC = '#include "zpl.h"\n#undef ZPL_CPU_X86\n#undef __ARM_ARCH\n#define __ARM_ARCH 8\n#include "source/threading/atomic.c"\n'
CONF = [("gcc -O2", "gcc", ["-std=gnu11", "-O2"], PLAIN), ("gcc -O0", "gcc", ["-std=gnu11", "-O0"], PLAIN), ("clang -O2", "clang", ["-std=gnu11", "-O2"], PLAIN),
        ("g++ -O2", "g++", ["-x", "c++", "-std=gnu++17", "-O2"], PLAIN), ("gcc -O2, generic branch", "gcc", ["-std=gnu11", "-O2"], GENERIC)]
LAYOUT = '''#include "zpl.h"
_Static_assert(sizeof(zpl_atomic32) == 4 && _Alignof(zpl_atomic32) == 4, "a 32-bit cell is one aligned word");
_Static_assert(sizeof(zpl_atomic64) == 8 && _Alignof(zpl_atomic64) == 8, "a 64-bit cell is one aligned word");
_Static_assert(sizeof(zpl_atomic_ptr) == sizeof(void *) && _Alignof(zpl_atomic_ptr) == sizeof(void *), "a pointer cell is one aligned word");
'''
OPS = ["load", "store", "compare_exchange", "exchange", "fetch_add", "fetch_and", "fetch_or"]

def judge(I, op, path):
    """one path through an operation: (problem or None)"""
    ev, ret = path; N = I.norm
    writes = [e for e in ev if e[0] in ("rmw", "store")]
    ret = N(ret) if ret else None
    if op == "load":
        if writes: return "writes the cell"
        loads = [e for e in ev if e[0] == "load"]
        if len(loads) != 1: return "reads the cell %d times" % len(loads)
        return None if ret == N(loads[0][1]) else "does not return the value read"
    if op == "store":
        if len(writes) != 1: return "writes the cell %d times on a path" % len(writes)
        v = writes[0][1] if writes[0][0] == "store" else writes[0][2]
        return None if N(v) == ("arg", 1) else "stores something other than its argument"
    if any(e[0] == "store" for e in writes): return "writes the cell in a step separate from reading it"
    if op == "compare_exchange":
        for e in ev:
            if e[0] == "miss" and N(e[1]) != ("arg", 1): return "compares with something other than the expected value"
        if not writes:
            ms = [e for e in ev if e[0] == "miss"]
            if len(ms) != 1: return "leaves the cell unchanged without comparing it once"
            return None if ret == N(ms[0][2]) else "returns something other than the former value when it does not match"
        if len(writes) != 1: return "replaces the cell more than once"
        _, old, new, _ = writes[0]
        if N(old) != ("arg", 1): return "replaces the cell without comparing it with the expected value"
        if N(new) != ("arg", 2): return "stores something other than the desired value"
        return None if ret == N(old) else "returns something other than the former value"
    if len(writes) != 1: return "performs %d updates on a path instead of one" % len(writes)
    _, old, new, _ = writes[0]
    want = ("arg", 1) if op == "exchange" else N(("op", {"fetch_add": "add", "fetch_and": "and", "fetch_or": "or"}[op], old, ("arg", 1)))
    if N(new) != want: return "stores a value that is not the documented one"
    return None if ret == N(old) else "returns something other than the value replaced"

def run(c):
    d = tempfile.mkdtemp(prefix="zvlay"); p = os.path.join(d, "l.c"); open(p, "w").write(LAYOUT)
    r = subprocess.run(["gcc", "-std=gnu11", "-w", "-fsyntax-only", "-I" + REPO + "/code", p], capture_output=True, text=True)
    os.unlink(p); os.rmdir(d)
    if r.returncode:
        bad = [l for l in r.stderr.splitlines() if "static assertion" in l]
        c.require(bad, "layout witness does not compile: " + r.stderr[-400:])
        for l in bad: c.finding("layout|" + l.split("static assertion failed")[-1][:60], "code/header/threading/atomic.h", l)
    else: c.good(3)
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        outs = list(ex.map(lambda k: asmrmw.compile_s(k[1], k[2], k[3], REPO), CONF))
    for (name, _, _, _), (text, err) in zip(CONF, outs):
        c.require(text is not None, "%s does not compile the sources: %s" % (name, err))
        fs = asmrmw.functions(text); c.count("configurations")
        for fam, size in (("32", 4), ("64", 8), ("_ptr", 8)):
            for op in OPS:
                fn = "zpl_atomic%s_%s" % (fam, op); key = "%s|%s" % (fn, name); where = "code/source/threading/atomic.c:" + fn
                if fn not in fs:
                    mang = [k for k in fs if fn in k]
                    c.require(mang, "%s not found (%s)" % (fn, name)); fs[fn] = fs[mang[0]]
                I = asmrmw.Interp(fs, size)
                try: paths = I.run(fn)
                except asmrmw.Unknown as e:
                    c.require(False, "%s (%s): instruction not understood: %s" % (fn, name, e))
                c.count("functions"); c.count("paths", len(paths))
                probs = list(I.problems)
                if not paths: probs.append("never returns")
                for pth in paths:
                    q = judge(I, op, pth)
                    if q and q not in probs: probs.append(q)
                    if not q: c.good()
                for q in probs: c.finding(key + "|" + q, where, "%s, compiled with %s, %s" % (fn, name, q))
                if name == "gcc -O2": c.sample("%s: %d path(s), each with the one update its name promises" % (fn, len(paths)))
    c.require(c.cov.get("functions", 0) >= 105, "atomic functions missing")
    c.expl.append("every path through the compiled code of the 21 atomic operations in 5 compiler configurations is interpreted over symbolic values; each read of the cell is a fresh unknown (other threads write it); obligation per path: exactly one locked full-width update, storing the documented function of the value replaced and returning that value; cells are single aligned words (compile-time witness)")
    c.assume.append("x86-64: lock-prefixed and xchg instructions are indivisible; aligned full-width moves are single accesses")
