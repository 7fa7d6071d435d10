TECHNIQUE = "abstract interpretation (Frama-C Eva) of the wrappers over a recording system model, and an intermediate-representation rule that each fence executes an ordering instruction of the required strength on every path"
NOTE = "x86-64 Linux branches; the answers of the system itself are assumed"
import llir
SRC = '#define ZPL_IMPLEMENTATION\n#include "zpl.h"\n'
STRENGTH = {"zpl_mfence": 3, "zpl_sfence": 1, "zpl_lfence": 2}      # bits: 1 orders stores, 2 orders loads; the full fence also orders stores before loads
def strength(m, i, seen):
    """which orders an instruction enforces: 1 store-store, 2 load-load, 4 everything"""
    if i.op == "fence": return 7 if "seq_cst" in i.text else 3
    if i.op in ("atomicrmw", "cmpxchg"): return 7
    if i.op == "call":
        c = i.callee
        if c is not None and c.kind == "asm":
            t = c.text
            return 7 if "mfence" in t or "lock" in t else 1 if "sfence" in t else 2 if "lfence" in t else 0
        if c is not None and c.kind == "function":
            if c.name == "llvm.x86.sse2.mfence": return 7
            if c.name == "llvm.x86.sse.sfence": return 1
            if c.name == "llvm.x86.sse2.lfence": return 2
            if c.name not in seen and not c.decl: return on_all_paths(m, c, seen | {c.name})
    return 0
def on_all_paths(m, f, seen):
    """orders enforced on every path from the entry to a return (forward must-analysis)"""
    st = {f.blocks[0]: 0}; todo = [f.blocks[0]]; res = 7; ret = False
    while todo:
        b = todo.pop(); s = st[b]
        for i in b.insts:
            s |= strength(m, i, seen)
            if i.op == "ret": res &= s; ret = True
        for x in b.succs:
            n = s if x not in st else st[x] & s
            if x not in st or n != st[x]: st[x] = n; todo.append(x)
    return res if ret else 7
def run(c):
    m = llir.compile_ir(SRC)
    for n, need in STRENGTH.items():
        f = m.functions.get(n); c.require(f is not None and not f.decl, n + " missing")
        s = on_all_paths(m, f, {n}); ok = s == 7 if n == "zpl_mfence" else (s & need) == need
        c.count("fences")
        if ok: c.good(); c.sample("%s enforces its order on every path" % n)
        else: c.finding(n, "code/source/threading/fence.c", "%s does not execute an instruction that orders %s on every path" % (n, {"zpl_mfence": "all accesses", "zpl_sfence": "stores", "zpl_lfence": "loads"}[n]))
    c.expl.append("must-dataflow over the IR: a fence instruction of the required strength on every path of each fence function")
    c.ai(min_ctx=3)
