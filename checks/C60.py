TECHNIQUE = "interprocedural effect analysis over the compiler's IR: no write reaches a pointer parameter declared to point to const, or an object in constant storage, through address arithmetic, local slots, helpers and parameters"
NOTE = "writes through pointers first stored in heap objects and through function pointers are not followed"
import llir, ptrflow, cdecl
SRC = '#define ZPL_IMPLEMENTATION\n#include "zpl.h"\n'
def run(c):
    m = llir.compile_ir(SRC); D = cdecl.functions(SRC)
    def ext(n, k):
        d = D.get(n)
        if not d or k >= len(d["params"]): return False
        t = d["params"][k].rstrip(); return t.endswith("*") and not cdecl.pointee_const(t) and n != "free"
    F = ptrflow.Flow(m, ext); fn = 0
    for n, f in sorted(m.functions.items()):
        if f.decl or n not in D: continue
        d = D[n]; has = False
        for nm, t in zip(d["names"], d["params"]):
            if not cdecl.pointee_const(t) or not nm: continue
            p = next((q for q in f.params if q.name == nm and q.type == "ptr"), None)
            if p is None: continue
            has = True; c.count("const_parameters"); ws = F.w.get((n, p.index), ())
            for k, i in ws: c.finding("%s|%s" % (n, nm), i.where, "%s changes the object its parameter %s (%s) points to" % (n, nm, t))
            if not ws: c.good()
        fn += has
    v = llir._p("LLVMGetFirstGlobal", m.m)
    while v:
        g = m.val(v); v = llir._p("LLVMGetNextGlobal", v)
        if not g.isconst or g.name.startswith("llvm."): continue
        c.count("constant_objects"); ws = F.trace([g])[0]
        for k, i in ws: c.finding("constant|%s|%s" % (i.fun.name, i.text[:40]), i.where, "%s writes to an object in constant storage" % i.fun.name)
        if not ws: c.good()
    c.count("functions", fn)
    c.require(c.cov["const_parameters"] > 150 and c.cov["constant_objects"] > 100, "parameters or constants missing")
    c.expl.append("for every function defined with a pointer-to-const parameter, and for every constant object, the set of writes reaching it must be empty")
