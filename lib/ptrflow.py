"""Where writes through a pointer go: a flow-insensitive, interprocedural summary over the compiler's IR.
derived(v) is everything computed from a pointer by address arithmetic, selection, local slots and calls that return a pointer
derived from their argument; a write is a store, an atomic update, a memory intrinsic or a call that writes through its parameter."""
import llir
def callee_name(i):
    c = i.callee
    return c.name if c is not None and c.kind == "function" else None
class Flow:
    def __init__(self, m, ext_writes, indirect=False):
        """ext_writes(name, k) -> bool: does the external function write through its k-th argument"""
        self.m, self.ext = m, ext_writes
        self.cand = {}          # indirect: a call through a pointer may write what any function of that type whose address is taken writes
        if indirect:
            taken = set()
            for f in m.functions.values():
                for i in f.insts():
                    for o in i.ops:
                        if o is not None and o.kind == "function" and not (i.op in ("call", "invoke") and o is i.callee and o not in i.args): taken.add(o)
            v = llir._p("LLVMGetFirstGlobal", m.m)
            while v:
                g = m.val(v); v = llir._p("LLVMGetNextGlobal", v); todo = [g.initializer] if llir.call("LLVMGetInitializer", llir.P, (llir.P,), (g.v,)) else []
                while todo:
                    x = todo.pop()
                    if x.kind == "function": taken.add(x)
                    elif x.kind in ("cstruct", "carray", "cexpr"): todo += x.ops
            for f in taken: self.cand.setdefault(len(f.params), []).append(f)
        self.uses = {}          # value -> [inst]; also for constants used as operands
        self.w = {}             # (fname, k) -> list of (kind, inst)   writes through parameter k; kind plain|atomic
        self.r = {}             # (fname, k) -> True: returns a pointer derived from parameter k
        self.slot = {}          # (fname, k, j): stores a pointer derived from param k through param j
        for f in m.functions.values():
            for i in f.insts():
                for o in set(x for x in i.ops if x is not None): self._use(o, i)
        ch = True
        while ch:
            ch = False
            for f in m.functions.values():
                if f.decl: continue
                for p in f.params:
                    if p.type != "ptr": continue
                    ws, ret, out = self.trace([p], f)
                    k = (f.name, p.index)
                    if len(ws) != len(self.w.get(k, ())): self.w[k] = ws; ch = True
                    if ret and not self.r.get(k): self.r[k] = True; ch = True
                    for j in out:
                        if not self.slot.get(k + (j,)): self.slot[k + (j,)] = True; ch = True
    def _use(self, o, i):
        self.uses.setdefault(o, []).append(i)
        if o.kind == "cexpr" or o.kind in ("cstruct", "carray"):
            for q in o.ops: self._usec(q, o, i)
    def _usec(self, q, o, i):
        self.uses.setdefault(q, []).append(i)
        if q.kind == "cexpr":
            for x in q.ops: self._usec(x, q, i)
    def _is(self, o, D): 
        return o in D or (o.kind == "cexpr" and any(self._is(q, D) for q in o.ops))
    def trace(self, start, f=None):
        """writes through the values, whether the function returns one of them, parameters through which one is stored"""
        D = set(start); todo = list(start); ws = []; ret = False; out = set(); seen = set(); slots = set()
        while todo:
            v = todo.pop()
            for i in self.uses.get(v, ()):
                if (v, i) in seen: continue
                seen.add((v, i)); op = i.op; new = None
                if op == "getelementptr":
                    if i.ops[0] is v or self._is(i.ops[0], D): new = i
                elif op in ("bitcast", "addrspacecast", "phi", "select", "freeze"):
                    if op != "select" or i.ops[0] is not v: new = i
                elif op == "store":
                    if self._is(i.ops[1], D): ws.append(("plain", i))
                    if self._is(i.ops[0], D):
                        t = i.ops[1]
                        b = t
                        while b.kind == "inst" and b.op in ("getelementptr", "bitcast"): b = b.ops[0]
                        if b.kind == "inst" and b.op == "alloca":
                            if t is b:
                                if t not in slots:
                                    slots.add(t)
                                    for u in self.uses.get(t, ()):
                                        if u.op == "load" and u.type == "ptr" and u.ops[0] is t and u not in D: D.add(u); todo.append(u)
                        elif b.kind == "arg" and t is b: out.add(b.index)
                elif op in ("atomicrmw", "cmpxchg"):
                    if self._is(i.ops[0], D): ws.append(("atomic", i))
                elif op == "ret": ret = True
                elif op in ("call", "invoke"):
                    c = i.callee; n = callee_name(i); args = i.args
                    for k, a in enumerate(args):
                        if not self._is(a, D): continue
                        if c is not None and c.kind == "asm":
                            ws.append(("atomic" if "lock" in c.text or "xchg" in c.text else "plain", i)) if "=*m" in c.text or "lock" in c.text or "memory" in c.text else None
                        elif n is None:
                            for h in self.cand.get(len(args), ()):
                                if [q.type for q in h.params] == [q.type for q in args] and self.w.get((h.name, k)): ws.append(("plain", i)); break
                        elif n.startswith("llvm.threadlocal"): new = i
                        elif n.startswith("llvm."):
                            if k == 0 and n.split(".")[1] in ("memcpy", "memmove", "memset"): ws.append(("plain", i))
                        else:
                            g = self.m.functions.get(n)
                            if g is None or g.decl:
                                if self.ext(n, k): ws.append(("plain", i))
                            else:
                                kinds = {x[0] for x in self.w.get((n, k), ())}
                                for kd in sorted(kinds): ws.append((kd, i))
                                if self.r.get((n, k)): new = i
                                for j in range(len(args)):
                                    if self.slot.get((n, k, j)):
                                        t = args[j]
                                        if t.kind == "inst" and t.op == "alloca" and t not in slots:
                                            slots.add(t)
                                            for u in self.uses.get(t, ()):
                                                if u.op == "load" and u.type == "ptr" and u not in D: D.add(u); todo.append(u)
                                        elif t.kind == "arg": out.add(t.index)
                if new is not None and new not in D and (new.type == "ptr"): D.add(new); todo.append(new)
        uniq = []; s2 = set()
        for x in ws:
            if (x[0], x[1]) not in s2: s2.add((x[0], x[1])); uniq.append(x)
        return uniq, ret, out
