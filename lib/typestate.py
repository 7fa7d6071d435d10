"""Must-release dataflow over the intermediate representation: an object begun by one call (va_start, pthread_attr_init, ...)
is ended on every path to a return, never used or ended before it began or after it ended.
Objects are local allocations; a helper that begins or ends an object it was passed is summarised by its parameters."""
def base(v):
    while v.kind == "inst" and v.op in ("getelementptr", "bitcast", "addrspacecast"): v = v.ops[0]
    return v
IDLE, LIVE = 1, 2
def _name(i): return i.callee.name if i.op in ("call", "invoke") and i.callee is not None and i.callee.kind == "function" else None
def is_fn(n, names): return n is not None and any(n == x or n.startswith(x + ".") for x in names)

def summaries(m, begin, end):
    """(function, parameter index) -> 'begin' | 'end', when every return has passed such a call for that parameter"""
    res = {}
    changed = True
    while changed:
        changed = False
        for f in m.functions.values():
            if f.decl or not f.params: continue
            for p in f.params:
                if (f.name, p.index) in res or "ptr" not in p.type: continue
                hits = {}
                for i in f.insts():
                    n = _name(i)
                    if not n: continue
                    for k, a in enumerate(i.args):
                        if base(a) is p or base(a) == p:
                            w = "begin" if k == 0 and is_fn(n, begin) else "end" if k == 0 and is_fn(n, end) else res.get((n, k))
                            if w: hits.setdefault(w, set()).add(i.block)
                for w, blocks in hits.items():
                    if len(hits) == 1 and not _escapes(f, blocks): res[(f.name, p.index)] = w; changed = True
    return res

def _escapes(f, blocks):
    """a return is reachable from the entry without passing one of the blocks"""
    seen, todo = set(), [f.blocks[0]]
    while todo:
        b = todo.pop()
        if b in seen or b in blocks: continue
        seen.add(b)
        if b.insts and b.insts[-1].op == "ret": return True
        todo += b.succs
    return False

def check(m, begin, end, what):
    """yields (function, line text, message); also returns counts through the generator's last item ('sites', n, paths)"""
    summ = summaries(m, begin, end)
    sites = 0; funcs = 0
    for f in sorted((f for f in m.functions.values() if not f.decl), key=lambda f: f.name):
        objs = {}
        for i in f.insts():
            n = _name(i)
            if not n: continue
            for k, a in enumerate(i.args):
                b = base(a)
                w = "begin" if k == 0 and is_fn(n, begin) else "end" if k == 0 and is_fn(n, end) else summ.get((n, k))
                if b.kind == "inst" and b.op == "alloca" and w: objs.setdefault(b, []).append((i, w)); sites += w == "begin"
        if objs: funcs += 1
        for o, _ in objs.items():
            state = {f.blocks[0]: IDLE}; todo = [f.blocks[0]]; bad = set()
            while todo:
                b = todo.pop(); s = state[b]; done = False
                for i in b.insts:
                    n = _name(i)
                    if i.op == "ret" and s & LIVE: bad.add((i, "a path returns without releasing the %s" % what))
                    if i.op == "unreachable": done = True
                    if i.op != "call" or (n and (n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"))): continue
                    for k, a in enumerate(i.args):
                        if base(a) is not o: continue
                        w = "begin" if k == 0 and is_fn(n, begin) else "end" if k == 0 and is_fn(n, end) else summ.get((n, k))
                        if w == "begin":
                            if s & LIVE: bad.add((i, "the %s is begun again while it is held" % what))
                            s = LIVE
                        elif w == "end":
                            if s & IDLE: bad.add((i, "the %s may be released without being held" % what))
                            s = IDLE
                        elif n and n.startswith("llvm.memset"): pass
                        elif s & IDLE: bad.add((i, "the %s may be used while it is not held" % what))
                if done: continue
                for t in b.succs:
                    q = state.get(t, 0) | s
                    if q != state.get(t, 0): state[t] = q; todo.append(t)
            for i, msg in bad: yield (f.name, i.where, msg)
    yield (None, sites, funcs)
