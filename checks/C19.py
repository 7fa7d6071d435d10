TECHNIQUE = "interprocedural def-use analysis over LLVM IR: every value that can reach a format position is resolved to constants, and each format is matched with the types of its arguments"
NOTE = "every call site of every formatted-output function in the complete library as compiled for this platform; Windows-only code is not analysed"
import glob, os, re
import llir
from eva import REPO
LIBC = {"printf": (0, 1), "fprintf": (1, 1), "sprintf": (1, 1), "snprintf": (2, 1), "dprintf": (1, 1), "syslog": (1, 1), "asprintf": (1, 1), "warn": (0, 1), "err": (1, 1), "__printf_chk": (1, 1), "__fprintf_chk": (2, 1), "__sprintf_chk": (3, 1), "__snprintf_chk": (4, 1),
        "vprintf": (0, 0), "vfprintf": (1, 0), "vsprintf": (1, 0), "vsnprintf": (2, 0), "vdprintf": (1, 0), "scanf": (0, 2), "sscanf": (1, 2), "fscanf": (1, 2), "__isoc99_sscanf": (1, 2), "__isoc99_fscanf": (1, 2), "__isoc23_sscanf": (1, 2), "strftime": (2, 3), "wcsftime": (2, 3)}
DIR = re.compile(r"%([-+# 0]*)(\*|\d+)?(?:\.(\*|-?\d+)?)?(hh|h|ll|l|z|t|j|q|L)?(.)?", re.S)

def directives(fmt, zpl):
    """the promoted types a format consumes, or a complaint"""
    out = []; i = 0
    while True:
        i = fmt.find("%", i)
        if i < 0: return out, None
        m = DIR.match(fmt, i); fl, w, pr, ln, cv = m.groups(); i = m.end()
        if cv is None: return out, "ends inside a directive"
        if cv == "%": continue
        if w == "*": out.append("i32")
        if pr == "*": out.append("i32")
        if zpl and ln in ("j", "q", "L"): return out, "directive %s is not one the library understands" % m.group(0)
        if cv in "diouxX": out.append("i64" if ln in ("l", "ll", "z", "t", "j", "q") else "i32")
        elif cv in "fFgGaA" or (not zpl and cv in "eE"): out.append("double")
        elif cv == "c": out.append("i32")
        elif cv == "s": out.append("ptr")
        elif cv == "p": out.append("ptr")
        elif cv == "r" and zpl: out.append("i32")
        else: return out, "directive %s is not one the library understands" % m.group(0)

def base(v):
    """strip constant offsets: (value, byte offset or None)"""
    off = 0
    while True:
        op = v.op if v.kind == "inst" else v.constop if v.kind == "cexpr" else None
        if op in ("bitcast", "addrspacecast", "freeze"): v = v.ops[0]; continue
        return v, off

class Resolver:
    def __init__(self, mod, declared):
        self.mod, self.declared = mod, declared
        self.callers = {}
        for f in mod.functions.values():
            for i in f.insts():
                if i.op in ("call", "invoke") and i.callee is not None and i.callee.kind == "function": self.callers.setdefault(i.callee.v, []).append(i)
        self.taken = set()
        for f in mod.functions.values():
            for i in f.insts():
                for k, o in enumerate(i.ops):
                    if o is not None and o.kind == "function" and not (i.op in ("call", "invoke") and o is i.callee and k == len(i.ops) - 1): self.taken.add(o.v)
    def closed(self, f):
        """every call of f is in view"""
        return f.v not in self.taken and (f.internal or f.name not in self.declared)
    def strings(self, v, seen=None):
        """all strings the pointer can denote: (list of str, list of reasons why not constant, list of parameters)"""
        seen = set() if seen is None else seen
        v, _ = base(v)
        if v.v in seen: return [], [], []
        seen.add(v.v)
        if v.kind == "cnull": return [], [], []
        if v.kind == "global":
            s = v.initializer.cstring if v.isconst and v.initializer is not None else None
            if s is None: return [], ["%s is not a constant string" % v.name], []
            return [s.split(b"\0")[0].decode("utf-8", "replace")], [], []
        if v.kind in ("inst", "cexpr"):
            op = v.op if v.kind == "inst" else v.constop
            if op == "phi": return self.join([x for x, _ in v.incoming()], seen)
            if op == "select": return self.join(v.ops[1:3], seen)
            if op == "getelementptr":
                b, _ = base(v.ops[0])
                ks = [o.int for o in v.ops[1:]]
                if b.kind == "global" and b.isconst and b.initializer is not None and b.initializer.cstring is not None and None not in ks:
                    s = b.initializer.cstring; k = ks[-1]
                    if all(x == 0 for x in ks[:-1]) and 0 <= k < len(s): return [s[k:].split(b"\0")[0].decode("utf-8", "replace")], [], []
                ts, why, ps = self.strings(v.ops[0], seen)
                return [], why + ["a computed offset into a string"], ps
            if op == "load":
                src = v.ops[0]
                b, _ = base(src)
                while b.kind in ("inst", "cexpr") and (b.op if b.kind == "inst" else b.constop) == "getelementptr": b, _ = base(b.ops[0])
                if b.kind == "global" and b.isconst and b.initializer is not None:
                    leaves = []; work = [b.initializer]
                    while work:
                        x = work.pop()
                        if x.kind in ("carray", "cstruct", "cvector"): work += x.ops
                        elif x.kind in ("global", "cexpr", "cnull"): leaves.append(x)
                        elif x.kind in ("cint", "cfp", "czero", "carraydata"): pass
                        else: return [], ["a table of strings with an entry that is not constant"], []
                    return self.join(leaves, seen)
                if b.kind == "inst" and b.op == "alloca":      # a local the promotion left in memory: its stores decide
                    vals = []
                    for i in v.fun.insts():
                        if i.op == "store" and base(i.ops[1])[0] is b: vals.append(i.ops[0])
                        elif i.op in ("call", "invoke") and any(a is b for a in i.args): return [], ["a local whose address is handed out"], []
                    return self.join(vals, seen)
                return [], ["text read from memory at run time"], []
            if op in ("call", "invoke"):
                g = v.callee
                if g is not None and g.kind == "function" and not g.decl:
                    return self.join([i.ops[0] for i in g.insts() if i.op == "ret" and i.ops], seen)
                return [], ["the result of %s" % (g.name if g is not None else "a call")], []
            return [], ["a computed value"], []
        if v.kind == "arg": return [], [], [v]
        return [], ["a computed value"], []
    def join(self, vs, seen):
        r = ([], [], [])
        for v in vs:
            for a, b in zip(r, self.strings(v, seen)): a.extend(b)
        return r

def va_source(fun, v):
    """where a va_list operand comes from: 'own' (started here on the variable arguments), a parameter, or None"""
    b, _ = base(v)
    if b.kind == "arg": return b
    root = b
    while root.kind == "inst" and root.op == "getelementptr": root = base(root.ops[0])[0]
    if root.kind == "inst" and root.op == "alloca":
        for i in fun.insts():
            if i.op == "call" and i.callee is not None and i.callee.name.startswith(("llvm.va_start", "llvm.va_copy")):
                r = base(i.args[0])[0]
                while r.kind == "inst" and r.op == "getelementptr": r = base(r.ops[0])[0]
                if r is root:
                    if i.callee.name.startswith("llvm.va_start"): return "own"
                    return va_source(fun, i.args[1])
    return None

def analyse(c, mod, declared):
    R = Resolver(mod, declared)
    sinks = {}                                   # function name -> (format parameter, kind, library's own language)
    for n, (k, t) in LIBC.items(): sinks[n] = (k, t, False)
    c.require("zpl_snprintf_va" in mod.functions and not mod.functions["zpl_snprintf_va"].decl, "zpl_snprintf_va not found")
    sinks["zpl_snprintf_va"] = (2, 0, True)
    done = set(); changed = True
    reported = set()
    while changed:
        changed = False
        for f in list(mod.functions.values()):
            for i in f.insts():
                if i.op not in ("call", "invoke") or i.callee is None or i.callee.kind != "function": continue
                g = i.callee
                if g.name not in sinks or (i.v, g.name) in done: continue
                done.add((i.v, g.name)); changed = True
                k, kind, zpl = sinks[g.name]
                args = i.args
                if len(args) <= k: continue
                c.count("format_call_sites")
                strs, why, params = R.strings(args[k])
                work = list(params); extra = []
                forwards = False; seenp = set()
                while work:
                    p = work.pop()
                    if p.v in seenp: continue
                    seenp.add(p.v); o = p.fun
                    if o is f and kind == 0:
                        src = va_source(f, args[k + 1]) if len(args) > k + 1 else None
                        if src == "own" or (src is not None and src != "own" and src.fun is f):
                            forwards = True
                            ent = (p.index, 1 if src == "own" else 0, zpl)
                            if sinks.get(f.name) not in (None, ent) and f.name not in LIBC and f.name != "zpl_snprintf_va": why.append("a parameter among several")
                            if f.name not in sinks: sinks[f.name] = ent; c.count("format_functions")
                            continue
                    if R.closed(o):
                        cs = R.callers.get(o.v, [])
                        for x in cs:
                            if len(x.args) > p.index:
                                s2, w2, p2 = R.strings(x.args[p.index]); strs += s2; why += w2; work += p2
                        continue
                    why.append("the parameter %s of %s, text its caller chose" % (p.name or p.index, o.name))
                where = "%s:%s" % (i.where.rsplit(":", 1)[0], f.name)
                if zpl and not g.decl and kind == 0:          # functions the format and the list are handed down to are sinks as well
                    pass
                for w in why:
                    c.finding("%s|%s|%s" % (f.name, g.name, w), i.where, "%s calls %s with a format that is not a constant: %s" % (f.name, g.name, w))
                if kind == 0:
                    if strs: c.finding("%s|%s|list" % (f.name, g.name), i.where, "%s passes %s a constant format with a caller's argument list" % (f.name, g.name))
                    elif not why and forwards: c.good(); c.count("forwarding_sites"); c.sample("%s forwards its own format and argument list to %s" % (f.name, g.name))
                    continue
                if kind in (2, 3):
                    if not why: c.good()
                    continue
                got = []
                for a in args[len(g.params):]:
                    got.append(a.type)
                for s in strs:
                    want, bad = directives(s, zpl)
                    if bad: c.finding("%s|%s|%s" % (f.name, g.name, s), i.where, "%s calls %s with format %r: %s" % (f.name, g.name, s, bad)); continue
                    okk = len(want) == len(got) and all(x == y or (x == "i64" and y == "ptr") or (x == "ptr" and y == "i64" and False) for x, y in zip(want, got))
                    if okk: c.good(); c.count("directives_matched", len(want)); c.sample("%s: %s(%r) with argument types %s" % (i.where, g.name, s, ", ".join(got) or "none"))
                    else: c.finding("%s|%s|%s|types" % (f.name, g.name, s), i.where, "%s calls %s with format %r, which takes (%s), and arguments of type (%s)" % (f.name, g.name, s, ", ".join(want), ", ".join(got)))
    return sinks

def run(c):
    declared = set()
    for p in glob.glob(REPO + "/code/header/**/*.h", recursive=True):
        declared |= set(re.findall(r"\b(zpl_\w+)\s*\(", open(p, errors="replace").read()))
    for defs in ((), ("-DZPL_HEAP_ANALYSIS",), ("-DZPL_PARSER_DISABLE_ANALYSIS",)):
        mod = llir.compile_ir('#define ZPL_IMPL\n#include "zpl.h"\n', defs=defs)
        c.count("configurations"); c.count("functions", sum(not f.decl for f in mod.functions.values()))
        sinks = analyse(c, mod, declared)
    c.require(c.cov.get("format_call_sites", 0) >= 200, "only %d formatted-output call sites" % c.cov.get("format_call_sites", 0))
    c.require(c.cov.get("format_functions", 0) >= 24, "formatted-output functions missing")
    c.expl.append("formatted-output functions are found by closure from zpl_snprintf_va and the system's printf and scanf families: a function that hands on its own format parameter together with its own argument list; at every other call the format must resolve, through selections, tables and helper parameters, to constant strings only, and each such string must consume exactly the arguments given, in number and promoted type")
