"""Abstract interpretation of compiled x86-64 functions over symbolic register values, for code that shares one cell
(the object its first argument points to) with other threads. Every read of the cell yields a fresh unknown, because
other threads write it; an atomic read-modify-write yields one event (value replaced, value stored)."""
import re, subprocess, os, tempfile
ARGS = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]
REGS = {}
for r, (d, w, b) in {"rax": ("eax", "ax", "al"), "rbx": ("ebx", "bx", "bl"), "rcx": ("ecx", "cx", "cl"), "rdx": ("edx", "dx", "dl"),
                     "rsi": ("esi", "si", "sil"), "rdi": ("edi", "di", "dil"), "rbp": ("ebp", "bp", "bpl"), "rsp": ("esp", "sp", "spl")}.items():
    REGS[r] = (r, 8); REGS[d] = (r, 4); REGS[w] = (r, 2); REGS[b] = (r, 1)
for i in range(8, 16):
    for s, n in (("", 8), ("d", 4), ("w", 2), ("b", 1)): REGS["r%d%s" % (i, s)] = ("r%d" % i, n)

def compile_s(cc, flags, src, repo):
    d = tempfile.mkdtemp(prefix="zvasm")
    p = os.path.join(d, "a.c"); open(p, "w").write(src); o = os.path.join(d, "a.s")
    r = subprocess.run([cc] + flags + ["-w", "-S", "-fno-asynchronous-unwind-tables", "-fcf-protection=none", "-fno-stack-protector", "-fno-pic", "-I" + os.path.join(repo, "code"), p, "-o", o], capture_output=True, text=True)
    t = open(o).read() if r.returncode == 0 else None
    for f in os.listdir(d): os.unlink(os.path.join(d, f))
    os.rmdir(d)
    return t, r.stderr[-1500:]

def functions(text):
    """name -> list of (label or instruction)"""
    fs = {}; cur = None
    for l in text.splitlines():
        l = re.sub(r"#(?!\$).*", "", l).rstrip() if not l.lstrip().startswith("#") else ""
        m = re.match(r"^([A-Za-z_][\w.$]*):\s*$", l)
        if m: cur = fs.setdefault(m.group(1), []); continue
        if cur is None: continue
        if re.match(r"^\s*\.(size|globl|type|section|data)\b", l) and ".size" in l: cur = None; continue
        for part in l.split(";"):
            part = part.strip()
            while True:
                m = re.match(r"^([\w.$]+):\s*(.*)$", part)
                if not m: break
                cur.append(("label", m.group(1))); part = m.group(2)
            if not part or part.startswith("."): continue
            cur.append(("ins", part))
    return fs

class Unknown(Exception): pass

class Interp:
    def __init__(self, fs, size, limit=4000):
        self.fs, self.size, self.limit = fs, size, limit
        self.problems = []
    # ---- values are tuples; ('arg',i) ('c',n) ('old',k) ('u',k) ('op',name,a,b) ('sp',off)
    def fresh(self, st, kind): st["n"] += 1; return (kind, st["n"])
    def norm(self, v):
        if v[0] == "c": return ("c", v[1] & ((1 << (8 * self.size)) - 1))
        if v[0] in ("lo32", "sx32") and self.size == 4: return self.norm(v[1])
        if v[0] == "op" and v[1] in ("and", "or", "add", "xor", "sub"):
            a, b = self.norm(v[2]), self.norm(v[3])
            if v[1] != "sub" and repr(a) > repr(b): a, b = b, a
            return ("op", v[1], a, b)
        return v
    def reg(self, st, name):
        r, n = REGS[name]; v = st["r"].get(r) or self.fresh(st, "u"); st["r"][r] = v
        if n == 8: return v
        if n == 4: return v if v[0] == "lo32" else ("c", v[1] & 0xffffffff) if v[0] == "c" else ("lo32", v)
        return ("part", n, v)
    def setreg(self, st, name, v):
        r, n = REGS[name]
        if n == 4:
            if v[0] == "c": v = ("c", v[1] & 0xffffffff)
            elif v[0] not in ("lo32", "u") : v = ("lo32", v)
        elif n < 4: v = ("part", n, v)
        st["r"][r] = v
    def addr(self, st, op):
        m = re.match(r"^(?:%fs:|%gs:)?(-?(?:0x)?[0-9a-f]*)\(%(\w+)\)$", op)
        if not m: return None
        base = self.reg(st, m.group(2)); d = int(m.group(1) or "0", 0)
        if base == ("arg", 0): return ("cell", d)
        if base[0] == "sp": return ("stack", base[1] + d)
        return ("mem", base, d)
    def ismem(self, op): return not op.startswith("%") and not op.startswith("$")
    def load(self, st, op, n):
        if op.startswith("$"):
            try: return ("c", int(op[1:], 0) & 0xffffffffffffffff)
            except ValueError: return self.fresh(st, "u")
        if op.startswith("%"):
            if op[1:] not in REGS: return self.fresh(st, "u")
            return self.reg(st, op[1:])
        a = self.addr(st, op)
        if a and a[0] == "stack":
            v = st["m"].get(a[1])
            if v is None: v = st["m"][a[1]] = self.fresh(st, "u")
            return v
        if a and a[0] == "cell":
            if a[1] != 0 or n != self.size: self.bad(st, "reads %d byte(s) at offset %d of the cell, not its full width" % (n, a[1]))
            o = self.fresh(st, "old"); st["ev"].append(("load", o)); return o
        return self.fresh(st, "u")
    def store(self, st, op, v, n, locked=False):
        if op.startswith("%"):
            if op[1:] in REGS: self.setreg(st, op[1:], v)
            return
        a = self.addr(st, op)
        if a and a[0] == "stack": st["m"][a[1]] = v; return
        if a and a[0] == "cell":
            if a[1] != 0 or n != self.size: self.bad(st, "writes %d byte(s) at offset %d of the cell, not its full width" % (n, a[1]))
            st["ev"].append(("store", v)); return
        self.bad(st, "writes memory that is neither the cell nor its own")
    def bad(self, st, msg):
        if msg not in self.problems: self.problems.append(msg)
    def run(self, name):
        self.paths = []
        st = {"r": {r: ("arg", i) for i, r in enumerate(ARGS)}, "m": {}, "ev": [], "n": 0, "zf": None, "stack": [], "ne": frozenset()}
        st["r"]["rsp"] = ("sp", 0)
        work = [(name, 0, st)]; seen = set(); steps = 0
        while work:
            f, pc, st = work.pop()
            while True:
                steps += 1
                if steps > self.limit: self.bad(st, "analysis does not converge"); return self.paths
                body = self.fs.get(f)
                if body is None: self.bad(st, "calls %s, whose body is not available" % f); break
                if pc >= len(body): self.bad(st, "runs off its end"); break
                kind, x = body[pc]
                if kind == "label":
                    k = (f, pc, self.canon(st))
                    if k in seen: break
                    seen.add(k); pc += 1; continue
                nx = self.step(f, pc, st, x, work)
                if nx is None: break
                f, pc = nx
        return self.paths
    def canon(self, st):
        ren = {}
        def c(v):
            if isinstance(v, tuple):
                if v and v[0] in ("old", "u"):
                    return (v[0], ren.setdefault(v, len(ren)))
                return tuple(c(y) for y in v)
            return v
        ev = [e for e in st["ev"] if e[0] in ("rmw", "store")]
        return (tuple((k, c(st["r"][k])) for k in sorted(st["r"])), tuple((k, c(st["m"][k])) for k in sorted(st["m"])), c(tuple(ev)), c(st["zf"]) if st["zf"] else None, tuple(st["stack"]))
    def target(self, f, lab, pc):
        m = re.match(r"^(\d+)([bf])$", lab); body = self.fs[f]
        if m:
            idx = [i for i, (k, x) in enumerate(body) if k == "label" and x == m.group(1)]
            c = [i for i in idx if i <= pc] if m.group(2) == "b" else [i for i in idx if i > pc]
            return (c[-1] if m.group(2) == "b" else c[0]) if c else None
        for i, (k, x) in enumerate(body):
            if k == "label" and x == lab: return i
        return None
    def copy(self, st): return {"r": dict(st["r"]), "m": dict(st["m"]), "ev": list(st["ev"]), "n": st["n"], "zf": st["zf"], "ne": st["ne"], "stack": list(st["stack"]), "lock": False}
    def step(self, f, pc, st, x, work):
        lock = st.pop("lock", False) or False
        x = re.sub(r"\s+", " ", x.strip())
        if x in ("lock", "lock ;"): st["lock"] = True; return f, pc + 1
        if x.startswith("lock "): lock = True; x = x[5:].strip()
        m = re.match(r"^(\w+)(?: (.*))?$", x)
        if not m: raise Unknown(x)
        op, rest = m.group(1), (m.group(2) or "").strip()
        ops = [o.strip() for o in re.split(r",(?![^(]*\))", rest)] if rest else []
        S = {"b": 1, "w": 2, "l": 4, "q": 8}
        n = S.get(op[-1], 8)
        if ops:
            for o in ops:
                if o.startswith("%") and o[1:] in REGS and not op.startswith(("movz", "movs", "set", "cmov")): n = REGS[o[1:]][1]
        base = op[:-1] if op[-1] in S and op[:-1] in ("mov", "xadd", "cmpxchg", "xchg", "and", "or", "add", "sub", "xor", "cmp", "test", "push", "pop", "lea", "inc", "dec", "not", "neg", "movabs", "call", "ret", "leave") else op
        nx = (f, pc + 1)
        if base in ("nop", "pause", "mfence", "sfence", "lfence", "rep", "endbr64", "hlt", "leal_"): return nx
        if base == "ret" or base == "rep" and rest == "ret":
            if st["stack"]: return st["stack"].pop()
            self.paths.append((st["ev"], st["r"].get("rax"))); return None
        if base == "push": 
            v = self.load(st, ops[0], 8); sp = st["r"]["rsp"]; st["r"]["rsp"] = ("sp", sp[1] - 8); st["m"][sp[1] - 8] = v; return nx
        if base == "pop":
            sp = st["r"]["rsp"]; v = st["m"].get(sp[1], ("u", 0)); st["r"]["rsp"] = ("sp", sp[1] + 8); self.store(st, ops[0], v, 8); return nx
        if base == "leave":
            bp = st["r"]["rbp"]; st["r"]["rbp"] = st["m"].get(bp[1], ("u", 0)); st["r"]["rsp"] = ("sp", bp[1] + 8); return nx
        if base in ("jmp", "call") and ops and not ops[0].startswith("*"):
            t = self.target(f, ops[0], pc) if base == "jmp" else None
            if t is not None: return f, t
            g = ops[0].split("@")[0]
            if base == "call":
                if g not in self.fs:
                    if any(v == ("arg", 0) for v in st["r"].values()): self.bad(st, "calls %s, whose body is not available" % g)
                    for r in ("rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"): st["r"][r] = self.fresh(st, "u")
                    return nx
                if len(st["stack"]) > 6: self.bad(st, "recursion"); return None
                st["stack"].append((f, pc + 1))
            return g, 0
        if re.match(r"^j\w+$", op):
            t = self.target(f, ops[0], pc); cond = op[1:]
            known = st["zf"]
            if cond in ("e", "z", "ne", "nz") and isinstance(known, bool):
                return (f, t) if known == (cond in ("e", "z")) else nx
            st2 = self.copy(st); taken = True
            if cond in ("e", "z", "ne", "nz") and known:
                eq = cond in ("e", "z"); self.refine(st2, known, eq); self.refine(st, known, not eq)
            work.append((f, t, st2)); return nx
        if base == "xadd":
            src, dst = ops; v = self.load(st, src, n); a = self.addr(st, dst) if self.ismem(dst) else None
            if a and a[0] == "cell":
                self.width(st, a, n); 
                if not lock: self.bad(st, "adds to the cell without the lock prefix")
                o = self.fresh(st, "old"); st["ev"].append(("rmw", o, ("op", "add", o, v), n)); self.store(st, src, o, n)
            else: raise Unknown(x)
            st["zf"] = None; return nx
        if base == "xchg":
            p, q = ops
            mem = q if self.ismem(q) else p if self.ismem(p) else None
            if mem is None:
                v1, v2 = self.load(st, p, n), self.load(st, q, n); self.store(st, p, v2, n); self.store(st, q, v1, n); return nx
            rg = p if mem is q else q; a = self.addr(st, mem); v = self.load(st, rg, n)
            if a and a[0] == "cell":
                self.width(st, a, n); o = self.fresh(st, "old"); st["ev"].append(("rmw", o, v, n)); self.store(st, rg, o, n)
            else:
                o = self.load(st, mem, n); self.store(st, mem, v, n); self.store(st, rg, o, n)
            return nx
        if base == "cmpxchg":
            src, dst = ops; v = self.load(st, src, n); a = self.addr(st, dst) if self.ismem(dst) else None
            if not (a and a[0] == "cell"): raise Unknown(x)
            self.width(st, a, n)
            if not lock: self.bad(st, "compares and exchanges without the lock prefix")
            e = st["r"].get("rax", ("u", 0))
            if n == 4 and e[0] != "c": e = e if e[0] == "lo32" else ("lo32", e)
            fl = self.copy(st); o = self.fresh(fl, "old"); fl["ev"].append(("miss", e, o)); self.setreg(fl, "eax" if n == 4 else "rax", o); fl["zf"] = False
            fl["ne"] = fl["ne"] | {(self.norm(e), self.norm(o))}
            work.append((f, pc + 1, fl))
            st["ev"].append(("rmw", e, v, n)); st["zf"] = True; return nx
        if base in ("mov", "movabs"):
            if len(ops) == 2:
                v = self.load(st, ops[0], n); self.store(st, ops[1], v, n); return nx
        if op in ("movslq", "movsxd"):
            v = self.load(st, ops[0], 4); self.store(st, ops[1], ("sx32", v if v[0] != "lo32" else v[1]) if v[0] != "c" else ("c", v[1]), 8); return nx
        if op == "cltq": v = self.reg(st, "eax"); st["r"]["rax"] = ("sx32", v); return nx
        if op.startswith("movz") or op.startswith("movs"):
            self.store(st, ops[1], ("ext", self.load(st, ops[0], 1)), 8); return nx
        if base == "lea":
            a = self.addr(st, ops[0])
            if a and a[0] == "stack": self.store(st, ops[1], ("sp", a[1]), 8)
            elif a and a[0] == "cell" and a[1] == 0: self.store(st, ops[1], ("arg", 0), 8)
            elif a and a[0] == "cell": self.store(st, ops[1], ("op", "add", ("arg", 0), ("c", a[1])), 8)
            elif a and a[0] == "mem": self.store(st, ops[1], ("op", "add", a[1], ("c", a[2])), n)
            else:
                m = re.match(r"^\(%(\w+),%(\w+)\)$", ops[0].replace(" ", ""))
                self.store(st, ops[1], ("op", "add", self.reg(st, m.group(1)), self.reg(st, m.group(2))) if m else self.fresh(st, "u"), n)
            return nx
        if base in ("and", "or", "add", "sub", "xor") and len(ops) == 2:
            if self.ismem(ops[1]):
                a = self.addr(st, ops[1])
                if a and a[0] == "cell":
                    self.width(st, a, n)
                    if not lock: self.bad(st, "modifies the cell without the lock prefix")
                    v = self.load(st, ops[0], n); o = self.fresh(st, "old"); st["ev"].append(("rmw", o, ("op", base, o, v), n)); st["zf"] = None; return nx
            v, d = self.load(st, ops[0], n), self.load(st, ops[1], n)
            if base == "xor" and ops[0] == ops[1]: r = ("c", 0)
            elif d[0] == "sp" and v[0] == "c": k = v[1] - (1 << 64) if v[1] >> 63 else v[1]; r = ("sp", d[1] + (k if base == "add" else -k))
            elif base == "and" and v[0] == "c" and d[0] == "sp": r = ("sp", d[1] & ~15)
            else: r = ("op", base, d if d[0] != "lo32" or self.size == 8 else d[1], v if v[0] != "lo32" or self.size == 8 else v[1])
            self.store(st, ops[1], r, n); st["zf"] = None; return nx
        if base in ("test", "cmp"):
            v, d = self.load(st, ops[0], n), self.load(st, ops[1], n)
            if base == "test": st["zf"] = self.eqflag(st, v, ("c", 0)) if v == d else None
            else: st["zf"] = self.eqflag(st, v, d)
            return nx
        if op.startswith("set"):
            z = st["zf"]; c = op[3:]
            if c in ("e", "z", "ne", "nz") and z is not None:
                pos = c in ("e", "z")
                v = ("c", int(z == pos)) if isinstance(z, bool) else ("cond", z[1], z[2], z[3] == pos)
            else: v = self.fresh(st, "u")
            self.store(st, ops[0], v, 1); return nx
        if op.startswith("cmov"):
            z = st["zf"]; c = re.sub(r"[lqw]$", "", op[4:]) or op[4:]; known = None
            if c in ("e", "z", "ne", "nz") and isinstance(z, bool): known = z == (c in ("e", "z"))
            if known is None:
                st2 = self.copy(st)
                if c in ("e", "z", "ne", "nz") and z: self.refine(st, z, c in ("e", "z")); self.refine(st2, z, c not in ("e", "z"))
                work.append((f, pc + 1, st2)); known = True
            if known: self.store(st, ops[1], self.load(st, ops[0], REGS[ops[1][1:]][1]), REGS[ops[1][1:]][1])
            return nx
        if ops and not self.ismem(ops[-1]):
            self.store(st, ops[-1], self.fresh(st, "u"), 8); st["zf"] = None; return nx
        raise Unknown(x)
    def strip(self, v):
        while v[0] in ("part", "ext", "lo32"): v = v[-1]
        return v
    def eqflag(self, st, a, b):
        """the zero flag after comparing a with b: True, False, ('eq', a, b, sense) or None"""
        for p, q in ((a, b), (b, a)):
            k = self.strip(p)
            if q[0] == "c" and k[0] == "cond" and q[1] in (0, 1):
                return ("eq", k[1], k[2], k[3] == (q[1] == 1))
            if q[0] == "c" and k[0] == "c" and p is not k: p = k
        a, b = [("c", self.strip(v)[1] & 0xff) if v[0] in ("part", "ext") and self.strip(v)[0] == "c" else self.norm(v) for v in (a, b)]
        if a == b: return True
        if a[0] == "c" and b[0] == "c": return False
        if (a, b) in st["ne"] or (b, a) in st["ne"]: return False
        if a[0] in ("part", "ext") or b[0] in ("part", "ext"): return None
        return ("eq", a, b, True)
    def refine(self, st, z, holds):
        _, a, b, sense = z
        if holds == sense:
            st["zf"] = None
            for v, w in ((a, b), (b, a)):
                if v[0] in ("old", "u"):
                    sub = lambda y: w if y == v else tuple(sub(k) for k in y) if isinstance(y, tuple) else y
                    st["r"] = {k: sub(y) for k, y in st["r"].items()}; st["m"] = {k: sub(y) for k, y in st["m"].items()}
                    st["ev"] = [sub(e) for e in st["ev"]]; break
        else: st["ne"] = st["ne"] | {(a, b)}
    def width(self, st, a, n):
        if a[1] != 0 or n != self.size: self.bad(st, "acts on %d byte(s) at offset %d of the cell, not its full width" % (n, a[1]))
