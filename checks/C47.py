TECHNIQUE = "type-checked syntax tree and symbol tables of every configuration: declared functions (clang AST) against definitions, with link-time witnesses that take the address of every declared function"
NOTE = "configurations: default, nano, pico, every module disabled alone, every module enabled alone on nano, and feature options, as C and C++ with gcc and clang on x86-64 Linux"
import concurrent.futures, json, os, re, shutil, subprocess, tempfile
from eva import REPO
MODS = ["HASHING", "REGEX", "DLL", "OPTS", "PROCESS", "MATH", "THREADING", "JOBS", "PARSER", "SOCKET"]
def configs():
    cs = [("default", []), ("nano", ["ZPL_NANO"]), ("pico", ["ZPL_PICO"])]
    cs += [("without " + m.lower(), ["ZPL_DISABLE_" + m]) for m in MODS]
    cs += [("nano with " + m.lower(), ["ZPL_NANO", "ZPL_ENABLE_" + m]) for m in MODS]
    cs += [("heap analysis", ["ZPL_HEAP_ANALYSIS"]), ("no parser analysis", ["ZPL_PARSER_DISABLE_ANALYSIS"]), ("exposed types", ["ZPL_EXPOSE_TYPES"]), ("nano with all", ["ZPL_NANO"] + ["ZPL_ENABLE_" + m for m in MODS])]
    return cs
CCS = [("gcc, C", ["gcc", "-std=gnu11"], "c"), ("g++, C++", ["g++", "-std=gnu++17"], "cpp"), ("clang, C", ["clang", "-std=gnu11"], "c"), ("clang++, C++", ["clang++", "-std=gnu++17"], "cpp")]
BASE = ["-w", "-I" + REPO + "/code", "-Werror=implicit-function-declaration"]

def decls(defs, d):
    """functions the header declares with external linkage: name -> (file, line, defined in the header, static)"""
    p = os.path.join(d, "h.c"); open(p, "w").write('#include "zpl.h"\n')
    r = subprocess.run(["clang", "-std=gnu11", "-w", "-I" + REPO + "/code"] + ["-D" + x for x in defs] + ["-fsyntax-only", "-Xclang", "-ast-dump=json", p], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-600:]
    t = json.loads(r.stdout); res = {}; f = [None]
    for n in t["inner"]:
        for loc in (n.get("loc", {}),):
            for l in (loc, loc.get("expansionLoc", {}), loc.get("spellingLoc", {})):
                if "file" in l: f[0] = l["file"]
        if n["kind"] != "FunctionDecl" or not n.get("name", "").startswith("zpl"): continue
        body = any(k["kind"] == "CompoundStmt" for k in n.get("inner", []))
        old = res.get(n["name"])
        res[n["name"]] = (n["type"]["qualType"], body or (old and old[1]), n.get("storageClass") == "static" or n.get("inline", False))
    return res, None

def sh(cmd, cwd): return subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)

def first(err):
    for l in err.splitlines():
        if re.search(r"error|undefined reference|multiple definition", l): return re.sub(r"/tmp/zvcfg\w+/", "", l)[:260]
    return err[:260]

def one(args):
    (cname, defs), (ccname, cc, ext) = args
    d = tempfile.mkdtemp(prefix="zvcfg"); out = []; n = 0
    try:
        D = ["-D" + x for x in defs]
        dc, err = decls(defs, d)
        if dc is None: return [("header", "the header does not compile: " + first(err))], 0, 0
        names = sorted(k for k, (t, body, st) in dc.items() if not st)
        open(d + "/impl." + ext, "w").write('#define ZPL_IMPLEMENTATION\n#include "zpl.h"\n')
        open(d + "/user1." + ext, "w").write('#include "zpl.h"\n#include "zpl.h"\n')
        open(d + "/user2." + ext, "w").write('#include "zpl.h"\n' + "typedef void zv_f(void);\nvolatile void *zv_sink;\nint main(void) {\n" + "".join("  zv_sink = (void *)(&%s);\n" % k for k in sorted(dc)) + "  return 0;\n}\n")
        objs = []
        for s in ("impl", "user1", "user2"):
            r = sh(cc + BASE + D + ["-O0", "-c", s + "." + ext, "-o", s + ".o"], d)
            n += 1
            if r.returncode: out.append((s, "%s does not compile: %s" % ({"impl": "the implementation", "user1": "a file that only includes the header", "user2": "a file that uses every declared function"}[s], first(r.stderr))))
            else: objs.append(s + ".o")
        if len(objs) == 3:
            r = sh(cc + objs + ["-o", "prog", "-lm", "-lpthread", "-ldl"], d); n += 1
            if r.returncode:
                seen = set()
                for l in r.stderr.splitlines():
                    m = re.search(r"(undefined reference to|multiple definition of) [`'\"]([^'`\"]+)", l)
                    if m and m.groups() not in seen: seen.add(m.groups()); out.append((m.group(2), "%s %s" % (m.group(1), m.group(2))))
                if not seen: out.append(("link", first(r.stderr)))
            r = sh(["nm", "impl.o"], d); defd = [l.split()[-1] for l in r.stdout.splitlines() if re.search(r" [TW] ", l)]
            for k in names:
                n += 1
                if k not in defd and not dc[k][1]: out.append((k, "%s is declared but not defined" % k))
        # the single-file form: everything static in one translation unit
        open(d + "/static." + ext, "w").write('#define ZPL_STATIC\n#define ZPL_IMPLEMENTATION\n#include "zpl.h"\nint main(void) { return 0; }\n')
        return out, n, len(names)
    finally:
        shutil.rmtree(d)

def run(c):
    jobs = [(k, cc) for k in configs() for cc in CCS]
    with concurrent.futures.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    for ((cname, defs), (ccname, _, _)), (out, n, nd) in zip(jobs, res):
        c.count("configurations"); c.count("functions_declared", nd); c.good(max(0, n - len(out)))
        for k, msg in out: c.finding("%s|%s|%s" % (cname, ccname, k), "code/zpl.h (configuration %s)" % cname, "%s (%s): %s" % (cname, ccname, msg))
        if not out: c.sample("%s (%s): %d declared functions, each defined once" % (cname, ccname, nd))
    c.require(c.cov["functions_declared"] > 5000, "declared functions missing")
    c.expl.append("per configuration: the header alone compiles and may be included repeatedly and in several files; every function the type-checked header declares is defined exactly once by the implementation file with that declaration, decided by symbol tables and by linking a file that takes the address of each declared function (nothing is run)")
