"""Driver for abstract interpretation (Frama-C/Eva) of /repo in the contexts of /verif/ctx."""
import os, re, subprocess, sys, csv, tempfile, shutil, time, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZV_REPO", "/repo")
CTX = os.path.join(VERIF, "ctx")
SHARE = "/usr/share/frama-c/libc"

class AnalysisBroken(Exception):
    pass

def contexts(cfile):
    """context functions and their options:  //zv: key=value ... on the line before  void ctx_name(void)"""
    res = []; opts = {}; base = {}          # a line //zv-all: key=value holds for every context after it
    for line in open(cfile):
        m = re.match(r"\s*//zv-all:\s*(.*)", line)
        if m: base.update(kv.split("=", 1) for kv in m.group(1).split())
        m = re.match(r"\s*//zv:\s*(.*)", line)
        if m:
            opts = {}
            for kv in m.group(1).split():
                k, _, v = kv.partition("="); opts[k] = v
        m = re.match(r"\s*void\s+(ctx_\w+)\s*\(void\)", line)
        if m:
            res.append((m.group(1), dict(base, **opts))); opts = {}
    return res

def run_one(cfile, fn, opts, tier, workdir, defs, replace):
    csvf = os.path.join(workdir, fn + ".csv")
    log = os.path.join(workdir, fn + ".log")
    slevel = opts.get("slevel", "400000")
    cmd = ["frama-c", "-c11", "-machdep", "gcc_x86_64",
           "-cpp-command", "python3 %s -E -C -I." % os.path.join(VERIF, "lib", "zvcpp.py"), "-cpp-frama-c-compliant",
           "-cpp-extra-args=" + " ".join(["-I" + CTX, "-I" + REPO + "/code", "-include zv_pre.h"] + ["-D" + d for d in defs] + (["-DZV_THOROUGH"] if tier == "thorough" else [])),
           cfile, "-eva", "-main", fn,
           "-eva-slevel", slevel, "-eva-split-return", opts.get("split", "full"), "-eva-unroll-recursive-calls", opts.get("recur", "12"), "-eva-no-print", "-eva-show-progress" if False else "-eva-no-show-progress",
           "-eva-alloc-returns-null" if opts.get("null") else "-eva-no-alloc-returns-null",
           "-eva-malloc-functions", "malloc,calloc,realloc",
           "-eva-mlevel", opts.get("mlevel", "100"), "-eva-alloc-builtin", opts.get("alloc", "fresh"),
           "-eva-warn-undefined-pointer-comparison", "none",
           "-no-warn-pointer-downcast", "-eva-precision", "0"]
    cmd = [c for c in cmd]
    # -eva-precision resets other knobs; drop it
    i = cmd.index("-eva-precision"); del cmd[i:i+2]
    if not opts.get("overflow"): cmd.append("-no-warn-signed-overflow")
    if opts.get("shift") == "0": cmd += ["-no-warn-left-shift-negative", "-no-warn-right-shift-negative"]
    else: cmd += ["-no-warn-left-shift-negative"]
    cmd += ["-warn-special-float", opts.get("float", "none")]
    if opts.get("abs"): cmd += ["-absolute-valid-range", opts["abs"]]
    if opts.get("domains"): cmd += ["-eva-domains", opts["domains"]]
    if opts.get("ilevel"): cmd += ["-eva-ilevel", opts["ilevel"]]
    if opts.get("args"): cmd += opts["args"].split(",")
    cmd += ["-eva-auto-loop-unroll", opts.get("unroll", "0"), "-then", "-report-csv", csvf]
    tmo = float(opts.get("timeout", "300"))
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=tmo,
                           env=dict(os.environ, ZV_REPLACE=replace, ZV_STEPS=opts.get("steps", os.environ.get("ZV_STEPS_DEFAULT", ""))))
        out = r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        # an analysis that does not converge within its (generous) budget is an undischarged obligation
        return {"ctx": fn, "wall": tmo, "alarms": [], "asserts_valid": 0, "functions": 0, "stmts": 0, "states": 1, "end": False, "log": log,
                "asserts_bad": [{"file": cfile, "line": 0, "func": fn, "kind": "termination", "status": "Unknown", "prop": "the analysis of this context converges within %gs" % tmo}]}
    open(log, "w").write(out)
    res = {"ctx": fn, "wall": round(time.time() - t0, 2), "alarms": [], "asserts_valid": 0, "asserts_bad": [],
           "end": "ZV_END" in out, "log": log}
    if not os.path.exists(csvf):
        raise AnalysisBroken("context %s: analysis did not complete:\n%s" % (fn, out[-2500:]))
    m = re.search(r"(\d+) functions analyzed", out); res["functions"] = int(m.group(1)) if m else 0
    m = re.search(r"(\d+) statements reached \(out of (\d+)\)", out)
    res["stmts"] = int(m.group(1)) if m else 0
    m = re.findall(r"Trace partitioning superposing up to (\d+) states", out)
    res["states"] = max([int(x) for x in m], default=1)
    with open(csvf) as f:
        for row in csv.DictReader(f, delimiter="\t"):
            d, fl, ln = row["directory"], row["file"], row["line"]
            kind, st, prop, func = row["property kind"], row["status"], row["property"], row["function"]
            path = os.path.join(d, fl)
            if "FRAMAC_SHARE" in path and kind != "precondition": continue
            isctx = path.startswith(CTX) or "/ctx/" in path
            if kind in ("assigns clause", "from clause", "behavior", "default behavior", "allocation", "termination", "postcondition", "ensures"): continue
            if kind == "precondition of zv_check":
                if st == "Valid": res["asserts_valid"] += 1; continue
                if st in ("Dead", "Unreachable", "Valid under hyp."): continue
                try: prop = open(path).read().splitlines()[int(ln) - 1].strip()
                except OSError: pass
                res["asserts_bad"].append({"file": os.path.relpath(path, VERIF), "line": int(ln), "func": func, "kind": "assertion", "status": st, "prop": prop}); continue
            if st in ("Valid", "Considered valid", "Unreachable", "Dead", "Valid under hyp.", "Partially proven"):
                if kind in ("user assertion", "assertion"): res["asserts_valid"] += 1
                continue
            rec = {"file": path.replace(REPO + "/", ""), "line": int(ln or 0), "func": func, "kind": kind, "status": st, "prop": prop}
            if kind in ("user assertion", "assertion"): res["asserts_bad"].append(rec)
            else: res["alarms"].append(rec)
    return res

def run_contexts(cfile, tier="quick", only=None, defs=(), jobs=8, keep=None, replace="zpl_memset=zv_memset,zpl_memmove=zv_memmove"):
    wd = keep or tempfile.mkdtemp(prefix="zv_eva_")
    os.makedirs(wd, exist_ok=True)
    try:
        cx = [c for c in contexts(cfile) if (only is None or c[0] in only)]
        cx = [c for c in cx if not (tier == "quick" and c[1].get("tier") == "thorough")]
        if not cx: raise AnalysisBroken("no contexts in %s" % cfile)
        with ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(run_one, cfile, fn, o, tier, wd, tuple(defs) + tuple(x for x in o.get("defs", "").split(",") if x),
                              o.get("replace", replace)) for fn, o in cx]
            return [f.result() for f in futs]
    finally:
        if not keep: shutil.rmtree(wd, ignore_errors=True)

if __name__ == "__main__":
    only = set(sys.argv[2:]) or None
    try:
        rs = run_contexts(sys.argv[1], only=only, keep="/tmp/zv_eva_dbg", tier=os.environ.get("VERIF_TIER", "quick"))
    except AnalysisBroken as e:
        print("BROKEN", e); sys.exit(2)
    for r in rs:
        print("%-32s %6.1fs end=%s fn=%d stmts=%d states=%d ok=%d bad=%d alarms=%d" % (r["ctx"], r["wall"], r["end"], r["functions"], r["stmts"], r["states"], r["asserts_valid"], len(r["asserts_bad"]), len(r["alarms"])))
        for a in r["asserts_bad"] + r["alarms"]:
            print("    %s:%d %s [%s] %s: %s" % (a["file"], a["line"], a["func"], a["kind"], a["status"], a["prop"]))
