"""Check runner: collects obligations and findings, applies the known-findings file, writes evidence."""
import os, sys, json, time, traceback, importlib.util, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import eva
from eva import AnalysisBroken, REPO

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

def known_for(pid):
    """lines  KNOWN-FINDING: property=<id> key=<key> :: <what fails>   (lines starting 'fixed:' suppress nothing)"""
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == pid: res[m.group(2)] = m.group(3)
    return res

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = []      # dict(key, where, msg)
        self.oblig = 0; self.ok = 0
        self.cov = {}; self.assume = []; self.samples = []; self.expl = []
    def finding(self, key, where, msg):
        self.oblig += 1
        key = re.sub(r"\s+", "_", key)
        if any(f["key"] == key and f["where"] == where for f in self.findings): return
        self.findings.append({"key": key, "where": where, "msg": msg})
    def good(self, n=1):
        self.oblig += n; self.ok += n
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n
    def require(self, cond, msg):
        if not cond: raise AnalysisBroken(msg)

    # ---- abstract interpretation
    def ai(self, cfile=None, only=None, min_ctx=1, defs=(), ignore=None, jobs=8):
        cfile = os.path.join(VERIF, "ctx", cfile or self.pid + ".c")
        rs = eva.run_contexts(cfile, tier=self.tier, only=only, defs=defs, jobs=jobs)
        self.require(len(rs) >= min_ctx, "only %d contexts" % len(rs))
        for r in rs:
            self.count("contexts"); self.count("statements_analysed", r["stmts"]); self.count("functions_analysed", r["functions"])
            self.cov["max_partitions"] = max(self.cov.get("max_partitions", 0), r["states"])
            self.good(r["asserts_valid"])
            self.count("context_assertions_proved", r["asserts_valid"])
            n = 0
            for a in r["asserts_bad"] + r["alarms"]:
                if "FRAMAC_SHARE" in a["file"] or a["kind"] == "precondition": continue     # the same obligation is listed at its call
                if a["file"].startswith(VERIF): a["file"] = os.path.relpath(a["file"], VERIF)
                if ignore and ignore(a, r): continue
                n += 1
                self.finding("%s|%s|%s" % (r["ctx"], a["func"], a["prop"]), "%s:%d" % (a["file"], a["line"]),
                             "in %s, analysing context %s: %s %s (%s)" % (a["func"], r["ctx"], a["kind"], a["prop"], a["status"]))
            if not r["end"] and n == 0:
                self.finding("%s|end" % r["ctx"], "ctx:%s" % r["ctx"], "context %s: no analysed path returns (non-termination or abort)" % r["ctx"])
            self.sample("context %s: %d statements in %d functions, up to %d partitions, %d assertions proved, %d not" % (r["ctx"], r["stmts"], r["functions"], r["states"], r["asserts_valid"], len(r["asserts_bad"])))
        if not any("abstract interpretation" in e for e in self.expl):
            self.expl.append("Frama-C/Eva abstract interpretation of the current sources in the contexts of ctx/%s; every memory access reached and every context assertion is an obligation" % os.path.basename(cfile))
        return rs

def main(argv):
    pid = argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    t0 = time.time()
    c = Check(pid, tier)
    try:
        path = os.path.join(VERIF, "checks", pid + ".py")
        spec = importlib.util.spec_from_file_location(pid, path)
        mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        mod.run(c)
    except AnalysisBroken as e:
        if not c.findings:
            print("ANALYSIS-BROKEN property=%s: %s" % (pid, e)); return 2
        print("note: %s" % e)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s" % pid); return 2
    known = known_for(pid)
    new = []; hit = {}
    for f in c.findings:
        if f["key"] in known: hit.setdefault(f["key"], f)
        else: new.append(f)
    for k, f in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], f["where"]))
    if c.oblig < 1:
        print("ANALYSIS-BROKEN property=%s: no obligation was generated" % pid); return 2
    cov = {"explanation": "; ".join(c.expl) or "static rule", "obligations": c.oblig, "discharged": c.ok,
           "known_findings_seen": sorted(hit), "samples": c.samples}
    cov.update(c.cov)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": cov, "assumptions": c.assume, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d known, %d new; %s; %.1fs" % (pid, c.oblig, c.ok, len(hit), len(new),
          ", ".join("%s=%s" % kv for kv in c.cov.items() if not isinstance(kv[1], (list, dict))), time.time() - t0))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as fo:
            for f in new:
                line = "%s: %s  [key=%s]" % (f["where"], f["msg"], f["key"])
                fo.write(line + "\n"); print("  " + line[:600])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
if __name__ == "__main__":
    sys.exit(main(sys.argv))
