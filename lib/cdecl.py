"""Declarations of the current sources: for every function its parameter types, and whether the header declares it (clang's type-checked tree)."""
import json, subprocess, os, tempfile
from eva import REPO, AnalysisBroken
def functions(src, defs=()):
    p = tempfile.mkdtemp(prefix="zvast"); q = os.path.join(p, "a.c"); open(q, "w").write(src)
    try:
        r = subprocess.run(["clang", "-std=gnu11", "-w", "-I" + REPO + "/code"] + list(defs) + ["-fsyntax-only", "-Xclang", "-ast-dump=json", q], capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken("the sources do not compile: " + r.stderr[-500:])
        t = json.loads(r.stdout)
    finally: os.unlink(q); os.rmdir(p)
    res = {}
    for n in t["inner"]:
        if n["kind"] != "FunctionDecl": continue
        ps = [k for k in n.get("inner", []) if k["kind"] == "ParmVarDecl"]
        ty = [k["type"].get("desugaredQualType", k["type"]["qualType"]) for k in ps]
        d = res.setdefault(n["name"], {"params": ty, "names": [k.get("name", "") for k in ps], "static": False, "body": False, "ret": n["type"]["qualType"].split("(")[0].strip()})
        d["static"] |= n.get("storageClass") == "static"; d["body"] |= any(k["kind"] == "CompoundStmt" for k in n.get("inner", []))
        if not any(d["names"]): d["names"] = [k.get("name", "") for k in ps]
    return res
def pointee_const(t):
    """'char const *', 'const void *restrict' -> True"""
    t = t.replace("restrict", "").replace("__", "").strip()
    if "(*" in t or not t.endswith(("*", "* const")): return False
    t = t[:t.rindex("*")].strip()
    return t.startswith("const ") or t.endswith("const") if "*" not in t else t.endswith("const")
