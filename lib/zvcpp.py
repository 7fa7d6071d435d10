#!/usr/bin/env python3
"""Preprocessor wrapper for Frama-C: runs gcc -E, then redirects the calls listed in ZV_REPLACE
(name=repl,...) so that memory primitives proved separately (C06) are taken by their C-library model."""
import os, re, subprocess, sys
def calls_to(text, name, repl):
    out = []; i = 0
    for m in re.finditer(r"\b%s\b(?=\s*\()" % re.escape(name), text):
        j = m.start() - 1
        while j >= 0 and text[j] in " \t\n": j -= 1
        prev = text[j] if j >= 0 else ""
        if prev == "*" or ((prev.isalnum() or prev == "_") and not re.search(r"\breturn$", text[max(0, j-8):j+1])):
            continue
        out.append(text[i:m.start()]); out.append(repl); i = m.end()
    out.append(text[i:])
    return "".join(out)
def count_loops(text, limit):
    """every loop of the text counts its iterations: `while (c)` becomes `while ((zv_check(++zv_steps <= limit), 1) && (c))`, so that an
    execution that never ends exceeds the limit instead of vanishing from the analysis"""
    mask = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
    g = "(zv_check(++zv_steps <= %s), 1)" % limit; ins = []
    for m in re.finditer(r"\b(while|for)\s*\(", mask):
        i = m.end(); d = 1; semi = []
        while d and i < len(mask):
            ch = mask[i]
            if ch == "(": d += 1
            elif ch == ")": d -= 1
            elif ch == ";" and d == 1: semi.append(i)
            i += 1
        if m.group(1) == "while": ins += [(m.end(), g + " && ("), (i - 1, ")")]
        elif len(semi) == 2:
            if mask[semi[0] + 1:semi[1]].strip(): ins += [(semi[0] + 1, g + " && ("), (semi[1], ")")]
            else: ins.append((semi[0] + 1, g))
    out = []; k = 0
    for at, t in sorted(ins, key=lambda x: x[0]): out.append(text[k:at]); out.append(t); k = at
    return "".join(out) + text[k:]
args = sys.argv[1:]
o = args.index("-o"); outp = args[o+1]
r = subprocess.run(["gcc"] + args)
if r.returncode: sys.exit(r.returncode)
rep = os.environ.get("ZV_REPLACE", "")
t = open(outp, errors="surrogateescape").read()
# blocks of exactly the requested size: the library's heap rounds them up, which would hide an access just past the end
d = re.search(r"\bvoid\s*\*\s*zpl_heap_allocator_proc\s*(\([^()]*\))\s*;", t) if "zv_heap_exact" in t else None
if d:
    body = re.sub(r"\bzpl_heap_allocator_proc\b(?!\s*\()", "zv_heap_exact", t[d.end():])
    t = t[:d.end()] + " static void *zv_heap_exact" + d.group(1) + ";" + body
    open(outp, "w", errors="surrogateescape").write(t)
m = re.search(r"static int zv_steps;", t)
if m and os.environ.get("ZV_STEPS"):
    t = t[:m.end()] + count_loops(t[m.end():], os.environ["ZV_STEPS"])
    open(outp, "w", errors="surrogateescape").write(t)
if rep:
    for kv in rep.split(","):
        n, _, v = kv.partition("=")
        if n in t: t = calls_to(t, n, v)
    open(outp, "w", errors="surrogateescape").write(t)
