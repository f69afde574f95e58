#!/usr/bin/env python3
"""Create and confirm planted bugs.  plant.py FILE.py [id...]: FILE.py defines B(id, prop, file, [(old, new)...], demo, needs, breaks).
Writes seeded/<id>/ only if: the patch applies, the demo passes clean and fails patched, the stable tests pass patched.  Then runs the property's check."""
import sys, os, subprocess, shutil, json, re
V = "/verif"; SC = "/tmp/plant"; ONLY = set(sys.argv[2:]); NOTEST = os.environ.get("NOTEST")
SH = '#!/bin/bash\n# exit 0: the property holds on this input; nonzero: it is broken\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap \'rm -rf "$t"\' EXIT\ng++ -std=c++14 -O1 -w -I "$PWD/include" "$d/demo.cpp" %s -o "$t/demo" && timeout 120 "$t/demo"\n'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def B(id, prop, file, edits, demo, needs, breaks, extra=""):
    if ONLY and id not in ONLY: return
    files = file if isinstance(file, dict) else {file: edits}
    shutil.rmtree(SC, ignore_errors=True); os.makedirs(SC); sh("git -C /repo archive HEAD | tar x -C %s" % SC); sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % SC)
    for f, eds in files.items():
        p = SC + "/" + f; s = open(p).read()
        for old, new in eds:
            if s.count(old) != 1: print(id, "EDIT does not match once:", s.count(old), old[:80]); return
            s = s.replace(old, new)
        open(p, "w").write(s)
    patch = sh("git -C %s diff" % SC).stdout; W = "/tmp/plantw"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    open(W + "/patch.diff", "w").write(patch); open(W + "/demo.cpp", "w").write(demo); open(W + "/demo.sh", "w").write(SH % extra); os.chmod(W + "/demo.sh", 0o755); json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(W + "/meta.json", "w"), indent=1)
    a = sh(W + "/demo.sh", cwd="/repo"); b = sh(W + "/demo.sh", cwd=SC)
    if a.returncode != 0 or b.returncode == 0: print(id, "DEMO clean=%d patched=%d" % (a.returncode, b.returncode), (a.stdout + a.stderr)[-600:], (b.stdout + b.stderr)[-300:]); return
    if not NOTEST:
        try:
            if sh("git -C /repo apply --whitespace=nowarn " + W + "/patch.diff").returncode: print(id, "APPLY failed"); return
            t = sh("/tmp/tests.sh").stdout.strip()
        finally: sh("git -C /repo checkout -- .")
        if t.split("\n")[-1] != "missing []": print(id, "TESTS notice:", t[-300:]); return
    dst = V + "/seeded/" + id; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(W, dst)
    r = sh("MC_REPO=%s timeout 900 python3 run.py %s" % (SC, prop), cwd=V); print(id, prop, "KEPT demo:", (b.stdout + b.stderr).strip()[-100:].replace("\n", " "), "| CAUGHT" if r.returncode == 1 else "| MISSED rc=%d" % r.returncode, [l for l in r.stdout.split("\n") if "::" in l][:1] or r.stdout[-200:])
src = open(sys.argv[1]).read(); exec(compile(src, sys.argv[1], "exec"))
