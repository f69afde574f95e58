#!/usr/bin/env python3
"""Driver: python3 run.py <property> [--tier quick|thorough] [--only case]
Builds the property's harness from /repo's current tree, explores, writes evidence/<id>.json, and
prints one VIOLATION line per failure that known_findings.txt does not list."""
import sys, os, json, subprocess, hashlib, time, shutil, fnmatch
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("MC_REPO", "/repo")
from checks import CHECKS

HASHES = {}
def fhash(p):
    if p not in HASHES:
        try: HASHES[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        except OSError: HASHES[p] = "absent"
    return HASHES[p]

def names():
    """The set of headers that exist: a header that appears or disappears can change what an #include finds."""
    h = hashlib.sha256()
    for root in (REPO + "/include", V + "/harness"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs): h.update((os.path.join(d, f)[len(root):] + "\n").encode())
    return h.hexdigest()

def deps(dfile):
    """The files of ours that the compiler read."""
    t = open(dfile).read().replace("\\\n", " ").split(":", 1)[1].split()
    return sorted({os.path.normpath(x) for x in t if os.path.normpath(x).startswith((REPO + "/", V + "/"))})

def short(p): return p.replace(REPO + "/", "R/", 1) if p.startswith(REPO + "/") else p.replace(V + "/", "V/", 1)
def full(p): return (REPO if p[0] == "R" else V) + p[1:]

def build(prop, spec):
    bdir = os.path.join(V, "build"); os.makedirs(bdir, exist_ok=True)
    nm = names()
    base = ["g++", "-std=c++17", "-w", "-fno-strict-aliasing", "-I" + V + "/harness", "-I" + REPO + "/include"]
    jobs = []
    for b in spec["bins"]:
        for src, flags in b["srcs"]:
            cmd = base + ["-O2"] + flags
            if not src.startswith("/"): path = os.path.join(V, "harness", src)
            else: path = src.replace("/repo", REPO, 1) if src.startswith("/repo/") else src
            key = hashlib.sha256((nm + " ".join(cmd).replace(REPO, "R").replace(V, "V") + short(path)).encode()).hexdigest()[:20]
            jobs.append((cmd, path, key))
    # an object is reused when every file of /repo and /verif it was compiled from has the same content
    def comp(j):
        cmd, path, key = j
        man = os.path.join(bdir, key + ".man")
        try: entries = json.load(open(man))
        except (OSError, ValueError): entries = []
        for e in entries:
            o = os.path.join(bdir, e["obj"])
            if os.path.exists(o) and all(fhash(full(p)) == h for p, h in e["files"].items()):
                os.utime(o); return 0, o
        tmp = os.path.join(bdir, "%s.%d.tmp" % (key, os.getpid()))
        r = subprocess.run(cmd + ["-MD", "-MF", tmp + "d", "-c", path, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return r.returncode, r.stdout
        files = {short(p): fhash(p) for p in deps(tmp + "d")}; os.remove(tmp + "d")
        obj = hashlib.sha256((key + json.dumps(files, sort_keys=True)).encode()).hexdigest()[:24] + ".o"
        os.rename(tmp, os.path.join(bdir, obj))
        entries = [{"obj": obj, "files": files}] + [e for e in entries if e["obj"] != obj]
        json.dump(entries[:8], open(tmp, "w")); os.rename(tmp, man)
        return 0, os.path.join(bdir, obj)
    uniq = {j[2]: j for j in jobs}
    objs = {}
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for (rc, outp), j in zip(ex.map(comp, uniq.values()), uniq.values()):
            if rc:
                print("BUILD-FAILED", j[1]); print(outp[-6000:]); sys.exit(2)
            objs[j[2]] = outp
    i = 0; bins = []
    for n, b in enumerate(spec["bins"]):
        os_ = [objs[jobs[i + k][2]] for k in range(len(b["srcs"]))]; i += len(b["srcs"])
        lf = b.get("ldflags", [])
        key = hashlib.sha256(" ".join([os.path.basename(o) for o in os_] + lf).encode()).hexdigest()[:24]
        exe = os.path.join(bdir, "%s-%d-%s" % (prop, n, key))
        if not os.path.exists(exe):
            r = subprocess.run(["g++"] + os_ + ["-o", exe + ".tmp"] + lf, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: print("LINK-FAILED"); print(r.stdout[-4000:]); sys.exit(2)
            os.rename(exe + ".tmp", exe)
        bins.append((b.get("name", str(n)), exe))
    # keep the cache small
    fs = sorted((os.path.join(bdir, f) for f in os.listdir(bdir) if f not in ("out",)), key=os.path.getmtime)
    tot = 0
    for f in reversed(fs):
        if os.path.isfile(f):
            tot += os.path.getsize(f)
            if tot > 1500 * 2**20:
                try: os.remove(f)
                except OSError: pass
    return bins

def known():
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=<id> key=<failure key> | <what fails>
                head, _, what = l[6:].partition("|")
                kv = dict(x.split("=", 1) for x in head.split())
                res.append((kv["property"], kv["key"], what.strip()))
    return res

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); only = None
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier": tier = a[1]; a = a[2:]
        elif a[0] == "--only": only = a[1]; a = a[2:]
        else: print("unknown argument", a[0]); sys.exit(2)
    spec = CHECKS[prop]
    t0 = time.time()
    bins = build(prop, spec)
    tb = time.time() - t0
    env = dict(os.environ, VERIF_TIER=tier, ASAN_OPTIONS="detect_leaks=0", MC_KNOWN="\n".join(k[1] for k in known() if k[0] == prop))
    outd = os.path.join(V, "build", "out"); os.makedirs(outd, exist_ok=True)
    counters = {}; fails = []; samples = []; cases = 0
    def one(nb):
        name, exe = nb
        of = os.path.join(outd, "%s-%s-%d.json" % (prop, name, os.getpid()))
        cmd = [exe, "--out", of, "--tier", tier, "--jobs", str(os.cpu_count() or 8)]
        if only: cmd += ["--only", only]
        r = subprocess.run(cmd, env=env)
        if r.returncode or not os.path.exists(of): return "HARNESS-ERROR %s %d" % (name, r.returncode)
        d = json.load(open(of)); os.remove(of)
        # replay before report: every failing case is run again alone and must fail again
        # (a hang has already been run twice)
        bad = sorted({f["case"] for f in d["failures"] if not f["key"].endswith("/hang")})
        tr = time.time()
        for c in bad[:20]:
            if time.time() - tr > 100: break
            for attempt in range(3):
                r = subprocess.run([exe, "--out", of, "--tier", tier, "--only", c], env=env)
                d2 = json.load(open(of)); os.remove(of)
                if d2["failures"]: break
            else:
                return "NONDETERMINISTIC: case %s failed once and passed three replays" % c
        for f in d["failures"]: f["bin"] = name
        return d
    with ThreadPoolExecutor(max_workers=4) as ex:
        for d in ex.map(one, bins):
            if isinstance(d, str): print(d); sys.exit(2)
            cases += d["cases"]; fails += d["failures"]; samples += d["samples"]
            for k, v in d["counters"].items(): counters[k] = counters.get(k, 0) + v
    wall = time.time() - t0
    kn = [k for k in known() if k[0] == prop]
    viol = []; hit = {}
    for f in fails:
        m = [k for k in kn if k[1] == f["key"]]
        if m: hit.setdefault(m[0][1], m[0][2])
        else: viol.append(f)
    ints = {k: (int(v) if v == int(v) else v) for k, v in counters.items()}
    cov = {"cases": cases, "build_s": round(tb, 1), "counters": {k: v for k, v in ints.items() if k not in ("states", "transitions", "traces", "executions", "distinct")},
           "rule": spec.get("rule", ""), "bounds": spec.get("bounds", ""), "exhaustive_within_bounds": True,
           "samples": (samples[:12] or ["no sample recorded"])}
    lvl = spec.get("level", "model_checking")
    if lvl == "model_checking":
        cov["states"] = ints.get("states", 0); cov["transitions"] = ints.get("transitions", 0)
        cov["traces_validated_against_impl"] = ints.get("traces", ints.get("executions", 0))
        if "traces" in ints: cov["executions"] = ints.get("executions", 0)
    else:
        cov["evaluations"] = ints.get("executions", 0); cov["distinct_nontrivial"] = ints.get("distinct", 0)
        cov["exhaustive"] = True
    for k in ("states","transitions","traces_validated_against_impl","evaluations","distinct_nontrivial"):
        if k in cov: cov[k] = int(cov[k])
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": lvl,
          "coverage": cov, "wall_s": round(wall, 2), "assumptions": spec.get("assumptions", []),
          "violations": len(viol)}
    if viol: cov["violation_details"] = [{"key": f["key"], "detail": f["detail"]} for f in viol[:50]]
    if not only:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k, w in sorted(hit.items()): print("KNOWN-FINDING: property=%s %s [%s]" % (prop, w, k))
    if viol:
        rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        seen = set(); n = 0
        for f in viol:
            if f["case"] in seen: continue
            seen.add(f["case"]); n += 1
            if n > 10: break
            rp = os.path.join(rd, "%s-%d.json" % (prop, n))
            json.dump({"property": prop, "case": f["case"], "key": f["key"], "detail": f["detail"],
                       "replay": "cd %s && python3 run.py %s --tier %s --only '%s'" % (V, prop, tier, f["case"])}, open(rp, "w"), indent=1)
            print("  ", f["key"], "::", f["detail"][:600])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        if os.environ.get("MC_ALL"):
            for f in viol: print("FAIL", f["key"], "::", f["detail"][:300])
        print("%d failing cases, %d failures" % (len({f['case'] for f in viol}), len(viol)))
        sys.exit(1)
    print("OK property=%s tier=%s cases=%d executions=%s states=%s transitions=%s wall=%.1fs (build %.1fs)" % (
        prop, tier, cases, ints.get("executions", 0), ints.get("states", 0), ints.get("transitions", 0), wall, tb))
main()
