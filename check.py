#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] [--entry NAME] [-v]

Decides one property by static analysis of the current source under /repo.  Exit 0: held, exit 1 with a
VIOLATION line: broken, anything else: the analysis itself failed.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
CLANG = next((c for c in ("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++") if os.path.exists(c)), "clang++")
JOBS = min(8, os.cpu_count() or 4)
CXX = [CLANG, "-std=c++17", "-O0", "-g", "-fno-exceptions", "-fno-rtti", "-fno-discard-value-names", "-Wno-everything", "-Xclang", "-disable-O0-optnone"]

# properties decided over every driver, by kind of alarm
GLOBAL = {"C01": "bounds,memory", "C02": "uninit"}

RULES = {
    "C01": "every load, store, memory copy and delete of every analysed path lies inside the live object it was derived from",
    "C02": "no arithmetic, comparison, branch, index, call argument or checked result uses a byte that was never written",
}


def die(msg):
    print("ANALYSIS-ERROR: " + msg, flush=True)
    sys.exit(2)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-C", os.path.join(HERE, "engine"), "OUT=" + BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die("engine does not build:\n" + r.stdout[-4000:])
    return os.path.join(BUILD, "absint")


def driver_files(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "drivers", "*.cc"))):
        s = open(f).read()
        if prop in GLOBAL or re.search(r"\bsa_%s[TV]?_" % prop, s) or re.search(r"SA_ENTRY\w*\(%s," % prop, s):
            out.append(f)
    return out


def compile_driver(src, tmp, cxx=None):
    bc = os.path.join(tmp, os.path.basename(src)[:-3] + ".bc")
    cmd = (cxx or CXX) + ["-emit-llvm", "-c", "-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(HERE, "drivers"), "-I" + REPO, src, "-o", bc]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return bc, r.returncode, r.stdout


def run_entry(engine, bc, entry, seconds, only, verbose):
    cmd = [engine, "--repo", REPO, "--entry", entry, "--seconds", str(seconds)]
    if only:
        cmd += ["--only", only]
    if verbose:
        cmd += ["-v"]
    try:
        r = subprocess.run(cmd + [bc], stdout=subprocess.PIPE, stderr=None if verbose else subprocess.PIPE, text=True, timeout=seconds + 60)
    except subprocess.TimeoutExpired:
        return {"entry": entry, "error": "budget: wall clock", "lastloc": "", "violations": [], "functions": [], "obligations": {}, "stats": {}, "labels": {}, "steps": 0, "seconds": seconds}
    lines = [l for l in r.stdout.splitlines() if l.startswith("{")]
    if not lines:
        return {"entry": entry, "error": "engine crashed (%d): %s" % (r.returncode, (r.stderr or "")[-500:]), "lastloc": "", "violations": [], "functions": [], "obligations": {}, "stats": {}, "labels": {}, "steps": 0, "seconds": 0}
    return json.loads(lines[-1])


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) label=\"([^\"]*)\" construct=\"([^\"]*)\" (.*)", l)
            if m:
                out.append(m.groups())
    return out


def finish(prop, tier, t0, coverage, viols, assumptions=None, level="other"):
    """viols: list of dicts with title and text; writes evidence and replay files, prints and exits"""
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, "replay")
    os.makedirs(rep, exist_ok=True)
    for f in glob.glob(os.path.join(rep, prop + "-*.txt")):
        os.unlink(f)
    kf = known_findings()
    real = []
    for v in viols:
        hit = [k for k in kf if k[0] == prop and k[1] == v.get("entry") and k[2] == v.get("label") and k[3] in v.get("construct", "")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][4]))
        else:
            real.append(v)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": level,
          "coverage": coverage, "wall_s": round(time.time() - t0, 3), "violations": len(real)}
    if assumptions:
        ev["assumptions"] = assumptions
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i, v in enumerate(real):
        path = os.path.join(rep, "%s-%d.txt" % (prop, i))
        with open(path, "w") as f:
            f.write(v["text"] + "\n")
        print(v["text"])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    sys.exit(1 if real else 0)


def collect(prop, tier, engine, tmp, cxx=None, files=None, one=None, verbose=False):
    """compiles the drivers of a property and analyses their entries"""
    only = GLOBAL.get(prop)
    files = [os.path.join(HERE, "drivers", f) for f in files] if files else driver_files(prop)
    if not files:
        die("no driver for " + prop)
    with ThreadPoolExecutor(JOBS) as ex:
        bcs = list(ex.map(lambda f: compile_driver(f, tmp, cxx), files))
        for f, (bc, rc, out) in zip(files, bcs):
            if rc:
                die("%s does not compile against %s:\n%s" % (os.path.basename(f), REPO, out[-3000:]))
        work = []
        for bc, _, _ in bcs:
            r = subprocess.run([engine, "--list", bc], stdout=subprocess.PIPE, text=True)
            for e in r.stdout.split():
                m = re.match(r"sa_(C\d+)([TV]?)_", e)
                if not m or (only is None and m.group(1) != prop):
                    continue
                if m.group(2) == "V" and only: # the addresses are those of other entries
                    continue
                if m.group(2) == "T" and tier != "thorough":
                    continue
                if one and e != one:
                    continue
                work.append((bc, e))
        if not work:
            die("no entries for " + prop)
        seconds = 700 if tier == "thorough" else 400
        res = list(ex.map(lambda w: run_entry(engine, w[0], w[1], seconds, only, verbose), work))
    viols, errs = [], []
    obl, fns, labels, stats = {}, set(), {}, {}
    for r in res:
        for k, v in r["obligations"].items():
            obl[k] = obl.get(k, 0) + v
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        fns.update(r["functions"])
        for v in r["violations"]:
            text = "%s: %s: %s\n  construct: %s\n  entry: %s\n  detail: %s\n  path: %s\n  rerun: python3 %s/check.py %s %s --entry %s" % (
                prop, v["kind"], v["label"], v["construct"], r["entry"], v["detail"], v["where"], HERE, prop, tier, r["entry"])
            viols.append({"text": text, "entry": r["entry"], "label": v["label"], "construct": v["construct"]})
        if r["error"]:
            if r["error"].startswith("budget") and not only:
                text = "%s: the analysed code is not shown to terminate or to stay within the analysed state space (%s)\n  construct: %s\n  entry: %s" % (prop, r["error"], r["lastloc"], r["entry"])
                viols.append({"text": text, "entry": r["entry"], "label": "budget", "construct": r["lastloc"]})
            else:
                errs.append("%s: %s at %s" % (r["entry"], r["error"], r["lastloc"]))
        elif not r["violations"]:
            if not r["functions"]:
                errs.append(r["entry"] + ": no library function was analysed")
            if not sum(r["labels"].values()):
                errs.append(r["entry"] + ": no obligation was reached")
        if verbose or one:
            print("%-40s %8.2fs %9d steps %s%s" % (r["entry"], r["seconds"], r["steps"], "ERROR " + r["error"] + " at " + r["lastloc"] if r["error"] else "ok" if not r["violations"] else "VIOLATION", ""))
    return {"viols": viols, "errs": errs, "obl": obl, "total": sum(obl.values()), "fns": fns, "labels": labels, "stats": stats,
            "entries": len(res), "drivers": len(files), "steps": sum(r["steps"] for r in res)}


def analyse(prop, tier, one=None, verbose=False):
    t0 = time.time()
    engine = build_engine()
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        c = collect(prop, tier, engine, tmp, one=one, verbose=verbose)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viols, errs, total = c["viols"], c["errs"], c["total"]
    if prop in GLOBAL:
        explanation = "interprocedural abstract interpretation of the -O0 LLVM IR of %d drivers (%d entries) that instantiate every component; rule: %s" % (c["drivers"], c["entries"], RULES[prop])
    else:
        explanation = "interprocedural abstract interpretation of the -O0 LLVM IR: symbolic inputs, affine-hull/interval fixpoints for unbounded histories; every listed obligation must be implied by the abstract state"
    cov = {"explanation": explanation, "entries": c["entries"], "library_functions": len(c["fns"]), "abstract_instructions": c["steps"],
           "obligations": total, "discharged": total - len(viols), "obligations_by_kind": c["obl"], "obligations_by_label": c["labels"],
           "state_space": c["stats"], "functions": sorted(c["fns"])[:400]}
    assumptions = ["floating-point operations are interpreted as exact real operations", "the drivers in /verif/drivers state the property", "template sizes are those instantiated in the drivers"]
    for e in errs:
        print("ANALYSIS-ERROR: " + e)
    if errs and not viols:
        finish_error(prop, tier, t0, cov, errs)
    print("%s: %d entries, %d library functions, %d obligations, %.1fs" % (prop, c["entries"], len(c["fns"]), total, time.time() - t0))
    finish(prop, tier, t0, cov, viols, assumptions)


def finish_error(prop, tier, t0, cov, errs):
    os.makedirs(EVID, exist_ok=True)
    cov["errors"] = errs
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 3)}, f, indent=1)
    sys.exit(2)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "--setup":
        build_engine()
        return
    prop = a[0]
    tier = "thorough" if "thorough" in a or (os.environ.get("VERIF_TIER") == "thorough" and "quick" not in a) else "quick"
    one = a[a.index("--entry") + 1] if "--entry" in a else None
    mod = os.path.join(HERE, "special", prop.lower() + ".py")
    if os.path.exists(mod):
        sys.path.insert(0, os.path.join(HERE, "special"))
        sys.path.insert(0, HERE)
        __import__(prop.lower()).check(prop, tier)
        return
    analyse(prop, tier, one, "-v" in a)


if __name__ == "__main__":
    main()
