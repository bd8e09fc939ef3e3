"""C37: rounding.  No function of a wide instantiation computes in single precision, and the errors of all operations together stay small."""
import glob, json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import check as main


def narrow(engine, tmp):
    files = sorted(glob.glob(os.path.join(main.HERE, "drivers", "*.cc")))
    with ThreadPoolExecutor(main.JOBS) as ex:
        bcs = list(ex.map(lambda f: main.compile_driver(f, tmp), files))
        for f, (bc, rc, out) in zip(files, bcs):
            if rc:
                main.die("%s does not compile against %s:\n%s" % (os.path.basename(f), main.REPO, out[-3000:]))
        outs = list(ex.map(lambda b: subprocess.run([engine, "--effects", "--repo", main.REPO, b[0]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), bcs))
    viols, keys, fns, ops = [], set(), 0, 0
    for o, f in zip(outs, files):
        if o.returncode:
            main.die("operations of %s: %s" % (os.path.basename(f), o.stderr[-500:]))
        j = json.loads(o.stdout)
        fns += j["wide_functions"]
        ops += j["wide_operations"]
        for i in j["items"]:
            if i["kind"] == "narrow" and i["where"] not in keys and not re.search(r"DSP::(Read|Write)\w+", i["function"]): # files store what their format says
                keys.add(i["where"])
                where = "%s in %s" % (i["where"], i["function"])
                viols.append({"entry": "narrow", "label": i["what"], "construct": where, "text": "C37: a value in %s precision (%s) in a function instantiated for a wider type only\n  construct: %s" % (i["extra"], i["what"], where)})
    return viols, fns, ops


def check(prop, tier):
    t0 = time.time()
    engine = main.build_engine()
    tmp = tempfile.mkdtemp(prefix="run-", dir=main.BUILD)
    try:
        viols, fns, ops = narrow(engine, tmp)
        r = main.collect(prop, tier, engine, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viols += r["viols"]
    if fns < 500 or ops < 5000:
        main.die("only %d functions with %d floating-point operations in double precision" % (fns, ops))
    cov = {"explanation": "type rule over the IR of every library function instantiated with double or long double and nothing narrower: no instruction yields a single precision value. Forward error analysis by abstract interpretation: every floating-point operation adds an error symbol bounded by the roundoff of its type times the bound of its result; the difference to the exact result must stay within the allowed number of roundoffs.",
           "wide_functions": fns, "wide_operations": ops, "entries": r["entries"], "obligations": r["total"] + ops, "discharged": r["total"] + ops - len(viols),
           "obligations_by_label": r["labels"], "functions": sorted(r["fns"])}
    for e in r["errs"]:
        print("ANALYSIS-ERROR: " + e)
    if r["errs"] and not viols:
        main.finish_error(prop, tier, t0, cov, r["errs"])
    print("%s: %d functions with %d operations in double precision, %d entries, %d obligations, %.1fs" % (prop, fns, ops, r["entries"], r["total"], time.time() - t0))
    main.finish(prop, tier, t0, cov, viols, ["no underflow: errors are relative to the magnitude of each result"])
