"""C33: compensated summation, in the source and in what both compilers make of it"""
import os, re, shutil, subprocess, tempfile, time
from fractions import Fraction
import check as main
import gimple

FLAGS = ["-std=c++17", "-O2", "-fno-exceptions", "-fno-rtti", "-ffast-math", "-ftree-vectorize"]


def project_flags():
    """the optimization flags of the project's own Makefile"""
    r = subprocess.run(["make", "-pn", "-C", os.path.join(main.REPO, "tests")], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    for l in r.stdout.splitlines():
        m = re.match(r"CXXFLAGS\s*:?=\s*(.*)", l)
        if m:
            fl = [f for f in m.group(1).split() if re.match(r"-(std|O|f|m)", f)]
            if any(f.startswith("-O") for f in fl):
                return fl
    return FLAGS


def layouts():
    """offsets of the members of the sum, by type"""
    cmd = [main.CLANG, "-std=c++17", "-w", "-fsyntax-only", "-Xclang", "-fdump-record-layouts", "-I" + main.REPO, os.path.join(main.HERE, "special", "kahan_gcc.cc")]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out, cur = {}, None
    for l in r.stdout.splitlines():
        m = re.match(r"\s*0 \| (?:class|struct) DSP::Kahan<(.*)>", l)
        if m:
            cur = out.setdefault(m.group(1).replace(" ", ""), {})
            continue
        m = re.match(r"\s*(\d+) \|   \s*[\w :<>\[\]]*?(\w+)$", l)
        if m and cur is not None:
            cur[m.group(2)] = int(m.group(1))
        elif not l.strip():
            cur = None
    if len(out) < 3:
        main.die("the layout of DSP::Kahan is not found:\n" + r.stdout[-1000:])
    return out


def gcc(flags, tmp):
    lay = layouts()
    dump = os.path.join(tmp, "kahan.gimple")
    cmd = ["g++"] + flags + ["-w", "-I" + main.REPO, "-c", os.path.join(main.HERE, "special", "kahan_gcc.cc"), "-o", os.path.join(tmp, "kahan.o"), "-fdump-tree-optimized=" + dump]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        main.die("g++ does not compile compensated summation:\n" + r.stdout[-2000:])
    fns = gimple.parse(open(dump).read())
    viols, errs, count, ops = [], [], 0, 0
    sizes = {"float": 4, "double": 8, "longdouble": 16}
    for f in fns:
        m = re.match(r"^(feed|read|copy|range)_(float|double|longdouble)$", f.name)
        if not m:
            continue
        M = gimple.Machine(fns, {"h"}, dict(lay[m.group(2)], **{"#size": sizes[m.group(2)]}))
        size = sizes[m.group(2)]
        mem = {}
        for i in range(4):
            mem[("x", i * size)] = gimple.Lin({"x%d" % i: Fraction(1)})
        try:
            outs = M.run(f, [gimple.Lin({"h": Fraction(1)}), gimple.Ptr("x", 0), gimple.Ptr("y", 0)], mem)
        except gimple.Unsupported as e:
            errs.append("g++ code of %s: %s" % (f.name, e))
            continue
        ops += M.ops
        for _, out in outs:
            for i in range(4):
                count += 1
                v = out.get(("y", i * size))
                if v is None:
                    main.die("g++ code of %s stores no result %d" % (f.name, i))
                want = gimple.Lin({"h": Fraction(1)})
                for j in range(i + 1):
                    want["x%d" % j] = Fraction(1)
                d = gimple.lin_add(v, want, -1)
                if d and not (len(d) == 1 and list(d)[0].startswith("eps") and abs(list(d.values())[0]) == 1):
                    txt = " ".join("%+g*%s" % (float(c), k) for k, c in sorted(d.items()))
                    viols.append({"entry": "g++ " + f.name, "label": "sum %d" % i, "construct": "kahan.hh",
                                  "text": "C33: wrong: in the code g++ generates with %s, sum %d of %s misses the exact sum by %s\n  construct: DSP::Kahan<%s>, special/kahan_gcc.cc:%s" % (" ".join(flags), i, f.name, txt, m.group(2), f.name)})
                    break
    return viols, errs, count, ops


def check(prop, tier):
    t0 = time.time()
    engine = main.build_engine()
    flags = project_flags()
    tmp = tempfile.mkdtemp(prefix="run-", dir=main.BUILD)
    try:
        viols, errs, count, ops = gcc(flags, tmp)
        clang = [main.CLANG] + flags + ["-g", "-Wno-everything"]
        variants = [("unoptimized", None, None), ("clang++ at the project's flags", clang, ["kahan.cc"]), ("clang++ at the project's flags, vector units of this machine", clang + ["-march=native"], ["kahan.cc"])]
        total = dict(entries=0, obligations=0, functions=set(), labels={}, errors=errs)
        for title, cxx, files in variants:
            r = main.collect(prop, tier, engine, tmp, cxx=cxx, files=files)
            for v in r["viols"]:
                v["text"] += "\n  code: " + title
                viols.append(v)
            total["errors"] += r["errs"]
            total["entries"] += r["entries"]
            total["obligations"] += r["total"]
            total["functions"] |= r["fns"]
            for k, v in r["labels"].items():
                total["labels"][k] = total["labels"].get(k, 0) + v
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if count < 48 and not viols and not total["errors"]:
        main.die("only %d results found in the code of g++" % count)
    cov = {"explanation": "first-order rounding analysis: every sum or difference that involves the running total carries its own error symbol; a result may contain the error of its last addition only. Applied to the unoptimized LLVM IR, to the LLVM IR of clang++ and to the GIMPLE of g++ at the project's flags. Copies, comparisons and the range form are decided with every part of the object's state symbolic.",
           "flags": flags, "entries": total["entries"], "obligations": total["obligations"] + count, "discharged": total["obligations"] + count - len(viols),
           "gimple_results": count, "gimple_float_operations": ops, "obligations_by_label": total["labels"], "functions": sorted(total["functions"])}
    for e in total["errors"]:
        print("ANALYSIS-ERROR: " + e)
    if total["errors"] and not viols:
        main.finish_error(prop, tier, t0, cov, total["errors"])
    print("%s: %d entries, %d results in GIMPLE, %d obligations, %.1fs" % (prop, total["entries"], count, cov["obligations"], time.time() - t0))
    main.finish(prop, tier, t0, cov, viols, ["errors of sums of small values are proportional to the inputs and not to the total"])
