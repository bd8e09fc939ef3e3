"""C04: compile-time witnesses.  Every program of a family differs from an accepted one in its template arguments only."""
import os, re, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import check as main

PRE = '#include <cmath>\n#include <algorithm>\n#include <cstdint>\n#include "complex.hh"\n'


def smooth(n):
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31):
        while n % p == 0:
            n //= p
    return n == 1


def families(tier):
    top, bad = (16384, 2048) if tier == "thorough" else (4096, 512)
    good = [n for n in range(1, top + 1) if smooth(n)]
    # a length is refused for a prime factor, alone or next to small ones
    ref = [n for n in range(2, bad + 1) if not smooth(n)]
    if tier != "thorough":
        ref = [n for n in ref if n < 256 or n % 37 == 0 or n % 41 == 0 or n % 127 == 0]
    ref += [37 * 37, 31 * 37, 32 * 37, 41 * 41, 43 * 47, 1009, 1024 * 37]
    yield ("complex transform", '#include "fft.hh"\ntypedef DSP::Complex<float> C;\n'
           "template <int N> void use(C *o, const C *i) { DSP::FastFourierTransform<N, C, -1> f; DSP::FastFourierTransform<N, C, 1> b; f(o, i); b(o, i); }\n",
           "template void use<{0}>(C *, const C *);\n", [(n,) for n in good], [(n,) for n in ref])
    yield ("transform in double precision", '#include "fft.hh"\ntypedef DSP::Complex<double> C;\n'
           "template <int N> void use(C *o, const C *i) { DSP::FastFourierTransform<N, C, -1> f; DSP::FastFourierTransform<N, C, 1> b; f(o, i); b(o, i); }\n",
           "template void use<{0}>(C *, const C *);\n", [(n,) for n in good if n <= 512], [(n,) for n in (37, 41, 43, 74)])
    even = [n for n in good if n % 2 == 0 and smooth(n // 2)]
    odd = [n for n in range(3, 256 if tier == "thorough" else 96, 2)]
    yield ("real transform", '#include "fft.hh"\ntypedef DSP::Complex<float> C;\n'
           "template <int N> void use(C *o, const float *i) { DSP::RealToHalfComplexTransform<N, C> f; f(o, i); }\n",
           "template void use<{0}>(C *, const float *);\n", [(n,) for n in even], [(n,) for n in odd + [74, 82, 148]])
    pairs = [(o, i) for o in range(2, 49) for i in range(1, o) if smooth(o) and smooth(i)]
    yield ("interpolation", '#include "fdzp.hh"\ntypedef DSP::Complex<float> C;\n'
           "template <int O, int I> void use(C *o, const C *i) { DSP::FDZP<O, I, C> f; f(o, i); }\n",
           "template void use<{0}, {1}>(C *, const C *);\n", pairs + [(1024, 512), (1024, 1023), (4096, 64)],
           [(o, i) for o in range(1, 9) for i in range(o, 10)] + [(16, 16), (16, 32), (512, 1024), (37, 36), (41, 37)])
    taps = [(4 * k + 1,) for k in range(1, 130)]
    nott = [(t,) for t in range(2, 68) if t % 4 != 1]
    yield ("analytic signal of a real one", '#include "hilbert.hh"\ntypedef DSP::Complex<float> C;\n'
           "template <int N> C use(float x) { DSP::Hilbert<C, N> f; return f(x); }\n",
           "template C use<{0}>(float);\n", taps, nott)
    yield ("analytic signal of a sampled pair", '#include "cdc.hh"\ntypedef DSP::Complex<float> C;\n'
           "template <int N> C use(float x, float y) { DSP::CDC<C, N> f; return f(x, y); }\n",
           "template C use<{0}>(float, float);\n", taps, nott)
    yield ("fixed-point angle", '#include "cordic.hh"\n'
           "template <typename T> T use(T y, T x) { return DSP::CORDIC<T>::atan2(y, x); }\n",
           "template {0} use({0}, {0});\n", [("signed char",), ("short",)],
           [("int",), ("long",), ("long long",), ("unsigned",), ("unsigned long",)])


def compile(src, tmp, n):
    f = os.path.join(tmp, "w%d.cc" % n)
    with open(f, "w") as o:
        o.write(src)
    r = subprocess.run([main.CLANG, "-std=c++17", "-fsyntax-only", "-w", "-ferror-limit=3", "-I" + main.REPO, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def check(prop, tier):
    t0 = time.time()
    os.makedirs(main.BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=main.BUILD)
    jobs, viols = [], []
    cov = {"explanation": "compile-pass and compile-fail witnesses, decided by the type checker (clang++ -fsyntax-only): within a family the programs differ in their template arguments only, so that an accepted one shows why the others are refused", "families": {}}
    try:
        for name, head, line, good, bad in families(tier):
            for i in range(0, len(good), 40):
                jobs.append((name, True, good[i:i+40], PRE + head + "".join(line.format(*a) for a in good[i:i+40]), head, line))
            for a in bad:
                jobs.append((name, False, [a], PRE + head + line.format(*a), head, line))
            cov["families"][name] = {"accepted": len(good), "refused": len(bad)}
        with ThreadPoolExecutor(main.JOBS) as ex:
            res = list(ex.map(lambda x: compile(x[1][3], tmp, x[0]), enumerate(jobs)))
        fresh = len(jobs)
        passed = {}
        todo = []
        for (name, ok, args, src, head, line), (rc, out) in zip(jobs, res):
            if rc not in (0, 1):
                main.die("the compiler failed (%d) on %s %s:\n%s" % (rc, name, args, out[-1500:]))
            if ok and rc:
                todo += [(name, a, PRE + head + line.format(*a)) for a in args]
            elif ok:
                passed[name] = passed.get(name, 0) + len(args)
            elif rc == 0:
                viols.append({"entry": name, "label": "accepted", "construct": str(args[0]),
                              "text": "C04: %s with arguments %s compiles but must be refused\n  construct: program\n%s" % (name, args[0], src)})
        with ThreadPoolExecutor(main.JOBS) as ex:
            again = list(ex.map(lambda x: compile(x[1][2], tmp, fresh + x[0]), enumerate(todo)))
        for (name, a, src), (rc, out) in zip(todo, again):
            if rc == 0:
                passed[name] = passed.get(name, 0) + 1
                continue
            m = re.search(r"^(\S+:\d+):\d+: error: (.*)$", out, re.M)
            viols.append({"entry": name, "label": "refused", "construct": m.group(1) if m else "",
                          "text": "C04: %s with arguments %s must compile but is refused: %s\n  construct: %s" % (name, a, m.group(2) if m else out[-300:], m.group(1) if m else "")})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for name, f in cov["families"].items():
        if not passed.get(name):
            # nothing of the family compiles: the witnesses do not fit the interface any more
            bad = [v for v in viols if v["entry"] == name]
            if not any(main.REPO in v["construct"] for v in bad):
                main.die("no program of the family %s compiles: %s" % (name, bad[0]["text"] if bad else ""))
    cov["programs"] = len(jobs)
    cov["instantiations"] = sum(len(j[2]) for j in jobs)
    print("%s: %d programs, %d instantiations, %.1fs" % (prop, len(jobs), cov["instantiations"], time.time() - t0))
    main.finish(prop, tier, t0, cov, viols[:20], ["clang++ stands for both compilers"])
