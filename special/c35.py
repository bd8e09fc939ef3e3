"""C35: the value every constant folds to, against its definition in 80 digits"""
import json, os, re, shutil, struct, subprocess, tempfile, time
from fractions import Fraction
import check as main

TYPES = {"f": ("float", 24, -149), "d": ("double", 53, -1074), "l": ("long double", 64, -16445)}


DIGITS = 10 ** 80


def root(x, n):
    """n-th root of a fraction, to 80 digits"""
    v = x * DIGITS ** n
    v = v.numerator // v.denominator
    lo, hi = 0, 1
    while hi ** n <= v:
        hi *= 2
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** n <= v:
            lo = m
        else:
            hi = m
    return Fraction(lo, DIGITS)


def arccot(k):
    s, t, n = 0, DIGITS // k, 1
    while t:
        s += t // n if n % 4 == 1 else -(t // n)
        t //= k * k
        n += 2
    return Fraction(s, DIGITS)


def definitions():
    pi = 16 * arccot(5) - 4 * arccot(239)
    d = {"EighthPi": pi / 8, "FourthPi": pi / 4, "HalfPi": pi / 2, "Pi": pi, "TwoPi": 2 * pi, "FourPi": 4 * pi,
         "SqrtPi": root(pi, 2), "SqrtTwoPi": root(2 * pi, 2), "InvSqrtTwo": root(Fraction(1, 2), 2)}
    return d, {n: root(root(Fraction(2), n) - 1, 2) for n in range(1, 17)}


def nearest(x, bits, emin):
    """x rounded to nearest even with the given number of bits"""
    e = 0
    a = abs(x)
    while a >= Fraction(2) ** (e + 1):
        e += 1
    while a < Fraction(2) ** e:
        e -= 1
    q = Fraction(2) ** max(e - bits + 1, emin)
    return round(x / q) * q # ties to even


def constant(text, t):
    """value of an LLVM floating-point constant"""
    if t == "l":
        m = re.match(r"^0xK([0-9A-F]{20})$", text)
        if m:
            v = int(m.group(1), 16)
            s, e, f = v >> 79, (v >> 64) & 0x7fff, v & ((1 << 64) - 1)
            return (-1 if s else 1) * Fraction(f) * Fraction(2) ** (e - 16383 - 63)
        return None
    m = re.match(r"^0x([0-9A-F]{16})$", text)
    if m:
        return Fraction(struct.unpack(">d", bytes.fromhex(m.group(1)))[0])
    try:
        return Fraction(text)
    except ValueError:
        return None


def members():
    """static member functions of DSP::Const without parameters"""
    src = os.path.join(main.REPO, "const.hh")
    r = subprocess.run([main.CLANG, "-std=c++17", "-fsyntax-only", "-x", "c++", "-Xclang", "-ast-dump=json", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        main.die("const.hh does not compile:\n" + r.stderr[-1500:])
    out = []

    def walk(n, inside):
        if n.get("kind") == "ClassTemplateDecl" and n.get("name") == "Const":
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl" and not out:
                    for m in c.get("inner", []):
                        if m.get("kind") == "CXXMethodDecl" and m.get("storageClass") == "static" and not any(p.get("kind") == "ParmVarDecl" for p in m.get("inner", [])):
                            out.append((m["name"], m.get("loc", {}).get("line") or m.get("range", {}).get("end", {}).get("line")))
        for c in n.get("inner", []) or []:
            if isinstance(c, dict):
                walk(c, inside)
    walk(json.loads(r.stdout), False)
    return out


def check(prop, tier):
    t0 = time.time()
    os.makedirs(main.BUILD, exist_ok=True)
    named, cascade = definitions()
    found = members()
    names = [n for n, _ in found]
    gone = [n for n in named if n not in names]
    if gone:
        main.die("constants not found in const.hh: " + ", ".join(gone))
    tmp = tempfile.mkdtemp(prefix="run-", dir=main.BUILD)
    try:
        for with_cascade in (True, False):
            src = '#include <cmath>\n#include <algorithm>\n#include "const.hh"\n#include "ema.hh"\n'
            want = {}
            for t, (ct, bits, emin) in TYPES.items():
                for n in names:
                    if n in named:
                        src += 'extern "C" %s k_%s_%s() { return DSP::Const<%s>::%s(); }\n' % (ct, n, t, ct, n)
                        want["k_%s_%s" % (n, t)] = (n, "DSP::Const<%s>::%s" % (ct, n), named[n], t)
                for n in cascade if with_cascade else []:
                    src += 'extern "C" %s c_%d_%s() { return DSP::EMACascade<%s, %s, %d>::cascade_factor(%d); }\n' % (ct, n, t, ct, ct, n, n)
                    want["c_%d_%s" % (n, t)] = ("cascade", "DSP::EMACascade<%s, %s, %d>::cascade_factor(%d)" % (ct, ct, n, n), cascade[n], t)
            f = os.path.join(tmp, "constants.cc")
            with open(f, "w") as o:
                o.write(src)
            r = subprocess.run([main.CLANG, "-std=c++17", "-O2", "-fno-exceptions", "-fno-rtti", "-fno-access-control", "-w", "-S", "-emit-llvm", "-I" + main.REPO, f, "-o", f + ".ll"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not r.returncode:
                break
        else:
            main.die("the constants do not compile:\n" + r.stdout[-2000:])
        ll = open(f + ".ll").read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viols, done = [], 0
    for m in re.finditer(r"^define [^\n]*@(\w+)\(\)[^\n]*\{\n(.*?)^\}", ll, re.M | re.S):
        if m.group(1) not in want:
            continue
        n, title, exact, t = want[m.group(1)]
        q = re.search(r"^\s*ret (?:float|double|x86_fp80) (\S+)$", m.group(2), re.M)
        v = constant(q.group(1), t) if q else None
        if v is None:
            main.die("%s does not fold to a constant" % title)
        done += 1
        best = nearest(exact, TYPES[t][1], TYPES[t][2])
        if v != best:
            line = dict(found).get(n)
            viols.append({"entry": m.group(1), "label": "value", "construct": title,
                          "text": "C35: %s is %.25g but the nearest value of its type is %.25g (off by %.3g)\n  construct: %s%s" % (title, float(v), float(best), float(v - best), title, " const.hh:%s" % line if line else "")})
    if done != len(want):
        main.die("%d of %d constants found" % (done, len(want)))
    cov = {"explanation": "every constant as folded into the compiler's IR, compared bit by bit with its definition evaluated to 80 digits and rounded to the type", "constants": done,
           "types": [x[0] for x in TYPES.values()], "names": names, "not_judged": [n for n in names if n not in named], "cascade_orders": sorted(cascade) if with_cascade else []}
    print("%s: %d constants, %.1fs" % (prop, done, time.time() - t0))
    main.finish(prop, tier, t0, cov, viols)
