"""C03: effect analysis.  No function of the library reaches storage that belongs to no object of the caller."""
import glob, json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import check as main

MATH = "acos asin atan atan2 cos sin tan acosh asinh atanh cosh sinh tanh exp exp2 expm1 log log2 log10 log1p logb pow sqrt cbrt hypot " \
       "ceil floor trunc round lround llround rint lrint llrint nearbyint fabs fmod remainder remquo copysign nextafter nexttoward fdim fmax fmin fma " \
       "ldexp scalbn scalbln frexp modf ilogb tgamma lgamma_r erf erfc abs labs llabs div ldiv isnan isinf finite fpclassify signbit".split()
PURE = set(MATH) | {m + s for m in MATH for s in "fl"}
# touch nothing but their arguments, or end the program, or give out storage of its own
PLAIN = {"__assert_fail", "abort", "exit", "_Exit", "memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "strncmp", "malloc", "calloc", "realloc", "free",
         "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_pure_virtual", "__cxa_throw_bad_array_new_length", "qsort", "bsearch"}


def innocent(sym, dem):
    if sym in PURE or sym in PLAIN or sym.startswith("sa_") or sym.startswith("__builtin"):
        return True
    if re.match(r"^(operator (new|delete)(\[\])?\(|std::__throw_|std::terminate)", dem):
        return True
    # the standard library: streams and containers keep their state in their objects; only these keep some of their own
    if re.match(r"^(?:[\w:<>,& *]* )?std::", dem):
        return not re.search(r"\b(rand|srand|random_shuffle|strtok|setlocale|localtime|gmtime|asctime|ctime|tmpnam|getenv|setenv|atexit)\b|random_device|\bcin\b|\bcout\b|\bcerr\b", dem)
    return False


def mutable(q, constexpr):
    if constexpr:
        return False
    q = q.strip()
    if q.endswith("const"):
        return False
    return not (q.startswith("const ") and "*" not in q and "&" not in q)


def statics(tmp):
    """static variables in the source, whether or not anything instantiates the templates they are in"""
    heads = sorted(os.path.basename(h) for h in glob.glob(os.path.join(main.REPO, "*.hh")))
    src = os.path.join(tmp, "all.cc")
    with open(src, "w") as o:
        o.write("".join("#include <%s>\n" % h for h in "algorithm cassert cmath cstdint functional iostream limits fstream".split()) + "using std::min;\n#include \"const.hh\"\n")
        o.write("".join('#include "%s"\n' % h for h in heads))
    r = subprocess.run([main.CLANG, "-std=c++17", "-w", "-fno-exceptions", "-fsyntax-only", "-I" + main.REPO, "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=DSP", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        main.die("the headers do not compile together:\n" + r.stderr[-2000:])
    dec, at, found, count = json.JSONDecoder(), 0, [], [0, 0]
    text = r.stdout

    def walk(n, scope, infn):
        k = n.get("kind")
        if k == "VarDecl" and (n.get("storageClass") == "static" or n.get("tls") or not infn):
            count[0] += 1
            if mutable(n.get("type", {}).get("qualType", ""), n.get("constexpr")):
                loc = n.get("loc", {})
                loc = loc.get("expansionLoc", loc)
                found.append((scope + "::" + n.get("name", "?"), n["type"]["qualType"], loc.get("line") or n.get("range", {}).get("begin", {}).get("line")))
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "LambdaExpr"):
            infn = True
            count[1] += 1
        s = scope + ("::" + n["name"] if n.get("name") and k in ("CXXRecordDecl", "ClassTemplateDecl", "FunctionDecl", "CXXMethodDecl", "NamespaceDecl") and not scope.endswith("::" + n["name"]) else "")
        for c in n.get("inner", []) or []:
            if isinstance(c, dict):
                walk(c, s, infn)
    while True:
        at = text.find("{", at)
        if at < 0:
            break
        obj, at = dec.raw_decode(text, at)
        walk(obj, "", False)
    return found, count, heads


def check(prop, tier):
    t0 = time.time()
    engine = main.build_engine()
    tmp = tempfile.mkdtemp(prefix="run-", dir=main.BUILD)
    viols, keys = [], set()
    try:
        found, count, heads = statics(tmp)
        files = sorted(glob.glob(os.path.join(main.HERE, "drivers", "*.cc")))
        with ThreadPoolExecutor(main.JOBS) as ex:
            bcs = list(ex.map(lambda f: main.compile_driver(f, tmp), files))
            for f, (bc, rc, out) in zip(files, bcs):
                if rc:
                    main.die("%s does not compile against %s:\n%s" % (os.path.basename(f), main.REPO, out[-3000:]))
            outs = list(ex.map(lambda b: subprocess.run([engine, "--effects", "--repo", main.REPO, b[0]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), bcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    def alarm(kind, what, where, text):
        if (kind, what) not in keys:
            keys.add((kind, what))
            viols.append({"entry": kind, "label": what, "construct": where, "text": "C03: %s\n  construct: %s" % (text, where)})
    for name, q, line in found:
        alarm("static", name.split("::")[-1], "line %s" % line, "%s (%s) is storage shared by all objects and calls, and not constant" % (name.lstrip(":"), q))
    fns, insts, records, externals, nlib = set(), 0, 0, set(), 0
    for o, f in zip(outs, files):
        if o.returncode:
            main.die("effects of %s: %s" % (os.path.basename(f), o.stderr[-500:]))
        j = json.loads(o.stdout)
        fns.update(j["functions"])
        insts += j["instructions"]
        records += j["records"]
        for i in j["items"]:
            w = "%s in %s" % (i["where"], i["function"])
            if i["kind"] == "external":
                externals.add(i["what"])
                if not innocent(i["what"], i["extra"]):
                    alarm("external", i["what"], w, "call of %s, which may depend on or change state outside of the arguments" % i["extra"])
            elif i["kind"] == "asm":
                alarm("asm", i["function"], w, "inline assembly with unknown effects")
            elif i["kind"] == "external_variable":
                if not re.match(r"^(vtable for|typeinfo|VTT for) ", i["what"]):
                    alarm("variable", i["what"], w, "%s of the variable %s, which belongs to no object" % (i["extra"].replace("used", "use").replace("written", "write"), i["what"]))
            elif i["kind"] in ("variable", "thread_local"):
                if "::sa_" in i["what"] or i["what"].startswith("sa_"):
                    continue
                alarm("variable", i["what"], w, "the %svariable %s is %s here and outlives the call" % ("thread-local " if i["kind"] == "thread_local" else "", i["what"], i["extra"]))
            elif i["kind"] == "frozen":
                alarm("frozen", i["what"], w, "%s is %s" % (i["what"], i["extra"]))
            elif i["kind"] == "static_member":
                alarm("static", i["what"].split("::")[-1], i["where"], "%s is shared by all objects and not constant" % i["what"])
            elif i["kind"] == "pointer_member":
                alarm("pointer", i["what"], i["where"], "%s refers to storage outside of the object, which copies of it share" % i["what"])
    if len(fns) < 500 or count[1] < 200:
        main.die("only %d library functions in the IR, %d in the syntax tree" % (len(fns), count[1]))
    cov = {"explanation": "effect analysis over the IR of every library function the drivers instantiate and what those call, plus all static variables and members in the syntax tree of all headers; rule: no use of a variable that belongs to no object unless it is constant and not initialised from a call, no call of a function with state of its own, no member that refers to storage outside of the object",
           "headers": len(heads), "library_functions": len(fns), "instructions": insts, "records": records, "external_functions": sorted(externals),
           "static_variables_in_source": count[0], "functions_in_source": count[1]}
    print("%s: %d library functions, %d instructions, %d static variables, %d external functions, %.1fs" % (prop, len(fns), insts, count[0], len(externals), time.time() - t0))
    main.finish(prop, tier, t0, cov, viols, ["the mathematical functions of the C library keep no state besides errno"])
