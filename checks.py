"""The configurations of ccmath under observation and the check of each property."""
import os
import re

DEFS = ["-DCCM_CONFIG_HAS_BUILTIN_BIT_CAST", "-DCCM_CONFIG_HAS_BUILTIN_FMA", "-DCCM_CONFIG_HAS_BUILTIN_FMA_CONSTEXPR"]

# Names matter to the drivers: "ce" constant-evaluation code, "det" deterministic mode, "nb" ccmath's own pow.
VARIANTS = {
    "gcc": ["g++", "-O2", "-DNDEBUG", "-DCCM_CONFIG_USE_RT_SIMD"],
    "gccnb": ["g++", "-O2", "-std=gnu++20", "-DNDEBUG", "-DCCM_CONFIG_USE_RT_SIMD", "-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"],
    "gccavxnb": ["g++", "-O3", "-mavx2", "-mfma", "-DCCM_CONFIG_USE_RT_SIMD", "-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"],
    "gccdet": ["g++", "-O2", "-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off"],
    "gccce": ["g++", "-O2", "-DCCMV_FORCE_CE"],
    "gccO0": ["g++", "-O0"],
    # a compiler without builtins: the paths MSVC takes
    "gccnobi": ["g++", "-O2", "-include", "nobuiltin.hpp"],
    "gccdetnobi": ["g++", "-O2", "-include", "nobuiltin.hpp", "-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off"],
    "clangcenobi": ["clang++", "-O2", "-include", "nobuiltin.hpp", "-DCCMV_FORCE_CE"],
    "clang": ["clang++", "-O2", "-DCCM_CONFIG_USE_RT_SIMD"],
    "clangnb": ["clang++", "-O3", "-march=native", "-std=c++20", "-DCCM_CONFIG_USE_RT_SIMD", "-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"],
    "clangce": ["clang++", "-O2", "-DCCMV_FORCE_CE"],
    "clangdet": ["clang++", "-O2", "-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off"],
    # options that change no result (C09)
    "gccsimd": ["g++", "-O2", "-DCCM_CONFIG_USE_RT_SIMD"],
    "gccplain": ["g++", "-O2"],
    "gccnoerrno20": ["g++", "-O2", "-std=c++20", "-DCCM_CONFIG_USE_RT_SIMD", "-DCCM_CONFIG_DISABLE_ERRNO", "-DCCM_CONFIG_NO_FORCED_INLINE"],
    "gccavxsimd": ["g++", "-O2", "-march=native", "-DCCM_CONFIG_USE_RT_SIMD"],
    "gccavxplain": ["g++", "-O2", "-march=native"],
    "clangsimd": ["clang++", "-O2", "-DCCM_CONFIG_USE_RT_SIMD"],
    "clangnoerrno": ["clang++", "-O2", "-DCCM_CONFIG_DISABLE_ERRNO"],
    "gccdetnoerrno": ["g++", "-O2", "-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off", "-DCCM_CONFIG_DISABLE_ERRNO"],
    # determinism (C03)
    "gccdetO0": ["g++", "-O0", "-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off"],
    "gccdetavx": ["g++", "-O3", "-march=native", "-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off", "-DCCM_CONFIG_USE_RT_SIMD"],
    "clangdetavx": ["clang++", "-O3", "-mavx2", "-mfma", "-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off", "-std=c++20"],
    "clangdetce": ["clang++", "-O2", "-DCCMV_FORCE_CE", "-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off"],
}
ALL = ["gccnobi", "gccdetnobi", "clangcenobi", "gcc", "gccnb", "gccavxnb", "gccdet", "gccce", "clang", "clangce", "clangdet"]


def table_check(driver, args, variants, quick, thorough, extra=()):
    def run(ctx):
        jobs = [lambda n=n: ctx.variant(n) for n in variants] + [lambda: ctx.driver(driver, extra), ctx.dictionary]
        r = ctx.build_all(jobs)
        so, exe, dic = r[:len(variants)], r[len(variants)], r[-1]
        ctx.observed["build_s"] = round(ctx.elapsed(), 1)
        a = args if isinstance(args, list) else [args]
        for i, one in enumerate(a):
            ctx.run([exe] + list(one) + ["--dict", dic, "--budget", str(thorough if ctx.thorough else quick)] + so, "%s-%d" % (driver[:-4], i), timeout=3000 if ctx.thorough else 800)
    return run


LIBM = "MPFR (correctly rounded) and, as a screen only, the C library's wider format are trusted as oracles"
RULE_ACC = ("Arguments drawn from thirteen classes (special values, uniform encodings, binades around 1, integers and half-integers, table-cell edges, sparse significands, "
            "multiples of pi, subnormals, neighbours of 1, top binades, the function's domain band, literals of the code and their neighbours, overflow/underflow thresholds) plus a strided sweep of all "
            "floats, each run on every configuration and in all four rounding modes. distinct_nontrivial counts distinct (function, type, exponent field(s), class) cells, hashed.")
RULE_EXACT = ("Arguments drawn from the same classes, each run on every configuration and (constant-evaluation code: nearest only) in all four rounding modes and compared bit for bit with the oracle. "
              "distinct_nontrivial counts distinct (function, type, exponent, leading significand bits) cells, hashed.")


ACC = [v for v in ALL if not v.endswith("nobi") or v == "gccdetnobi"]


def acc(pid, quick, thorough, variants=ACC):
    return {"run": table_check("acc.cpp", [["--prop", pid]], variants, quick, thorough), "rule": RULE_ACC, "assumptions": [LIBM]}


def exact(sub, quick=3, thorough=60, variants=ALL):
    return {"run": table_check("exact.cpp", [["--sub", sub]], variants, quick, thorough), "rule": RULE_EXACT,
            "assumptions": ["the C library's exact operations (called through -fno-builtin) and MPFR are trusted as oracles"]}


RULE_CMP = ("Every entry point of the public header (name, type) is called with arguments from the same classes, and with arguments related to one another. distinct_nontrivial counts distinct (entry point, type, "
            "exponents and leading significand bits of the arguments) cells, hashed.")
DET = ["gccdet", "gccdetO0", "gccdetavx", "clangdet", "clangdetavx"]

SAN = {
    "gcc": (["g++", "-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-recover=all", "-DCCM_CONFIG_USE_RT_SIMD"], 40),
    "gccce": (["g++", "-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-recover=all", "-DCCMV_FORCE_CE"], 12),
    "clangdet": (["clang++", "-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-recover=all", "-DCCM_CONFIG_DETERMINISTIC"], 40),
    "clangce": (["clang++", "-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-recover=all", "-DCCMV_FORCE_CE"], 12),
    "clangnb": (["clang++", "-O1", "-march=native", "-std=c++20", "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-recover=all", "-DCCM_CONFIG_USE_RT_SIMD", "-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"], 40),
    "gcctsan": (["g++", "-O1", "-fsanitize=thread"], 10),
    "clangtsan": (["clang++", "-O1", "-fsanitize=thread", "-DCCM_CONFIG_DETERMINISTIC", "-DCCM_CONFIG_USE_RT_SIMD"], 10),
}


def san_build(ctx, name, src="cmp.cpp"):
    flags = SAN[name][0]
    exe = ctx.path("san-%s-%s" % (src[:-4], name))
    base = [flags[0], "-g1"] + ([] if any(a.startswith("-std=") for a in flags) else ["-std=c++17"]) + DEFS + ["-I" + ctx.repo + "/include", "-I" + ctx.h, "-DCCMV_STATIC", '-DCCMV_NAME="%s"' % name] + flags[1:]
    a = ctx.pool2.submit(ctx.compile, exe + "-t.o", base + ["-c", os.path.join(ctx.h, "table.cpp"), "-o", exe + "-t.o"])
    b = ctx.pool2.submit(ctx.compile, exe + "-d.o", base + ["-frounding-math", "-fno-builtin", "-c", os.path.join(ctx.h, src), "-o", exe + "-d.o"])
    a.result(), b.result()
    return ctx.compile(exe, [flags[0]] + [f for f in flags if f.startswith("-fsan")] + [exe + "-t.o", exe + "-d.o", "-o", exe, "-lmpfr", "-lgmp", "-ldl", "-lpthread"])


def ubsan_reports(ctx, name, err):
    """Undefined behaviour reported in ccmath's sources; anything else is noted."""
    seen = {}
    for line in err.splitlines():
        m = re.search(r"^(.*?):(\d+):\d+: runtime error: (.*)$", line)
        if m:
            seen.setdefault((m.group(1), m.group(2)), m.group(3))
    for (f, l), what in sorted(seen.items()):
        if "/ccmath/" in f:
            ctx.violations.append(("ubsan/%s:%s" % (f.split("/ccmath/", 1)[1], l), "%s:%s: %s (%s)" % (f, l, what, name)))
        else:
            ctx.notes.append("outside ccmath: %s:%s: %s" % (f, l, what))
    return len(seen)


MSAN = {
    "msandet": ["-DCCM_CONFIG_DETERMINISTIC"],
    "msannb": ["-march=native", "-std=c++20", "-DCCM_CONFIG_USE_RT_SIMD", "-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"],
    "msance": ["-DCCMV_FORCE_CE"],
}


def msan_build(ctx, name):
    exe = ctx.path(name)
    base = ["clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=memory", "-fsanitize-recover=memory"] + DEFS + ["-I" + ctx.repo + "/include", "-I" + ctx.h, "-DCCMV_STATIC", '-DCCMV_NAME="%s"' % name] + MSAN[name]
    a = ctx.pool2.submit(ctx.compile, exe + "-t.o", base + ["-c", os.path.join(ctx.h, "table.cpp"), "-o", exe + "-t.o"])
    b = ctx.pool2.submit(ctx.compile, exe + "-d.o", base + ["-frounding-math", "-fno-builtin", "-c", os.path.join(ctx.h, "msan.cpp"), "-o", exe + "-d.o"])
    a.result(), b.result()
    return ctx.compile(exe, ["clang++", "-fsanitize=memory", exe + "-t.o", exe + "-d.o", "-o", exe])


def msan_reports(ctx, name, err):
    """Branches and addresses that depended on memory nobody wrote; the first frame inside ccmath names the place."""
    seen = {}
    for rep in err.split("WARNING: MemorySanitizer")[1:]:
        fr = re.findall(r"^\s+#\d+ \S+ in (.*)$", rep, re.M)
        where = next((x for x in fr if "/ccmath/" in x), None)
        if where:
            seen.setdefault(re.sub(r"^.*(/include/ccmath/\S+?):(\d+).*$", r"\1:\2", where), " <- ".join(fr[:4]))
    for k, v in seen.items():
        ctx.violations.append(("msan/" + k, "use of uninitialised memory on %s: %s" % (name, v)))
    return len(seen)


def ub_check(ctx):
    names = ["gcc", "gccce", "clangdet", "clangce", "clangnb"]
    exes = ctx.build_all([lambda n=n: san_build(ctx, n) for n in names] + [lambda n=n: msan_build(ctx, n) for n in MSAN] + [ctx.dictionary])
    dic = exes.pop()
    for n, exe in zip(MSAN, exes[len(names):]):
        r = ctx.run([exe, "--budget", str(800 if ctx.thorough else 40)], n, timeout=1000 if ctx.thorough else 300, env={"MSAN_OPTIONS": "exit_code=0"})
        if r:
            ctx.observed["uninitialised_uses_" + n] = msan_reports(ctx, n, r[1])
    exes = exes[:len(names)]
    ctx.observed["build_s"] = round(ctx.elapsed(), 1)
    for n, exe in zip(names, exes):
        r = ctx.run([exe, "--sub", "ub", "--dict", dic, "--budget", str(SAN[n][1] * (20 if ctx.thorough else 1))], "ub-" + n, timeout=2000 if ctx.thorough else 500,
                    env={"ASAN_OPTIONS": "detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=0"})
        if r:
            ctx.observed["sanitizer_reports_" + n] = ubsan_reports(ctx, n, r[1])


def thread_check(ctx):
    names = ["gcctsan", "clangtsan"]
    jobs = [lambda n=n: san_build(ctx, n) for n in names] + [lambda: ctx.driver("cmp.cpp"), lambda: ctx.variant("gcc"), lambda: ctx.variant("clangdet"), ctx.dictionary]
    r = ctx.build_all(jobs)
    ctx.observed["build_s"] = round(ctx.elapsed(), 1)
    for n, exe in zip(names, r):
        o = ctx.run([exe, "--sub", "thread", "--dict", r[-1], "--budget", str(SAN[n][1] * (20 if ctx.thorough else 1))], "thread-" + n, timeout=2000 if ctx.thorough else 500,
                    env={"TSAN_OPTIONS": "halt_on_error=0 exitcode=0 report_signal_unsafe=0 history_size=4"})
        if not o:
            continue
        races = 0
        for rep in o[1].split("=================="):
            if "WARNING: ThreadSanitizer" not in rep:
                continue
            races += 1
            fr = re.findall(r"^\s+#\d+ (.*)$", rep, re.M)
            kind = re.search(r"ThreadSanitizer: ([^(\n]*)", rep).group(1).strip()
            if fr and re.match(r"(lgamma[fl]?|__lgamma\w*|lgamma\w*_compat) ", fr[0]):
                ctx.known.setdefault("lgamma-signgam", "%s: %s" % (kind, " <- ".join(fr[:3])))
                continue
            where = next((x for x in fr if "/ccmath/" in x), fr[0] if fr else "?")
            where = re.sub(r" \(.*", "", where)
            ctx.violations.append(("tsan/%s" % where, "%s (%s): %s" % (kind, n, " <- ".join(fr[:5]))))
        ctx.observed["race_reports_" + n] = races
    for i, so in enumerate(r[3:5]):
        ctx.run([r[2], "--sub", "thread", "--dict", r[-1], "--budget", str(300 * (10 if ctx.thorough else 1)), so], "thread-plain-%d" % i)


# Drivers that include ccmath themselves, built once per configuration.
DIRECT = {
    "gcc17": ["g++", "-std=c++17", "-O1"],
    "clang20": ["clang++", "-std=c++20", "-O1"],
    "gccavx": ["g++", "-std=c++17", "-O2", "-march=native"],
    "gccsan": ["g++", "-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined", "-fsanitize-recover=all"],
    "clangsan": ["clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fsanitize-recover=all"],
}


def direct_build(ctx, src, cfg, extra=()):
    v = DIRECT[cfg] if isinstance(cfg, str) else cfg[1]
    name = cfg if isinstance(cfg, str) else cfg[0]
    out = ctx.path("%s-%s" % (src[:-4], name))
    return ctx.compile(out, [v[0]] + list(v[1:]) + DEFS + ["-I" + ctx.repo + "/include", "-I" + ctx.h] + list(extra) + ['-DCCMV_NAME="%s"' % name, os.path.join(ctx.h, src), "-o", out, "-lmpfr", "-lgmp", "-ldl", "-lpthread"])


def direct_check(src, cfgs, quick, thorough, sub="-", extra=(), internal=False):
    def run(ctx):
        jobs = []
        for c in cfgs:
            jobs.append((c if isinstance(c, str) else c[0], ctx.pool.submit(direct_build, ctx, src, c, extra)))
        ctx.pool.submit(ctx.dictionary).result()
        built = []
        for n, j in jobs:
            try:
                built.append((n, j.result()))
            except Exception as e:
                if not internal or not hasattr(e, "log"):
                    raise
                ctx.notes.append("%s: the implementation details this driver names have changed, nothing was observed: %s" % (n, e.log[:400]))
        ctx.observed["build_s"] = round(ctx.elapsed(), 1)
        for n, exe in built:
            san = n.endswith("san")
            r = ctx.run([exe, "--sub", sub, "--dict", ctx.path("dict.txt"), "--budget", str((thorough if ctx.thorough else quick) / (4 if san else 1))], "%s-%s" % (src[:-4], n), timeout=2400 if ctx.thorough else 400,
                        env={"ASAN_OPTIONS": "detect_leaks=0"} if san else None)
            if r and san:
                ctx.observed["sanitizer_reports_" + n] = ubsan_reports(ctx, n, r[1])
    return run


def also(check, fns, quick=10, thorough=400):
    """The check, and the integer, mixed and suffixed overloads of its functions against the call it judges."""
    def run(ctx):
        job = ctx.pool.submit(direct_build, ctx, "overload.cpp", "gcc17", ())
        check["run"](ctx)
        ctx.run([job.result(), "--prop", fns, "--dict", ctx.path("dict.txt"), "--budget", str(thorough if ctx.thorough else quick)], "overloads", timeout=900 if ctx.thorough else 200)
    return dict(check, run=run)


RULE_OV = ("Every overload that exists (suffixed, integer, mixed) is called with arguments of the classes (integers: small, extreme, any) and its type and value are compared with the call in the promoted type. "
           "distinct_nontrivial counts distinct (overload, argument types, leading bits of the arguments) cells, hashed.")
CE_PARTS = [("g++", "-std=c++17", 0), ("g++", "-std=c++20", 2), ("clang++", "-std=c++17", 1), ("clang++", "-std=c++20", 3)]


def ce_build(ctx, comp, std, part, seed, rows):
    name = "rows-%s-%s-%d-%d" % (comp[:-2].replace("+", ""), std[-2:], part, seed)
    src, out = ctx.path(name + ".cpp"), ctx.path(name + ".so")
    import subprocess
    import sys
    subprocess.run([sys.executable, os.path.join(ctx.h, "gen_ce.py"), src, str(seed), str(rows), str(part)], check=True, stdout=subprocess.DEVNULL)
    lim = ["-fconstexpr-steps=2000000000", "-fbracket-depth=100000"] if comp == "clang++" else ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=100000000"]
    ctx.compile(out, [comp, "-shared", "-fPIC", std] + DEFS + lim + ["-I" + ctx.repo + "/include", "-I" + ctx.h, src, "-o", out], timeout=800)
    return out


def ce_check(ctx):
    vs = ["gcc", "clang", "clangce", "gccce"]
    rows = 150 if ctx.thorough else 120
    seeds = range(ctx.seed, ctx.seed + (10 if ctx.thorough else 1))
    jobs = [lambda n=n: ctx.variant(n) for n in vs] + [lambda: ctx.driver("cmp.cpp"), ctx.dictionary]
    work = [(c, std, part + 4 * k, s) for s in seeds for k in range(2) for c, std, part in CE_PARTS]
    jobs += [lambda w=w: ce_build(ctx, w[0], w[1], w[2], w[3], rows // (1 if w[0] == "g++" else 3)) for w in work]
    r = ctx.build_all(jobs)
    ctx.observed["build_s"] = round(ctx.elapsed(), 1)
    so, exe, dic, rest = dict(zip(vs, r)), r[4], r[5], r[6:]
    g = [o for o, w in zip(rest, work) if w[0] == "g++"]
    c = [o for o, w in zip(rest, work) if w[0] != "g++"]
    ctx.run([exe, "--sub", "ce", "--dict", dic, "--replay", ",".join(g), so["gcc"]], "ce-gcc")
    ctx.run([exe, "--sub", "ce", "--dict", dic, "--replay", ",".join(c), so["clang"], so["clangce"]], "ce-clang")
    ctx.run([exe, "--sub", "ced", "--dict", dic, "--budget", "60" if ctx.thorough else "6", so["clang"], so["clangce"], so["gcc"], so["gccce"]], "ce-dense")


RULE_CE = ("Each translation unit initialises a constexpr table with calls of every public function (arguments random in the domain, directed and special); the compiler evaluates them, a driver then makes the same calls at run time "
           "and compares. distinct_nontrivial counts distinct (function, type, exponents and leading significand bits of the arguments) cells, hashed.")
FENV = ["gcc", "gccnb", "gccdet", "clang", "clangdet"]

RULE_REL = ("Pairs of arguments from the classes (the second often a neighbour, multiple or scaling of the first) are passed to every law on every configuration. "
            "distinct_nontrivial counts distinct (type, leading encoding bits of both arguments) cells, hashed.")

NATIVE = ["gccavx", ("clangavx", ["clang++", "-std=c++20", "-O2", "-march=native"])]
NATSAN = ("gccavxsan", ["g++", "-std=c++20", "-O1", "-march=native", "-g1", "-fsanitize=address,undefined", "-fsanitize-recover=all"])
RULE_SIMD = ("Arguments (bases and exponents of the classes, pairs directed to results at the ends of the range and to bases near one) fill the lanes of vectors of each width; each lane, the flags and errno are compared with the scalar calls. "
             "distinct_nontrivial counts distinct (type, width, leading encoding bits of the arguments) cells, hashed.")

RULE_EXT = ("Arguments of each helper are drawn from value classes (ends of the type, neighbours of multiples and of the ends of the range, zeros, equal and nearly equal arguments, subnormals, infinities and NaNs where defined) and the result is compared "
            "with the same expression in 128-bit integer or multiple-precision arithmetic, or with the helper's laws. distinct_nontrivial counts distinct (helper, type, leading encoding bits of the arguments) cells, hashed.")
RULE_SIMDOP = ("Every operation of the vector types is executed on random and directed lanes (special values, ends of the type, masks of every pattern) and each lane is compared with the scalar operation. "
               "distinct_nontrivial counts distinct (operation, element type, lane count, leading bits of the lanes) cells, hashed.")
RULE_BIG = ("Operands are drawn from classes (random words, all ones, single bits, runs, near the ends, small; pairs related by small differences) and every operation is compared word by word with GMP. "
            "distinct_nontrivial counts distinct (operation, type, bit lengths and leading bits of the operands) cells, hashed.")
RULE_DY = ("Operands are drawn from classes (random, sparse and dense mantissas, exponents around the limits of the target formats and each other, exact ties and their neighbours) and every operation and conversion is compared with MPFR in every rounding mode. "
           "distinct_nontrivial counts distinct (operation, format, exponents and leading mantissa bits) cells, hashed.")
SANF = ["-O1", "-g1", "-fsanitize=address,undefined", "-fsanitize-recover=all"]


def ext_check(part, quick, thorough):
    p = ["-std=gnu++17", "-DCCMV_PART=%d" % part]
    return direct_check("ext.cpp", [("gcc", ["g++", "-O1"] + p), ("clang", ["clang++", "-O1"] + p), ("gccavx", ["g++", "-O2", "-march=native"] + p), ("clangavx", ["clang++", "-O2", "-march=native"] + p),
                        ("clangsan", ["clang++"] + SANF + ["-fno-sanitize=float-divide-by-zero"] + p)], quick, thorough)


SIMDF = ["-std=c++17", "-O2", "-DCCM_CONFIG_USE_RT_SIMD"]
INTRIN = [("gccavx", ["g++", "-march=native"] + SIMDF), ("gccsse2", ["g++"] + SIMDF), ("gccsse42", ["g++", "-msse4.2"] + SIMDF), ("clangavx", ["clang++", "-march=native"] + SIMDF)]
PPSIMD = [("gccavx", ["g++", "-std=c++17", "-O1", "-march=native"]), ("clangavx", ["clang++", "-std=c++17", "-O1", "-march=native"]),
          ("gccarray", ["g++", "-std=c++17", "-O1", "-march=native", "-DCCM_PP_FORCE_ARRAY_BACKEND"]), ("clangmsvc", ["clang++", "-std=c++17", "-O1", "-march=native", "-DCCM_PP_FORCE_MSVC_INTRIN"]),
          ("clangsan", ["clang++", "-std=c++17", "-DCCMV_LIGHT", "-march=native"] + SANF)]
BIGINT = [("gccnobi%d" % p, ["g++", "-O2", "-include", "nobuiltin.hpp", "-std=c++17", "-DCCMV_PART=%d" % p]) for p in (1, 2)] + [(n + str(p), c + ["-std=c++17", "-DCCMV_PART=%d" % p]) for p in (1, 2) for n, c in (("gcc", ["g++", "-O2"]), ("clang", ["clang++", "-O1"]))] + [("clang%dsan" % p, ["clang++", "-std=c++17", "-DCCMV_PART=%d" % p] + SANF) for p in (1, 2)]
DYF = ["-std=c++17", "-frounding-math", "-DCCMV_AS_SIGNAL"]
DYADIC = [("gccnobi", ["g++", "-O2", "-include", "nobuiltin.hpp"] + DYF), ("gcc", ["g++", "-O2"] + DYF), ("clang", ["clang++", "-O2"] + DYF), ("gccavx", ["g++", "-O3", "-march=native"] + DYF), ("clangavx", ["clang++", "-O2", "-march=native"] + DYF), ("clangsan", ["clang++"] + DYF + SANF)]
SUPF = ["-std=c++17"]
SUPG, SUPC = SUPF + ["-fconstexpr-ops-limit=400000000"], SUPF + ["-fconstexpr-steps=400000000"]
SUPPORT = [("gccnobi", ["g++", "-O2", "-include", "nobuiltin.hpp"] + SUPG), ("gcc", ["g++", "-O2"] + SUPG), ("clang", ["clang++", "-O2"] + SUPC), ("gccavx", ["g++", "-O3", "-march=native"] + SUPG), ("clangsan", ["clang++"] + SUPC + SANF)]
RULE_SUP = ("Encodings are drawn over all classes (zeros, subnormals, normals, infinities, NaNs, neighbours of powers of two, all-ones significands), helper arguments around their limits; every helper is compared with the definition of the format, GMP or MPFR, in every rounding mode where one applies. "
            "distinct_nontrivial counts distinct (helper, type, exponent or leading bits) cells, hashed.")
RULE_CEM = ("Per configured mode and compiler: 200 random argument sets per type are evaluated by the compiler as constants, and random argument sets (general, with the addend near the product, nearly cancelling, special values) are evaluated at run time in every thread mode, and by the constant-evaluation code forced at run time; each result is compared with MPFR in the mode that applies. "
            "distinct_nontrivial counts distinct (function, type, exponent) cells, hashed.")


OPTIONS = [["gccsimd", "gccplain", "gccnoerrno20"], ["gccavxsimd", "gccavxplain"], ["clangsimd", "clangnoerrno"], ["gccdet", "gccdetnoerrno"]]
RULE_OPT = ("Every entry point is called with arguments from the same classes in builds that differ only in options (and language standard) documented to leave results alone, in all four rounding modes, and the results are compared bit for bit; in deterministic builds without errno, errno is watched. "
            "distinct_nontrivial counts distinct (entry point, type, exponents and leading significand bits of the arguments) cells, hashed.")


def options_check(ctx):
    names = [n for g in OPTIONS for n in g]
    r = ctx.build_all([lambda n=n: ctx.variant(n) for n in names] + [lambda: ctx.driver("cmp.cpp"), ctx.dictionary])
    so = dict(zip(names, r))
    ctx.observed["build_s"] = round(ctx.elapsed(), 1)
    for i, g in enumerate(OPTIONS):
        ctx.run([r[-2], "--sub", "opt", "--dict", r[-1], "--budget", str(300 if ctx.thorough else 24)] + [so[n] for n in g], "options-%d" % i, timeout=3000 if ctx.thorough else 800)


def cemode_check(ctx):
    cfgs = []
    for m in ("FE_UPWARD", "FE_DOWNWARD", "FE_TOWARDZERO", "FE_TONEAREST"):
        f = ["-std=c++17", "-O2", "-frounding-math", "-DCCM_CONSTEXPR_ROUNDING_MODE=" + m, "-DCCMV_SEED=%d" % ctx.seed]
        t = m[3:].lower()
        cfgs += [("gcc" + t, ["g++", "-fconstexpr-ops-limit=400000000"] + f), ("clang" + t, ["clang++", "-fconstexpr-steps=400000000"] + f), ("clangce" + t, ["clang++", "-DCCMV_FORCE_CE"] + f)]
        if m != "FE_TONEAREST":
            cfgs.append(("gccce" + t, ["g++", "-DCCMV_FORCE_CE"] + f))
    direct_check("cemode.cpp", cfgs, 3, 300)(ctx)


CHECKS = {
    "C09": {"run": options_check, "rule": RULE_OPT, "assumptions": ["functions that end in the compiler's builtin reach the C library, whose errno the option does not govern"]},
    "C08": {"run": cemode_check, "rule": RULE_CEM, "assumptions": ["MPFR is trusted", "the compilers' own constant folding of basic operations is trusted"]},
    "E03": {"run": direct_check("support.cpp", SUPPORT, 6, 600, internal=True), "rule": RULE_SUP, "assumptions": ["GMP and MPFR are trusted"]},
    "F01": {"run": ext_check(1, 12, 1500), "rule": RULE_EXT, "assumptions": []},
    "F02": {"run": ext_check(2, 10, 900), "rule": RULE_EXT, "assumptions": []},
    "F03": {"run": ext_check(3, 20, 1500), "rule": RULE_EXT, "assumptions": []},
    "D02": {"run": direct_check("pp.cpp", PPSIMD, 10, 600, internal=True), "rule": RULE_SIMDOP, "assumptions": []},
    "D03": {"run": direct_check("simd.cpp", INTRIN, 14, 1500, internal=True), "rule": RULE_SIMDOP, "assumptions": []},
    "E01": {"run": direct_check("bigint.cpp", BIGINT, 4, 500, internal=True), "rule": RULE_BIG, "assumptions": ["GMP is trusted"]},
    "E02": {"run": direct_check("dyadic.cpp", DYADIC, 10, 800, internal=True), "rule": RULE_DY, "assumptions": ["MPFR is trusted"]},
    "D01": {"run": direct_check("simdpow.cpp", NATIVE + [("gccsse", ["g++", "-std=c++17", "-O3"]), NATSAN], 45, 4000, internal=True), "rule": RULE_SIMD, "assumptions": ["the scalar pow and powf kernels are judged by A01"]},
    "C01": {"run": table_check("rel.cpp", [[]], ALL, 24, 700), "rule": RULE_REL, "assumptions": []},
    "C07": {"run": direct_check("overload.cpp", ["gcc17", "clang20"], 30, 2000), "rule": RULE_OV, "assumptions": ["the floating-point calls themselves are judged by the other properties"]},
    "C02": {"run": ce_check, "rule": RULE_CE, "assumptions": ["calls that raise a floating-point error (domain, pole, overflow, underflow) are not promised to be constant expressions and are not generated",
            "the compilers' own constant folding of basic operations is trusted"]},
    "C04": {"run": table_check("cmp.cpp", [["--sub", "fenv"]], FENV, 12, 200), "rule": RULE_CMP, "assumptions": ["the x87/SSE status and control words are read back through the C library's fenv interface"]},
    "C05": {"run": ub_check, "rule": RULE_CMP, "assumptions": ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer of GCC 13 and clang 18 detect what they document; behaviour they do not instrument is out of reach"]},
    "C06": {"run": thread_check, "rule": RULE_CMP, "assumptions": ["ThreadSanitizer sees the races of the interleavings that occurred, with happens-before precision"]},
    "C03": {"run": table_check("cmp.cpp", [["--sub", "det"]], DET, 100, 900), "rule": RULE_CMP, "assumptions": ["all configurations run on the same machine; differences between machines are represented by instruction set and compiler options"]},
    "A01": also(acc("A01", 24, 900), "pow"),
    "A02": also(acc("A02", 24, 900), "exp,exp2,expm1"),
    "A03": also(acc("A03", 24, 900), "log,log2,log10,log1p"),
    "A04": also(acc("A04", 24, 900), "sin,cos,tan"),
    "A05": also(acc("A05", 30, 900), "asin,acos,atan,atan2"),
    "A06": also(acc("A06", 24, 900), "cbrt,hypot,sqrt"),
    "A07": also(acc("A07", 3.5, 400), "tgamma,lgamma,gamma"),
    "A08": also(exact("sqrtfma"), "sqrt,fma"),
    "B01": also(exact("nearest"), "ceil,floor,trunc,round,rint,nearbyint"),
    "B02": also(exact("decomp"), "frexp,modf,logb,ilogb,ldexp,scalbn,scalbln"),
    "B03": also(exact("next"), "nextafter,nexttoward,nextup,nextdown"),
    "B04": also(exact("rem"), "fmod,remainder,remquo"),
    "B05": also(exact("class"), "isnan,isinf,isfinite,isnormal,signbit,fpclassify,isgreater,isgreaterequal,isless,islessequal,islessgreater,isunordered"),
    "B06": also(exact("minmax"), "fmax,fmin,max,min,fdim,fabs,abs,copysign"),
}
