#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The texts live here; what is claimed is what checks.CHECKS implements."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks  # noqa: E402

I = "include/ccmath/"
G = I + "internal/math/generic/func/"
R = I + "internal/math/runtime/func/"
S = I + "internal/support/"
T = I + "internal/types/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, technique="", note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a), technique, note))


ACC_Q = ("Every argument (2^32 per unary float, 2^64 and more for the others), in all four rounding modes at run time and to nearest in constant evaluation, on every supported build: "
         "GCC and Clang, default and deterministic mode, with and without hardware FMA, C++17 and C++20.")
ACC_W = ("The suite compares sampled points and a few sweeps in one build configuration with the C library; a wrong table cell, coefficient, threshold or branch shows only in a sliver of the argument "
         "space, in one type, rounding mode or configuration.")
ACC_T = "differential runtime monitor: MPFR oracle over directed and random executions on eight builds, four rounding modes"
ACC_N = ("Tested, not proved: holds on the executions observed. MPFR is trusted; the C library's wider format only screens results that are clearly within the bound. Constant evaluation is observed by running the code "
         "ccmath selects for it (is_constant_evaluated forced), which C02 ties to real constant evaluation.")
EX_T = "differential runtime monitor: bit-exact oracle over directed and random executions on eight builds, four rounding modes"
EX_N = "Tested, not proved: holds on the executions observed. The C library's exact operations and MPFR are trusted as oracles."


def acc(id, title, st, files, mech, why=""):
    prop(id, title, st, ["inputs", "configurations"], ACC_Q, ACC_W + (" " + why if why else ""), files, mech, ["return values of the public functions"], None, ACC_T, ACC_N)


def ex(id, title, st, files, mech, why):
    prop(id, title, st, ["inputs", "configurations"], ACC_Q, why, files, mech, ["return values of the public functions"], None, EX_T, EX_N)


acc("A01", "pow is accurate for every pair of arguments",
    "pow of float is within 1.25 ULP (3 in directed rounding) of x^y, pow of double within 0.6 ULP (1.25 directed) and, on ccmath's own path (deterministic mode, constant evaluation without the compiler's builtin, builtin disabled), "
    "correctly rounded to nearest but for results within 2^-40 ULP of a midpoint. pow of long double is within 4 ULP for finite arguments. Overflow, underflow, negative bases with integral exponents and every special pair give the value, sign and infinity or zero that Annex F requires.",
    [I + "math/power/pow.hpp", G + "power/pow_impl/pow_impl.hpp", G + "power/pow_impl/powf_impl.hpp", G + "power/powl_gen.hpp", R + "power/pow_rt.hpp"],
    [("double-double log2/exp2 kernel with exact integer and half-integer paths", G + "power/pow_impl/pow_impl.hpp"), ("float kernel with rounding test and double-double fallback", G + "power/pow_impl/powf_impl.hpp"),
     ("runtime dispatch by rounding mode", R + "power/pow_rt.hpp")], "Midpoint cases of pow number about one in 2^50.")
acc("A02", "exp, exp2 and expm1 are accurate for every argument",
    "exp and exp2 are within 1.25 ULP for float and 0.75 for double (2.5 and 1.5 in directed rounding), expm1 within 2.5 ULP (5.5 directed), and within 2, 2 and 4 ULP for long double at run time. "
    "Results overflow to infinity and underflow gradually at exactly the right thresholds, and special values follow Annex F.",
    [I + "math/expo/exp.hpp", I + "math/expo/exp2.hpp", I + "math/expo/expm1.hpp", I + "math/expo/impl", R + "expo"],
    [("table-driven kernels with double-double fallback", I + "math/expo/impl"), ("overflow/underflow thresholds per rounding mode", I + "math/expo/impl/exp_double_impl.hpp")])
acc("A03", "log, log2, log10 and log1p are accurate for every argument",
    "log and log2 are within 1 ULP for float and 0.75 for double (2 and 1.5 in directed rounding), log10 within 2.25 ULP (4 directed), log1p within 2.75 ULP (4 directed), and within 2, 2, 2 and 4 ULP for long double at run time. "
    "Negative arguments give NaN, zeros give negative infinity, subnormal arguments are as accurate as normal ones, and the result at 1 is exactly +0.",
    [I + "math/expo/log.hpp", I + "math/expo/log2.hpp", I + "math/expo/log10.hpp", I + "math/expo/log1p.hpp", I + "math/expo/impl", R + "expo"],
    [("table-driven kernels, near-one polynomial", I + "math/expo/impl"), ("subnormal scaling", I + "math/expo/impl/log_double_impl.hpp")])
acc("A04", "sin, cos and tan are accurate for every finite argument, however large",
    "sin and cos are within 4.5 ULP and tan within 5.5 ULP (9 in directed rounding) of the exact value for every finite float and double, including arguments near multiples of pi/2 and up to the largest finite number; long double is within 4 ULP at run time. "
    "Infinities give NaN, zeros keep their sign.",
    [I + "math/trig/sin.hpp", I + "math/trig/cos.hpp", I + "math/trig/tan.hpp", I + "math/trig/impl", R + "trig"],
    [("range reduction (Cody-Waite and Payne-Hanek)", S + "helpers"), ("sin/cos table and polynomials", I + "math/trig/impl")], "Arguments next to multiples of pi/2 and huge arguments are too sparse for samples.")
acc("A05", "asin, acos, atan and atan2 are accurate and choose the right quadrant",
    "asin and atan are within 5 ULP (float atan: 1.5), acos within 2 ULP and atan2 within 5.5 ULP (float: 2.5), at most twice that in directed rounding, and within 4 ULP for long double at run time. atan2 selects the quadrant and the sign of zero from the signs of both arguments, also for zeros and infinities, and arguments of asin and acos outside [-1, 1] give NaN.",
    [I + "math/trig/asin.hpp", I + "math/trig/acos.hpp", I + "math/trig/atan.hpp", I + "math/trig/atan2.hpp", I + "math/trig/impl", R + "trig"],
    [("piecewise polynomials", I + "math/trig/impl"), ("quadrant selection", I + "math/trig/impl/inv_trig_impl.hpp")])
acc("A06", "cbrt, hypot and sqrt are accurate without spurious overflow or underflow",
    "cbrt is within 1.75 ULP for float and 4 for double, hypot of two arguments within 2.5 ULP and of three within 4.5 (5 and 9 in directed rounding), sqrt within half an ULP to nearest and 1 ULP directed, and within 4, 4 and 0.5 ULP for long double at run time. hypot overflows or underflows only when its exact value does, and is +infinity when either argument is infinite, even beside a NaN.",
    [I + "math/power/cbrt.hpp", I + "math/power/hypot.hpp", I + "math/power/sqrt.hpp", G + "power", R + "power"],
    [("exponent scaling in hypot", G + "power/impl/hypot_impl.hpp"), ("cbrt seed and Newton steps", G + "power/impl/cbrt_impl.hpp")])
acc("A07", "tgamma and lgamma are accurate between, at and far from their poles",
    "tgamma (also spelled gamma) is within 8 ULP for float (ccmath's own kernel: 1) and long double, and within 16 + 1.8|x| ULP for double, gradual underflow below -170 included, at most twice that in directed rounding; lgamma's error is at most 2^-21 (float), 2^-46 (double) or 2^-48 (double, positive arguments) times max(1, |value|), or within 16 ULP for positive arguments, and one bit more in directed rounding. "
    "Poles, infinities and overflow thresholds give the values C requires, and every argument returns promptly.",
    [I + "math/misc/gamma.hpp", I + "math/misc/lgamma.hpp", I + "math/misc/impl", R + "misc"],
    [("polynomial and Stirling branches, recurrence and reflection", I + "math/misc/impl")])
ex("A08", "sqrt and fma are correctly rounded in every rounding mode",
   "sqrt and fma of float, double and long double return the exact result rounded once in the current rounding mode (to nearest in constant evaluation), including subnormal results, exact cancellation and the sign of a zero result, for every argument. "
   "This holds on hardware with and without FMA instructions.",
   [I + "math/power/sqrt.hpp", I + "math/basic/fma.hpp", S + "fp/fma.hpp", G + "power/sqrt_gen.hpp", S + "multiply_add.hpp"],
   [("software fma in wide integers", S + "fp/fma.hpp"), ("digit-by-digit sqrt", G + "power/sqrt_gen.hpp"), ("builtin dispatch", I + "internal/math/generic/builtins/basic/fma.hpp")],
   "Double rounding and sticky-bit errors need a triple whose product and addend straddle a rounding boundary by one bit in 2^50; the suite's samples rarely meet one, and never in all modes and both builds.")
ex("B01", "Nearest-integer functions return exactly the required integer and zero sign",
   "floor, ceil, trunc and round return the same integer in every rounding mode, rint and nearbyint the integer the current rounding mode selects, for every float, double and long double argument, bit for bit. "
   "A zero result carries the argument's sign, infinities and large values are returned unchanged, and NaN stays NaN.",
   [I + "math/nearest", S + "fp/ops", R + "nearest"],
   [("bit-level rounding", S + "fp"), ("runtime dispatch", R + "nearest")],
   "Half-way cases, zero signs and mode dependence occur at specific encodings in each of the binades of three types; the suite tests lists of values, mostly to nearest.")
ex("B02", "Decomposition and scaling are exact and reverse each other",
   "frexp, modf, logb and ilogb split every argument exactly as C specifies (zero signs, infinities, NaN and subnormals included), whichever calling form is used. ldexp, scalbn and scalbln multiply by the power of two exactly or round once in the current mode when the result is subnormal or overflows, for every int or long exponent.",
   [I + "math/fmanip", S + "helpers/internal_ldexp.hpp", S + "fp/ops"],
   [("exponent arithmetic on encodings", S + "fp"), ("rounding through the wide-integer type", T + "dyadic_float.hpp")],
   "The failing cases are pairs of a significand pattern and an exponent that puts the result next to the subnormal or overflow boundary, per type and rounding mode.")
ex("B03", "The nextafter family steps to exactly the adjacent representable value",
   "nextafter, nexttoward, nextup and nextdown return the adjacent representable number in the requested direction for every argument of every type: across zero, between subnormal and normal numbers, across binades and at infinity. Equal arguments return the second one, and NaN gives NaN.",
   [I + "math/fmanip/nextafter.hpp", I + "math/fmanip/nexttoward.hpp", I + "math/fmanip/nextup.hpp", I + "math/fmanip/nextdown.hpp", S + "fp/ops"],
   [("integer step on the encoding", S + "fp"), ("80-bit explicit integer bit", S + "fp/ops")],
   "Binade, subnormal and sign crossings exist per exponent and per type; an 80-bit encoding can be invalid yet compare equal to the right value.")
ex("B04", "fmod, remainder and remquo are exact for every pair of arguments",
   "fmod and remainder return the mathematically exact remainder (truncated and rounded-to-nearest-even quotient) with the sign of a zero result as C requires, and remquo agrees with remainder and stores the quotient's sign and low three bits, for every pair at run time and in constant evaluation. "
   "NaN, infinite dividends and zero divisors give NaN; infinite divisors return the dividend.",
   [I + "math/basic/fmod.hpp", I + "math/basic/remainder.hpp", I + "math/basic/remquo.hpp", I + "math/basic/impl", R + "basic"],
   [("long division", I + "math/basic/fmod.hpp"), ("quotient bits", I + "math/basic/impl/remquo_double_impl.hpp")],
   "Quotients span 2^2098 values and the half-way decisions depend on the last bit; unit tests use a handful of small quotients.")
ex("B05", "Classification and comparison agree with the encoding for every value",
   "fpclassify, isnan, isinf, isfinite, isnormal and signbit describe every encoding correctly, and the isgreater/isless family and isunordered return what the ordering of the two values requires, false for any comparison with NaN other than isunordered. Signalling NaNs and both zeros are included.",
   [I + "math/compare"], [("bit tests or builtins per configuration", I + "math/compare")],
   "The suite samples one value per class; encodings at class edges and NaN payloads, per type and configuration, are open.")
ex("B06", "min, max, fdim, fabs and copysign return exactly the required operand or value",
   "fmax and fmin return the larger and the smaller operand and the number when one operand is a quiet NaN, fdim the correctly rounded positive difference in the current mode, fabs and copysign change nothing but the sign bit. This holds for all three types, zeros, infinities, subnormals and NaNs.",
   [I + "math/basic/max.hpp", I + "math/basic/min.hpp", I + "math/basic/fdim.hpp", I + "math/basic/fabs.hpp", I + "math/fmanip/copysign.hpp"],
   [("comparison and NaN handling", I + "math/basic"), ("bit operations", I + "math/fmanip/copysign.hpp")],
   "Overflowing and subnormal differences in directed modes and NaN operands in either position, per type and build, are not enumerated.")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            for w in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
                assert os.path.exists("/repo/" + w), w
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --setup",
         "hooks": {"guard": "none", "enable": "no hooks: the monitors observe ccmath through its public and tested interfaces", "source_commits": []},
         "checks": [], "not_applicable": []}
    for p, t, n in P:
        if p["id"] in checks.CHECKS:
            m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                                "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "exploration", "level_note": n})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
