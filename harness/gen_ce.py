#!/usr/bin/env python3
"""Writes a translation unit whose rows are initialised in constant expressions: (function, arguments) -> result.
Usage: gen_ce.py OUT SEED ROWS_PER_FUNCTION PART. Only calls that raise no floating-point error are generated:
an error (domain, pole, overflow, underflow) need not be a constant expression."""
import math
import random
import struct
import sys

out, seed, rows, part = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
R = random.Random(seed * 7919 + part)

U = "exp exp2 expm1 log log2 log10 log1p sin cos tan asin acos atan sqrt cbrt tgamma lgamma".split()
UX = "fabs abs ceil floor trunc round rint nearbyint logb nextup nextdown".split()
B = "atan2 hypot pow".split()
BX = "fdim fmax fmin max min fmod remainder copysign nextafter".split()
Z = "isnan isinf isfinite isnormal signbit fpclassify ilogb".split()
ZB = "isgreater isgreaterequal isless islessequal islessgreater isunordered".split()
OTHER = "fma lerp hypot3 ldexp scalbn scalbln modf frexp frexp_ref remquo nexttoward nan".split()
SUF = {"f": "f", "d": "", "l": "L"}
TYPE = {"f": "float", "d": "double", "l": "long double"}
PREC = {"f": 24, "d": 53, "l": 64}
EMIN = {"f": -126, "d": -1022, "l": -16382}
EMAX = {"f": 127, "d": 1023, "l": 16383}


class Num:
    """A finite number sign * m * 2^(e - (prec-1)), m < 2^prec, spelled exactly in hexadecimal; or a special."""

    def __init__(self, t, s, m, e, special=None):
        self.t, self.s, self.m, self.e, self.special = t, s, m, e, special

    def val(self):
        if self.special:
            return {"inf": math.inf, "-inf": -math.inf, "nan": math.nan}[self.special]
        try:
            return math.ldexp(-self.m if self.s else self.m, self.e - PREC[self.t] + 1)
        except OverflowError:
            return -math.inf if self.s else math.inf

    def __str__(self):
        if self.special:
            return {"inf": "std::numeric_limits<%s>::infinity()", "-inf": "-std::numeric_limits<%s>::infinity()", "nan": "std::numeric_limits<%s>::quiet_NaN()"}[self.special] % TYPE[self.t]
        if self.m == 0:
            return "-0.0" + SUF[self.t] if self.s else "0.0" + SUF[self.t]
        return "%s0x%xp%d%s" % ("-" if self.s else "", self.m, self.e - PREC[self.t] + 1, SUF[self.t])


def num(t, x, jitter=True):
    """A number of type t near x, with random low bits for long double."""
    if x == 0 or math.isinf(x) or math.isnan(x):
        return Num(t, math.copysign(1, x) < 0, 0, 0, None if x == 0 else "nan" if x != x else "inf" if x > 0 else "-inf")
    f, e = math.frexp(abs(x))
    e -= 1
    p = PREC[t]
    m = int(f * 2 ** 53)
    m = m << (p - 53) if p >= 53 else m >> (53 - p)
    if t == "l" and jitter:
        m |= R.getrandbits(11)
    if e < EMIN[t]:
        sh = EMIN[t] - e
        m, e = m >> sh, EMIN[t]
    if e > EMAX[t]:
        e = EMAX[t]
    return Num(t, x < 0, m, e)


def wide(t, lo=None, hi=None):
    """Any finite number, by exponent."""
    e = R.randint(EMIN[t] if lo is None else lo, EMAX[t] if hi is None else hi)
    p = PREC[t]
    m = (1 << (p - 1)) | (R.getrandbits(p - 1) if R.random() < .8 else R.getrandbits(p - 1) & R.getrandbits(p - 1) & R.getrandbits(p - 1))
    return Num(t, R.random() < .5, m, e)


def subn(t):
    p = PREC[t]
    return Num(t, R.random() < .5, R.getrandbits(R.randint(1, p - 1)) or 1, EMIN[t])


def span(lo, hi):
    """Log-uniform magnitude or uniform, with sign where the interval allows it."""
    if R.random() < .5:
        return R.uniform(lo, hi)
    m = math.exp(R.uniform(math.log(1e-4), math.log(max(abs(lo), abs(hi)))))
    s = -1 if lo < 0 and R.random() < .5 else 1
    x = s * m
    return min(max(x, lo), hi)


def dom(fn, t):
    E = EMAX[t] + 1
    L = {"f": 85., "d": 700., "l": 700.}[t]
    if fn == "exp":
        return num(t, span(-L, L))
    if fn == "exp2":
        return num(t, span(-L * 1.44, L * 1.44))
    if fn == "expm1":
        return num(t, span(-L, L))
    if fn in ("log", "log2", "log10", "sqrt"):
        if R.random() < .3:
            return num(t, 1 + R.uniform(-.1, .1))
        n = wide(t, -1022 if t == "l" else None, 1023 if t == "l" else None)
        n.s = False
        return n
    if fn == "log1p":
        return num(t, R.choice([R.uniform(-.99, 2), math.exp(R.uniform(-8, 80))]))
    if fn in ("sin", "cos", "tan"):
        return num(t, R.choice([span(-10, 10), span(-1e6, 1e6), R.randint(1, 500) * math.pi / 4 + R.uniform(-1e-3, 1e-3), R.choice([-1, 1]) * math.exp(R.uniform(0, 80))]))
    if fn in ("asin", "acos"):
        return num(t, R.uniform(-.999, .999))
    if fn == "atan":
        return num(t, R.choice([span(-50, 50), R.choice([-1, 1]) * math.exp(R.uniform(-5, 80))]))
    if fn == "cbrt":
        return wide(t, -1022 if t == "l" else None, 1023 if t == "l" else None)
    if fn == "tgamma":
        x = span(-25, 33) if t == "f" else span(-100, 170)
        if x < 0 and abs(x - round(x)) < .01:
            x += .3
        return num(t, x)
    if fn == "lgamma":
        x = R.choice([span(-60, 200), math.exp(R.uniform(0, 80))])
        if x < 0 and abs(x - round(x)) < .01:
            x += .3
        return num(t, x)
    raise KeyError(fn)


def anyfinite(t):
    k = R.random()
    if k < .25:
        return wide(t)
    if k < .35:
        return subn(t)
    if k < .45:
        return num(t, R.choice([0.0, -0.0, 1., -1., .5, -.5, 1.5, 2.5, -2.5]), False)
    if k < .6:
        n = num(t, R.randint(-2000, 2000) / 2, False)
        return n
    if k < .75:
        return wide(t, -3, PREC[t] + 2)
    return wide(t, -30, 30)


def special(t):
    return Num(t, 0, 0, 0, R.choice(["inf", "-inf", "nan"]))


ROWS = []


def row(fn, t, args, expr, n=0, ld="0.0L", i=None, w="0.0L", s='""'):
    a = (list(map(str, args)) + ["0.0L"] * 3)[:3]
    ROWS.append('\t{ "%s", \'%s\', { %s }, %s, %s, %s, %s },' % (fn, t, ", ".join(a), n, ld, s, expr))


def plain(fn, t, args):
    row(fn, t, args, "V(ccm::%s(%s))" % (fn.replace("hypot3", "hypot"), ", ".join(map(str, args))))


for t in "fdl":
    for fn in U:
        if fn in ("tgamma", "lgamma", "log1p", "expm1") and False:
            continue
        for _ in range(rows):
            plain(fn, t, [dom(fn, t)])
        # exact and limiting cases that raise nothing
        sp = {"exp": ["0", "-0", "inf", "-inf"], "exp2": ["0", "1", "10", "-3", "inf", "-inf"], "expm1": ["0", "-0", "inf", "-inf"], "log": ["1", "inf"], "log2": ["1", "8", "inf"], "log10": ["1", "1000", "inf"],
              "log1p": ["0", "-0", "inf"], "sin": ["0", "-0"], "cos": ["0"], "tan": ["0", "-0"], "asin": ["0", "1", "-1"], "acos": ["1", "-1"], "atan": ["0", "-0", "inf", "-inf"],
              "sqrt": ["0", "-0", "4", "inf"], "cbrt": ["0", "-0", "-8", "27", "inf", "-inf"], "tgamma": ["1", "5"], "lgamma": ["1", "2"]}[fn]
        for x in [v for v in sp if "inf" not in v or part % 2]:  # GCC does not fold its builtins at infinities
            plain(fn, t, [num(t, float(x), False)])
    for fn in UX:
        for _ in range(rows):
            x = anyfinite(t)
            if fn == "logb" and x.m == 0:
                continue
            if fn in ("nextup", "nextdown") and (x.m == 0 or abs(x.val()) < math.ldexp(1, max(EMIN[t], -1020) + 2) or x.e == EMAX[t] or t == "l" and x.e < EMIN[t] + 2):
                continue
            plain(fn, t, [x])
        if fn not in ("nextup", "nextdown"):
            for x in ("inf", "-inf", "nan"):
                plain(fn, t, [Num(t, 0, 0, 0, x)])
    for _ in range(rows):
        y, x = num(t, span(-50, 50)), num(t, span(-50, 50))
        if x.m and y.m:
            plain("atan2", t, [y, x])
        plain("hypot", t, [num(t, span(-1e5, 1e5)), num(t, span(-1e5, 1e5))])
        plain("hypot3", t, [num(t, span(-1e3, 1e3)), num(t, span(-1e3, 1e3)), num(t, span(-1e3, 1e3))])
        b = math.exp(R.uniform(-5, 5))
        lim = 80 if t == "f" else 650
        e = R.uniform(-1, 1) * lim / max(abs(math.log(b)), 1e-3)
        if R.random() < .3:
            e = float(R.randint(-6, 6))
            if R.random() < .5:
                b = -b
        if abs(e) < 1e12 and b:
            plain("pow", t, [num(t, b), num(t, e, False)])
    for fn in BX:
        for _ in range(rows):
            x, y = anyfinite(t), anyfinite(t)
            if fn in ("fmod", "remainder"):
                x, y = wide(t, -30, 200 if t == "f" and False else 60), wide(t, -30, 30)
                if t == "l" and False:
                    continue
            if fn == "fdim":
                x, y = num(t, span(-1e5, 1e5)), num(t, span(-1e5, 1e5))
            if fn == "nextafter" and (x.m == 0 or x.e < EMIN[t] + 2 or x.e >= EMAX[t]):
                continue
            if fn in ("fmax", "fmin", "max", "min") and x.m == 0 and y.m == 0:
                continue
            plain(fn, t, [x, y])
        if fn == "copysign":
            for x in ("inf", "-inf"):
                plain(fn, t, [Num(t, 0, 0, 0, x), num(t, -2.)])
                plain(fn, t, [num(t, 2.), Num(t, 0, 0, 0, x)])
    for fn in Z:
        for _ in range(max(4, rows // 2)):
            x = anyfinite(t)
            if fn == "ilogb" and x.m == 0:
                continue
            row(fn, t, [x], "I(ccm::%s(%s))" % (fn, x))
        if fn != "ilogb":
            for s in ("inf", "-inf", "nan"):
                x = Num(t, 0, 0, 0, s)
                row(fn, t, [x], "I(ccm::%s(%s))" % (fn, x))
    for fn in ZB:
        for _ in range(max(4, rows // 2)):
            x, y = anyfinite(t), anyfinite(t)
            if R.random() < .3:
                y = x
            row(fn, t, [x, y], "I(ccm::%s(%s, %s))" % (fn, x, y))
    for _ in range(rows):
        x, y, z = wide(t, -20, 20), wide(t, -20, 20), wide(t, -60, 45)
        plain("fma", t, [x, y, z])
        plain("lerp", t, [num(t, span(-50, 50)), num(t, span(-50, 50)), num(t, R.uniform(-1, 2))])
        x = subn(t) if R.random() < .3 else anyfinite(t)  # results over the whole normal range, from the subnormals up as well
        n = R.randint(EMIN[t], EMAX[t]) - (x.e - PREC[t] + x.m.bit_length()) if x.m else R.randint(-60, 60)
        for fn in ("ldexp", "scalbn"):
            row(fn, t, [x], "V(ccm::%s(%s, %d))" % (fn, x, n), n)
        row("scalbln", t, [x], "V(ccm::scalbln(%s, %dL))" % (x, n), n)
        x = anyfinite(t)
        T = TYPE[t]
        row("modf", t, [x], "[] { %s p = 0; const %s v = ccm::modf(%s, &p); return Out{ v, p, 0 }; }()" % (T, T, x))
        x = anyfinite(t)
        row("frexp", t, [x], "[] { int e = 0; const %s v = ccm::frexp(%s, &e); return Out{ v, 0, e }; }()" % (T, x))
        row("frexp_ref", t, [x], "[] { int e = 0; const %s v = ccm::frexp(%s, e); return Out{ v, 0, e }; }()" % (T, x))
        x, y = wide(t, -30, 50), wide(t, -30, 30)
        row("remquo", t, [x, y], "[] { int q = 0; const %s v = ccm::remquo(%s, %s, &q); return Out{ v, 0, q }; }()" % (T, x, y))
        x, y = wide(t, -60, 60), wide("l", -60, 60)
        row("nexttoward", t, [x], "V(ccm::nexttoward(%s, %s))" % (x, y), 0, str(y))

R.shuffle(ROWS)
with open(out, "w") as f:
    f.write("""#include <ccmath/ccmath.hpp>
#include <limits>
#include "ccmv_abi.hpp"
namespace
{
	struct Out { long double v; long double w; int i; };
	constexpr Out V(long double v) { return { v, 0, 0 }; }
	constexpr Out I(int i) { return { 0, 0, i }; }
	struct Row { const char * fn; char ty; long double a[3]; long n; long double ld; const char * s; Out o; };
	constexpr Row rows[] = {
%s
	};
	const CcmvRow * table()
	{
		static CcmvRow r[sizeof(rows) / sizeof(rows[0])];
		for (unsigned k = 0; k < sizeof(rows) / sizeof(rows[0]); ++k)
		{
			const Row & x = rows[k];
			r[k] = { x.fn, x.ty, { x.a[0], x.a[1], x.a[2] }, x.n, x.ld, x.s, x.o.v, x.o.w, x.o.i };
		}
		return r;
	}
}
extern "C" __attribute__((visibility("default"))) const CcmvRow * ccmv_rows(int * n)
{
	*n = (int)(sizeof(rows) / sizeof(rows[0]));
	return table();
}
""" % "\n".join(ROWS))
print(len(ROWS))
