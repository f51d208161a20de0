// C01: identities that hold exactly between calls, in every configuration: parity, symmetry, ranges, inverses, recurrences.
// The monitor compares calls of the code with one another, so no rounding tolerance enters.
#include "core.hpp"
#include "mon.hpp"
#include <fenv.h>

static std::vector<Variant> V;
static std::vector<std::uint64_t> DICT;

template <class T> struct Calls
{
	const Variant * v;
	const CcmvFn * f(const char * n) const
	{
		const CcmvFn * r = v->get(n, FT<T>::ch);
		if (!r)
		{
			std::fprintf(stderr, "no entry point %s\n", n);
			std::abort();
		}
		return r;
	}
	T u(const char * n, T x) const { return ((T(*)(T))f(n)->fn)(x); }
	T b(const char * n, T x, T y) const { return ((T(*)(T, T))f(n)->fn)(x, y); }
	T t(const char * n, T x, T y, T z) const { return ((T(*)(T, T, T))f(n)->fn)(x, y, z); }
	T ui(const char * n, T x, int k) const { return ((T(*)(T, int))f(n)->fn)(x, k); }
	T ul(const char * n, T x, long k) const { return ((T(*)(T, long))f(n)->fn)(x, k); }
	int i(const char * n, T x) const { return ((int (*)(T))f(n)->fn)(x); }
	int z(const char * n, T x, T y) const { return ((int (*)(T, T))f(n)->fn)(x, y); }
	T modf(T x, T * p) const { return ((T(*)(T, T *))f("modf")->fn)(x, p); }
	T frexp(T x, int * p) const { return ((T(*)(T, int *))f("frexp")->fn)(x, p); }
	T remquo(T x, T y, int * p) const { return ((T(*)(T, T, int *))f("remquo")->fn)(x, y, p); }
};

template <class T> static T pick(Rng & r)
{
	int c = r.range(0, C_COUNT + 1);
	if (c >= C_COUNT && !DICT.empty())
	{
		T t = (T)from_bits<double>(DICT[r.below(DICT.size())]);
		t	= step(t, (r.next() & 1) ? r.range(-2, 2) : r.range(-40, 40));
		return (r.next() & 3) ? t : -t;
	}
	T x = gen<T>(r, c % C_COUNT, -50, 50);
	return is_snan(x) ? (T)1 : x;
}
template <class T> static void expect(const Calls<T> & c, bool ok, const char * law, T x, T y, T got, T other)
{
	mon::self().ck++;
	if (!ok)
		mon::violation(mon::fmt("%s/%s/%s", law, FT<T>::nm, c.v->name.c_str()),
					   mon::fmt("%s fails for %s, arguments %s, %s on %s: %s against %s", law, FT<T>::nm, show(x).c_str(), show(y).c_str(), c.v->name.c_str(), show(got).c_str(), show(other).c_str()));
}
#define EXPECT(ok, law, got, other) expect<T>(c, ok, law, x, y, got, other)

template <class T> static void laws(const Calls<T> & c, T x, T y, Rng & r)
{
	auto & w		= mon::self();
	const bool det	= c.v->name.find("det") != std::string::npos;
	const bool ce	= c.v->name.find("ce") != std::string::npos;
	const T one = 1, zero = 0;
	// long double kernels of these configurations are the double ones at the rounded argument, so only the exact functions obey laws in long double
	const bool wide = std::is_same_v<T, long double> && (det || ce);
	const bool own	= det || ce || c.v->name.find("nb") != std::string::npos;
	// odd and even functions
	for (const char * n : { "sin", "tan", "cbrt", "asin", "atan", "trunc", "round", "rint", "nearbyint" })
	{
		if ((det || ce) && (n[0] == 'a')) continue; // no parity is promised of the inverse kernels: each sign rounds its own table entry
		T a = c.u(n, x), b = c.u(n, -x);
		EXPECT(same(a, -b), mon::fmt("%s(-x) = -%s(x)", n, n).c_str(), a, b);
	}
	for (const char * n : { "cos", "fabs", "abs" })
	{
		T a = c.u(n, x), b = c.u(n, -x);
		EXPECT(same(a, b), mon::fmt("%s(-x) = %s(x)", n, n).c_str(), a, b);
	}
	{
		T a = c.u("ceil", x), b = c.u("floor", -x);
		EXPECT(same(a, -b), "ceil(x) = -floor(-x)", a, b);
		T u = c.u("nextup", x), d = c.u("nextdown", -x);
		EXPECT(same(u, -d), "nextup(x) = -nextdown(-x)", u, d);
	}
	// ranges
	for (const char * n : { "sin", "cos" })
	{
		if (wide) break;
		T a = c.u(n, x);
		EXPECT(is_nan(a) ? is_nan(x) || is_inf(x) : std::fabs(a) <= 1, mon::fmt("|%s(x)| <= 1", n).c_str(), a, one);
	}
	if (!wide)
	{
		const T pi = (T)3.14159265358979323846264338327950288L, h = (T)1.57079632679489661923132169163975144L;
		T a = c.u("atan", x);
		EXPECT(is_nan(x) || std::fabs(a) <= h, "|atan(x)| <= pi/2", a, h);
		EXPECT(is_nan(x) || neg(a) == neg(x), "atan has the sign of its argument", a, x);
		if (std::fabs(x) <= 1)
		{
			a = c.u("acos", x);
			EXPECT(a >= 0 && a <= pi, "0 <= acos(x) <= pi", a, pi);
			a = c.u("asin", x);
			EXPECT(std::fabs(a) <= h && neg(a) == neg(x), "|asin(x)| <= pi/2 with the sign of x", a, h);
		}
		a = c.u("exp", x);
		EXPECT(is_nan(x) || a >= 0, "exp(x) >= 0", a, zero);
		EXPECT(is_nan(x) || (x > 0 ? a >= 1 : a <= 1), "exp(x) >= 1 iff x >= 0", a, one);
		a = c.u("exp2", x);
		EXPECT(is_nan(x) || (a >= 0 && (x > 0 ? a >= 1 : a <= 1)), "exp2(x) >= 1 iff x >= 0", a, one);
		a = c.u("expm1", x);
		EXPECT(is_nan(x) || (a >= -1 && neg(a) == neg(x)), "expm1(x) >= -1 with the sign of x", a, -one);
		if (x >= 0)
		{
			a = c.u("log", x);
			EXPECT(x > 1 ? a > 0 : x < 1 ? a < 0 : same(a, zero), "log(x) has the sign of x - 1", a, zero);
			a = c.u("log2", x);
			EXPECT(x > 1 ? a > 0 : x < 1 ? a < 0 : same(a, zero), "log2(x) has the sign of x - 1", a, zero);
			a = c.u("log10", x);
			EXPECT(x > 1 ? a > 0 : x < 1 ? a < 0 : same(a, zero), "log10(x) has the sign of x - 1", a, zero);
			a = c.u("sqrt", x);
			EXPECT(neg(a) == neg(x) && (x > 1 ? a <= x : a >= x), "sqrt(x) lies between x and 1", a, x);
		}
		if (x > -1)
		{
			a = c.u("log1p", x);
			EXPECT(neg(a) == neg(x), "log1p(x) has the sign of x", a, x);
		}
		a = c.u("cbrt", x);
		EXPECT(is_nan(x) || (neg(a) == neg(x) && (std::fabs(x) > 1 ? std::fabs(a) <= std::fabs(x) : std::fabs(a) >= std::fabs(x))), "cbrt(x) lies between x and 1", a, x);
	}
	// two arguments
	{
		T a = c.b("atan2", y, x), b = c.b("atan2", -y, x);
		if (!det && !ce) EXPECT(same(a, -b), "atan2(-y, x) = -atan2(y, x)", a, b);
		a = c.b("hypot", x, y), b = c.b("hypot", y, x);
		EXPECT(same(a, b), "hypot(x, y) = hypot(y, x)", a, b);
		b = c.b("hypot", -x, y);
		EXPECT(same(a, b), "hypot(-x, y) = hypot(x, y)", a, b);
		EXPECT(wide || is_nan(a) || (a >= std::fabs(x) || is_nan(x)), "hypot(x, y) >= |x|", a, std::fabs(x));
		b = c.t("hypot3", x, y, zero);
		EXPECT(same(a, b), "hypot(x, y, 0) = hypot(x, y)", a, b);
		a = c.b("fmod", x, y), b = c.b("fmod", -x, y);
		EXPECT(same(a, -b), "fmod(-x, y) = -fmod(x, y)", a, b);
		b = c.b("fmod", x, -y);
		EXPECT(same(a, b), "fmod(x, -y) = fmod(x, y)", a, b);
		EXPECT(is_nan(a) || (std::fabs(a) < std::fabs(y) && std::fabs(a) <= std::fabs(x) && neg(a) == neg(x)), "|fmod(x, y)| < |y| with the sign of x", a, y);
		if (!is_nan(a) && !is_inf(y))
		{
			T q = c.b("remainder", x, y);
			EXPECT(std::fabs(q) <= std::fabs(y) / 2 || (std::fabs(y) < 4 * std::numeric_limits<T>::min() && std::fabs(q) <= std::fabs(y) - std::fabs(q)), "|remainder(x, y)| <= |y|/2", q, y);
			int qi = 0;
			T rq   = c.remquo(x, y, &qi);
			EXPECT(rq == q, "remquo(x, y) = remainder(x, y)", rq, q);
			// the remainders differ by nothing or by one divisor
			EXPECT(q == a || std::fabs(a) - std::fabs(y) == (neg(a) ? -q : q), "remainder(x, y) is fmod(x, y) or that less |y|", q, a);
			if (q != 0 && q != x && std::fabs(q) < std::fabs(y) / 2)
			{
				T q2 = c.b("remainder", -x, y);
				EXPECT(q2 == -q, "remainder(-x, y) = -remainder(x, y)", q, q2);
			}
			EXPECT((qi & 1) == (q == a ? 0 : 1) || std::fabs(x) >= std::fabs(y), "remquo counts no quotient for |x| < |y| but the one it rounds up to", (T)qi, a);
		}
		if (!is_nan(x) && !is_nan(y))
		{
			T m = c.b("fmax", x, y), n = c.b("fmin", x, y);
			EXPECT(m >= n && (m == x || m == y) && (n == x || n == y) && (m == x ? n == y : n == x), "fmax and fmin return both arguments", m, n);
			EXPECT(same(m, -c.b("fmin", -x, -y)) || m == 0, "fmax(x, y) = -fmin(-x, -y)", m, n);
			T d = c.b("fdim", x, y), e = c.b("fdim", y, x);
			EXPECT(d == 0 || e == 0, "fdim(x, y) or fdim(y, x) is zero", d, e);
			EXPECT((d > 0) == (x > y) , "fdim(x, y) > 0 iff x > y", d, x);
			EXPECT(c.z("isless", x, y) + c.z("isgreaterequal", x, y) == 1 && c.z("isgreater", x, y) == c.z("isless", y, x) && c.z("islessequal", x, y) == c.z("isgreaterequal", y, x) &&
					   c.z("islessgreater", x, y) == (c.z("isless", x, y) | c.z("isgreater", x, y)) && !c.z("isunordered", x, y),
				   "the comparisons are those of a total order", x, y);
		}
		else
			EXPECT(c.z("isunordered", x, y) && !c.z("isless", x, y) && !c.z("isgreater", x, y) && !c.z("islessequal", x, y) && !c.z("isgreaterequal", x, y) && !c.z("islessgreater", x, y), "a NaN is unordered", x, y);
		T cs = c.b("copysign", x, y);
		EXPECT(same(c.u("fabs", cs), c.u("fabs", x)) && neg(cs) == neg(y), "copysign(x, y) has the magnitude of x and the sign of y", cs, x);
		EXPECT(c.i("signbit", x) == (int)neg(x), "signbit(x) is the sign bit", x, y);
		EXPECT(c.i("isnan", x) + c.i("isinf", x) + c.i("isfinite", x) == 1, "a number is finite, infinite or NaN", x, y);
	}
	// powers
	if (!wide)
	{
		T p = c.b("pow", x, y), q;
		if (!is_nan(x) && !is_nan(y))
		{
			EXPECT(is_nan(p) ? x < 0 && !is_inf(x) && c.u("trunc", y) != y : x < 0 || x == 0 || !neg(p), "pow(x, y) of a positive base is positive", p, x);
			if (x >= 0 && !is_inf(y) && c.u("trunc", y) == y)
			{
				q			   = c.b("pow", -x, y);
				const bool odd = std::fabs(y) < std::ldexp(1.0L, FT<T>::prec) && c.b("fmod", y, 2) != 0;
				if (!same(p, odd ? -q : q) && std::is_same_v<T, long double> && is_inf(x) && !own)
					mon::violation("", "powl(-inf, n) through the C library", "powl-infinite-base-libm");
				else
					EXPECT(same(p, odd ? -q : q), "pow(-x, n) = +-pow(x, n)", p, q);
			}
			const bool bare = std::is_same_v<T, long double>;
			if (x > 1 && y > 1) EXPECT(bare || p >= x, "pow(x, y) >= x for x, y > 1", p, x);
			if (x > 0 && x < 1 && y > 0) EXPECT(p <= 1, "pow(x, y) <= 1 for x < 1, y > 0", p, x);
		}
		EXPECT(c.b("pow", x, zero) == 1 && c.b("pow", one, y) == 1, "pow(x, 0) = pow(1, y) = 1", p, x);
		if (!std::is_same_v<T, long double> || !own) { EXPECT(same(c.b("pow", x, one), x) || (is_nan(x)), "pow(x, 1) = x", c.b("pow", x, one), x); }
	}
	// taking apart and putting together
	if (!is_nan(x) && !is_inf(x))
	{
		int e = 0;
		T m	  = c.frexp(x, &e);
		T a	  = c.ui("ldexp", m, e);
		EXPECT(same(a, x) && (x == 0 ? m == 0 && e == 0 : std::fabs(m) >= (T)0.5 && std::fabs(m) < 1), "ldexp(frexp(x)) = x with the mantissa in [1/2, 1)", a, x);
		int e2 = 0;
		T m2   = ((T(*)(T, int *))c.f("frexp_ref")->fn)(x, &e2);
		EXPECT(same(m, m2) && e == e2, "the two frexp overloads agree", m, m2);
		T p = 0;
		T f = c.modf(x, &p);
		EXPECT(p + f == x && neg(p) == neg(x) && neg(f) == neg(x) && std::fabs(f) < 1 && same(c.u("trunc", x), p), "modf splits x into trunc(x) and a fraction of its sign", f, p);
		if (x != 0)
		{
			EXPECT(c.i("ilogb", x) == e - 1 && c.u("logb", x) == (T)(e - 1), "ilogb(x) = logb(x) = frexp exponent - 1", c.u("logb", x), (T)e);
		}
		T fl = c.u("floor", x), cl = c.u("ceil", x);
		EXPECT(fl <= x && x <= cl && (fl == x) == (cl == x) && (fl == x || cl - fl == 1), "floor(x) <= x <= ceil(x) <= floor(x) + 1", fl, cl);
		T rd = c.u("round", x);
		EXPECT(rd == fl || rd == cl, "round(x) is floor(x) or ceil(x)", rd, x);
		EXPECT(std::fabs(rd - x) <= (T)0.5, "|round(x) - x| <= 1/2", rd, x);
		T ri = c.u("rint", x);
		EXPECT((ri == fl || ri == cl) && std::fabs(ri - x) <= (T)0.5 && same(c.u("nearbyint", x), ri), "rint(x) = nearbyint(x) is the nearest integer", ri, x);
		if (std::fabs(ri - x) == (T)0.5) EXPECT(c.b("fmod", ri, 2) == 0, "rint breaks ties to even", ri, x);
		// neighbours
		T u = c.u("nextup", x), d = c.u("nextdown", x);
		EXPECT(d < x && x < u, "nextdown(x) < x < nextup(x)", d, u);
		if (!is_inf(u)) EXPECT(c.u("nextdown", u) == x, "nextdown(nextup(x)) = x", c.u("nextdown", u), x);
		if (!is_nan(y))
		{
			T n = c.b("nextafter", x, y);
			EXPECT(y > x ? same(n, u) || (n == 0 && u == 0) : y < x ? same(n, d) || (n == 0 && d == 0) : n == y, "nextafter(x, y) is nextup(x) or nextdown(x)", n, x);
			T nt = ((T(*)(T, long double))c.f("nexttoward")->fn)(x, (long double)y);
			EXPECT(same(n, nt) || n == nt, "nexttoward(x, y) = nextafter(x, y)", n, nt);
		}
		const int k = r.range(-3 * FT<T>::emax, 3 * FT<T>::emax);
		a = c.ui("ldexp", x, k);
		EXPECT(same(a, c.ui("scalbn", x, k)) && same(a, c.ul("scalbln", x, k)), "ldexp = scalbn = scalbln", a, (T)k);
		if (x != 0 && std::fabs(a) > std::numeric_limits<T>::min() && !is_inf(a)) EXPECT(same(c.ui("ldexp", a, -k), x), "ldexp(ldexp(x, k), -k) = x", c.ui("ldexp", a, -k), x);
		// multiply-add
		T z = pick<T>(r);
		T g = c.t("fma", x, y, z);
		EXPECT(same(g, c.t("fma", y, x, z)), "fma(x, y, z) = fma(y, x, z)", g, z);
		if (g != 0) EXPECT(same(g, -c.t("fma", -x, y, -z)), "fma(-x, y, -z) = -fma(x, y, z)", g, z);
		EXPECT(same(g, c.t("fma", -x, -y, z)), "fma(-x, -y, z) = fma(x, y, z)", g, z);
		T h = c.t("fma", x, one, zero);
		EXPECT(h == x, "fma(x, 1, 0) = x", h, x);
		if (std::fabs(x) > std::numeric_limits<T>::min() * 4)
		{
			const int s = r.range(0, 3); // scaling by two commutes with rounding away from the ends
			T g2 = c.t("fma", c.ui("ldexp", x, s), c.ui("ldexp", y, -s), z);
			if (std::fabs(x) < std::numeric_limits<T>::max() / 16 && (std::fabs(y) > std::numeric_limits<T>::min() * 16)) EXPECT(same(g, g2), "fma(x*2^k, y/2^k, z) = fma(x, y, z)", g, g2);
		}
	}
	w.ev++;
}

template <class T> static void sweep(std::uint64_t chunks, int per)
{
	mon::parallel(chunks, [&](std::uint64_t ch) {
		Rng r(mon::mix(mon::args.seed * 977 + ch) ^ sizeof(T));
		for (int i = 0; i < per; ++i)
		{
			T x = pick<T>(r), y = pick<T>(r);
			switch (r.range(0, 6))
			{
			case 0: y = step(x, r.range(-2, 2)); break;
			case 1: y = x * (T)r.range(-9, 9); break;
			case 2: y = (T)r.range(-30, 30); break;
			case 3: y = (T)std::ldexp((long double)x, r.range(-FT<T>::prec - 3, FT<T>::prec + 3)); break;
			default: break;
			}
			if (is_snan(y)) y = 1;
			for (auto & v : V)
			{
				mon::about("laws", v.name.c_str(), 0, x, y);
				Rng q(r.s[0]);
				laws<T>(Calls<T>{ &v }, x, y, q);
			}
			r.next();
			mon::cover(mon::mix((std::uint64_t)(bits(x) >> (FT<T>::total - 14))) * 31 + mon::mix((std::uint64_t)(bits(y) >> (FT<T>::total - 14))) + sizeof(T));
			if (i == 0 && ch % 37 == 0) mon::sample(mon::fmt("%s: laws at %s, %s", FT<T>::nm, show(x).c_str(), show(y).c_str()));
		}
	});
}

int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	for (auto & p : mon::args.so) V.push_back(load_variant(p));
	if (!mon::args.dict.empty())
	{
		std::ifstream f(mon::args.dict);
		std::string w;
		while (f >> w) DICT.push_back(std::strtoull(w.c_str(), nullptr, 16));
	}
	const double b = mon::args.budget > 0 ? mon::args.budget : 1;
	sweep<float>(256, (int)(40 * b));
	sweep<double>(256, (int)(40 * b));
	sweep<long double>(256, (int)(30 * b));
	mon::stat_add("configurations", (double)V.size());
	return mon::finish();
}
