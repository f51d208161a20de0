// Accuracy monitor: every result of a transcendental function is compared, in units in the last place, with
// the exact value. A long double libm evaluation screens; MPFR judges whatever is near the bound, every special
// value, and a random share of everything else.
#include "core.hpp"
#include "mon.hpp"

struct Spec
{
	const char * fn;
	const char * props;
	int arity;
	// Bounds in ULP per type (float, double, long double), nearest and directed.
	double nf, nd, nl, df, dd;
	// Bounds on the constant-evaluation path (nearest only), 0: same as nf/nd.
};
// clang-format off
static const Spec kSpecs[] = {
	//  fn      prop  ar   nf    nd    nl   df    dd
	{ "pow",    "A01", 2, 1.25, 0.6,  4.0, 3.0,  1.25 }, // double: correctly rounded on ccmath's own path, see exact_check
	{ "exp",    "A02", 1, 1.25, 0.75, 2.0, 2.5,  1.5 },
	{ "exp2",   "A02", 1, 1.25, 0.75, 2.0, 2.5,  1.5 },
	{ "expm1",  "A02", 1, 2.5,  2.5,  4.0, 5.0,  5.5 },
	{ "log",    "A03", 1, 1.0,  0.75, 2.0, 2.0,  1.5 },
	{ "log2",   "A03", 1, 1.0,  0.75, 2.0, 2.0,  1.5 },
	{ "log10",  "A03", 1, 2.25, 2.25, 2.0, 4.0,  4.0 },
	{ "log1p",  "A03", 1, 2.75, 2.75, 4.0, 4.0,  4.0 },
	{ "sin",    "A04", 1, 4.5,  4.5,  4.0, 9.0,  9.0 },
	{ "cos",    "A04", 1, 4.5,  4.5,  4.0, 9.0,  9.0 },
	{ "tan",    "A04", 1, 5.5,  5.5,  4.0, 9.0,  9.0 },
	{ "asin",   "A05", 1, 5.0,  5.0,  4.0, 8.0,  8.0 },
	{ "acos",   "A05", 1, 2.0,  2.0,  4.0, 4.0,  4.0 },
	{ "atan",   "A05", 1, 1.5,  5.0,  4.0, 2.5,  8.0 },
	{ "atan2",  "A05", 2, 2.5,  5.5,  4.0, 5.0,  9.0 },
	{ "cbrt",   "A06", 1, 1.75, 4.0,  4.0, 3.0,  5.0 },
	{ "hypot",  "A06", 2, 2.5,  2.5,  4.0, 5.0,  5.0 },
	{ "sqrt",   "A06", 1, 0.5,  0.5,  0.5, 1.0,  1.0 },
	{ "tgamma", "A07", 1, 8.0,  256., 8.0, 12.,  512. },
	{ "lgamma", "A07", 1, 8.0,  64.0, 8.0, 12.,  128. },
};
// clang-format on

static std::vector<Variant> V;
static std::vector<std::uint64_t> DICT; // bit patterns (as doubles) of the numeric literals in the headers

using L1 = long double (*)(long double);
using L2 = long double (*)(long double, long double);
static L1 libm1(const std::string & n)
{
	static const std::map<std::string, L1> m = { { "exp", ::expl }, { "exp2", ::exp2l }, { "expm1", ::expm1l }, { "log", ::logl }, { "log2", ::log2l }, { "log10", ::log10l },
		{ "log1p", ::log1pl }, { "sin", ::sinl }, { "cos", ::cosl }, { "tan", ::tanl }, { "asin", ::asinl }, { "acos", ::acosl }, { "atan", ::atanl }, { "cbrt", ::cbrtl },
		{ "sqrt", ::sqrtl }, { "tgamma", ::tgammal }, { "lgamma", [](long double x) { int sg; return ::lgammal_r(x, &sg); } } };
	auto it = m.find(n);
	return it == m.end() ? nullptr : it->second;
}
static L2 libm2(const std::string & n)
{
	static const std::map<std::string, L2> m = { { "pow", ::powl }, { "atan2", ::atan2l }, { "hypot", ::hypotl } };
	auto it = m.find(n);
	return it == m.end() ? nullptr : it->second;
}

template <class T> static double bound(const Spec & s, int mode)
{
	if (mode == FE_TONEAREST) return std::is_same_v<T, float> ? s.nf : std::is_same_v<T, double> ? s.nd : s.nl;
	return std::is_same_v<T, float> ? s.df : std::is_same_v<T, double> ? s.dd : 0;
}

// The error of got against the value in ref, in ULP of T; HUGE_VAL when the result is of the wrong kind.
template <class T> static double judge(T got, mpfr_ptr ref, int mode)
{
	if (mpfr_nan_p(ref)) return is_nan(got) ? 0 : HUGE_VAL;
	if (is_nan(got)) return HUGE_VAL;
	const bool rneg = mpfr_signbit(ref);
	if (mpfr_inf_p(ref)) return (is_inf(got) && neg(got) == rneg) ? 0 : HUGE_VAL;
	if (mpfr_zero_p(ref)) return (got == 0 && neg(got) == rneg) ? 0 : (got == 0 ? HUGE_VAL : ulp_err(got, ref));
	if (got == 0 && neg(got) != rneg && mode == FE_TONEAREST) return HUGE_VAL;
	static thread_local Mp lim(80), g(80), d(320);
	if (mpfr_get_exp(ref) > FT<T>::emax + 2 || (mpfr_get_exp(ref) > FT<T>::emax + 1 && (is_inf(got) || mode != FE_TONEAREST)))
	{ // beyond every finite value
		if (neg(got) != rneg) return HUGE_VAL;
		if (is_inf(got)) return 0;
		// rounding away from infinity the largest finite values are right
		if (mode != FE_TONEAREST && std::fabs(got) >= step(std::numeric_limits<T>::max(), -2)) return 0;
		return HUGE_VAL;
	}
	return ulp_err(got, ref);
}

// The high-precision value of fn at the arguments.
template <class T> static void reference(const Spec & s, const std::string & fn, T x, T y, mpfr_ptr ref)
{
	static thread_local Mp a(64), b(64);
	mset(a, x);
	mpfr_clear_flags();
	if (fn == "tgamma" && std::fabs((long double)x) > 1800 && !is_inf(x))
	{ // far beyond every format; MPFR would spend milliseconds on the value
		if (x > 0) mpfr_set_si_2exp(ref, 1, 1000000, MPFR_RNDN);
		else if (x == std::floor(x)) mpfr_set_nan(ref);
		else
			mpfr_set_si_2exp(ref, std::fmod(std::floor(x), (T)2) == 0 ? 1 : -1, -1000000, MPFR_RNDN);
		return;
	}
	if (s.arity == 1) mp_unary(fn)(ref, a, MPFR_RNDN);
	else
	{
		mset(b, y);
		mp_binary(fn)(ref, a, b, MPFR_RNDN);
	}
	if (mpfr_overflow_p() && mpfr_inf_p(ref))
	{ // beyond MPFR's own range: any value far beyond T's will do
		int sg = mpfr_sgn(ref);
		mpfr_set_si_2exp(ref, sg, 1000000, MPFR_RNDN);
	}
	if (mpfr_underflow_p() && mpfr_zero_p(ref))
	{
		bool ng = mpfr_signbit(ref);
		mpfr_set_si_2exp(ref, ng ? -1 : 1, -1000000, MPFR_RNDN);
	}
	if (fn == "lgamma" && mpfr_nan_p(ref) && !is_nan(x)) mpfr_set_inf(ref, 1); // lgamma(-inf), poles: +inf in C
	if (fn == "lgamma" && x == 0) mpfr_set_inf(ref, 1);
}

// Deviations the property's statement allows (functions with an absolute rather than a relative guarantee).
template <class T> static bool allowed(const std::string & fn, T x, T y, T got, mpfr_ptr ref, int mode, double err)
{
	(void)y;
	(void)err;
	static thread_local Mp d(256), t(80);
	if (mpfr_nan_p(ref) || is_nan(got) || mpfr_inf_p(ref) || is_inf(got)) return false;
	if (fn == "lgamma")
	{ // absolute near its zeros and for negative arguments: |error| <= 2^-k max(1, |value|)
		mset(t, got);
		mpfr_sub(d, t, ref, MPFR_RNDN);
		mpfr_abs(d, d, MPFR_RNDN);
		mpfr_abs(t, ref, MPFR_RNDN);
		if (mpfr_cmp_ui(t, 1) < 0) mpfr_set_ui(t, 1, MPFR_RNDN);
		mpfr_mul_2si(t, t, (std::is_same_v<T, float> ? -21 : x > 0 ? -48 : -46) + (mode != FE_TONEAREST), MPFR_RNDN);
		return mpfr_cmp(d, t) <= 0;
	}
	return false;
}

template <class T> static std::string region(T x)
{
	if (is_nan(x)) return is_snan(x) ? "snan" : "nan";
	if (is_inf(x)) return neg(x) ? "-inf" : "+inf";
	if (x == 0) return neg(x) ? "-0" : "+0";
	int e;
	std::frexp((long double)x, &e);
	return mon::fmt("%c2^%d", neg(x) ? '-' : '+', e >= 0 ? e / 8 * 8 : -((-e) / 8 * 8));
}

template <class T> struct Site
{
	const Spec * s;
	std::string fn;
	const Variant * v;
	const CcmvFn * f;
	bool ce;	   // constant-evaluation path
	bool own;	   // runs ccmath's own kernel, never the compiler's builtin
};

// The bound at x: the gamma functions lose accuracy with the size of the argument only, and their float kernels hardly any.
template <class T> static double bound_at(const Site<T> & st, int mode, T x)
{
	const Spec & s	= *st.s;
	const double b	= bound<T>(s, mode);
	const bool near = mode == FE_TONEAREST;
	if (s.props[2] != '7' || std::is_same_v<T, long double>) return b;
	if (std::is_same_v<T, float>) return st.own ? (near ? 1.0 : 2.0) : b;
	const double a = std::min(std::fabs((double)x), 200.0);
	if (s.fn[0] == 't') return std::min(b, x >= 0 ? (near ? 14 + 0.25 * a : 16 + 1.6 * a) : (near ? 14 + 1.8 * a : 20 + 2.6 * a));
	return x > 0 ? (near ? 16.0 : 32.0) : b;
}

template <class T> static T call(const Site<T> & st, T x, T y, int mode)
{
	std::fesetround(mode);
	T r = st.s->arity == 1 ? ((T(*)(T))st.f->fn)(x) : ((T(*)(T, T))st.f->fn)(x, y);
	std::fesetround(FE_TONEAREST);
	return r;
}

static thread_local std::map<std::string, double> * tlWorst = nullptr;

template <class T> static void report(const Site<T> & st, int mode, T x, T y, T got, double err, double b, mpfr_ptr ref)
{
	char rb[80];
	mpfr_snprintf(rb, sizeof rb, "%.25Ra", ref);
	std::string a = show(x);
	if (st.s->arity == 2) a += ", " + show(y);
	mon::violation(mon::fmt("%s/%s/%s/%s/%s", st.fn.c_str(), FT<T>::nm, st.v->name.c_str(), mode_name(mode), region(x).c_str()),
				   mon::fmt("%s<%s>(%s) = %s in %s on variant %s; exact value %s; error %.4g ULP, bound %.3g", st.fn.c_str(), FT<T>::nm, a.c_str(), show(got).c_str(), mode_name(mode),
							st.v->name.c_str(), rb, err, b));
}

// Judges one result with MPFR.
template <class T> static void exact_check(const Site<T> & st, int mode, T x, T y, T got, mpfr_ptr ref)
{
	double b = bound_at(st, mode, x);
	mon::self().ck++;
	if (st.fn == "pow" && std::is_same_v<T, double> && mode == FE_TONEAREST && st.own) b = 0.5;
	double err = judge(got, ref, mode);
	if (st.fn == "pow" && std::is_same_v<T, double> && st.own && std::isfinite(err))
	{
		static thread_local Mp px(64), py(64);
		mset(px, x);
		mset(py, y);
		if (mode == FE_TONEAREST)
		{ // correctly rounded, but for results within 2^-40 ULP of a midpoint that are not exactly one
			double want = (double)mp_round<double>([&](mpfr_ptr r, mpfr_rnd_t rnd) { return mpfr_pow(r, px, py, rnd); }, mode);
			if (same((double)got, want)) err = 0;
			else
			{
				static thread_local Mp r2(200);
				bool exact = mpfr_pow(r2, px, py, MPFR_RNDN) == 0;
				if (!exact && err <= 0.5 + 0x1p-40)
				{
					mon::stat_add("pow_double_within_2^-40_of_midpoint_and_misrounded", 1);
					return;
				}
				err = std::max(err, 0.500001);
			}
		}
		else if (err > 0 && err <= 1.25)
		{
			mpfr_t e;
			mpfr_init2(e, 53);
			bool exact = mpfr_pow(e, px, py, MPFR_RNDN) == 0;
			mpfr_clear(e);
			if (exact && mpfr_get_exp(ref) > -1021) mon::stat_add("pow_double_exact_case_inexact_in_directed", 1);
		}
	}
	if (err <= b)
	{
		if (tlWorst)
		{
			auto & w = (*tlWorst)[mon::fmt("worst_ulp/%s/%s/%s/%s", st.fn.c_str(), FT<T>::nm, st.v->name.c_str(), mode == FE_TONEAREST ? "nearest" : "directed")];
			if (err > w) w = err;
		}
		return;
	}
	if (allowed(st.fn, x, y, got, ref, mode, err)) return;
	if (st.fn == "pow" && std::is_same_v<T, long double> && (st.v->name.find("nb") != std::string::npos || st.ce) && std::isfinite(err))
	{ // listed finding: ccmath's own 80-bit kernel keeps one limb of log2(e), which costs 0.35 |y dx| ULP
		const long double dx = std::min(0x1p-7L, std::fabs((long double)std::fabs(x) - 1));
		if (err <= 4 + 0.75L * std::fabs((long double)y) * dx)
		{
			mon::violation("", mon::fmt("pow<long double>(%s, %s) = %s on variant %s is off by %.4g ULP", show(x).c_str(), show(y).c_str(), show(got).c_str(), st.v->name.c_str(), err), "powl-own-kernel-large-exponent");
			return;
		}
	}
	if (st.fn == "pow" && std::is_same_v<T, long double> && is_inf(x) && x < 0 && std::fabs((long double)y) == 0x1p63L)
	{ // listed finding: the C library's powl
		mon::violation("", mon::fmt("pow<long double>(%s, %s) = %s on variant %s", show(x).c_str(), show(y).c_str(), show(got).c_str(), st.v->name.c_str()), "powl-infinite-base-libm");
		return;
	}
	report(st, mode, x, y, got, err, b, ref);
}

template <class T> static int exp_bucket(T x)
{
	if constexpr (std::is_same_v<T, float>) return (int)(bits(x) >> 23);
	else if constexpr (std::is_same_v<T, double>)
		return (int)(bits(x) >> 52);
	else
		return (int)(bits(x) >> 64);
}

// One input through every site of a function, type and mode.
template <class T> static void one(const std::vector<Site<T>> & sites, int nmodes, T x, T y, L1 l1, L2 l2, bool force_mp, int cls)
{
	const Spec & s		  = *sites[0].s;
	const std::string & fn = sites[0].fn;
	// screening value
	long double rl		= 0;
	bool screened		= false;
	if constexpr (!std::is_same_v<T, long double>)
	{
		if (!force_mp && (l1 || l2))
		{
			rl		 = l1 ? l1(x) : l2(x, y);
			screened = true;
		}
	}
	const long double tmax = std::is_same_v<T, long double> ? 0 : (long double)std::numeric_limits<T>::max();
	// Whether the screening value already settles the result.
	auto plain = [&](const Site<T> & st, T got, int mode, long double scale) -> bool {
		if (rl != rl) return is_nan(got);
		if (is_nan(got)) return false;
		const long double ab = std::fabs(rl);
		if (ab > 4 * tmax) return neg(got) == std::signbit(rl) && (is_inf(got) || (mode != FE_TONEAREST && !is_inf(x) && !is_inf(y) && x != 0 && std::fabs(got) == std::numeric_limits<T>::max()));
		if (ab > tmax / 2 || is_inf(got)) return false;
		if (got == 0 || rl == 0) return got == 0 && rl == 0 && neg(got) == std::signbit(rl);
		const long double d = std::fabs((long double)got - rl) * scale;
		if (st.own && std::is_same_v<T, double> && s.fn[0] == 'p') return mode == FE_TONEAREST ? d < 0.499L : d < 0.999L;
		return d <= 0.9L * (long double)bound_at(st, mode, x) - (std::is_same_v<T, double> ? 0.02L : 0.0001L);
	};
	static thread_local Mp ref(200);
	bool have = false;
	auto need = [&] {
		if (!have) reference(s, fn, x, y, ref);
		have = true;
	};
	long double scale = 0;
	if (screened && rl == rl && rl != 0 && std::fabs(rl) <= tmax)
	{
		int e;
		std::frexp(rl, &e);
		if (e < FT<T>::emin + 1) e = FT<T>::emin + 1;
		scale = std::ldexp(1.0L, FT<T>::prec - e);
	}
	static thread_local unsigned turn = 0;
	++turn;
	for (auto & st : sites)
	{
		if (st.fn.size() == 5 && st.fn == "gamma" && (turn & 3)) continue;
		for (int m = 0; m < nmodes; ++m)
		{
			if (m && st.ce) break;
			int mode = kModes[m];
			mon::about(st.f->name, st.v->name.c_str(), mode, x, y);
			T got = call(st, x, y, mode);
			mon::self().ev++;
			if (screened && plain(st, got, mode, scale)) continue;
			need();
			exact_check(st, mode, x, y, got, ref);
		}
	}
	mon::cover(mon::mix((std::uint64_t)hash_str(fn.c_str()) ^ (std::uint64_t)FT<T>::ch) + (std::uint64_t)exp_bucket(x) * 4099u + (std::uint64_t)(s.arity == 2 ? exp_bucket(y) : 0) * 17u + (std::uint64_t)cls * 131071u);
}

struct Dom
{
	double lo, hi;
};
template <class T> static Dom dom_of(const std::string & f)
{
	const bool F = std::is_same_v<T, float>, D = std::is_same_v<T, double>;
	if (f == "exp" || f == "expm1") return F ? Dom{ -104, 89 } : D ? Dom{ -746, 710 } : Dom{ -11400, 11357 };
	if (f == "exp2") return F ? Dom{ -150, 129 } : D ? Dom{ -1075, 1024 } : Dom{ -16446, 16384 };
	if (f == "asin" || f == "acos") return { -1.0000001, 1.0000001 };
	if (f == "log1p") return { -1, 1 };
	if (f == "tgamma") return F ? Dom{ -45, 36 } : Dom{ -185, 172 };
	if (f == "lgamma") return F ? Dom{ -60, 60 } : Dom{ -180, 180 };
	if (f == "atan") return { -8, 8 };
	if (f == "sin" || f == "cos" || f == "tan") return { -50, 50 };
	return { 0, 4 };
}

// Arguments at which the result crosses the overflow or underflow threshold of T, by bisection on the exact function.
template <class T> static std::vector<T> critical(const std::string & f)
{
	std::vector<T> r;
	MpU u = mp_unary(f);
	if (!u) return r;
	auto pt = [&](T x) {
		Mp a(64), v(128);
		mset(a, x);
		u(v, a, MPFR_RNDN);
		if (mpfr_nan_p(v)) return 99999.0;
		if (mpfr_inf_p(v)) return 88888.0;
		if (mpfr_zero_p(v)) return -88888.0;
		return (double)mpfr_get_exp(v);
	};
	const double lv[] = { (double)FT<T>::emax + 2, (double)FT<T>::emax + 1, (double)FT<T>::emin + 2, (double)FT<T>::emin + 1, (double)FT<T>::emin - FT<T>::prec + 2.0, (double)FT<T>::emin - FT<T>::prec + 1.0, 0, 1, 2 };
	for (double lvl : lv)
		for (int sgn = 0; sgn < 2; ++sgn)
		{
			T a = sgn ? -std::numeric_limits<T>::min() : std::numeric_limits<T>::min(), b = sgn ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::max();
			for (int k = 0; k < 40; ++k)
			{ // exponent bisection first, then values
				T m = sgn ? -std::sqrt(-a) * std::sqrt(-b) : std::sqrt(a) * std::sqrt(b);
				if (!(std::fabs(m) > std::fabs(a) && std::fabs(m) < std::fabs(b))) break;
				bool A = pt(a) < lvl, M = pt(m) < lvl;
				(A == M ? a : b) = m;
			}
			for (int k = 0; k < 80; ++k)
			{
				T m = a + (b - a) / 2;
				if (m == a || m == b) break;
				bool A = pt(a) < lvl, M = pt(m) < lvl;
				(A == M ? a : b) = m;
			}
			r.push_back(a);
			r.push_back(b);
		}
	return r;
}

template <class T> static std::vector<Site<T>> sites_of(const Spec & s)
{
	std::vector<Site<T>> r;
	for (int alias = 0; alias < 2; ++alias)
	for (auto & v : V)
	{
		if (alias && strcmp(s.fn, "tgamma")) break;
		const char * nm = alias ? "gamma" : s.fn; // the second spelling of the function
		const CcmvFn * f = v.get(nm, FT<T>::ch);
		if (!f) continue;
		bool ce	 = v.name.find("ce") != std::string::npos;
		bool det = v.name.find("det") != std::string::npos;
		if (std::is_same_v<T, long double> && (ce || det) && !(s.fn == std::string("pow") && v.name == "clangce")) continue; // evaluated in double precision there
		bool own = det || v.name == "clangce" || (s.fn[0] == 'p' && v.name.find("nb") != std::string::npos && v.name.find("avx") == std::string::npos); // contraction voids the certificate (POW_PROOF, A5)
		r.push_back({ &s, nm, &v, f, ce, own });
	}
	return r;
}

template <class T> static T pick(Rng & r, int c, const Dom & d, const std::vector<T> & crit)
{
	if (c == C_COUNT) // literals of the code under test
	{
		if (DICT.empty()) return (T)1;
		double x = from_bits<double>(DICT[r.below(DICT.size())]);
		T t		 = (T)x;
		int k	 = r.range(0, 7);
		if (k == 0) t = t * 2;
		if (k == 1) t = t / 2;
		t = step(t, (r.next() & 1) ? r.range(-2, 2) : r.range(-40, 40));
		return (r.next() & 3) ? t : -t;
	}
	if (c == C_COUNT + 1)
	{
		if (crit.empty()) return gen<T>(r, C_UNIT);
		return step(crit[r.below(crit.size())], (long)(r.next() >> r.range(44, 63)) * ((r.next() & 1) ? 1 : -1) / (std::is_same_v<T, long double> ? 4096 : 1));
	}
	return gen<T>(r, c, d.lo, d.hi);
}

template <class T> static void sweep_random(const Spec & s, double budget_s)
{
	auto sites = sites_of<T>(s);
	if (sites.empty()) return;
	const Dom d		 = dom_of<T>(s.fn);
	const auto crit	 = critical<T>(s.fn);
	L1 l1			 = libm1(s.fn);
	L2 l2			 = libm2(s.fn);
	const int nmodes = std::is_same_v<T, long double> ? 1 : 4;
	const std::uint64_t hs = hash_str(s.fn) * 3 + (unsigned char)FT<T>::ch;
	// special values: exhaustive over the list (pairs for binary functions)
	{
		auto & sp = specials<T>();
		mon::parallel(sp.size(), [&](std::uint64_t c) {
			std::map<std::string, double> worst;
			tlWorst = &worst;
			if (is_snan(sp[c])) {}
			else if (s.arity == 1) one<T>(sites, nmodes, sp[c], 0, l1, l2, true, 0);
			else
				for (T y : sp)
					if (!is_snan(y) && !(std::is_same_v<T, long double> && !strcmp(s.fn, "pow") && (is_inf(sp[c]) || is_inf(y)))) one<T>(sites, nmodes, sp[c], y, l1, l2, true, 0);
			for (auto & kv : worst) mon::stat_max(kv.first, kv.second);
			tlWorst = nullptr;
		});
	}
	const std::uint64_t chunks = (std::uint64_t)(budget_s * 8);
	mon::parallel(chunks, [&](std::uint64_t c) {
		std::map<std::string, double> worst;
		tlWorst = &worst;
		Rng r(mon::mix(mon::args.seed * 1000003 + hs) + c);
		auto t0 = std::chrono::steady_clock::now();
		(void)t0;
		const int per = std::is_same_v<T, long double> ? 1500 : (l1 || l2) ? 20000 : 800;
		for (int i = 0; i < per; ++i)
		{
			int cl = (int)r.below(C_COUNT + 2), cl2 = (int)r.below(C_COUNT + 2);
			T x = pick<T>(r, cl, d, crit), y = 0;
			if (s.arity == 2)
			{
				y = pick<T>(r, cl2, d, crit);
				int k = r.range(0, 15);
				if (!strcmp(s.fn, "pow"))
				{
					if (k < 9)
					{ // keep the result in range: y = t / log2|x|
						static const double kBase[] = { 2, 10, 10, 0.5, 4, 2.718281828459045, 100, 1000, 3, 8, 1.5, 0.1 };
						if (r.range(0, 7) == 0) x = (T)kBase[r.below(12)]; // bases with paths of their own
						x		 = std::fabs(x);
						double l = std::log2((double)x);
						if (l != 0 && l == l && std::fabs(l) < 1e6)
						{
							double tmax = FT<T>::emax + 2, tmin = FT<T>::emin - FT<T>::prec - 1;
							double u = (double)(r.next() >> 11) * 0x1p-53;
							double t = k < 5 ? tmin + (tmax - tmin) * u : k == 5 ? tmax - u : k == 6 ? FT<T>::emin + 1 - 3 * u : k == 7 ? tmin + 3 * u : (u - 0.5) * 0.1;
							y = (T)(t / l);
							if (k == 4)
							{ // integer exponents, half of the bases negative
								y = std::nearbyint(y);
								if (r.next() & 1) x = -x;
							}
							if (k == 3) y = std::nearbyint(y * 2) / 2;
						}
					}
					else if (k < 11)
					{ // exact and midpoint cases: x^n with few bits
						int n = r.range(2, 5);
						x	  = (T)(long long)(r.next() >> r.range(64 - (FT<T>::prec + 2) / n - 1, 63));
						x	  = (T)std::ldexp((double)x, r.range(-20, 20));
						y	  = (T)n;
						if (k == 10 && n < 5)
						{
							x = x * x;
							y = y / 2;
						}
						if (r.next() & 1) x = -x;
					}
					else if (k == 11) y = (T)r.range(-40, 40);
				}
				else if (k < 6)
					y = (T)std::ldexp((double)x, r.range(-3, 3)) * (T)(((r.next() >> 11) & 1) ? 1 : -1) * (T)(1 + (double)(r.next() >> 11) * 0x1p-53);
				else if (k < 8)
					y = x * (T)std::ldexp(1.0, r.range(-FT<T>::prec - 4, FT<T>::prec + 4));
			}
			if (is_snan(x) || is_snan(y)) continue;
			if (std::is_same_v<T, long double> && !strcmp(s.fn, "pow") && (is_inf(x) || is_inf(y))) continue; // powl of the C library mishandles some infinite bases, see A01
			if ((!strcmp(s.fn, "tgamma") || !strcmp(s.fn, "lgamma")) && std::fabs(x) > 1e17) x = (T)std::fmod((long double)x, 1e6L);
			one<T>(sites, nmodes, x, y, l1, l2, (i & 63) == 0 && (s.props[2] != '7' || std::fabs(x) < 1000), cl * 16 + (s.arity == 2 ? cl2 : 0));
			if (c == 0 && i < 2)
			{
				T g = call(sites[0], x, y, FE_TONEAREST);
				mon::sample(mon::fmt("%s<%s>(%s%s%s) = %s on %s", s.fn, FT<T>::nm, show(x).c_str(), s.arity == 2 ? ", " : "", s.arity == 2 ? show(y).c_str() : "", show(g).c_str(), sites[0].v->name.c_str()));
			}
		}
		for (auto & kv : worst) mon::stat_max(kv.first, kv.second);
		tlWorst = nullptr;
	});
}

// hypot of three arguments: the length, within the error of two two-argument calls.
template <class T> static void hypot3(double budget_s)
{
	using F3 = T (*)(T, T, T);
	struct S3
	{
		const Variant * v;
		F3 f;
		bool ce;
	};
	std::vector<S3> sites;
	for (auto & v : V)
		if (auto * f = v.get("hypot3", FT<T>::ch))
		{
			const bool ce = v.name.find("ce") != std::string::npos, det = v.name.find("det") != std::string::npos;
			if (std::is_same_v<T, long double> && (ce || det)) continue;
			sites.push_back({ &v, (F3)f->fn, ce });
		}
	if (sites.empty()) return;
	const int nmodes = std::is_same_v<T, long double> ? 1 : 4;
	mon::parallel((std::uint64_t)(budget_s * 8), [&](std::uint64_t c) {
		Rng r(mon::mix(mon::args.seed * 77003 + FT<T>::ch) + c);
		Mp a(64), ref(300), t(300);
		double worst = 0;
		for (int i = 0; i < 1500; ++i)
		{
			T x[3];
			for (auto & e : x) e = gen<T>(r, r.range(0, C_COUNT - 1), -4, 4);
			if (r.below(3))
			{ // comparable magnitudes, at any scale
				const T b = x[0];
				for (int k = 1; k < 3; ++k)
					if (r.below(4)) x[k] = b * (T)std::ldexp(1.0 + (double)(r.next() >> 11) * 0x1p-53, r.range(-3, 2)) * (T)((r.next() & 1) ? 1 : -1);
			}
			std::swap(x[0], x[r.below(3)]);
			std::swap(x[1], x[1 + r.below(2)]);
			if (is_snan(x[0]) || is_snan(x[1]) || is_snan(x[2])) continue;
			mset(a, x[0]);
			mpfr_abs(ref, a, MPFR_RNDN);
			for (int k = 1; k < 3; ++k)
			{
				mset(a, x[k]);
				mpfr_hypot(ref, ref, a, MPFR_RNDN);
			}
			for (T e : x)
				if (is_inf(e)) mpfr_set_inf(ref, 1);
			// with a NaN, whether two of the others overflow first is nobody's business
			if (mpfr_nan_p(ref) && std::max({ is_nan(x[0]) ? 0 : std::fabs(x[0]), is_nan(x[1]) ? 0 : std::fabs(x[1]), is_nan(x[2]) ? 0 : std::fabs(x[2]) }) > std::numeric_limits<T>::max() / 2) continue;
			for (auto & st : sites)
				for (int m = 0; m < nmodes; ++m)
				{
					if (m && st.ce) break;
					mon::about("hypot3", st.v->name.c_str(), kModes[m], x[0], x[1]);
					std::fesetround(kModes[m]);
					const T got = st.f(x[0], x[1], x[2]);
					std::fesetround(FE_TONEAREST);
					mon::self().ev++;
					mon::self().ck++;
					const double err = judge(got, ref, kModes[m]), b = std::is_same_v<T, long double> ? 6.0 : m ? 9.0 : 4.5;
					if (std::isfinite(err)) worst = std::max(worst, m ? err / 2 : err);
					if (err <= b) continue;
					char rb[80];
					mpfr_snprintf(rb, sizeof rb, "%.25Ra", (mpfr_ptr)ref);
					mon::violation(mon::fmt("hypot3/%s/%s/%s/%s", FT<T>::nm, st.v->name.c_str(), mode_name(kModes[m]), region(x[0]).c_str()),
								   mon::fmt("hypot<%s>(%s, %s, %s) = %s in %s on variant %s; exact value %s; error %.4g ULP, bound %.3g", FT<T>::nm, show(x[0]).c_str(), show(x[1]).c_str(), show(x[2]).c_str(),
											show(got).c_str(), mode_name(kModes[m]), st.v->name.c_str(), rb, err, b));
				}
			mon::cover(mon::mix(0x3a3 + FT<T>::ch) + (std::uint64_t)exp_bucket(x[0]) * 4099u + (std::uint64_t)exp_bucket(x[1]) * 67u + (std::uint64_t)exp_bucket(x[2]));
		}
		mon::stat_max(mon::fmt("worst_ulp/hypot3/%s", FT<T>::nm), worst);
	});
}

// pow(double) inputs whose exact result lies extremely close to a midpoint between doubles (or to a double): for a random (x, y),
// walk x over 2^15 neighbours along the tangent and keep the one whose result's fraction is closest to a rounding boundary.
static void hard_pow(std::uint64_t chunks)
{
	const Spec & s = kSpecs[0];
	auto sites	   = sites_of<double>(s);
	if (sites.empty()) return;
	mon::parallel(chunks, [&](std::uint64_t c) {
		Rng r(mon::mix(mon::args.seed * 7919 + 77) + c);
		std::map<std::string, double> worst;
		tlWorst = &worst;
		Mp X(64), Y(64), P(200), D(200), S(200);
		for (int i = 0; i < 200; ++i)
		{
			double x = std::fabs(gen<double>(r, (r.next() & 1) ? C_UNIT : C_TABLE)), y;
			double l = std::log2(x);
			if (!(std::fabs(l) > 1e-9)) continue;
			double u = (double)(r.next() >> 11) * 0x1p-53;
			y		 = ((u - 0.5) * ((r.next() & 1) ? 2000 : 20)) / l;
			mset(X, x);
			mset(Y, y);
			mpfr_pow(P, X, Y, MPFR_RNDN);
			if (mpfr_zero_p(P) || mpfr_inf_p(P) || mpfr_get_exp(P) < -1021 || mpfr_get_exp(P) > 1023) continue;
			// fraction f0 of P in half-ulps, slope per ulp(x): P*y/x*ulp(x)/ulp(P)
			long e = mpfr_get_exp(P);
			mpfr_mul_2si(S, P, 54 - e, MPFR_RNDN); // in half-ulps
			mpfr_frac(D, S, MPFR_RNDN);
			long double f0 = mpfr_get_ld(D, MPFR_RNDN);
			int ex;
			std::frexp(x, &ex);
			mpfr_mul(S, S, Y, MPFR_RNDN);
			mpfr_div(S, S, X, MPFR_RNDN);
			mpfr_mul_2si(S, S, ex - 53, MPFR_RNDN);
			mpfr_frac(S, S, MPFR_RNDN);
			long double slope = mpfr_get_ld(S, MPFR_RNDN);
			double best		  = 1;
			int bk			  = 0;
			long double f	  = f0;
			const int W		  = 1 << 14;
			for (int k = 0; k < W; ++k, f += slope)
			{
				long double q = f - std::rint(f);
				double dd	  = (double)std::fabs(q);
				if (dd < best)
				{
					best = dd;
					bk	 = k;
				}
			}
			double xs = step(x, bk);
			one<double>(sites, 4, xs, y, nullptr, nullptr, true, 40);
		}
		for (auto & kv : worst) mon::stat_max(kv.first, kv.second);
		tlWorst = nullptr;
	});
}

// Every 2^k-th (thorough: every) float through the unary function on the variants, screened with double libm.
using D1 = double (*)(double);
static D1 dlibm(const std::string & n)
{
	static const std::map<std::string, D1> m = { { "exp", ::exp }, { "exp2", ::exp2 }, { "expm1", ::expm1 }, { "log", ::log }, { "log2", ::log2 }, { "log10", ::log10 }, { "log1p", ::log1p },
		{ "sin", ::sin }, { "cos", ::cos }, { "tan", ::tan }, { "asin", ::asin }, { "acos", ::acos }, { "atan", ::atan }, { "cbrt", ::cbrt }, { "sqrt", ::sqrt }, { "tgamma", ::tgamma },
		{ "lgamma", [](double x) { int sg; return ::lgamma_r(x, &sg); } } };
	auto it = m.find(n);
	return it == m.end() ? nullptr : it->second;
}
static void sweep_float(const Spec & s, unsigned stride)
{
	D1 ref = dlibm(s.fn);
	if (!ref) return;
	auto sites = sites_of<float>(s);
	// the deterministic kernels and the default build; the others see random inputs
	std::vector<Site<float>> use;
	for (auto & st : sites)
		if (st.fn != "gamma" && (st.v->name == "gccdet" || st.v->name == "clangce")) use.push_back(st);
	if (use.empty()) return;
	std::uint32_t off = (std::uint32_t)(mon::mix(mon::args.seed) % stride);
	const std::uint64_t total = 1ull << 32, nch = 1024, per = total / nch;
	const double b = s.nf;
	mon::parallel(nch, [&](std::uint64_t c) {
		Mp rf(200);
		std::map<std::string, double> worst;
		tlWorst = &worst;
		for (std::uint64_t u = c * per + off; u < (c + 1) * per; u += stride)
		{
			float x = from_bits<float>((std::uint32_t)u);
			if (is_snan(x)) continue;
			double r = ref((double)x);
			bool ok	 = r == r && std::fabs(r) < 1.5e38 && std::fabs(r) > 3e-38;
			double sc = 0;
			if (ok)
			{
				std::uint64_t eb = (bits(r) >> 52) & 0x7ff;
				sc				 = from_bits<double>((std::uint64_t)(1023 + 23 - ((int)eb - 1023)) << 52);
			}
			for (auto & st : use)
			{
				mon::about(st.f->name, st.v->name.c_str(), 0, x, 0.0f);
				float g = ((float (*)(float))st.f->fn)(x);
				mon::self().ev++;
				if (ok && std::fabs((double)g - r) * sc <= b - 0.001) continue;
				if (!ok)
				{ // cheap agreement on the special results
					if (r != r && is_nan(g)) continue;
					if (r == 0 && g == 0 && neg(g) == neg(r)) continue;
					if (is_inf(r) && is_inf(g) && neg(r) == neg(g)) continue;
					if (std::fabs(r) <= 3e-38 && g == (float)r && neg(g) == neg((float)r) && r != 0) continue;
				}
				reference<float>(s, s.fn, x, 0, rf);
				exact_check<float>(st, FE_TONEAREST, x, 0, g, rf);
			}
		}
		for (std::uint32_t e = (std::uint32_t)((c * per) >> 23); e <= (std::uint32_t)(((c + 1) * per - 1) >> 23); ++e) mon::cover(hash_str(s.fn) * 31 + e * 64 + 7);
		for (auto & kv : worst) mon::stat_max(kv.first, kv.second);
		tlWorst = nullptr;
	});
}

int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	for (auto & p : mon::args.so) V.push_back(load_variant(p));
	if (!mon::args.dict.empty())
	{
		std::ifstream f(mon::args.dict);
		std::string w;
		while (f >> w) DICT.push_back(std::strtoull(w.c_str(), nullptr, 16));
	}
	double total = mon::args.budget > 0 ? mon::args.budget : 40;
	int nfn		 = 0;
	for (auto & s : kSpecs)
		if (mon::args.prop == s.props || mon::args.sub == s.fn) ++nfn;
	if (!nfn) return 2;
	for (auto & s : kSpecs)
	{
		if (mon::args.prop != s.props && mon::args.sub != s.fn) continue;
		double share = total / nfn;
		sweep_random<float>(s, share * 0.3 * 4);
		sweep_random<double>(s, share * 0.5 * 4);
		sweep_random<long double>(s, share * 0.2 * 4);
		if (!strcmp(s.fn, "hypot"))
		{
			hypot3<float>(share * 0.3 * 4);
			hypot3<double>(share * 0.3 * 4);
			hypot3<long double>(share * 0.3 * 4);
		}
		if (!strcmp(s.fn, "pow")) hard_pow((std::uint64_t)(total * 4));
		if (s.arity == 1) sweep_float(s, mon::args.thorough ? 1 : nfn > 3 ? 64 : 32);
		mon::stat_max(mon::fmt("elapsed_after/%s", s.fn), mon::elapsed());
	}
	return mon::finish();
}
