// Exactness monitor: functions whose result the standard determines completely. Every observed result is
// compared bit for bit with an independent oracle (the C library's correctly specified functions, MPFR for
// fma and sqrt, and bit-level definitions written here).
#include "core.hpp"
#include "mon.hpp"

static std::vector<Variant> V;
static std::vector<std::uint64_t> DICT;
static bool isCE(const Variant & v) { return v.name.find("ce") != std::string::npos; }
static bool isDet(const Variant & v) { return v.name.find("det") != std::string::npos; }

// ------------------------------------------------------------------ oracles
template <class T> using F1 = T (*)(T);
template <class T> using F2 = T (*)(T, T);
#define SEL(N) (std::is_same_v<T, float> ? (void *)(float (*)(float)) ::N##f : std::is_same_v<T, double> ? (void *)(double (*)(double)) ::N : (void *)(long double (*)(long double)) ::N##l)
#define SEL2(N) (std::is_same_v<T, float> ? (void *)(float (*)(float, float)) ::N##f : std::is_same_v<T, double> ? (void *)(double (*)(double, double)) ::N : (void *)(long double (*)(long double, long double)) ::N##l)

template <class T> static T o_nextup(T x)
{
	if (is_nan(x)) return x;
	if (x == 0) return std::numeric_limits<T>::denorm_min();
	if (is_inf(x)) return neg(x) ? std::numeric_limits<T>::lowest() : x;
	auto b = bits(x);
	if constexpr (std::is_same_v<T, long double>)
	{
		std::uint64_t m = (std::uint64_t)b;
		unsigned se		= (unsigned)(b >> 64), e = se & 0x7fff;
		if (!neg(x))
		{
			if (++m == 0)
			{
				m = 1ull << 63;
				++e;
			}
			else if (e == 0 && (m >> 63)) e = 1;
			if (e == 0x7fff) m = 1ull << 63;
		}
		else
		{
			if (m == (1ull << 63) && e > 0)
			{
				--e;
				m = e == 0 ? 0x7fffffffffffffffull : ~0ull;
			}
			else
				--m;
		}
		return from_bits<T>(((u128)((se & 0x8000) | e) << 64) | m);
	}
	else
		return from_bits<T>(neg(x) ? b - 1 : b + 1);
}
template <class T> static T o_nextdown(T x) { return -o_nextup((T)-x); }
template <class T> static T o_fmax(T a, T b)
{
	if (is_nan(a)) return b;
	if (is_nan(b)) return a;
	return a < b ? b : a;
}
template <class T> static T o_fmin(T a, T b)
{
	if (is_nan(a)) return b;
	if (is_nan(b)) return a;
	return b < a ? b : a;
}
template <class T> static T o_sqrt(T x, int mode)
{
	if (is_nan(x) || x == 0 || (is_inf(x) && !neg(x))) return x;
	if (x < 0) return qnan<T>();
	static thread_local Mp a(64);
	mset(a, x);
	return mp_round<T>([&](mpfr_ptr r, mpfr_rnd_t rnd) { return mpfr_sqrt(r, a, rnd); }, mode);
}
template <class T> static T o_fma(T x, T y, T z, int mode)
{
	if (is_nan(x) || is_nan(y) || is_nan(z)) return qnan<T>();
	if ((is_inf(x) && y == 0) || (is_inf(y) && x == 0)) return qnan<T>();
	const bool pn = neg(x) != neg(y);
	if (is_inf(x) || is_inf(y))
	{
		if (is_inf(z) && neg(z) != pn) return qnan<T>();
		return pn ? -inf<T>() : inf<T>();
	}
	if (is_inf(z)) return z;
	static thread_local Mp a(64), b(64), c(64);
	if (x == 0 || y == 0)
	{
		if (z != 0) return z;
		if (pn == neg(z)) return z;
		return mode == FE_DOWNWARD ? (T)-0.0 : (T)0;
	}
	mset(a, x);
	mset(b, y);
	mset(c, z);
	return mp_round<T>([&](mpfr_ptr r, mpfr_rnd_t rnd) { return mpfr_fma(r, a, b, c, rnd); }, mode);
}

// ------------------------------------------------------------------ reporting
template <class T> static std::string kind(T x)
{
	if (is_nan(x)) return is_snan(x) ? "snan" : "nan";
	if (is_inf(x)) return neg(x) ? "-inf" : "+inf";
	if (x == 0) return neg(x) ? "-0" : "+0";
	std::string s = neg(x) ? "-" : "+";
	if (std::fabs(x) < std::numeric_limits<T>::min()) return s + "sub";
	if (std::fabs(x) < 1) return s + "small";
	if (std::fabs(x) < (T)1 / std::numeric_limits<T>::epsilon()) return s + "mid";
	return s + "big";
}
template <class T> static void bad(const char * fn, const Variant & v, int mode, const std::string & k, const std::string & args, const std::string & got, const std::string & want)
{
	mon::violation(mon::fmt("%s/%s/%s/%s/%s", fn, FT<T>::nm, v.name.c_str(), mode_name(mode), k.c_str()),
				   mon::fmt("%s<%s>(%s) = %s in %s on variant %s, required %s", fn, FT<T>::nm, args.c_str(), got.c_str(), mode_name(mode), v.name.c_str(), want.c_str()));
}

struct ModeScope
{
	explicit ModeScope(int m) { std::fesetround(m); }
	~ModeScope() { std::fesetround(FE_TONEAREST); }
};

// Deterministic mode evaluates long double in double precision; its long double sites have their own check.
template <class T> static bool skip(const Variant & v, bool exact_ld)
{ return std::is_same_v<T, long double> && isDet(v) && !exact_ld; }

// ------------------------------------------------------------------ generation
template <class T> static T pick(Rng & r)
{
	int c = (int)r.below(C_COUNT + 3);
	if (c == C_COUNT && !DICT.empty())
	{
		T t = (T)from_bits<double>(DICT[r.below(DICT.size())]);
		t	= step(t, r.range(-2, 2));
		return (r.next() & 3) ? t : -t;
	}
	if (c >= C_COUNT)
	{ // integers and halves of every magnitude, and their neighbours
		int e = r.range(-2, FT<T>::prec + 3);
		std::uint64_t f = r.next();
		if (r.next() & 1) f = e >= 1 ? f & (~0ull << (64 - (e > 63 ? 63 : e))) : 0;
		if (r.next() & 1) f |= e >= 0 && e < 63 ? 1ull << (63 - e) : 0;
		T x = make<T>(r.next() & 1, e, f);
		return step(x, r.range(-1, 1));
	}
	return gen<T>(r, c, -4, 4);
}
template <class T> static T pick2(Rng & r, T x)
{ // related to x
	if (is_nan(x) || is_inf(x)) return pick<T>(r);
	switch (r.range(0, 9))
	{
	case 0: return x;
	case 1: return -x;
	case 2: return step(x, r.range(-3, 3));
	case 3: return -step(x, r.range(-3, 3));
	case 4: return (T)std::ldexp((long double)x, r.range(-FT<T>::prec - 3, FT<T>::prec + 3));
	case 5: return x / (T)r.range(1, 40);
	case 6: return x * (T)r.range(1, 40) / 2;
	case 7: return step((T)std::ldexp((long double)x, r.range(-30, 30)), r.range(-3, 3));
	default: return pick<T>(r);
	}
}

template <class T> static int eb(T x) { return (int)(bits(x) >> (FT<T>::prec == 64 ? 64 : FT<T>::prec - 1)); }
template <class T> static void cov(const char * fn, T x, T y = 0, int extra = 0)
{ mon::cover(hash_str(fn) * 7 + FT<T>::ch + (std::uint64_t)eb(x) * 4099u + (std::uint64_t)eb(y) * 1000003u + (std::uint64_t)extra * 77777777u); }

// ------------------------------------------------------------------ per-kind checks of one input
struct U1
{
	const char * name;
	void *f, *d, *l;
	bool modes; // result depends on the rounding mode
};
template <class T> static void * sel(const U1 & u) { return std::is_same_v<T, float> ? u.f : std::is_same_v<T, double> ? u.d : u.l; }
#define ROW1(N, M) { #N, (void *)(float (*)(float)) ::N##f, (void *)(double (*)(double)) ::N, (void *)(long double (*)(long double)) ::N##l, M }
#define ROW2(N, M) { #N, (void *)(float (*)(float, float)) ::N##f, (void *)(double (*)(double, double)) ::N, (void *)(long double (*)(long double, long double)) ::N##l, M }

// What GCC's inline expansion of rintf (no SSE4.1, no -frounding-math) computes: it rounds |x| and ors the sign of x into the result.
// The listed finding rint-float-gcc-inline is exactly this value where it is wrong.
static float gcc_rintf(float x, int mode)
{
	volatile float a = std::fabs(x), c = 0x1p23f;
	if (!(a < c)) return x;
	std::fesetround(mode);
	volatile float t = a + c;
	t				 = t - c;
	std::fesetround(FE_TONEAREST);
	return neg(x) ? -std::fabs((float)t) : (float)t;
}
template <class T> static void chk1(const Variant & v, const char * fn, T x, T want, int mode)
{
	const CcmvFn * f = v.get(fn, FT<T>::ch);
	if (!f) return;
	mon::about(f->name, v.name.c_str(), mode, x);
	T got;
	{
		ModeScope ms(mode);
		got = ((F1<T>)f->fn)(x);
	}
	auto & w = mon::self();
	w.ev++;
	w.ck++;
	if (same(got, want)) return;
	if constexpr (std::is_same_v<T, float>)
		if (!strcmp(fn, "rint") && !v.name.compare(0, 3, "gcc") && same(got, gcc_rintf(x, mode)))
		{
			mon::violation("", mon::fmt("rint<float>(%s) = %s in %s on variant %s, required %s", show(x).c_str(), show(got).c_str(), mode_name(mode), v.name.c_str(), show(want).c_str()),
						   "rint-float-gcc-inline");
			return;
		}
	bad<T>(fn, v, mode, kind(x), show(x), show(got), show(want));
}
template <class T> static void chk2(const Variant & v, const char * fn, T x, T y, T want, int mode, bool zero_any = false)
{
	const CcmvFn * f = v.get(fn, FT<T>::ch);
	if (!f) return;
	mon::about(f->name, v.name.c_str(), mode, x, y);
	T got;
	{
		ModeScope ms(mode);
		got = ((F2<T>)f->fn)(x, y);
	}
	auto & w = mon::self();
	w.ev++;
	w.ck++;
	if (!same(got, want) && !(zero_any && got == 0 && want == 0)) bad<T>(fn, v, mode, kind(x) + "," + kind(y), show(x) + ", " + show(y), show(got), show(want));
}
template <class T> static void chki(const Variant & v, const char * fn, T x, int want)
{
	const CcmvFn * f = v.get(fn, FT<T>::ch);
	if (!f) return;
	mon::about(f->name, v.name.c_str(), 0, x);
	int got = ((int (*)(T))f->fn)(x);
	auto & w = mon::self();
	w.ev++;
	w.ck++;
	if (got != want) bad<T>(fn, v, FE_TONEAREST, kind(x), show(x), std::to_string(got), std::to_string(want));
}
template <class T> static void chkz2(const Variant & v, const char * fn, T x, T y, int want)
{
	const CcmvFn * f = v.get(fn, FT<T>::ch);
	if (!f) return;
	mon::about(f->name, v.name.c_str(), 0, x, y);
	int got = ((int (*)(T, T))f->fn)(x, y);
	auto & w = mon::self();
	w.ev++;
	w.ck++;
	if ((got != 0) != (want != 0)) bad<T>(fn, v, FE_TONEAREST, kind(x) + "," + kind(y), show(x) + ", " + show(y), std::to_string(got), std::to_string(want));
}

template <class T, class G> static T in_mode(int mode, G && g)
{
	ModeScope ms(mode);
	volatile T r = g();
	return r;
}

template <class T> static void p_nearest(T x, Rng &)
{
	static const U1 t[] = { ROW1(ceil, 0), ROW1(floor, 0), ROW1(trunc, 0), ROW1(round, 0), ROW1(rint, 1), ROW1(nearbyint, 1) };
	for (auto & u : t)
		for (int mode : kModes)
		{
			T want = in_mode<T>(mode, [&] { return ((F1<T>)sel<T>(u))(x); });
			for (auto & v : V)
			{
				if (mode != FE_TONEAREST && isCE(v)) continue; // constant evaluation happens in round-to-nearest only
				chk1<T>(v, u.name, x, want, mode);
			}
			cov(u.name, x);
		}
}

static long long scale_arg(Rng & r, int span)
{
	switch (r.range(0, 7))
	{
	case 0: return (long long)r.next();
	case 1: return (int)r.next();
	case 2: return INT_MIN + (long long)r.below(4);
	case 3: return INT_MAX - (long long)r.below(4);
	case 4: return r.range(-4, 4);
	default: return r.range(-span, span);
	}
}
template <class T> static void p_decomp(T x, Rng & r)
{
	const int spans[] = { 320, 2200, 33000 };
	const int span	  = spans[std::is_same_v<T, float> ? 0 : std::is_same_v<T, double> ? 1 : 2];
	long long n		  = scale_arg(r, span);
	if (!is_nan(x) && !is_inf(x) && x != 0 && (r.next() & 1))
	{ // land near the subnormal or overflow edge
		int e;
		std::frexp(x, &e);
		n = ((r.next() & 1) ? FT<T>::emin - r.range(-2, FT<T>::prec + 2) : FT<T>::emax + 1 + r.range(-2, 2)) - e;
	}
	const int ni = n > INT_MAX ? INT_MAX : n < INT_MIN ? INT_MIN : (int)n;
	// frexp, modf, logb, ilogb do not depend on the rounding mode
	int we	  = 0;
	T wm	  = std::frexp(x, &we);
	T wi	  = 0;
	T wf	  = std::modf(x, &wi);
	T wlogb	  = std::logb(x);
	int wilog = std::ilogb(x);
	T wld[4], wll[4];
	for (int m = 0; m < 4; ++m)
	{
		wld[m] = in_mode<T>(kModes[m], [&] { return std::scalbn(x, ni); });
		wll[m] = in_mode<T>(kModes[m], [&] { return std::scalbln(x, (long)n); });
	}
	for (auto & v : V)
	{
		auto & w = mon::self();
		if (auto * f = v.get("frexp", FT<T>::ch))
		{
			for (int rf = 0; rf < 2; ++rf)
			{
				if (rf) f = v.get("frexp_ref", FT<T>::ch);
				int e = 12345;
				mon::about("frexp", v.name.c_str(), 0, x);
				T m = ((T(*)(T, int *))f->fn)(x, &e);
				w.ev++, w.ck++;
				bool fin = !is_nan(x) && !is_inf(x);
				if (!same(m, wm) || (fin && e != we)) bad<T>(rf ? "frexp_ref" : "frexp", v, 0, kind(x), show(x), show(m) + mon::fmt(" exp %d", e), show(wm) + mon::fmt(" exp %d", we));
			}
		}
		if (auto * f = v.get("modf", FT<T>::ch))
		{
			T i = 42;
			mon::about("modf", v.name.c_str(), 0, x);
			T fr = ((T(*)(T, T *))f->fn)(x, &i);
			w.ev++, w.ck++;
			if (!same(fr, wf) || !same(i, wi)) bad<T>("modf", v, 0, kind(x), show(x), show(fr) + " int " + show(i), show(wf) + " int " + show(wi));
		}
		chk1<T>(v, "logb", x, wlogb, FE_TONEAREST);
		chki<T>(v, "ilogb", x, wilog);
		for (int m = 0; m < 4; ++m)
		{
			if (m && isCE(v)) break;
			for (const char * nm : { "ldexp", "scalbn", "scalbnl_", "scalbln" })
			{
				auto * f = v.get(nm, FT<T>::ch);
				if (!f) continue;
				const bool isl = f->kind == K_UL;
				const T want   = isl ? wll[m] : wld[m];
				T got;
				mon::about(f->name, v.name.c_str(), kModes[m], x, n);
				{
					ModeScope ms(kModes[m]);
					got = isl ? ((T(*)(T, long))f->fn)(x, (long)n) : ((T(*)(T, int))f->fn)(x, ni);
				}
				w.ev++, w.ck++;
				if (!same(got, want)) bad<T>(nm, v, kModes[m], kind(x) + (n > 0 ? ",+" : ",-"), show(x) + mon::fmt(", %lld", isl ? n : (long long)ni), show(got), show(want));
			}
		}
	}
	cov("decomp", x, (T)0, (int)(n & 1023));
}
template <class T> static void p_next(T x, Rng & r)
{
	T y			  = pick2<T>(r, x);
	long double z = 0;
	switch (r.range(0, 4))
	{
	case 0: z = (long double)y; break;
	case 1: z = (long double)x; break;
	case 2: z = ::nextafterl((long double)x, (r.next() & 1) ? INFINITY : -INFINITY); break;
	case 3: z = pick<long double>(r); break;
	default: z = (long double)pick2<T>(r, y); break;
	}
	if (is_snan(z)) z = 1;
	T up = o_nextup(x), dn = o_nextdown(x), na, nt;
	na = is_nan(x) || is_nan(y) ? qnan<T>() : x == y ? y : x < y ? up : dn;
	nt = is_nan(x) || is_nan(z) ? qnan<T>() : (long double)x == z ? (T)z : (long double)x < z ? up : dn;
	for (auto & v : V)
	{
		chk1<T>(v, "nextup", x, up, FE_TONEAREST);
		chk1<T>(v, "nextdown", x, dn, FE_TONEAREST);
		chk2<T>(v, "nextafter", x, y, na, FE_TONEAREST);
		if (auto * f = v.get("nexttoward", FT<T>::ch))
		{
			mon::about("nexttoward", v.name.c_str(), 0, x, z);
			T got = ((T(*)(T, long double))f->fn)(x, z);
			mon::self().ev++, mon::self().ck++;
			if (!same(got, nt)) bad<T>("nexttoward", v, 0, kind(x) + "," + kind(z), show(x) + ", " + show(z), show(got), show(nt));
		}
	}
	cov("next", x, y);
}
template <class T> static void p_rem(T x, Rng & r)
{
	T y = pick2<T>(r, x);
	if (!is_nan(x) && !is_nan(y) && !is_inf(x) && !is_inf(y) && y != 0 && r.below(3) == 0)
	{ // near-tie quotients n + 1/2
		T q = (T)r.range(0, 1 << r.range(1, 12)) + (T)0.5;
		x	= step(y * q, r.range(-1, 1));
	}
	if (is_nan(x) != is_nan(x) || is_snan(x) || is_snan(y)) return;
	T wf = std::fmod(x, y), wr = std::remainder(x, y);
	int wq = 0;
	T wq_r = std::remquo(x, y, &wq);
	const T lib = wr;
	if (wr == 0) wr = std::copysign((T)0, x); // as IEC 60559 requires; the C library's remainder(double) does not always comply
	if (wq_r == 0) wq_r = std::copysign((T)0, x);
	if (wf == 0) wf = std::copysign((T)0, x);
	const bool valid = !is_nan(x) && !is_nan(y) && !is_inf(x) && y != 0;
	for (auto & v : V)
	{
		if (!skip<T>(v, false))
		{
			for (int m = 0; m < 4; ++m)
			{
				if (m && isCE(v)) break;
				// an exact zero remainder has the sign of x, except that libm variants disagree in directed modes
				chk2<T>(v, "fmod", x, y, wf, kModes[m]);
				if (m && wr == 0) continue;
				// a configuration that passes the call on to the C library passes its zero on as well
				chk2<T>(v, "remainder", x, y, wr, kModes[m], !isCE(v) && !same(lib, wr));
			}
		}
		if (auto * f = v.get("remquo", FT<T>::ch))
		{
			int q = 99;
			mon::about("remquo", v.name.c_str(), 0, x, y);
			T got = ((T(*)(T, T, int *))f->fn)(x, y, &q);
			mon::self().ev++, mon::self().ck++;
			// the standard fixes the sign and the low three bits of the quotient
			bool okq = !valid || ((q & 7) == (wq & 7) && (q == 0 || wq == 0 ? true : (q < 0) == (wq < 0))) || (std::abs(q) % 8 == std::abs(wq) % 8 && (q < 0) == (wq < 0));
			if (!same(got, wq_r) || !okq) bad<T>("remquo", v, 0, kind(x) + "," + kind(y), show(x) + ", " + show(y), show(got) + mon::fmt(" quo %d", q), show(wq_r) + mon::fmt(" quo %d", wq));
		}
	}
	cov("rem", x, y);
}
template <class T> static void p_class(T x, Rng & r)
{
	T y = pick2<T>(r, x);
	for (auto & v : V)
	{
		chki<T>(v, "isnan", x, is_nan(x));
		chki<T>(v, "isinf", x, is_inf(x));
		chki<T>(v, "isfinite", x, !is_nan(x) && !is_inf(x));
		bool nrm = !is_nan(x) && !is_inf(x) && std::fabs(x) >= std::numeric_limits<T>::min();
		chki<T>(v, "isnormal", x, nrm);
		chki<T>(v, "signbit", x, neg(x));
		chki<T>(v, "fpclassify", x, is_nan(x) ? FP_NAN : is_inf(x) ? FP_INFINITE : nrm ? FP_NORMAL : x == 0 ? FP_ZERO : FP_SUBNORMAL);
		const bool un = is_nan(x) || is_nan(y);
		chkz2<T>(v, "isunordered", x, y, un);
		chkz2<T>(v, "isgreater", x, y, !un && x > y);
		chkz2<T>(v, "isgreaterequal", x, y, !un && x >= y);
		chkz2<T>(v, "isless", x, y, !un && x < y);
		chkz2<T>(v, "islessequal", x, y, !un && x <= y);
		chkz2<T>(v, "islessgreater", x, y, !un && (x < y || x > y));
	}
	cov("class", x, y);
}
template <class T> static void p_minmax(T x, Rng & r)
{
	T y = pick2<T>(r, x);
	if (is_snan(x) || is_snan(y)) return;
	T ab = from_bits<T>(bits(x) & ~((typename FT<T>::U)1 << (FT<T>::total - 1)));
	T cs = from_bits<T>((bits(x) & ~((typename FT<T>::U)1 << (FT<T>::total - 1))) | (bits(y) & ((typename FT<T>::U)1 << (FT<T>::total - 1))));
	for (int m = 0; m < 4; ++m)
	{
		T fd = in_mode<T>(kModes[m], [&] { return std::fdim(x, y); });
		for (auto & v : V)
		{
			if (m && isCE(v)) continue;
			if (!skip<T>(v, false)) chk2<T>(v, "fdim", x, y, fd, kModes[m]);
			if (m) continue;
			chk1<T>(v, "fabs", x, ab, 0);
			chk1<T>(v, "abs", x, ab, 0);
			chk2<T>(v, "copysign", x, y, cs, 0);
			chk2<T>(v, "fmax", x, y, o_fmax(x, y), 0, true);
			chk2<T>(v, "fmin", x, y, o_fmin(x, y), 0, true);
			chk2<T>(v, "max", x, y, o_fmax(x, y), 0, true);
			chk2<T>(v, "min", x, y, o_fmin(x, y), 0, true);
			// the sign copysign gives a NaN, and fabs of a NaN, are observable too
			if (auto * f = v.get("copysign", FT<T>::ch))
			{
				T g = ((F2<T>)f->fn)(x, y);
				mon::self().ck++;
				if (neg(g) != neg(y)) bad<T>("copysign", v, 0, "sign:" + kind(x) + "," + kind(y), show(x) + ", " + show(y), show(g), "the sign bit of the second argument");
			}
		}
	}
	cov("minmax", x, y);
}
template <class T> static void p_sqrtfma(T x, Rng & r)
{
	T y = pick2<T>(r, x), z;
	if (is_snan(x) || is_snan(y)) return;
	switch (r.range(0, 7))
	{
	case 0: z = pick<T>(r); break;
	case 1: z = -(x * y); break;
	case 2: z = step((T) - (x * y), r.range(-4, 4)); break;
	case 3: z = (T)std::ldexp((long double)(x * y), r.range(-2 * FT<T>::prec - 4, 2 * FT<T>::prec + 4)) * ((r.next() & 1) ? 1 : -1); break;
	case 4:
	{ // exact midpoints and near-midpoints: few-bit factors
		x = make<T>(r.next() & 1, r.range(-40, 40), r.next() & (~0ull << r.range(64 - FT<T>::prec, 63)));
		y = make<T>(r.next() & 1, r.range(-40, 40), r.next() & (~0ull << r.range(64 - FT<T>::prec, 63)));
		z = (T)std::ldexp((long double)(x * y), r.range(-FT<T>::prec - 2, FT<T>::prec + 2));
		z = step(z, r.range(-1, 1)) * ((r.next() & 1) ? 1 : -1);
		break;
	}
	case 5:
	{ // near underflow
		int e = r.range(FT<T>::emin / 2 - 8, FT<T>::emin / 2 + 8);
		x	  = make<T>(r.next() & 1, e, r.next());
		y	  = make<T>(r.next() & 1, FT<T>::emin - r.range(-4, FT<T>::prec + 6) - e, r.next());
		z	  = gen<T>(r, C_SUBN);
		break;
	}
	case 6:
	{ // near overflow
		int e = r.range(FT<T>::emax / 2 - 8, FT<T>::emax / 2 + 8);
		x	  = make<T>(r.next() & 1, e, r.next());
		y	  = make<T>(r.next() & 1, FT<T>::emax + r.range(-3, 1) - e, r.next());
		z	  = gen<T>(r, C_BIG);
		break;
	}
	default: z = gen<T>(r, (int)r.below(C_COUNT)); break;
	}
	if (is_snan(z)) return;
	if (!(r.next() & 3) && !is_nan(x) && !is_inf(x)) x = x * x; // exact-square roots
	T s = (r.next() & 1) ? std::fabs(x) : x;
	for (int m = 0; m < 4; ++m)
	{
		const T wq = o_sqrt(s, kModes[m]), wm = o_fma(x, y, z, kModes[m]);
		for (auto & v : V)
		{
			if (m && isCE(v)) continue;
			if (skip<T>(v, false)) continue;
			chk1<T>(v, "sqrt", s, wq, kModes[m]);
			auto * f = v.get("fma", FT<T>::ch);
			T got;
			mon::about("fma", v.name.c_str(), kModes[m], x, y, z);
			{
				ModeScope ms(kModes[m]);
				got = ((T(*)(T, T, T))f->fn)(x, y, z);
			}
			mon::self().ev++, mon::self().ck++;
			if (!same(got, wm)) bad<T>("fma", v, kModes[m], kind(x) + "," + kind(y) + "," + kind(z), show(x) + ", " + show(y) + ", " + show(z), show(got), show(wm));
		}
	}
	cov("sqrtfma", x, y);
	cov("sqrtfma2", s, z);
}

template <class T> static void drive(void (*p)(T, Rng &), double budget, const char * tag)
{
	auto & sp = specials<T>();
	// special values first: each one many times, with every special as the related second value drawn at random
	mon::parallel(sp.size(), [&](std::uint64_t c) {
		Rng r(mon::mix(mon::args.seed * 31 + hash_str(tag) + FT<T>::ch) + c);
		for (int i = 0; i < 200; ++i) p(sp[c], r);
	});
	const std::uint64_t chunks = (std::uint64_t)(budget * 400) + 1;
	mon::parallel(chunks, [&](std::uint64_t c) {
		Rng r(mon::mix(mon::args.seed * 1000003 + hash_str(tag) * 5 + FT<T>::ch) + c);
		for (int i = 0; i < 500; ++i)
		{
			T x = pick<T>(r);
			p(x, r);
		}
	});
	mon::stat_max(mon::fmt("inputs/%s/%s", tag, FT<T>::nm), (double)(sp.size() * 200 + chunks * 500));
	Rng r(mon::args.seed + 5);
	for (int i = 0; i < 3; ++i) mon::sample(mon::fmt("%s: %s %s", tag, FT<T>::nm, show(pick<T>(r)).c_str()));
}
// every stride-th float
static void sweep(void (*p)(float, Rng &), unsigned stride)
{
	const std::uint64_t nch = 1024, per = (1ull << 32) / nch;
	const std::uint64_t off = mon::mix(mon::args.seed) % stride;
	mon::parallel(nch, [&](std::uint64_t c) {
		Rng r(mon::mix(mon::args.seed * 77) + c);
		for (std::uint64_t u = c * per + off; u < (c + 1) * per; u += stride) p(from_bits<float>((std::uint32_t)u), r);
	});
	mon::stat_max("float_encodings_swept", (double)((1ull << 32) / stride));
}

int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	for (auto & p : mon::args.so) V.push_back(load_variant(p));
	if (!mon::args.dict.empty())
	{
		std::ifstream f(mon::args.dict);
		std::string w;
		while (f >> w) DICT.push_back(std::strtoull(w.c_str(), nullptr, 16));
	}
	const double b = mon::args.budget > 0 ? mon::args.budget : 5;
	const std::string & P = mon::args.sub;
	const bool th = mon::args.thorough;
#define RUN(NAME, FN, STRIDE)                  \
	if (P == NAME)                             \
	{                                          \
		drive<float>(FN<float>, b, NAME);      \
		drive<double>(FN<double>, b, NAME);    \
		drive<long double>(FN<long double>, b, NAME); \
		if (STRIDE) sweep(FN<float>, STRIDE);  \
	}
	RUN("nearest", p_nearest, (th ? 7 : 2048))
	RUN("decomp", p_decomp, (th ? 31 : 8192))
	RUN("next", p_next, (th ? 7 : 2048))
	RUN("rem", p_rem, (th ? 61 : 16384))
	RUN("class", p_class, (th ? 3 : 2048))
	RUN("minmax", p_minmax, (th ? 31 : 4096))
	RUN("sqrtfma", p_sqrtfma, (th ? 61 : 16384))
	return mon::finish();
}
