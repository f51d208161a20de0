// Shared pieces of the drivers: bit access, deterministic generators, MPFR oracles, variants.
#pragma once
#include <cerrno>
#include <cfenv>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <gmp.h>
#include <limits>
#include <map>
#include <mpfr.h>
#include <string>
#include <type_traits>
#include <vector>

#include "ccmv_abi.hpp"

typedef unsigned __int128 u128;

// ---------------------------------------------------------------- formats
template <class T> struct FT;
template <> struct FT<float>
{
	using U = std::uint32_t;
	static constexpr int prec = 24, emin = -126, emax = 127, total = 32;
	static constexpr char ch = 'f';
	static constexpr const char * nm = "float";
};
template <> struct FT<double>
{
	using U = std::uint64_t;
	static constexpr int prec = 53, emin = -1022, emax = 1023, total = 64;
	static constexpr char ch = 'd';
	static constexpr const char * nm = "double";
};
template <> struct FT<long double>
{
	using U = u128;
	static constexpr int prec = 64, emin = -16382, emax = 16383, total = 80;
	static constexpr char ch = 'l';
	static constexpr const char * nm = "long double";
};

template <class T> inline typename FT<T>::U bits(T x)
{
	typename FT<T>::U u = 0;
	std::memcpy(&u, &x, std::is_same_v<T, long double> ? 10 : sizeof(T));
	return u;
}
template <class T> inline T from_bits(typename FT<T>::U u)
{
	T x = 0;
	std::memcpy(&x, &u, std::is_same_v<T, long double> ? 10 : sizeof(T));
	return x;
}
template <class T> inline bool is_nan(T x)
{
	if constexpr (std::is_same_v<T, float>) return (bits(x) & 0x7fffffffu) > 0x7f800000u;
	else if constexpr (std::is_same_v<T, double>)
		return (bits(x) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull;
	else
	{
		u128 b = bits(x);
		return ((unsigned)(b >> 64) & 0x7fff) == 0x7fff && ((std::uint64_t)b << 1) != 0;
	}
}
template <class T> inline bool is_snan(T x)
{
	if (!is_nan(x)) return false;
	if constexpr (std::is_same_v<T, float>) return !(bits(x) & 0x00400000u);
	else if constexpr (std::is_same_v<T, double>)
		return !(bits(x) & 0x0008000000000000ull);
	else
		return !((std::uint64_t)bits(x) & 0x4000000000000000ull);
}
template <class T> inline bool is_inf(T x)
{ return !is_nan(x) && std::fabs(x) > std::numeric_limits<T>::max(); }
template <class T> inline bool neg(T x)
{ return (bits(x) >> (FT<T>::total - 1)) & 1; }
template <class T> inline T inf()
{ return std::numeric_limits<T>::infinity(); }
template <class T> inline T qnan()
{ return std::numeric_limits<T>::quiet_NaN(); }

// The same value: equal bits, or both NaN (payload and NaN sign are not constrained).
template <class T> inline bool same(T a, T b)
{
	if (is_nan(a) || is_nan(b)) return is_nan(a) && is_nan(b);
	return bits(a) == bits(b);
}
template <class T> inline std::string show(T x)
{
	char b[96];
	if constexpr (std::is_same_v<T, float>) std::snprintf(b, sizeof b, "%a[%08x]", (double)x, (unsigned)bits(x));
	else if constexpr (std::is_same_v<T, double>)
		std::snprintf(b, sizeof b, "%a[%016llx]", x, (unsigned long long)bits(x));
	else
		std::snprintf(b, sizeof b, "%La[%04x%016llx]", x, (unsigned)(bits(x) >> 64), (unsigned long long)bits(x));
	return b;
}

// ---------------------------------------------------------------- random numbers
struct Rng
{
	std::uint64_t s[4];
	explicit Rng(std::uint64_t seed)
	{
		for (auto & w : s)
		{
			seed += 0x9e3779b97f4a7c15ull;
			std::uint64_t z = seed;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			w = z ^ (z >> 31);
		}
	}
	std::uint64_t next()
	{
		auto rotl = [](std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
		const std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = rotl(s[3], 45);
		return r;
	}
	std::uint64_t below(std::uint64_t n) { return n ? (std::uint64_t)(((u128)next() * n) >> 64) : 0; }
	int range(int a, int b) { return a + (int)below((std::uint64_t)(b - a + 1)); }
};
inline std::uint64_t hash_str(const char * s)
{
	std::uint64_t h = 1469598103934665603ull;
	for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
	return h;
}

// ---------------------------------------------------------------- value construction
template <class T> inline T make(bool sgn, int exp2, std::uint64_t frac) // 1.frac * 2^exp2 (frac: top-aligned in 64 bits), or subnormal below emin
{
	constexpr int p = FT<T>::prec;
	std::uint64_t m = (1ull << 63) | (frac >> 1);
	m = (p == 64) ? m : (m >> (64 - p));
	int e = exp2;
	if (e > FT<T>::emax) e = FT<T>::emax;
	int be;
	if (e < FT<T>::emin)
	{
		int sh = FT<T>::emin - e;
		m = sh > 63 ? 0 : m >> sh;
		be = 0;
	}
	else
		be = e + FT<T>::emax;
	if constexpr (std::is_same_v<T, long double>) { return from_bits<T>(((u128)((unsigned)(sgn ? 0x8000 : 0) | (unsigned)be) << 64) | m); }
	else
	{
		using U = typename FT<T>::U;
		U f = (U)(m & ((1ull << (p - 1)) - 1));
		return from_bits<T>((U)((U)sgn << (FT<T>::total - 1)) | (U)((U)be << (p - 1)) | f);
	}
}
template <class T> inline T step(T x, long k) // k representable numbers up (towards +inf) in the total order of finite numbers
{
	if (is_nan(x) || is_inf(x)) return x;
	using U = typename FT<T>::U;
	if constexpr (std::is_same_v<T, long double>)
	{
		long n = k < 0 ? -k : k;
		for (long i = 0; i < n; ++i) x = ::nextafterl(x, k < 0 ? -INFINITY : INFINITY);
		return x;
	}
	else
	{
		using S = std::make_signed_t<U>;
		constexpr U sb = (U)1 << (FT<T>::total - 1);
		U u = bits(x);
		S o = (u & sb) ? -(S)(u & ~sb) : (S)u;
		const S lim = (S)bits(inf<T>());
		o += (S)k;
		if (o > lim) o = lim;
		if (o < -lim) o = -lim;
		return from_bits<T>(o < 0 ? ((U)(-o) | sb) : (U)o);
	}
}

template <class T> inline const std::vector<T> & specials()
{
	static const std::vector<T> v = [] {
		std::vector<T> r;
		auto L = std::numeric_limits<T>();
		const T base[] = { (T)0, L.denorm_min(), step(L.min(), -1), L.min(), step(L.min(), 1), L.epsilon(), L.epsilon() / 2, step((T)1, -1), (T)1, step((T)1, 1),
						   (T)0.5, step((T)0.5, -1), step((T)0.5, 1), (T)1.5, (T)2, step((T)2, -1), (T)2.5, (T)3, (T)4, (T)5, (T)10, (T)0.1L, (T)0.25,
						   (T)(1ull << 22), (T)(1ull << 23), (T)(1ull << 24), (T)(1ull << 31), (T)(1ull << 32), (T)(1ull << 51), (T)(1ull << 52), (T)(1ull << 53),
						   (T)(1ull << 62), (T)9.223372036854775808e18L, (T)1.8446744073709551616e19L, L.max(), step(L.max(), -1), L.max() / 2, L.infinity(),
						   (T)3.14159265358979323846L, (T)1.57079632679489661923L, (T)0.785398163397448309616L, (T)2.71828182845904523536L, (T)0.693147180559945309417L,
						   (T)8388607.5L, (T)4503599627370495.5L, (T)2147483647.0L, (T)2147483648.5L, (T)0x1.fp-30L, (T)0.49999997L };
		for (T b : base)
		{
			r.push_back(b);
			r.push_back(-b);
		}
		r.push_back(L.quiet_NaN());
		r.push_back(-L.quiet_NaN());
		r.push_back(L.signaling_NaN());
		return r;
	}();
	return v;
}

// Input classes for one argument.
enum Cls
{
	C_SPECIAL,
	C_BITS,	   // uniform over encodings
	C_UNIT,	   // |x| in [2^-12, 2^12)
	C_INT,	   // integers, half-integers and their neighbours
	C_TABLE,   // significands at table-cell edges (k/2^7, k/2^8) and neighbours
	C_SPARSE,  // significands with few bits set / long runs
	C_PI,	   // neighbours of k*pi/2^j
	C_SUBN,	   // subnormals and the normal edge
	C_ONE,	   // neighbours of 1
	C_BIG,	   // exponents near the top
	C_HUGE,	   // uniformly over large exponents (trig reduction)
	C_DOM,	   // function-specific domain band (see Dom)
	C_COUNT
};
inline const char * cls_name(int c)
{
	static const char * n[] = { "special", "bits", "unit", "int", "table", "sparse", "pi", "subnormal", "one", "big", "huge", "domain" };
	return n[c];
}
template <class T> inline T gen(Rng & r, int c, double lo = -1, double hi = 1)
{
	using U = typename FT<T>::U;
	constexpr int p = FT<T>::prec;
	switch (c)
	{
	case C_SPECIAL:
	{
		auto & v = specials<T>();
		return v[r.below(v.size())];
	}
	case C_BITS:
		if constexpr (std::is_same_v<T, long double>) { return make<T>(r.next() & 1, r.range(-16446, 16383), r.next()); }
		else { return from_bits<T>((U)r.next()); }
	case C_UNIT: return make<T>(r.next() & 1, r.range(-12, 11), r.next());
	case C_INT:
	{
		int b = r.range(0, p + 2);
		std::uint64_t n = b >= 64 ? r.next() : (r.next() & ((b ? (1ull << b) : 1) - 1));
		T x = (T)n / 2;
		if (b < p - 1 && (r.next() & 1)) x += (T)0.5;
		x = step(x, r.range(-2, 2));
		return (r.next() & 1) ? -x : x;
	}
	case C_TABLE:
	{
		int tb = r.range(5, 9);
		std::uint64_t k = r.below(1ull << tb);
		T x = make<T>(r.next() & 1, (r.next() & 3) ? r.range(-3, 8) : r.range(FT<T>::emin, FT<T>::emax), k << (64 - tb));
		if (r.next() & 3) x = step(x, r.range(-3, 3));
		else
			x = make<T>(neg(x), r.range(-3, 3), (k << (64 - tb)) | (r.next() >> (tb + r.range(0, 20))));
		return x;
	}
	case C_SPARSE:
	{
		std::uint64_t f = 0;
		int n = r.range(0, 4);
		for (int i = 0; i < n; ++i) f |= 1ull << r.range(64 - p + 1 < 0 ? 0 : 64 - p + 1, 63);
		if (r.next() & 1) f = ~f;
		if (r.below(3) == 0) f = r.next() & (~0ull << r.range(64 - p + 1, 63)); // a random prefix, zeros after it
		const int w = (int)r.below(4);
		return make<T>(r.next() & 1, w == 0 ? r.range(-3, 3) : w == 1 ? r.range(-40, 40) : w == 2 ? r.range(-14, 14) : r.range(FT<T>::emin - p, FT<T>::emax), f);
	}
	case C_PI:
	{
		std::uint64_t k = r.next() >> r.range(20, 63);
		long double v = (long double)k * (3.14159265358979323846264338327950288L / (long double)(1 << r.range(0, 4)));
		T x = step((T)v, r.range(-2, 2));
		return (r.next() & 1) ? -x : x;
	}
	case C_SUBN:
	{
		T x = make<T>(0, FT<T>::emin - r.range(0, p), r.next());
		if (!(r.next() & 7)) x = step(std::numeric_limits<T>::min(), r.range(-3, 3));
		return (r.next() & 1) ? -x : x;
	}
	case C_ONE:
	{
		T x = (T)1;
		int k = r.range(0, p + 3);
		long double d = (long double)(r.next() >> 1) * 0x1p-63L;
		x = (T)(1.0L + std::ldexp((r.next() & 1) ? d : -d, -k));
		return (r.next() & 7) ? x : -x;
	}
	case C_BIG: return make<T>(r.next() & 1, FT<T>::emax - r.range(0, 6), r.next());
	case C_HUGE: return make<T>(r.next() & 1, r.range(12, FT<T>::emax), r.next());
	case C_DOM:
	default:
	{
		double u = (double)(r.next() >> 11) * 0x1p-53;
		T x = (T)(lo + (hi - lo) * (long double)u);
		return (r.next() & 3) ? x : step(x, r.range(-2, 2));
	}
	}
}

// ---------------------------------------------------------------- MPFR
struct Mp
{
	mpfr_t v;
	explicit Mp(int prec = 160) { mpfr_init2(v, prec); }
	~Mp() { mpfr_clear(v); }
	Mp(const Mp &) = delete;
	Mp & operator=(const Mp &) = delete;
	operator mpfr_ptr() { return v; }
};
inline void mset(mpfr_t r, float x) { mpfr_set_flt(r, x, MPFR_RNDN); }
inline void mset(mpfr_t r, double x) { mpfr_set_d(r, x, MPFR_RNDN); }
inline void mset(mpfr_t r, long double x) { mpfr_set_ld(r, x, MPFR_RNDN); }
inline mpfr_rnd_t mrnd(int mode)
{
	switch (mode)
	{
	case FE_UPWARD: return MPFR_RNDU;
	case FE_DOWNWARD: return MPFR_RNDD;
	case FE_TOWARDZERO: return MPFR_RNDZ;
	default: return MPFR_RNDN;
	}
}
static const int kModes[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
inline const char * mode_name(int m)
{
	switch (m)
	{
	case FE_UPWARD: return "FE_UPWARD";
	case FE_DOWNWARD: return "FE_DOWNWARD";
	case FE_TOWARDZERO: return "FE_TOWARDZERO";
	default: return "FE_TONEAREST";
	}
}
// Correct rounding to T of the exact value approximated by evaluating f at the target precision. f(r, rnd) returns the ternary value.
// Uses MPFR's own exponent range emulation and mpfr_subnormalize, so the result is the IEEE rounding including gradual underflow and overflow.
template <class T, class F> inline T mp_round(F && f, int mode)
{
	constexpr int p = FT<T>::prec;
	const mpfr_exp_t e0 = mpfr_get_emin(), e1 = mpfr_get_emax();
	mpfr_t r;
	mpfr_init2(r, p);
	const mpfr_rnd_t rnd = mrnd(mode);
	mpfr_set_emin(FT<T>::emin + 1 - (p - 1));
	mpfr_set_emax(FT<T>::emax + 1);
	int t = f(r, rnd);
	t = mpfr_check_range(r, t, rnd);
	t = mpfr_subnormalize(r, t, rnd);
	(void)t;
	T out;
	if constexpr (std::is_same_v<T, float>) out = mpfr_get_flt(r, MPFR_RNDN);
	else if constexpr (std::is_same_v<T, double>)
		out = mpfr_get_d(r, MPFR_RNDN);
	else
		out = mpfr_get_ld(r, MPFR_RNDN);
	mpfr_set_emin(e0);
	mpfr_set_emax(e1);
	mpfr_clear(r);
	return out;
}

using MpU = int (*)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
using MpB = int (*)(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
inline int mp_lgamma(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t rnd)
{
	int s;
	return mpfr_lgamma(r, &s, x, rnd);
}
inline MpU mp_unary(const std::string & n)
{
	static const std::map<std::string, MpU> m = { { "exp", mpfr_exp }, { "exp2", mpfr_exp2 }, { "expm1", mpfr_expm1 }, { "log", mpfr_log }, { "log2", mpfr_log2 },
		{ "log10", mpfr_log10 }, { "log1p", mpfr_log1p }, { "sin", mpfr_sin }, { "cos", mpfr_cos }, { "tan", mpfr_tan }, { "asin", mpfr_asin }, { "acos", mpfr_acos },
		{ "atan", mpfr_atan }, { "sqrt", mpfr_sqrt }, { "cbrt", mpfr_cbrt }, { "tgamma", mpfr_gamma }, { "gamma", mpfr_gamma }, { "lgamma", mp_lgamma } };
	auto it = m.find(n);
	return it == m.end() ? nullptr : it->second;
}
inline MpB mp_binary(const std::string & n)
{
	static const std::map<std::string, MpB> m = { { "pow", mpfr_pow }, { "atan2", mpfr_atan2 }, { "hypot", mpfr_hypot } };
	auto it = m.find(n);
	return it == m.end() ? nullptr : it->second;
}
// |got - ref| in units in the last place of T at ref. ref is a high precision value in MPFR.
template <class T> inline double ulp_err(T got, mpfr_ptr ref)
{
	if (is_nan(got) || mpfr_nan_p(ref)) return (is_nan(got) && mpfr_nan_p(ref)) ? 0 : INFINITY;
	if (mpfr_inf_p(ref)) return (is_inf(got) && neg(got) == (mpfr_sgn(ref) < 0)) ? 0 : INFINITY;
	static thread_local Mp d(256), g(80);
	if (is_inf(got))
	{ // an overflowed result stands for 2^(emax+1)
		mpfr_set_ui_2exp(g, 1, FT<T>::emax + 1, MPFR_RNDN);
		if (neg(got)) mpfr_neg(g, g, MPFR_RNDN);
		if (mpfr_cmpabs(ref, g) >= 0 && (mpfr_sgn(ref) < 0) == neg(got)) return 0;
	}
	else
		mset(g, got);
	mpfr_sub(d, g, ref, MPFR_RNDN);
	if (mpfr_zero_p(d)) return 0;
	long e = mpfr_zero_p(ref) ? FT<T>::emin : (long)mpfr_get_exp(ref) - 1;
	if (e < FT<T>::emin) e = FT<T>::emin;
	if (e > FT<T>::emax) e = FT<T>::emax;
	mpfr_abs(d, d, MPFR_RNDN);
	mpfr_mul_2si(d, d, (FT<T>::prec - 1) - e, MPFR_RNDN);
	return mpfr_get_d(d, MPFR_RNDU);
}

// ---------------------------------------------------------------- variants
struct Variant
{
	std::string name;
	const CcmvTable * t = nullptr;
	std::map<std::string, std::map<char, const CcmvFn *>> by;
	const CcmvFn * get(const std::string & n, char ty) const
	{
		auto it = by.find(n);
		if (it == by.end()) return nullptr;
		auto jt = it->second.find(ty);
		return jt == it->second.end() ? nullptr : jt->second;
	}
};
inline Variant wrap_variant(const CcmvTable * t)
{
	Variant v;
	v.t	   = t;
	v.name = t->variant;
	for (int i = 0; i < t->n; ++i) v.by[t->fns[i].name][t->fns[i].ty] = &t->fns[i];
	return v;
}
inline Variant load_variant(const std::string & path)
{
	void * h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!h)
	{
		std::fprintf(stderr, "dlopen: %s\n", dlerror());
		std::exit(2);
	}
	auto f = (const CcmvTable * (*)()) dlsym(h, "ccmv_table");
	if (!f) std::exit(2);
	return wrap_variant(f());
}
