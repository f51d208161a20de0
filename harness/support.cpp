// E03: the encoding, bit, rounding and literal helpers every kernel is built from, against the definition of the
// format, GMP, MPFR and (for encodings) the compiler's own classification.
#include <array>
#include <cassert>
#include <cerrno>
#include <ccmath/internal/support/bits.hpp>
#include <ccmath/internal/support/fenv/fenv_support.hpp>
#include <ccmath/internal/support/fenv/rounding_mode.hpp>
#include <ccmath/internal/support/helpers/digit_to_int.hpp>
#include <ccmath/internal/support/poly_eval.hpp>
#include <ccmath/internal/support/ctz.hpp>
#include <ccmath/internal/support/fp/cast.hpp>
#include <ccmath/internal/support/fp/directional_rounding_utils.hpp>
#include <ccmath/internal/support/fp/fp_bits.hpp>
#include <ccmath/internal/support/fp/nearest_integer.hpp>
#include <ccmath/internal/support/fp/ops/add.hpp>
#include <ccmath/internal/support/fp/ops/mul.hpp>
#include <ccmath/internal/support/fp/ops/sub.hpp>
#include <ccmath/internal/support/helpers/internal_ldexp.hpp>
#include <ccmath/internal/support/integer_literals.hpp>
#include <ccmath/internal/support/math_support.hpp>
#include <ccmath/internal/types/number_pair.hpp>

#include "core.hpp"
#include "mon.hpp"
#include <cfenv>
#include <gmp.h>
#include <utility>

#ifndef CCMV_NAME
#define CCMV_NAME "direct"
#endif
namespace sup = ccm::support;
namespace fp  = ccm::support::fp;
namespace ty  = ccm::types;
using ty::Sign;
#define OPAQUE(x) asm volatile("" : "+m"(x) : : "memory")

static std::uint64_t SEED;
static double SCALE;

static std::uint64_t hs(const char * s)
{
	std::uint64_t h = 7;
	for (; *s; ++s) h = h * 131 + (unsigned char)*s;
	return h;
}
static void seen(const char * op, std::uint64_t k)
{
	auto & w = mon::self();
	w.ev++;
	w.ck++;
	mon::cover(mon::mix(hs(op)) ^ k);
	mon::sample_once(op, [&] { return mon::fmt("%s judged on %s (cell key %llx)", op, CCMV_NAME, (unsigned long long)k); });
}
static void fail(const std::string & op, const std::string & args, const std::string & got, const std::string & want)
{
	mon::violation(op + "/" CCMV_NAME, op + " of " + args + " on " CCMV_NAME " is " + got + "; it must be " + want);
}
static std::string u(unsigned long long x) { return mon::fmt("%llu (0x%llx)", x, x); }
static std::string nm(const char * op, const char * t) { return mon::fmt("%s<%s>", op, t); }
struct Mode
{
	int old = std::fegetround();
	explicit Mode(int m) { std::fesetround(m); }
	~Mode() { std::fesetround(old); }
};

// ------------------------------------------------------------------ encodings
template <class T> static unsigned __int128 raw(T x) // the bits of the format, without padding
{
	unsigned __int128 b = 0;
	std::memcpy(&b, &x, sizeof x > 10 ? 10 : sizeof x);
	return b;
}
static std::string hex(unsigned __int128 b) { return mon::fmt("0x%llx%016llx", (unsigned long long)(b >> 64), (unsigned long long)b); }
template <class T> static void encoding(Rng & r)
{
	using F				= fp::FPBits<T>;
	using S				= typename F::storage_type;
	constexpr int p		= FT<T>::prec;
	constexpr bool ext	= p == 64;
	T x					= gen<T>(r, r.range(0, C_COUNT - 1), FT<T>::emin - p, FT<T>::emax);
	const char * t		= FT<T>::nm;
	const F f(x);
	const std::string a = show(x);
	auto is = [&](const char * op, bool got, bool want) {
		seen(op, (raw(x) >> (p - 4)) & 0xffff);
		if (got != want) fail(nm(op, t), a, got ? "true" : "false", want ? "true" : "false");
	};
	auto bitsare = [&](const char * op, unsigned __int128 got, unsigned __int128 want) {
		seen(op, (raw(x) >> (p - 4)) & 0xffff);
		if (got != want) fail(nm(op, t), a, hex(got), hex(want));
	};
	auto num = [&](const char * op, long long got, long long want) {
		seen(op, (unsigned long long)want & 0xffff);
		if (got != want) fail(nm(op, t), a, mon::fmt("%lld", got), mon::fmt("%lld", want));
	};
	const bool nan = is_nan(x), snan = is_snan(x), inf = !nan && __builtin_isinf(x), zero = !nan && x == 0, fin = !nan && !inf;
	const bool sub = fin && !zero && __builtin_fabsl((long double)x) < (long double)std::numeric_limits<T>::min();
	bitsare("FPBits::uintval", (unsigned __int128)f.uintval(), raw(x));
	if (!snan) bitsare("FPBits::get_val", raw(f.get_val()), raw(x));
	is("FPBits::is_nan", f.is_nan(), nan);
	is("FPBits::is_inf", f.is_inf(), inf);
	is("FPBits::is_finite", f.is_finite(), fin);
	is("FPBits::is_inf_or_nan", f.is_inf_or_nan(), !fin);
	is("FPBits::is_zero", f.is_zero(), zero);
	is("FPBits::is_quiet_nan", f.is_quiet_nan(), nan && !snan);
	is("FPBits::is_signaling_nan", f.is_signaling_nan(), snan);
	is("FPBits::is_normal", f.is_normal(), fin && !zero && !sub);
	if (!zero) is("FPBits::is_subnormal", f.is_subnormal(), sub);
	is("FPBits::is_neg", f.is_neg(), neg(x));
	is("FPBits::is_pos", f.is_pos(), !neg(x));
	is("FPBits::sign", f.sign().is_neg(), neg(x));
	const unsigned __int128 signbit = (unsigned __int128)1 << (FT<T>::total - 1);
	bitsare("FPBits::abs", (unsigned __int128)f.abs().uintval(), raw(x) & ~signbit);
	is("FPBits equality", f == F(x), true);
	if (fin)
	{
		int e = 0;
		if (!zero) (void)__builtin_frexpl((long double)x, &e);
		--e;
		if (!zero && !sub) num("FPBits::get_exponent", f.get_exponent(), e);
		const int ex = zero ? 0 : sub ? FT<T>::emin : e;
		num("FPBits::get_explicit_exponent", f.get_explicit_exponent(), ex);
		if (!zero)
		{
			// |x| = mantissa * 2^(exponent - (p - 1))
			const long double m = (long double)(unsigned long long)f.get_explicit_mantissa();
			seen("FPBits::get_explicit_mantissa", (unsigned)ex & 0xffff);
			if (__builtin_ldexpl(m, ex - (p - 1)) != __builtin_fabsl((long double)x)) fail(nm("FPBits::get_explicit_mantissa", t), a, mon::fmt("%La", m), "the significand");
		}
		// stepping away from zero
		if constexpr (true)
		{
			F n	  = f.next_toward_inf();
			F w{ T(x) };
			T up;
			if (neg(x)) up = step(x, -1);
			else up = step(x, 1);
			if constexpr (ext)
			{
				// the bits of a valid encoding
				(void)w;
			}
			bitsare("FPBits::next_toward_inf", (unsigned __int128)n.uintval(), raw(up));
		}
	}
	else bitsare("FPBits::next_toward_inf", (unsigned __int128)f.next_toward_inf().uintval(), raw(x));
	// modifiers touch their own field only
	const T y = gen<T>(r, r.range(0, C_COUNT - 1), FT<T>::emin - p, FT<T>::emax);
	const unsigned __int128 fm = ((unsigned __int128)1 << (p - 1)) - 1, sm = ext ? (((unsigned __int128)1 << 64) - 1) : fm, em = (signbit - 1) & ~sm;
	const unsigned __int128 noise = ((unsigned __int128)r.next() << 64) | r.next();
	{
		F g = f;
		g.set_sign(neg(y) ? Sign::NEG : Sign::POS);
		bitsare("FPBits::set_sign", (unsigned __int128)g.uintval(), (raw(x) & ~signbit) | (raw(y) & signbit));
		g = f;
		g.set_mantissa((S)(raw(y) | (noise & ~(sm | em | signbit))));
		bitsare("FPBits::set_mantissa", (unsigned __int128)g.uintval(), (raw(x) & ~fm) | (raw(y) & fm));
		g = f;
		g.set_significand((S)raw(y));
		bitsare("FPBits::set_significand", (unsigned __int128)g.uintval(), (raw(x) & ~sm) | (raw(y) & sm));
		g = f;
		const unsigned be = (unsigned)((raw(y) & em) >> (FT<T>::total - 1 - (ext ? 15 : sizeof(T) == 4 ? 8 : 11)));
		g.set_biased_exponent((S)be);
		bitsare("FPBits::set_biased_exponent", (unsigned __int128)g.uintval(), (raw(x) & ~em) | (raw(y) & em));
		num("FPBits::get_biased_exponent", F(y).get_biased_exponent(), be);
		g = F(T(0));
		g.set_uintval((S)(noise));
		bitsare("FPBits::set_uintval", (unsigned __int128)g.uintval(), noise & (signbit | em | sm));
		const F c = F::create_value(F(y).sign(), (S)be, (S)(raw(y) & sm));
		bitsare("FPBits::create_value", (unsigned __int128)c.uintval(), raw(y));
		bitsare("FPBits::get_mantissa", (unsigned __int128)F(y).get_mantissa(), raw(y) & fm);
	}
	// make_value: number * 2^(expo + 1 - bias - fraction_length), truncated when subnormal
	{
		const unsigned long long number = [&] {
			unsigned long long v = r.next() >> r.range(64 - p, 62);
			return v ? v : 1ull;
		}();
		const int expo = r.range(-40, 40);
		const int top = 63 - __builtin_clzll(number);
		const int lo = expo + 1 - F::exponent_bias - (p - 1); // exponent of the last bit of number
		(void)top;
		long double want;
		const int drop = FT<T>::emin - (p - 1) - lo; // bits below the subnormal ulp
		unsigned long long kept = number;
		if (drop > 0) kept = drop > 63 ? 0 : (number >> drop) << drop;
		want = __builtin_ldexpl((long double)kept, lo);
		const T got = F::make_value((S)number, expo).get_val();
		seen("FPBits::make_value", mon::mix((unsigned)(top * 128 + expo)) & 0xffff);
		if ((long double)got != want || (sizeof(T) == 16 && p == 64 && want == 0 && raw(got) != 0))
			fail(nm("FPBits::make_value", t), mon::fmt("%s, %d", u(number).c_str(), expo), show(got), mon::fmt("%La", want));
	}
}
template <class T> static void builders()
{
	using F = fp::FPBits<T>;
	using L = std::numeric_limits<T>;
	for (int s = 0; s < 2; ++s)
	{
		const Sign g = s ? Sign::NEG : Sign::POS;
		auto is = [&](const char * op, T got, T want) {
			seen(op, (unsigned)s);
			if (s) want = -want;
			if (raw(got) != raw(want)) fail(nm(op, FT<T>::nm), s ? "NEG" : "POS", show(got), show(want));
		};
		is("FPBits::zero", F::zero(g).get_val(), T(0));
		is("FPBits::one", F::one(g).get_val(), T(1));
		is("FPBits::min_subnormal", F::min_subnormal(g).get_val(), L::denorm_min());
		is("FPBits::max_subnormal", F::max_subnormal(g).get_val(), step(L::min(), -1));
		is("FPBits::min_normal", F::min_normal(g).get_val(), L::min());
		is("FPBits::max_normal", F::max_normal(g).get_val(), L::max());
		is("FPBits::inf", F::inf(g).get_val(), L::infinity());
		seen("FPBits::quiet_nan", (unsigned)s);
		const F q = F::quiet_nan(g), n = F::signaling_nan(g);
		if (!q.is_quiet_nan() || q.is_neg() != (bool)s || !__builtin_isnan(q.get_val())) fail(nm("FPBits::quiet_nan", FT<T>::nm), s ? "NEG" : "POS", hex((unsigned __int128)q.uintval()), "a quiet NaN of that sign");
		if (!n.is_signaling_nan() || n.is_neg() != (bool)s) fail(nm("FPBits::signaling_nan", FT<T>::nm), s ? "NEG" : "POS", hex((unsigned __int128)n.uintval()), "a signalling NaN of that sign");
	}
}
// ------------------------------------------------------------------ bits.hpp
template <class T> static T pattern(Rng & r)
{
	constexpr int w = std::numeric_limits<T>::digits;
	switch (r.range(0, 5))
	{
	case 0: return (T)((T)1 << r.range(0, w - 1));
	case 1: return (T)((T) ~(T)0 << r.range(0, w - 1));
	case 2: return (T)((T) ~(T)0 >> r.range(0, w - 1));
	case 3: return r.range(0, 1) ? (T)0 : (T) ~(T)0;
	case 4: return (T)(((T)1 << r.range(0, w - 1)) - (T)1 + (T)r.range(0, 2));
	default: return (T)(r.next() >> r.range(0, 63));
	}
}
template <class T> struct BitsOut
{
	int clz, ctz, cto, clo, bw, pop;
	bool single;
	T rl, rr, ceil;
	constexpr bool operator==(const BitsOut & o) const { return clz == o.clz && ctz == o.ctz && cto == o.cto && clo == o.clo && bw == o.bw && pop == o.pop && single == o.single && rl == o.rl && rr == o.rr && ceil == o.ceil; }
};
template <class T> constexpr BitsOut<T> bits_of(T x, int n)
{
	constexpr int w = std::numeric_limits<T>::digits;
	BitsOut<T> o{};
	o.clz	 = sup::countl_zero<T>(x);
	o.ctz	 = sup::countr_zero<T>(x);
	o.cto	 = sup::countr_one<T>(x);
	o.clo	 = sup::countl_one<T>(x);
	o.bw	 = sup::bit_width<T>(x);
	o.pop	 = sup::popcount<T>(x);
	if (sup::popcount(x) != o.pop) o.pop = -1; // the overload an unqualified type selects
	if constexpr (sizeof(T) > 1) o.single = sup::has_single_bit<T>(x);
	o.rl = sup::rotl<T>(x, n);
	o.rr = sup::rotr<T>(x, n);
	if (x <= (T)((T)1 << (w - 1))) o.ceil = sup::bit_ceil<T>(x);
	return o;
}
template <class T> constexpr BitsOut<T> bits_ref(T x, int n)
{
	constexpr int w = std::numeric_limits<T>::digits;
	BitsOut<T> o{};
	for (o.clz = 0; o.clz < w && !((x >> (w - 1 - o.clz)) & 1); ++o.clz) {}
	for (o.ctz = 0; o.ctz < w && !((x >> o.ctz) & 1); ++o.ctz) {}
	for (o.cto = 0; o.cto < w && ((x >> o.cto) & 1); ++o.cto) {}
	for (o.clo = 0; o.clo < w && ((x >> (w - 1 - o.clo)) & 1); ++o.clo) {}
	o.bw = w - o.clz;
	for (int i = 0; i < w; ++i) o.pop += (int)((x >> i) & 1);
	if constexpr (sizeof(T) > 1) o.single = o.pop == 1;
	int k = n % w;
	if (k < 0) k += w;
	for (int i = 0; i < w; ++i)
	{
		if (!((x >> i) & 1)) continue;
		o.rl = (T)(o.rl | ((T)1 << ((i + k) % w)));
		o.rr = (T)(o.rr | ((T)1 << ((i - k + w) % w)));
	}
	if (x <= (T)((T)1 << (w - 1)))
	{
		o.ceil = 1;
		while (o.ceil < x) o.ceil = (T)(o.ceil << 1);
	}
	return o;
}
template <class T> const char * un();
template <> const char * un<unsigned char>() { return "unsigned char"; }
template <> const char * un<unsigned short>() { return "unsigned short"; }
template <> const char * un<unsigned>() { return "unsigned"; }
template <> const char * un<unsigned long>() { return "unsigned long"; }
template <> const char * un<unsigned long long>() { return "unsigned long long"; }
template <class T> static void report_bits(T x, int n, const BitsOut<T> & g, const BitsOut<T> & e, const char * where)
{
	auto d = [&](const char * op, unsigned long long a, unsigned long long b, bool two = false) {
		if (a != b) fail(nm(op, un<T>()) + where, two ? u(x) + mon::fmt(", %d", n) : u(x), u(a), u(b));
	};
	d("countl_zero", g.clz, e.clz);
	d("countr_zero", g.ctz, e.ctz);
	d("countr_one", g.cto, e.cto);
	d("countl_one", g.clo, e.clo);
	d("bit_width", g.bw, e.bw);
	d("popcount", g.pop, e.pop);
	d("has_single_bit", g.single, e.single);
	d("rotl", g.rl, e.rl, true);
	d("rotr", g.rr, e.rr, true);
	d("bit_ceil", g.ceil, e.ceil);
}
template <class T> static void bits(Rng & r)
{
	T x	  = pattern<T>(r);
	int n = r.range(0, 3) ? r.range(-200, 200) : (int)r.next();
	if (n == INT_MIN) n = 0; // the negation inside rotl is not defined there
	OPAQUE(x);
	OPAQUE(n);
	const auto g = bits_of<T>(x, n), e = bits_ref<T>(x, n);
	seen(un<T>(), (unsigned)(e.clz * 4096 + e.ctz * 64 + ((unsigned)n & 63)));
	if (!(g == e)) report_bits<T>(x, n, g, e, "");
	if (x != 0)
	{
		const int c = sup::ctz<T>(x);
		if (c != e.ctz) fail(nm("ctz", un<T>()), u(x), mon::fmt("%d", c), mon::fmt("%d", e.ctz));
	}
	const int gc = sup::internal::generic_ctz<T>(x);
	if (gc != e.ctz) fail(nm("generic_ctz", un<T>()), u(x), mon::fmt("%d", gc), mon::fmt("%d", e.ctz));
	// halves
	const auto h = ty::split<T>(x);
	constexpr int hw = std::numeric_limits<T>::digits / 2;
	if (h.lo != (T)(x & (T)(((T)1 << hw) - 1)) || h.hi != (T)(x >> hw)) fail(nm("split", un<T>()), u(x), u(h.hi) + ", " + u(h.lo), "its halves");
	// carries
	T y = pattern<T>(r), ci = (T)r.range(0, 1), co = 0;
	OPAQUE(y);
	using W = unsigned __int128;
	const W s = (W)x + y + ci;
	const T gs = sup::add_with_carry<T>(x, y, ci, co);
	if (gs != (T)s || co != (T)((s >> std::numeric_limits<T>::digits) & 1)) fail(nm("add_with_carry", un<T>()), u(x) + ", " + u(y) + ", " + u(ci), u(gs) + " carry " + u(co), u((T)s));
	const T gd = sup::sub_with_borrow<T>(x, y, ci, co);
	const bool bo = (W)x < (W)y + ci;
	if (gd != (T)(x - y - ci) || co != (T)bo) fail(nm("sub_with_borrow", un<T>()), u(x) + ", " + u(y) + ", " + u(ci), u(gd) + " borrow " + u(co), u((T)(x - y - ci)) + (bo ? " borrow 1" : " borrow 0"));
	auto ovf = [&](auto zero) {
		using V = decltype(zero);
		V a = (V)x, b = (V)y, z = 0;
		OPAQUE(a);
		OPAQUE(b);
		const __int128 es = (__int128)a + b, ed = (__int128)a - b;
		const bool os = es != (__int128)(V)es, od = ed != (__int128)(V)ed;
		bool go = sup::add_overflow<V>(a, b, z);
		if (go != os || (!os && z != (V)es)) fail(nm(std::is_signed_v<V> ? "add_overflow signed" : "add_overflow", un<T>()), u((T)a) + ", " + u((T)b), mon::fmt("%d ", go) + u((T)z), mon::fmt("%d ", os) + u((T)es));
		go = sup::sub_overflow<V>(a, b, z);
		if (go != od || (!od && z != (V)ed)) fail(nm(std::is_signed_v<V> ? "sub_overflow signed" : "sub_overflow", un<T>()), u((T)a) + ", " + u((T)b), mon::fmt("%d ", go) + u((T)z), mon::fmt("%d ", od) + u((T)ed));
	};
	ovf(T{});
	ovf(std::make_signed_t<T>{});
}
constexpr std::uint64_t kconst(int i)
{
	std::uint64_t z = (std::uint64_t)i * 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	z ^= z >> 31;
	switch (i % 4)
	{
	case 0: return 1ull << (z & 63);
	case 1: return ~0ull >> (z & 63);
	case 2: return ~0ull << (z & 63);
	default: return z >> ((z >> 7) & 63);
	}
}
template <class T> constexpr int const_bad() // the first constant whose constant evaluation is wrong
{
	for (int i = 0; i < 160; ++i)
	{
		const T x	= (T)kconst(i);
		const int n = (int)(i * 37 % 301) - 150;
		if (!(bits_of<T>(x, n) == bits_ref<T>(x, n))) return i;
		if (x != 0 && sup::ctz<T>(x) != bits_ref<T>(x, n).ctz) return i;
		T c = 0;
		const T y = (T)kconst(i + 1);
		const T s = sup::add_with_carry<T>(x, y, (T)(i & 1), c);
		if (s != (T)(x + y + (T)(i & 1)) || c != (T)(((unsigned __int128)x + y + (T)(i & 1)) >> std::numeric_limits<T>::digits)) return i;
		const T d = sup::sub_with_borrow<T>(x, y, (T)(i & 1), c);
		if (d != (T)(x - y - (T)(i & 1)) || c != (T)((unsigned __int128)x < (unsigned __int128)y + (T)(i & 1))) return i;
	}
	return -1;
}
template <class T, std::size_t... I> static void masks(std::index_sequence<I...>)
{
	constexpr int w = std::numeric_limits<T>::digits;
	auto one = [&](std::size_t n, T t1, T l1, T t0, T l0) {
		const T low	 = n == 0 ? (T)0 : (T)((T) ~(T)0 >> (w - (int)n));
		const T high = n == 0 ? (T)0 : (T)((T) ~(T)0 << (w - (int)n));
		seen("masks", n);
		const std::string a = mon::fmt("%zu", n);
		if (t1 != low) fail(nm("mask_trailing_ones", un<T>()), a, u(t1), u(low));
		if (l1 != high) fail(nm("mask_leading_ones", un<T>()), a, u(l1), u(high));
		if (t0 != (T)~low) fail(nm("mask_trailing_zeros", un<T>()), a, u(t0), u((T)~low));
		if (l0 != (T)~high) fail(nm("mask_leading_zeros", un<T>()), a, u(l0), u((T)~high));
	};
	(one(I, sup::mask_trailing_ones<T, I>(), sup::mask_leading_ones<T, I>(), sup::mask_trailing_zeros<T, I>(), sup::mask_leading_zeros<T, I>()), ...);
}
template <class T> static void bits_fixed()
{
	masks<T>(std::make_index_sequence<std::numeric_limits<T>::digits + 1>{});
	constexpr int bad = const_bad<T>();
	seen("constant bits", sizeof(T));
	if constexpr (bad >= 0)
	{
		constexpr T x			 = (T)kconst(bad);
		constexpr int n			 = bad * 37 % 301 - 150;
		constexpr BitsOut<T> g	 = bits_of<T>(x, n);
		report_bits<T>(x, n, g, bits_ref<T>(x, n), " in constant evaluation");
		fail(nm("constant evaluation of the bit helpers", un<T>()), u(x), "wrong", "the run-time value");
	}
}
template <class T> static T rounded(mpfr_srcptr v, int mode)
{
	return mp_round<T>([&](mpfr_ptr q, mpfr_rnd_t k) { return mpfr_set(q, v, k); }, mode);
}
static void top(Rng & r)
{
	const double d = gen<double>(r, r.range(0, C_COUNT - 1), -1074, 1023);
	const float f  = gen<float>(r, r.range(0, C_COUNT - 1), -149, 127);
	const std::uint64_t b = (std::uint64_t)raw(d);
	const std::uint32_t c = (std::uint32_t)raw(f);
	auto is = [&](const char * op, const std::string & a, std::uint64_t g, std::uint64_t e) {
		seen(op, e & 0xffff);
		if (g != e) fail(op, a, u(g), u(e));
	};
	is("top16_bits_of_double", show(d), sup::top16_bits_of_double(d), b >> 48);
	is("top12_bits_of_double", show(d), sup::top12_bits_of_double(d), b >> 52);
	is("top12_bits_of_float", show(f), sup::top12_bits_of_float(f), c >> 20);
	is("top_bits<double, 12>", show(d), sup::top_bits<double, 12>(d), b >> 52);
	is("top_bits<double, 20>", show(d), sup::top_bits<double, 20>(d), b >> 44);
	is("top_bits<float, 12>", show(f), sup::top_bits<float, 12>(f), c >> 20);
	is("top_bits<float, 9>", show(f), sup::top_bits<float, 9>(f), c >> 23);
	is("double_to_uint64", show(d), sup::double_to_uint64(d), b);
	is("double_to_int64", show(d), (std::uint64_t)sup::double_to_int64(d), b);
	is("float_to_uint32", show(f), sup::float_to_uint32(f), c);
	is("float_to_int32", show(f), (std::uint32_t)sup::float_to_int32(f), c);
	is("uint64_to_double", show(d), (std::uint64_t)raw(sup::uint64_to_double(b)), b);
	is("int64_to_double", show(d), (std::uint64_t)raw(sup::int64_to_double((std::int64_t)b)), b);
	is("uint32_to_float", show(f), (std::uint32_t)raw(sup::uint32_to_float(c)), c);
	is("int32_to_float", show(f), (std::uint32_t)raw(sup::int32_to_float((std::int32_t)c)), c);
}
// ------------------------------------------------------------------ rounding helpers
template <class T> static T fin(Rng & r, int lo, int hi)
{
	for (;;)
	{
		const T x = gen<T>(r, r.range(0, C_COUNT - 1), lo, hi);
		if (!is_nan(x)) return x;
	}
}
template <class T> static T near_int(Rng & r) // integers, halves and their neighbours, over the whole range in which they exist
{
	constexpr int p = FT<T>::prec;
	const int k = r.range(0, p + 1);
	long double v = (long double)(r.next() >> (64 - (k > 63 ? 63 : k ? k : 1)));
	T x = (T)v;
	switch (r.range(0, 4))
	{
	case 0: x += T(0.5); break;
	case 1: x = step((T)(x + T(0.5)), r.range(-1, 1)); break;
	case 2: x = step(x, r.range(-2, 2)); break;
	case 3: x += (T)(r.next() >> 11) * T(0x1p-53); break;
	default: break;
	}
	return r.range(0, 1) ? x : -x;
}
template <class T> static void directional(Rng & r)
{
	Mp e(FT<T>::prec), f(FT<T>::prec + 8);
	T x = r.range(0, 2) ? near_int<T>(r) : gen<T>(r, r.range(0, C_COUNT - 1), r.range(0, 1) ? -4 : FT<T>::emin - FT<T>::prec, r.range(0, 1) ? 70 : FT<T>::emax);
	OPAQUE(x);
	static const struct { int m; mpfr_rnd_t r; const char * n; } ms[] = { { FE_TONEAREST, MPFR_RNDN, "to nearest" }, { FE_DOWNWARD, MPFR_RNDD, "downward" }, { FE_UPWARD, MPFR_RNDU, "upward" }, { FE_TOWARDZERO, MPFR_RNDZ, "toward zero" }, { (int)fp::rounding_mode::eFE_TONEARESTFROMZERO, MPFR_RNDA, "to nearest, ties away" } };
	for (const auto & m : ms)
	{
		// the result is an integral value: the requested rounding decides, whatever the thread's mode is
		const int env = kModes[r.range(0, 3)];
		T g;
		{
			Mode M(env);
			T y = x;
			OPAQUE(y);
			g = fp::directional_round<T>(y, m.m);
			OPAQUE(g);
		}
		seen("directional_round", (std::uint64_t)m.m * 4096 + (unsigned)((raw(x) >> (FT<T>::prec - 5)) & 0xfff));
		if (is_nan(x))
		{
			if (!is_nan(g)) fail(nm("directional_round", FT<T>::nm), show(x) + " " + m.n, show(g), "a NaN");
			continue;
		}
		mset(e.v, x);
		if (mpfr_number_p(e.v))
		{
			if (m.r == MPFR_RNDA) mpfr_round(e.v, e.v);
			else mpfr_rint(e.v, e.v, m.r);
		}
		const T w = (T)mpfr_get_ld(e.v, MPFR_RNDN);
		if (!same(g, w)) fail(nm("directional_round", FT<T>::nm), show(x) + " " + m.n + ", thread rounding " + mode_name(env), show(g), show(w));
	}
}
template <class T> static void nearest_int(Rng & r)
{
	T x = r.range(0, 2) ? near_int<T>(r) : fin<T>(r, FT<T>::emin, FT<T>::emax);
	for (int m : kModes)
	{
		T y = x, g;
		{
			Mode M(m);
			OPAQUE(y);
			g = fp::nearest_integer(y);
			OPAQUE(g);
		}
		seen("nearest_integer", (std::uint64_t)(unsigned)m * 4096 + (unsigned)((raw(x) >> (FT<T>::prec - 5)) & 0xfff));
		if (__builtin_isinf(x))
		{
			if (g != x) fail(nm("nearest_integer", FT<T>::nm), show(x), show(g), "itself");
			continue;
		}
		const long double d = (long double)x - (long double)g; // exact: both are close
		const bool integral = (long double)g == __builtin_truncl((long double)g);
		const T even = (T)__builtin_roundevenl((long double)x);
		const bool good = integral && (m == FE_TONEAREST ? g == even : __builtin_fabsl(d) <= 0.5L + __builtin_ldexpl(1, -FT<T>::prec)); // the difference itself is rounded
		if (!good) fail(nm("nearest_integer", FT<T>::nm), show(x) + " with rounding " + mode_name(m), show(g), "the nearest integer " + show(even));
	}
}
template <class T> constexpr T kx(int i) // values around the integers and halves of every binade
{
	T x = 1;
	for (int k = 0; k < i / 4; ++k) x *= 2;
	switch (i % 4)
	{
	case 0: return x + 1;
	case 1: return x + T(0.5);
	case 2: return -(x + 1 + x / 2);
	default: return -(x - T(0.5));
	}
}
template <class T> constexpr int const_nearest()
{
	for (int i = 0; i < 4 * 70; ++i)
	{
		const T x = kx<T>(i), g = fp::nearest_integer(x);
		T e = x;
		if ((x < 0 ? -x : x) < T(1ull << 60))
		{
			const long long k = (long long)x; // toward zero
			const T f = x - (T)k, a = f < 0 ? -f : f;
			long long n = k;
			if (a > T(0.5) || (a == T(0.5) && (k & 1))) n += x < 0 ? -1 : 1;
			e = (T)n;
		}
		if (g != e) return i;
	}
	return -1;
}
template <class T> static void nearest_fixed()
{
	seen("constant nearest_integer", sizeof(T));
	constexpr int bad = const_nearest<T>();
	if constexpr (bad >= 0)
	{
		constexpr T x = kx<T>(bad), g = fp::nearest_integer(x);
		fail(nm("constant nearest_integer", FT<T>::nm), show(x), show(g), "the nearest integer");
	}
}
// exact sums
template <class T> static void sums(Rng & r)
{
	constexpr int p = FT<T>::prec, lim = FT<T>::emax - 2;
	const int e = r.range(FT<T>::emin + 2 * p, lim - p), sp = r.range(0, 4) ? r.range(0, 2 * p) : r.range(0, p + 2);
	auto mk = [&](int ex) {
		T m = (T)(long double)((r.next() >> 1) | (1ull << 62)); // rounded to the format
		if (r.range(0, 3) == 0) m = (T)(1ull << 62);
		return (T)(__builtin_ldexpl((long double)m, ex - 62) * (r.range(0, 1) ? 1 : -1));
	};
	T a = mk(e), b = mk(e - sp < FT<T>::emin ? FT<T>::emin : e - sp);
	Mp x(4 * p + 200), y(4 * p + 200);
	mset(x.v, a);
	mset(y.v, b);
	mpfr_add(x.v, x.v, y.v, MPFR_RNDN);
	auto exact = [&](const char * op, T h, T l) {
		seen(op, (unsigned)sp);
		Mp z(4 * p + 200), q(p);
		mset(z.v, h);
		mpfr_add_d(z.v, z.v, 0, MPFR_RNDN);
		Mp ll(p);
		mset(ll.v, l);
		mpfr_add(z.v, z.v, ll.v, MPFR_RNDN);
		mpfr_set(q.v, x.v, MPFR_RNDN);
		Mp hh(p);
		mset(hh.v, h);
		if (!mpfr_equal_p(z.v, x.v) || !mpfr_equal_p(hh.v, q.v)) fail(nm(op, FT<T>::nm), show(a) + ", " + show(b), show(h) + " + " + show(l), "exactly the sum, the first part its nearest value");
	};
	OPAQUE(a);
	OPAQUE(b);
	T h, l;
	sup::two_sum<T>(h, l, a, b);
	exact("two_sum", h, l);
	T c = b, d = a;
	OPAQUE(c);
	OPAQUE(d);
	if (sp > 0)
	{
		sup::fast_two_sum<T>(h, l, d, c);
		exact("fast_two_sum", h, l);
	}
	if constexpr (p == 64)
	{
		long double v = a;
		OPAQUE(v);
		long double vh, vl;
		sup::veltkamp_split(vh, vl, v);
		seen("veltkamp_split", (unsigned)e);
		auto width = [](long double q) {
			if (q == 0) return 0;
			unsigned long long m = (unsigned long long)raw(q);
			return 64 - __builtin_ctzll(m);
		};
		int ev = 0;
		(void)__builtin_frexpl(v, &ev); // 2^(ev-1) <= |v| < 2^ev
		if (vh + vl != v || width(vh) > 32 || width(vl) > 32 || __builtin_fabsl(vh) > __builtin_ldexpl(1, ev) || (vl != 0 && __builtin_fabsl(vl) >= __builtin_ldexpl(1, ev - 32)))
			fail("veltkamp_split", show(v), show(vh) + " + " + show(vl), "two 32-bit halves whose sum is exact");
	}
}
// ------------------------------------------------------------------ scaling and narrowing
template <class T> static void scale(Rng & r)
{
	constexpr int p = FT<T>::prec;
	T x = gen<T>(r, r.range(0, C_COUNT - 1), FT<T>::emin - p, FT<T>::emax);
	OPAQUE(x);
	long long n;
	switch (r.range(0, 5))
	{
	case 0: n = r.range(-40, 40); break;
	case 1: n = (long long)r.next(); break;
	case 2: n = (int)r.next(); break;
	case 3: n = r.range(2 * FT<T>::emin - p - 4, 2 * FT<T>::emax + p + 4); break;
	default:
	{
		// land at an end of the range
		int e = 0;
		if (!is_nan(x) && !__builtin_isinf(x)) (void)__builtin_frexpl((long double)x, &e);
		n = (r.range(0, 1) ? FT<T>::emin - p + r.range(-2, p + 2) : FT<T>::emax + r.range(-1, 3)) - (e - 1);
	}
	}
	auto one = [&](const char * op, T g, long long k) {
		seen(op, (unsigned)(k & 0xfff) ^ (unsigned)((raw(x) >> (p - 1)) & 0xffff));
		if (is_nan(x))
		{
			if (!is_nan(g)) fail(nm(op, FT<T>::nm), show(x), show(g), "a NaN");
			return;
		}
		Mp f(p);
		mset(f.v, x);
		const long long q = k < -100000 ? -100000 : k > 100000 ? 100000 : k;
		mpfr_mul_2si(f.v, f.v, q, MPFR_RNDN);
		const T w = rounded<T>(f.v, FE_TONEAREST);
		if (!same(g, w)) fail(nm(op, FT<T>::nm), show(x) + mon::fmt(", %lld", k), show(g), show(w));
	};
	one("internal_ldexp long long", sup::helpers::internal_ldexp<T>(x, n), n);
	one("internal_ldexp int", sup::helpers::internal_ldexp<T>(x, (int)n), (int)n);
	one("internal_ldexp long", sup::helpers::internal_ldexp<T>(x, (long)n), n);
}
template <class Out, class In> static void narrow(Rng & r)
{
	In x = gen<In>(r, r.range(0, C_COUNT - 1), FT<Out>::emin - FT<Out>::prec - 3, FT<Out>::emax + 3);
	if (r.range(0, 2) == 0) // a representable value or a midpoint, and their neighbours
	{
		Out o = gen<Out>(r, r.range(0, C_COUNT - 1), FT<Out>::emin - FT<Out>::prec, FT<Out>::emax);
		if (!is_nan(o) && !__builtin_isinf(o))
		{
			In y = (In)o;
			if (r.range(0, 1))
			{
				const Out o2 = step(o, 1);
				if (!is_nan(o2) && !__builtin_isinf(o2)) y = (y + (In)o2) / 2;
			}
			x = step(y, r.range(-1, 1));
		}
	}
	OPAQUE(x);
	for (int m : kModes)
	{
		Out g;
		int fl;
		{
			Mode M(m);
			std::feclearexcept(FE_ALL_EXCEPT);
			In y = x;
			OPAQUE(y);
			g = fp::cast<Out, In>(y);
			OPAQUE(g);
			fl = std::fetestexcept(FE_OVERFLOW | FE_INVALID);
			std::feclearexcept(FE_ALL_EXCEPT);
		}
		seen("cast", (std::uint64_t)(unsigned)m * 65536 + (unsigned)((raw(x) >> (FT<In>::prec - 1)) & 0xffff));
		const std::string op = mon::fmt("cast<%s, %s>", FT<Out>::nm, FT<In>::nm);
		if (is_nan(x))
		{
			if (!is_nan(g) || is_snan(g) || (!is_snan(x) && neg(g) != neg(x)) || (is_snan(x) && !(fl & FE_INVALID))) fail(op, show(x), show(g), "a quiet NaN (of the same sign for a quiet argument, INVALID for a signalling one)");
			continue;
		}
		Mp f(FT<In>::prec);
		mset(f.v, x);
		const Out w = rounded<Out>(f.v, m);
		if (!same(g, w)) fail(op, show(x) + " with rounding " + mode_name(m), show(g), show(w));
		const bool ov = !__builtin_isinf(x) && (__builtin_isinf(w) || (__builtin_fabsl((long double)w) == (long double)std::numeric_limits<Out>::max() && __builtin_fabsl((long double)x) >= __builtin_ldexpl(1, FT<Out>::emax + 1)));
		if (ov != ((fl & FE_OVERFLOW) != 0)) fail(op + " flags", show(x) + " with rounding " + mode_name(m), fl & FE_OVERFLOW ? "with OVERFLOW" : "without OVERFLOW", ov ? "with it" : "without it");
	}
}
#ifndef CCMV_NO_OPS
// the arithmetic of fp::op, correctly rounded into the result format in every mode
template <class Out, class In> static void arith(Rng & r)
{
	constexpr int p = FT<In>::prec;
	In x = gen<In>(r, r.range(0, C_COUNT - 1), FT<In>::emin - p, FT<In>::emax), y;
	int e = 0;
	if (!is_nan(x) && !__builtin_isinf(x) && x != 0) (void)__builtin_frexpl((long double)x, &e);
	const int lo = e - p - 3 < FT<In>::emin - p ? FT<In>::emin - p : e - p - 3, hi = e + p + 3 > FT<In>::emax ? FT<In>::emax : e + p + 3;
	switch (r.range(0, 4))
	{
	case 0: y = gen<In>(r, r.range(0, C_COUNT - 1), FT<In>::emin - p, FT<In>::emax); break;
	case 1: y = is_nan(x) || __builtin_isinf(x) ? x : step(r.range(0, 1) ? x : -x, r.range(-2, 2)); break;
	default: y = lo < hi ? gen<In>(r, r.range(0, C_COUNT - 1), lo, hi) : x; break;
	}
	if (r.below(12) == 0)
	{ // the special pairs: zero with infinity, NaNs of both kinds, the ends of the range
		using L = std::numeric_limits<In>;
		const In v[] = { In(0), L::infinity(), L::quiet_NaN(), L::signaling_NaN(), L::min(), L::max(), L::denorm_min(), In(1) };
		x = v[r.below(8)], y = v[r.below(8)];
		if (r.next() & 1) x = -x;
		if (r.next() & 1) y = -y;
	}
	OPAQUE(x);
	OPAQUE(y);
	for (int op = 0; op < 3; ++op)
		for (int m : kModes)
		{
			static const char * const on[] = { "op::add", "op::sub", "op::mul" };
			Out g;
			int fl;
			{
				Mode M(m);
				std::feclearexcept(FE_ALL_EXCEPT);
				In a = x, b = y;
				OPAQUE(a);
				OPAQUE(b);
				g = op == 0 ? fp::op::add<Out, In>(a, b) : op == 1 ? fp::op::sub<Out, In>(a, b) : fp::op::mul<Out, In>(a, b);
				OPAQUE(g);
				fl = std::fetestexcept(FE_INVALID);
				std::feclearexcept(FE_ALL_EXCEPT);
			}
			const std::string name = mon::fmt("%s<%s, %s>", on[op], FT<Out>::nm, FT<In>::nm), args = show(x) + ", " + show(y) + " with rounding " + mode_name(m);
			seen(on[op], mon::mix((raw(x) >> (p - 4)) * 31 + (raw(y) >> (p - 4))) & 0xffff);
			Mp a(p), b(p), c(FT<In>::emax - FT<In>::emin + 2 * p + 80 > 8000 ? 2 * p + 40 : FT<In>::emax - FT<In>::emin + 2 * p + 80);
			mset(a.v, x);
			mset(b.v, y);
			if (is_nan(x) || is_nan(y))
			{
				if (!is_nan(g) || is_snan(g)) fail(name, args, show(g), "a quiet NaN");
				continue;
			}
			// the sum may span more bits than any fixed precision: keep the sign of what is discarded (round to odd)
			const mpfr_rnd_t rz = MPFR_RNDZ;
			const int t = op == 0 ? mpfr_add(c.v, a.v, b.v, rz) : op == 1 ? mpfr_sub(c.v, a.v, b.v, rz) : mpfr_mul(c.v, a.v, b.v, rz);
			if (mpfr_nan_p(c.v))
			{
				if (!is_nan(g) || !(fl & FE_INVALID)) fail(name, args, show(g), "a NaN with INVALID");
				continue;
			}
			if (fl & FE_INVALID) fail(name + " flags", args, "with INVALID", "without it");
			if (t != 0) // inexact: set the last bit, which is far below any rounding decision
			{
				mpz_t z;
				mpz_init(z);
				const mpfr_exp_t ze = mpfr_get_z_2exp(z, c.v);
				const int sg = mpz_sgn(z) < 0;
				mpz_abs(z, z);
				mpz_setbit(z, 0);
				mpfr_set_z_2exp(c.v, z, ze, MPFR_RNDN);
				if (sg) mpfr_neg(c.v, c.v, MPFR_RNDN);
				mpz_clear(z);
			}
			Out w;
			if (mpfr_zero_p(c.v))
			{
				bool n;
				const bool sx = neg(x), sy = op == 1 ? !neg(y) : neg(y);
				if (op == 2) n = neg(x) != neg(y);
				else n = x == 0 && y == 0 && sx == sy ? sx : m == FE_DOWNWARD;
				w = n ? Out(-0.0) : Out(0.0);
			}
			else w = rounded<Out>(c.v, m);
			if (!same(g, w)) fail(name, args, show(g), show(w));
		}
}
#endif
// ------------------------------------------------------------------ literals and parsing
template <class U> static void mpz_of(mpz_t z, const U & v)
{
	if constexpr (std::is_integral_v<U> || std::is_same_v<U, unsigned __int128>)
	{
		unsigned __int128 x = (unsigned __int128)v;
		mpz_import(z, 1, -1, sizeof x, 0, 0, &x);
	}
	else
	{
		using W = typename U::word_type;
		W w[U::WORD_COUNT];
		for (std::size_t i = 0; i < U::WORD_COUNT; ++i) w[i] = v.val[i];
		mpz_import(z, U::WORD_COUNT, -1, sizeof(W), 0, 0, w);
	}
}
template <class U, int Bits> static void parse(Rng & r, const char * un_)
{
	mpz_t v, g;
	mpz_inits(v, g, nullptr);
	const int n = r.range(0, Bits);
	for (int i = 0; i < n; i += 32) mpz_mul_2exp(v, v, 32), mpz_add_ui(v, v, (unsigned)r.next());
	if (r.range(0, 3) == 0) mpz_set_ui(v, 0), mpz_setbit(v, n), mpz_sub_ui(v, v, (unsigned)r.range(0, 1));
	mpz_fdiv_r_2exp(v, v, n);
	const int base = r.range(0, 2);
	char * s = mpz_get_str(nullptr, base == 0 ? 2 : base == 1 ? 10 : r.range(0, 1) ? 16 : -16, v);
	std::string d;
	for (int i = 0; s[i]; ++i)
	{
		if (i && r.range(0, 9) == 0) d += '\'';
		d += s[i];
	}
	const std::string lit = std::string(base == 0 ? "0b" : base == 1 ? "" : "0x") + d;
	std::free(s);
	const bool minus = r.range(0, 3) == 0, plus = !minus && r.range(0, 3) == 0;
	const std::string text = (minus ? "-" : plus ? "+" : "") + lit;
	const U got = sup::parse_bigint<U>(text.c_str());
	if (minus)
	{
		mpz_neg(v, v);
		mpz_fdiv_r_2exp(v, v, Bits);
	}
	mpz_of(g, got);
	seen("parse_bigint", (std::uint64_t)(base * 512 + n));
	if (mpz_cmp(g, v) != 0)
	{
		char * gs = mpz_get_str(nullptr, 16, g);
		fail(mon::fmt("parse_bigint<%s>", un_), "\"" + text + "\"", std::string("0x") + gs, "the number written");
		std::free(gs);
	}
	mpz_clears(v, g, nullptr);
}
static void literals()
{
	using namespace sup;
	auto is = [&](const char * text, auto v) {
		mpz_t a, b;
		mpz_inits(a, b, nullptr);
		mpz_of(a, v);
		std::string s;
		for (const char * c = text; *c; ++c)
			if (*c != '\'') s += *c;
		mpz_set_str(b, s.c_str(), 0);
		seen("literal", s.size());
		if (mpz_cmp(a, b) != 0) fail("literal", text, "another value", "the number written");
		mpz_clears(a, b, nullptr);
	};
#define LIT(x, s)                     \
	do                                \
	{                                 \
		constexpr auto k = x##s;      \
		is(#x, k);                    \
	} while (0)
	LIT(0, _u8);
	LIT(255, _u8);
	LIT(65535, _u16);
	LIT(4294967295, _u32);
	LIT(18446744073709551615, _u64);
	LIT(0xfedcba9876543210f0e1d2c3, _u96);
	LIT(79228162514264337593543950335, _u96);
	LIT(0xfedcba98'76543210'01234567'89abcdef, _u128);
	LIT(340282366920938463463374607431768211455, _u128);
	LIT(0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000001, _u128);
	LIT(0x8000000000000000000000000000000123456789abcdef00fedcba9876543210, _u256);
	LIT(115792089237316195423570985008687907853269984665640564039457584007913129639935, _u256);
	LIT(1'000'000'000'000'000'000'000'000'000'000'000'000'000'000'000'000'000'000'000'007, _u256);
#undef LIT
}
// ------------------------------------------------------------------ floating-point environment, polynomials, tables
namespace fe = ccm::support::fenv;
// what the compiler sees in a constant expression is the configured mode, whatever the thread's
static_assert(fe::get_rounding_mode() == FE_TONEAREST && fe::rounding_mode_is_round_to_nearest() && !fe::rounding_mode_is_round_up() && !fe::rounding_mode_is_round_down() && !fe::rounding_mode_is_round_to_zero(), "configured mode");
static void environment(Rng & r)
{
	const int m = kModes[r.below(4)];
	seen("fenv", (std::uint64_t)m);
	{
		Mode M(m);
		bool q[] = { fe::rounding_mode_is_round_to_nearest(), fe::rounding_mode_is_round_up(), fe::rounding_mode_is_round_down(), fe::rounding_mode_is_round_to_zero() };
		const bool w[] = { m == FE_TONEAREST, m == FE_UPWARD, m == FE_DOWNWARD, m == FE_TOWARDZERO };
		int g = fe::get_rounding_mode(), g2 = fe::internal::get_round(); // not const: that would make them constant expressions
		for (int i = 0; i < 4; ++i)
			if (q[i] != w[i]) fail("rounding mode query", mon::fmt("number %d with rounding ", i) + mode_name(m), q[i] ? "true" : "false", w[i] ? "true" : "false");
		if (g != m || g2 != m) fail("get_rounding_mode", mode_name(m), mode_name(g), mode_name(m));
	}
	const int m2 = kModes[r.below(4)], old = std::fegetround();
	fe::internal::set_round(m2);
	const int got = std::fegetround();
	std::fesetround(old);
	if (got != m2) fail("set_round", mode_name(m2), mode_name(got), mode_name(m2));
	// flags: raising adds, clearing removes, and neither touches the others
	static const int fl[] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT };
	int a = 0, b = 0;
	for (int f : fl)
	{
		if (r.next() & 1) a |= f;
		if (r.next() & 1) b |= f;
	}
	std::feclearexcept(FE_ALL_EXCEPT);
	std::feraiseexcept(a);
	const int before = std::fetestexcept(FE_ALL_EXCEPT);
	int after;
	switch (r.range(0, 4))
	{
	case 0:
		fe::raise_except_if_required(b);
		after = std::fetestexcept(FE_ALL_EXCEPT);
		if ((after & (before | b)) != (before | b)) fail("raise_except_if_required", mon::fmt("%#x over %#x", b, before), mon::fmt("%#x", after), "both sets of flags");
		if (after & ~(before | b | FE_INEXACT)) fail("raise_except_if_required", mon::fmt("%#x over %#x", b, before), mon::fmt("%#x", after), "no other flag");
		break;
	case 1:
		fe::internal::raise_except(b);
		after = std::fetestexcept(FE_ALL_EXCEPT);
		if ((after & (before | b)) != (before | b)) fail("raise_except", mon::fmt("%#x over %#x", b, before), mon::fmt("%#x", after), "both sets of flags");
		break;
	case 2:
		fe::internal::clear_except(b);
		after = std::fetestexcept(FE_ALL_EXCEPT);
		if (after != (before & ~b)) fail("clear_except", mon::fmt("%#x of %#x", b, before), mon::fmt("%#x", after), mon::fmt("%#x", before & ~b));
		break;
	case 3:
	{
		int t = fe::internal::test_except(b);
		if (t != (before & b)) fail("test_except", mon::fmt("%#x of %#x", b, before), mon::fmt("%#x", t), mon::fmt("%#x", before & b));
		break;
	}
	default:
	{
		std::fenv_t env;
		fe::internal::get_env(&env);
		std::fesetround(m);
		std::feraiseexcept(b);
		fe::internal::set_env(&env);
		after = std::fetestexcept(FE_ALL_EXCEPT);
		if (after != before || std::fegetround() != old) fail("set_env", "the environment get_env saved", "another environment", "the saved one");
	}
	}
	std::feclearexcept(FE_ALL_EXCEPT);
	// errno is written when asked for, and only then
	errno		= r.range(0, 200);
	const int e = r.range(1, 130);
	fe::set_errno_if_required(e);
	const int ge = errno;
	errno		 = 0;
	if (fe::is_errno_enabled() && ge != e) fail("set_errno_if_required", mon::fmt("%d", e), mon::fmt("%d", ge), mon::fmt("%d", e));
}
template <class T> static void polynomials(Rng & r)
{
	// small integers: every intermediate is exact, contracted or not
	const int x = r.range(-6, 6);
	int a[6];
	for (int & e : a) e = r.range(-40, 40);
	const T X = (T)x;
	seen(nm("polyeval", FT<T>::nm).c_str(), (std::uint64_t)(x + 6) * 81 + (std::uint64_t)(a[0] + 40));
	auto is = [&](T g, int n) {
		long w = 0;
		for (int i = n; i-- > 0;) w = w * x + a[i];
		if (g != (T)w) fail(nm("polyeval", FT<T>::nm), mon::fmt("%d coefficients at %d", n, x), show(g), mon::fmt("%ld", w));
	};
	const T c0 = (T)a[0], c1 = (T)a[1], c2 = (T)a[2], c3 = (T)a[3], c4 = (T)a[4], c5 = (T)a[5];
	is(sup::polyeval(X, c0), 1);
	is(sup::polyeval(X, c0, c1), 2);
	is(sup::polyeval(X, c0, c1, c2), 3);
	is(sup::polyeval(X, c0, c1, c2, c3), 4);
	is(sup::polyeval(X, c0, c1, c2, c3, c4), 5);
	is(sup::polyeval(X, c0, c1, c2, c3, c4, c5), 6);
	const T g = sup::multiply_add(X, c0, c1);
	if (g != (T)(x * a[0] + a[1])) fail(nm("multiply_add", FT<T>::nm), mon::fmt("%d, %d, %d", x, a[0], a[1]), show(g), mon::fmt("%d", x * a[0] + a[1]));
}
template <class T> static void slightly(Rng & r)
{
	T x = gen<T>(r, r.range(0, C_COUNT - 1), -4, 4);
	if (is_nan(x) || is_inf(x) || x == 0) return;
	const int m = kModes[r.below(4)];
	T d, up;
	{
		Mode M(m);
		d  = fp::round_result_slightly_down(x);
		up = fp::round_result_slightly_up(x);
	}
	seen(nm("round_result_slightly", FT<T>::nm).c_str(), (std::uint64_t)(raw(x) >> (FT<T>::prec - 3)) & 0xffff);
	Mp a(FT<T>::prec), b(FT<T>::prec), c(FT<T>::emax - FT<T>::emin + 3 * FT<T>::prec);
	mset(a.v, x);
	mset(b.v, std::numeric_limits<T>::min());
	for (int s = 0; s < 2; ++s)
	{
		s ? mpfr_add(c.v, a.v, b.v, MPFR_RNDN) : mpfr_sub(c.v, a.v, b.v, MPFR_RNDN);
		const T w = mpfr_zero_p(c.v) ? (m == FE_DOWNWARD ? (T)-0.0 : (T)0) : rounded<T>(c.v, m), g = s ? up : d;
		if (!same(g, w)) fail(nm(s ? "round_result_slightly_up" : "round_result_slightly_down", FT<T>::nm), show(x) + " with rounding " + mode_name(m), show(g), show(w));
	}
}
static void small_tables()
{
	for (int c = -300; c < 400; ++c)
	{
		const int w = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0, g = sup::helpers::digit_to_int(c);
		seen("digit_to_int", (std::uint64_t)w);
		if (g != w) fail("digit_to_int", mon::fmt("%d", c), mon::fmt("%d", g), mon::fmt("%d", w));
	}
}
template <class F> static void run(int id, double n, F && f)
{
	mon::parallel(16, [&](std::uint64_t i) {
		Rng r(mon::mix(SEED * 1000003 + (std::uint64_t)id * 977 + i));
		for (std::uint64_t j = 0; j < (std::uint64_t)(n * SCALE / 16); ++j)
		{
			if (j % 64 == 0) mon::about("support helpers", CCMV_NAME, id, j, i);
			f(r);
		}
	});
}
int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	SEED  = mon::args.seed;
	SCALE = mon::args.budget > 0 ? mon::args.budget : 1;
	builders<float>();
	builders<double>();
	builders<long double>();
	bits_fixed<unsigned char>();
	bits_fixed<unsigned short>();
	bits_fixed<unsigned>();
	bits_fixed<unsigned long>();
	bits_fixed<unsigned long long>();
	nearest_fixed<float>();
	nearest_fixed<double>();
	literals();
	run(0, 30000, [](Rng & r) { encoding<float>(r), encoding<double>(r), encoding<long double>(r); });
	run(1, 40000, [](Rng & r) { bits<unsigned char>(r), bits<unsigned short>(r), bits<unsigned>(r), bits<unsigned long>(r), bits<unsigned long long>(r), top(r); });
	run(2, 20000, [](Rng & r) { directional<float>(r), directional<double>(r), directional<long double>(r); });
	run(3, 30000, [](Rng & r) { nearest_int<float>(r), nearest_int<double>(r); });
	run(4, 20000, [](Rng & r) { sums<float>(r), sums<double>(r), sums<long double>(r); });
	run(5, 20000, [](Rng & r) { scale<float>(r), scale<double>(r), scale<long double>(r); });
	run(6, 20000, [](Rng & r) { narrow<float, double>(r), narrow<float, long double>(r), narrow<double, long double>(r); });
#ifndef CCMV_NO_OPS
	run(7, 8000, [](Rng & r) { arith<float, float>(r), arith<float, double>(r), arith<double, double>(r), arith<double, long double>(r), arith<long double, long double>(r); });
#endif
	small_tables();
	run(9, 4000, [](Rng & r) { environment(r); });
	run(10, 20000, [](Rng & r) { polynomials<float>(r), polynomials<double>(r), polynomials<long double>(r); });
	run(12, 4000, [](Rng & r) { slightly<float>(r), slightly<double>(r); });
	run(8, 8000, [](Rng & r) { parse<ty::uint128_t, 128>(r, "uint128_t"), parse<ty::UInt<96>, 96>(r, "UInt<96>"), parse<ty::UInt<128>, 128>(r, "UInt<128>"), parse<ty::UInt<256>, 256>(r, "UInt<256>"), parse<ty::UInt<320>, 320>(r, "UInt<320>"), parse<std::uint64_t, 64>(r, "uint64_t"); });
	return mon::finish();
}
