// E02: the high-precision helper types (DyadicFloat, NormalizedFloat, DoubleDouble) against GMP/MPFR.
#include <ccmath/internal/types/double_double.hpp>
#include <ccmath/internal/types/dyadic_float.hpp>
#include <ccmath/internal/types/normalized_float.hpp>

#include "core.hpp"
#include "mon.hpp"
#include <cfenv>
#include <gmp.h>

#ifndef CCMV_NAME
#define CCMV_NAME "direct"
#endif
namespace ty  = ccm::types;
namespace sup = ccm::support;
using ty::Sign;

static std::uint64_t SEED;
static double SCALE;

static std::uint64_t hs(const char * s)
{
	std::uint64_t h = 7;
	for (; *s; ++s) h = h * 131 + (unsigned char)*s;
	return h;
}
static void seen(const char * op, std::uint64_t k)
{
	auto & w = mon::self();
	w.ev++;
	w.ck++;
	mon::cover(mon::mix(hs(op)) ^ k);
}
static void fail(const std::string & op, const std::string & args, const std::string & got, const std::string & want)
{
	mon::violation(op + "/" CCMV_NAME, op + " of " + args + " on " CCMV_NAME " is " + got + "; " + want);
}
static std::string mstr(mpfr_srcptr x)
{
	char * s = nullptr;
	mpfr_asprintf(&s, "%Ra", x);
	std::string r(s);
	mpfr_free_str(s);
	return r;
}
// ------------------------------------------------------------------ DyadicFloat
template <std::size_t B> static ty::UInt<B> mant(Rng & r)
{
	ty::UInt<B> m;
	using W = typename ty::UInt<B>::word_type;
	const int kind = r.range(0, 5);
	for (std::size_t i = 0; i < m.WORD_COUNT; ++i)
		switch (kind < 5 ? kind : r.range(0, 4))
		{
		case 0: m.val[i] = (W)r.next(); break;
		case 1: m.val[i] = 0; break;
		case 2: m.val[i] = (W)~(W)0; break;
		case 3: m.val[i] = (W)((W)1 << r.range(0, (int)sizeof(W) * 8 - 1)); break;
		default: m.val[i] = (W)((W)~(W)0 << r.range(0, (int)sizeof(W) * 8 - 1)); break;
		}
	if (r.range(0, 5) == 0) // only the top k bits
	{
		const int k = r.range(1, (int)B);
		for (std::size_t i = 0; i < m.WORD_COUNT; ++i)
		{
			const int lo = (int)(B - (std::size_t)k) - (int)i * (int)(sizeof(W) * 8);
			if (lo >= (int)(sizeof(W) * 8)) m.val[i] = 0;
			else if (lo > 0)
				m.val[i] = (W)(m.val[i] & ((W)~(W)0 << lo));
		}
	}
	m.val[m.WORD_COUNT - 1] |= (W)((W)1 << (sizeof(W) * 8 - 1));
	return m;
}
template <std::size_t B> static void val(mpfr_t v, const ty::DyadicFloat<B> & d) // exact; v has at least B bits
{
	using W = typename ty::UInt<B>::word_type;
	mpz_t z;
	mpz_init(z);
	W w[ty::UInt<B>::WORD_COUNT];
	for (std::size_t i = 0; i < ty::UInt<B>::WORD_COUNT; ++i) w[i] = d.mantissa.val[i];
	mpz_import(z, ty::UInt<B>::WORD_COUNT, -1, sizeof(W), 0, 0, w);
	mpfr_set_z_2exp(v, z, d.exponent, MPFR_RNDN);
	mpz_clear(z);
	if (d.sign.is_neg()) mpfr_neg(v, v, MPFR_RNDN);
}
template <std::size_t B> static bool normal(const ty::DyadicFloat<B> & d)
{
	using W = typename ty::UInt<B>::word_type;
	return (d.mantissa.val[ty::UInt<B>::WORD_COUNT - 1] >> (sizeof(W) * 8 - 1)) != 0;
}
template <std::size_t B> static ty::DyadicFloat<B> dya(Rng & r, int lo, int hi)
{
	return ty::DyadicFloat<B>(r.range(0, 1) ? Sign::NEG : Sign::POS, r.range(lo, hi), mant<B>(r));
}
template <std::size_t B> static std::string nm(const char * op) { return mon::fmt("%s<%zu>", op, B); }
template <class T> static std::string show_flags(int f) { return std::string(f & FE_OVERFLOW ? " OVERFLOW" : "") + (f & FE_UNDERFLOW ? " UNDERFLOW" : "") + (f & FE_INEXACT ? " INEXACT" : "") + (f & FE_INVALID ? " INVALID" : "") + (f & FE_DIVBYZERO ? " DIVBYZERO" : ""); }

template <std::size_t B, class T, bool S> __attribute__((noinline)) static T generic(const ty::DyadicFloat<B> & d) { return d.template generic_as<T, S>(); }
template <std::size_t B, class T> __attribute__((noinline)) static T plain(const ty::DyadicFloat<B> & d) { return d.template as<T, false>(); }
template <std::size_t B, class T> __attribute__((noinline)) static T cast(const ty::DyadicFloat<B> & d) { return static_cast<T>(d); }
#ifdef CCMV_AS_SIGNAL
template <std::size_t B, class T> __attribute__((noinline)) static T plain_s(const ty::DyadicFloat<B> & d) { return d.template as<T, true>(); }
#endif

// conversion to a built-in format in each rounding mode: the correctly rounded value, and for the signalling form the IEEE flags
template <std::size_t B, class T> static void convert(Rng & r)
{
	if constexpr (FT<T>::prec < B)
	{
		constexpr int p = FT<T>::prec, emin = FT<T>::emin, emax = FT<T>::emax; // min normal 2^emin, top binade 2^emax
		ty::UInt<B> m	= mant<B>(r);
		int top;	// exponent of the leading bit
		switch (r.range(0, 7))
		{
		case 0: top = r.range(emin - p - 6, emin + 3); break;
		case 1: top = r.range(emax - 2, emax + 3); break;
		case 2: top = r.range(emin, emax); break;
		case 3: top = emin - p + r.range(-2, 2); break;
		case 4: top = r.range(-40, 40); break;
		case 5: top = r.range(emin, emin + p + 4); break; // the low part of the result is subnormal
		case 6: top = r.range(2 * emin - 100, 2 * emax + 100); break;
		default: top = emin - 1; break;
		}
		// put the interesting bits at the rounding position: ties, neighbours of ties, exact values, carries
		const int kept = top >= emin ? p : p - (emin - top); // bits of the mantissa that survive
		if (kept >= 0 && kept < (int)B && r.range(0, 2))
		{
			using W = typename ty::UInt<B>::word_type;
			const int tail = (int)B - kept; // discarded bits
			const int k	   = r.range(0, 5);
			auto put	   = [&](int bit, bool v) { W & w = m.val[(std::size_t)bit / (sizeof(W) * 8)]; const W q = (W)((W)1 << (bit % (int)(sizeof(W) * 8))); w = (W)(v ? w | q : w & (W)~q); };
			for (int b = 0; b < tail && b < (int)B - 1; ++b) put(b, k == 2 || k == 5 ? b != tail - 1 : false);
			if (k != 0 && k != 2 && tail - 1 < (int)B - 1) put(tail - 1, true);
			if (k == 3) put(0, true);
			if (k == 4 || k == 5)
				for (int b = tail; b < (int)B; ++b) put(b, true); // rounds up to the next binade
		}
		const ty::DyadicFloat<B> d(r.range(0, 1) ? Sign::NEG : Sign::POS, top - (int)B + 1, m);
		mpfr_t v;
		mpfr_init2(v, B);
		val(v, d);
		const auto args = [&](int mode) { return mstr(v) + " (" + mode_name(mode) + ")"; };
		for (int mode : kModes)
		{
			const T want = mp_round<T>([&](mpfr_ptr o, mpfr_rnd_t q) { return mpfr_set(o, v, q); }, mode);
			mpfr_t w;
			mpfr_init2(w, p);
			const int inex = mpfr_set(w, v, mrnd(mode)); // unbounded exponent
			const bool ovf = mpfr_get_exp(w) > emax + 1;
			mpfr_clear(w);
			mpfr_t x;
			mpfr_init2(x, p);
			mset(x, want);
			const bool exact = !std::isinf(want) && mpfr_cmp(x, v) == 0;
			mpfr_clear(x);
			(void)inex;
			std::fesetround(mode);
			const T g = generic<B, T, false>(d);
			const T a = plain<B, T>(d);
			const T c = cast<B, T>(d);
			std::feclearexcept(FE_ALL_EXCEPT);
			const T s	 = generic<B, T, true>(d);
			const int fl = std::fetestexcept(FE_ALL_EXCEPT);
#ifdef CCMV_AS_SIGNAL
			std::feclearexcept(FE_ALL_EXCEPT);
			const T as	  = plain_s<B, T>(d);
			const int afl = std::fetestexcept(FE_ALL_EXCEPT);
#endif
			std::fesetround(FE_TONEAREST);
			const std::uint64_t key = mon::mix(B * 8 + sizeof(T)) ^ (std::uint64_t)((top + 40000) * 8 + mode / 1024);
			seen("generic_as", key);
			seen("as", key ^ 1);
			if (!same(g, want)) fail(nm<B>("DyadicFloat::generic_as") + "->" + FT<T>::nm, args(mode), show(g), "correctly rounded: " + show(want));
			if (!same(s, want)) fail(nm<B>("DyadicFloat::generic_as, signalling,") + "->" + FT<T>::nm, args(mode), show(s), "correctly rounded: " + show(want));
			if (!same(a, want)) fail(nm<B>("DyadicFloat::as") + "->" + FT<T>::nm, args(mode), show(a), "correctly rounded: " + show(want));
			if (!same(c, want)) fail(nm<B>("DyadicFloat conversion operator") + "->" + FT<T>::nm, args(mode), show(c), "correctly rounded: " + show(want));
			const bool tiny_after = std::fabs(want) < std::numeric_limits<T>::min(), tiny_before = mpfr_get_exp(v) <= emin;
			auto flags = [&](const char * what, int f) {
				if (((f & FE_INEXACT) != 0) != !exact) fail(nm<B>(what) + "->" + FT<T>::nm, args(mode), "flags" + show_flags<T>(f), exact ? "exact, no flag is due" : "INEXACT is due");
				if (((f & FE_OVERFLOW) != 0) != ovf) fail(nm<B>(what) + "->" + FT<T>::nm, args(mode), "flags" + show_flags<T>(f), ovf ? "OVERFLOW is due" : "no OVERFLOW is due");
				const bool u = (f & FE_UNDERFLOW) != 0;
				if ((u && (exact || !tiny_before)) || (!u && !exact && tiny_after)) fail(nm<B>(what) + "->" + FT<T>::nm, args(mode), "flags" + show_flags<T>(f), exact || !tiny_before ? "no UNDERFLOW is due" : "UNDERFLOW is due");
				if (f & (FE_INVALID | FE_DIVBYZERO)) fail(nm<B>(what) + "->" + FT<T>::nm, args(mode), "flags" + show_flags<T>(f), "neither INVALID nor DIVBYZERO is due");
			};
			flags("flags of DyadicFloat::generic_as", fl);
#ifdef CCMV_AS_SIGNAL
			if (!same(as, want)) fail(nm<B>("DyadicFloat::as, signalling,") + "->" + FT<T>::nm, args(mode), show(as), "correctly rounded: " + show(want));
			(void)afl;
#endif
		}
		mpfr_clear(v);
	}
}
// construction from a built-in value is exact and normalized
template <std::size_t B, class T> static void from(Rng & r)
{
	if constexpr (FT<T>::prec - 1 < (int)B)
	{
		T x;
		do
			x = gen<T>(r, r.range(0, C_COUNT - 1), FT<T>::emin, FT<T>::emax);
		while (is_nan(x) || is_inf(x));
		const ty::DyadicFloat<B> d(x);
		mpfr_t v, w;
		mpfr_init2(v, 400);
		mpfr_init2(w, 400);
		val(v, d);
		mset(w, x);
		seen("DyadicFloat(T)", mon::mix(B) ^ (std::uint64_t)(bits(x) >> (FT<T>::total - 16)));
		if (mpfr_cmp(v, w) != 0 || (x != 0 && !normal(d)) || d.sign.is_neg() != std::signbit(x)) fail(nm<B>("DyadicFloat construction from ") + FT<T>::nm, show(x), mstr(v), "exact value, leading bit set, sign kept");
		mpfr_clear(v);
		mpfr_clear(w);
	}
}
// |got - exact| <= ulps units of 2^(e), where e is the exponent of the unit
static bool within(mpfr_srcptr got, mpfr_srcptr exact, long unit_exp, double units)
{
	mpfr_t d, u;
	mpfr_init2(d, 2000);
	mpfr_init2(u, 200);
	mpfr_sub(d, got, exact, MPFR_RNDN);
	mpfr_set_d(u, units, MPFR_RNDN);
	mpfr_mul_2si(u, u, unit_exp, MPFR_RNDN);
	const bool ok = mpfr_cmpabs(d, u) <= 0;
	mpfr_clear(d);
	mpfr_clear(u);
	return ok;
}
template <std::size_t B> static void arith(Rng & r)
{
	using D	  = ty::DyadicFloat<B>;
	const D a = dya<B>(r, -300, 300);
	D b		  = dya<B>(r, -300, 300);
	switch (r.range(0, 4))
	{
	case 0: b.exponent = a.exponent + r.range(-3, 3); break;
	case 1: b.exponent = a.exponent + r.range(-(int)B - 3, (int)B + 3); break;
	case 2: b.exponent = a.exponent; break;
	case 3: // nearly cancelling
		b	   = a;
		b.sign = a.sign.is_neg() ? Sign::POS : Sign::NEG;
		b.mantissa.val[0] = (typename ty::UInt<B>::word_type)(b.mantissa.val[0] ^ (r.next() >> r.range(1, 63))); // the leading bit stays set
		break;
	default: break;
	}
	mpfr_t x, y, z, g;
	mpfr_init2(x, B);
	mpfr_init2(y, B);
	mpfr_init2(z, 1600);
	mpfr_init2(g, 1600);
	val(x, a);
	val(y, b);
	const auto args = [&] { return mstr(x) + ", " + mstr(y); };
	const std::uint64_t key = mon::mix(B) ^ (std::uint64_t)((a.exponent - b.exponent + 2000) * 4 + (a.sign.is_neg() ? 2 : 0) + (b.sign.is_neg() ? 1 : 0));
	// sums: truncated after aligning to the larger operand; two of its last places at most
	const int big = a.exponent > b.exponent ? a.exponent : b.exponent;
	for (int sub = 0; sub < 2; ++sub)
	{
		const D s = sub ? ty::quick_sub(a, b) : ty::quick_add(a, b);
		if (sub) mpfr_sub(z, x, y, MPFR_RNDN);
		else
			mpfr_add(z, x, y, MPFR_RNDN);
		val(g, s);
		seen(sub ? "quick_sub" : "quick_add", key); mon::sample_once(sub ? "quick_sub" : "quick_add", [&] { return mon::fmt("%s<%zu> of %s: %s", sub ? "quick_sub" : "quick_add", B, args().c_str(), mstr(g).c_str()); });
		const std::string n = nm<B>(sub ? "quick_sub" : "quick_add");
		if (!within(g, z, big, 2)) fail(n, args(), mstr(g), "exact: " + mstr(z));
		if (!mpfr_zero_p(g) && !normal(s)) fail(n, args(), mstr(g), "the leading bit of the mantissa is not set");
		if (mpfr_sgn(g) * mpfr_sgn(z) < 0) fail(n, args(), mstr(g), "wrong sign; exact: " + mstr(z));
		// operands with the same exponent lose nothing but a carried-out bit
		if (a.exponent == b.exponent && mpfr_get_exp(z) <= big + (long)B && !within(g, z, big, 0)) fail(n, args(), mstr(g), "the sum is representable: " + mstr(z));
		if (mpfr_sgn(z) == 0 && mpfr_sgn(g) != 0) fail(n, args(), mstr(g), "the sum is zero");
	}
	// products
	{
		const D q = ty::quick_mul(a, b);
		mpfr_mul(z, x, y, MPFR_RNDN);
		val(g, q);
		seen("quick_mul", key); mon::sample_once("quick_mul", [&] { return mon::fmt("quick_mul<%zu> of %s: %s", B, args().c_str(), mstr(g).c_str()); });
		const long ulp = mpfr_get_exp(z) - (long)B;
		// the high product drops at most WORD_COUNT-1 units and is truncated; one shift doubles that
		if (!within(g, z, ulp, 2.0 * ((double)ty::UInt<B>::WORD_COUNT - 1) + 2.0) || mpfr_cmpabs(g, z) > 0) fail(nm<B>("quick_mul"), args(), mstr(g), "exact: " + mstr(z));
		if (!normal(q)) fail(nm<B>("quick_mul"), args(), mstr(g), "the leading bit of the mantissa is not set");
		for (int mode : kModes)
		{
			std::fesetround(mode);
			volatile int barrier = 0;
			(void)barrier;
			const D t = ty::rounded_mul(a, b);
			std::fesetround(FE_TONEAREST);
			mpfr_t w;
			mpfr_init2(w, B);
			mpfr_mul(w, x, y, mrnd(mode));
			val(g, t);
			seen("rounded_mul", key ^ (std::uint64_t)mode); mon::sample_once("rounded_mul", [&] { return mon::fmt("rounded_mul<%zu> of %s in %s: %s", B, args().c_str(), mode_name(mode), mstr(g).c_str()); });
			if (mpfr_cmp(g, w) != 0) fail(nm<B>("rounded_mul"), args() + " (" + mode_name(mode) + ")", mstr(g), "correctly rounded: " + mstr(w));
			std::fesetround(mode);
			const D u = ty::rounded_div(a, b);
			std::fesetround(FE_TONEAREST);
			mpfr_div(w, x, y, mrnd(mode));
			val(g, u);
			seen("rounded_div", key ^ (std::uint64_t)mode); mon::sample_once("rounded_div", [&] { return mon::fmt("rounded_div<%zu> of %s in %s: %s", B, args().c_str(), mode_name(mode), mstr(g).c_str()); });
			if (mpfr_cmp(g, w) != 0) fail(nm<B>("rounded_div"), args() + " (" + mode_name(mode) + ")", mstr(g), "correctly rounded: " + mstr(w));
			mpfr_clear(w);
		}
	}
	{
		const D m = ty::multiply_add(a, b, dya<B>(r, -300, 300));
		(void)m;
		const int k = r.range(-4000, 4000);
		const D s	= ty::mul_pow_2(a, k);
		val(g, s);
		mpfr_mul_2si(z, x, k, MPFR_RNDN);
		seen("mul_pow_2", key ^ (std::uint64_t)(k + 4000));
		if (mpfr_cmp(g, z) != 0) fail(nm<B>("mul_pow_2"), mstr(x) + ", " + std::to_string(k), mstr(g), "exact: " + mstr(z));
		val(g, -a);
		mpfr_neg(z, x, MPFR_RNDN);
		if (mpfr_cmp(g, z) != 0) fail(nm<B>("negation of DyadicFloat"), mstr(x), mstr(g), "exact: " + mstr(z));
		if (a.get_unbiased_exponent() != (int)mpfr_get_exp(x) - 1) fail(nm<B>("get_unbiased_exponent"), mstr(x), std::to_string(a.get_unbiased_exponent()), "exact: " + std::to_string(mpfr_get_exp(x) - 1));
		// power: every quick_mul adds its own error, relative bound (2W+1) units per multiplication, about 2*power of them accumulated
		D sm		   = a;
		sm.exponent	   = -(int)B + r.range(-2, 2);
		const unsigned e = (unsigned)r.range(0, 24);
		const D pw		 = ty::pow_n(sm, e);
		mpfr_t xs;
		mpfr_init2(xs, B);
		val(xs, sm);
		mpfr_set_prec(z, 16 * B);
		mpfr_pow_ui(z, xs, e, MPFR_RNDN);
		val(g, pw);
		seen("pow_n", mon::mix(B) ^ e);
		if (!within(g, z, mpfr_get_exp(z) - (long)B, (2.0 * (double)ty::UInt<B>::WORD_COUNT + 2.0) * 2.0 * (e + 1.0))) fail(nm<B>("pow_n"), mstr(xs) + ", " + std::to_string(e), mstr(g), "exact: " + mstr(z));
		mpfr_clear(xs);
	}
	// integers
	{
		D i = a;
		i.exponent = r.range(-(int)B - 4, 0);
		if (r.range(0, 3) == 0) i.exponent = -(int)B + r.range(-1, 2);
		if (r.range(0, 3) == 0) i.exponent = -r.range(0, 3);
		if (r.range(0, 9) == 0) i.exponent = -r.range((int)B, 3 * (int)B);
		mpfr_t iv;
		mpfr_init2(iv, B + 8);
		val(iv, i);
		mpz_t want, got, mod;
		mpz_inits(want, got, mod, nullptr);
		mpz_setbit(mod, B);
		auto check = [&](const char * n, const ty::UInt<B> & u, mpfr_rnd_t q, const char * extra) {
			using W = typename ty::UInt<B>::word_type;
			W w[ty::UInt<B>::WORD_COUNT];
			for (std::size_t k = 0; k < ty::UInt<B>::WORD_COUNT; ++k) w[k] = u.val[k];
			mpz_import(got, ty::UInt<B>::WORD_COUNT, -1, sizeof(W), 0, 0, w);
			mpfr_get_z(want, iv, q);
			mpz_fdiv_r(want, want, mod);
			seen(n, mon::mix(B) ^ (std::uint64_t)(i.exponent + 1000) ^ hs(extra));
			if (mpz_cmp(want, got) != 0)
			{
				char * s1 = mpz_get_str(nullptr, 16, got);
				char * s2 = mpz_get_str(nullptr, 16, want);
				fail(nm<B>(n) + extra, mstr(iv), std::string("0x") + s1, std::string("exact modulo the width: 0x") + s2);
				free(s1);
				free(s2);
			}
		};
		check("as_mantissa_type", i.as_mantissa_type(), MPFR_RNDZ, "");
		for (int mode : kModes)
		{
			std::fesetround(mode);
			int dir			= 9;
			const auto u	= i.as_mantissa_type_rounded(&dir);
			std::fesetround(FE_TONEAREST);
			check("as_mantissa_type_rounded", u, mrnd(mode), mode_name(mode));
			mpfr_t w;
			mpfr_init2(w, B + 8);
			const int t = mpfr_rint(w, iv, mrnd(mode)); // sign of (rounded - exact)
			const int tm = mpfr_sgn(iv) < 0 ? -t : t;	// of the magnitude
			const int wd = tm > 0 ? 1 : tm < 0 ? -1 : 0;
			if (dir != wd) fail(nm<B>("rounding direction of as_mantissa_type_rounded"), mstr(iv) + " (" + mode_name(mode) + ")", std::to_string(dir), "magnitude moved by " + std::to_string(wd));
			mpfr_clear(w);
		}
		mpz_clears(want, got, mod, nullptr);
		mpfr_clear(iv);
	}
	mpfr_clears(x, y, z, g, (mpfr_ptr)0);
}
// ------------------------------------------------------------------ NormalizedFloat
template <class T> static void normalized(Rng & r)
{
	using N = ty::NormalizedFloat<T>;
	constexpr int p = FT<T>::prec, emin = FT<T>::emin, emax = FT<T>::emax;
	T x;
	do
		x = gen<T>(r, r.range(0, C_COUNT - 1), emin, emax);
	while (is_nan(x) || is_inf(x) || x == 0);
	const N n(x);
	const T back = static_cast<T>(n);
	seen("NormalizedFloat", (std::uint64_t)(bits(x) >> (FT<T>::total - 16)));
	if (!same(back, x)) fail(std::string("NormalizedFloat round trip for ") + FT<T>::nm, show(x), show(back), "the value it was made from");
	// scaling by a power of two and rounding to nearest even, with overflow to infinity and gradual underflow
	int e = r.range(-2 * p - 10, 2 * p + 10);
	if (r.range(0, 2) == 0) e = emin - std::ilogb(x) - r.range(-2, p + 2);
	if (r.range(0, 4) == 0) e = emax - std::ilogb(x) + r.range(-2, 2);
	const T s	 = static_cast<T>(n.mul2(e));
	const T want = mp_round<T>([&](mpfr_ptr o, mpfr_rnd_t q) { mpfr_t v; mpfr_init2(v, p); const mpfr_exp_t e0 = mpfr_get_emin(), e1 = mpfr_get_emax(); mpfr_set_emin(-100000); mpfr_set_emax(100000); mset(v, x); mpfr_mul_2si(v, v, e, MPFR_RNDN); const int t = mpfr_set(o, v, q); mpfr_clear(v); mpfr_set_emin(e0); mpfr_set_emax(e1); return t; }, FE_TONEAREST);
	seen("NormalizedFloat::mul2", (std::uint64_t)(e + 40000) * 4 + sizeof(T) / 8); mon::sample_once(FT<T>::nm, [&] { return mon::fmt("NormalizedFloat<%s> %s times 2^%d: %s", FT<T>::nm, show(x).c_str(), e, show(s).c_str()); });
	if (!same(s, want)) fail(std::string("NormalizedFloat::mul2 for ") + FT<T>::nm, show(x) + ", " + std::to_string(e), show(s), "correctly rounded: " + show(want));
	T y;
	do
		y = r.range(0, 2) ? gen<T>(r, r.range(0, C_COUNT - 1), emin, emax) : (r.range(0, 1) ? (T)-x : step(x, r.range(0, 1) ? 1 : -1));
	while (is_nan(y) || is_inf(y) || y == 0);
	const int c = n.cmp(N(y));
	seen("NormalizedFloat::cmp", mon::mix((std::uint64_t)(bits(x) >> (FT<T>::total - 10))) ^ (std::uint64_t)(bits(y) >> (FT<T>::total - 10)));
	const int wc = x < y ? -1 : x > y ? 1 : 0;
	if ((c < 0 ? -1 : c > 0 ? 1 : 0) != wc) fail(std::string("NormalizedFloat::cmp for ") + FT<T>::nm, show(x) + ", " + show(y), std::to_string(c), "ordering " + std::to_string(wc));
}
// ------------------------------------------------------------------ DoubleDouble
static void dd(Rng & r)
{
	auto pick = [&](int lo, int hi) {
		double v = std::ldexp(1.0 + (double)(r.next() >> 12) * 0x1p-52, r.range(lo, hi));
		if (r.range(0, 2) == 0) v = std::ldexp((double)(std::int64_t)(r.next() >> r.range(11, 63)) + 1.0, r.range(lo, hi) - 52);
		return r.range(0, 1) ? -v : v;
	};
	double a = pick(-100, 100), b = pick(-100, 100);
	Mp s(2200), t(2200), u(2200);
	auto sum = [&](const ty::DoubleDouble & d) { mset(t.v, d.hi); mset(u.v, d.lo); mpfr_add(t.v, t.v, u.v, MPFR_RNDN); };
	// error-free product: the exact product, in round to nearest, inside the range
	const auto m = ty::exact_mult(a, b);
	mset(s.v, a);
	mset(u.v, b);
	mpfr_mul(s.v, s.v, u.v, MPFR_RNDN);
	sum(m);
	const std::uint64_t key = mon::mix((std::uint64_t)(std::ilogb(a) + 200)) ^ (std::uint64_t)(std::ilogb(b) + 200);
	seen("exact_mult", key);
	if (mpfr_cmp(t.v, s.v) != 0 || m.hi != a * b) fail("exact_mult", show(a) + ", " + show(b), show(m.hi) + " + " + show(m.lo), "exact product " + mstr(s.v));
	if (std::fabs(b) > std::fabs(a)) std::swap(a, b);
	const auto q = ty::exact_add(a, b);
	mset(s.v, a);
	mset(u.v, b);
	mpfr_add(s.v, s.v, u.v, MPFR_RNDN);
	sum(q);
	seen("exact_add", key); mon::sample_once("exact_add", [&] { return "exact_add of " + show(a) + ", " + show(b) + ": " + show(q.hi) + " + " + show(q.lo); });
	if (mpfr_cmp(t.v, s.v) != 0 || q.hi != a + b) fail("exact_add", show(a) + ", " + show(b), show(q.hi) + " + " + show(q.lo), "exact sum " + mstr(s.v));
	const auto sp = ty::split(a);
	seen("split", key);
	if (sp.hi + sp.lo != a || std::fabs(sp.lo) > std::fabs(std::ldexp(a, -25)) ) fail("split", show(a), show(sp.hi) + " + " + show(sp.lo), "two halves whose sum is the argument");
	// double-double operations: relative error within a few 2^-104
	ty::DoubleDouble x{ a, a * 0x1p-54 * ((double)(std::int64_t)r.next() * 0x1p-63) }, y{ b, b * 0x1p-54 * ((double)(std::int64_t)r.next() * 0x1p-63) };
	auto rel = [&](const char * n, const ty::DoubleDouble & g, int log2bound) {
		sum(g);
		mpfr_sub(t.v, t.v, s.v, MPFR_RNDN);
		seen(n, key);
		if (!mpfr_zero_p(t.v) && (mpfr_zero_p(s.v) || mpfr_get_exp(t.v) - mpfr_get_exp(s.v) > log2bound)) fail(n, show(x.hi) + "+" + show(x.lo) + ", " + show(y.hi) + "+" + show(y.lo), show(g.hi) + " + " + show(g.lo), "exact " + mstr(s.v));
	};
	auto load = [&](Mp & o, const ty::DoubleDouble & d) { Mp k(200); mset(o.v, d.hi); mset(k.v, d.lo); mpfr_add(o.v, o.v, k.v, MPFR_RNDN); };
	Mp X(2200), Y(2200);
	load(X, x);
	load(Y, y);
	mpfr_mul(s.v, X.v, Y.v, MPFR_RNDN);
	rel("quick_mult(DoubleDouble, DoubleDouble)", ty::quick_mult(x, y), -99);
	mset(t.v, a);
	mpfr_mul(s.v, t.v, Y.v, MPFR_RNDN);
	rel("quick_mult(double, DoubleDouble)", ty::quick_mult(a, y), -101);
	if ((a > 0) == (b > 0)) // without cancellation
	{
		mpfr_add(s.v, X.v, Y.v, MPFR_RNDN);
		rel("add(DoubleDouble, DoubleDouble)", ty::add(x, y), -99);
		mset(t.v, b);
		mpfr_add(s.v, X.v, t.v, MPFR_RNDN);
		rel("add(DoubleDouble, double)", ty::add(x, b), -101);
	}
}
// constant evaluation agrees with execution
template <std::size_t B> constexpr ty::DoubleDouble kdd(double a, double b) { return ty::quick_mult(ty::exact_mult(a, b), ty::exact_add(a, b)); }
constexpr double ka = 0x1.23456789abcdep3, kb = 0x1.fedcba9876543p-5;
static void constants()
{
	volatile double va = ka, vb = kb;
	constexpr auto k = kdd<0>(ka, kb);
	const auto v	 = kdd<0>(va, vb);
	if (!same(k.hi, v.hi) || !same(k.lo, v.lo)) fail("constant DoubleDouble product", show(ka) + ", " + show(kb), show(k.hi) + " + " + show(k.lo), "at run time " + show(v.hi) + " + " + show(v.lo));
	constexpr double g = ty::DyadicFloat<128>(Sign::POS, -1180, ty::UInt<128>(0x123456789abcdefull)).generic_as<double, false>();
	const double h	   = ty::DyadicFloat<128>(Sign::POS, -1180 + (int)(va * 0), ty::UInt<128>(0x123456789abcdefull)).generic_as<double, false>();
	if (!same(g, h)) fail("constant DyadicFloat::generic_as", "a subnormal", show(g), "at run time " + show(h));
}
template <std::size_t B> static void dyadic_all(int id, double n)
{
	mon::parallel(16, [&](std::uint64_t i) {
		Rng r(mon::mix(SEED * 1000003 + (std::uint64_t)id * 977 + i));
		for (std::uint64_t j = 0; j < (std::uint64_t)(n / 16); ++j)
		{
			mon::about(B == 64 ? "DyadicFloat<64>" : B == 96 ? "DyadicFloat<96>" : B == 128 ? "DyadicFloat<128>" : B == 192 ? "DyadicFloat<192>" : "DyadicFloat<256>", CCMV_NAME, 0, j, i);
			convert<B, float>(r);
			convert<B, double>(r);
			convert<B, long double>(r);
			from<B, float>(r);
			from<B, double>(r);
			from<B, long double>(r);
			if (j % 4 == 0) arith<B>(r);
		}
	});
}
int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	SEED  = mon::args.seed;
	SCALE = mon::args.budget > 0 ? mon::args.budget : 1;
	constants();
	dyadic_all<64>(0, 6000 * SCALE);
	dyadic_all<128>(1, 6000 * SCALE);
	dyadic_all<192>(2, 4000 * SCALE);
	dyadic_all<256>(3, 4000 * SCALE);
	mon::parallel(16, [&](std::uint64_t i) {
		Rng r(mon::mix(SEED * 1000003 + 8888 + i));
		for (std::uint64_t j = 0; j < (std::uint64_t)(4000 * SCALE); ++j)
		{
			normalized<float>(r);
			normalized<double>(r);
			normalized<long double>(r);
			dd(r);
		}
	});
	return mon::finish();
}
