// E01: the wide integers (ccm::types::BigInt) against GMP. Every value is read back word by word; GMP's mpz is the only oracle.
#include <ccmath/internal/types/big_int.hpp>

#include "core.hpp"
#include "mon.hpp"
#include <gmp.h>
#include <type_traits>

#ifndef CCMV_NAME
#define CCMV_NAME "direct"
#endif
#ifndef CCMV_PART
#define CCMV_PART 0 // 1: short types and conversions, 2: long types; split to keep compiles short
#endif
namespace ty  = ccm::types;
namespace sup = ccm::support;

static std::uint64_t SEED;
static double SCALE;

struct Z
{
	mpz_t v;
	Z() { mpz_init(v); }
	Z(long x) { mpz_init_set_si(v, x); }
	Z(const Z & o) { mpz_init_set(v, o.v); }
	Z & operator=(const Z & o)
	{
		mpz_set(v, o.v);
		return *this;
	}
	~Z() { mpz_clear(v); }
};
static std::string str(const Z & z)
{
	char * s = mpz_get_str(nullptr, 16, z.v);
	std::string r(s);
	void (*f)(void *, size_t);
	mp_get_memory_functions(nullptr, nullptr, &f);
	f(s, r.size() + 1);
	return r[0] == '-' ? "-0x" + r.substr(1) : "0x" + r;
}
// value of x as the unsigned number its words spell
template <class B> static Z uns(const B & x)
{
	Z z;
	typename B::word_type w[B::WORD_COUNT];
	for (std::size_t i = 0; i < B::WORD_COUNT; ++i) w[i] = x.val[i];
	mpz_import(z.v, B::WORD_COUNT, -1, sizeof w[0], 0, 0, w);
	return z;
}
static Z sgn(Z z, std::size_t bits)
{
	if (mpz_tstbit(z.v, bits - 1))
	{
		Z m;
		mpz_setbit(m.v, bits);
		mpz_sub(z.v, z.v, m.v);
	}
	return z;
}
template <class B> static Z val(const B & x) { return B::SIGNED ? sgn(uns(x), B::BITS) : uns(x); }
static Z modp(const Z & a, std::size_t bits)
{
	Z z;
	mpz_fdiv_r_2exp(z.v, a.v, bits);
	return z;
}
template <class T> static Z ofint(T x)
{
	Z z;
	using U = std::conditional_t<(sizeof(T) > 8), unsigned __int128, std::uint64_t>;
	const bool neg = x < 0;
	U m = neg ? (U)0 - (U)x : (U)x;
	mpz_import(z.v, 1, -1, sizeof m, 0, 0, &m);
	if (neg) mpz_neg(z.v, z.v);
	return z;
}
template <class B> static std::string tn() { return mon::fmt("%s<%zu, %zu-bit words>", B::SIGNED ? "Int" : "UInt", B::BITS, B::WORD_SIZE); }
template <class B> static B gen(Rng & r)
{
	B x;
	const int kind = r.range(0, 9);
	for (std::size_t i = 0; i < B::WORD_COUNT; ++i)
	{
		using W = typename B::word_type;
		W w = 0;
		switch (kind < 7 ? kind : r.range(0, 6))
		{
		case 0: w = (W)r.next(); break;
		case 1: w = 0; break;
		case 2: w = (W)~(W)0; break;
		case 3: w = (W)((W)1 << r.range(0, (int)B::WORD_SIZE - 1)); break;
		case 4: w = (W)((W)~(W)0 << r.range(0, (int)B::WORD_SIZE - 1)); break;
		case 5: w = (W)((W)~(W)0 >> r.range(0, (int)B::WORD_SIZE - 1)); break;
		default: w = (W)(i == 0 ? r.next() >> r.range(0, 63) : 0); break;
		}
		x.val[i] = w;
	}
	if (kind == 1) x.val[0] = (typename B::word_type)r.range(0, 3);
	if (kind == 2 && r.range(0, 1)) x.val[0] = (typename B::word_type)(x.val[0] - (typename B::word_type)r.range(0, 3));
	if (kind == 3) // a single bit, or its neighbour
	{
		for (std::size_t i = 0; i < B::WORD_COUNT; ++i) x.val[i] = 0;
		const int k = r.range(0, (int)B::BITS - 1);
		x.val[(std::size_t)k / B::WORD_SIZE] = (typename B::word_type)((typename B::word_type)1 << (k % (int)B::WORD_SIZE));
		if (r.range(0, 1)) // minus one
			for (std::size_t i = 0; i < B::WORD_COUNT; ++i)
				if (x.val[i]-- != 0) break;
	}
	if (kind == 8) // short value
		for (std::size_t i = (std::size_t)r.range(0, (int)B::WORD_COUNT - 1) + 1; i < B::WORD_COUNT; ++i) x.val[i] = 0;
	if (kind == 9 && B::WORD_COUNT > 0) x.val[B::WORD_COUNT - 1] = (typename B::word_type)((typename B::word_type)1 << (B::WORD_SIZE - 1));
	return x;
}
struct Ctx
{
	std::string name;
	std::uint64_t id;
};
template <class B> static const Ctx & ctx()
{
	static const Ctx c{ tn<B>(), B::BITS * 64 + B::WORD_SIZE + B::SIGNED };
	return c;
}
static void fail(const Ctx & c, const char * op, const std::string & args, const std::string & got, const std::string & want)
{
	mon::violation(mon::fmt("%s/%s/%s", op, c.name.c_str(), CCMV_NAME), mon::fmt("%s of %s for %s on %s is %s; exact: %s", op, args.c_str(), c.name.c_str(), CCMV_NAME, got.c_str(), want.c_str()));
}
static std::uint64_t hs(const char * s)
{
	std::uint64_t h = 7;
	for (; *s; ++s) h = h * 131 + (unsigned char)*s;
	return h;
}
static void seen(const Ctx & c, const char * op, const Z & a, const Z & b)
{
	auto & w = mon::self();
	w.ev++;
	w.ck++;
	mon::cover(mon::mix(hs(op) + c.id) ^ (mpz_sizeinbase(a.v, 2) * 4096 + mpz_sizeinbase(b.v, 2) * 8 + (mpz_sgn(a.v) < 0) * 2 + (mpz_sgn(b.v) < 0)));
	mon::sample_once(op, [&] { return mon::fmt("%s of %s, %s for %s on %s", op, str(a).c_str(), str(b).c_str(), c.name.c_str(), CCMV_NAME); });
}
static std::string list(const Z & a, const Z & b) { return str(a) + ", " + str(b); }
static void words(const Ctx & c, const char * op, const Z & a, const Z & b, const Z & g, std::size_t n, const Z & want)
{
	seen(c, op, a, b);
	const Z w = modp(want, n);
	if (mpz_cmp(g.v, w.v) != 0) fail(c, op, list(a, b), str(g), str(w));
}
// the operation's result, as words, against a number modulo 2^bits
#define word(op, a, b, got, want)                                                                                                     \
	do                                                                                                                                \
	{                                                                                                                                 \
		const auto & got_ = got;                                                                                                      \
		words(C, op, a, b, uns(got_), std::decay_t<decltype(got_)>::BITS, want);                                                      \
	} while (0)
static void nums(const Ctx & c, const char * op, const Z & a, const Z & b, long got, long want)
{
	seen(c, op, a, b);
	if (got != want) fail(c, op, list(a, b), std::to_string(got), std::to_string(want));
}
#define num(...) nums(C, __VA_ARGS__)
template <class B, class T> static void to_int(const Z & za, const B & a, const char * nm)
{
	const Ctx & C = ctx<B>();
	const T g = a.template to<T>();
	const T h = static_cast<T>(a);
	seen(C, nm, za, za);
	const Z w = modp(za, sizeof(T) * 8), gz = modp(ofint(g), sizeof(T) * 8), hz = modp(ofint(h), sizeof(T) * 8);
	if (mpz_cmp(gz.v, w.v) != 0 || mpz_cmp(hz.v, w.v) != 0) fail(C, nm, str(za), str(gz), str(w));
}
template <class B, class T> static void from_int(Rng & r, const char * nm)
{
	const Ctx & C = ctx<B>();
	T v = (T)r.next();
	switch (r.range(0, 4))
	{
	case 0: v = (T)r.range(-3, 3); break;
	case 1: v = std::numeric_limits<T>::max(); break;
	case 2: v = std::numeric_limits<T>::min(); break;
	case 3: v = (T)((T)1 << r.range(0, (int)sizeof(T) * 8 - 2)); break;
	default: break;
	}
	const Z z = ofint(v);
	word(nm, z, z, B(v), z);
	B c = gen<B>(r);
	c = v;
	word("assignment from a built-in integer", z, z, c, z);
}
template <class B, std::size_t K> static void masks()
{
	const Ctx & C = ctx<B>();
	if constexpr (K <= B::BITS)
	{
		Z ones, full, low;
		mpz_setbit(ones.v, K);
		mpz_sub_ui(ones.v, ones.v, 1);
		mpz_setbit(full.v, B::BITS);
		mpz_sub_ui(full.v, full.v, 1);
		mpz_setbit(low.v, B::BITS - K);
		mpz_sub_ui(low.v, low.v, 1);
		Z lead;
		mpz_sub(lead.v, full.v, low.v);
		Z tz, lz;
		mpz_sub(tz.v, full.v, ones.v);
		mpz_sub(lz.v, full.v, lead.v);
		const Z k((long)K);
		word("mask_trailing_ones", k, k, (sup::mask_trailing_ones<B, K>()), ones);
		word("mask_leading_ones", k, k, (sup::mask_leading_ones<B, K>()), lead);
		word("mask_trailing_zeros", k, k, (sup::mask_trailing_zeros<B, K>()), tz);
		word("mask_leading_zeros", k, k, (sup::mask_leading_zeros<B, K>()), lz);
	}
}
template <class B, std::size_t... K> static void all_masks(std::index_sequence<K...>) { (masks<B, K>(), ...); }

template <class B, class O> static void conv(Rng & r)
{
	const Ctx & C = ctx<B>();
	if constexpr (!(B::BITS == O::BITS && B::WORD_SIZE != O::WORD_SIZE) && !std::is_same_v<B, O>)
	{
		const O c = gen<O>(r);
		const Z z = val(c);
		// a negative signed source widened into an unsigned type is zero-extended by design
		if (O::SIGNED && !B::SIGNED && B::BITS > O::BITS && mpz_sgn(z.v) < 0) return;
		static const std::string nm = "construction from " + tn<O>();
		word(nm.c_str(), z, z, B(c), z);
	}
}
template <class B> static void one(Rng & r)
{
	const Ctx & C = ctx<B>();
	using W = typename B::word_type;
	const std::size_t N = B::BITS;
	const B a = gen<B>(r), b = r.range(0, 7) == 0 ? a : gen<B>(r);
	mon::about(tn<B>().c_str(), CCMV_NAME, 0, a.val[0], b.val[0]);
	const Z za = val(a), zb = val(b), ua = uns(a), ub = uns(b);
	Z t, u;
	mpz_add(t.v, za.v, zb.v);
	word("operator+", za, zb, a + b, t);
	{
		B c = a;
		c += b;
		word("operator+=", za, zb, c, t);
		B d = a;
		const W carry = d.add_overflow(b);
		word("add_overflow", za, zb, d, t);
		Z s;
		mpz_add(s.v, ua.v, ub.v);
		num("carry of add_overflow", ua, ub, (long)carry, mpz_tstbit(s.v, N));
		B e = a;
		word("operator+ of a temporary", za, zb, a + std::move(e), [&] { Z x; mpz_add(x.v, za.v, za.v); return x; }());
	}
	mpz_sub(t.v, za.v, zb.v);
	word("operator-", za, zb, a - b, t);
	{
		B c = a;
		c -= b;
		word("operator-=", za, zb, c, t);
		B d = a;
		const W borrow = d.sub_overflow(b);
		word("sub_overflow", za, zb, d, t);
		num("borrow of sub_overflow", ua, ub, (long)borrow, mpz_cmp(ua.v, ub.v) < 0);
		word("operator- of a temporary", za, zb, a - B(b), t);
	}
	mpz_mul(t.v, za.v, zb.v);
	word("operator*", za, zb, a * b, t);
	{
		B c = a;
		c *= b;
		word("operator*=", za, zb, c, t);
		mpz_mul(u.v, ua.v, ub.v);
		if constexpr (!B::SIGNED) word("ful_mul", ua, ub, a.ful_mul(b), u);
		// the fast high product drops carries out of the low half: at most one per word
		const Z hi = uns(a.quick_mul_hi(b));
		Z e;
		mpz_tdiv_q_2exp(e.v, u.v, N);
		seen(C, "quick_mul_hi", ua, ub);
		Z d;
		mpz_sub(d.v, e.v, hi.v);
		if (mpz_sgn(d.v) < 0 || mpz_cmp_si(d.v, (long)B::WORD_COUNT - 1) > 0) fail(C, "quick_mul_hi", list(ua, ub), str(hi), str(e) + " (at most " + std::to_string(B::WORD_COUNT - 1) + " below it)");
		const W w = b.val[0];
		B m		  = a;
		const W c2 = m.mul(w);
		Z p, wz	   = ofint(w);
		mpz_mul(p.v, ua.v, wz.v);
		word("mul by a word", ua, wz, m, p);
		mpz_tdiv_q_2exp(p.v, p.v, N);
		Z cz = ofint(c2);
		seen(C, "carry of mul by a word", ua, wz);
		if (mpz_cmp(cz.v, p.v) != 0) fail(C, "carry of mul by a word", list(ua, wz), str(cz), str(p));
	}
	if constexpr (!B::SIGNED)
	{
		const std::uint64_t e = r.range(0, 2) ? (std::uint64_t)r.range(0, 40) : (r.next() >> r.range(0, 60));
		B p					  = a;
		p.pow_n(e);
		Z m, ez = ofint(e), x;
		mpz_setbit(m.v, N);
		mpz_powm(x.v, ua.v, ez.v, m.v);
		word("pow_n", ua, ez, p, x);
		// x * 2^e divisors
		using H = ty::multiword::half_width_t<std::conditional_t<std::is_same_v<W, std::uint8_t>, std::uint16_t, W>>;
		if constexpr (!std::is_same_v<W, std::uint8_t>)
		{
			H h = r.range(0, 3) == 0 ? (H)r.range(0, 4) : (H)(r.next() >> r.range(0, 60));
			const std::size_t k = (std::size_t)r.range(0, (int)N + 4);
			B q					= a;
			const auto rem		= q.div_uint_half_times_pow_2(h, k);
			Z dv				= ofint(h);
			mpz_mul_2exp(dv.v, dv.v, k);
			num("div_uint_half_times_pow_2 has a result", ua, dv, rem.has_value(), h != 0);
			if (h != 0 && rem)
			{
				mpz_tdiv_qr(t.v, u.v, ua.v, dv.v);
				word("quotient of div_uint_half_times_pow_2", ua, dv, q, t);
				word("remainder of div_uint_half_times_pow_2", ua, dv, *rem, u);
			}
		}
	}
	{
		B q			   = a;
		const auto rem = q.div(b);
		num("div has a result", za, zb, rem.has_value(), mpz_sgn(zb.v) != 0);
		if (mpz_sgn(zb.v) != 0 && rem)
		{
			mpz_tdiv_qr(t.v, u.v, za.v, zb.v); // truncated; the quotient of min by -1 wraps
			word("div (quotient)", za, zb, q, t);
			word("div (remainder)", za, zb, *rem, u);
			word("operator/", za, zb, a / b, t);
			word("operator%", za, zb, a % b, u);
			B c = a;
			c /= b;
			word("operator/=", za, zb, c, t);
		}
	}
	for (int j = 0; j < 2; ++j)
	{
		const std::size_t k = j ? (std::size_t)r.range(0, (int)N - 1) : (std::size_t)r.range(0, (int)B::WORD_COUNT - 1) * B::WORD_SIZE;
		const Z kz((long)k);
		mpz_mul_2exp(t.v, za.v, k);
		word("operator<<", za, kz, a << k, t);
		word("operator<< by int", za, kz, a << (int)k, t);
		B c = a;
		c <<= k;
		word("operator<<=", za, kz, c, t);
		mpz_fdiv_q_2exp(t.v, za.v, k);
		word("operator>>", za, kz, a >> k, t);
		c = a;
		c >>= k;
		word("operator>>=", za, kz, c, t);
		num("get_bit", ua, kz, a.get_bit(k), mpz_tstbit(ua.v, k));
		c = a;
		c.set_bit(k);
		t = ua;
		mpz_setbit(t.v, k);
		word("set_bit", ua, kz, c, t);
	}
	mpz_and(t.v, ua.v, ub.v);
	word("operator&", za, zb, a & b, t);
	{
		B c = a;
		c &= b;
		word("operator&=", za, zb, c, t);
		mpz_ior(t.v, ua.v, ub.v);
		word("operator|", za, zb, a | b, t);
		c = a;
		c |= b;
		word("operator|=", za, zb, c, t);
		mpz_xor(t.v, ua.v, ub.v);
		word("operator^", za, zb, a ^ b, t);
		c = a;
		c ^= b;
		word("operator^=", za, zb, c, t);
		mpz_com(t.v, ua.v);
		word("operator~", za, za, ~a, t);
		mpz_neg(t.v, za.v);
		word("unary -", za, za, -a, t);
		mpz_add_ui(t.v, za.v, 1);
		c = a;
		word("++x", za, za, ++c, t);
		c	= a;
		B o = c++;
		word("x++", za, za, c, t);
		word("value of x++", za, za, o, za);
		mpz_sub_ui(t.v, za.v, 1);
		c = a;
		word("--x", za, za, --c, t);
		c = a;
		o = c--;
		word("x--", za, za, c, t);
		word("value of x--", za, za, o, za);
	}
	const int cmp = mpz_cmp(za.v, zb.v);
	num("==", za, zb, a == b, cmp == 0);
	num("!=", za, zb, a != b, cmp != 0);
	num("<", za, zb, a < b, cmp < 0);
	num("<=", za, zb, a <= b, cmp <= 0);
	num(">", za, zb, a > b, cmp > 0);
	num(">=", za, zb, a >= b, cmp >= 0);
	num("is_zero", za, za, a.is_zero(), mpz_sgn(za.v) == 0);
	num("operator bool", za, za, static_cast<bool>(a), mpz_sgn(za.v) != 0);
	num("is_neg", za, za, a.is_neg(), mpz_sgn(za.v) < 0);
	to_int<B, std::int8_t>(za, a, "to<int8>");
	to_int<B, std::uint8_t>(za, a, "to<uint8>");
	to_int<B, std::int16_t>(za, a, "to<int16>");
	to_int<B, std::uint16_t>(za, a, "to<uint16>");
	to_int<B, std::int32_t>(za, a, "to<int32>");
	to_int<B, std::uint32_t>(za, a, "to<uint32>");
	// a negative value read as a wider unsigned or signed built-in: sign-extended
	to_int<B, std::int64_t>(za, a, "to<int64>");
	to_int<B, std::uint64_t>(za, a, "to<uint64>");
	from_int<B, std::int8_t>(r, "construction from int8");
	from_int<B, std::uint8_t>(r, "construction from uint8");
	from_int<B, std::int16_t>(r, "construction from int16");
	from_int<B, std::uint16_t>(r, "construction from uint16");
	from_int<B, std::int32_t>(r, "construction from int32");
	from_int<B, std::uint32_t>(r, "construction from uint32");
	from_int<B, std::int64_t>(r, "construction from int64");
	from_int<B, std::uint64_t>(r, "construction from uint64");
	// bit counting
	{
		const int pc = (int)mpz_popcount(ua.v);
		const int bw = mpz_sgn(ua.v) ? (int)mpz_sizeinbase(ua.v, 2) : 0;
		const int tz = mpz_sgn(ua.v) ? (int)mpz_scan1(ua.v, 0) : (int)N;
		int to		 = (int)mpz_scan0(ua.v, 0);
		Z na;
		mpz_com(na.v, ua.v);
		na			 = modp(na, N);
		const int lo = (int)N - (mpz_sgn(na.v) ? (int)mpz_sizeinbase(na.v, 2) : 0);
		num("popcount", ua, ua, sup::popcount(a), pc);
		num("has_single_bit", ua, ua, sup::has_single_bit(a), pc == 1);
		num("count_zeros", ua, ua, sup::count_zeros(a), (int)N - pc);
		num("countr_zero", ua, ua, sup::countr_zero(a), tz);
		num("countr_one", ua, ua, sup::countr_one(a), to);
		num("countl_zero", ua, ua, sup::countl_zero(a), (int)N - bw);
		num("countl_one", ua, ua, sup::countl_one(a), lo);
		if constexpr (!B::SIGNED)
		{
			num("bit_width", ua, ua, sup::bit_width(a), bw);
			// positions count from one, zero meaning there is none
			num("first_leading_zero", ua, ua, sup::first_leading_zero(a), lo == (int)N ? 0 : lo + 1);
			num("first_leading_one", ua, ua, sup::first_leading_one(a), bw == 0 ? 0 : (int)N - bw + 1);
			num("first_trailing_zero", ua, ua, sup::first_trailing_zero(a), to == (int)N ? 0 : to + 1);
			num("first_trailing_one", ua, ua, sup::first_trailing_one(a), mpz_sgn(ua.v) == 0 ? 0 : tz + 1);
			const int k = r.range(-2 * (int)N, 2 * (int)N);
			const Z kz(k);
			const unsigned kl = (unsigned)(((k % (int)N) + (int)N) % (int)N);
			mpz_mul_2exp(t.v, ua.v, kl);
			mpz_fdiv_q_2exp(u.v, ua.v, N - kl);
			mpz_ior(t.v, t.v, u.v);
			if (kl == 0) t = ua;
			word("rotl", ua, kz, sup::rotl(a, k), t);
			const unsigned kr = (unsigned)((N - kl) % N);
			mpz_mul_2exp(t.v, ua.v, kr);
			mpz_fdiv_q_2exp(u.v, ua.v, N - kr);
			mpz_ior(t.v, t.v, u.v);
			if (kr == 0) t = ua;
			word("rotr", ua, kz, sup::rotr(a, k), t);
		}
	}
}
template <class B> static void fixed()
{
	const Ctx & C = ctx<B>();
	Z t, n((long)B::BITS);
	word("zero()", n, n, B::zero(), t);
	mpz_set_ui(t.v, 1);
	word("one()", n, n, B::one(), t);
	mpz_set_si(t.v, -1);
	word("all_ones()", n, n, B::all_ones(), t);
	mpz_set_ui(t.v, 0);
	mpz_setbit(t.v, B::SIGNED ? B::BITS - 1 : B::BITS);
	mpz_sub_ui(t.v, t.v, 1);
	word("max()", n, n, B::max(), t);
	word("numeric_limits::max()", n, n, std::numeric_limits<B>::max(), t);
	mpz_com(t.v, t.v);
	if (!B::SIGNED) mpz_set_ui(t.v, 0);
	word("min()", n, n, B::min(), t);
	num("numeric_limits::digits", n, n, std::numeric_limits<B>::digits, (long)B::BITS - B::SIGNED);
	if constexpr (!B::SIGNED) all_masks<B>(std::index_sequence<0, 1, 5, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, B::BITS - 16, B::BITS - 1, B::BITS>{});
}
template <class... T> struct Types
{
};
using U8 = std::uint8_t;
using U16 = std::uint16_t;
using U32 = std::uint32_t;
using U64 = std::uint64_t;
#define BOTH(n, w) ty::BigInt<n, false, w>, ty::BigInt<n, true, w>
using Small = Types<BOTH(16, U16), BOTH(32, U32), BOTH(96, U32), BOTH(48, U16)>;
using Large = Types<BOTH(64, U64), BOTH(128, U64), BOTH(192, U64), BOTH(256, U64), BOTH(320, U64), BOTH(128, U32)>;
using Conv1 = Types<BOTH(16, U16), BOTH(32, U32), BOTH(96, U32), BOTH(64, U64), BOTH(128, U64), BOTH(256, U64), BOTH(48, U16), BOTH(64, U32), BOTH(160, U32)>;

template <class... B> static void run_ops(Types<B...>, int base, double n)
{
	int k = base;
	auto each = [&](auto tag)
	{
		using T = std::remove_pointer_t<decltype(tag)>;
		fixed<T>();
		const int id = k++;
		mon::parallel(8, [&](std::uint64_t i) {
			Rng r(mon::mix(SEED * 1000003 + (std::uint64_t)id * 977 + i));
			const std::uint64_t m = (std::uint64_t)(n / 8 / (1 + T::BITS / 128.0));
			for (std::uint64_t j = 0; j < m; ++j) one<T>(r);
		});
	};
	(each((B *)nullptr), ...);
}
template <class B, class... C> static void conv_row(Rng & r, Types<C...>) { (conv<B, C>(r), ...); }
template <class... B> static void run_conv(Types<B...> all, double n)
{
	mon::parallel(16, [&](std::uint64_t i) {
		Rng r(mon::mix(SEED * 1000003 + 5000 + i));
		for (std::uint64_t j = 0; j < (std::uint64_t)(n / 16); ++j) (conv_row<B>(r, all), ...);
	});
}
// the one-word building blocks, exhaustively for 8 bits and sampled above
template <class W> static void word_ops(Rng & r, int n)
{
	const Ctx C{ "one word", sizeof(W) };
	auto pick = [&]() -> W {
		switch (r.range(0, 4))
		{
		case 0: return (W)~(W)0;
		case 1: return (W)r.range(0, 2);
		case 2: return (W)((W)1 << r.range(0, (int)sizeof(W) * 8 - 1));
		default: return (W)(r.next() >> r.range(0, 63));
		}
	};
	for (int i = 0; i < n; ++i)
	{
		const W a = pick(), b = pick();
		const W c = (W)r.range(0, 1);
		const Z za = ofint(a), zb = ofint(b);
		const auto p = ty::multiword::mul2(a, b);
		Z t;
		mpz_mul(t.v, za.v, zb.v);
		W pw[2] = { p[0], p[1] };
		Z g;
		mpz_import(g.v, 2, -1, sizeof(W), 0, 0, pw);
		seen(C, "mul2", za, zb);
		if (mpz_cmp(g.v, t.v) != 0) fail(C, "multiword::mul2", list(za, zb), str(g), str(t));
		W co = 0, s = sup::add_with_carry<W>(a, b, c, co);
		mpz_add(t.v, za.v, zb.v);
		mpz_add_ui(t.v, t.v, (unsigned long)c);
		W sw[2] = { s, co };
		mpz_import(g.v, 2, -1, sizeof(W), 0, 0, sw);
		seen(C, "add_with_carry", za, zb);
		if (mpz_cmp(g.v, t.v) != 0) fail(C, "add_with_carry", list(za, zb), str(g), str(t));
		s = sup::sub_with_borrow<W>(a, b, c, co);
		mpz_sub(t.v, za.v, zb.v);
		mpz_sub_ui(t.v, t.v, (unsigned long)c);
		const Z sz = ofint(s), w = modp(t, sizeof(W) * 8);
		seen(C, "sub_with_borrow", za, zb);
		if (mpz_cmp(sz.v, w.v) != 0 || (co != 0) != (mpz_sgn(t.v) < 0)) fail(C, "sub_with_borrow", list(za, zb), str(sz) + " borrow " + std::to_string((int)co), str(w));
	}
}
// constant evaluation gives the same words as execution
using U192 = ty::UInt<192>;
using I192 = ty::Int<192>;
constexpr U192 ka(std::array<std::uint64_t, 3>{ 0xfedcba9876543210u, 0xffffffffffffffffu, 0x8000000000000001u });
constexpr U192 kb(std::array<std::uint64_t, 3>{ 0x0000000100000003u, 0, 0 });
constexpr U192 kc(std::array<std::uint64_t, 3>{ ~0ull, ~0ull, 0 });
struct Row
{
	U192 add, sub, mul, div, mod, shl, shr, hi, conv;
	I192 sdiv, smod, sshr, neg;
	std::array<int, 6> n;
};
template <class A> constexpr Row rows(A a, A b, A c)
{
	Row o{};
	o.add = a + c;
	o.sub = kb - a;
	o.mul = a * c;
	o.div = a / b;
	o.mod = a % c;
	o.shl = a << 67;
	o.shr = a >> 66;
	o.hi  = a.quick_mul_hi(c);
	o.conv = U192(ty::UInt<96>(a));
	const I192 x(a), y(b);
	o.sdiv = x / y;
	o.smod = x % y;
	o.sshr = x >> 70;
	o.neg  = -x;
	o.n	   = { sup::popcount(a), sup::countl_zero(b), sup::countr_zero(b), sup::countl_one(a), sup::bit_width(c), a < b };
	return o;
}
static void constants()
{
	const Ctx & C = ctx<U192>();
	constexpr Row k = rows(ka, kb, kc);
	volatile std::uint64_t z = 0;
	U192 a = ka, b = kb, c = kc;
	a.val[0] += z;
	b.val[0] += z;
	c.val[0] += z;
	const Row v = rows(a, b, c);
	const Z n;
	auto same = [&](const char * nm, const auto & p, const auto & q) { word(nm, uns(a), uns(b), p, uns(q)); };
	same("constant operator+", k.add, v.add);
	same("constant operator-", k.sub, v.sub);
	same("constant operator*", k.mul, v.mul);
	same("constant operator/", k.div, v.div);
	same("constant operator%", k.mod, v.mod);
	same("constant operator<<", k.shl, v.shl);
	same("constant operator>>", k.shr, v.shr);
	same("constant quick_mul_hi", k.hi, v.hi);
	same("constant conversion", k.conv, v.conv);
	same("constant signed /", k.sdiv, v.sdiv);
	same("constant signed %", k.smod, v.smod);
	same("constant signed >>", k.sshr, v.sshr);
	same("constant negation", k.neg, v.neg);
	for (int i = 0; i < 6; ++i) num("constant bit counts", n, n, k.n[(std::size_t)i], v.n[(std::size_t)i]);
}
int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	SEED  = mon::args.seed;
	SCALE = mon::args.budget > 0 ? mon::args.budget : 1;
	constants();
	{
		Rng r(SEED);
		word_ops<U8>(r, 40000);
		word_ops<U16>(r, 40000);
		word_ops<U32>(r, 40000);
		word_ops<U64>(r, 40000);
	}
#if CCMV_PART != 2
	run_ops(Small{}, 0, 24000 * SCALE);
	run_conv(Conv1{}, 16000 * SCALE);
#endif
#if CCMV_PART != 1
	run_ops(Large{}, 100, 24000 * SCALE);
#endif
	return mon::finish();
}
