// F01, F02, F03: the extension helpers and lerp. CCMV_PART 1: integer helpers against 128-bit integers; 2: interpolation and
// range helpers against quad arithmetic; 3: angles and periodic helpers against the exact remainder.
#include <ccmath/ccmath.hpp>
#include <ccmath/ext/abs_diff.hpp>
#include <ccmath/ext/align.hpp>
#include <ccmath/ext/approximately.hpp>
#include <ccmath/ext/ceil_div.hpp>
#include <ccmath/ext/chgsign.hpp>
#include <ccmath/ext/clamp.hpp>
#include <ccmath/ext/cubic.hpp>
#include <ccmath/ext/degrees.hpp>
#include <ccmath/ext/delta_angle.hpp>
#include <ccmath/ext/fract.hpp>
#include <ccmath/ext/inverse_lerp.hpp>
#include <ccmath/ext/is_power_of_two.hpp>
#include <ccmath/ext/lerp_angle.hpp>
#include <ccmath/ext/lerp_smooth.hpp>
#include <ccmath/ext/mix.hpp>
#include <ccmath/ext/move_towards.hpp>
#include <ccmath/ext/move_towards_angle.hpp>
#include <ccmath/ext/normalize.hpp>
#include <ccmath/ext/ping_pong.hpp>
#include <ccmath/ext/radians.hpp>
#include <ccmath/ext/rcp.hpp>
#include <ccmath/ext/remap.hpp>
#include <ccmath/ext/repeat.hpp>
#include <ccmath/ext/saturate.hpp>
#include <ccmath/ext/sign.hpp>
#include <ccmath/ext/smoothstep.hpp>
#include <ccmath/ext/step.hpp>
#include <ccmath/ext/unlerp.hpp>

#include "core.hpp"
#include "mon.hpp"
#include <array>
#include <type_traits>

#ifndef CCMV_NAME
#define CCMV_NAME "direct"
#endif
typedef __float128 Q;
typedef __int128 I128;
namespace ext = ccm::ext;

static std::uint64_t SEED;
static double SCALE;
template <class T> constexpr const char * tn()
{
	if constexpr (std::is_floating_point_v<T>) return FT<T>::nm;
	else
		return std::is_signed_v<T> ? (sizeof(T) == 1 ? "int8" : sizeof(T) == 2 ? "int16" : sizeof(T) == 4 ? "int32" : std::is_same_v<T, long> ? "int64" : "long long")
								   : (sizeof(T) == 1 ? "uint8" : sizeof(T) == 2 ? "uint16" : sizeof(T) == 4 ? "uint32" : std::is_same_v<T, unsigned long> ? "uint64" : "unsigned long long");
}
template <class T> static std::string str(T x)
{
	if constexpr (std::is_same_v<T, bool>) return x ? "true" : "false";
	else if constexpr (std::is_floating_point_v<T>)
		return show(x);
	else
		return std::to_string(x);
}
template <class... A> static std::string list(A... a)
{
	std::string s;
	((s += (s.empty() ? "" : ", ") + str(a)), ...);
	return s;
}
template <class T> static std::uint64_t key(T x)
{
	if constexpr (std::is_floating_point_v<T>) return (std::uint64_t)(bits(x) >> (FT<T>::total - 14));
	else
		return (std::uint64_t)x;
}
template <class T, class... A> static void fail(const char * fn, const char * rule, const std::string & got, const std::string & want, A... a)
{
	mon::violation(mon::fmt("%s/%s/%s/%s", fn, rule, tn<T>(), CCMV_NAME), mon::fmt("%s(%s) for %s on %s is %s; %s: %s", fn, list(a...).c_str(), tn<T>(), CCMV_NAME, got.c_str(), rule, want.c_str()));
}
template <class... A> static void seen(const char * fn, A... a)
{
	auto & w = mon::self();
	w.ev++;
	w.ck++;
	std::uint64_t h = 0;
	for (const char * p = fn; *p; ++p) h = h * 131 + (unsigned char)*p;
	((h = mon::mix(h ^ key(a)) + sizeof a), ...);
	mon::cover(h);
	w.fname = fn;
	mon::sample_once(fn, [&] { return std::string(fn) + "(" + list(a...) + ") on " CCMV_NAME; });
}

// ---------------------------------------------------------------- integers
template <class T> static T ival(Rng & r)
{
	using L = std::numeric_limits<T>;
	switch (r.range(0, 6))
	{
	case 0: return (T)r.range(-20, 20);
	case 1: return (T)(L::max() - (T)r.range(0, 5));
	case 2: return (T)(L::min() + (T)r.range(0, 5));
	case 3: return (T)(r.next() >> r.range(0, 63));
	case 4: return (T)((T)1 << r.range(0, (int)sizeof(T) * 8 - 2));
	case 5: return (T)(((T)1 << r.range(0, (int)sizeof(T) * 8 - 2)) + (T)r.range(-2, 2));
	default: return (T)r.next();
	}
}
template <class T> static bool fits(I128 v) { return v >= (I128)std::numeric_limits<T>::min() && v <= (I128)std::numeric_limits<T>::max(); }
template <class T> static I128 floordiv(I128 a, I128 b)
{
	I128 q = a / b;
	if (a % b != 0 && ((a < 0) != (b < 0))) --q;
	return q;
}
#define WANT(fn, T, got, want, ...)                                                                                                   \
	do                                                                                                                                \
	{                                                                                                                                 \
		seen(fn, __VA_ARGS__);                                                                                                        \
		const auto g_ = (got);                                                                                                        \
		const auto w_ = (want);                                                                                                       \
		if ((I128)g_ != (I128)w_) fail<T>(fn, "exact", std::to_string((long long)g_), std::to_string((long long)w_), __VA_ARGS__); \
	} while (0)
template <class T, std::size_t A> static void aligns(T v)
{
	const I128 up = -floordiv<T>(-(I128)v, (I128)A) * (I128)A, dn = floordiv<T>((I128)v, (I128)A) * (I128)A;
	const std::size_t a = A;
	if (fits<T>(up))
	{
		WANT("align_up", T, (ext::align_up<T, A>(v)), up, v, a);
		WANT("align<eUP>", T, (ext::align<T, A, ext::AR::Direction::eUP>(v)), up, v, a);
	}
	if (fits<T>(dn))
	{
		WANT("align_down", T, (ext::align_down<T, A>(v)), dn, v, a);
		WANT("align<eDOWN>", T, (ext::align<T, A, ext::AR::Direction::eDOWN>(v)), dn, v, a);
	}
}
template <class T, std::size_t K> static void align_bit(T v)
{
	if constexpr (K < sizeof(T) * 8 - (std::is_signed_v<T> ? 1 : 0)) aligns<T, (std::size_t)1 << K>(v);
}
template <class T, std::size_t... K> static void all_aligns(T v, std::index_sequence<K...>) { (align_bit<T, K>(v), ...); }
template <class T> static void integers_one(Rng & r, T a, T b)
{
	constexpr int W = (int)sizeof(T) * 8 - (std::is_signed_v<T> ? 1 : 0);
	using L			= std::numeric_limits<T>;
	all_aligns<T>(a, std::index_sequence<0, 1, 2, 3, 4, 6, 7, 8, 12, 14, 15, 16, 20, 30, 31, 32, 33, 48, 62, 63>{});
	const I128 d = (I128)a - (I128)b, ad = d < 0 ? -d : d;
	if (fits<T>(ad)) WANT("abs_diff", T, ext::abs_diff(a, b), ad, a, b);
	if (a >= 0 && b > 0)
	{
		const I128 c = ((I128)a + (I128)b - 1) / (I128)b;
		WANT("ceil_div", T, ext::ceil_div(a, b), c, a, b);
		WANT("safe::ceil_div", T, ext::safe::ceil_div(a, b), c, a, b);
	}
	WANT("safe::ceil_div", T, ext::safe::ceil_div(a, (T)0), 0, a, (T)0);
	bool p = false;
	for (int k = 0; k < W; ++k) p = p || a == (T)((T)1 << k);
	if constexpr (sizeof(T) > 1) // unsigned char does not compile
	{
		if (std::is_unsigned_v<T> || sizeof(T) < 4 || a != L::min())
		{
			WANT("is_power_of_two", T, ext::is_power_of_two(a), p, a);
			WANT("ispow2", T, ext::ispow2(a), p, a);
		}
		WANT("safe::is_power_of_two", T, ext::safe::is_power_of_two(a), p, a);
		WANT("safe::ispow2", T, ext::safe::ispow2(a), p, a);
	}
	WANT("step", T, ext::step(a, b), b < a ? 0 : 1, a, b);
	WANT("sign", T, ext::sign(a), a < 0 ? -1 : a > 0 ? 1 : 0, a);
	const T lo = std::min(a, b), hi = std::max(a, b), v = ival<T>(r);
	WANT("clamp", T, ext::clamp(v, lo, hi), v < lo ? lo : v > hi ? hi : v, v, lo, hi);
}
template <class T> static void integers()
{
	Rng r(SEED ^ (sizeof(T) * 2 + std::is_signed_v<T>) * 0x51ed27);
	if constexpr (sizeof(T) == 1)
	{
		for (int a = std::numeric_limits<T>::min(); a <= std::numeric_limits<T>::max(); ++a)
			for (int b = std::numeric_limits<T>::min(); b <= std::numeric_limits<T>::max(); ++b) integers_one<T>(r, (T)a, (T)b);
	}
	else
	{
		if constexpr (sizeof(T) == 2)
			for (int a = std::numeric_limits<T>::min(); a <= std::numeric_limits<T>::max(); ++a) integers_one<T>(r, (T)a, ival<T>(r));
		for (long i = 0, n = (long)(60000 * SCALE); i < n; ++i)
		{
			T a = ival<T>(r), b = r.below(4) ? ival<T>(r) : (T)(a >> r.range(0, 8));
			integers_one<T>(r, a, b);
		}
	}
}

// ---------------------------------------------------------------- floating point
template <class T> static T lim(int k) { return std::scalbn((T)1, k); }
template <class T> static T fval(Rng & r)
{
	T x;
	switch (r.range(0, 7))
	{
	case 0: x = (T)r.range(-20, 20); break;
	case 1: x = (T)r.range(-4000, 4000) / 8; break;
	case 2: x = (T)(r.range(-100, 100) * 45); break;
	case 3: x = step((T)(r.range(-20, 20) * 90), r.range(-3, 3)); break;
	case 4: x = gen<T>(r, r.range(C_UNIT, C_COUNT - 1), -30, 30); break;
	case 5: x = gen<T>(r, r.range(0, C_COUNT - 1), -30, 30); break;
	default: x = gen<T>(r, C_UNIT, -30, 30);
	}
	if (is_nan(x) || is_inf(x)) x = 1;
	const T top = lim<T>(FT<T>::emax / 4); // products of three stay finite
	if (std::fabs(x) > top) x = std::fmod(x, top);
	return r.below(16) ? x : (T)0;
}
template <class T> static Q eps() { return (Q)lim<T>(1 - FT<T>::prec); }
template <class T> static Q tiny() { return (Q)std::numeric_limits<T>::denorm_min(); }
static Q qabs(Q x) { return x < 0 ? -x : x; }
template <class T, class... A> static void near(const char * fn, T got, Q want, Q bound, A... a)
{
	seen(fn, a...);
	if (!(qabs((Q)got - want) <= bound))
		fail<T>(fn, "value", show(got), mon::fmt("expected %.20Lg within %.3Lg", (long double)want, (long double)bound), a...);
}
#define LAW(fn, T, ok, rule, got, other, ...)                                              \
	do                                                                                     \
	{                                                                                      \
		seen(fn, __VA_ARGS__);                                                             \
		if (!(ok)) fail<T>(fn, rule, str(got), std::string("against ") + str(other), __VA_ARGS__); \
	} while (0)

template <class T> static void lerps(Rng & r)
{
	T a = fval<T>(r), b = r.below(4) ? fval<T>(r) : r.below(2) ? step(a, r.range(-4, 4)) : -a;
	T t = r.below(2) ? (T)(r.next() >> 11) / (T)9007199254740992.0 : r.below(3) ? fval<T>(r) : (T)r.range(0, 1);
	T z = 0, o = 1;
	if (r.below(8) == 0) t = step(o, r.range(-3, 3));
	LAW("lerp", T, ccm::lerp(a, b, z) == a, "lerp(a,b,0) is a", ccm::lerp(a, b, z), a, a, b, z);
	LAW("lerp", T, ccm::lerp(a, b, o) == b, "lerp(a,b,1) is b", ccm::lerp(a, b, o), b, a, b, o);
	LAW("lerp", T, ccm::lerp(a, a, t) == a, "lerp(a,a,t) is a", ccm::lerp(a, a, t), a, a, a, t);
	const T top = lim<T>(FT<T>::emax / 4);
	if (std::fabs(t) > top) return;
	const T g = ccm::lerp(a, b, t);
	const Q w = (Q)a + (Q)t * ((Q)b - (Q)a);
	near<T>("lerp", g, w, 4 * eps<T>() * (qabs((Q)t * b) + qabs((Q)t * a) + qabs((Q)a)) + 2 * tiny<T>(), a, b, t);
	if (t >= 0 && t <= 1) LAW("lerp", T, g >= std::fmin(a, b) && g <= std::fmax(a, b), "lies between the ends for t in [0, 1]", g, a, a, b, t);
	// monotone in t
	T u = r.below(2) ? step(t, r.range(1, 4)) : t + std::fabs(fval<T>(r)) / 1024;
	if (u > t && std::fabs(u) < top)
	{
		const T h = ccm::lerp(a, b, u);
		LAW("lerp", T, b > a ? h >= g : b < a ? h <= g : h == g, "is monotone in t", g, h, a, b, t, u);
	}
	// common types
	const double md = ccm::lerp((float)1, (double)(float)(t < 100 && t > -100 ? t : 1), (float)0.5);
	(void)md;
}
template <class T> static void ranges_one(Rng & r)
{
	const Q e = eps<T>(), dm = tiny<T>();
	T a = fval<T>(r), b = r.below(4) ? fval<T>(r) : step(a, r.range(-4, 4)), x = r.below(6) ? fval<T>(r) : r.below(2) ? a : b;
	const T zero = 0, one = 1;
	lerps<T>(r);
	{ // clamp, saturate
		T lo = std::fmin(a, b), hi = std::fmax(a, b);
		const T g = ext::clamp(x, lo, hi), w = x < lo ? lo : x > hi ? hi : x;
		LAW("clamp", T, g == w, "is the nearest point of [lo, hi]", g, w, x, lo, hi);
		const T s = ext::saturate(x), v = x < 0 ? zero : x > 1 ? one : x;
		LAW("saturate", T, s == v, "is the nearest point of [0, 1]", s, v, x);
		const T c = ext::clamp(x);
		LAW("clamp", T, c == v, "defaults to [0, 1]", c, v, x);
		T inf = std::numeric_limits<T>::infinity(), i = r.below(2) ? inf : -inf;
		LAW("clamp", T, ext::clamp(i, lo, hi) == (i > 0 ? hi : lo), "clamps infinities", ext::clamp(i, lo, hi), i > 0 ? hi : lo, i, lo, hi);
		LAW("clamp", T, ext::clamp(x, -inf, inf) == x, "keeps x between infinities", ext::clamp(x, -inf, inf), x, x, -inf, inf);
		int il = r.range(-50, 0), ih = r.range(0, 50);
		double xd = (double)(float)(std::fabs(x) < 1e30f ? x : 3);
		const double m = ext::clamp(xd, il, ih), mw = xd < il ? il : xd > ih ? ih : xd;
		LAW("clamp", double, m == mw, "mixed types agree with the common type", m, mw, xd, il, ih);
		const double m2 = ext::clamp((float)xd, (double)il, ih);
		LAW("clamp", double, m2 == mw, "mixed types agree with the common type", m2, mw, (float)xd, (double)il, ih);
	}
	{ // step, sign, chgsign, approximately
		LAW("step", T, ext::step(a, x) == (x < a ? zero : one), "is 0 below the edge and 1 from it on", ext::step(a, x), a, a, x);
		LAW("sign", T, ext::sign(x) == (x > 0 ? one : x < 0 ? -one : zero), "is the sign", ext::sign(x), x, x);
		T p = r.below(8) ? x : gen<T>(r, r.range(0, C_COUNT - 1), -30, 30), q = r.below(8) ? a : r.below(2) ? -zero : gen<T>(r, r.range(0, C_COUNT - 1), -30, 30);
		if (!is_snan(p) && !is_snan(q))
		{
			const T g = ext::chgsign(p, q), w = std::copysign(p, q);
			LAW("chgsign", T, is_nan(p) ? is_nan(g) && neg(g) == neg(q) : same(g, w), "has the magnitude of x and the sign of y", g, w, p, q);
		}
		T ep = std::fabs(r.below(3) ? fval<T>(r) : (T)(a - b));
		if (r.below(4) == 0) ep = step(ep, r.range(-2, 2));
		const Q d = qabs((Q)a - (Q)b);
		const bool in = ext::approximately(a, b, ep);
		if (d <= (Q)ep) LAW("approximately", T, in, "holds within epsilon", in, true, a, b, ep);
		else if (d > (Q)ep * (1 + 2 * e) + dm)
			LAW("approximately", T, !in, "fails beyond epsilon", in, false, a, b, ep);
	}
	{ // mix, unlerp, normalize, remap, smoothstep
		T t = r.below(2) ? (T)(r.next() >> 11) / (T)9007199254740992.0 : fval<T>(r);
		const T m = ext::mix(a, b, t);
		near<T>("mix", m, (Q)a * (1 - (Q)t) + (Q)b * (Q)t, 4 * e * (qabs((Q)a) + qabs((Q)a * t) + qabs((Q)b * t)) + 4 * dm, a, b, t);
		LAW("mix", T, ext::mix(a, b, zero) == a, "mix(x,y,0) is x", ext::mix(a, b, zero), a, a, b, zero);
		LAW("mix", T, ext::mix(a, b, one) == b, "mix(x,y,1) is y", ext::mix(a, b, one), b, a, b, one);
		float tf = (float)t;
		if (std::fabs(tf) < 1e9f)
		{
			const auto mm = ext::mix(a, (float)3, tf);
			const Q ef	  = eps<float>();
			near<decltype(mm + T(0))>("mix", mm, (Q)a * (1 - (Q)tf) + 3 * (Q)tf, 4 * ef * (qabs((Q)a) + qabs((Q)a * tf) + qabs((Q)3 * tf)) + 4 * tiny<float>() * (1 + qabs((Q)a)), a, 3.0f, tf);
		}
		const T len = b - a, off = x - a;
		const T top = lim<T>(FT<T>::emax / 4);
		if (a != b)
		{
			const Q w = ((Q)x - (Q)a) / ((Q)b - (Q)a);
			if (qabs(w) < (Q)top)
			{
				const Q bd = 4 * e * qabs(w) + 2 * dm;
				near<T>("unlerp", ext::unlerp(a, b, x), w, bd, a, b, x);
				near<T>("safe::unlerp", ext::safe::unlerp(a, b, x), w, bd, a, b, x);
				near<T>("inverse_lerp", ext::inverse_lerp(a, b, x), w, bd, a, b, x);
				near<T>("safe::inverse_lerp", ext::safe::inverse_lerp(a, b, x), w, bd, a, b, x);
				const Q cw = w < 0 ? 0 : w > 1 ? 1 : w;
				const T n1 = ext::normalize(x, a, b), n2 = ext::safe::normalize(x, a, b);
				near<T>("normalize", n1, cw, bd, x, a, b);
				near<T>("safe::normalize", n2, cw, bd, x, a, b);
				LAW("normalize", T, n1 >= 0 && n1 <= 1, "lies in [0, 1]", n1, one, x, a, b);
				LAW("safe::normalize", T, n2 >= 0 && n2 <= 1, "lies in [0, 1]", n2, one, x, a, b);
				const T ss = ext::smoothstep(a, b, x);
				// the derivative of the cubic is at most 3/2
				near<T>("smoothstep", ss, cw * cw * (3 - 2 * cw), 8 * e * cw + 4 * dm, a, b, x);
				LAW("smoothstep", T, ss >= 0 && ss <= 1, "lies in [0, 1]", ss, one, a, b, x);
				if (b > a) LAW("smoothstep", T, x > a || ss == 0, "is 0 up to the lower edge", ss, zero, a, b, x);
				if (b > a) LAW("smoothstep", T, x < b || ss == 1, "is 1 from the upper edge on", ss, one, a, b, x);
				T c = fval<T>(r), d = r.below(4) ? fval<T>(r) : c;
				const Q p = ((Q)x - (Q)a) * ((Q)d - (Q)c), rw = (Q)c + p / ((Q)b - (Q)a);
				if (qabs(p) < (Q)top && qabs(rw) < (Q)top)
				{
					const Q rb = 8 * e * (qabs((Q)c) + qabs(p / ((Q)b - (Q)a))) + 2 * dm + 2 * dm / qabs((Q)len);
					near<T>("remap", ext::remap(a, b, c, d, x), rw, rb, a, b, c, d, x);
					near<T>("safe::remap", ext::safe::remap(a, b, c, d, x), rw, rb, a, b, c, d, x);
				}
				LAW("remap", T, ext::remap(a, b, c, d, a) == c, "maps the start to the start", ext::remap(a, b, c, d, a), c, a, b, c, d, a);
			}
		}
		else
		{
			T c = fval<T>(r), d = fval<T>(r);
			LAW("safe::remap", T, ext::safe::remap(a, b, c, d, x) == c, "an empty source range gives dst_start", ext::safe::remap(a, b, c, d, x), c, a, b, c, d, x);
			LAW("safe::unlerp", T, ext::safe::unlerp(a, b, x) == 0, "an empty range gives 0", ext::safe::unlerp(a, b, x), zero, a, b, x);
			LAW("safe::inverse_lerp", T, ext::safe::inverse_lerp(a, b, x) == 0, "an empty range gives 0", ext::safe::inverse_lerp(a, b, x), zero, a, b, x);
			LAW("safe::normalize", T, ext::safe::normalize(x, a, b) == 0, "an empty range gives 0", ext::safe::normalize(x, a, b), zero, x, a, b);
		}
		(void)off;
	}
	{ // move_towards
		T d = std::fabs(r.below(3) ? fval<T>(r) : (T)(b - a));
		if (r.below(4) == 0) d = step(d, r.range(-2, 2));
		if (d >= 0)
		{
			const T g = ext::move_towards(a, b, d);
			const Q gap = qabs((Q)b - (Q)a), left = qabs((Q)b - (Q)g);
			LAW("move_towards", T, g >= std::fmin(a, b) && g <= std::fmax(a, b), "does not overshoot", g, b, a, b, d);
			if (gap <= (Q)d) LAW("move_towards", T, g == b, "reaches a target within max_delta", g, b, a, b, d);
			const Q want = gap <= (Q)d ? (Q)b : b > a ? (Q)a + d : (Q)a - d;
			near<T>("move_towards", g, want, e * qabs(want) + (qabs(gap - (Q)d) <= 2 * e * gap ? 2 * e * gap : (Q)0), a, b, d);
			(void)left;
		}
	}
	{ // cubic, rcp, lerp_smooth
		T y[4] = { fval<T>(r), fval<T>(r), fval<T>(r), fval<T>(r) }, t = (T)(r.next() >> 11) / (T)9007199254740992.0;
		Q q0 = y[0], q1 = y[1], q2 = y[2], q3 = y[3], tq = t, a0 = q3 - q2 - q0 + q1, a1 = q0 - q1 - a0, a2 = q2 - q0;
		near<T>("cubic", ext::cubic(y[0], y[1], y[2], y[3], t), a0 * tq * tq * tq + a1 * tq * tq + a2 * tq + q1, 16 * e * (qabs(q0) + qabs(q1) + qabs(q2) + qabs(q3)) + 8 * dm, y[0], y[1], y[2], y[3], t);
		LAW("cubic", T, ext::cubic(y[0], y[1], y[2], y[3], zero) == y[1], "starts at y1", ext::cubic(y[0], y[1], y[2], y[3], zero), y[1], y[0], y[1], y[2], y[3]);
		if (x != 0 && std::fabs(x) > lim<T>(FT<T>::emin)) near<T>("rcp", ext::rcp(x), 1 / (Q)x, e * qabs(1 / (Q)x) + dm, x);
		T h = std::fabs(fval<T>(r)), dt = r.below(4) ? h * (T)(r.range(0, 4000)) / 256 : h * (T)r.range(0, 20);
		if (h > lim<T>(-100) && h < lim<T>(100))
		{
			const T g = ext::lerp_smooth(a, b, dt, h);
			const Q k = (Q)std::exp2(-(long double)dt / (long double)h);
			// the exponent is rounded once and exp2 is within two units
			const Q bd = (qabs((Q)a) + qabs((Q)b)) * k * e * (8 + 2 * (Q)dt / (Q)h) + 2 * e * qabs((Q)b) + 4 * dm;
			const bool wide = std::is_same_v<T, long double>;
			near<T>("lerp_smooth", g, (Q)b + ((Q)a - (Q)b) * k, wide ? bd * 4096 : bd, a, b, dt, h);
			LAW("lerp_smooth", T, ext::lerp_smooth(a, b, zero, h) == a || qabs((Q)ext::lerp_smooth(a, b, zero, h) - (Q)a) <= 2 * e * (qabs((Q)a) + qabs((Q)b)), "starts at a", ext::lerp_smooth(a, b, zero, h), a, a, b, zero, h);
		}
	}
}
// distance on the circle of the given circumference
template <class T> static Q circle(Q d, Q c)
{
	d = qabs(d);
	if (d >= c) d -= c * (Q)(long double)(unsigned long long)(d / c);
	return d < c - d ? d : c - d;
}
template <class T> static T angle(Rng & r)
{
	switch (r.range(0, 6))
	{
	case 0: return (T)(r.range(-40, 40) * 45);
	case 1: return step((T)(r.range(-40, 40) * 90), r.range(-4, 4));
	case 2: return (T)r.range(-100000, 100000) / 16;
	case 3: return gen<T>(r, C_UNIT, -30, 30);
	case 4: return gen<T>(r, C_UNIT, -30, 30) * lim<T>(r.range(0, FT<T>::prec + 12));
	case 5: return gen<T>(r, C_UNIT, -30, 30) * lim<T>(-r.range(0, FT<T>::prec + 12));
	default: return (T)(r.range(-100, 100) * 360) + gen<T>(r, C_UNIT, -30, 30) / 4096;
	}
}
template <class T> static void angles_one(Rng & r)
{
	const Q e = eps<T>(), dm = tiny<T>();
	const T zero = 0;
	{ // repeat
		T len = r.below(3) ? std::fabs(fval<T>(r)) : (T)360;
		if (r.below(4) == 0) len = (T)6.28318530717958647692528676655900577L;
		T x = r.below(3) ? angle<T>(r) : r.below(2) ? step((T)(len * r.range(-50, 50)), r.range(-3, 3)) : fval<T>(r);
		if (len > lim<T>(-FT<T>::emax / 4) && std::fabs(x) < lim<T>(FT<T>::emax / 2))
		{
			const T m = std::fmod(x, len);
			const Q w = m < 0 ? (Q)m + (Q)len : (Q)m;
			for (int k = 0; k < 2; ++k)
			{
				const char * n = k ? "safe::repeat" : "repeat";
				const T g	   = k ? ext::safe::repeat(x, len) : ext::repeat(x, len);
				LAW(n, T, g >= 0 && g < len, "lies in [0, length)", g, len, x, len);
				seen(n, x, len);
				Q d = qabs((Q)g - w);
				if ((Q)len - d < d) d = (Q)len - d;
				if (!(d <= e * (Q)len)) fail<T>(n, "congruent", show(g), mon::fmt("expected %.20Lg modulo the length", (long double)w), x, len);
			}
		}
		LAW("safe::repeat", T, ext::safe::repeat(x, zero) == 0, "length 0 gives 0", ext::safe::repeat(x, zero), zero, x, zero);
		if (len > lim<T>(-FT<T>::emax / 4))
		{
			const T g = ext::ping_pong(x, len);
			T p		  = std::fmod(std::fabs(x), 2 * len);
			const T w = p <= len ? p : 2 * len - p;
			LAW("ping_pong", T, g >= 0 && g <= len, "lies in [0, range]", g, len, x, len);
			near<T>("ping_pong", g, (Q)w, 6 * e * (qabs((Q)x) + (Q)len), x, len);
		}
		LAW("ping_pong", T, ext::ping_pong(x, zero) == 0, "range 0 gives 0", ext::ping_pong(x, zero), zero, x, zero);
		const T f = ext::fract(x), fl = std::floor(x);
		near<T>("fract", f, (Q)x - (Q)fl, e / 2 * qabs((Q)x - (Q)fl), x);
	}
	{ // angles
		T a = angle<T>(r), b = r.below(4) ? angle<T>(r) : a + (T)(r.range(-20, 20) * 90);
		const T d = b - a;
		const T m = std::remainder(d, (T)360);
		for (int k = 0; k < 2; ++k)
		{
			const char * n = k ? "safe::delta_angle" : "delta_angle";
			const T g	   = k ? ext::safe::delta_angle(a, b) : ext::delta_angle(a, b);
			LAW(n, T, g >= -180 && g <= 180, "lies in [-180, 180]", g, d, a, b);
			const Q q = circle<T>((Q)g - (Q)m, 360);
			seen(n, a, b);
			if (!(q <= 2 * e * 360)) fail<T>(n, "congruent", show(g), mon::fmt("the difference is %.20Lg modulo 360", (long double)m), a, b);
			LAW(n, T, (k ? ext::safe::delta_angle(a, a) : ext::delta_angle(a, a)) == 0, "is 0 between equal angles", g, zero, a, a);
			const char * n2 = k ? "safe::lerp_angle" : "lerp_angle";
			T t				= r.below(2) ? (T)(r.next() >> 11) / (T)9007199254740992.0 : (T)r.range(-3, 3) / 2;
			const T l		= k ? ext::safe::lerp_angle(a, b, t) : ext::lerp_angle(a, b, t);
			const Q lw		= (Q)a + (Q)m * (Q)t, lw2 = (Q)a + ((Q)m < 0 ? (Q)m + 360 : (Q)m - 360) * (Q)t;
			const Q bd		= 4 * e * (qabs((Q)a) + 360 * (1 + qabs((Q)t))) + 2 * dm;
			seen(n2, a, b, t);
			const bool half = qabs((Q)m) >= 180 - 4 * e * 360;
			if (!(qabs((Q)l - lw) <= bd) && !(half && qabs((Q)l - lw2) <= bd)) fail<T>(n2, "value", show(l), mon::fmt("expected %.20Lg within %.3Lg", (long double)lw, (long double)bd), a, b, t);
			const char * n3 = k ? "safe::move_towards_angle" : "move_towards_angle";
			T s				= std::fabs(r.below(2) ? angle<T>(r) : (T)r.range(0, 800) / 4);
			const T v		= k ? ext::safe::move_towards_angle(a, b, s) : ext::move_towards_angle(a, b, s);
			const Q slack	= 4 * e * (qabs((Q)a) + 360) + 2 * dm;
			seen(n3, a, b, s);
			const Q moved = (Q)v - (Q)a, gap = qabs((Q)m);
			if (!(qabs(moved) <= (Q)s + slack)) fail<T>(n3, "moves at most max_delta", show(v), show(s), a, b, s);
			if (!(qabs(moved) <= gap + slack)) fail<T>(n3, "does not overshoot", show(v), show(m), a, b, s);
			if (gap <= (Q)s && !(circle<T>(moved - (Q)m, 360) <= slack)) fail<T>(n3, "reaches a target within max_delta", show(v), show(m), a, b, s);
			if (gap > (Q)s && !(qabs(moved) >= (Q)s - slack)) fail<T>(n3, "moves by max_delta", show(v), show(s), a, b, s);
			if (!half && gap > slack && !((m > 0 ? moved : -moved) >= -slack)) fail<T>(n3, "moves towards the target", show(v), show(m), a, b, s);
		}
	}
	{ // degrees and radians
		const Q pi = 3.14159265358979323846264338327950288419716939937510Q;
		T x = r.below(2) ? angle<T>(r) : fval<T>(r);
		if (std::fabs(x) < lim<T>(FT<T>::emax - 10))
		{
			near<T>("radians", ext::radians(x), (Q)x * pi / 180, 3 * e * qabs((Q)x * pi / 180) + dm, x);
			near<T>("degrees", ext::degrees(x), (Q)x * 180 / pi, 3 * e * qabs((Q)x * 180 / pi) + 60 * dm, x);
		}
	}
}
template <class T, class F> static void many(const char *, int salt, F && f)
{
	const long n = (long)(40000 * SCALE) / (std::is_same_v<T, long double> ? 2 : 1);
	Rng r(SEED * 1315423911u + salt * 7919 + sizeof(T));
	for (long i = 0; i < n; ++i) f(r);
}

// ---------------------------------------------------------------- constant evaluation gives the run-time value
struct CR
{
	std::uint64_t s;
	constexpr std::uint64_t next()
	{
		s = s * 6364136223846793005ull + 1442695040888963407ull;
		std::uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		return z ^ (z >> 27);
	}
	template <class T> constexpr T f()
	{
		const int k = (int)(next() % 6);
		if (k == 0) return (T)((int)(next() % 41) - 20);
		if (k == 1) return (T)((int)(next() % 161) - 80) * 45;
		T x = (T)((long long)(next() >> 11) - (1ll << 52)) / (T)4503599627370496.0;
		return k == 2 ? x : k == 3 ? x * 1000 : k == 4 ? x * 20 : x / 3000;
	}
};
constexpr int CN = 60, CF = 31;
template <class T> struct Row
{
	T a, b, c, d, x, pos, unit;
};
template <class T> constexpr std::array<T, CF> helpers(const Row<T> & v)
{
	std::array<T, CF> o{};
	int i = 0;
	o[i++] = ext::clamp(v.x, v.a < v.b ? v.a : v.b, v.a < v.b ? v.b : v.a);
	o[i++] = ext::saturate(v.x);
	o[i++] = ext::step(v.a, v.x);
	o[i++] = ext::sign(v.x);
	o[i++] = ext::chgsign(v.x, v.a);
	o[i++] = ext::approximately(v.a, v.b, v.pos) ? 1 : 0;
	o[i++] = ext::mix(v.a, v.b, v.unit);
	o[i++] = ext::unlerp(v.a, v.a + v.pos, v.x);
	o[i++] = ext::safe::unlerp(v.a, v.b, v.x);
	o[i++] = ext::inverse_lerp(v.a, v.a + v.pos, v.x);
	o[i++] = ext::safe::inverse_lerp(v.a, v.b, v.x);
	o[i++] = ext::normalize(v.x, v.a, v.a + v.pos);
	o[i++] = ext::safe::normalize(v.x, v.a, v.b);
	o[i++] = ext::smoothstep(v.a, v.a + v.pos, v.x);
	o[i++] = ext::remap(v.a, v.a + v.pos, v.c, v.d, v.x);
	o[i++] = ext::safe::remap(v.a, v.b, v.c, v.d, v.x);
	o[i++] = ext::move_towards(v.a, v.b, v.pos);
	o[i++] = ext::cubic(v.a, v.b, v.c, v.d, v.unit);
	o[i++] = ext::rcp(v.pos);
	o[i++] = ext::repeat(v.x, v.pos);
	o[i++] = ext::safe::repeat(v.x, v.pos);
	o[i++] = ext::ping_pong(v.x, v.pos);
	o[i++] = ext::fract(v.x);
	o[i++] = ext::delta_angle(v.a, v.b);
	o[i++] = ext::safe::delta_angle(v.a, v.b);
	o[i++] = ext::lerp_angle(v.a, v.b, v.unit);
	o[i++] = ext::move_towards_angle(v.a, v.b, v.pos);
	o[i++] = ext::safe::move_towards_angle(v.a, v.b, v.pos);
	o[i++] = ext::radians(v.x);
	o[i++] = ext::degrees(v.x);
	o[i++] = ccm::lerp(v.a, v.b, v.unit);
	return o;
}
static const char * const CNAME[CF] = { "clamp", "saturate", "step", "sign", "chgsign", "approximately", "mix", "unlerp", "safe::unlerp", "inverse_lerp", "safe::inverse_lerp", "normalize", "safe::normalize", "smoothstep", "remap",
	"safe::remap", "move_towards", "cubic", "rcp", "repeat", "safe::repeat", "ping_pong", "fract", "delta_angle", "safe::delta_angle", "lerp_angle", "move_towards_angle", "safe::move_towards_angle", "radians", "degrees", "lerp" };
template <class T> constexpr Row<T> row(int i)
{
	CR r{ 0x9e3779b97f4a7c15ull * (unsigned)(i + 1) };
	r.next();
	Row<T> v{ r.f<T>(), r.f<T>(), r.f<T>(), r.f<T>(), r.f<T>(), (T)0, (T)0 };
	v.pos = r.f<T>();
	v.pos = (v.pos < 0 ? -v.pos : v.pos) + (T)0.125;
	v.unit = (T)(r.next() >> 40) / (T)16777216;
	return v;
}
template <class T> constexpr std::array<std::array<T, CF>, CN> ctable()
{
	std::array<std::array<T, CF>, CN> t{};
	for (int i = 0; i < CN; ++i) t[i] = helpers<T>(row<T>(i));
	return t;
}
template <class T> static void constants()
{
	static constexpr auto tab = ctable<T>();
	for (int i = 0; i < CN; ++i)
	{
		volatile Row<T> vr;
		const Row<T> c = row<T>(i);
		vr.a = c.a, vr.b = c.b, vr.c = c.c, vr.d = c.d, vr.x = c.x, vr.pos = c.pos, vr.unit = c.unit;
		const Row<T> v{ vr.a, vr.b, vr.c, vr.d, vr.x, vr.pos, vr.unit };
		const auto g = helpers<T>(v);
		for (int k = 0; k < CF; ++k)
		{
			seen(CNAME[k], i, k);
			// one rounding apart where the compiler may contract a product and a sum
			const bool ok = same(g[k], tab[i][k]) || g[k] == tab[i][k]
#ifdef __FMA__
							|| std::fabs(g[k] - tab[i][k]) <= 64 * std::numeric_limits<T>::epsilon() * (std::fabs(v.a) + std::fabs(v.b) + std::fabs(v.c) + std::fabs(v.d) + std::fabs(v.x) + 360 + std::fabs(tab[i][k])) * (1 + 1 / v.pos)
#endif
				;
			if (!ok) fail<T>(CNAME[k], "constant-evaluation", show(tab[i][k]), "run time gives " + show(g[k]), v.a, v.b, v.c, v.d, v.x, v.pos, v.unit);
		}
	}
}
int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	SEED  = mon::args.seed;
	SCALE = mon::args.budget > 0 ? mon::args.budget : 1;
	std::vector<std::function<void()>> jobs;
	// one part per build keeps the compile short
#if CCMV_PART == 1
	jobs = { integers<signed char>, integers<unsigned char>, integers<short>, integers<unsigned short>, integers<int>, integers<unsigned>, integers<long>, integers<unsigned long>, integers<long long>, integers<unsigned long long> };
#else
	for (int k = 0; k < 4; ++k)
	{
#if CCMV_PART == 2
		jobs.push_back([k] { many<float>("", k, ranges_one<float>); });
		jobs.push_back([k] { many<double>("", k, ranges_one<double>); });
		jobs.push_back([k] { many<long double>("", k, ranges_one<long double>); });
#else
		jobs.push_back([k] { many<float>("", k, angles_one<float>); });
		jobs.push_back([k] { many<double>("", k, angles_one<double>); });
		jobs.push_back([k] { many<long double>("", k, angles_one<long double>); });
#endif
	}
	jobs.push_back([] { constants<float>(); constants<double>(); constants<long double>(); });
#endif
	mon::parallel(jobs.size(), [&](std::uint64_t c) { jobs[c](); });
	return mon::finish();
}
