// C08: with CCM_CONSTEXPR_ROUNDING_MODE set, what ccmath evaluates in constant expressions (fma, sqrt, rint and
// nearbyint, the functions whose result depends on the mode) is rounded in that mode, and calls at run time still
// follow the thread's mode. Built once per mode; with CCMV_FORCE_CE the constant-evaluation code itself runs, so
// that arbitrary arguments reach it; without, constants the compiler evaluates are compared.
#include <array>
#include <cerrno>
#include <cfenv>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#ifdef CCMV_FORCE_CE
#define __builtin_is_constant_evaluated() true
#endif
#include <ccmath/math/basic/fma.hpp>
#include <ccmath/math/nearest/nearbyint.hpp>
#include <ccmath/math/nearest/rint.hpp>
#include <ccmath/math/power/sqrt.hpp>
#ifdef CCMV_FORCE_CE
#undef __builtin_is_constant_evaluated
#endif

#include "core.hpp"
#include "mon.hpp"

#ifndef CCMV_NAME
#define CCMV_NAME "direct"
#endif
#define OPAQUE(x) asm volatile("" : "+m"(x) : : "memory")
constexpr int CONF = CCM_CONSTEXPR_ROUNDING_MODE;
static std::uint64_t SEED;
static double SCALE;

template <class T> static T fma_ref(T x, T y, T z, int m)
{
	Mp a(FT<T>::prec), b(FT<T>::prec), c(FT<T>::prec);
	mset(a.v, x), mset(b.v, y), mset(c.v, z);
	return mp_round<T>([&](mpfr_ptr r, mpfr_rnd_t k) { return mpfr_fma(r, a.v, b.v, c.v, k); }, m);
}
template <class T> static T sqrt_ref(T x, int m)
{
	Mp a(FT<T>::prec);
	mset(a.v, x);
	return mp_round<T>([&](mpfr_ptr r, mpfr_rnd_t k) { return mpfr_sqrt(r, a.v, k); }, m);
}
template <class T> static T rint_ref(T x, int m)
{
	Mp a(FT<T>::prec);
	mset(a.v, x);
	const T r = mp_round<T>([&](mpfr_ptr q, mpfr_rnd_t) { return mpfr_rint(q, a.v, mrnd(m)); }, m);
	return r == 0 ? (neg(x) ? -T(0) : T(0)) : r;
}
static void judge(const char * fn, const char * how, const std::string & args, bool ok, const std::string & got, const std::string & want, int m)
{
	if (!ok) mon::violation(std::string(fn) + " " + how + "/" CCMV_NAME, std::string(fn) + "(" + args + ") " + how + " with CCM_CONSTEXPR_ROUNDING_MODE=" + mode_name(CONF) + " on " CCMV_NAME " is " + got + "; rounded in " + mode_name(m) + " it is " + want);
}
template <class T> static bool eq(T g, T w) { return (is_nan(g) && is_nan(w)) || same(g, w); }
template <class T> static void fma_case(const char * how, T x, T y, T z, T g, int m)
{
	auto & w = mon::self();
	w.ev++, w.ck++;
	int e = 0;
	if (!is_nan(g) && !__builtin_isinf(g)) (void)__builtin_frexpl((long double)g, &e);
	mon::cover(mon::mix((std::uint64_t)(e + 40000) * 8 + sizeof(T) % 7 + (neg(g) ? 4096 : 0)));
	if (is_nan(x) || is_nan(y) || is_nan(z))
	{
		judge("fma", how, show(x) + ", " + show(y) + ", " + show(z), is_nan(g), show(g), "a NaN", m);
		return;
	}
	mon::sample_once(how, [&] { return mon::fmt("fma(%s, %s, %s) %s on %s is %s, judged in %s", show(x).c_str(), show(y).c_str(), show(z).c_str(), how, CCMV_NAME, show(g).c_str(), mode_name(m)); });
	T want = fma_ref(x, y, z, m);
	if (!is_nan(want) && want == 0)
	{
		// an exact zero: the sign of the sum of two zeros, or of a cancellation
		if (x == 0 || y == 0)
		{
			const bool ps = neg(x) != neg(y), zs = neg(z);
			want = (ps == zs ? ps : m == FE_DOWNWARD) ? -T(0) : T(0);
		}
		else if (fma_ref(x, y, z, FE_UPWARD) == 0 && fma_ref(x, y, z, FE_DOWNWARD) == 0)
			want = m == FE_DOWNWARD ? -T(0) : T(0);
	}
	judge("fma", how, show(x) + ", " + show(y) + ", " + show(z), eq(g, want), show(g), show(want), m);
}
template <class T> static void unary_case(const char * fn, const char * how, T x, T g, int m)
{
	auto & w = mon::self();
	w.ev++, w.ck++;
	int e = 0;
	if (!is_nan(x) && !__builtin_isinf(x)) (void)__builtin_frexpl((long double)x, &e);
	mon::cover(mon::mix((std::uint64_t)(e + 40000) * 8 + sizeof(T) % 7 + (unsigned)fn[0] * 1000000ull));
	mon::sample_once(fn, [&] { return mon::fmt("%s(%s) %s on %s is %s, judged in %s", fn, show(x).c_str(), how, CCMV_NAME, show(g).c_str(), mode_name(m)); });
	const T want = is_nan(x) ? x : fn[0] == 's' ? sqrt_ref(x, m) : rint_ref(x, m);
	if (is_nan(x) || is_nan(want)) judge(fn, how, show(x), is_nan(g), show(g), "a NaN", m);
	else judge(fn, how, show(x), same(g, want), show(g), show(want), m);
}
// ------------------------------------------------------------------ constants
constexpr std::uint64_t kmix(std::uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
template <class T> constexpr T karg(std::uint64_t i, int lo, int hi)
{
	constexpr int p		  = std::numeric_limits<T>::digits;
	const std::uint64_t a = kmix(i), b = kmix(i + 77777);
	std::uint64_t m		  = (a >> (64 - p)) | (1ull << (p - 1));
	if (b % 4 == 0) m = (m >> (p / 2)) << (p / 2);
	if (b % 4 == 1) m = (1ull << (p - 1)) + (a & 3);
	T x	  = (T)m;
	int e = lo + (int)((b >> 8) % (std::uint64_t)(hi - lo + 1)) - (p - 1);
	for (; e > 0; --e) x *= 2;
	for (; e < 0; ++e) x /= 2;
	return (b >> 60) & 1 ? -x : x;
}
template <class T> struct Con
{
	T x, y, z, f, s, r, n;
};
template <class T, int N> constexpr std::array<Con<T>, N> constants(std::uint64_t seed)
{
	std::array<Con<T>, N> a{};
	for (int i = 0; i < N; ++i)
	{
		Con<T> c{};
		const std::uint64_t k = seed * 1000 + (std::uint64_t)i * 5;
		constexpr int p = std::numeric_limits<T>::digits;
		c.x = karg<T>(k, -8, 8), c.y = karg<T>(k + 1, -8, 8), c.z = karg<T>(k + 2, -p - 12, p + 12);
		c.f = ccm::fma(c.x, c.y, c.z);
		c.s = ccm::sqrt(c.x < 0 ? -c.x : c.x);
		const T q = karg<T>(k + 3, -3, i % 2 ? 8 : p);
		c.r = ccm::rint(q);
		c.n = ccm::nearbyint(q);
		a[(std::size_t)i] = c;
	}
	return a;
}
template <class T> static void folded()
{
	constexpr int N			  = 200;
	static constexpr auto one = constants<T, N>(CCMV_SEED);
	for (int i = 0; i < N; ++i)
	{
		const Con<T> & c = one[(std::size_t)i];
		const T q		 = karg<T>((std::uint64_t)CCMV_SEED * 1000 + (std::uint64_t)i * 5 + 3, -3, i % 2 ? 8 : std::numeric_limits<T>::digits);
		fma_case<T>("in a constant expression", c.x, c.y, c.z, c.f, CONF);
		unary_case<T>("sqrt", "in a constant expression", c.x < 0 ? -c.x : c.x, c.s, CONF);
		unary_case<T>("rint", "in a constant expression", q, c.r, CONF);
		unary_case<T>("nearbyint", "in a constant expression", q, c.n, CONF);
	}
}
// ------------------------------------------------------------------ calls
template <class T> static void calls(Rng & r)
{
	constexpr int p = FT<T>::prec;
#ifdef CCMV_FORCE_CE
	const char * how = "in the constant-evaluation code";
	const int thread = FE_TONEAREST, want = CONF;
#else
	const char * how = "at run time";
	const int thread = kModes[r.range(0, 3)], want = thread;
#endif
	T x = gen<T>(r, r.range(0, C_COUNT - 1), FT<T>::emin - p, FT<T>::emax), y = gen<T>(r, r.range(0, C_COUNT - 1), FT<T>::emin - p, FT<T>::emax), z = gen<T>(r, r.range(0, C_COUNT - 1), FT<T>::emin - p, FT<T>::emax);
	switch (r.range(0, 3))
	{
	case 0:
	{
		// z within reach of the product
		int ex = 0, ey = 0;
		if (is_nan(x) || is_nan(y) || __builtin_isinf(x) || __builtin_isinf(y)) break;
		(void)__builtin_frexpl((long double)x, &ex), (void)__builtin_frexpl((long double)y, &ey);
		int e = ex + ey + r.range(-p - 3, p + 3);
		e = e < FT<T>::emin - p ? FT<T>::emin - p : e > FT<T>::emax - 1 ? FT<T>::emax - 1 : e;
		z = gen<T>(r, C_UNIT, e, e + 1);
		break;
	}
	case 1:
	{
		// nearly cancelling
		Mp a(p), b(p);
		if (is_nan(x) || is_nan(y)) break;
		mset(a.v, x), mset(b.v, y);
		z = step(mp_round<T>([&](mpfr_ptr q, mpfr_rnd_t k) { return mpfr_mul(q, a.v, b.v, k); }, FE_TONEAREST), r.range(-1, 1));
		z = -z;
		break;
	}
	default: break;
	}
	OPAQUE(x);
	OPAQUE(y);
	OPAQUE(z);
	T f, s, ri, nb;
	T q = r.range(0, 1) ? x : gen<T>(r, r.range(0, C_COUNT - 1), -3, p + 1);
	OPAQUE(q);
	std::fesetround(thread);
	f = ccm::fma(x, y, z);
	OPAQUE(f);
	s = ccm::sqrt(x);
	OPAQUE(s);
	ri = ccm::rint(q);
	OPAQUE(ri);
	nb = ccm::nearbyint(q);
	OPAQUE(nb);
	std::fesetround(FE_TONEAREST);
	fma_case<T>(how, x, y, z, f, want);
	unary_case<T>("sqrt", how, x, s, want);
	unary_case<T>("rint", how, q, ri, want);
	unary_case<T>("nearbyint", how, q, nb, want);
}
int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	SEED  = mon::args.seed;
	SCALE = mon::args.budget > 0 ? mon::args.budget : 1;
#ifndef CCMV_FORCE_CE
	folded<float>();
	folded<double>();
	folded<long double>();
#endif
	mon::parallel(16, [&](std::uint64_t i) {
		Rng r(mon::mix(SEED * 1000003 + i));
		for (std::uint64_t j = 0; j < (std::uint64_t)(1000 * SCALE); ++j)
		{
			mon::about("configured rounding mode", CCMV_NAME, CONF, j, i);
			calls<float>(r);
			calls<double>(r);
			calls<long double>(r);
		}
	});
	return mon::finish();
}
