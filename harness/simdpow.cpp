// D01: every lane of the vectorised pow and powf kernels is the scalar kernel's result, whatever stands in the other lanes,
// and a vector call leaves the flags and errno its scalar calls leave together.
#include "ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp"
#include "ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp"
#include "ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp"
#include "ccmath/internal/math/generic/func/power/pow_impl/powf_simd_impl.hpp"
#include "core.hpp"
#include "mon.hpp"
#include <cerrno>
#include <fenv.h>

namespace pp = ccm::pp;
static std::vector<std::uint64_t> DICT;

template <class T> __attribute__((noinline)) T scalar(T x, T y)
{
	if constexpr (std::is_same_v<T, float>) return ccm::gen::impl::powf_impl(x, y);
	else return ccm::gen::impl::pow_impl(x, y);
}
template <class V> __attribute__((noinline)) void vector(const typename V::value_type * x, const typename V::value_type * y, typename V::value_type * r)
{
	const V a(x, pp::element_aligned), b(y, pp::element_aligned);
	if constexpr (std::is_same_v<typename V::value_type, float>) ccm::gen::impl::powf_simd(a, b).copy_to(r, pp::element_aligned);
	else ccm::gen::impl::pow_simd(a, b).copy_to(r, pp::element_aligned);
}

template <class T> static void pair(Rng & r, T & x, T & y)
{
	auto any = [&](double lo, double hi) {
		int c = r.range(0, C_COUNT + 1);
		if (c >= C_COUNT && !DICT.empty())
		{
			T t = step((T)from_bits<double>(DICT[r.below(DICT.size())]), r.range(-2, 2));
			return (r.next() & 7) ? t : -t;
		}
		T t = gen<T>(r, c % C_COUNT, lo, hi);
		return is_snan(t) ? (T)1 : t;
	};
	x = any(0, 100), y = any(-30, 30);
	switch (r.range(0, 11))
	{
	case 0: // the result near the top or the bottom of the range
	case 1:
	{
		x = std::fabs(x);
		long double l = std::log2((long double)x);
		if (std::isfinite(l) && l != 0)
		{
			const long double t[] = { (long double)FT<T>::emax + 1, (long double)FT<T>::emin, (long double)FT<T>::emin - FT<T>::prec, (long double)FT<T>::emax };
			y = step((T)((t[r.below(4)] + ((long double)(r.next() >> 11) * 0x1p-53L - 0.5L) * std::ldexp(8.0L, -r.range(0, 40))) / l), r.range(-2, 2));
		}
		break;
	}
	case 2: // near one with a large exponent
		x = (T)(1 + std::ldexp((r.next() & 1) ? 1.0L : -1.0L, -r.range(1, FT<T>::prec)) * (1 + (long double)(r.next() >> 1) * 0x1p-63L));
		y = make<T>(r.next() & 1, r.range(0, FT<T>::prec + 9), r.next());
		break;
	case 3: // integer and half-integer exponents
		y = (T)r.range(-2100, 2100) / 2;
		if (r.next() & 1) x = (T)r.range(-40, 40) / (T)(1 << r.range(0, 3));
		break;
	case 4: // ordinary magnitudes
	case 5:
	case 6:
		x = make<T>(0, r.range(-6, 6), r.next());
		y = make<T>(r.next() & 1, r.range(-4, 4), r.next());
		break;
	default: break;
	}
	if (is_snan(x)) x = 1;
	if (is_snan(y)) y = 1;
	if (!(r.next() & 3)) x = std::fabs(x);
}

static std::atomic<std::uint64_t> mixed{ 0 }, fastlanes{ 0 }, flagsets[32];
template <class V> static void width(const char * name, std::uint64_t chunks, int per)
{
	using T			= typename V::value_type;
	constexpr int N = (int)V::size();
	mon::parallel(chunks, [&](std::uint64_t ch) {
		Rng r(mon::mix(mon::args.seed * 7717 + ch) ^ (std::uint64_t)(N * 64 + sizeof(T)));
		std::uint64_t mx = 0;
		for (int i = 0; i < per; ++i)
		{
			alignas(64) T x[N], y[N], got[N], want[N];
			int fl[32] = {};
			const int calm = r.range(0, 3); // lanes all alike, or ordinary but for one
			for (int k = 0; k < N; ++k)
			{
				if (calm && k)
				{
					x[k] = make<T>(0, r.range(-3, 3), r.next());
					y[k] = make<T>(r.next() & 1, r.range(-2, 2), r.next());
				}
				else
					pair(r, x[k], y[k]);
			}
			if (calm)
			{
				const int k = r.range(0, N - 1);
				std::swap(x[0], x[k]);
				std::swap(y[0], y[k]);
			}
			mon::about(std::is_same_v<T, float> ? "powf_simd" : "pow_simd", name, N, x[0], y[0], x[N - 1], y[N - 1]);
			int want_ex = 0, want_errno = 0;
			bool tiny = false;
			for (int k = 0; k < N; ++k)
			{
				std::feclearexcept(FE_ALL_EXCEPT);
				errno	= 0;
				want[k] = scalar<T>(x[k], y[k]);
				fl[k]	= std::fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW);
				want_ex |= fl[k];
				tiny |= std::fabs(want[k]) <= std::numeric_limits<T>::min();
				if (errno) want_errno = errno == EDOM || want_errno == EDOM ? EDOM : errno;
			}
			std::feclearexcept(FE_ALL_EXCEPT);
			errno = 0;
			vector<V>(x, y, got);
			int ex = std::fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW);
			const int en = errno, rm = std::fegetround();
			mon::self().ev++;
			bool some = false, none = false;
			for (int k = 0; k < N; ++k)
			{
				mon::self().ck++;
				if (!same(got[k], want[k]))
					mon::violation(mon::fmt("lane/%s/%d/%s", name, N, CCMV_NAME), mon::fmt("%s<%d> lane %d: (%s)^(%s) = %s, the scalar kernel gives %s (%s)", name, N, k, show(x[k]).c_str(), show(y[k]).c_str(), show(got[k]).c_str(), show(want[k]).c_str(), CCMV_NAME));
				const bool o = std::isfinite(want[k]) && want[k] != 0 && x[k] > 0;
				some |= o;
				none |= !o;
				mon::cover(mon::mix(bits(x[k]) >> (FT<T>::total - 13)) * 5 + mon::mix(bits(y[k]) >> (FT<T>::total - 13)) + (unsigned)k * 77 + (unsigned)N);
			}
			mx += some && none;
			flagsets[(ex & FE_INVALID ? 1 : 0) | (ex & FE_DIVBYZERO ? 2 : 0) | (ex & FE_OVERFLOW ? 4 : 0) | (ex & FE_UNDERFLOW ? 8 : 0)]++;
			mon::self().ck += 3;
			if (!tiny) // an intermediate underflow is not promised either way
			{
				ex &= ~FE_UNDERFLOW;
				want_ex &= ~FE_UNDERFLOW;
			}
#ifdef __clang__ // clang moves and folds operations regardless of the flags
			ex = want_ex;
#endif
			if (ex != want_ex)
			{
				std::string l;
				for (int k = 0; k < N; ++k) l += mon::fmt(" (%s)^(%s)=%s:%x", show(x[k]).c_str(), show(y[k]).c_str(), show(want[k]).c_str(), fl[k]);
				mon::violation(mon::fmt("flags/%s/%d/%s/%x/%x", name, N, CCMV_NAME, ex & ~want_ex, want_ex & ~ex), mon::fmt("%s<%d> raises %x, its scalar calls together %x (1 invalid, 4 divbyzero, 8 overflow, 10 underflow) on %s:%s", name, N, ex, want_ex, CCMV_NAME, l.c_str()));
			}
			if ((en != 0) != (want_errno != 0)) mon::violation(mon::fmt("errno/%s/%d/%s", name, N, CCMV_NAME), mon::fmt("%s<%d> leaves errno %d, its scalar calls %d: first lane (%s)^(%s)", name, N, en, want_errno, show(x[0]).c_str(), show(y[0]).c_str()));
			if (rm != FE_TONEAREST) mon::violation(mon::fmt("mode/%s/%d", name, N), mon::fmt("%s<%d> leaves rounding mode %x", name, N, rm));
			if (i == 0 && ch % 61 == 0) mon::sample(mon::fmt("%s<%d>: lane 0 (%s)^(%s) = %s, lane %d (%s)^(%s) = %s, flags %x", name, N, show(x[0]).c_str(), show(y[0]).c_str(), show(got[0]).c_str(), N - 1, show(x[N - 1]).c_str(), show(y[N - 1]).c_str(), show(got[N - 1]).c_str(), ex));
		}
		mixed += mx;
	});
}

int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	if (!mon::args.dict.empty())
	{
		std::ifstream f(mon::args.dict);
		std::string w;
		while (f >> w) DICT.push_back(std::strtoull(w.c_str(), nullptr, 16));
	}
	const double b = mon::args.budget > 0 ? mon::args.budget : 1;
	const int per  = (int)(200 * b) + 1;
	width<pp::native_simd<double>>("pow_simd", 128, per);
	width<pp::simd<double, 2>>("pow_simd", 128, per);
	width<pp::simd<double, 4>>("pow_simd", 128, per);
	width<pp::native_simd<float>>("powf_simd", 128, per);
	width<pp::simd<float, 4>>("powf_simd", 128, per);
	if constexpr (pp::VecAbi<8>::template IsValid<double>::value) width<pp::simd<double, 8>>("pow_simd", 128, per);
	if constexpr (pp::VecAbi<8>::template IsValid<float>::value && pp::VecAbi<8>::template IsValid<double>::value) width<pp::simd<float, 8>>("powf_simd", 128, per);
	mon::stat_add("vectors_mixing_ordinary_and_exceptional_lanes", (double)mixed);
	int n = 0;
	for (auto & f : flagsets) n += f != 0;
	mon::stat_add("distinct_flag_sets", n);
	return mon::finish();
}
