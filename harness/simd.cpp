// D03: the internal vector types (ccm::intrin::simd): every operation acts on each lane exactly as the scalar operation does.
#include <ccmath/internal/math/runtime/simd/func/catalog.hpp>
#include <ccmath/internal/math/runtime/simd/simd.hpp>
#include <ccmath/ccmath.hpp>

#include "core.hpp"
#include "mon.hpp"

#ifndef CCMV_NAME
#define CCMV_NAME "direct"
#endif
namespace in = ccm::intrin;
static std::uint64_t SEED;
static double SCALE;

template <class T> static T lane(Rng & r)
{
	T x = gen<T>(r, r.range(0, C_COUNT - 1), -30, 30);
	return is_snan(x) ? (T)1 : x;
}
template <class T> static bool agree(T a, T b) { return is_nan(a) ? is_nan(b) : same(a, b); }

template <class T, class Abi, bool PACK> struct Lanes
{
	using S			 = in::simd<T, Abi>;
	using M			 = in::simd_mask<T, Abi>;
	static constexpr int N = S::size();
	const char * abi;
	T a[N], b[N], c[N];
	std::string all(const T * p) const
	{
		std::string s;
		for (int i = 0; i < N; ++i) s += (i ? ", " : "") + show(p[i]);
		return s;
	}
	void fail(const char * op, int i, const std::string & got, const std::string & want) const
	{
		mon::violation(mon::fmt("%s/%s/%s/%s", op, FT<T>::nm, abi, CCMV_NAME),
					   mon::fmt("%s on simd<%s, %s> (%s): lane %d is %s, the scalar operation gives %s; a = {%s}, b = {%s}", op, FT<T>::nm, abi, CCMV_NAME, i, got.c_str(), want.c_str(), all(a).c_str(), all(b).c_str()));
	}
	void cov(const char * op) const
	{
		std::uint64_t h = 0;
		for (const char * p = op; *p; ++p) h = h * 131 + (unsigned char)*p;
		for (const char * p = abi; *p; ++p) h = h * 131 + (unsigned char)*p;
		for (int i = 0; i < N; ++i) h = mon::mix(h ^ (std::uint64_t)(bits(a[i]) >> (FT<T>::total - 12)) ^ ((std::uint64_t)(bits(b[i]) >> (FT<T>::total - 12)) << 20));
		mon::self().ev++;
		mon::self().ck += N;
		mon::cover(h ^ sizeof(T));
		mon::sample_once(op, [&] { return mon::fmt("%s on simd<%s, %s> (%s): a = {%s}, b = {%s}", op, FT<T>::nm, abi, CCMV_NAME, all(a).c_str(), all(b).c_str()); });
	}
	template <class F> void want(const char * op, const S & v, F f) const
	{
		T o[N];
		v.copy_to(o, in::element_aligned_tag());
		cov(op);
		for (int i = 0; i < N; ++i)
			if (!agree(o[i], (T)f(i))) fail(op, i, show(o[i]), show((T)f(i)));
	}
	// the content of a mask, seen through choose
	template <class F> void wantm(const char * op, const M & m, F f) const
	{
		T o[N];
		S one((T)1), zero((T)0);
		in::choose(m, one, zero).copy_to(o, in::element_aligned_tag());
		bool al = true, an = false;
		cov(op);
		for (int i = 0; i < N; ++i)
		{
			const bool w = f(i);
			al &= w;
			an |= w;
			if (o[i] != (w ? 1 : 0)) fail(op, i, show(o[i]), w ? "true" : "false");
		}
		if (in::all_of(m) != al) fail((std::string("all_of of ") + op).c_str(), -1, in::all_of(m) ? "true" : "false", al ? "true" : "false");
		if (in::any_of(m) != an) fail((std::string("any_of of ") + op).c_str(), -1, in::any_of(m) ? "true" : "false", an ? "true" : "false");
	}
	static S load(const T * p) { return S(p, in::element_aligned_tag()); }
	void one(Rng & r)
	{
		for (int i = 0; i < N; ++i) a[i] = lane<T>(r), b[i] = r.below(5) ? lane<T>(r) : r.below(2) ? a[i] : step(a[i], r.range(-1, 1)), c[i] = lane<T>(r);
		if (r.below(8) == 0)
			for (int i = 0; i < N; ++i) b[i] = a[i]; // comparisons true everywhere
		static_assert(M::size() == N && in::simd_size<S>::value == N, "a mask has one entry per lane");
		const S x = load(a), y = load(b), z = load(c);
		want("load", x, [&](int i) { return a[i]; });
		{
			S t;
			t.copy_from(b, in::element_aligned_tag());
			want("copy_from", t, [&](int i) { return b[i]; });
			T o[N + 2];
			std::memset(o, 0x5a, sizeof o);
			const T guard = o[0];
			x.copy_to(o + 1, in::element_aligned_tag());
			cov("copy_to");
			for (int i = 0; i < N; ++i)
				if (!same(o[i + 1], a[i]) && !is_nan(a[i])) fail("copy_to", i, show(o[i + 1]), show(a[i]));
			if (std::memcmp(&guard, &o[0], FT<T>::total / 8) || std::memcmp(&guard, &o[N + 1], FT<T>::total / 8)) fail("copy_to", -1, "a neighbouring element", "left alone");
		}
		want("broadcast", S(a[0]), [&](int) { return a[0]; });
		want("+", x + y, [&](int i) { return a[i] + b[i]; });
		want("-", x - y, [&](int i) { return a[i] - b[i]; });
		want("*", x * y, [&](int i) { return a[i] * b[i]; });
		want("/", x / y, [&](int i) { return a[i] / b[i]; });
		want("unary -", -x, [&](int i) { return -a[i]; });
		{
			S t = x;
			t += y;
			want("+=", t, [&](int i) { return a[i] + b[i]; });
			t = x;
			t -= y;
			want("-=", t, [&](int i) { return a[i] - b[i]; });
			t = x;
			t *= y;
			want("*=", t, [&](int i) { return a[i] * b[i]; });
			t = x;
			t /= y;
			want("/=", t, [&](int i) { return a[i] / b[i]; });
		}
		const T s = b[0];
		want("scalar +", s + x, [&](int i) { return s + a[i]; });
		want("+ scalar", x + s, [&](int i) { return a[i] + s; });
		want("scalar -", s - x, [&](int i) { return s - a[i]; });
		want("- scalar", x - s, [&](int i) { return a[i] - s; });
		want("scalar *", s * x, [&](int i) { return s * a[i]; });
		want("* scalar", x * s, [&](int i) { return a[i] * s; });
		want("scalar /", s / x, [&](int i) { return s / a[i]; });
		want("/ scalar", x / s, [&](int i) { return a[i] / s; });
		const M lt = x < y, eq = x == y, l2 = y < z;
		wantm("<", lt, [&](int i) { return a[i] < b[i]; });
		wantm("==", eq, [&](int i) { return a[i] == b[i]; });
		wantm("||", lt || eq, [&](int i) { return a[i] <= b[i]; });
		wantm("&&", lt && l2, [&](int i) { return a[i] < b[i] && b[i] < c[i]; });
		wantm("!", !lt, [&](int i) { return !(a[i] < b[i]); });
		wantm("mask(true)", M(true), [&](int) { return true; });
		wantm("mask(false)", M(false), [&](int) { return false; });
		want("choose", in::choose(lt, x, z), [&](int i) { return a[i] < b[i] ? a[i] : c[i]; });
		want("choose", in::choose(eq, y, x), [&](int i) { return a[i] == b[i] ? b[i] : a[i]; });
		{
			typename S::storage_type st(x);
			cov("storage");
			for (int i = 0; i < N; ++i)
				if (!agree((T)st[i], a[i]) || !agree(st.data()[i], a[i])) fail("storage", i, show((T)st[i]), show(a[i]));
			want("from storage", S(st), [&](int i) { return a[i]; });
			st[N - 1] = c[0];
			S t;
			t = st;
			want("assign storage", t, [&](int i) { return i == N - 1 ? c[0] : a[i]; });
			st = y;
			const typename S::storage_type & cs = st;
			want("storage of a vector", S(cs), [&](int i) { return b[i]; });
		}
		if constexpr (!PACK)
		{
			T wide[3 * N];
			for (int i = 0; i < 3 * N; ++i) wide[i] = i % 3 ? c[i / 3] : a[i / 3];
			want("strided load", S(wide, 3), [&](int i) { return a[i]; });
			cov("convert");
			if (!agree(x.convert(), a[0])) fail("convert", 0, show(x.convert()), show(a[0]));
			want("sqrt", in::sqrt(x), [&](int i) { return std::sqrt(a[i]); });
			// without SVML pow evaluates one lane and broadcasts it, which is how the library calls it
			const T p = std::fabs(gen<T>(r, C_UNIT, -30, 30)), q = (T)r.range(-64, 64) / 8;
			for (int i = 0; i < N; ++i) a[i] = p, b[i] = q;
			want("pow", in::pow(S(p), S(q)), [&](int) { return ccm::gen::pow_gen(p, q); });
		}
		else
		{
			cov("[]");
			S t = x;
			for (int i = 0; i < N; ++i)
				if (!agree((T)t[i], a[i])) fail("[]", i, show((T)t[i]), show(a[i]));
			t[N - 1] = c[0];
			want("[]=", t, [&](int i) { return i == N - 1 ? c[0] : a[i]; });
			for (int i = 0; i < N; ++i)
			{
				const M & cl = lt;
				if (cl[i] != (a[i] < b[i])) fail("mask []", i, cl[i] ? "true" : "false", "the comparison");
			}
		}
	}
};
template <class Abi, bool PACK> static void both(std::vector<std::function<void()>> & jobs, const char * abi)
{
	jobs.push_back([abi] {
		Rng r(SEED * 77 + 1);
		Lanes<float, Abi, PACK> l;
		l.abi = abi;
		for (long i = 0, n = (long)(20000 * SCALE); i < n; ++i) l.one(r);
	});
	jobs.push_back([abi] {
		Rng r(SEED * 77 + 2);
		Lanes<double, Abi, PACK> l;
		l.abi = abi;
		for (long i = 0, n = (long)(20000 * SCALE); i < n; ++i) l.one(r);
	});
}
int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	SEED  = mon::args.seed;
	SCALE = mon::args.budget > 0 ? mon::args.budget : 1;
	std::vector<std::function<void()>> jobs;
	both<in::abi::scalar, false>(jobs, "scalar");
	both<in::abi::pack<1>, true>(jobs, "pack<1>");
	both<in::abi::pack<2>, true>(jobs, "pack<2>");
	both<in::abi::pack<4>, true>(jobs, "pack<4>");
	both<in::abi::pack<7>, true>(jobs, "pack<7>");
	both<in::abi::pack<16>, true>(jobs, "pack<16>");
#ifdef CCMATH_HAS_SIMD
#ifdef CCMATH_HAS_SIMD_SSE2
	both<in::abi::sse2, false>(jobs, "sse2");
#endif
#ifdef CCMATH_HAS_SIMD_SSE4
	both<in::abi::sse4, false>(jobs, "sse4");
#endif
#ifdef CCMATH_HAS_SIMD_AVX2
	both<in::abi::avx2, false>(jobs, "avx2");
#endif
#endif
	both<in::abi::native, std::is_same_v<in::abi::native, in::abi::pack<4>>>(jobs, "native");
	mon::stat_add("abis", (double)jobs.size() / 2);
	mon::parallel(jobs.size(), [&](std::uint64_t c) { jobs[c](); });
	return mon::finish();
}
