// D02: every pp::simd operation acts on each lane as the plain operation acts on one value, touches no other lane and no
// memory outside the lanes it names.
#include "ccmath/internal/math/runtime/pp/pp.hpp"
#include "core.hpp"
#include "mon.hpp"
#include <cmath>
#include <functional>
#include <limits>

namespace pp = ccm::pp;
#ifndef CCMV_NAME
	#define CCMV_NAME "?"
#endif
template <class T> struct TN;
#define TNAME(t) template <> struct TN<t> { static constexpr const char * n = #t; };
TNAME(float) TNAME(double) TNAME(std::int8_t) TNAME(std::uint8_t) TNAME(std::int16_t) TNAME(std::uint16_t) TNAME(std::int32_t) TNAME(std::uint32_t) TNAME(std::int64_t) TNAME(std::uint64_t)
#undef TNAME

template <class T> std::string sh(T v)
{
	if constexpr (std::is_floating_point<T>::value) return show(v);
	else if constexpr (std::is_signed<T>::value) return mon::fmt("%lld", (long long)v);
	else return mon::fmt("%llu", (unsigned long long)v);
}
template <class T> bool eqv(T a, T b)
{
	if constexpr (std::is_floating_point<T>::value) return same(a, b);
	else return a == b;
}
template <class T> T value(Rng & r)
{
	if constexpr (std::is_floating_point<T>::value)
	{
		T t;
		if (r.next() & 1) t = make<T>(r.next() & 1, r.range(-20, 60), r.next());
		else t = gen<T>(r, r.range(0, C_COUNT - 1), -100, 100);
		if (!(r.next() & 7)) t = (T)r.range(-9, 9) / 2;
		return is_snan(t) ? (T)1 : t;
	}
	else
	{
		using L = std::numeric_limits<T>;
		switch (r.range(0, 7))
		{
		case 0: return (T)(L::max() - (T)r.range(0, 2));
		case 1: return (T)(L::min() + (T)r.range(0, 2));
		case 2: return (T)r.range(-3, 3);
		case 3: return (T)((std::uint64_t)1 << r.range(0, (int)sizeof(T) * 8 - 1));
		case 4: return (T)(r.next() >> r.range(0, 63));
		default: return (T)r.next();
		}
	}
}
static std::atomic<std::uint64_t> opCount{ 0 };
static std::atomic<std::uint64_t> masksSeen{ 0 };

// The value of one lane, computed out of line so that nothing carries over from the vector code.
#define SCALAR2(name, expr) template <class T> __attribute__((noinline)) T name(T a, T b) { (void)a; (void)b; return (T)(expr); }
SCALAR2(l_add, a + b)
SCALAR2(l_sub, a - b)
SCALAR2(l_mul, a *b)
SCALAR2(l_div, a / b)
SCALAR2(l_neg, -a)
SCALAR2(l_mod, a % b)
SCALAR2(l_and, a &b)
SCALAR2(l_or, a | b)
SCALAR2(l_xor, a ^ b)
SCALAR2(l_not, ~a)
SCALAR2(l_shl, a << b)
SCALAR2(l_shr, a >> b)
#undef SCALAR2

template <class T, class Abi> struct Suite
{
	using V				   = pp::basic_simd<T, Abi>;
	using M				   = typename V::mask_type;
	static constexpr int N = (int)V::size();
	static constexpr bool fp = std::is_floating_point<T>::value;
	static std::string where() { return mon::fmt("%s x%d (%s)", TN<T>::n, N, CCMV_NAME); }

	static void lane(const char * op, int k, T got, T want, const T * a, const T * b, const T * c)
	{
		mon::self().ck++;
		if (eqv(got, want)) return;
		std::string s = mon::fmt("%s on %s lane %d of a=%s", op, where().c_str(), k, sh(a[k]).c_str());
		if (b) s += " b=" + sh(b[k]);
		if (c) s += " c=" + sh(c[k]);
		mon::violation(mon::fmt("%s/%s/%d/%s", op, TN<T>::n, N, CCMV_NAME), s + mon::fmt(": %s, expected %s", sh(got).c_str(), sh(want).c_str()));
	}
	static void truth(const char * op, bool got, bool want, const std::string & s)
	{
		mon::self().ck++;
		if (got != want) mon::violation(mon::fmt("%s/%s/%d/%s", op, TN<T>::n, N, CCMV_NAME), mon::fmt("%s on %s, %s: %d, expected %d", op, where().c_str(), s.c_str(), got, want));
	}
	static void number(const char * op, unsigned long long got, unsigned long long want, const std::string & s)
	{
		mon::self().ck++;
		if (got != want) mon::violation(mon::fmt("%s/%s/%d/%s", op, TN<T>::n, N, CCMV_NAME), mon::fmt("%s on %s, %s: %llx, expected %llx", op, where().c_str(), s.c_str(), got, want));
	}
	static std::string list(const T * a)
	{
		std::string s = "[";
		for (int i = 0; i < N; ++i) s += (i ? " " : "") + sh(a[i]);
		return s + "]";
	}
	static bool anynan(const T * a)
	{
		if constexpr (fp)
			for (int i = 0; i < N; ++i)
				if (std::isnan(a[i])) return true;
		return false;
	}
	// Loads and stores through guarded buffers: the store must change its own lanes only.
	static V load(const T * a) { return V(a, pp::element_aligned); }
	struct Out
	{
		T v[N];
	};
	static Out read(const V & v)
	{
		struct
		{
			unsigned char lo[64];
			T body[N];
			unsigned char hi[64];
		} g;
		std::memset((void *)&g, 0xa5, sizeof g);
		v.copy_to(g.body, pp::element_aligned);
		Out o;
		std::memcpy((void *)o.v, (const void *)g.body, sizeof o.v);
		bool clean = true;
		for (unsigned char x : g.lo) clean &= x == 0xa5;
		for (unsigned char x : g.hi) clean &= x == 0xa5;
		mon::self().ck++;
		if (!clean) mon::violation(mon::fmt("copy_to/%s/%d/%s", TN<T>::n, N, CCMV_NAME), "copy_to of " + where() + " wrote outside its lanes");
		return o;
	}
	template <class F> static void each(const char * op, const V & v, const T * a, const T * b, const T * c, F f)
	{
		const Out o = read(v);
		for (int k = 0; k < N; ++k) lane(op, k, o.v[k], f(k), a, b, c);
	}
	static void maskIs(const char * op, const M & m, unsigned long long want, const std::string & s)
	{
		for (int k = 0; k < N; ++k) truth(op, m[k], (want >> k) & 1, s + mon::fmt(" lane %d", k));
		number(op, m.to_ullong(), want, s);
	}
	static void cmps(const V & va, const V & vb, const T * a, const T * b)
	{
#define CMP(name, op)                                                                                                                                          \
	{                                                                                                                                                          \
		unsigned long long w = 0;                                                                                                                              \
		for (int k = 0; k < N; ++k) w |= (unsigned long long)(a[k] op b[k]) << k;                                                                              \
		const M m = va op vb;                                                                                                                                  \
		if (m.to_ullong() != w) maskIs(name, m, w, list(a) + " and " + list(b));                                                                               \
		mon::self().ck += N;                                                                                                                                   \
		for (int k = 0; k < N; ++k)                                                                                                                            \
			if (m[k] != (bool)((w >> k) & 1)) maskIs(name, m, w, list(a) + " and " + list(b));                                                                 \
	}
		CMP("==", ==) CMP("!=", !=) CMP("<", <) CMP("<=", <=) CMP(">", >) CMP(">=", >=)
#undef CMP
	}

	static void masks(Rng & r)
	{
		const unsigned long long full = N == 64 ? ~0ull : (1ull << N) - 1;
		auto bitsOf = [&] {
			switch (r.range(0, 5))
			{
			case 0: return 0ull;
			case 1: return full;
			case 2: return 1ull << r.range(0, N - 1);
			case 3: return full & ~(1ull << r.range(0, N - 1));
			default: return (unsigned long long)r.next() & full;
			}
		};
		const unsigned long long x = bitsOf(), y = bitsOf(), junk = N == 64 ? 0 : (unsigned long long)r.next() << N;
		const M a = M::from_bits(x | junk), b = M::from_bits(y);
		masksSeen++;
		mon::cover(x * 131 + (unsigned)N);
		const std::string s = mon::fmt("masks %llx %llx", x, y);
		maskIs("from_bits", a, x, s);
		maskIs("&", a & b, x & y, s);
		maskIs("|", a | b, x | y, s);
		maskIs("^", a ^ b, x ^ y, s);
		maskIs("&&", a && b, x & y, s);
		maskIs("||", a || b, x | y, s);
		maskIs("!", !a, ~x & full, s);
		maskIs("~", ~a, ~x & full, s);
		maskIs("mask==", a == b, ~(x ^ y) & full, s);
		maskIs("mask!=", a != b, x ^ y, s);
		maskIs("mask(true)", M(true), full, s);
		maskIs("mask(false)", M(false), 0, s);
		// broadcast masks behave like any other mask with these lanes
		const M t(true), f(false);
		maskIs("!mask(true)", !t, 0, s);
		maskIs("!mask(false)", !f, full, s);
		maskIs("^mask(true)", a ^ t, ~x & full, s);
		maskIs("&mask(true)", a & t, x, s);
		maskIs("|mask(false)", f | a, x, s);
		maskIs("&mask(false)", f & a, 0, s);
		maskIs("|mask(true)", a | t, full, s);
		maskIs("==mask(true)", a == t, x, s);
		maskIs("!=mask(true)", t != a, ~x & full, s);
		maskIs("==mask(false)", a == f, ~x & full, s);
		number("to_bitset", a.to_bitset().to_ullong(), x, s);
		truth("all_of", pp::all_of(a), x == full, s);
		truth("any_of", pp::any_of(a), x != 0, s);
		truth("none_of", pp::none_of(a), x == 0, s);
		number("reduce_count", (unsigned long long)pp::reduce_count(a), (unsigned long long)__builtin_popcountll(x), s);
		if (x)
		{
			number("reduce_min_index", (unsigned long long)pp::reduce_min_index(a), (unsigned long long)__builtin_ctzll(x), s);
			number("reduce_max_index", (unsigned long long)pp::reduce_max_index(a), 63ull - (unsigned long long)__builtin_clzll(x), s);
		}
		else
		{ // documented: the size when no lane is set
			number("reduce_min_index of nothing", (unsigned long long)pp::reduce_min_index(a), (unsigned long long)N, s);
			number("reduce_max_index of nothing", (unsigned long long)pp::reduce_max_index(a), (unsigned long long)N, s);
		}
		{ // one bool is a mask of one lane
			bool o = x & 1;
			asm volatile("" : "+m"(o));
			truth("all_of(bool)", pp::all_of(o), o, s);
			truth("any_of(bool)", pp::any_of(o), o, s);
			truth("none_of(bool)", pp::none_of(o), !o, s);
			number("reduce_count(bool)", (unsigned long long)pp::reduce_count(o), o, s);
		}
		// the mask combinators of comparison results, which the backend may keep in another form
		T p[N], q[N];
		for (int k = 0; k < N; ++k) p[k] = (x >> k) & 1 ? (T)1 : (T)2, q[k] = (y >> k) & 1 ? (T)1 : (T)2;
		const V vp = load(p), one((T)1), vq = load(q);
		maskIs("cmp&", (vp == one) & (vq == one), x & y, s);
		maskIs("cmp|", (vp == one) | (vq == one), x | y, s);
		maskIs("cmp!", !(vp == one), ~x & full, s);
		maskIs("cmp^from_bits", (vp == one) ^ b, x ^ y, s);
		truth("cmp all_of", pp::all_of(vp == one), x == full, s);
		truth("cmp any_of", pp::any_of(vp == one), x != 0, s);
		number("cmp reduce_count", (unsigned long long)pp::reduce_count(vp == one), (unsigned long long)__builtin_popcountll(x), s);
		switch (r.range(0, 4)) // the same mask, made in another way
		{
		case 0: blend(r, x, (a & t) | f); break;
		case 1: blend(r, x, vp == one); break;
		case 2: blend(r, x, !(a ^ t)); break;
		case 3: blend(r, x, (t ^ f) & (vp == one)); break;
		default: blend(r, x, a); break;
		}
	}

	// select, where and masked memory: only the selected lanes move, and only their memory is touched.
	static void blend(Rng & r, unsigned long long x, const M & m)
	{
		T a[N], b[N];
		for (int k = 0; k < N; ++k) a[k] = value<T>(r), b[k] = value<T>(r);
		if constexpr (!fp && std::is_signed<T>::value)
			for (int k = 0; k < N; ++k) a[k] = (T)(a[k] / 16), b[k] = (T)(b[k] / 16); // keep signed arithmetic in range
		const V va = load(a), vb = load(b);
		auto on = [&](int k) { return (x >> k) & 1; };
		each("simd_select", pp::simd_select(m, va, vb), a, b, nullptr, [&](int k) { return on(k) ? a[k] : b[k]; });
		{
			V t = va;
			pp::where(m, t) = vb;
			each("where=", t, a, b, nullptr, [&](int k) { return on(k) ? b[k] : a[k]; });
			t			  = va;
			pp::where(m, t) = (T)3;
			each("where=scalar", t, a, b, nullptr, [&](int k) { return on(k) ? (T)3 : a[k]; });
			t = va;
			pp::where(m, t) += vb;
			each("where+=", t, a, b, nullptr, [&](int k) { return on(k) ? l_add(a[k], b[k]) : a[k]; });
			t = va;
			pp::where(m, t) -= vb;
			each("where-=", t, a, b, nullptr, [&](int k) { return on(k) ? l_sub(a[k], b[k]) : a[k]; });
			if constexpr (fp)
			{
				t = va;
				pp::where(m, t) *= vb;
				each("where*=", t, a, b, nullptr, [&](int k) { return on(k) ? l_mul(a[k], b[k]) : a[k]; });
				t = va;
				pp::where(m, t) /= vb;
				each("where/=", t, a, b, nullptr, [&](int k) { return on(k) ? l_div(a[k], b[k]) : a[k]; });
			}
		}
		// masked memory on a buffer that ends behind the last selected lane
		const int last = x ? 64 - __builtin_clzll(x) : 0;
		std::unique_ptr<T[]> mem(new T[last ? last : 1]);
		for (int k = 0; k < last; ++k) mem[k] = b[k];
		{
			V t = va;
			pp::where(m, t).copy_from(mem.get(), pp::element_aligned);
			each("where.copy_from", t, a, b, nullptr, [&](int k) { return on(k) ? b[k] : a[k]; });
		}
		for (int c = 0; c < 2; ++c)
		{
			T buf[N];
			for (int k = 0; k < N; ++k) buf[k] = (T)77;
			V t		   = va;
			const V ct = va;
			if (c) pp::where(m, ct).copy_to(mem.get(), pp::element_aligned), pp::where(m, ct).copy_to(buf, pp::element_aligned);
			else pp::where(m, t).copy_to(mem.get(), pp::element_aligned), pp::where(m, t).copy_to(buf, pp::element_aligned);
			for (int k = 0; k < N; ++k) lane("where.copy_to", k, buf[k], on(k) ? a[k] : (T)77, a, b, nullptr);
			for (int k = 0; k < last; ++k) lane("where.copy_to", k, mem[k], on(k) ? a[k] : b[k], a, b, nullptr);
			for (int k = 0; k < last; ++k) mem[k] = b[k];
		}
		// masked reductions
		T s = (T)0;
		bool nan = anynan(a);
		T lo = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
		T hi = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest();
		std::uint64_t us = 0;
		for (int k = 0; k < N; ++k)
			if (on(k))
			{
				if (a[k] < lo) lo = a[k];
				if (a[k] > hi) hi = a[k];
				if constexpr (!fp) us += (std::uint64_t)a[k];
			}
		(void)s;
		if (!nan)
		{
			const T gl = pp::reduce_min(va, m), gh = pp::reduce_max(va, m);
			mon::self().ck += 2;
			if (!(gl == lo)) mon::violation(mon::fmt("masked reduce_min/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("masked reduce_min on %s of %s mask %llx: %s, expected %s", where().c_str(), list(a).c_str(), x, sh(gl).c_str(), sh(lo).c_str()));
			if (!(gh == hi)) mon::violation(mon::fmt("masked reduce_max/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("masked reduce_max on %s of %s mask %llx: %s, expected %s", where().c_str(), list(a).c_str(), x, sh(gh).c_str(), sh(hi).c_str()));
		}
		if constexpr (!fp && !std::is_signed<T>::value)
		{
			const T g = pp::reduce(va, m, (T)0);
			mon::self().ck++;
			if (g != (T)us) mon::violation(mon::fmt("masked reduce/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("masked reduce on %s of %s mask %llx: %s, expected %s", where().c_str(), list(a).c_str(), x, sh(g).c_str(), sh((T)us).c_str()));
			T px = 0;
			for (int k = 0; k < N; ++k)
				if (on(k)) px = (T)(px ^ a[k]);
			const T gx = pp::reduce(va, m, (T)0, [](T u, T v) { return (T)(u ^ v); });
			mon::self().ck++;
			if (gx != px) mon::violation(mon::fmt("masked reduce op/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("masked reduce(^) on %s of %s mask %llx: %s, expected %s", where().c_str(), list(a).c_str(), x, sh(gx).c_str(), sh(px).c_str()));
		}
	}

	static void compounds(const V & va, const V & vb, const T * a, const T * b)
	{
		V t = va;
		t += vb;
		each("+=", t, a, b, nullptr, [&](int k) { return l_add(a[k], b[k]); });
		t = va;
		t -= vb;
		each("-=", t, a, b, nullptr, [&](int k) { return l_sub(a[k], b[k]); });
	}

	static void arithmetic(Rng & r)
	{
		T a[N], b[N], c[N];
		for (int k = 0; k < N; ++k) a[k] = value<T>(r), b[k] = (r.next() & 3) ? value<T>(r) : a[k], c[k] = value<T>(r);
		const V va = load(a), vb = load(b), vc = load(c);
		for (int k = 0; k < N; ++k)
			if constexpr (fp) mon::cover(bits(a[k]) >> (FT<T>::total - 14));
			else mon::cover((std::uint64_t)a[k] * 3 + sizeof(T));
		cmps(va, vb, a, b);
		memory(r, va, a);
		if constexpr (fp)
		{
			each("+", va + vb, a, b, nullptr, [&](int k) { return l_add(a[k], b[k]); });
			each("-", va - vb, a, b, nullptr, [&](int k) { return l_sub(a[k], b[k]); });
			each("*", va * vb, a, b, nullptr, [&](int k) { return l_mul(a[k], b[k]); });
			each("/", va / vb, a, b, nullptr, [&](int k) { return l_div(a[k], b[k]); });
			each("unary -", -va, a, nullptr, nullptr, [&](int k) { return l_neg(a[k], a[k]); });
			compounds(va, vb, a, b);
			V t = va;
			t *= vb;
			each("*=", t, a, b, nullptr, [&](int k) { return l_mul(a[k], b[k]); });
			t = va;
			t /= vb;
			each("/=", t, a, b, nullptr, [&](int k) { return l_div(a[k], b[k]); });
			math(r, va, vb, vc, a, b, c);
		}
		else integers(r, a, b);
		// min and max: the smaller and larger operand; which one of two equal values, or of a NaN and a number, is open
		const Out mn = read(pp::min(va, vb)), mx = read(pp::max(va, vb));
		for (int k = 0; k < N; ++k)
		{
			auto isOne = [&](T g) { return eqv(g, a[k]) || eqv(g, b[k]); };
			bool okMin = isOne(mn.v[k]), okMax = isOne(mx.v[k]);
			if (a[k] == a[k] && b[k] == b[k]) okMin &= mn.v[k] == (a[k] < b[k] ? a[k] : b[k]), okMax &= mx.v[k] == (a[k] < b[k] ? b[k] : a[k]);
			mon::self().ck += 2;
			if (!okMin) mon::violation(mon::fmt("min/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("min on %s of %s and %s: %s", where().c_str(), sh(a[k]).c_str(), sh(b[k]).c_str(), sh(mn.v[k]).c_str()));
			if (!okMax) mon::violation(mon::fmt("max/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("max on %s of %s and %s: %s", where().c_str(), sh(a[k]).c_str(), sh(b[k]).c_str(), sh(mx.v[k]).c_str()));
		}
		reductions(r, va, a);
		conversions(r, va, a);
		shape(r, va, a, b);
	}

	static void memory(Rng & r, const V & va, const T * a)
	{
		// element access, read and write: one lane only
		for (int k = 0; k < N; ++k) lane("operator[] const", k, va[k], a[k], a, nullptr, nullptr);
		V t			= va;
		const int j = r.range(0, N - 1);
		const T v	= value<T>(r);
		t[j]		= v;
		lane("operator[]", j, (T)t[j], v, a, nullptr, nullptr);
		each("operator[]=", t, a, nullptr, nullptr, [&](int k) { return k == j ? v : a[k]; });
		each("broadcast", V(v), a, nullptr, nullptr, [&](int) { return v; });
		each("generator", V([&](auto i) { return (T)((T)a[i]); }), a, nullptr, nullptr, [&](int k) { return a[k]; });
		each("unary +", +va, a, nullptr, nullptr, [&](int k) { return a[k]; });
		// unaligned, aligned and overaligned memory
		alignas(128) unsigned char raw[64 + sizeof(T) * N + 128];
		const int off = r.range(0, 63 / (int)sizeof(T)) * (int)sizeof(T);
		T * u		  = (T *)(raw + off);
		std::memcpy((void *)u, (const void *)a, sizeof(T) * N);
		V w;
		w.copy_from(u, pp::simd_flag_default);
		each("copy_from", w, a, nullptr, nullptr, [&](int k) { return a[k]; });
		std::memset(raw, 0, sizeof raw);
		va.copy_to(u, pp::simd_flag_default);
		for (int k = 0; k < N; ++k) lane("copy_to unaligned", k, u[k], a[k], a, nullptr, nullptr);
		alignas(128) T al[N];
		va.copy_to(al, pp::simd_flag_aligned);
		for (int k = 0; k < N; ++k) lane("copy_to aligned", k, al[k], a[k], a, nullptr, nullptr);
		w = V((T)0);
		w.copy_from(al, pp::vector_aligned);
		each("copy_from aligned", w, a, nullptr, nullptr, [&](int k) { return a[k]; });
		w = V((T)0);
		w.copy_from(al, pp::simd_flag_overaligned<128>);
		each("copy_from overaligned", w, a, nullptr, nullptr, [&](int k) { return a[k]; });
		// memory that ends with the last lane (the sanitizer build sees a wider read or write)
		std::unique_ptr<T[]> heap(new T[N]);
		va.copy_to(heap.get(), pp::element_aligned);
		w = V((T)0);
		w.copy_from(heap.get(), pp::element_aligned);
		each("heap round trip", w, a, nullptr, nullptr, [&](int k) { return a[k]; });
	}

	static void math(Rng & r, const V & va, const V & vb, const V & vc, const T * a, const T * b, const T * c)
	{
		if constexpr (fp)
		{
			each("sqrt", pp::sqrt(va), a, nullptr, nullptr, [&](int k) { return std::sqrt(a[k]); });
			each("floor", pp::floor(va), a, nullptr, nullptr, [&](int k) { return std::floor(a[k]); });
			each("ceil", pp::ceil(va), a, nullptr, nullptr, [&](int k) { return std::ceil(a[k]); });
			each("trunc", pp::trunc(va), a, nullptr, nullptr, [&](int k) { return std::trunc(a[k]); });
			each("round", pp::round(va), a, nullptr, nullptr, [&](int k) { return std::round(a[k]); });
			each("fabs", pp::fabs(va), a, nullptr, nullptr, [&](int k) { return std::fabs(a[k]); });
			each("abs", pp::abs(va), a, nullptr, nullptr, [&](int k) { return std::fabs(a[k]); });
			each("fma", pp::fma(va, vb, vc), a, b, c, [&](int k) { return std::fma(a[k], b[k], c[k]); });
			T d[N];
			for (int k = 0; k < N; ++k) d[k] = -l_mul(a[k], b[k]); // the fused residue
			each("fma residue", pp::fma(va, vb, load(d)), a, b, d, [&](int k) { return std::fma(a[k], b[k], d[k]); });
			T x[N], y[N];
			for (int k = 0; k < N; ++k) x[k] = (r.next() & 3) ? make<T>(r.next() & 1, r.range(-12, 6), r.next()) : a[k], y[k] = (r.next() & 3) ? (T)r.range(-40, 40) / 2 : b[k];
			const V vx = load(x), vy = load(y);
			// the transcendental functions are the compiler's libm, within a few units of the accurate value
			auto close = [&](const char * op, const V & v, auto f) {
				const Out o = read(v);
				for (int k = 0; k < N; ++k)
				{
					const long double w = f(k);
					const T wt			= (T)w;
					mon::self().ck++;
					if (eqv(o.v[k], wt)) continue;
					if (std::isfinite(o.v[k]) && std::isfinite(wt) && std::fabs((long double)o.v[k] - w) <= 3 * (long double)(std::nextafter(std::fabs(wt), std::numeric_limits<T>::infinity()) - std::fabs(wt))) continue;
					if (std::fabs(o.v[k]) >= std::numeric_limits<T>::max() && std::fabs(wt) >= std::numeric_limits<T>::max() && std::signbit(wt) == std::signbit(o.v[k])) continue;
					lane(op, k, o.v[k], wt, x, y, nullptr);
				}
			};
			close("exp", pp::exp(vx), [&](int k) { return std::exp((long double)x[k]); });
			close("log", pp::log(vx), [&](int k) { return std::log((long double)x[k]); });
			close("pow", pp::pow(vx, vy), [&](int k) { return std::pow((long double)x[k], (long double)y[k]); });
		}
	}

	static void integers(Rng & r, const T * a0, const T * b0)
	{
		if constexpr (!fp)
		{
			// operands that keep signed arithmetic defined
			T a[N], b[N], s[N], nz[N];
			for (int k = 0; k < N; ++k)
			{
				a[k] = a0[k], b[k] = b0[k];
				constexpr int w = (int)sizeof(T) * 8;
				if constexpr (std::is_signed<T>::value)
				{
					a[k] = (T)(a[k] / 2), b[k] = (T)(b[k] / 2);
				}
				s[k]  = (T)r.range(0, w - 1);
				nz[k] = b[k] == 0 ? (T)7 : b[k];
			}
			const V va = load(a), vb = load(b), vs = load(s), vn = load(nz);
			each("+", va + vb, a, b, nullptr, [&](int k) { return l_add(a[k], b[k]); });
			each("-", va - vb, a, b, nullptr, [&](int k) { return l_sub(a[k], b[k]); });
			compounds(va, vb, a, b);
			each("/", va / vn, a, nz, nullptr, [&](int k) { return l_div(a[k], nz[k]); });
			each("%", va % vn, a, nz, nullptr, [&](int k) { return l_mod(a[k], nz[k]); });
			each("unary -", -va, a, nullptr, nullptr, [&](int k) { return l_neg(a[k], a[k]); });
			T m1[N], m2[N];
			for (int k = 0; k < N; ++k)
			{
				m1[k] = a0[k], m2[k] = b0[k];
				if constexpr (std::is_signed<T>::value || sizeof(T) == 2)
				{ // products within half the width (16-bit operands promote to int)
					const int h = (int)sizeof(T) * 4 - 1;
					m1[k] = (T)(m1[k] % (T)((T)1 << h)), m2[k] = (T)(m2[k] % (T)((T)1 << h));
				}
			}
			const V vm1 = load(m1), vm2 = load(m2);
			each("*", vm1 * vm2, m1, m2, nullptr, [&](int k) { return l_mul(m1[k], m2[k]); });
			V t = vm1;
			t *= vm2;
			each("*=", t, m1, m2, nullptr, [&](int k) { return l_mul(m1[k], m2[k]); });
			t = va;
			t /= vn;
			each("/=", t, a, nz, nullptr, [&](int k) { return l_div(a[k], nz[k]); });
			t = va;
			t %= vn;
			each("%=", t, a, nz, nullptr, [&](int k) { return l_mod(a[k], nz[k]); });
			const V wa = load(a0), wb = load(b0);
			each("&", wa & wb, a0, b0, nullptr, [&](int k) { return l_and(a0[k], b0[k]); });
			each("|", wa | wb, a0, b0, nullptr, [&](int k) { return l_or(a0[k], b0[k]); });
			each("^", wa ^ wb, a0, b0, nullptr, [&](int k) { return l_xor(a0[k], b0[k]); });
			each("~", ~wa, a0, nullptr, nullptr, [&](int k) { return l_not(a0[k], a0[k]); });
			t = wa;
			t &= wb;
			each("&=", t, a0, b0, nullptr, [&](int k) { return l_and(a0[k], b0[k]); });
			t = wa;
			t |= wb;
			each("|=", t, a0, b0, nullptr, [&](int k) { return l_or(a0[k], b0[k]); });
			t = wa;
			t ^= wb;
			each("^=", t, a0, b0, nullptr, [&](int k) { return l_xor(a0[k], b0[k]); });
			each(">>", wa >> vs, a0, s, nullptr, [&](int k) { return l_shr(a0[k], s[k]); });
			t = wa;
			t >>= vs;
			each(">>=", t, a0, s, nullptr, [&](int k) { return l_shr(a0[k], s[k]); });
			T p[N]; // nonnegative and small enough that the left shift stays in range
			for (int k = 0; k < N; ++k)
			{
				p[k] = a0[k];
				if constexpr (std::is_signed<T>::value || sizeof(T) < 4)
				{
					using U = typename std::make_unsigned<T>::type;
					U u		= (U)a0[k];
					u		= s[k] >= (T)(sizeof(T) * 8 - 1) ? (U)0 : (U)(u >> (s[k] + 1));
					p[k]	= (T)u;
				}
			}
			const V vp = load(p);
			each("<<", vp << vs, p, s, nullptr, [&](int k) { return l_shl(p[k], s[k]); });
			t = vp;
			t <<= vs;
			each("<<=", t, p, s, nullptr, [&](int k) { return l_shl(p[k], s[k]); });
			if constexpr (std::is_signed<T>::value) each("abs", pp::abs(va), a, nullptr, nullptr, [&](int k) { return a[k] < 0 ? (T)-a[k] : a[k]; });
		}
	}

	static void reductions(Rng & r, const V & va, const T * a)
	{
		(void)r;
		if (!anynan(a))
		{
			T lo = a[0], hi = a[0];
			for (int k = 1; k < N; ++k) lo = a[k] < lo ? a[k] : lo, hi = hi < a[k] ? a[k] : hi;
			const T gl = pp::reduce_min(va), gh = pp::reduce_max(va);
			mon::self().ck += 2;
			if (!(gl == lo)) mon::violation(mon::fmt("reduce_min/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("reduce_min on %s of %s: %s, expected %s", where().c_str(), list(a).c_str(), sh(gl).c_str(), sh(lo).c_str()));
			if (!(gh == hi)) mon::violation(mon::fmt("reduce_max/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("reduce_max on %s of %s: %s, expected %s", where().c_str(), list(a).c_str(), sh(gh).c_str(), sh(hi).c_str()));
			T m = a[0];
			for (int k = 1; k < N; ++k) m = m < a[k] ? a[k] : m;
			const T go = pp::reduce(va, [](T x, T y) { return x < y ? y : x; });
			mon::self().ck++;
			if (!(go == m)) mon::violation(mon::fmt("reduce op/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("reduce(max) on %s of %s: %s, expected %s", where().c_str(), list(a).c_str(), sh(go).c_str(), sh(m).c_str()));
		}
		if constexpr (fp)
		{
			// the order of the additions is open: within their joint rounding error
			T f[N];
			long double s = 0, mag = 0;
			bool exact = r.next() & 1;
			for (int k = 0; k < N; ++k)
			{
				f[k] = exact ? (T)r.range(-1000, 1000) / 8 : make<T>(r.next() & 1, r.range(-20, 20), r.next());
				s += (long double)f[k], mag += std::fabs((long double)f[k]);
			}
			const T g = pp::reduce(load(f));
			mon::self().ck++;
			if (!(std::fabs((long double)g - s) <= (exact ? 0 : mag * N * std::numeric_limits<T>::epsilon())))
				mon::violation(mon::fmt("reduce/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("reduce on %s of %s: %s, expected %La", where().c_str(), list(f).c_str(), sh(g).c_str(), s));
		}
		else
		{
			T f[N];
			std::uint64_t s = 0;
			for (int k = 0; k < N; ++k)
			{
				f[k] = std::is_signed<T>::value ? (T)(a[k] / (T)(2 * (N < 64 ? N : 32))) : a[k];
				s += (std::uint64_t)f[k];
			}
			const T g = pp::reduce(load(f));
			mon::self().ck++;
			if (g != (T)s) mon::violation(mon::fmt("reduce/%s/%d/%s", TN<T>::n, N, CCMV_NAME), mon::fmt("reduce on %s of %s: %s, expected %s", where().c_str(), list(f).c_str(), sh(g).c_str(), sh((T)s).c_str()));
		}
	}

	template <class U> static void convertTo(Rng & r)
	{
#ifdef CCM_PP_FORCE_MSVC_INTRIN // this backend converts from its own register widths only
	#ifdef __AVX__
		constexpr bool can = N == 1 || N * sizeof(T) == 16 || N * sizeof(T) == 32;
	#else
		constexpr bool can = N == 1 || N * sizeof(T) == 16;
	#endif
#else
		constexpr bool can = true;
#endif
		if constexpr (can && (N == 1 || N * sizeof(U) <= 64))
		{
			using W = pp::basic_simd<U, Abi>;
			T a[N];
			U want[N];
			for (int k = 0; k < N; ++k)
			{
				a[k] = value<T>(r);
				if constexpr (fp && !std::is_floating_point<U>::value)
				{ // inside the range of the target, with a fraction
					constexpr int w = (int)sizeof(U) * 8 - 2;
					const long double lim = std::ldexp(1.0L, w);
					long double v = std::is_signed<U>::value ? (r.next() & 1 ? 1 : -1) * (long double)(r.next() >> 1) * 0x1p-63L : (long double)(r.next() >> 1) * 0x1p-63L;
					v *= std::ldexp(lim, -r.range(0, w));
					a[k] = (T)v;
					if (!(r.next() & 7)) a[k] = std::is_signed<U>::value ? (T)-0.75 : (T)0.75;
				}
				want[k] = static_cast<U>(a[k]);
			}
			const V va = load(a);
			const W w  = pp::static_simd_cast<U>(va);
			const W c  = W(va);
			for (int k = 0; k < N; ++k)
			{
				mon::self().ck += 2;
				const U g = w[k], h = c[k];
				if (!eqv(g, want[k])) mon::violation(mon::fmt("static_simd_cast/%s/%s/%d/%s", TN<T>::n, TN<U>::n, N, CCMV_NAME), mon::fmt("static_simd_cast<%s> on %s lane %d of %s: %s, expected %s", TN<U>::n, where().c_str(), k, sh(a[k]).c_str(), sh(g).c_str(), sh(want[k]).c_str()));
				if (!eqv(h, want[k])) mon::violation(mon::fmt("converting/%s/%s/%d/%s", TN<T>::n, TN<U>::n, N, CCMV_NAME), mon::fmt("conversion of %s to %s lane %d of %s: %s, expected %s", where().c_str(), TN<U>::n, k, sh(a[k]).c_str(), sh(h).c_str(), sh(want[k]).c_str()));
			}
			if constexpr (sizeof(U) == sizeof(T))
			{
				const W bc = pp::simd_bit_cast<U>(va);
				for (int k = 0; k < N; ++k)
				{
					const U g = bc[k];
					mon::self().ck++;
					U e;
					std::memcpy(&e, &a[k], sizeof e);
					if (std::memcmp(&g, &e, sizeof g) != 0 && g == g) mon::violation(mon::fmt("simd_bit_cast/%s/%s/%d/%s", TN<T>::n, TN<U>::n, N, CCMV_NAME), mon::fmt("simd_bit_cast<%s> on %s lane %d of %s: %s", TN<U>::n, where().c_str(), k, sh(a[k]).c_str(), sh(g).c_str()));
				}
			}
		}
	}
	static void conversions(Rng & r, const V &, const T *)
	{
		if constexpr (sizeof(T) == 4)
		{
			if constexpr (!std::is_same<T, float>::value) convertTo<float>(r);
			if constexpr (!std::is_same<T, std::int32_t>::value) convertTo<std::int32_t>(r);
			if constexpr (!std::is_same<T, std::uint32_t>::value) convertTo<std::uint32_t>(r);
			convertTo<double>(r);
			convertTo<std::int64_t>(r);
		}
		else if constexpr (sizeof(T) == 8)
		{
			if constexpr (!std::is_same<T, double>::value) convertTo<double>(r);
			if constexpr (!std::is_same<T, std::int64_t>::value) convertTo<std::int64_t>(r);
			if constexpr (!std::is_same<T, std::uint64_t>::value) convertTo<std::uint64_t>(r);
			if constexpr (!fp) convertTo<float>(r);
			convertTo<std::int32_t>(r);
		}
		else if constexpr (sizeof(T) == 2) convertTo<std::int32_t>(r);
	}

	static void shape(Rng & r, const V & va, const T * a, const T * b)
	{
		if constexpr (N * 2 * sizeof(T) <= 64)
		{
			const auto w = pp::simd_cat(va, load(b));
			for (int k = 0; k < 2 * N; ++k) lane("simd_cat", k % N, (T)std::as_const(w)[k], k < N ? a[k] : b[k - N], a, b, nullptr);
			if constexpr (N * 4 * sizeof(T) <= 64)
			{
				const auto q = pp::simd_cat(w, va, va);
				for (int k = 0; k < 4 * N; ++k) lane("simd_cat3", k % N, (T)std::as_const(q)[k], k < N ? a[k] : k < 2 * N ? b[k - N] : a[k % N], a, b, nullptr);
			}
			const unsigned long long full = (1ull << N) - 1, x = r.next() & full, y = r.next() & full;
			const auto m = pp::simd_cat(M::from_bits(x), M::from_bits(y));
			number("mask simd_cat", m.to_ullong(), x | y << N, mon::fmt("%llx %llx", x, y));
			const auto back = pp::simd_split<M>(m);
			number("mask simd_split 0", back[0].to_ullong(), x, mon::fmt("%llx %llx", x, y));
			number("mask simd_split 1", back[1].to_ullong(), y, mon::fmt("%llx %llx", x, y));
		}
		if constexpr (N >= 2)
		{
			using H = pp::resize_simd_t<N / 2, V>;
			const auto h = pp::simd_split<H>(va);
			for (int k = 0; k < N; ++k) lane("simd_split", k, (T)std::as_const(h[(std::size_t)(k / (N / 2))])[k % (N / 2)], a[k], a, nullptr, nullptr);
			const auto s = pp::simd_split<pp::resize_simd_t<1, V>>(va);
			for (int k = 0; k < N; ++k) lane("simd_split 1", k, (T)std::as_const(s[(std::size_t)k])[0], a[k], a, nullptr, nullptr);
		}
	}

	static void run(std::uint64_t chunks, int per)
	{
		mon::parallel(chunks, [&](std::uint64_t ch) {
			Rng r(mon::mix(mon::args.seed * 1000003 + ch * 131 + N * 7 + sizeof(T) + (fp ? 64 : 0) + (std::is_signed<T>::value ? 128 : 0)));
			for (int i = 0; i < per; ++i)
			{
				mon::about("pp::simd", CCMV_NAME, 0, ch, i);
				arithmetic(r);
				masks(r);
				mon::self().ev += (std::uint64_t)N * 60;
			}
			if (ch == 0)
			{
				T a[N];
				for (int k = 0; k < N; ++k) a[k] = value<T>(r);
				mon::sample(mon::fmt("%s: reduce_max of %s = %s", where().c_str(), list(a).c_str(), sh(pp::reduce_max(load(a))).c_str()));
			}
		});
	}
};

// Masks joined and split beyond the widths of Suite: parts of different sizes, up to 64 lanes.
template <class T> void wideMasks(int per)
{
	using M16 = typename pp::basic_simd<T, pp::VecAbi<16>>::mask_type;
	using M32 = typename pp::basic_simd<T, pp::VecAbi<32>>::mask_type;
	mon::parallel(8, [&](std::uint64_t ch) {
		Rng r(mon::mix(mon::args.seed + ch * 977 + sizeof(T)) ^ 0xca7);
		for (int i = 0; i < per; ++i)
		{
			const std::uint64_t w = r.below(4) ? r.next() : r.next() & r.next() & r.next();
			auto p16 = [&](int k) { return M16::from_bits((w >> k) & 0xffff); };
			auto p32 = [&](int k) { return M32::from_bits((w >> k) & 0xffffffff); };
			const std::string s = mon::fmt("lanes %llx", (unsigned long long)w);
			auto is = [&](const char * n, unsigned long long g, unsigned long long e) {
				mon::self().ev++;
				mon::self().ck++;
				if (g != e) mon::violation(mon::fmt("%s/%s/%s", n, TN<T>::n, CCMV_NAME), mon::fmt("%s of %s lanes, %s: %llx, expected %llx", n, TN<T>::n, s.c_str(), g, e));
			};
			mon::cover(mon::mix(w >> 40 ^ (w & 0xffff)) + sizeof(T));
			const auto a = pp::simd_cat(p32(0), p32(32));
			is("cat 32+32", a.to_ullong(), w);
			for (int k = 0; k < 64; ++k) is("cat 32+32 lane", a[k], (w >> k) & 1);
			is("cat 16x4", pp::simd_cat(p16(0), p16(16), p16(32), p16(48)).to_ullong(), w);
			is("cat 32+16+16", pp::simd_cat(p32(0), p16(32), p16(48)).to_ullong(), w);
			is("cat 16+16+32", pp::simd_cat(p16(0), p16(16), p32(32)).to_ullong(), w);
			const auto b = pp::simd_split<M32>(a);
			const auto c = pp::simd_split<M16>(a);
			for (int k = 0; k < 2; ++k) is("split 32", b[k].to_ullong(), (w >> 32 * k) & 0xffffffff);
			for (int k = 0; k < 4; ++k) is("split 16", c[k].to_ullong(), (w >> 16 * k) & 0xffff);
			is("count", (unsigned long long)pp::reduce_count(a), (unsigned long long)__builtin_popcountll(w));
		}
	});
}

template <class T> void type(int per)
{
	if constexpr (sizeof(T) == 1) wideMasks<T>(per);
	Suite<T, pp::ScalarAbi>::run(16, per / 4 + 1);
	if constexpr (2 * sizeof(T) <= 64) Suite<T, pp::VecAbi<2>>::run(16, per / 2 + 1);
	if constexpr (4 * sizeof(T) <= 64 && sizeof(T) >= 4) Suite<T, pp::VecAbi<4>>::run(16, per);
	if constexpr (8 * sizeof(T) <= 64 && sizeof(T) >= 4) Suite<T, pp::VecAbi<8>>::run(16, per);
	if constexpr (16 * sizeof(T) <= 64) Suite<T, pp::VecAbi<16>>::run(16, per / 2 + 1);
	if constexpr (64 * sizeof(T) <= 64) Suite<T, pp::VecAbi<64>>::run(16, per / 4 + 1);
	using Nat = typename pp::native_simd<T>::abi_type;
	mon::stat_add(mon::fmt("native_lanes_%s", TN<T>::n).c_str(), Nat::size);
}

int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	const double b = mon::args.budget > 0 ? mon::args.budget : 1;
	const int per  = (int)(20 * b) + 4;
	type<float>(per);
	type<std::int32_t>(per);
#ifndef CCMV_LIGHT // the sanitizer build covers fewer types: it compiles slowly
	type<double>(per);
	type<std::int64_t>(per);
#ifndef CCM_PP_FORCE_MSVC_INTRIN // this backend has no comparisons for 32 and 64 bit unsigned lanes
	type<std::uint32_t>(per);
	type<std::uint64_t>(per);
#endif
	type<std::int16_t>(per / 2);
#endif
	type<std::uint8_t>(per / 2);
	mon::stat_add("masks_tried", (double)masksSeen);
	return mon::finish();
}
