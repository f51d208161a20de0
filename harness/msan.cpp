// C05, uninitialised memory: every entry point built with MemorySanitizer. No result, and no branch or index on the way to
// it, may depend on memory nobody wrote. Plain C throughout, so that nothing but ccmath is under the sanitizer's eyes.
#include "ccmv_abi.hpp"
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <sanitizer/msan_interface.h>

extern "C" const CcmvTable * ccmv_table();

static std::uint64_t S;
static std::uint64_t rnd()
{
	std::uint64_t z = (S += 0x9e3779b97f4a7c15ull);
	z				= (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z				= (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static int range(int a, int b) { return a + (int)(rnd() % (std::uint64_t)(b - a + 1)); }
template <class T> static T num()
{
	using L			= std::numeric_limits<T>;
	const T v[]		= { 0, 1, T(0.5), 2, 10, L::infinity(), L::quiet_NaN(), L::min(), L::max(), L::denorm_min(), L::epsilon(), T(1) - L::epsilon() / 2, T(1) + L::epsilon(), T(1.5), T(2.5), T(3) };
	const int p		= L::digits;
	const T f		= (T)std::ldexp((long double)((rnd() >> (64 - p)) | (1ull << (p - 1))), 1 - p), s = (rnd() & 1) ? T(1) : T(-1);
	switch (range(0, 6))
	{
	case 0: return s * v[rnd() % 16];
	case 1: return s * (T)std::ldexp((long double)f, range(L::min_exponent - p, L::max_exponent - 1));
	case 2: return s * (T)(rnd() >> range(20, 63));
	case 3: return s * (T)std::ldexp((long double)f, range(-3, 3));
	case 4: return s * (T)(1 + std::ldexp((long double)f, -range(1, p)));
	default: return s * (T)std::ldexp((long double)f, range(-12, 12));
	}
}

static unsigned long long calls, cells;
static int bad;
static FILE * out;
static int current;
struct Hit
{
	int fn;
	unsigned long long n;
};
static Hit hits[64];
static std::uint8_t seen[1 << 16];
template <class T> static int width() { return std::numeric_limits<T>::digits == 64 ? 10 : (int)sizeof(T); }
static void cell(double a, double b)
{
	int e = 0, g = 0;
	if (std::isfinite(a)) std::frexp(a, &e);
	if (std::isfinite(b)) std::frexp(b, &g);
	const unsigned k = ((unsigned)current * 977u + (unsigned)e * 31u + (unsigned)g / 8u * 7u) & 0xffffu;
	if (!seen[k]) seen[k] = 1, ++cells;
}
static void judge(const void * p, int n)
{
	++calls;
	if (__msan_test_shadow(p, (size_t)n) == -1) return;
	for (int i = 0; i < bad; ++i)
		if (hits[i].fn == current)
		{
			++hits[i].n;
			return;
		}
	if (bad < 64) hits[bad++] = { current, 1 };
}

template <class T> static void one(const CcmvFn & f)
{
	const T x = num<T>(), y = (rnd() & 3) ? num<T>() : x * T(1 + (double)range(-4, 4) / 4), z = num<T>();
	const int modes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
	const int n		  = (rnd() & 7) ? range(-2 * std::numeric_limits<T>::max_exponent, 2 * std::numeric_limits<T>::max_exponent) : (int)rnd();
	if (strstr(f.name, "gamma") && std::fabs((long double)x) > 1e5L) return;
	std::fesetround(modes[rnd() & 3]);
	T r = 0;
	int i = 0;
	const int w = width<T>();
	switch (f.kind)
	{
	case K_U: r = ((T(*)(T))f.fn)(x); break;
	case K_B: r = ((T(*)(T, T))f.fn)(x, y); break;
	case K_T: r = ((T(*)(T, T, T))f.fn)(x, y, z); break;
	case K_UI: r = ((T(*)(T, int))f.fn)(x, n); break;
	case K_UL: r = ((T(*)(T, long))f.fn)(x, (rnd() & 7) ? (long)n : (long)rnd()); break;
	case K_IU: i = ((int (*)(T))f.fn)(x); break;
	case K_ZU: i = ((int (*)(T))f.fn)(x); break;
	case K_ZB: i = ((int (*)(T, T))f.fn)(x, y); break;
	case K_MODF:
	{
		T q = 0;
		r	= ((T(*)(T, T *))f.fn)(x, &q);
		judge(&q, w);
		break;
	}
	case K_FREXP:
		r = ((T(*)(T, int *))f.fn)(x, &i);
		break;
	case K_REMQUO:
		r = ((T(*)(T, T, int *))f.fn)(x, y, &i);
		break;
	case K_NT: r = ((T(*)(T, long double))f.fn)(x, num<long double>()); break;
	case K_NAN:
	{
		char s[24];
		int k = 0;
		for (const int m = range(0, 20); k < m; ++k) s[k] = "0123456789abcdefxX+-."[rnd() % 21];
		s[k] = 0; // what follows the terminator was never written
		r = ((T(*)(const char *))f.fn)(s);
		break;
	}
	default: break;
	}
	std::fesetround(FE_TONEAREST);
	judge(&r, w);
	judge(&i, sizeof i);
	cell((double)x, (double)y);
}

int main(int argc, char ** argv)
{
	double budget = 1;
	for (int i = 1; i + 1 < argc; ++i)
	{
		if (!strcmp(argv[i], "--seed")) S = (std::uint64_t)atoll(argv[i + 1]) * 0x2545f4914f6cdd1dull;
		if (!strcmp(argv[i], "--budget")) budget = atof(argv[i + 1]);
		if (!strcmp(argv[i], "--out")) out = fopen(argv[i + 1], "w");
	}
	if (!out) return 2;
	const CcmvTable * t = ccmv_table();
	if (getenv("CCMV_MSAN_SELFTEST")) // the monitor must see a poisoned result
	{
		double d = 1;
		__msan_poison(&d, sizeof d);
		judge(&d, sizeof d);
	}
	for (int k = 0; k < t->n; ++k)
	{
		current = k;
		for (int j = 0; j < (int)(1500 * budget); ++j)
		{
			if (t->fns[k].ty == 'f') one<float>(t->fns[k]);
			else if (t->fns[k].ty == 'd') one<double>(t->fns[k]);
			else if (t->fns[k].ty == 'l') one<long double>(t->fns[k]);
		}
	}
	fprintf(out, "{\"evaluations\": %llu, \"checks\": %llu, \"distinct\": %llu, \"samples\": [], \"stats\": {\"msan_results_%s\": %llu}, \"known\": [], \"violations\": [", calls, calls, cells, t->variant, calls);
	for (int i = 0; i < bad; ++i)
		fprintf(out, "%s{\"key\": \"msan/%s/%c/%s\", \"what\": \"the result of %s (type %c) on %s depends on memory nobody wrote\", \"count\": %llu}", i ? ", " : "", t->fns[hits[i].fn].name, t->fns[hits[i].fn].ty, t->variant,
				t->fns[hits[i].fn].name, t->fns[hits[i].fn].ty, t->variant, hits[i].n);
	fprintf(out, "]}\n");
	fclose(out);
	return 0;
}
