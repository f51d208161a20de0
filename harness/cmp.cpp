// Drives every entry point of one or more configurations with generated arguments and watches, per --sub:
//   det     all configurations return the same bits                                  (C03)
//   fenv    the floating-point environment and errno around each call                (C04)
//   ub      nothing but execution: the entry points are built with sanitizers        (C05)
//   thread  concurrent callers in different rounding modes get what a lone caller gets (C06)
#include "core.hpp"
#include "mon.hpp"
#include <fenv.h>
#include <set>
#include <dlfcn.h>
#include <sstream>
#if defined(CCMV_STATIC)
extern "C" const CcmvTable * ccmv_table();
#endif

static std::vector<Variant> V;
static std::vector<std::uint64_t> DICT;
static bool isCE(const Variant & v)
{ return v.name.find("ce") != std::string::npos; }

struct Args1
{
	unsigned char a[3][16] = {}; // up to three arguments of the function's type
	long n				   = 0;
	long double ld		   = 0;
	std::string s;
};
struct Res
{
	u128 v = 0, w = 0; // value and out-parameter, NaNs normalised
	long i = 0;
	bool operator==(const Res & o) const { return v == o.v && w == o.w && i == o.i; }
};
template <class T> static T arg(const Args1 & a, int k)
{
	T x = 0;
	std::memcpy(&x, a.a[k], sizeof(T) == 16 ? 10 : sizeof(T));
	return x;
}
template <class T> static void put(Args1 & a, int k, T x)
{ std::memcpy(a.a[k], &x, sizeof(T) == 16 ? 10 : sizeof(T)); }
template <class T> static u128 norm(T x)
{ return is_nan(x) ? ~(u128)0 : (u128)bits(x); }

template <class T> static Res invoke_t(const CcmvFn & f, const Args1 & a)
{
	const T x = arg<T>(a, 0), y = arg<T>(a, 1), z = arg<T>(a, 2);
	Res r;
	switch (f.kind)
	{
	case K_U: r.v = norm(((T(*)(T))f.fn)(x)); break;
	case K_B: r.v = norm(((T(*)(T, T))f.fn)(x, y)); break;
	case K_T: r.v = norm(((T(*)(T, T, T))f.fn)(x, y, z)); break;
	case K_UI: r.v = norm(((T(*)(T, int))f.fn)(x, (int)a.n)); break;
	case K_UL: r.v = norm(((T(*)(T, long))f.fn)(x, a.n)); break;
	case K_IU: r.i = ((int (*)(T))f.fn)(x); break;
	case K_ZU: r.i = ((int (*)(T))f.fn)(x); break;
	case K_ZB: r.i = ((int (*)(T, T))f.fn)(x, y); break;
	case K_MODF:
	{
		T p = 0;
		r.v = norm(((T(*)(T, T *))f.fn)(x, &p));
		r.w = norm(p);
		break;
	}
	case K_FREXP:
	{
		int e = 0;
		r.v	  = norm(((T(*)(T, int *))f.fn)(x, &e));
		if (!is_nan(x) && !is_inf(x)) r.i = e; // otherwise unspecified
		break;
	}
	case K_REMQUO:
	{
		int q = 0;
		r.v	  = norm(((T(*)(T, T, int *))f.fn)(x, y, &q));
		if (!is_nan(x) && !is_nan(y) && !is_inf(x) && y != 0) r.i = q;
		break;
	}
	case K_NT: r.v = norm(((T(*)(T, long double))f.fn)(x, a.ld)); break;
	case K_NAN: r.v = norm(((T(*)(const char *))f.fn)(a.s.c_str())); break;
	}
	return r;
}
static Res invoke(const CcmvFn & f, const Args1 & a)
{
	switch (f.ty)
	{
	case 'f': return invoke_t<float>(f, a);
	case 'd': return invoke_t<double>(f, a);
	default: return invoke_t<long double>(f, a);
	}
}
static int nargs(int kind)
{
	switch (kind)
	{
	case K_B:
	case K_ZB:
	case K_REMQUO: return 2;
	case K_T: return 3;
	default: return 1;
	}
}
template <class T> static T pick(Rng & r)
{
	int c = r.range(0, C_COUNT);
	if (c == C_COUNT && !DICT.empty())
	{
		T t = (T)from_bits<double>(DICT[r.below(DICT.size())]);
		t	= step(t, (r.next() & 1) ? r.range(-2, 2) : r.range(-40, 40));
		return (r.next() & 3) ? t : -t;
	}
	T x = gen<T>(r, c % C_COUNT, -20, 20);
	return is_snan(x) ? (T)1 : x;
}
template <class T> static void fill(Rng & r, const CcmvFn & f, Args1 & a)
{
	const int n = nargs(f.kind);
	T v[3]		= { 0, 0, 0 };
	for (int k = 0; k < n; ++k)
	{
		v[k] = pick<T>(r);
		if (k && r.below(3) == 0)
		{ // related to the previous argument
			switch (r.range(0, 4))
			{
			case 0: v[k] = step(v[k - 1], r.range(-2, 2)); break;
			case 1: v[k] = -v[k - 1]; break;
			case 2: v[k] = v[k - 1] * (T)r.range(-9, 9); break;
			case 3: v[k] = (T)r.range(-30, 30); break;
			default: v[k] = (T)std::ldexp((long double)v[k - 1], r.range(-FT<T>::prec - 3, FT<T>::prec + 3)); break;
			}
			if (is_snan(v[k])) v[k] = 1;
		}
	}
	if (!strncmp(f.name, "pow", 3) && (r.next() & 1))
	{
		v[0]	 = std::fabs(v[0]);
		double l = std::log2((double)v[0]);
		if (l != 0 && std::fabs(l) < 1e6) v[1] = (T)(((double)(r.next() >> 11) * 0x1p-53 * 2.2 - 1.1) * FT<T>::emax / l);
	}
	if (!strcmp(f.name, "fma") && (r.next() & 1) && !is_nan(v[0] * v[1])) v[2] = step(-(v[0] * v[1]), r.range(-2, 2));
	for (int k = 0; k < n; ++k) put<T>(a, k, v[k]);
	switch (r.range(0, 5))
	{
	case 0: a.n = (long)r.next(); break;
	case 1: a.n = (r.next() & 1) ? INT_MAX - r.range(0, 3) : INT_MIN + r.range(0, 3); break;
	case 2: a.n = (r.next() & 1) ? LONG_MAX : LONG_MIN; break;
	default: a.n = r.range(-2 * FT<T>::emax, 2 * FT<T>::emax); break;
	}
	if (f.kind == K_NT) a.ld = (r.next() & 1) ? gen<long double>(r, r.range(0, C_COUNT - 1), -2, 2) : (long double)v[0];
	if (f.kind == K_NT && is_snan(a.ld)) a.ld = 1;
	if (f.kind == K_NAN)
	{
		static const char * t[] = { "", "0", "1", "123", "0x", "0x1f", "0xdeadbeefdeadbeef", "0777", "08", "abc", "12ab", "99999999999999999999999999", "0xfffffffffffffffffffffffff", "_", "1_", " 1", "-1", "0b11" };
		a.s						= t[r.below(sizeof t / sizeof *t)];
		if (r.below(4) == 0) a.s += (char)('0' + r.below(70));
	}
}
static void make_args(Rng & r, const CcmvFn & f, Args1 & a)
{
	switch (f.ty)
	{
	case 'f': fill<float>(r, f, a); break;
	case 'd': fill<double>(r, f, a); break;
	default: fill<long double>(r, f, a); break;
	}
}
template <class T> static std::string show_t(const CcmvFn & f, const Args1 & a)
{
	std::string s;
	for (int k = 0; k < nargs(f.kind); ++k) s += (k ? ", " : "") + show(arg<T>(a, k));
	if (f.kind == K_UI || f.kind == K_UL) s += mon::fmt(", %ld", a.n);
	if (f.kind == K_NT) s += ", " + show(a.ld);
	if (f.kind == K_NAN) s = "\"" + a.s + "\"";
	return s;
}
static std::string show_args(const CcmvFn & f, const Args1 & a)
{ return f.ty == 'f' ? show_t<float>(f, a) : f.ty == 'd' ? show_t<double>(f, a) : show_t<long double>(f, a); }
static std::string show_res(const CcmvFn & f, const Res & r)
{
	auto one = [&](u128 v) { return v == ~(u128)0 ? std::string("nan") : f.ty == 'f' ? show(from_bits<float>((std::uint32_t)v)) : f.ty == 'd' ? show(from_bits<double>((std::uint64_t)v)) : show(from_bits<long double>(v)); };
	if (f.kind == K_ZU || f.kind == K_ZB || f.kind == K_IU) return std::to_string(r.i);
	std::string s = one(r.v);
	if (f.kind == K_MODF) s += " ip " + one(r.w);
	if (f.kind == K_FREXP || f.kind == K_REMQUO) s += " int " + std::to_string(r.i);
	return s;
}
static const char * tname(char t)
{ return t == 'f' ? "float" : t == 'd' ? "double" : "long double"; }
static void cov(const CcmvFn & f, const Args1 & a)
{
	std::uint64_t k = hash_str(f.name) * 31 + (unsigned char)f.ty;
	for (int i = 0; i < nargs(f.kind); ++i)
	{
		std::uint64_t e = f.ty == 'f' ? bits(arg<float>(a, i)) >> 21 : f.ty == 'd' ? bits(arg<double>(a, i)) >> 50 : (std::uint64_t)(bits(arg<long double>(a, i)) >> 62);
		k				= mon::mix(k + e);
	}
	mon::cover(k);
	if (hash_str(f.name) % 5 == 0) mon::sample_once(&f, [&] { return mon::fmt("%s<%s>(%s)", f.name, tname(f.ty), show_args(f, a).c_str()); });
}

struct Entry
{
	const CcmvFn * f;				  // in the first variant
	std::vector<const CcmvFn *> fs;	  // per variant
};
static std::vector<Entry> entries()
{
	std::vector<Entry> r;
	for (int i = 0; i < V[0].t->n; ++i)
	{
		Entry e;
		e.f = &V[0].t->fns[i];
		if (!mon::args.prop.empty() && mon::args.prop != "-" && mon::args.prop != e.f->name) continue;
		for (auto & v : V) e.fs.push_back(v.get(e.f->name, e.f->ty));
		r.push_back(e);
	}
	return r;
}
static bool slow(const CcmvFn & f)
{ return strstr(f.name, "gamma") != nullptr; }
static bool skip_arg(const CcmvFn & f, const Args1 & a)
{
	if (!slow(f)) return false;
	long double x = f.ty == 'f' ? arg<float>(a, 0) : f.ty == 'd' ? arg<double>(a, 0) : arg<long double>(a, 0);
	return std::fabs(x) > 1e6L && std::fabs(x) < 1e30L && ((long)(std::fabs(x)) & 7); // keep a few
}

template <class T> static int cls(u128 v) // 0 zero 1 subnormal 2 normal 3 inf 4 nan 5 max
{
	if (v == ~(u128)0) return 4;
	T x = from_bits<T>((typename FT<T>::U)v);
	if (x == 0) return 0;
	if (is_inf(x)) return 3;
	if (std::fabs(x) < std::numeric_limits<T>::min()) return 1;
	if (std::fabs(x) == std::numeric_limits<T>::max()) return 5;
	return 2;
}
static int cls_of(char ty, u128 v)
{ return ty == 'f' ? cls<float>(v) : ty == 'd' ? cls<double>(v) : cls<long double>(v); }
// ---------------------------------------------------------------- det
// In these the compiler's builtin, hence the C library, is at work even in deterministic mode.
static bool via_library(const Variant & v, const CcmvFn & f)
{
	static const std::set<std::string> lib = { "fdim", "fmod", "ilogb", "ldexp", "logb", "nextafter", "nextdown", "nexttoward", "nextup", "remainder", "remquo", "scalbln", "scalbn", "sqrt", "lerp" };
	std::string n = f.name;
	if (!n.empty() && n.back() == '_') n.pop_back();
	const std::string stem = n.substr(0, n.size() - 1);
	return v.name.find("det") == std::string::npos || lib.count(n) || lib.count(stem) || lib.count(n.substr(0, n.size() > 2 ? n.size() - 2 : 0));
}
// Compilers fold constant parts of these in round-to-nearest, more or less of them as inlining goes: nearest only.
static bool approximate(const CcmvFn & f)
{
	static const char * t[] = { "exp", "log", "pow", "sin", "cos", "tan", "asin", "acos", "atan", "cbrt", "hypot", "gamma", "tgamma", "lgamma", "lerp" };
	for (const char * p : t)
		if (!strncmp(f.name, p, strlen(p)) && strncmp(f.name, "logb", 4)) return true;
	return false;
}
// with opt, the configurations differ in options that must not change results; those without errno must not touch it
static void run_det(int per, bool opt)
{
	auto es = entries();
	const int rounds = 16;
	mon::parallel(es.size() * rounds, [&](std::uint64_t c) {
		auto & e = es[c % es.size()];
		Rng r(mon::mix(mon::args.seed * 31337 + hash_str(e.f->name) + (unsigned char)e.f->ty) + c / es.size());
		for (int i = 0; i < per; ++i)
		{
			Args1 a;
			make_args(r, *e.f, a);
			const bool rem = !strcmp(e.f->name, "remainder") && e.f->ty == 'd';
			if (rem && i == 0) put(a, 0, -0x1.4a3a6388e0abbp-846), put(a, 1, -0x1p-1022);
			// nearest only: in the other modes compilers may still fold constant subexpressions to nearest
			for (int m = 0; m < (opt && !approximate(*e.f) ? 4 : 1); ++m)
			{
				Res want;
				for (std::size_t v = 0; v < V.size(); ++v)
				{
					if (!e.fs[v] || (m && isCE(V[v]))) continue;
					// constant evaluation of these always uses the 80-bit code, run time the double one
					mon::about(e.f->name, V[v].name.c_str(), kModes[m], a.a[0], a.a[1]);
					std::fesetround(kModes[m]);
					errno		 = 12345;
					Res got		 = invoke(*e.fs[v], a);
					const int en = errno;
					std::fesetround(FE_TONEAREST);
					mon::self().ev++;
					if (opt && V[v].name.find("noerrno") != std::string::npos && !via_library(V[v], *e.f))
					{
						mon::self().ck++;
						if (en != 12345)
							mon::violation(mon::fmt("errno/%s/%s/%s", e.f->name, tname(e.f->ty), V[v].name.c_str()),
										   mon::fmt("%s<%s>(%s) on %s stored errno %d although errno is disabled", e.f->name, tname(e.f->ty), show_args(*e.f, a).c_str(), V[v].name.c_str(), en));
					}
					if (v == 0)
					{
						want = got;
						continue;
					}
					mon::self().ck++;
					// C leaves the sign of fmax(+0, -0) open, and compilers' inline expansions differ in it
					if ((strstr(e.f->name, "max") || strstr(e.f->name, "min")) && cls_of(e.f->ty, got.v) == 0 && cls_of(e.f->ty, want.v) == 0) continue;
					// glibc's remainder(double) may give an exact zero the wrong sign, GCC's x87 expansion does not
					const bool lib = rem && cls_of('d', got.v) == 0 && cls_of('d', want.v) == 0 && std::signbit(std::remainder(arg<double>(a, 0), arg<double>(a, 1))) != std::signbit(arg<double>(a, 0));
					if (!(got == want) && lib) mon::violation("", mon::fmt("remainder(%s) is %s on %s but %s on %s", show_args(*e.f, a).c_str(), show_res(*e.f, want).c_str(), V[0].name.c_str(), show_res(*e.f, got).c_str(), V[v].name.c_str()), "remainder-zero-sign-libm");
					else if (!(got == want))
						mon::violation(mon::fmt("%s/%s/%s/%s", e.f->name, tname(e.f->ty), V[v].name.c_str(), m ? "directed" : "nearest"),
									   mon::fmt("%s<%s>(%s) in %s is %s on %s but %s on %s", e.f->name, tname(e.f->ty), show_args(*e.f, a).c_str(), mode_name(kModes[m]), show_res(*e.f, want).c_str(),
												V[0].name.c_str(), show_res(*e.f, got).c_str(), V[v].name.c_str()));
				}
			}
			cov(*e.f, a);
			if (i == 0 && c < es.size() && c % 17 == 0) mon::sample(mon::fmt("%s<%s>(%s)", e.f->name, tname(e.f->ty), show_args(*e.f, a).c_str()));
		}
	});
}

// ---------------------------------------------------------------- fenv
static u128 raw(const CcmvFn & f, const Args1 & a, int k)
{ return f.ty == 'f' ? norm(arg<float>(a, k)) : f.ty == 'd' ? norm(arg<double>(a, k)) : norm(arg<long double>(a, k)); }
static const char * exname(int e)
{
	static thread_local char b[64];
	b[0] = 0;
	if (e & FE_INVALID) strcat(b, "INVALID ");
	if (e & FE_DIVBYZERO) strcat(b, "DIVBYZERO ");
	if (e & FE_OVERFLOW) strcat(b, "OVERFLOW ");
	if (e & FE_UNDERFLOW) strcat(b, "UNDERFLOW ");
	if (e & FE_INEXACT) strcat(b, "INEXACT ");
	return b;
}
static std::string base_name(const CcmvFn & f)
{ // spelled with a suffix or without
	std::string n = f.name;
	static const std::set<std::string> whole = { "ceil", "erf", "isinf", "modf" };
	if (n.size() > 1 && n.back() == f.ty && f.ty != 'd' && !whole.count(n)) n.pop_back();
	return n;
}
// functions whose result is exact or a classification: no flag to raise, no error to report
static bool quiet_fn(const std::string & n)
{
	static const std::set<std::string> q = { "fabs", "abs", "ceil", "floor", "trunc", "round", "nearbyint", "copysign", "fmax", "fmin", "max", "min", "fmod", "remainder", "modf", "frexp", "frexp_ref",
											 "isnan", "isinf", "isfinite", "isnormal", "signbit", "fpclassify", "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered" };
	return q.count(n) != 0;
}
static void run_fenv(int per)
{
	auto es = entries();
	const int rounds = 16;
	std::atomic<long> seen_all[4] = {};
	mon::parallel(es.size() * rounds, [&](std::uint64_t c) {
		long seen[4] = {};
		auto & e = es[c % es.size()];
		Rng r(mon::mix(mon::args.seed * 31337 + hash_str(e.f->name) + (unsigned char)e.f->ty) + c / es.size() + 0xfe);
		for (int i = 0; i < per; ++i)
		{
			Args1 a;
			make_args(r, *e.f, a);
			if (skip_arg(*e.f, a)) continue;
			bool nan_in = false, inf_in = false, fin = true;
			for (int k = 0; k < nargs(e.f->kind); ++k)
			{
				int q = cls_of(e.f->ty, raw(*e.f, a, k));
				nan_in |= q == 4;
				inf_in |= q == 3;
				fin &= q != 3 && q != 4;
			}
			if (e.f->kind == K_NT && is_nan(a.ld)) nan_in = true;
			if (e.f->kind == K_NAN) nan_in = true;
			for (std::size_t v = 0; v < V.size(); ++v)
			{
				if (!e.fs[v]) continue;
				for (int m = 0; m < 4; ++m)
				{
					if (m && isCE(V[v])) continue;
					mon::about(e.f->name, V[v].name.c_str(), kModes[m], a.a[0], a.a[1]);
					const int pre	= (int)(r.next() & FE_ALL_EXCEPT) & ((r.next() & 1) ? FE_ALL_EXCEPT : 0);
					const int perrno = (r.next() & 1) ? 0 : 12345;
					std::feclearexcept(FE_ALL_EXCEPT);
					if (pre) fesetexceptflag(std::vector<fexcept_t>(1, (fexcept_t)pre).data(), pre);
					fenv_t env0, env1;
					std::fesetround(kModes[m]);
					fegetenv(&env0);
					errno	= perrno;
					Res got = invoke(*e.fs[v], a);
					const int en = errno;
					const int rm = std::fegetround();
					fegetenv(&env1);
					const int ex = std::fetestexcept(FE_ALL_EXCEPT);
					std::fesetround(FE_TONEAREST);
					std::feclearexcept(FE_ALL_EXCEPT);
					mon::self().ev++;
					mon::self().ck += 6;
					auto bad = [&](const char * what, const std::string & detail) {
						mon::violation(mon::fmt("%s/%s/%s/%s/%s", what, e.f->name, tname(e.f->ty), V[v].name.c_str(), m ? "directed" : "nearest"),
									   mon::fmt("%s: %s<%s>(%s) = %s in %s on %s: %s", what, e.f->name, tname(e.f->ty), show_args(*e.f, a).c_str(), show_res(*e.f, got).c_str(), mode_name(kModes[m]), V[v].name.c_str(),
												detail.c_str()));
					};
					if (rm != kModes[m]) bad("rounding-mode-changed", mon::fmt("left %s", mode_name(rm)));
					if ((env0.__control_word ^ env1.__control_word) || ((env0.__mxcsr ^ env1.__mxcsr) & ~0x3fu)) bad("control-word-changed", mon::fmt("cw %04x->%04x mxcsr %04x->%04x", env0.__control_word, env1.__control_word, env0.__mxcsr, env1.__mxcsr));
					if ((ex & pre) != pre) bad("sticky-flag-cleared", mon::fmt("%s before, %s after", std::string(exname(pre)).c_str(), exname(ex)));
					if (en == 0 && perrno) bad("errno-cleared", "");
					if (en != perrno && en != EDOM && en != ERANGE) bad("errno-value", mon::fmt("errno %d", en));
					if (pre) continue;
					const bool intres = e.f->kind == K_ZU || e.f->kind == K_ZB || e.f->kind == K_IU;
					const int q		  = intres ? 2 : cls_of(e.f->ty, got.v);
					const bool clang  = V[v].name.find("clang") != std::string::npos, det = V[v].name.find("det") != std::string::npos;
					const std::string n = base_name(*e.f);
					if (quiet_fn(n) && !nan_in && q != 4)
					{
						mon::self().ck += 2;
						seen[0]++;
						if (ex) bad("flags-from-exact-function", exname(ex));
						if (en != perrno) bad("errno-from-exact-function", mon::fmt("errno %d", en));
					}
					if (q == 4 && !nan_in)
					{
						mon::self().ck += 2;
						seen[1]++;
						if (!(ex & FE_INVALID)) bad("domain-error-without-invalid", exname(ex));
						if (perrno == 0 && en != EDOM && n != "fma" && n != "lerp" && n != "remquo") bad("domain-error-without-EDOM", mon::fmt("errno %d", en));
					}
					// clang folds the overflowing product of exp and expm1 at compile time; lgamma's own code has quiet poles
					if (q == 3 && fin && !nan_in && !(clang && n.compare(0, 3, "exp") == 0) && !(det && n == "lgamma"))
					{
						mon::self().ck++;
						seen[2]++;
						if (!(ex & (FE_OVERFLOW | FE_DIVBYZERO))) bad("infinite-result-without-flag", exname(ex));
					}
					if (!nan_in && q != 3 && !(e.f->ty == 'l' && n == "pow"))
					{
						mon::self().ck++;
						if (ex & FE_DIVBYZERO) bad("spurious-divbyzero", exname(ex));
					}
					if (!nan_in && q != 4 && n != "ilogb" && n != "lgamma" && n != "lerp" && !(e.f->ty == 'l' && (n == "fma" || n == "pow")))
					{
						mon::self().ck++;
						seen[3]++;
						if (ex & FE_INVALID) bad("spurious-invalid", exname(ex));
					}
				}
			}
			cov(*e.f, a);
		}
		for (int k = 0; k < 4; ++k) seen_all[k] += seen[k];
	});
	static const char * nm[4] = { "exact_function_calls", "domain_errors", "infinite_results", "non_nan_results" };
	for (int k = 0; k < 4; ++k) mon::stat_add(nm[k], (double)seen_all[k]);
}

// ---------------------------------------------------------------- ub
static void run_ub(int per)
{
	auto es = entries();
	const int rounds = 16;
	mon::parallel(es.size() * rounds, [&](std::uint64_t c) {
		auto & e = es[c % es.size()];
		Rng r(mon::mix(mon::args.seed * 31337 + hash_str(e.f->name) + (unsigned char)e.f->ty) + c / es.size() + 0x0b);
		for (int i = 0; i < per; ++i)
		{
			Args1 a;
			make_args(r, *e.f, a);
			for (std::size_t v = 0; v < V.size(); ++v)
				for (int m = 0; m < 4; ++m)
				{
					if (m && isCE(V[v])) continue;
					// such a call overflows or underflows, which no constant expression may do: the path is unreachable outside this harness
					if (isCE(V[v]) && e.f->ty == 'l' && !strncmp(e.f->name, "pow", 3) && std::fabs(arg<long double>(a, 1)) >= 0x1p63L) continue;
					mon::about(e.f->name, V[v].name.c_str(), kModes[m], a.a[0], a.a[1]);
					std::fesetround(kModes[m]);
					invoke(*e.fs[v], a);
					std::fesetround(FE_TONEAREST);
					mon::self().ev++;
					mon::self().ck++;
				}
			cov(*e.f, a);
			if (i == 0 && c < es.size() && c % 17 == 0) mon::sample(mon::fmt("%s<%s>(%s)", e.f->name, tname(e.f->ty), show_args(*e.f, a).c_str()));
		}
	});
}

// ---------------------------------------------------------------- thread
static void run_thread(int per)
{
	auto es = entries();
	// the lone caller's results, then concurrent callers over the same inputs, each thread in its own rounding mode
	struct Case
	{
		int e;
		Args1 a;
		Res want[4];
		int err[4];
	};
	std::vector<Case> cs;
	Rng r(mon::mix(mon::args.seed * 977 + 5));
	for (int i = 0; i < per; ++i)
		for (std::size_t k = 0; k < es.size(); ++k)
		{
			Case c;
			c.e = (int)k;
			make_args(r, *es[k].f, c.a);
			cs.push_back(c);
		}
	// first use of every function happens concurrently in the first pass below, before any lone call
	const int T = 8;
	auto pass	= [&](bool record) {
		  std::vector<std::thread> ts;
		  std::atomic<int> gate{ 0 };
		  std::vector<std::vector<Res>> got(T, std::vector<Res>(cs.size()));
		  std::vector<std::vector<int>> errs(T, std::vector<int>(cs.size()));
		  for (int t = 0; t < T; ++t)
			  ts.emplace_back([&, t] {
				  mon::Worker & w = mon::self();
				  const int m	  = t & 3;
				  std::fesetround(kModes[m]);
				  gate++;
				  while (gate.load() < T) {}
				  // half of the threads walk backwards so that different functions overlap too
				  for (std::size_t i = 0; i < cs.size(); ++i)
				  {
					  std::size_t k = t < 4 ? i : cs.size() - 1 - i;
					  errno			= 0;
					  got[t][k]		= invoke(*es[cs[k].e].fs[0], cs[k].a);
					  errs[t][k]	= errno;
					  if (std::fegetround() != kModes[m])
					  {
						  mon::violation(std::string("thread-mode/") + es[cs[k].e].f->name, "the rounding mode of a thread changed under " + show_args(*es[cs[k].e].f, cs[k].a));
						  std::fesetround(kModes[m]);
					  }
					  w.ev++;
				  }
				  std::fesetround(FE_TONEAREST);
				  std::lock_guard<std::mutex> g(mon::mu);
				  mon::idle.push_back(&w);
			  });
		  for (auto & t : ts) t.join();
		  if (!record) return;
		  for (int t = 0; t < T; ++t)
			  for (std::size_t k = 0; k < cs.size(); ++k)
			  {
				  mon::self().ck++;
				  auto & c = cs[k];
				  if (!(got[t][k] == c.want[t & 3]) || errs[t][k] != c.err[t & 3])
					  mon::violation(mon::fmt("thread-result/%s/%s", es[c.e].f->name, tname(es[c.e].f->ty)),
									 mon::fmt("%s<%s>(%s) in %s: %s (errno %d) among %d threads, %s (errno %d) alone", es[c.e].f->name, tname(es[c.e].f->ty), show_args(*es[c.e].f, c.a).c_str(), mode_name(kModes[t & 3]),
											  show_res(*es[c.e].f, got[t][k]).c_str(), errs[t][k], T, show_res(*es[c.e].f, c.want[t & 3]).c_str(), c.err[t & 3]));
			  }
	};
	pass(false);
	for (auto & c : cs)
	{
		for (int m = 0; m < 4; ++m)
		{
			std::fesetround(kModes[m]);
			errno	  = 0;
			c.want[m] = invoke(*es[c.e].fs[0], c.a);
			c.err[m]  = errno;
			std::fesetround(FE_TONEAREST);
			mon::self().ev++;
		}
		cov(*es[c.e].f, c.a);
	}
	const int passes = mon::args.thorough ? 40 : 4;
	for (int p = 0; p < passes; ++p) pass(true);
	mon::stat_add("concurrent_passes", passes + 1);
	mon::stat_add("threads", T);
	mon::stat_add("cases", (double)cs.size());
}

// ---------------------------------------------------------------- ce
// Rows computed in constant expressions, against the same calls at run time: V[0] the run-time configuration of the same
// compiler, V[1] (clang only) the constant-evaluation code executed at run time, which must give the same bits.
struct Tol
{
	const char * fn;
	double f, d, l; // run-time plus constant-evaluation error bounds, in ULP; 0: exact
};
static const Tol kTol[] = { { "pow", 2.5, 1.2, 16 }, { "exp", 2.5, 1.5, 3 }, { "exp2", 2.5, 1.5, 3 }, { "expm1", 5, 5, 6 }, { "log", 2, 1.5, 3 }, { "log2", 2, 1.5, 3 }, { "log10", 4.5, 4.5, 3 }, { "log1p", 5.5, 5.5, 6 },
							{ "sin", 9, 9, 6 }, { "cos", 9, 9, 6 }, { "tan", 11, 11, 6 }, { "asin", 10, 10, 6 }, { "acos", 4, 4, 6 }, { "atan", 10, 10, 6 }, { "atan2", 11, 11, 6 }, { "cbrt", 3.5, 8, 6 },
							{ "hypot", 5, 5, 6 }, { "hypot3", 8, 8, 8 }, { "tgamma", 16, 512, 16 }, { "lgamma", 16, 128, 16 }, { "lerp", 0, 0, 0 } };
template <class T> static long double ulps(T a, T b)
{
	if (norm(a) == norm(b)) return 0;
	if (is_nan(a) || is_nan(b) || is_inf(a) || is_inf(b) || neg(a) != neg(b)) return 1e30L;
	T m = std::max(std::fabs(a), std::fabs(b)), lo = step(m, -1);
	return std::fabs((long double)a - (long double)b) / ((long double)m - (long double)lo);
}
template <class T> static void ce_row(const CcmvRow & r)
{
	Args1 a;
	for (int k = 0; k < 3; ++k) put<T>(a, k, (T)r.a[k]);
	a.n	 = r.n;
	a.ld = r.ld;
	a.s	 = r.s;
	for (std::size_t v = 0; v < V.size(); ++v)
	{
		const CcmvFn * f = V[v].get(r.fn, FT<T>::ch);
		if (!f) continue;
		mon::about(f->name, V[v].name.c_str(), 0, a.a[0], a.a[1]);
		Res got = invoke(*f, a), want;
		want.v	= norm((T)r.v);
		want.w	= norm((T)r.w);
		want.i	= r.i;
		const bool intres = f->kind == K_ZU || f->kind == K_ZB || f->kind == K_IU;
		if (intres) want.v = want.w = 0;
		if (f->kind == K_FREXP && (is_nan((T)r.a[0]) || is_inf((T)r.a[0]))) want.i = 0;
		mon::self().ev++;
		mon::self().ck++;
		cov(*f, a);
		if (got == want) continue;
		long double tol = 0, err = 1e30L;
		// clang's constant evaluation of these in long double, and GCC's of lgamma, is the double function at the argument rounded to double
		const bool dbl = std::is_same_v<T, long double> && !isCE(V[v]) && (!strcmp(r.fn, "lgamma") || (V[v].name.find("clang") != std::string::npos && strcmp(r.fn, "pow") != 0));
		for (auto & t : kTol)
			if (!strcmp(t.fn, r.fn)) tol = std::is_same_v<T, float> ? t.f : std::is_same_v<T, double> ? t.d : t.l;
		if (dbl && tol > 0)
		{
			Args1 b = a;
			for (int k = 0; k < 3; ++k) put<T>(b, k, (T)(double)r.a[k]);
			got = invoke(*f, b);
			for (auto & t : kTol)
				if (!strcmp(t.fn, r.fn)) tol = (t.d + 1) * 2048;
		}
		if (std::is_same_v<T, long double> && !strcmp(r.fn, "pow")) tol += std::fabs(r.a[1]) * std::min(0x1p-7L, std::fabs(std::fabs(r.a[0]) - 1)); // listed finding of A01
		if (!intres && got.w == want.w && (f->kind != K_REMQUO && f->kind != K_FREXP)) err = ulps<T>(from_bits<T>((typename FT<T>::U)got.v), from_bits<T>((typename FT<T>::U)want.v));
		if (f->kind == K_REMQUO && got.v == want.v && (got.i & 7) == (want.i & 7) && (got.i < 0) == (want.i < 0)) continue;
		if (!strcmp(r.fn, "lgamma")) err = std::min(err, ulps<T>((T)(from_bits<T>((typename FT<T>::U)got.v) + 4), (T)(from_bits<T>((typename FT<T>::U)want.v) + 4)));
		if (isCE(V[v]) ? err > 0 : err > tol)
			mon::violation(mon::fmt("%s/%s/%s", r.fn, tname(FT<T>::ch), V[v].name.c_str()),
						   mon::fmt("%s<%s>(%s) is %s in a constant expression but %s at run time on %s (%.3Lg ULP)", r.fn, tname(FT<T>::ch), show_args(*f, a).c_str(), show_res(*f, want).c_str(), show_res(*f, got).c_str(),
									V[v].name.c_str(), err));
	}
}
// The same comparison, densely: what a constant expression evaluates (the code forced onto that path) against run time,
// wherever the call at run time raises no floating-point error and no argument is a NaN.
template <class T> static void ce_pair(const Entry & e, const Args1 & a, std::size_t rv, std::size_t cv)
{
	const CcmvFn & f = *e.f;
	long double tol = 0, err = 1e30L;
	for (auto & t : kTol)
		if (!strcmp(t.fn, base_name(f) == "gamma" ? "tgamma" : base_name(f).c_str())) tol = std::is_same_v<T, float> ? t.f : std::is_same_v<T, double> ? t.d : t.l;
	if (tol > 0 && std::is_same_v<T, long double>) return; // may be the double function there: see the table
	std::feclearexcept(FE_ALL_EXCEPT);
	const Res want = invoke(*e.fs[rv], a);
	const bool er  = std::fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW) != 0;
	if (er) return;
	const Res got = invoke(*e.fs[cv], a);
	mon::self().ev++;
	mon::self().ck++;
	cov(f, a);
	if (got == want) return;
	const std::string n = base_name(f);
	if ((strstr(f.name, "max") || strstr(f.name, "min")) && cls_of(f.ty, got.v) == 0 && cls_of(f.ty, want.v) == 0) return;
	if (n == "remainder" && cls_of(f.ty, got.v) == 0 && cls_of(f.ty, want.v) == 0) return; // libm's sign, a listed finding of C03
	if (f.kind == K_REMQUO && got.v == want.v && (got.i & 7) == (want.i & 7) && (got.i < 0) == (want.i < 0)) return;
	if (f.kind == K_U || f.kind == K_B || f.kind == K_T) err = ulps<T>(from_bits<T>((typename FT<T>::U)got.v), from_bits<T>((typename FT<T>::U)want.v));
	if (n == "lgamma") err = std::min(err, ulps<T>((T)(from_bits<T>((typename FT<T>::U)got.v) + 4), (T)(from_bits<T>((typename FT<T>::U)want.v) + 4)));
	if (err > tol)
		mon::violation(mon::fmt("dense/%s/%s/%s", f.name, tname(FT<T>::ch), V[cv].name.c_str()),
					   mon::fmt("%s<%s>(%s) is %s as constant evaluation computes it (%s) but %s at run time (%s) (%.3Lg ULP)", f.name, tname(FT<T>::ch), show_args(f, a).c_str(), show_res(f, got).c_str(), V[cv].name.c_str(),
								show_res(f, want).c_str(), V[rv].name.c_str(), err));
}
static void run_ced(int per)
{ // variants come in pairs: run time, constant evaluation
	auto es			 = entries();
	const int rounds = 16;
	mon::parallel(es.size() * rounds, [&](std::uint64_t c) {
		auto & e = es[c % es.size()];
		if (e.f->kind == K_NAN) return;
		Rng r(mon::mix(mon::args.seed * 31337 + hash_str(e.f->name) + (unsigned char)e.f->ty) + c / es.size() + 0xced);
		for (int i = 0; i < per; ++i)
		{
			Args1 a;
			make_args(r, *e.f, a);
			if (skip_arg(*e.f, a)) continue;
			bool nan = e.f->kind == K_NT && is_nan(a.ld);
			for (int k = 0; k < nargs(e.f->kind); ++k) nan |= cls_of(e.f->ty, raw(*e.f, a, k)) == 4;
			if (nan) continue;
			for (std::size_t v = 0; v + 1 < V.size(); v += 2)
			{
				if (!e.fs[v] || !e.fs[v + 1]) continue;
				mon::about(e.f->name, V[v + 1].name.c_str(), FE_TONEAREST, a.a[0], a.a[1]);
				if (e.f->ty == 'f') ce_pair<float>(e, a, v, v + 1);
				else if (e.f->ty == 'd') ce_pair<double>(e, a, v, v + 1);
				else
					ce_pair<long double>(e, a, v, v + 1);
			}
		}
	});
}
static void run_ce()
{
	std::stringstream ss(mon::args.replay);
	std::string p;
	while (std::getline(ss, p, ','))
	{
		void * h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
		auto * f = h ? (const CcmvRow * (*)(int *))dlsym(h, "ccmv_rows") : nullptr;
		if (!f)
		{
			mon::violation("load", std::string("cannot load the constant rows: ") + dlerror());
			return;
		}
		int n		   = 0;
		const CcmvRow * r = f(&n);
		mon::parallel((std::uint64_t)(n + 255) / 256, [&](std::uint64_t c) {
			for (int k = (int)c * 256; k < std::min(n, (int)c * 256 + 256); ++k)
			{
				if (r[k].ty == 'f') ce_row<float>(r[k]);
				else if (r[k].ty == 'd') ce_row<double>(r[k]);
				else
					ce_row<long double>(r[k]);
				if (k % 997 == 0) mon::sample(mon::fmt("constexpr %s %c %Lg", r[k].fn, r[k].ty, r[k].a[0]));
			}
		});
		mon::stat_add("constant_expressions", n);
	}
}

int main(int argc, char ** argv)
{
	mon::init(argc, argv);
#if defined(CCMV_STATIC)
	V.push_back(wrap_variant(ccmv_table()));
#endif
	for (auto & p : mon::args.so) V.push_back(load_variant(p));
	if (!mon::args.dict.empty())
	{
		std::ifstream f(mon::args.dict);
		std::string w;
		while (f >> w) DICT.push_back(std::strtoull(w.c_str(), nullptr, 16));
	}
	const double b = mon::args.budget > 0 ? mon::args.budget : 1;
	std::string s  = mon::args.sub;
	if (s == "det") run_det((int)(400 * b), false);
	else if (s == "opt") run_det((int)(100 * b), true);
	else if (s == "fenv") run_fenv((int)(400 * b));
	else if (s == "ub") run_ub((int)(100 * b));
	else if (s == "ce") run_ce();
	else if (s == "ced") run_ced((int)(1000 * b));
	else if (s == "thread") run_thread((int)(10 * b));
	else
		return 2;
	mon::stat_add("entry_points", V[0].t->n);
	return mon::finish();
}
