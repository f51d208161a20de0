// C07: the other spellings of a call (suffixed names, integer and mixed arguments, nan payloads, constants) give what the
// plain floating-point call gives. Built against ccmath directly; the oracle is ccmath's own call in the promoted type,
// whose values the other properties judge, and MPFR for the constants.
#include <ccmath/ccmath.hpp>
#include "core.hpp"
#include "mon.hpp"
#include <type_traits>

template <class A, class B> using Common = std::conditional_t<std::is_integral_v<std::common_type_t<A, B>>, double, std::common_type_t<A, B>>;
template <class T> constexpr const char * tn()
{
	return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, long double> ? "long double" : std::is_same_v<T, int> ? "int" : std::is_same_v<T, unsigned> ? "unsigned"
		 : std::is_same_v<T, long> ? "long" : std::is_same_v<T, unsigned long> ? "unsigned long" : std::is_same_v<T, long long> ? "long long" : std::is_same_v<T, unsigned long long> ? "unsigned long long"
		 : std::is_same_v<T, short> ? "short" : std::is_same_v<T, unsigned short> ? "unsigned short" : std::is_same_v<T, signed char> ? "signed char" : std::is_same_v<T, unsigned char> ? "unsigned char" : std::is_same_v<T, char> ? "char" : "bool";
}
template <class T> T value(Rng & r)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		T x = gen<T>(r, r.range(0, C_COUNT - 1), -20, 20);
		return is_snan(x) ? (T)1 : x;
	}
	else if constexpr (std::is_same_v<T, bool>)
		return r.next() & 1;
	else
	{
		using L = std::numeric_limits<T>;
		switch (r.range(0, 4))
		{
		case 0: return (T)r.range(-20, 20);
		case 1: return (T)(L::max() - (T)r.range(0, 3));
		case 2: return (T)(L::min() + (T)r.range(0, 3));
		case 3: return (T)(r.next() >> r.range(0, 63));
		default: return (T)r.next();
		}
	}
}
template <class B, class A> B alike(Rng & r, A a) // the same number, where it has one
{
	if constexpr (std::is_integral_v<B> && std::is_floating_point_v<A>) return a > -100 && a < 100 ? (B)(int)a : value<B>(r);
	else
		return (B)a;
}
template <class T> std::string str(T x)
{
	if constexpr (std::is_floating_point_v<T>) return show(x);
	else
		return std::to_string(x);
}
template <class T> bool eq(T a, T b)
{
	if constexpr (std::is_floating_point_v<T>) return same(a, b);
	else
		return a == b;
}
template <class T> std::uint64_t key(T x)
{
	if constexpr (std::is_floating_point_v<T>) return (std::uint64_t)(bits(x) >> (FT<T>::total - 14));
	else
		return mon::mix((std::uint64_t)x);
}
template <class... A> std::string list(A... a)
{
	std::string s;
	((s += (s.empty() ? "" : ", ") + str(a)), ...);
	return s;
}
// --prop a,b,c: only these functions (in every spelling)
static bool wanted(const char * fn)
{
	const std::string & p = mon::args.prop;
	if (p.empty() || p == "-") return true;
	std::string n = fn;
	const std::string all = "," + p + ",";
	if (all.find("," + n + ",") != std::string::npos) return true;
	if (n.back() == 'f' || n.back() == 'l') n.pop_back();
	return all.find("," + n + ",") != std::string::npos;
}
template <class Want, class Got, class... A> void judge(const char * fn, const std::string & types, Got got, Want want, A... a)
{
	static thread_local std::uint64_t n = 0;
	if (!wanted(fn)) return;
	mon::self().ev++;
	mon::self().ck++;
	std::uint64_t k = hash_str(fn) ^ hash_str(types.c_str());
	((k = mon::mix(k + key(a))), ...);
	mon::cover(k);
	if (n++ % 100003 == 7) mon::sample(std::string(fn) + "(" + types + ": " + list(a...) + ")");
	if constexpr (!std::is_same_v<Want, Got>)
		mon::violation(std::string(fn) + "/type/" + types, std::string(fn) + "(" + types + ") has type " + tn<Got>() + ", promised " + tn<Want>());
	else if (!eq(got, want))
		mon::violation(std::string(fn) + "/" + types, std::string(fn) + "(" + types + ": " + list(a...) + ") is " + str(got) + " but the promoted call gives " + str(want));
}

static int N = 1;
static std::uint64_t SEED;
template <class F> void loop(const char * fn, const std::string & types, F && f)
{
	if (strcmp(fn, "three") && !wanted(fn) && !(!strcmp(fn, "ldexp") && wanted("scalbn"))) return;
	Rng r(mon::mix(SEED + hash_str(fn)) ^ hash_str(types.c_str()));
	for (int i = 0; i < N; ++i) f(r);
}

#define INT_U(fn, I) loop(#fn, tn<I>(), [](Rng & r) { I x = value<I>(r); judge<double>(#fn, tn<I>(), ccm::fn(x), ccm::fn((double)x), x); });
#define INT_Z(fn, I, R) loop(#fn, tn<I>(), [](Rng & r) { I x = value<I>(r); judge<R>(#fn, tn<I>(), ccm::fn(x), (R)ccm::fn((double)x), x); });
#define EACH_INT(X, fn) X(fn, int) X(fn, unsigned) X(fn, long) X(fn, unsigned long) X(fn, long long) X(fn, unsigned long long) X(fn, short) X(fn, unsigned short) X(fn, signed char) X(fn, unsigned char) X(fn, char) X(fn, bool)
#define GROUP_U(fn) jobs.push_back([] { EACH_INT(INT_U, fn) });
#define IZB(fn, I) INT_Z(fn, I, bool)
#define GROUP_Z(fn) jobs.push_back([] { EACH_INT(IZB, fn) });

#define MIX_B(fn, A, B) loop(#fn, std::string(tn<A>()) + "," + tn<B>(), [](Rng & r) { using R = Common<A, B>; A a = value<A>(r); B b = value<B>(r); if (r.below(4) == 0) b = alike<B>(r, a); \
	judge<R>(#fn, std::string(tn<A>()) + "," + tn<B>(), ccm::fn(a, b), ccm::fn((R)a, (R)b), a, b); });
#define MIX_Z(fn, A, B) loop(#fn, std::string(tn<A>()) + "," + tn<B>(), [](Rng & r) { using R = std::common_type_t<A, B>; A a = value<A>(r); B b = value<B>(r); if (r.below(4) == 0) b = alike<B>(r, a); \
	judge<bool>(#fn, std::string(tn<A>()) + "," + tn<B>(), ccm::fn(a, b), ccm::fn((R)a, (R)b), a, b); });
#define MIX_POW(fn, A, B) loop(#fn, std::string(tn<A>()) + "," + tn<B>(), [](Rng & r) { using R = std::conditional_t<std::is_integral_v<A>, Common<double, B>, std::conditional_t<std::is_integral_v<B>, Common<A, double>, Common<A, B>>>; A a = value<A>(r); B b = value<B>(r); \
	judge<R>(#fn, std::string(tn<A>()) + "," + tn<B>(), ccm::fn(a, b), ccm::fn((R)a, (R)b), a, b); });
#define FP_MIX(X, fn) X(fn, float, double) X(fn, double, float) X(fn, float, long double) X(fn, long double, float) X(fn, double, long double) X(fn, long double, double)
#define FI_MIX(X, fn) X(fn, float, int) X(fn, int, float) X(fn, double, int) X(fn, int, double) X(fn, long double, long) X(fn, long, long double) X(fn, double, unsigned long long) X(fn, unsigned, double) X(fn, short, float) X(fn, double, long)
#define II_SAME(X, fn) X(fn, int, int) X(fn, long, long) X(fn, unsigned, unsigned) X(fn, unsigned long long, unsigned long long) X(fn, short, short)
#define II_MIX(X, fn) X(fn, int, long) X(fn, unsigned char, short) X(fn, unsigned, unsigned long)


template <class T> void constants()
{
	struct C
	{
		const char * n;
		T got;
		std::function<void(mpfr_ptr)> f;
	};
	using namespace ccm::numbers;
	auto pi = [](mpfr_ptr r) { mpfr_const_pi(r, MPFR_RNDN); };
	const C cs[] = { { "e", e_v<T>, [](mpfr_ptr r) { mpfr_set_ui(r, 1, MPFR_RNDN); mpfr_exp(r, r, MPFR_RNDN); } },
					 { "log2e", log2e_v<T>, [](mpfr_ptr r) { mpfr_const_log2(r, MPFR_RNDN); mpfr_ui_div(r, 1, r, MPFR_RNDN); } },
					 { "log10e", log10e_v<T>, [](mpfr_ptr r) { mpfr_log_ui(r, 10, MPFR_RNDN); mpfr_ui_div(r, 1, r, MPFR_RNDN); } },
					 { "pi", pi_v<T>, pi },
					 { "inv_pi", inv_pi_v<T>, [&](mpfr_ptr r) { pi(r); mpfr_ui_div(r, 1, r, MPFR_RNDN); } },
					 { "inv_sqrtpi", inv_sqrtpi_v<T>, [&](mpfr_ptr r) { pi(r); mpfr_rec_sqrt(r, r, MPFR_RNDN); } },
					 { "ln2", ln2_v<T>, [](mpfr_ptr r) { mpfr_const_log2(r, MPFR_RNDN); } },
					 { "ln10", ln10_v<T>, [](mpfr_ptr r) { mpfr_log_ui(r, 10, MPFR_RNDN); } },
					 { "sqrt2", sqrt2_v<T>, [](mpfr_ptr r) { mpfr_sqrt_ui(r, 2, MPFR_RNDN); } },
					 { "sqrt3", sqrt3_v<T>, [](mpfr_ptr r) { mpfr_sqrt_ui(r, 3, MPFR_RNDN); } },
					 { "inv_sqrt3", inv_sqrt3_v<T>, [](mpfr_ptr r) { mpfr_set_ui(r, 3, MPFR_RNDN); mpfr_rec_sqrt(r, r, MPFR_RNDN); } },
					 { "egamma", egamma_v<T>, [](mpfr_ptr r) { mpfr_const_euler(r, MPFR_RNDN); } },
					 { "phi", phi_v<T>, [](mpfr_ptr r) { mpfr_sqrt_ui(r, 5, MPFR_RNDN); mpfr_add_ui(r, r, 1, MPFR_RNDN); mpfr_div_ui(r, r, 2, MPFR_RNDN); } } };
	for (auto & c : cs)
	{
		Mp m(300);
		c.f(m);
		const T want = std::is_same_v<T, float> ? (T)mpfr_get_flt(m, MPFR_RNDN) : std::is_same_v<T, double> ? (T)mpfr_get_d(m, MPFR_RNDN) : (T)mpfr_get_ld(m, MPFR_RNDN);
		mon::self().ev++;
		mon::self().ck++;
		mon::cover(hash_str(c.n) + sizeof(T));
		if (!same(c.got, want)) mon::violation(std::string("numbers/") + c.n, mon::fmt("ccm::numbers::%s_v<%s> is %s, nearest is %s", c.n, tn<T>(), show(c.got).c_str(), show(want).c_str()));
	}
}

static void nans(Rng & r)
{
	// a digit string that fits the payload names a quiet positive NaN with that payload
	char s[64];
	const int w = r.range(1, 51);
	std::uint64_t p = (r.next() >> (64 - w));
	const bool hex = r.next() & 1;
	std::snprintf(s, sizeof s, hex ? ((r.next() & 1) ? "0x%llx" : "0X%llX") : "%llu", (unsigned long long)p);
	mon::self().ev += 3;
	mon::self().ck += 3;
	mon::cover(mon::mix(p) ^ 0x77);
	if (w <= 49) // what fits 15 decimal digits in either spelling
	{
		const std::uint64_t b = bits(ccm::nan(s));
		if (b != (0x7ff8000000000000ull | p)) mon::violation("nan/payload", mon::fmt("nan(\"%s\") has bits %016llx", s, (unsigned long long)b));
	}
	if (p < (1u << 22) && p < 10000000)
	{
		const std::uint32_t b = bits(ccm::nanf(s));
		if (b != (0x7fc00000u | (std::uint32_t)p)) mon::violation("nanf/payload", mon::fmt("nanf(\"%s\") has bits %08x", s, b));
	}
	if (!is_nan(ccm::nanl(s)) || is_snan(ccm::nanl(s))) mon::violation("nanl", mon::fmt("nanl(\"%s\") is not a quiet NaN", s));
	// whatever the string, the result is a quiet NaN
	int n = r.range(0, 30);
	static const char al[] = "0123456789abcdefABCDEFxX_. -+gG";
	for (int i = 0; i < n; ++i) s[i] = al[r.below(r.below(3) ? 10 : sizeof al - 1)];
	s[n] = 0;
	const double d = ccm::nan(s);
	const float f  = ccm::nanf(s);
	const long double l = ccm::nanl(s);
	if (!is_nan(d) || is_snan(d) || neg(d)) mon::violation("nan/quiet", mon::fmt("nan(\"%s\") is %s", s, show(d).c_str()));
	if (!is_nan(f) || is_snan(f) || neg(f)) mon::violation("nanf/quiet", mon::fmt("nanf(\"%s\") is %s", s, show(f).c_str()));
	if (!is_nan(l) || is_snan(l) || neg(l)) mon::violation("nanl/quiet", mon::fmt("nanl(\"%s\") is %s", s, show(l).c_str()));
}

#define T_U(fn) X_U(fn, fn##f, float) X_U(fn, fn##l, long double)
#define X_U(fn, sfn, T) jobs.push_back([] { loop(#sfn, "", [](Rng & r) { T x = value<T>(r); if (slow(#fn, x)) return; judge<T>(#sfn, "", ccm::sfn(x), ccm::fn(x), x); }); });
#define T_B(fn) X_B(fn, fn##f, float) X_B(fn, fn##l, long double)
#define X_B(fn, sfn, T) jobs.push_back([] { loop(#sfn, "", [](Rng & r) { T x = value<T>(r), y = value<T>(r); judge<T>(#sfn, "", ccm::sfn(x, y), ccm::fn(x, y), x, y); }); });
static bool slow(const char * fn, long double x)
{ return strstr(fn, "gamma") && std::fabs(x) > 1e5L; }

int main(int argc, char ** argv)
{
	mon::init(argc, argv);
	N	 = (int)(2000 * (mon::args.budget > 0 ? mon::args.budget : 1));
	SEED = mon::args.seed;
	std::vector<std::function<void()>> jobs;
	GROUP_U(fabs) GROUP_U(exp) GROUP_U(exp2) GROUP_U(expm1) GROUP_U(log) GROUP_U(log2) GROUP_U(log10) GROUP_U(log1p) GROUP_U(sin) GROUP_U(cos) GROUP_U(tan) GROUP_U(asin) GROUP_U(acos) GROUP_U(atan) GROUP_U(sqrt)
	GROUP_U(ceil) GROUP_U(floor) GROUP_U(trunc) GROUP_U(round) GROUP_U(rint) GROUP_U(nearbyint)
	GROUP_Z(isnan) GROUP_Z(isinf) GROUP_Z(isfinite) GROUP_Z(isnormal) GROUP_Z(signbit)
	jobs.push_back([] { // gamma of a huge integer is slow and settled by A07
		loop("tgamma", "int", [](Rng & r) { int x = r.range(-200, 200); judge<double>("tgamma", "int", ccm::tgamma(x), ccm::tgamma((double)x), x); });
		loop("lgamma", "long", [](Rng & r) { long x = r.range(-2000, 2000); judge<double>("lgamma", "long", ccm::lgamma(x), ccm::lgamma((double)x), x); });
	});
	jobs.push_back([] { // abs keeps the integer type
		loop("abs", "int", [](Rng & r) { int x = value<int>(r); if (x != INT_MIN) judge<int>("abs", "int", ccm::abs(x), x < 0 ? -x : x, x); });
		loop("abs", "long", [](Rng & r) { long x = value<long>(r); if (x != LONG_MIN) judge<long>("abs", "long", ccm::abs(x), x < 0 ? -x : x, x); });
		loop("abs", "long long", [](Rng & r) { long long x = value<long long>(r); if (x != LLONG_MIN) judge<long long>("abs", "long long", ccm::abs(x), x < 0 ? -x : x, x); });
	});
#define P(G) jobs.push_back([] { G });
	P(FP_MIX(MIX_B, pow)) P(FI_MIX(MIX_POW, pow)) P(II_SAME(MIX_B, pow))
	P(FP_MIX(MIX_B, fdim)) P(II_SAME(MIX_B, fdim)) P(II_SAME(MIX_B, remainder)) P(II_SAME(MIX_B, copysign))
	P(FP_MIX(MIX_B, fmod)) P(FI_MIX(MIX_B, fmod)) P(II_SAME(MIX_B, fmod)) P(II_MIX(MIX_B, fmod))
	P(FP_MIX(MIX_B, nextafter)) P(FI_MIX(MIX_B, nextafter)) P(II_SAME(MIX_B, nextafter))
	P(FP_MIX(MIX_B, fmax)) P(FI_MIX(MIX_B, fmax)) P(II_SAME(MIX_B, fmax)) P(FP_MIX(MIX_B, fmin)) P(FI_MIX(MIX_B, fmin))
	P(FP_MIX(MIX_B, max)) P(FI_MIX(MIX_B, max)) P(FP_MIX(MIX_B, min)) P(FI_MIX(MIX_B, min))
	P(FP_MIX(MIX_Z, isgreater)) P(FI_MIX(MIX_Z, isgreater)) P(II_SAME(MIX_Z, isgreater)) P(FP_MIX(MIX_Z, isgreaterequal)) P(FI_MIX(MIX_Z, isgreaterequal)) P(II_SAME(MIX_Z, isgreaterequal))
	P(FP_MIX(MIX_Z, isless)) P(FI_MIX(MIX_Z, isless)) P(II_SAME(MIX_Z, isless)) P(FP_MIX(MIX_Z, islessequal)) P(FI_MIX(MIX_Z, islessequal)) P(II_SAME(MIX_Z, islessequal))
	P(FP_MIX(MIX_Z, islessgreater)) P(FI_MIX(MIX_Z, islessgreater)) P(II_SAME(MIX_Z, islessgreater)) P(FP_MIX(MIX_Z, isunordered)) P(FI_MIX(MIX_Z, isunordered)) P(II_SAME(MIX_Z, isunordered))
	jobs.push_back([] {
		// integer minima and maxima stay exact integers
		loop("max", "long", [](Rng & r) { long a = value<long>(r), b = r.below(3) ? value<long>(r) : a + r.range(0, 1); judge<long>("max", "long", ccm::max(a, b), a > b ? a : b, a, b); judge<long>("min", "long", ccm::min(a, b), a < b ? a : b, a, b); });
		loop("max", "unsigned", [](Rng & r) { unsigned a = value<unsigned>(r), b = value<unsigned>(r); judge<unsigned>("max", "unsigned", ccm::max(a, b), a > b ? a : b, a, b); judge<unsigned>("min", "unsigned", ccm::min(a, b), a < b ? a : b, a, b); });
		loop("max", "int,long", [](Rng & r) { int a = value<int>(r); long b = value<long>(r); judge<long>("max", "int,long", ccm::max(a, b), a > b ? (long)a : b, a, b); judge<long>("min", "int,long", ccm::min(a, b), a < b ? (long)a : b, a, b); });
	});
	jobs.push_back([] {
		auto three = [](auto a, auto b, auto c, const char * t) {
			using R0 = std::common_type_t<decltype(a), decltype(b), decltype(c)>;
			using R	 = std::conditional_t<std::is_integral_v<R0>, double, R0>;
			judge<R>("hypot", t, ccm::hypot(a, b, c), ccm::hypot((R)a, (R)b, (R)c), a, b, c);
			if constexpr (!std::is_integral_v<R0>) judge<R>("lerp", t, ccm::lerp(a, b, c), ccm::lerp((R)a, (R)b, (R)c), a, b, c);
			if constexpr (!std::is_integral_v<R0>) judge<R>("fma", t, ccm::fma(a, b, c), ccm::fma((R)a, (R)b, (R)c), a, b, c);
		};
		loop("three", "1", [&](Rng & r) { three(value<float>(r), value<double>(r), value<float>(r), "float,double,float"); });
		loop("three", "2", [&](Rng & r) { three(value<int>(r), value<double>(r), value<float>(r), "int,double,float"); });
		loop("three", "3", [&](Rng & r) { three(value<float>(r), value<long double>(r), value<double>(r), "float,long double,double"); });
		loop("three", "4", [&](Rng & r) { three(value<int>(r), value<int>(r), value<int>(r), "int,int,int"); });
		loop("three", "5", [&](Rng & r) { three(value<long>(r), value<short>(r), value<unsigned>(r), "long,short,unsigned"); });
	});
	jobs.push_back([] {
		auto rq = [](auto a, auto b, const char * t) {
			using R = Common<decltype(a), decltype(b)>;
			int q = 0, p = 0;
			const auto got	= ccm::remquo(a, b, &q);
			const R	   want = ccm::remquo((R)a, (R)b, &p);
			judge<R>("remquo", t, got, want, a, b);
			if (!is_nan(want) && q != p) mon::violation(std::string("remquo/quo/") + t, mon::fmt("remquo(%s) stores %d, the promoted call %d", list(a, b).c_str(), q, p));
		};
		loop("remquo", "1", [&](Rng & r) { rq(value<float>(r), value<double>(r), "float,double"); });
		loop("remquo", "2", [&](Rng & r) { rq(value<long double>(r), value<double>(r), "long double,double"); });
		loop("remquo", "3", [&](Rng & r) { rq(value<int>(r), value<int>(r), "int,int"); });
		loop("remquo", "4", [&](Rng & r) { rq(value<int>(r), value<double>(r), "int,double"); });
		loop("remquo", "5", [&](Rng & r) { rq(value<unsigned>(r), value<unsigned>(r), "unsigned,unsigned"); });
	});
	jobs.push_back([] {
		loop("ldexp", "int", [](Rng & r) { int x = value<int>(r), n = r.range(-1200, 1200); judge<double>("ldexp", "int", ccm::ldexp(x, n), ccm::ldexp((double)x, n), x, n); judge<double>("scalbn", "int", ccm::scalbn(x, n), ccm::scalbn((double)x, n), x, n);
			judge<double>("scalbln", "int", ccm::scalbln(x, (long)n), ccm::scalbln((double)x, (long)n), x, n); });
		loop("ldexp", "long", [](Rng & r) { long x = value<long>(r); int n = r.range(-1200, 1200); judge<double>("ldexp", "long", ccm::ldexp(x, n), ccm::ldexp((double)x, n), x, n); });
		loop("nexttoward", "int", [](Rng & r) { int x = value<int>(r); long double t = value<long double>(r); judge<double>("nexttoward", "int", ccm::nexttoward(x, t), ccm::nexttoward((double)x, t), x, t); });
	});
	if (wanted("constants")) jobs.push_back([] { constants<float>(); constants<double>(); constants<long double>(); });
	if (wanted("nan")) jobs.push_back([] { Rng r(SEED ^ 0x9a9); for (int i = 0; i < 4 * N; ++i) nans(r); });
	T_U(fabs) T_U(exp) T_U(exp2) T_U(expm1) T_U(log) T_U(log2) T_U(log10) T_U(log1p) T_U(sin) T_U(cos) T_U(tan) T_U(asin) T_U(acos) T_U(atan) T_U(sqrt) T_U(cbrt) T_U(ceil) T_U(floor) T_U(trunc) T_U(round) T_U(rint)
	T_U(nearbyint) T_U(logb) T_U(tgamma) T_U(lgamma) T_U(nextup) T_U(nextdown)
	T_B(fdim) T_B(fmax) T_B(fmod) T_B(remainder) T_B(copysign) T_B(nextafter) T_B(atan2) T_B(hypot) T_B(pow)
	jobs.push_back([] {
		loop("ldexpf", "", [](Rng & r) { float x = value<float>(r); int n = r.range(-300, 300); judge<float>("ldexpf", "", ccm::ldexpf(x, n), ccm::ldexp(x, n), x, n); judge<float>("scalbnf", "", ccm::scalbnf(x, n), ccm::scalbn(x, n), x, n); judge<float>("scalblnf", "", ccm::scalblnf(x, n), ccm::scalbln(x, (long)n), x, n); });
		loop("ldexpl", "", [](Rng & r) { long double x = value<long double>(r); int n = r.range(-17000, 17000); judge<long double>("ldexpl", "", ccm::ldexpl(x, n), ccm::ldexp(x, n), x, n); judge<long double>("scalbnl", "", ccm::scalbnl(x, n), ccm::scalbn(x, n), x, n); judge<long double>("scalblnl", "", ccm::scalblnl(x, n), ccm::scalbln(x, (long)n), x, n); });
		loop("ilogbf", "", [](Rng & r) { float x = value<float>(r); long double y = value<long double>(r); judge<int>("ilogbf", "", ccm::ilogbf(x), ccm::ilogb(x), x); judge<int>("ilogbl", "", ccm::ilogbl(y), ccm::ilogb(y), y); });
		loop("modff", "", [](Rng & r) { float x = value<float>(r), p = 0, q = 0; judge<float>("modff", "", ccm::modff(x, &p), ccm::modf(x, &q), x); judge<float>("modff", "ip", p, q, x); });
		loop("modfl", "", [](Rng & r) { long double x = value<long double>(r), p = 0, q = 0; judge<long double>("modfl", "", ccm::modfl(x, &p), ccm::modf(x, &q), x); judge<long double>("modfl", "ip", p, q, x); });
		loop("remquof", "", [](Rng & r) { float x = value<float>(r), y = value<float>(r); int p = 0, q = 0; judge<float>("remquof", "", ccm::remquof(x, y, &p), ccm::remquo(x, y, &q), x, y); if (!is_nan(x - y) && p != q) mon::violation("remquof/quo", "remquof(" + list(x, y) + ") stores another quotient than remquo"); });
		loop("remquol", "", [](Rng & r) { long double x = value<long double>(r), y = value<long double>(r); int p = 0, q = 0; judge<long double>("remquol", "", ccm::remquol(x, y, &p), ccm::remquo(x, y, &q), x, y); if (!is_nan(x - y) && p != q) mon::violation("remquol/quo", "remquol(" + list(x, y) + ") stores another quotient than remquo"); });
		loop("fmaf", "", [](Rng & r) { float x = value<float>(r), y = value<float>(r), z = value<float>(r); judge<float>("fmaf", "", ccm::fmaf(x, y, z), ccm::fma(x, y, z), x, y, z); });
		loop("nexttowardf", "", [](Rng & r) { float x = value<float>(r); long double y = value<long double>(r); judge<float>("nexttowardf", "", ccm::nexttowardf(x, y), ccm::nexttoward(x, y), x, y); });
		loop("nexttowardl", "", [](Rng & r) { long double x = value<long double>(r), y = value<long double>(r); judge<long double>("nexttowardl", "", ccm::nexttowardl(x, y), ccm::nexttoward(x, y), x, y); });
		loop("fmal", "", [](Rng & r) { long double x = value<long double>(r), y = value<long double>(r), z = value<long double>(r); judge<long double>("fmal", "", ccm::fmal(x, y, z), ccm::fma(x, y, z), x, y, z); });
		loop("scalbnf", "long", [](Rng & r) { float x = value<float>(r); long n = r.below(8) ? (long)r.range(-300, 300) : value<long>(r); judge<float>("scalbnf", "float,long", ccm::scalbnf(x, n), ccm::scalbn(x, n), x, n); });
		loop("scalbnl", "long", [](Rng & r) { long double x = value<long double>(r); long n = r.below(8) ? (long)r.range(-17000, 17000) : value<long>(r); judge<long double>("scalbnl", "long double,long", ccm::scalbnl(x, n), ccm::scalbn(x, n), x, n); });
		loop("labs", "", [](Rng & r) { long x = value<long>(r); if (x != LONG_MIN) judge<long>("labs", "", ccm::labs(x), x < 0 ? -x : x, x); });
		loop("llabs", "", [](Rng & r) { long long x = value<long long>(r); if (x != LLONG_MIN) judge<long long>("llabs", "", ccm::llabs(x), x < 0 ? -x : x, x); });
		loop("gamma", "", [](Rng & r) {
			float x = value<float>(r); double y = value<double>(r); long double z = value<long double>(r); int n = r.range(-200, 200);
			if (!slow("gamma", x)) judge<float>("gamma", "float", ccm::gamma(x), ccm::tgamma(x), x);
			if (!slow("gamma", y)) judge<double>("gamma", "double", ccm::gamma(y), ccm::tgamma(y), y);
			if (!slow("gamma", z)) judge<long double>("gamma", "long double", ccm::gamma(z), ccm::tgamma(z), z);
			judge<double>("gamma", "int", ccm::gamma(n), ccm::tgamma(n), n);
		});
		loop("frexp", "", [](Rng & r) { // pointer and reference forms, all types
			auto fx = [](auto x, auto sfx, const char * t) {
				using T = decltype(x);
				int a = 77, b = 78, c = 79, d = 80;
				const T m = ccm::frexp(x, &a), k = ccm::frexp(x, b);
				judge<T>("frexp", std::string(t) + "&", k, m, x);
				if (std::isfinite(x) && a != b) mon::violation(std::string("frexp/exp/") + t, mon::fmt("frexp(%s) stores exponent %d through the reference, %d through the pointer", str(x).c_str(), b, a));
				if constexpr (!std::is_same_v<T, double>)
				{
					judge<T>("frexp", std::string(t) + " suffixed", sfx(x, &c), m, x);
					judge<T>("frexp", std::string(t) + " suffixed&", sfx(x, d), m, x);
					if (std::isfinite(x) && (a != c || a != d)) mon::violation(std::string("frexp/exp/") + t, mon::fmt("frexp of %s stores exponent %d, the suffixed name %d and %d", str(x).c_str(), a, c, d));
				}
			};
			fx(value<float>(r), [](float x, auto && e) { return ccm::frexpf(x, e); }, "float");
			fx(value<double>(r), [](double x, auto && e) { return ccm::frexp(x, e); }, "double");
			fx(value<long double>(r), [](long double x, auto && e) { return ccm::frexpl(x, e); }, "long double");
		});
	});
	mon::parallel(jobs.size(), [&](std::uint64_t c) { jobs[c](); });
	return mon::finish();
}
