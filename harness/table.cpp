// One ccmath configuration as a table of callable entry points.
#include <array>
#include <bitset>
#include <cerrno>
#include <cfenv>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef CCMV_FORCE_CE
// Runs the code ccmath selects for constant evaluation at run time, so that the monitors can
// observe it on arbitrary inputs. ccmath consults the builtin only through
// ccm::support::is_constant_evaluated().
#define __builtin_is_constant_evaluated() true
#endif
#include <ccmath/ccmath.hpp>
#include "ccmv_abi.hpp"

#define NI __attribute__((noinline))

template <class F> struct W;

#define U1(N) template <class T> static NI T w_##N(T x) { return ccm::N(x); }
#define B1(N) template <class T> static NI T w_##N(T x, T y) { return ccm::N(x, y); }
#define T1(N) template <class T> static NI T w_##N(T x, T y, T z) { return ccm::N(x, y, z); }
#define ZU1(N) template <class T> static NI int w_##N(T x) { return ccm::N(x); }
#define ZB1(N) template <class T> static NI int w_##N(T x, T y) { return ccm::N(x, y); }

#define ALL_U(X) X(fabs) X(abs) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) \
	X(sqrt) X(cbrt) X(ceil) X(floor) X(trunc) X(round) X(rint) X(nearbyint) X(logb) X(tgamma) X(gamma) X(lgamma) X(nextup) X(nextdown)
#define ALL_B(X) X(fdim) X(fmax) X(fmin) X(max) X(min) X(fmod) X(remainder) X(copysign) X(nextafter) X(atan2) X(hypot) X(pow)
#define ALL_ZU(X) X(isnan) X(isinf) X(isfinite) X(isnormal) X(signbit) X(fpclassify) X(ilogb)
#define ALL_ZB(X) X(isgreater) X(isgreaterequal) X(isless) X(islessequal) X(islessgreater) X(isunordered)
ALL_U(U1)
ALL_B(B1)
ALL_ZU(ZU1)
ALL_ZB(ZB1)
template <class T> static NI T w_fma(T x, T y, T z) { return ccm::fma(x, y, z); }
template <class T> static NI T w_lerp(T x, T y, T z) { return ccm::lerp(x, y, z); }
template <class T> static NI T w_hypot3(T x, T y, T z) { return ccm::hypot(x, y, z); }
template <class T> static NI T w_ldexp(T x, int e) { return ccm::ldexp(x, e); }
template <class T> static NI T w_scalbn(T x, int e) { return ccm::scalbn(x, e); }
template <class T> static NI T w_scalbnl_(T x, long e) { return ccm::scalbn(x, e); }
template <class T> static NI T w_scalbln(T x, long e) { return ccm::scalbln(x, e); }
template <class T> static NI T w_modf(T x, T * p) { return ccm::modf(x, p); }
template <class T> static NI T w_frexp(T x, int * p) { return ccm::frexp(x, p); }
template <class T> static NI T w_frexp_ref(T x, int * p) { return ccm::frexp(x, *p); }
template <class T> static NI T w_remquo(T x, T y, int * q) { return ccm::remquo(x, y, q); }
template <class T> static NI T w_nexttoward(T x, long double y) { return ccm::nexttoward(x, y); }
static NI float w_nanf(const char * s) { return ccm::nanf(s); }
static NI double w_nan(const char * s) { return ccm::nan(s); }
static NI long double w_nanl(const char * s) { return ccm::nanl(s); }

// suffixed spellings
#define SUF_U(X) X(fabs) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sqrt) X(cbrt) \
	X(ceil) X(floor) X(trunc) X(round) X(rint) X(nearbyint) X(logb) X(tgamma) X(lgamma) X(nextup) X(nextdown)
#define SUF_B(X) X(fdim) X(fmax) X(fmod) X(remainder) X(copysign) X(nextafter) X(atan2) X(hypot) X(pow)
#define SFX_U(N) static NI float s_##N##f(float x) { return ccm::N##f(x); } static NI long double s_##N##l(long double x) { return ccm::N##l(x); }
#define SFX_B(N) static NI float s_##N##f(float x, float y) { return ccm::N##f(x, y); } static NI long double s_##N##l(long double x, long double y) { return ccm::N##l(x, y); }
SUF_U(SFX_U)
SUF_B(SFX_B)

#define EU(N) { #N, 'f', K_U, (void *)&w_##N<float> }, { #N, 'd', K_U, (void *)&w_##N<double> }, { #N, 'l', K_U, (void *)&w_##N<long double> },
#define EB(N) { #N, 'f', K_B, (void *)&w_##N<float> }, { #N, 'd', K_B, (void *)&w_##N<double> }, { #N, 'l', K_B, (void *)&w_##N<long double> },
#define E3(N, K) { #N, 'f', K, (void *)&w_##N<float> }, { #N, 'd', K, (void *)&w_##N<double> }, { #N, 'l', K, (void *)&w_##N<long double> },
#define EZU(N) E3(N, K_ZU)
#define EZB(N) E3(N, K_ZB)
#define ESU(N) { #N "f", 'f', K_U, (void *)&s_##N##f }, { #N "l", 'l', K_U, (void *)&s_##N##l },
#define ESB(N) { #N "f", 'f', K_B, (void *)&s_##N##f }, { #N "l", 'l', K_B, (void *)&s_##N##l },

static const CcmvFn fns[] = {
	ALL_U(EU) ALL_B(EB) ALL_ZU(EZU) ALL_ZB(EZB) SUF_U(ESU) SUF_B(ESB)
	E3(fma, K_T) E3(lerp, K_T) E3(hypot3, K_T) E3(ldexp, K_UI) E3(scalbn, K_UI) E3(scalbnl_, K_UL) E3(scalbln, K_UL) E3(modf, K_MODF)
	E3(frexp, K_FREXP) E3(frexp_ref, K_FREXP) E3(remquo, K_REMQUO) E3(nexttoward, K_NT)
	{ "nan", 'f', K_NAN, (void *)&w_nanf }, { "nan", 'd', K_NAN, (void *)&w_nan }, { "nan", 'l', K_NAN, (void *)&w_nanl },
};
#ifndef CCMV_NAME
#define CCMV_NAME "?"
#endif
static const CcmvTable tab = { CCMV_NAME, (int)(sizeof(fns) / sizeof(fns[0])), fns };
extern "C" __attribute__((visibility("default"))) const CcmvTable * ccmv_table() { return &tab; }
