// Shared, C-only ABI between a variant (a shared object holding ccmath compiled in one
// configuration) and the drivers that observe it.
#pragma once
enum CcmvKind
{
	K_U = 0,	// T f(T)
	K_B,		// T f(T,T)
	K_T,		// T f(T,T,T)
	K_UI,		// T f(T,int)
	K_UL,		// T f(T,long)
	K_IU,		// int f(T)
	K_ZU,		// bool f(T)      (as int)
	K_ZB,		// bool f(T,T)    (as int)
	K_MODF,		// T f(T,T*)
	K_FREXP,	// T f(T,int*)
	K_REMQUO,	// T f(T,T,int*)
	K_NT,		// T f(T,long double)
	K_NAN,		// T f(const char*)
	K_D_I,		// double f(long long)     integer overload
	K_D_II		// double f(int,int)       integer overload
};
struct CcmvFn
{
	const char * name;
	char ty; // 'f','d','l'
	int kind;
	void * fn;
};
struct CcmvTable
{
	const char * variant;
	int n;
	const CcmvFn * fns;
};
struct CcmvRow // one call made in a constant expression
{
	const char * fn;
	char ty;
	long double a[3]; // exact images of the arguments
	long n;
	long double ld;
	const char * s;
	long double v, w; // result and out-parameter
	int i;
};
