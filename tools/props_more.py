# Executed by props.py: the cross-cutting properties and the parts beside <cmath>.
CMP_N = "Tested, not proved: holds on the executions observed."

prop("C01", "Calls agree with one another through the identities that hold exactly",
     "In every supported build sin, tan, cbrt, trunc, round, rint, nearbyint and fma are odd and cos, fabs, hypot and pow with an integral exponent have their parity; results stay in the exact range of the function (|sin| <= 1, atan within pi/2, exp >= 0, log of the sign of x-1, fmod below the divisor, hypot no less than its arguments). "
     "frexp and ldexp, modf and trunc, nextup, nextdown, nextafter and nexttoward, logb, ilogb and frexp, remainder, remquo and fmod, fma under commutation and power-of-two scaling, hypot's forms, ceil and floor, fdim, fmax and the comparisons fit together exactly to nearest.",
     ["inputs", "configurations"], "Every argument, pair or triple of every type, on every supported build, rounding to nearest. Excepted: the long double transcendental functions of the deterministic mode and of constant evaluation without builtins, which are the double ones, and the parity of asin, atan and atan2 there.",
     "The suite tests each function alone against sampled values; whether two functions fit together, or the two signs of one argument are treated alike, is a statement about all arguments.",
     [I + "math", G, S + "fp", R],
     [("separate generic and runtime implementations per function", G), ("bit-level operations shared by several functions", S + "fp")],
     ["return values of the public functions, compared with one another"], None, "metamorphic runtime monitor: exact relations between calls, directed and random executions on all builds", CMP_N)

prop("C02", "A constant expression has the value of the call at run time",
     "Every public function can be evaluated in a constant expression, for arguments other than NaN that raise no floating-point error, on GCC and Clang in C++17 and C++20. "
     "The value is bit for bit the one the same code gives when run (the compiler's builtin or ccmath's constant-evaluation path), and the exact functions have the value of the ordinary run-time call.",
     ["inputs", "configurations"], "Every function, type and overload, every argument that raises no error, both compilers and language versions; rounding to nearest.",
     "The suite has a few static_asserts per function; the paths taken in constant evaluation differ from those taken at run time, so running the suite does not exercise them.",
     [I + "math", I + "internal/math/generic/builtins", S + "is_constant_evaluated.hpp", G],
     [("is_constant_evaluated dispatch", S + "is_constant_evaluated.hpp"), ("builtin constexpr gates", I + "internal/math/generic/builtins"), ("generic kernels written as constexpr", G)],
     ["constexpr tables produced by the compilers, read back at run time"], None,
     "differential runtime monitor: recorded results of constant evaluation against the executed code", CMP_N + " The compilers' constant folding of basic operations is trusted.")

prop("C03", "Deterministic mode gives the same bits whatever the build",
     "With CCM_CONFIG_DETERMINISTIC every public function returns the same bits for the same arguments, rounding to nearest, whichever compiler, optimisation level or instruction set (hardware FMA, AVX) the program is built with. Only the sign and payload of NaN are free.",
     ["inputs", "configurations"], "Every function and argument of every type, in the four rounding modes; GCC and Clang, -O0 to -O3, with and without FMA and AVX.",
     "The suite runs in one build; a contraction to FMA, a different operation order or a builtin that differs between libraries changes a last bit only for particular arguments in another build.",
     [I + "internal/config", G, R, S + "multiply_add.hpp", S + "poly_eval.hpp"],
     [("explicit multiply-add and polynomial evaluation order", S + "multiply_add.hpp"), ("builtins disabled in deterministic mode", I + "internal/config")],
     ["return values of the same call on five builds"], None, "differential runtime monitor: lock-step execution of five deterministic builds, bit-for-bit comparison", CMP_N)

prop("C04", "Calls leave the floating-point environment and errno to their documented effects",
     "No call changes the rounding mode or any control bit, clears a flag that was raised or a stored errno, or stores an errno other than EDOM and ERANGE. "
     "The exact functions (fabs, ceil, floor, trunc, round, nearbyint, copysign, the minima and maxima, fmod, remainder, modf, frexp, the comparisons and classifications) raise no flag and store no errno unless an argument or the result is NaN. "
     "At run time a domain error raises invalid and stores EDOM (fma, lerp and remquo store nothing), an infinite result of finite arguments raises overflow or divide-by-zero, and divide-by-zero appears only with an infinite and invalid only with a NaN result. "
     "Excepted: the overflow flag of the exp family and lgamma on builds whose compiler folds it, and the extra flags of long double pow and fma, ilogb, lgamma and lerp.",
     ["inputs", "configurations"], "Every public function and argument of every type in the four rounding modes on five builds.",
     "A leaked rounding mode or a spurious flag does not change the value the suite checks; it appears on the branches that scale or switch modes, for some arguments.",
     [S + "fenv", I + "math", R, S + "fp"],
     [("rounding-mode access and exception raising", S + "fenv"), ("special-case handling in the kernels", I + "math/expo/impl")],
     ["status and control words of x87 and SSE, and errno, before and after each call"], None, "runtime monitor of the floating-point status and control words and errno around every call", CMP_N)

prop("C05", "No call has undefined behaviour or touches memory out of bounds",
     "No argument to any public function, in any rounding mode or supported build, leads to undefined behaviour: no out-of-range shift, signed overflow, table index, out-of-range conversion, misaligned or out-of-bounds access or use of uninitialised memory. A call that writes through a pointer writes only there, and every call returns.",
     ["inputs", "configurations"], "Every public function and every argument, NaNs, infinities, subnormals and extreme exponents included; five builds including the code used in constant evaluation and the SIMD kernels.",
     "The suite runs without sanitizers on sampled values; an index or shift that leaves its range for one exponent usually returns something plausible.",
     [I + "math", G, R, S, T],
     [("table lookups and shifts by exponents", I + "math/expo/impl"), ("wide-integer shifts", T + "big_int.hpp"), ("float-to-integer conversions", S + "fp")],
     ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports"], None, "AddressSanitizer, UndefinedBehaviorSanitizer (float-cast-overflow included) and MemorySanitizer under directed and random workloads on five builds", CMP_N + " What the sanitizers do not instrument is out of reach.")

prop("C06", "Calls from several threads do not disturb one another",
     "Any public function may be called from any number of threads at once without a data race, each thread with its own rounding mode, and every call returns what it returns alone. Known exception: lgamma at run time writes the C library's signgam.",
     ["schedules", "inputs"], "Every schedule of concurrent calls of any functions with any arguments and per-thread rounding modes.",
     "The suite is single-threaded.",
     [I + "math", R, S + "fenv"],
     [("no mutable state shared by calls", I + "math"), ("thread-local rounding-mode access", S + "fenv")],
     ["ThreadSanitizer reports; results of concurrent calls against the same calls made alone"], None, "ThreadSanitizer on two builds and result comparison under concurrent stress with per-thread rounding modes",
     CMP_N + " ThreadSanitizer sees the races of the interleavings that occurred.")

prop("C07", "Every overload gives the value and type of the call in the promoted type",
     "The f and l suffixed functions, the overloads for integers and the mixed overloads that exist return the type and, bit for bit, the value of the call made in the promoted floating-point type, for every integer and floating-point argument; no overload recurses or is ambiguous for the arithmetic arguments it documents. "
     "nan, nanf and nanl give a quiet NaN with the payload their digits spell, and the mathematical constants are the nearest values of their type.",
     ["inputs", "configurations"], "Every overload and argument, extreme integers of every width included, on GCC C++17 and Clang C++20.",
     "The suite instantiates few of the overloads and integer types; an overload that was never instantiated can recurse for ever or round through the wrong type.",
     [I + "math", I + "math/basic/nan.hpp", I + "math/numbers.hpp"],
     [("enable_if overload sets at the end of each public header", I + "math/basic"), ("nan tag parsing", I + "math/basic/nan.hpp")],
     ["return type and value of each overload"], None, "differential runtime monitor: each overload against the call in the promoted type", CMP_N)

PW = I + "internal/math/generic/func/power/pow_impl/"
prop("D01", "Every lane of the vectorised pow is the scalar kernel's result",
     "pow_simd and powf_simd return in every lane, bit for bit, what the scalar pow and powf kernels return for that lane's arguments, for vectors of 2, 4 and 8 lanes (and 16 floats), in every rounding mode, whatever stands in the other lanes and whether or not the compiler fuses multiplications and additions. "
     "A vector call leaves errno as its scalar calls would together and, on GCC, raises the flags they raise together; the rounding mode is untouched.",
     ["inputs", "configurations"], "Every pair of base and exponent in every lane next to any others, the four rounding modes, GCC and Clang with and without AVX and FMA. Underflow is judged only where a result is tiny; flags are not judged on Clang, which is free to drop them.",
     "The suite compares a few vectors; a lane that takes a special path depends on its neighbours, and last-bit differences appear for a vanishing share of arguments on one instruction set.",
     [PW + "pow_simd_impl.hpp", PW + "powf_simd_impl.hpp", I + "internal/math/runtime/simd"],
     [("vectorised kernels and their lane fix-ups", PW + "pow_simd_impl.hpp"), ("scalar kernels", PW + "pow_impl.hpp")],
     ["lanes, flags and errno of vector calls against scalar calls"], None, "differential runtime monitor: vector lanes against the scalar kernel, directed and random executions on four builds, one with sanitizers", CMP_N)

prop("D02", "Every lane of the pp::simd vector types computes the scalar operation",
     "For every element type and lane count, construction, loads and stores, arithmetic, comparison, bit, shift, mask, selection, reduction, permutation, conversion and bit-cast operations of pp::simd act on each lane exactly as the scalar operation acts on that lane's values, masked forms touch only the selected lanes, stores write nothing outside their lanes, "
     "and every backend (compiler vector extension, intrinsics, plain array) gives the same lanes. min, max and their reductions return one of their operands; floating-point sums are within the error of some order of summation.",
     ["inputs", "configurations"], "Every element type, lane count, backend and lane content: ends of the integer types, special floating-point values and every pattern of mask.",
     "The suite tries a few vectors per operation on one backend.",
     [I + "internal/math/runtime/pp"],
     [("vector and mask types with one backend chosen at compile time", I + "internal/math/runtime/pp")],
     ["lanes of every operation against the scalar operation"], None, "differential runtime monitor: lanes against scalar operations on four backends, one with sanitizers", CMP_N)
prop("D03", "Every lane of the intrin::simd vector types computes the scalar operation",
     "For float and double and every ABI the target offers (scalar, SSE, AVX, AVX-512), loads and stores, broadcasts, arithmetic with vectors and scalars, negation, sqrt, comparisons, mask logic and choose of intrin::simd act on each lane exactly as the scalar operation acts on that lane's values, sizes are the lane counts of the ABI, and all_of and any_of describe the mask.",
     ["inputs", "configurations"], "Every lane content for every ABI on four builds.",
     "The suite covers a few values of the widest ABI; the rest never runs.",
     [I + "internal/math/runtime/simd"],
     [("per-ABI vector types", I + "internal/math/runtime/simd/simd_vectorize.hpp"), ("element-wise functions", I + "internal/math/runtime/simd/func")],
     ["lanes of every operation against the scalar operation"], None, "differential runtime monitor: lanes against scalar operations on four builds", CMP_N)
prop("E01", "The wide integers compute what integers of their width compute",
     "For every width, signedness and word type that can be instantiated, BigInt's construction and conversion, arithmetic, widening and high products, division (also by words and powers of two), shifts, rotations, bit operations, comparisons, bit counts, leading and trailing runs and limits give the exact integer result modulo 2^width, carries and remainders included, without undefined behaviour. quick_mul_hi is at most WORD_COUNT-1 below the high half of the exact product.",
     ["inputs", "configurations"], "Every operand of every width, shift counts within the width, on GCC and Clang.",
     "The suite tries a few operands; carries between words, sign extension and shifts by whole words need particular bit patterns.",
     [T + "big_int.hpp", T + "int128_types.hpp", T + "number_pair.hpp"],
     [("multiword carry chains", T + "big_int.hpp")],
     ["words of every result against GMP"], None, "differential runtime monitor: GMP oracle over directed and random executions on four builds, two with sanitizers", CMP_N)
prop("E02", "The multi-precision helper formats are exact or correctly rounded as promised",
     "DyadicFloat built from a float, double or long double is that value; conversion to a type with fewer digits is correctly rounded in the current rounding mode, overflow, gradual underflow and the IEEE flags of the signalling form included; rounded_mul and rounded_div are correctly rounded; quick_mul, quick_add, quick_sub and pow_n stay within the errors they document (sums within two units of the larger operand); mul_pow_2 and the conversions to integers are exact or rounded as asked. "
     "NormalizedFloat keeps nonzero finite values and scales them with correct rounding, and the double-double operations are exact or within a few 2^-104.",
     ["inputs", "configurations"], "Every pair of operands of 64 to 256 bits with exponents that matter to the formats, the four rounding modes, GCC and Clang with and without FMA.",
     "The suite samples a few values in one mode; ties, subnormal results and cancellations need particular bits.",
     [T + "dyadic_float.hpp", T + "double_double.hpp", T + "normalized_float.hpp"],
     [("rounding from the discarded bits", T + "dyadic_float.hpp"), ("error-free transformations", T + "double_double.hpp")],
     ["results and flags against MPFR"], None, "differential runtime monitor: MPFR oracle over directed and random executions on five builds, one with sanitizers", CMP_N)
prop("E03", "Encoding, bit, rounding and literal helpers do what they say",
     "FPBits and FPRep read and build every float, double and long double encoding as the format defines it (sign, exponent, significand, class, neighbours, make_value); the bit helpers (counting, widths, powers of two, rotations, masks, ctz) are exact; directional_round, nearest_integer and the casts round as asked; internal_ldexp, fp::op add, sub and mul are correctly rounded; error-free sums and products are exact; "
     "integer literals parse to their value.",
     ["inputs", "configurations"], "Every encoding of the three formats and every argument of the helpers in their domain, at run time and in constant evaluation, GCC and Clang.",
     "The suite samples a few encodings; the defects sit at all-ones significands, subnormals, 80-bit pseudo-encodings and full-width shifts.",
     [S + "fp/fp_bits.hpp", S + "bits.hpp", S + "fp/nearest_integer.hpp", S + "fp/ops/add_or_sub.hpp", S + "integer_literals.hpp"],
     [("encodings", S + "fp/fp_bits.hpp"), ("rounding helpers", S + "fp/directional_rounding_utils.hpp")],
     ["results against the definition of the format, GMP and MPFR"], None, "differential runtime monitor: format-definition, GMP and MPFR oracles over directed and random executions on four builds, one with sanitizers", CMP_N)
prop("C08", "Constant evaluation follows the configured rounding mode",
     "With CCM_CONSTEXPR_ROUNDING_MODE set to one of the four IEEE modes, fma, sqrt, rint and nearbyint of float, double and long double evaluated in constant expressions are correctly rounded in that mode, signs of zeros and overflow included, with every compiler; calls at run time keep following the thread's rounding mode.",
     ["inputs", "configurations"], "Every argument of the four functions, the four configured modes and the four thread modes, GCC and Clang.",
     "The suite compiles with the default mode only; a shortcut that folds in round-to-nearest needs the option and an inexact case.",
     [S + "fenv/rounding_mode.hpp", S + "fp/fma.hpp", I + "math/power/sqrt.hpp", I + "math/nearest/rint.hpp"],
     [("configured mode", S + "fenv/rounding_mode.hpp"), ("software fma", S + "fp/fma.hpp"), ("software square root", G + "power/sqrt_gen.hpp")],
     ["values the compiler folded and values the forced constant-evaluation code returned, against MPFR"], None, "differential runtime monitor: MPFR oracle over compiler-evaluated constants and executions of the constant-evaluation code in each configured mode", CMP_N)
prop("C09", "Build options that promise speed change no result",
     "CCM_CONFIG_USE_RT_SIMD (run-time SIMD), CCM_CONFIG_DISABLE_ERRNO, the inlining options and the language standard change no bit of any result of any public function rounding to nearest, nor of the exact and correctly rounded functions in any rounding mode; with CCM_CONFIG_DISABLE_ERRNO, ccmath's own kernels (deterministic mode: exponentials, logarithms, powers, trigonometry, gamma, hypot, cbrt, fma) never store errno.",
     ["inputs", "configurations"], "Every function and argument, in pairs of builds that differ in one option.",
     "The suite is built with one set of options at a time; a path taken only with one of them differs in a sliver of the arguments.",
     [S + "fenv/fenv_support.hpp", R, R + "rt_dispatch.hpp"],
     [("errno gate", S + "fenv/fenv_support.hpp"), ("run-time SIMD paths", R)],
     ["return values of builds side by side, errno around each call"], None, "differential runtime monitor: bit comparison of builds that differ in one option over directed and random executions", CMP_N)
E_ = I + "ext/"
prop("F01", "The integer extension helpers are exact for every representable result",
     "align, align_up, align_down, ceil_div, abs_diff, sign, step, clamp, is_power_of_two and ispow2 (and their safe forms) give the mathematical result for every integer type and every argument for which it is representable and the helper is defined, without overflow on the way, in constant evaluation too.",
     ["inputs", "configurations"], "Every integer type and argument within each helper's documented domain, on four builds.",
     "The suite tries a handful of small arguments; overflow on the way to a representable result needs arguments near the ends of the type.",
     [E_ + "align.hpp", E_ + "ceil_div.hpp", E_ + "abs_diff.hpp", E_ + "sign.hpp", E_ + "is_power_of_two.hpp"],
     [("helpers", E_ + "ceil_div.hpp")], ["return values against 128-bit arithmetic"], None, "differential runtime monitor: 128-bit integer oracle over directed and random executions on four builds, one with sanitizers", CMP_N)
prop("F02", "Interpolation and range helpers obey their laws",
     "lerp is exact at 0 and 1, monotonic in t, bounded for t in [0, 1] and consistent (equal ends give that end); mix, remap, unlerp, inverse_lerp, normalize, smoothstep, lerp_smooth, cubic, move_towards and rcp (and their safe forms) return the value of their defining expression within a few ULP of the magnitudes involved, stay within the range they promise and reach their ends exactly; clamp, saturate, step, sign, chgsign and approximately are exact. Constant evaluation gives the run-time value.",
     ["inputs", "configurations"], "Every triple of arguments in each helper's domain in float, double and long double, on four builds.",
     "The suite tries a handful of arguments; range violations come from rounding at particular values.",
     [I + "math/misc/lerp.hpp", E_ + "remap.hpp", E_ + "smoothstep.hpp", E_ + "move_towards.hpp", E_ + "clamp.hpp"],
     [("lerp's branches by sign and end", I + "math/misc/lerp.hpp"), ("helpers", E_ + "remap.hpp")], ["return values against quad arithmetic and laws"], None, "runtime monitor: quad-precision oracle and law checker over directed and random executions on four builds, one with sanitizers", CMP_N)
prop("F03", "Periodic and angle helpers stay in range and are accurate",
     "repeat lies in [0, length), ping_pong in [0, length], fract is the distance to the floor, delta_angle in [-180, 180] and each is the exact remainder within rounding; lerp_angle and move_towards_angle take the shorter way, do not overshoot and reach their target; degrees and radians are within a few ULP.",
     ["inputs", "configurations"], "Every pair of arguments, huge and tiny quotients included, in float, double and long double, on four builds.",
     "The suite tries a handful of moderate arguments.",
     [E_ + "repeat.hpp", E_ + "ping_pong.hpp", E_ + "delta_angle.hpp", E_ + "lerp_angle.hpp", E_ + "move_towards_angle.hpp", E_ + "degrees.hpp", E_ + "radians.hpp"],
     [("reduction by floor", E_ + "repeat.hpp")], ["return values against the exact remainder"], None, "runtime monitor: exact-remainder oracle and range checker over directed and random executions on four builds, one with sanitizers", CMP_N)
