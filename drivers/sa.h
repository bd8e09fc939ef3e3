// Interface of the analysis drivers to the abstract interpreter (engine/absint.cc).
// The functions declared here have no bodies: they only mean something to the interpreter.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iostream>
#include <limits>
extern "C" {
double sa_real(const char *name);                          // any real number
double sa_real_in(const char *name, double lo, double hi);
int sa_int_in(const char *name, int lo, int hi);
int sa_choose(int n);                                      // any of 0..n-1, analysed separately
int sa_head(int mode);                                     // loop head of an unbounded history
int sa_head_order(const void *window, long size);            // as above, only the order of the values matters
void sa_assume(bool c);
void sa_check(const char *label, bool c);
void sa_check_eq(const char *label, double a, double b, double tol);
void sa_check_eqi(const char *label, int a, int b);
void sa_check_le(const char *label, double a, double b);
void sa_check_init(const char *label, const void *p, long size);
void sa_check_fn(const char *label, double v, const char *fn, double x, double tol);
void sa_check_fnrel(const char *label, double v, const char *fn, double x, double tol);
void sa_check_fn2(const char *label, double v, const char *fn, int n, int N, double tol);
void sa_expect_abort(int on);
void sa_no_overflow(int on);
void sa_inline_uc(int on);
void sa_precision(int bits);                                 // what sa_rounding(3) takes as the working precision
void sa_check_error(const char *, double, double, double units); // the first is within so many roundoffs of the second
void sa_rounding(int mode);                                  // 0 exact, 1 with the errors of large results, 2 an unknown function, 3 with the errors of all results, 4 and constants
void sa_gain(double g);                                      // from here on sine and cosine come out too large by this factor
void sa_plane(int x, int y);                                 // from here on branches cut a polygon of these two
void sa_check_angle(const char *label, int a, int n, double tol); // the angle of that polygon in n-ths of a turn
double sa_large(const char *name);
void sa_check_rounded(const char *label, double v, int n, ...); // the sum of n values but for at most one error
void sa_fail(const char *label);
void sa_trace(const char *label, ...);
double sa_turn_cos(double turns);
double sa_turn_sin(double turns);
}
// a copy in a buffer of its own, of exactly this many elements
template <typename T> static inline T *sa_exact(const T *v, int n)
{
	T *w = new T[n];
	for (int i = 0; i < n; ++i)
		w[i] = v[i];
	return w;
}
#define SA_TOL 1e-9
#define SA_TOLF 1e-5
// the library expects its users to make these visible
namespace DSP {
using std::abs; using std::min; using std::max; using std::cos; using std::sin; using std::sqrt; using std::exp;
using std::pow; using std::nearbyint; using std::copysign; using std::log; using std::log10; using std::tan; using std::floor; using std::round;
}
