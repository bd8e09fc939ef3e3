// Compensated summation (C33)
#include "sa.h"
#include "kahan.hh"

// Sums that involve the running total carry an unknown rounding error, sums of small values are taken as exact:
// a result must not contain more than the error of its own last addition.
template <typename T> static void feed()
{
	sa_rounding(1);
	double h = sa_large("total"), a = sa_real("a"), b = sa_real("b"), c = sa_real("c"), d = sa_real("d");
	DSP::Kahan<T> k((T(h)));
	sa_check_rounded("initial value", k(), 1, h);
	sa_check_rounded("sum of two", k(T(a)), 2, h, a);
	sa_check_rounded("sum of two, read", k(), 2, h, a);
	sa_check_rounded("sum of three", k(T(b)), 3, h, a, b);
	sa_check_rounded("sum of three, read", k(), 3, h, a, b);
	sa_check_rounded("sum of four", k(T(c)), 4, h, a, b, c);
	sa_check_rounded("sum of five", k(T(d)), 5, h, a, b, c, d);
	sa_check_rounded("sum of five, read", k(), 5, h, a, b, c, d);
}
extern "C" void sa_C33_feedf() { feed<float>(); }
extern "C" void sa_C33_feedd() { feed<double>(); }
extern "C" void sa_C33_feedl() { feed<long double>(); }
template <typename T> static void fromZero()
{
	sa_rounding(1);
	double h = sa_large("total"), a = sa_real("a"), b = sa_real("b"), c = sa_real("c");
	DSP::Kahan<T> k;
	sa_check_rounded("nothing summed yet", k(), 0);
	sa_check_rounded("first value", k(T(h)), 1, h);
	k(T(a));
	k(T(b));
	sa_check_rounded("sum of four", k(T(c)), 4, h, a, b, c);
	sa_check_rounded("sum of four, read", k(), 4, h, a, b, c);
}
extern "C" void sa_C33_zerof() { fromZero<float>(); }
extern "C" void sa_C33_zerod() { fromZero<double>(); }
template <typename T> static void range()
{
	sa_rounding(1);
	double h = sa_large("total"), a = sa_real("a"), b = sa_real("b"), c = sa_real("c"), d = sa_real("d");
	T x[4] = { T(a), T(b), T(c), T(d) };
	sa_check_rounded("range sum of nothing", DSP::kahan_sum(x, x, T(h)), 1, h);
	sa_check_rounded("range sum of one", DSP::kahan_sum(x, x + 1, T(h)), 2, h, a);
	sa_check_rounded("range sum of three", DSP::kahan_sum(x, x + 3, T(h)), 4, h, a, b, c);
	sa_check_rounded("range sum of four", DSP::kahan_sum(x, x + 4, T(h)), 5, h, a, b, c, d);
	sa_check_rounded("range sum of a part", DSP::kahan_sum(x + 1, x + 3, T(h)), 3, h, b, c);
}
extern "C" void sa_C33_rangef() { range<float>(); }
extern "C" void sa_C33_ranged() { range<double>(); }
template <typename T> static void copied()
{
	sa_rounding(1);
	double h = sa_large("total"), a = sa_real("a"), b = sa_real("b"), c = sa_real("c");
	DSP::Kahan<T> k((T(h)));
	k(T(a));
	k(T(b));
	DSP::Kahan<T> copy(k);
	sa_check_rounded("value of a copy", copy(), 3, h, a, b);
	sa_check_rounded("copy, continued", copy(T(c)), 4, h, a, b, c);
	DSP::Kahan<T> third;
	third = k;
	sa_check_rounded("assigned, continued", third(T(c)), 4, h, a, b, c);
	sa_check_rounded("original, continued", k(T(c)), 4, h, a, b, c);
}
extern "C" void sa_C33_copyf() { copied<float>(); }
extern "C" void sa_C33_copyd() { copied<double>(); }
