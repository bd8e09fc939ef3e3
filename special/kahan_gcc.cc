// What g++ makes of compensated summation at the project's flags, see c33.py
#include "kahan.hh"

#define ALL(T, S) \
extern "C" void feed_##S(T h, const T *x, T *y) \
{ \
	DSP::Kahan<T> k(h); \
	y[0] = k(x[0]); \
	y[1] = k(x[1]); \
	y[2] = k(x[2]); \
	y[3] = k(x[3]); \
} \
extern "C" void read_##S(T h, const T *x, T *y) \
{ \
	DSP::Kahan<T> k; \
	k(h); \
	k(x[0]); \
	y[0] = k(); \
	k(x[1]); \
	y[1] = k(); \
	k(x[2]); \
	y[2] = k(); \
	k(x[3]); \
	y[3] = k(); \
} \
extern "C" void copy_##S(T h, const T *x, T *y) \
{ \
	DSP::Kahan<T> k(h); \
	y[0] = k(x[0]); \
	DSP::Kahan<T> l(k); \
	y[1] = l(x[1]); \
	DSP::Kahan<T> m(l); \
	m(x[2]); \
	y[2] = m(); \
	y[3] = m(x[3]); \
} \
extern "C" void range_##S(T h, const T *x, T *y) \
{ \
	y[0] = DSP::kahan_sum(x, x + 1, h); \
	y[1] = DSP::kahan_sum(x, x + 2, h); \
	y[2] = DSP::kahan_sum(x, x + 3, h); \
	y[3] = DSP::kahan_sum(x, x + 4, h); \
}
ALL(float, float)
ALL(double, double)
ALL(long double, longdouble)
