#include "sa.h"
#include "complex.hh"
#include "sma.hh"

// the last N inputs, oldest first; zero for those not seen
template <typename T, int N> struct Last
{
	T v[N];
	Last() { for (int i = 0; i < N; ++i) v[i] = 0; }
	void operator () (T x)
	{
		for (int i = 0; i + 1 < N; ++i)
			v[i] = v[i+1];
		v[N-1] = x;
	}
	T sum() const
	{
		T s = v[0];
		for (int i = 1; i < N; ++i)
			s += v[i];
		return s;
	}
};
template <typename T, typename A, int N, bool NORM> static void average()
{
	A avg;
	Last<T, N> last;
	while (sa_head(0)) {
		T x = sa_real("x");
		T y = avg(x);
		last(x);
		sa_check_eq(NORM ? "mean of the last N" : "sum of the last N", y, NORM ? last.sum() / N : last.sum(), SA_TOL);
	}
}
template <typename A, int N, bool NORM> static void complex_average()
{
	typedef DSP::Complex<float> C;
	A avg;
	Last<float, N> re, im;
	while (sa_head(0)) {
		float a = sa_real("a"), b = sa_real("b");
		C y = avg(C(a, b));
		re(a); im(b);
		sa_check_eq(NORM ? "real mean of the last N" : "real sum of the last N", y.real(), NORM ? re.sum() / N : re.sum(), SA_TOL);
		sa_check_eq(NORM ? "imaginary mean of the last N" : "imaginary sum of the last N", y.imag(), NORM ? im.sum() / N : im.sum(), SA_TOL);
	}
}
template <typename T, int N> static void deviation()
{
	DSP::SMA1<T, T, N> avg;
	Last<T, N> last;
	while (sa_head(0)) {
		T x = sa_real("x");
		avg(x);
		last(x);
		T mean = last.sum() / N, dev = 0;
		for (int i = 0; i < N; ++i)
			dev += std::abs(last.v[i] - mean);
		sa_check_eq("mean absolute deviation of the last N", avg.abs_dev(), dev / N, SA_TOL);
		sa_check_eq("asked again", avg.abs_dev(), dev / N, SA_TOL);
	}
}
struct Shifted { double operator () (double a, double b) const { return a + b + 1; } };
template <int N> static void reduction()
{
	DSP::SWA<double, Shifted, N> swa(-1);
	Last<double, N> last;
	for (int i = 0; i < N; ++i)
		last.v[i] = -1;
	while (sa_head(0)) {
		double x = sa_real("x");
		double y = swa(x);
		last(x);
		sa_check_eq("reduction of the last N", y, last.sum() + N - 1, 0);
	}
}
template <int N> static void product()
{
	// a few steps of a non-linear operation
	DSP::SWA<double, std::multiplies<double>, N> swa(1);
	Last<double, N> last;
	for (int i = 0; i < N; ++i)
		last.v[i] = 1;
	for (int n = 0; n < 2 * N + 3; ++n) {
		double x = sa_real("x");
		double y = swa(x);
		last(x);
		double p = last.v[0];
		for (int i = 1; i < N; ++i)
			p *= last.v[i];
		sa_check_eq("product of the last N", y, p, 0);
	}
}
template <int N> static void averages()
{
	switch (sa_choose(16)) {
	case 0: average<float, DSP::SMA1<float, float, N>, N, true>(); break;
	case 1: average<float, DSP::SMA2<float, float, N>, N, true>(); break;
	case 2: average<float, DSP::SMA3<float, float, N>, N, true>(); break;
	case 3: average<float, DSP::SMA4<float, float, N>, N, true>(); break;
	case 4: average<double, DSP::SMA1<double, double, N>, N, true>(); break;
	case 5: average<double, DSP::SMA2<double, double, N, false>, N, false>(); break;
	case 6: average<double, DSP::SMA3<double, double, N, false>, N, false>(); break;
	case 7: average<double, DSP::SMA4<double, double, N, false>, N, false>(); break;
	case 8: complex_average<DSP::SMA1<DSP::Complex<float>, float, N>, N, true>(); break;
	case 9: complex_average<DSP::SMA2<DSP::Complex<float>, float, N>, N, true>(); break;
	case 10: complex_average<DSP::SMA2<DSP::Complex<float>, float, N, false>, N, false>(); break;
	case 11: complex_average<DSP::SMA4<DSP::Complex<float>, float, N>, N, true>(); break;
	case 12: complex_average<DSP::SMA4<DSP::Complex<float>, float, N, false>, N, false>(); break;
	case 13: reduction<N>(); break;
	case 14: average<double, DSP::SMA3<double, double, N>, N, true>(); break;
	default: average<double, DSP::SMA2<double, double, N>, N, true>();
	}
}
#define SIZE(N) extern "C" void sa_C07_n##N() { averages<N>(); }
SIZE(1) SIZE(2) SIZE(3) SIZE(4) SIZE(5) SIZE(6) SIZE(7) SIZE(8) SIZE(9) SIZE(10) SIZE(11) SIZE(12) SIZE(13) SIZE(16) SIZE(17) SIZE(31) SIZE(32) SIZE(33) SIZE(64) SIZE(130)
extern "C" void sa_C07_dev1() { deviation<double, 1>(); }
extern "C" void sa_C07_dev2() { deviation<float, 2>(); }
extern "C" void sa_C07_dev3() { deviation<float, 3>(); }
extern "C" void sa_C07_dev4() { deviation<double, 4>(); }
extern "C" void sa_C07_dev7() { deviation<double, 7>(); }
extern "C" void sa_C07_product() { product<2>(); product<3>(); product<4>(); product<5>(); product<7>(); }
