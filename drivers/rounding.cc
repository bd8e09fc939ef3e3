// rounding (C37): one object works with the errors of all its operations, its twin exactly; the inputs are at most one
#include "sa.h"
#include "complex.hh"
#include "fft.hh"
#include "fdzp.hh"
#include "sma.hh"
#include "hilbert.hh"
#include "cdc.hh"
#include "ema.hh"
#include "blockdc.hh"
#include "biquad.hh"
#include "calculus.hh"
#include "regression.hh"
#include "utils.hh"

template <typename V> struct Bits { static const int value = 53; };
template <> struct Bits<float> { static const int value = 24; };
static double unit(const char *name) { return sa_real_in(name, -1, 1); }
template <typename V> static void close(const char *label, V a, V b, double units) { sa_check_error(label, a, b, units); }
template <typename V> static void close(const char *label, DSP::Complex<V> a, DSP::Complex<V> b, double units)
{
	sa_check_error(label, a.real(), b.real(), units);
	sa_check_error(label, a.imag(), b.imag(), units);
}
template <typename V> static V draw(V) { return unit("x"); }
template <typename V> static DSP::Complex<V> draw(DSP::Complex<V>) { return DSP::Complex<V>(unit("re"), unit("im")); }
// the usual growth: lengths times stages
static int growth(int n)
{
	int k = 1;
	for (int m = 1; m < n; m *= 2)
		++k;
	return 8 * n * k;
}
template <typename F, typename IN, typename OUT, int NI, int NO> static void block(const char *label, double units)
{
	sa_rounding(4);
	static F a;
	sa_rounding(0);
	static F b;
	static IN x[NI];
	static OUT y[NO], z[NO];
	for (int i = 0; i < NI; ++i)
		x[i] = draw(x[i]);
	sa_rounding(3);
	a(y, x);
	sa_rounding(0);
	b(z, x);
	for (int i = 0; i < NO; ++i)
		close(label, y[i], z[i], units);
}
template <typename V, int N, int SIGN> static void transform()
{
	typedef DSP::Complex<V> C;
	sa_precision(Bits<V>::value);
	block<DSP::FastFourierTransform<N, C, SIGN>, C, C, N, N>("bin of the transform", growth(N));
}
#define FFT(N) extern "C" void sa_C37_fft##N() { transform<double, N, -1>(); }
FFT(2) FFT(3) FFT(4) FFT(5) FFT(6) FFT(7) FFT(8) FFT(9) FFT(10) FFT(11) FFT(12) FFT(13) FFT(14) FFT(15) FFT(16) FFT(17) FFT(19) FFT(23) FFT(25) FFT(29) FFT(31) FFT(32) FFT(36) FFT(49) FFT(64) FFT(100) FFT(128) FFT(125) FFT(256)
extern "C" void sa_C37_back8() { transform<double, 8, 1>(); }
extern "C" void sa_C37_back30() { transform<double, 30, 1>(); }
extern "C" void sa_C37_single16() { transform<float, 16, -1>(); }
extern "C" void sa_C37_single21() { transform<float, 21, 1>(); }
template <int N> static void half()
{
	typedef DSP::Complex<double> C;
	block<DSP::RealToHalfComplexTransform<N, C>, double, C, N, N / 2 + 1>("bin of the real transform", growth(N));
}
extern "C" void sa_C37_real() { half<4>(); half<8>(); half<10>(); half<24>(); }
template <int N, int M> static void padding()
{
	typedef DSP::Complex<double> C;
	block<DSP::FDZP<M, N, C>, C, C, N, M>("interpolated sample", 12 * M);
}
extern "C" void sa_C37_padding() { padding<4, 8>(); padding<5, 9>(); padding<6, 18>(); }

// histories
template <typename V, typename T, typename F> static void history(const char *label, int steps, double units, F prepare)
{
	auto a = prepare(), b = prepare();
	for (int i = 0; i < steps; ++i) {
		T x = draw(T());
		sa_rounding(3);
		auto y = a(x);
		sa_rounding(0);
		auto z = b(x);
		close(label, y, z, units);
	}
}
template <typename V, typename T, int N> static void average()
{
	sa_precision(Bits<V>::value);
	history<V, T>("plain moving average", 6 * N, N + 2, [] { return DSP::SMA1<T, V, N>(); });
	history<V, T>("moving average over a tree", 6 * N, N + 2, [] { return DSP::SMA4<T, V, N>(); });
	history<V, T>("moving sum over a tree", 6 * N, N * (N + 2), [] { return DSP::SMA4<T, V, N, false>(); });
}
extern "C" void sa_C37_average() { average<double, double, 2>(); average<double, double, 5>(); average<double, double, 8>(); average<double, double, 13>(); }
extern "C" void sa_C37_averagef() { average<float, float, 3>(); average<float, float, 8>(); }
extern "C" void sa_C37_averagec() { average<double, DSP::Complex<double>, 4>(); }

template <typename V, int N> static void fir()
{
	typedef DSP::Complex<V> C;
	sa_precision(Bits<V>::value);
	history<V, V>("Hilbert transform", N + 2, 2 * N, [] { return DSP::Hilbert<C, N>(2); });
	history<V, V>("conversion to a quarter of the rate", N + 2, 2 * N, [] {
		return [f = DSP::CDC<C, N>(2)](V x) mutable { return f(x, x / 2); };
	});
}
extern "C" void sa_C37_fir() { fir<double, 5>(); fir<double, 13>(); }
extern "C" void sa_C37_firf() { fir<float, 9>(); }
// recursions forget their errors
template <typename V> static void recursion()
{
	sa_precision(Bits<V>::value);
	history<V, V>("exponential average", 40, 48, [] { DSP::EMA<V, V> f(0, 0.25); return f; });
	history<V, V>("DC blocker", 40, 48, [] { DSP::BlockDC<V, V> f; f.samples(4); return f; });
	history<V, V>("difference", 8, 4, [] { return DSP::Differentiator<V>(); });
	history<V, V>("low-pass", 24, 96, [] { DSP::Biquad<V, V> f; f.lowpass(1, 8); return f; });
	history<V, V>("high-pass", 24, 96, [] { DSP::Biquad<V, V> f; f.highpass(1, 8); return f; });
}
extern "C" void sa_C37_recursion() { recursion<double>(); }
extern "C" void sa_C37_recursionf() { recursion<float>(); }
template <typename V> static void arithmetic()
{
	typedef DSP::Complex<V> C;
	sa_precision(Bits<V>::value);
	C a = draw(C()), b = draw(C());
	V x = sa_real_in("position", 0, 1), p = unit("p"), q = unit("q");
	sa_rounding(3);
	C c = a * b, d = x * a + b;
	V m = norm(a), l = DSP::lerp(p, q, x);
	sa_rounding(0);
	close("complex product", c, a * b, 16);
	close("scaled complex sum", d, x * a + b, 16);
	close("squared magnitude", m, norm(a), 16);
	close("linear interpolation", l, DSP::lerp(p, q, x), 16);
}
extern "C" void sa_C37_arithmetic() { arithmetic<double>(); }
extern "C" void sa_C37_arithmeticf() { arithmetic<float>(); }
// a line through points far from the origin
template <typename V, int N> static void line()
{
	sa_precision(Bits<V>::value);
	V x[N], y[N];
	for (int i = 0; i < N; ++i) {
		x[i] = 1000 + i;
		y[i] = unit("y");
	}
	sa_rounding(4);
	DSP::SimpleLinearRegression<V> a(x, y, N), c(y, N, 1000, 1);
	sa_rounding(0);
	DSP::SimpleLinearRegression<V> b(x, y, N), d(y, N, 1000, 1);
	close("slope", a.slope(), b.slope(), 16);
	close("slope over uniform positions", c.slope(), d.slope(), 16);
}
extern "C" void sa_C37_line() { line<double, 4>(); line<double, 7>(); }
extern "C" void sa_C37_linef() { line<float, 5>(); }
