#include "sa.h"
#include "complex.hh"
#include "window.hh"
#include "filter.hh"
#include "coeffs.hh"
#include "hilbert.hh"
#include "cdc.hh"

static const double PI = 3.14159265358979323846;
template <typename V> struct Tol { static constexpr double value = SA_TOL; };
template <> struct Tol<float> { static constexpr double value = SA_TOLF; };

// length M + 1, index 0..M; both arbitrary
static int anyM() { return sa_int_in("M", 1, 100000000); }
static int anyIndex(int M) { int n = sa_int_in("n", 0, 100000000); sa_assume(n <= M); return n; }

// zero-th order modified Bessel function from its series
static double bessel0(double x)
{
	double sum = 1, term = 1;
	for (int m = 1; m < 60; ++m) {
		term = term * (x / 2) * (x / 2) / (double(m) * m);
		sum += term;
	}
	return sum;
}
static double kaiser(double a, int n, int N)
{
	double u = 2.0 * n / (N - 1) - 1;
	return bessel0(PI * a * std::sqrt(1 - u * u)) / bessel0(PI * a);
}
template <typename T> static void cosine_windows()
{
	int M = anyM(), n = anyIndex(M);
	double c = sa_turn_cos(double(n) / M), c2 = sa_turn_cos(2 * double(n) / M);
	switch (sa_choose(5)) {
	case 0: sa_check_eq("Hann", DSP::Hann<T>()(n, M + 1), 0.5 - 0.5 * c, Tol<T>::value); break;
	case 1: sa_check_eq("Hamming", DSP::Hamming<T>()(n, M + 1), 0.54 - 0.46 * c, Tol<T>::value); break;
	case 2: {
		double a0 = sa_real("a0"), a1 = sa_real("a1"), a2 = sa_real("a2");
		sa_check_eq("generalized Blackman", DSP::Blackman<T>(a0, a1, a2)(n, M + 1), a0 - a1 * c + a2 * c2, Tol<T>::value);
		break;
	}
	case 3: {
		double a = sa_real("a");
		sa_check_eq("Blackman of parameter", DSP::Blackman<T>(a)(n, M + 1), (1 - a) / 2 - 0.5 * c + a / 2 * c2, Tol<T>::value);
		break;
	}
	default:
		sa_check_eq("exact Blackman", DSP::Blackman<T>()(n, M + 1), 7938.0 / 18608 - 9240.0 / 18608 * c + 1430.0 / 18608 * c2, Tol<T>::value);
	}
}
extern "C" void sa_C16_cosine() { cosine_windows<double>(); }
extern "C" void sa_C16_cosinef() { cosine_windows<float>(); }
template <typename T> static void lanczos()
{
	int M = anyM(), n = anyIndex(M);
	double x = 2 * double(n) / M - 1; // -1..1
	T w = DSP::Lanczos<T>()(n, M + 1);
	if (2 * n == M)
		sa_check_eq("Lanczos centre", w, 1, 0);
	else
		sa_check_eq("Lanczos", w, sa_turn_sin(x / 2) / (PI * x), Tol<T>::value);
}
extern "C" void sa_C16_lanczos() { lanczos<double>(); }
extern "C" void sa_C16_lanczosf() { lanczos<float>(); }
template <typename T> static void rect()
{
	int N = sa_int_in("N", 1, 2147483647), n = sa_int_in("n", -2147483647 - 1, 2147483647);
	T w = DSP::Rect<T>()(n, N);
	if (0 <= n && n <= N - 1)
		sa_check_eq("rectangle inside", w, 1, 0);
	else
		sa_check_eq("rectangle outside", w, 0, 0);
}
extern "C" void sa_C16_rect() { rect<double>(); rect<float>(); }
template <typename T> static void gauss()
{
	int M = anyM(), n = anyIndex(M);
	double o = sa_real_in("o", 0.001, 1000);
	DSP::Gauss<T> g(o);
	double u = (n - M / 2.0) / (o * M / 2.0);
	sa_check_eq("Gauss", g(n, M + 1), std::exp(-0.5 * u * u), Tol<T>::value);
}
extern "C" void sa_C16_gauss() { gauss<double>(); }
extern "C" void sa_C16_gaussf() { gauss<float>(); }
static double anyShape()
{
	static const double as[6] = { 0, 0.5, 1, 2, 2.5, 3 };
	return as[sa_choose(6)];
}
template <typename T> static void kaisers(double a, int N)
{
	DSP::Kaiser<T> w(a);
	for (int n = 0; n < N; ++n) {
		sa_check_eq("Kaiser", w(n, N), kaiser(a, n, N), Tol<T>::value);
		sa_check_eq("Kaiser symmetry", w(n, N), w(N - 1 - n, N), Tol<T>::value);
	}
}
extern "C" void sa_C16_kaiser_small() { double a = anyShape(); for (int N = 2; N < 18; ++N) kaisers<double>(a, N); }
extern "C" void sa_C16_kaiser_f() { double a = anyShape(); kaisers<float>(a, 2); kaisers<float>(a, 5); kaisers<float>(a, 8); kaisers<float>(a, 9); }
extern "C" void sa_C16_kaiser_64() { double a = anyShape(); kaisers<double>(a, 64); kaisers<double>(a, 65); }
extern "C" void sa_C16_kaiser_pi() // over the documented range of the series
{
	for (int i = 0; i <= 12; ++i)
		sa_check_eq("Kaiser edge", DSP::Kaiser<double>(i / 4.0)(0, 21), 1 / bessel0(PI * i / 4.0), SA_TOL);
}
template <typename T> static void symmetric(int N)
{
	double a = sa_real("a"), o = sa_real_in("o", 0.001, 1000);
	DSP::Hann<T> hann; DSP::Hamming<T> hamming; DSP::Lanczos<T> lanczos; DSP::Blackman<T> blackman(a); DSP::Gauss<T> gauss(o);
	for (int n = 0; n < N; ++n) {
		int m = N - 1 - n;
		sa_check_eq("Hann symmetry", hann(n, N), hann(m, N), Tol<T>::value);
		sa_check_eq("Hamming symmetry", hamming(n, N), hamming(m, N), Tol<T>::value);
		sa_check_eq("Lanczos symmetry", lanczos(n, N), lanczos(m, N), Tol<T>::value);
		sa_check_eq("Blackman symmetry", blackman(n, N), blackman(m, N), Tol<T>::value);
		sa_check_eq("Gauss symmetry", gauss(n, N), gauss(m, N), Tol<T>::value);
	}
}
extern "C" void sa_C16_symmetry() { for (int N = 2; N < 14; ++N) symmetric<double>(N); symmetric<float>(33); }

// impulse responses of ideal filters
static double ideal(double f, double x) { return 2 * f * (x == 0 ? 1.0 : sa_turn_sin(f * x) / (2 * PI * f * x)); }
template <typename T> static void real_cutoff()
{
	int N = sa_int_in("N", 1, 1000000), n = sa_int_in("n", -1000000, 1000000);
	double x = n - (N - 1) / 2.0;
	double f = sa_real_in("f", 0.001, 0.5), g = sa_real_in("g", 0.001, 0.5);
	if (x == 0) {
		sa_check_eq("low-pass centre", DSP::LowPass<T>(f)(n, N), 2 * f, Tol<T>::value);
		sa_check_eq("high-pass centre", DSP::HighPass<T>(f)(n, N), 1 - 2 * f, Tol<T>::value);
		sa_check_eq("band-pass centre", DSP::BandPass<T>(f, g)(n, N), 2 * g - 2 * f, Tol<T>::value);
	} else {
		double lf = sa_turn_sin(f * x) / (PI * x), lg = sa_turn_sin(g * x) / (PI * x);
		sa_check_eq("low-pass", DSP::LowPass<T>(f)(n, N), lf, Tol<T>::value);
		sa_check_eq("high-pass", DSP::HighPass<T>(f)(n, N), sa_turn_sin(x / 2) / (PI * x) - lf, Tol<T>::value);
		sa_check_eq("band-pass", DSP::BandPass<T>(f, g)(n, N), lg - lf, Tol<T>::value);
	}
}
extern "C" void sa_C17_real() { real_cutoff<double>(); }
extern "C" void sa_C17_realf() { real_cutoff<float>(); }
template <typename T> static void rational_cutoff()
{
	int N = sa_int_in("N", 1, 10000), n = sa_int_in("n", -1000, 11000);
	int den = sa_int_in("den", 2, 100000), num = sa_int_in("num", 1, 50000);
	sa_assume(2 * num <= den);
	double f = double(num) / den, x = n - (N - 1) / 2.0;
	if (x == 0) {
		sa_check_eq("rational low-pass centre", DSP::LowPass2<T>(num, den)(n, N), 2 * f, Tol<T>::value);
		sa_check_eq("rational high-pass centre", DSP::HighPass2<T>(num, den)(n, N), 1 - 2 * f, Tol<T>::value);
	} else {
		double lf = sa_turn_sin(f * x) / (PI * x);
		sa_check_eq("rational low-pass", DSP::LowPass2<T>(num, den)(n, N), lf, Tol<T>::value);
		sa_check_eq("rational high-pass", DSP::HighPass2<T>(num, den)(n, N), sa_turn_sin(x / 2) / (PI * x) - lf, Tol<T>::value);
	}
}
extern "C" void sa_C17_rational() { rational_cutoff<double>(); }
extern "C" void sa_C17_rationalf() { rational_cutoff<float>(); }
template <typename T> static void concrete_cutoff()
{
	static const int nums[5] = { 1, 1, 2, 3, 1 }, dens[5] = { 4, 2, 7, 10, 48 };
	int w = sa_choose(5), num = nums[w], den = dens[w];
	double f = double(num) / den;
	for (int N = 1; N < 14; ++N) {
		for (int n = -2; n < N + 2; ++n) {
			double x = n - (N - 1) / 2.0;
			double lf = ideal(f, x), lo = x == 0 ? 1 : sa_turn_sin(x / 2) / (PI * x);
			sa_check_eq("low-pass tap", DSP::LowPass<T>(f)(n, N), lf, Tol<T>::value);
			sa_check_eq("rational low-pass tap", DSP::LowPass2<T>(num, den)(n, N), lf, Tol<T>::value);
			sa_check_eq("high-pass tap", DSP::HighPass<T>(f)(n, N), lo - lf, Tol<T>::value);
			sa_check_eq("rational high-pass tap", DSP::HighPass2<T>(num, den)(n, N), lo - lf, Tol<T>::value);
			sa_check_eq("band-pass tap", DSP::BandPass<T>(f / 2, f)(n, N), lf - ideal(f / 2, x), Tol<T>::value);
			// (1 - cos(pi x)) / (pi x)
			sa_check_eq("Hilbert tap", DSP::HilbertTransform<T>()(n, N), x == 0 ? 0 : (1 - sa_turn_cos(x / 2)) / (PI * x), Tol<T>::value);
		}
	}
}
extern "C" void sa_C17_taps() { concrete_cutoff<double>(); }
extern "C" void sa_C17_tapsf() { concrete_cutoff<float>(); }

template <int N> struct Table
{
	double v[N];
	Table() { for (int n = 0; n < N; ++n) v[n] = sa_real("tap"); }
	double operator () (int n, int taps) const
	{
		sa_check_eqi("length handed to the design function", taps, N);
		sa_check("index handed to the design function", n >= 0 && n < N);
		return v[n];
	}
};
template <int N, typename T> static void table()
{
	Table<N> f, g;
	double sum = 0, sum2 = 0;
	for (int n = 0; n < N; ++n)
		sum += f.v[n], sum2 += f.v[n] * g.v[n];
	sa_assume(sum != 0);
	sa_assume(sum2 != 0);
	DSP::Coeffs<N, T> one(&f), two(&f, &g);
	DSP::Coeffs<N, T, true> norm(&f), norm2(&f, &g);
	const T *raw = one, *raw2 = norm2;
	for (int n = 0; n < N; ++n) {
		sa_check_eq("tap", one(n), f.v[n], 0);
		sa_check_eq("windowed tap", two(n), f.v[n] * g.v[n], 0);
		sa_check_eq("tap through the pointer", raw[n], f.v[n], 0);
		sa_check_eq("normalized tap", norm(n), f.v[n] / std::abs(sum), SA_TOL);
		sa_check_eq("normalized windowed tap", norm2(n), f.v[n] * g.v[n] / std::abs(sum2), SA_TOL);
		sa_check_eq("normalized windowed tap through the pointer", raw2[n], f.v[n] * g.v[n] / std::abs(sum2), SA_TOL);
	}
	int m = sa_int_in("m", -2147483647 - 1, 2147483647);
	if (m < 0 || m >= N) {
		sa_check_eq("zero outside", one(m), 0, 0);
		sa_check_eq("zero outside (windowed)", two(m), 0, 0);
		sa_check_eq("zero outside (normalized)", norm(m), 0, 0);
	}
	double d = sa_real_in("d", 0.001, 1000);
	one.normalize(d);
	for (int n = 0; n < N; ++n)
		sa_check_eq("normalized by a divisor", one(n), f.v[n] / (d * std::abs(sum)), SA_TOL);
	two.normalize();
	for (int n = 0; n < N; ++n)
		sa_check_eq("normalized later", two(n), f.v[n] * g.v[n] / std::abs(sum2), SA_TOL);
}
extern "C" void sa_C17_table1() { table<1, double>(); }
extern "C" void sa_C17_table2() { table<2, double>(); }
extern "C" void sa_C17_table3() { table<3, float>(); }
extern "C" void sa_C17_table6() { table<6, double>(); }
extern "C" void sa_C17_table9() { table<9, float>(); }
extern "C" void sa_C17_table33() { table<33, double>(); }
extern "C" void sa_C17_table64() { table<64, double>(); }
extern "C" void sa_C17V_table150() { table<150, double>(); }

// analytic signal
template <typename V, int TAPS> static void hilbert()
{
	static const double as[4] = { 2, 0, 1, 3 };
	int w = sa_choose(4);
	double a = as[w];
	DSP::Hilbert<DSP::Complex<V>, TAPS> f(a), def;
	const int MID = (TAPS - 1) / 2;
	// last[0] newest; the filter answers before it takes the new sample in
	V last[TAPS];
	double h[TAPS];
	for (int i = 0; i < TAPS; ++i) {
		last[i] = 0;
		int x = i - MID;
		h[i] = x % 2 ? kaiser(a, i, TAPS) * 2 / (PI * x) : 0;
	}
	while (sa_head(0)) {
		double x = sa_real("x");
		DSP::Complex<V> y = f(x);
		double im = 0;
		for (int i = 0; i < TAPS; ++i)
			im += h[i] * last[i];
		sa_check_eq("delayed input", y.real(), last[MID], Tol<V>::value);
		sa_check_eq("Hilbert transform of the input", y.imag(), im, Tol<V>::value);
		if (w == 0) {
			DSP::Complex<V> z = def(x);
			sa_check_eq("delayed input (default window)", z.real(), last[MID], Tol<V>::value);
			sa_check_eq("Hilbert transform of the input (default window)", z.imag(), im, Tol<V>::value);
		}
		for (int i = TAPS - 1; i > 0; --i)
			last[i] = last[i-1];
		last[0] = x;
	}
}
extern "C" void sa_C15_hilbert5() { hilbert<double, 5>(); }
extern "C" void sa_C15_hilbert9() { hilbert<double, 9>(); }
extern "C" void sa_C15_hilbert9f() { hilbert<float, 9>(); }
extern "C" void sa_C15_hilbert13() { hilbert<double, 13>(); }
extern "C" void sa_C15_hilbert17() { hilbert<double, 17>(); }
extern "C" void sa_C15_hilbert33() { hilbert<double, 33>(); }
extern "C" void sa_C15_hilbert65() { hilbert<float, 65>(); }
extern "C" void sa_C15V_hilbert161() { hilbert<float, 161>(); }

// quarter-rate down conversion: sample m is turned by -m/4 of a turn, the first one being number -1
template <typename V, int TAPS> static void cdc()
{
	static const double as[4] = { 2, 0, 1, 3 };
	int w = sa_choose(4);
	double a = as[w];
	DSP::CDC<DSP::Complex<V>, TAPS> f(a), def;
	const int D = (TAPS - 1) / 2;
	// mixed samples, newest first
	V re[TAPS], im[TAPS];
	double h[TAPS];
	for (int i = 0; i < TAPS; ++i) {
		re[i] = im[i] = 0;
		int k = i - D;
		h[i] = kaiser(a, i, TAPS) * (k == 0 ? 0.5 : sa_turn_sin(k / 4.0) / (PI * k));
	}
	int phase = 0;
	while (sa_head(0)) {
		double x0 = sa_real("x0"), x1 = sa_real("x1");
		DSP::Complex<V> y = f(x0, x1);
		for (int i = TAPS - 1; i > 1; --i) {
			re[i] = re[i-2];
			im[i] = im[i-2];
		}
		// m = 2c - 1 and 2c: factors +j, 1 then -j, -1
		re[1] = 0; im[1] = phase ? -x0 : x0;
		re[0] = phase ? -x1 : x1; im[0] = 0;
		phase = !phase;
		double sr = 0, si = 0;
		for (int i = 0; i < TAPS; ++i) {
			sr += h[i] * re[i];
			si += h[i] * im[i];
		}
		sa_check_eq("real part of the down-converted signal", y.real(), sr, Tol<V>::value);
		sa_check_eq("imaginary part of the down-converted signal", y.imag(), si, Tol<V>::value);
		if (w == 0) {
			DSP::Complex<V> z = def(x0, x1);
			sa_check_eq("real part of the down-converted signal (default window)", z.real(), sr, Tol<V>::value);
			sa_check_eq("imaginary part of the down-converted signal (default window)", z.imag(), si, Tol<V>::value);
		}
	}
}
extern "C" void sa_C15_cdc5() { cdc<double, 5>(); }
extern "C" void sa_C15_cdc9() { cdc<double, 9>(); }
extern "C" void sa_C15_cdc9f() { cdc<float, 9>(); }
extern "C" void sa_C15_cdc13() { cdc<double, 13>(); }
extern "C" void sa_C15_cdc17() { cdc<double, 17>(); }
extern "C" void sa_C15_cdc33() { cdc<double, 33>(); }
extern "C" void sa_C15_cdc65() { cdc<float, 65>(); }
extern "C" void sa_C15V_cdc161() { cdc<float, 161>(); }
