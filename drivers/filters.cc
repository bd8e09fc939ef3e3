#include "sa.h"
#include "complex.hh"
#include "biquad.hh"
#include "ema.hh"
#include "blockdc.hh"
#include "calculus.hh"
#include "normalize.hh"

// transfer functions made from the analogue prototype with s = (1/K) (z-1)/(z+1), K = tan(pi n/N)
struct Design
{
	double b0, b1, b2, a0, a1, a2;
	enum Kind { LOW, HIGH, NOTCH, BAND, ALL };
	Design(Kind kind, int n, int N, double Q)
	{
		double t = double(n) / N;
		double K = sa_turn_sin(t) / (1 + sa_turn_cos(t));
		a0 = 1 + K / Q + K * K;
		a1 = 2 * K * K - 2;
		a2 = 1 - K / Q + K * K;
		switch (kind) {
		case LOW: b0 = K * K; b1 = 2 * K * K; b2 = K * K; break;           // 1
		case HIGH: b0 = 1; b1 = -2; b2 = 1; break;                         // s^2
		case NOTCH: b0 = 1 + K * K; b1 = 2 * K * K - 2; b2 = b0; break;    // s^2 + 1
		case BAND: b0 = K / Q; b1 = 0; b2 = -K / Q; break;                 // s / Q
		default: b0 = a2; b1 = a1; b2 = a0;                                // s^2 - s/Q + 1
		}
	}
};
template <typename F> static void set(F &f, Design::Kind k, int n, int N, double q)
{
	switch (k) {
	case Design::LOW: f.lowpass(n, N, q); break;
	case Design::HIGH: f.highpass(n, N, q); break;
	case Design::NOTCH: f.notch(n, N, q); break;
	case Design::BAND: f.bandpass(n, N, q); break;
	default: f.allpass(n, N, q);
	}
}
static int anyN() { return sa_int_in("N", 3, 268435455); }
static int anyn(int N) { int n = sa_int_in("n", 1, 134217727); sa_assume(2 * n < N); return n; }
template <typename T> static void biquad(Design::Kind k, double q, double Q)
{
	int N = anyN(), n = anyn(N);
	DSP::Biquad<T, T> f;
	set(f, k, n, N, q);
	Design d(k, n, N, Q);
	T x1 = 0, x2 = 0, y1 = 0, y2 = 0;
	while (sa_head(0)) {
		T x0 = sa_real("x");
		T y0 = f(x0);
		sa_check_eq("difference equation of the design", y0, (d.b0 * x0 + d.b1 * x1 + d.b2 * x2 - d.a1 * y1 - d.a2 * y2) / d.a0, sizeof(T) == 4 ? SA_TOLF : SA_TOL);
		x2 = x1; x1 = x0;
		y2 = y1; y1 = y0;
	}
}
template <typename T> static void butterworth()
{
	double Q = sa_real_in("Q", 0.01, 1000);
	if (sa_choose(2))
		biquad<T>(Design::LOW, Q, Q);
	else
		biquad<T>(Design::HIGH, Q, Q);
}
extern "C" void sa_C13_lowhigh() { butterworth<double>(); }
extern "C" void sa_C13_lowhighf() { butterworth<float>(); }
extern "C" void sa_C13_default()
{
	int N = anyN(), n = anyn(N);
	DSP::Biquad<double, double> low, high;
	double x = sa_real("x");
	sa_check_eq("unset filter passes its input", low(x), x, 0);
	sa_check_eq("unset filter passes its input", high(x), x, 0);
	low.lowpass(n, N);
	high.highpass(n, N);
	Design l(Design::LOW, n, N, 1 / std::sqrt(2.0)), h(Design::HIGH, n, N, 1 / std::sqrt(2.0));
	double u = sa_real("u");
	sa_check_eq("default quality of the low-pass", low(u), (l.b0 * u + l.b1 * x - l.a1 * x) / l.a0, SA_TOL);
	sa_check_eq("default quality of the high-pass", high(u), (h.b0 * u + h.b1 * x - h.a1 * x) / h.a0, SA_TOL);
}
// quality in decibel
static void quality(Design::Kind k)
{
	switch (sa_choose(7)) {
	case 0: biquad<double>(k, 0, 1); break;
	case 1: biquad<double>(k, 3, std::pow(10.0, 0.3)); break;
	case 2: biquad<double>(k, -3, std::pow(10.0, -0.3)); break;
	case 3: biquad<double>(k, 10, 10); break;
	case 4: biquad<double>(k, -10, 0.1); break;
	case 5: biquad<double>(k, 20, 100); break;
	default: biquad<float>(k, 7, std::pow(10.0, 0.7));
	}
}
extern "C" void sa_C13_notch() { quality(Design::NOTCH); }
extern "C" void sa_C13_bandpass() { quality(Design::BAND); }
extern "C" void sa_C13_allpass() { quality(Design::ALL); }
// switching keeps the history
extern "C" void sa_C13_switch()
{
	static const Design::Kind kinds[5] = { Design::LOW, Design::HIGH, Design::NOTCH, Design::BAND, Design::ALL };
	static const double q[5] = { 0.6, 2, 0, 0, 0 }, Q[5] = { 0.6, 2, 1, 1, 1 };
	int i = sa_choose(5), j = sa_choose(5);
	DSP::Biquad<double, double> f;
	double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
	for (int s = 0; s < 2; ++s) {
		int k = s ? j : i, n = s ? 2 : 1, N = s ? 7 : 5;
		set(f, kinds[k], n, N, q[k]);
		Design d(kinds[k], n, N, Q[k]);
		for (int m = 0; m < 3; ++m) {
			double x0 = sa_real("x");
			double y0 = f(x0);
			sa_check_eq("history kept over a change of setting", y0, (d.b0 * x0 + d.b1 * x1 + d.b2 * x2 - d.a1 * y1 - d.a2 * y2) / d.a0, SA_TOL);
			x2 = x1; x1 = x0;
			y2 = y1; y1 = y0;
		}
	}
}
// complex samples: the two parts are filtered alike
extern "C" void sa_C13_complex()
{
	typedef DSP::Complex<double> C;
	DSP::Biquad<C, double> f;
	DSP::BiquadCascade<C, double, 2> c;
	DSP::Biquad<double, double> re, im;
	DSP::BiquadCascade<double, double, 2> cre, cim;
	f.bandpass(1, 5, 3); re.bandpass(1, 5, 3); im.bandpass(1, 5, 3);
	c.lowpass(1, 5); cre.lowpass(1, 5); cim.lowpass(1, 5);
	for (int m = 0; m < 6; ++m) {
		double a = sa_real("re"), b = sa_real("im");
		C y = f(C(a, b)), z = c(C(a, b));
		sa_check_eq("real part of complex input", y.real(), re(a), SA_TOL);
		sa_check_eq("imaginary part of complex input", y.imag(), im(b), SA_TOL);
		sa_check_eq("real part of complex input to the cascade", z.real(), cre(a), SA_TOL);
		sa_check_eq("imaginary part of complex input to the cascade", z.imag(), cim(b), SA_TOL);
	}
}
// Butterworth cascade: poles of the prototype at angles pi (2i+1) / (4 NUM) from the negative real axis
template <typename T, int NUM> static void cascade()
{
	static const int ns[6] = { 1, 1, 3, 2, 1, 2 }, Ns[6] = { 8, 3, 10, 9, 4, 5 };
	int w = sa_choose(6), high = sa_choose(2), n = ns[w], N = Ns[w];
	DSP::BiquadCascade<T, T, NUM> f;
	if (high) f.highpass(n, N); else f.lowpass(n, N);
	double x1[NUM] = {}, x2[NUM] = {}, y1[NUM] = {}, y2[NUM] = {};
	for (int m = 0; m < 4 * NUM + 2; ++m) {
		double x = sa_real("x"), v = x;
		T y = f(x);
		for (int i = 0; i < NUM; ++i) {
			Design d(high ? Design::HIGH : Design::LOW, n, N, 1 / (2 * sa_turn_cos((2 * i + 1) / (8.0 * NUM))));
			double y0 = (d.b0 * v + d.b1 * x1[i] + d.b2 * x2[i] - d.a1 * y1[i] - d.a2 * y2[i]) / d.a0;
			x2[i] = x1[i]; x1[i] = v;
			y2[i] = y1[i]; y1[i] = y0;
			v = y0;
		}
		sa_check_eq("Butterworth cascade", y, v, sizeof(T) == 4 ? SA_TOLF : SA_TOL);
	}
}
extern "C" void sa_C13_cascade1() { cascade<double, 1>(); }
extern "C" void sa_C13_cascade2() { cascade<double, 2>(); }
extern "C" void sa_C13_cascade2f() { cascade<float, 2>(); }
extern "C" void sa_C13_cascade3() { cascade<double, 3>(); }
extern "C" void sa_C13_cascade4() { cascade<double, 4>(); }
extern "C" void sa_C13_cascade5() { cascade<double, 5>(); }
extern "C" void sa_C13_cascade8() { cascade<double, 8>(); }

// first-order recursions
static int anySamples() { return sa_int_in("s", 1, 2147483647); }
template <typename T> static void ema_history()
{
	double init = sa_real("init"), alpha = sa_real("alpha");
	DSP::EMA<T, T> ema(init, alpha);
	double y = init;
	int s = anySamples();
	int how = sa_choose(2);
	if (how == 1) {
		ema.samples(s);
		alpha = 1.0 / s;
	}
	while (sa_head(0)) {
		double x = sa_real("x");
		T r = ema(x);
		y = (1 - alpha) * y + alpha * x;
		sa_check_eq(how ? "moving average over s samples" : "moving average", r, y, SA_TOL);
	}
}
extern "C" void sa_C14_ema() { ema_history<double>(); }
extern "C" void sa_C14_emaf() { ema_history<float>(); }
extern "C" void sa_C14_ema_default()
{
	DSP::EMA<double, double> ema;
	double x = sa_real("x"), y = sa_real("y");
	sa_check_eq("default average is its input", ema(x), x, 0);
	ema.samples(4);
	sa_check_eq("default start", ema(y), 0.75 * x + 0.25 * y, SA_TOL);
	DSP::EMA<double, double> zero;
	zero.samples(2);
	sa_check_eq("default start is zero", zero(x), 0.5 * x, SA_TOL);
	DSP::EMA<double, double> one(y);
	one.samples(2);
	sa_check_eq("start value", one(x), 0.5 * x + 0.5 * y, SA_TOL);
	DSP::EMA<DSP::Complex<double>, double> cpx(DSP::Complex<double>(x, y), 0.25);
	double a = sa_real("a"), b = sa_real("b");
	DSP::Complex<double> r = cpx(DSP::Complex<double>(a, b));
	sa_check_eq("complex average (real part)", r.real(), 0.75 * x + 0.25 * a, SA_TOL);
	sa_check_eq("complex average (imaginary part)", r.imag(), 0.75 * y + 0.25 * b, SA_TOL);
}
// power of one stage at the frequency whose cosine is c
static double power(double alpha, double c) { double d = 1 - alpha; return alpha * alpha / (1 - 2 * d * c + d * d); }
template <typename T> static void ema_cutoff()
{
	int N = anyN(), n = anyn(N);
	DSP::EMA<T, T> ema;
	ema.cutoff(n, N);
	T alpha = ema(1);
	T c = sa_turn_cos(double(n) / N), d = 1 - alpha;
	sa_check_eq("half power at the cutoff", 2 * alpha * alpha, 1 - 2 * d * c + d * d, SA_TOL);
	double x = sa_real("x");
	sa_check_eq("unit gain at DC", ema(x), (1 - alpha) * alpha + alpha * x, SA_TOL);
}
extern "C" void sa_C14_cutoff() { ema_cutoff<double>(); }
extern "C" void sa_C14_cutofff() { ema_cutoff<float>(); }
extern "C" void sa_C14_cutoff_keeps()
{
	static const int ns[6] = { 1, 1, 3, 2, 1, 4999 }, Ns[6] = { 8, 3, 10, 9, 1000, 10000 };
	int w = sa_choose(6);
	double init = sa_real("init"), x = sa_real("x"), y = sa_real("y");
	DSP::EMA<double, double> probe, ema(init, 0.5);
	probe.cutoff(ns[w], Ns[w]);
	double alpha = probe(1);
	sa_check_le("weight of the new sample is positive", 0, alpha - 1e-6);
	sa_check_le("weight of the new sample is at most one", alpha, 1);
	ema(x);
	ema.cutoff(ns[w], Ns[w]);
	sa_check_eq("new cutoff keeps the average", ema(y), (1 - alpha) * (0.5 * init + 0.5 * x) + alpha * y, SA_TOL);
}
template <typename T, int ORDER> static void ema_cascade()
{
	DSP::EMACascade<T, T, ORDER> unset;
	double z = sa_real("z");
	sa_check_eq("unset cascade passes its input", unset(z), z, 0);
	static const int ns[4] = { 10, 1, 12345, 700 }, Ns[4] = { 480, 100, 1000000, 44100 };
	int w = sa_choose(4), n = ns[w], N = Ns[w];
	double c0 = sa_turn_cos(double(n) / N);
	double factor = std::sqrt(std::pow(2.0, 1.0 / ORDER) - 1);
	int m = std::nearbyint(n / factor);
	double c = sa_turn_cos(double(m) / N);
	double alpha = c - 1 + std::sqrt(c * (c - 4) + 3);
	DSP::EMACascade<T, T, ORDER> ema;
	ema.cutoff(n, N);
	if (w == 2) {
		double p = 1;
		for (int i = 0; i < ORDER; ++i)
			p *= power(alpha, c0);
		sa_check_eq("half power of the cascade at the cutoff", p, 0.5, 0.01);
	}
	double y[ORDER];
	for (int i = 0; i < ORDER; ++i)
		y[i] = 0;
	for (int k = 0; k < 3; ++k) {
		double v = sa_real("x");
		T r = ema(v);
		for (int i = 0; i < ORDER; ++i)
			v = y[i] = (1 - alpha) * y[i] + alpha * v;
		sa_check_eq("cascaded averages", r, v, sizeof(T) == 4 ? SA_TOLF : SA_TOL);
	}
}
extern "C" void sa_C14_cascade1() { ema_cascade<double, 1>(); }
extern "C" void sa_C14_cascade2() { ema_cascade<double, 2>(); }
extern "C" void sa_C14_cascade3() { ema_cascade<double, 3>(); ema_cascade<float, 3>(); }
extern "C" void sa_C14_cascade4() { ema_cascade<double, 4>(); ema_cascade<double, 5>(); }
extern "C" void sa_C14_cascade6() { ema_cascade<double, 6>(); ema_cascade<double, 7>(); }
extern "C" void sa_C14_cascade8() { ema_cascade<double, 8>(); ema_cascade<double, 9>(); }
extern "C" void sa_C14_cascade10() { ema_cascade<double, 10>(); ema_cascade<double, 11>(); }
extern "C" void sa_C14_cascade12() { ema_cascade<double, 12>(); ema_cascade<double, 13>(); }
extern "C" void sa_C14_cascade14() { ema_cascade<double, 14>(); ema_cascade<double, 15>(); }
extern "C" void sa_C14_cascade16() { ema_cascade<double, 16>(); }
template <typename T> static void blocker()
{
	DSP::BlockDC<T, T> f;
	double a = 0, b = 0.5, x1 = 0, y1 = 0;
	if (sa_choose(2)) {
		int s = anySamples();
		f.samples(s);
		a = (double(s) - 1) / s; // pole
		b = (1 + a) / 2;         // unit gain at Nyquist
	}
	while (sa_head(0)) {
		double x = sa_real("x");
		T y = f(x);
		y1 = b * (x - x1) + a * y1;
		x1 = x;
		sa_check_eq("DC blocker", y, y1, SA_TOL);
	}
}
extern "C" void sa_C14_blockdc() { blocker<double>(); }
extern "C" void sa_C14_blockdcf() { blocker<float>(); }
extern "C" void sa_C14_blockdc_switch()
{
	DSP::BlockDC<double, double> f;
	double u = sa_real("u"), v = sa_real("v");
	double y = f(u);
	f.samples(5);
	sa_check_eq("new time constant keeps the state", f(v), 0.9 * (v - u) + 0.8 * y, SA_TOL);
}
extern "C" void sa_C14_calculus()
{
	double c = sa_real("c"), p = sa_real("p");
	DSP::Integrator<double> integ(c), zero;
	DSP::Differentiator<double> diff(p), dzero, after(c);
	DSP::Integrator<double> back(p);
	double sum = c, prev = p, sz = 0, pz = 0;
	while (sa_head(0)) {
		double x = sa_real("x");
		sum += x;
		double s = integ(x);
		sa_check_eq("integral", s, sum, SA_TOL);
		sz += x;
		sa_check_eq("integral from zero", zero(x), sz, SA_TOL);
		double d = diff(x);
		sa_check_eq("difference", d, x - prev, SA_TOL);
		prev = x;
		sa_check_eq("difference from zero", dzero(x), x - pz, SA_TOL);
		pz = x;
		sa_check_eq("difference of the integral", after(s), x, SA_TOL);
		sa_check_eq("integral of the difference", back(d), x, SA_TOL);
	}
}
template <typename T> static void sine()
{
	DSP::NormalizeSine<T> f;
	int s = sa_int_in("s", 1, 2147483647);
	f.samples(s);
	double a = (double(s) - 1) / s, b = (1 + a) / 2, x1 = 0, y1 = 0, e = 0.5;
	while (sa_head(0)) {
		double x = sa_real("x");
		T y = f(x);
		y1 = b * (x - x1) + a * y1;
		x1 = x;
		e = (1 - 1.0 / s) * e + y1 * y1 * (1.0 / s);
		sa_check_eq("normalized sine", y, y1 / std::sqrt(2 * e), SA_TOL);
	}
}
extern "C" void sa_C14_sine() { sine<double>(); }
extern "C" void sa_C14_sinef() { sine<float>(); }
extern "C" void sa_C14_iq()
{
	DSP::NormalizeIQ<DSP::Complex<double>> iq;
	DSP::NormalizeSine<double> re, im;
	int s = sa_choose(3);
	s = s ? 10 * s - 1 : 1;
	iq.samples(s); re.samples(s); im.samples(s);
	for (int i = 0; i < 3; ++i) {
		double a = sa_real("a"), b = sa_real("b");
		DSP::Complex<double> y = iq(DSP::Complex<double>(a, b));
		sa_check_eq("normalized real part", y.real(), re(a), SA_TOL);
		sa_check_eq("normalized imaginary part", y.imag(), im(b), SA_TOL);
	}
}
