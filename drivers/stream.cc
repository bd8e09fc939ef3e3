// resamplers (C25), adaptive filters (C29), triggers and helpers (C30), demodulators (C31), oscillator (C32)
#include "sa.h"
#include "complex.hh"
#include "const.hh"
#include "resampler.hh"
#include "lms.hh"
#include "trigger.hh"
#include "utils.hh"
#include "fmd.hh"
#include "amd.hh"
#include "phasor.hh"

static const double PI = 3.14159265358979323846;
#define TOL(T) (sizeof(T) == 4 ? SA_TOLF : SA_TOL)

// C25: the kernel, tabulated here
template <int TAPS, int OVER> struct Kernel
{
	double v[TAPS*OVER];
	DSP::UniformNaturalCubicSpline<TAPS*OVER, double, double> spline;
	Kernel(double rate, double cutoff, double alpha)
	{
		double c = 2 * cutoff / rate;
		DSP::Kaiser<double> window(alpha);
		for (int n = 0; n < TAPS * OVER; ++n) {
			double x = double(n) / OVER - (TAPS - 1) / 2.0;
			double s = x == 0 ? 1 : sa_turn_sin(c * x / 2) / (PI * c * x);
			v[n] = c * s * window(n, TAPS * OVER);
		}
		spline = DSP::UniformNaturalCubicSpline<TAPS*OVER, double, double>(v);
	}
	double operator () (double d) { return spline(d * OVER); }
};
template <typename T, int TAPS, int OVER> static void block(int samples, int stride, double lo, double hi)
{
	const double rate = 48000, cutoff = 18000, alpha = 2;
	DSP::Resampler<T, TAPS, OVER> resample(rate, cutoff, alpha);
	Kernel<TAPS, OVER> kernel(rate, cutoff, alpha);
	int extent = samples ? (samples - 1) * stride + 1 : 0;
	T *in = new T[extent], *out = new T[extent], was[320];
	for (int i = 0; i < extent; ++i) {
		in[i] = sa_real("in");
		out[i] = was[i] = sa_real("out");
	}
	double ratio = lo == hi ? lo : sa_real_in("ratio", lo, hi);
	double diff = rate / ratio - rate;
	if (stride == 1 && TAPS & 1)
		resample(out, in, T(diff), samples);
	else
		resample(out, in, T(diff), samples, stride);
	bool written[320] = { false };
	for (int i = 0; i < samples - TAPS; ++i) {
		double x = i * ratio;
		int s0 = DSP::nearbyint(x);
		if (s0 < 0 || s0 + TAPS > samples)
			continue;
		double sum = 0;
		for (int s = s0; s < s0 + TAPS; ++s)
			sum += kernel(s - x) * in[s*stride];
		int o = (i + (TAPS - 1) / 2) * stride;
		written[o] = true;
		sa_check_eq("interpolated output", out[o], sum, TOL(T));
	}
	for (int i = 0; i < extent; ++i)
		if (!written[i])
			sa_check_eq("output left alone", out[i], was[i], 0);
}
extern "C" void sa_C25_block3() { block<double, 3, 2>(9, 1, 0.8, 1.3); }
extern "C" void sa_C25_block3s() { block<double, 3, 2>(8, 2, 0.9, 1.2); }
extern "C" void sa_C25_block4() { block<double, 4, 3>(9, 1, 0.9, 1.2); }
extern "C" void sa_C25_block4s() { block<double, 4, 2>(8, 3, 0.9, 1.2); }
extern "C" void sa_C25_block5() { block<double, 5, 2>(11, 1, 0.9, 1.1); }
extern "C" void sa_C25V_long() { double ratio = sa_choose(2) ? 1.0613 : 0.9537; block<double, 4, 2>(300, 1, ratio, ratio); }
extern "C" void sa_C25_block1() { block<double, 1, 3>(5, 1, 0.8, 1.2); }
extern "C" void sa_C25_block2() { block<double, 2, 1>(6, 1, 0.8, 1.2); }
extern "C" void sa_C25_back() { block<double, 3, 2>(7, 1, -0.4, -0.1); }
extern "C" void sa_C25_fast() { block<double, 3, 2>(10, 1, 1.9, 2.6); }
extern "C" void sa_C25_same() { block<double, 9, 4>(30, 1, 1, 1); block<double, 8, 4>(30, 2, 1, 1); block<float, 3, 4>(12, 1, 1, 1); }
extern "C" void sa_C25_short() { block<double, 5, 2>(5, 1, 0.5, 1.5); block<double, 5, 2>(3, 1, 0.5, 1.5); block<double, 5, 2>(0, 1, 0.5, 1.5); }
extern "C" void sa_C25_real() { block<double, 21, 4>(30, 1, 0.9995, 1.0005); }

template <typename T, int TAPS, int OVER> static void streaming(double range)
{
	const double rate = 8000, cutoff = 3000, alpha = 3;
	DSP::Resampler2<T, T, TAPS, OVER> resample(rate, cutoff, alpha);
	Kernel<TAPS, OVER> kernel(rate, cutoff, alpha);
	T last[TAPS];
	for (int i = 0; i < TAPS; ++i)
		last[i] = 0;
	T pos = 0;
	while (sa_head(0)) {
		T x = sa_real("x"), diff = sa_real_in("diff", -range * rate, range * rate), out[8], was = sa_real("out");
		for (int i = 0; i < 8; ++i)
			out[i] = was;
		int n = resample(out, x, diff);
		for (int i = 0; i + 1 < TAPS; ++i)
			last[i] = last[i+1];
		last[TAPS-1] = x;
		int m = 0;
		if (pos < T(-0.5)) {
			pos += 1;
		} else {
			for (bool more = true; more;) {
				sa_check_le("position within half a sample", pos, 0.5);
				sa_check_le("position within half a sample", -0.5, pos);
				T sum = 0;
				for (int i = 0; i < TAPS; ++i)
					sum += kernel(i + pos) * last[i];
				sa_check_eq("kernel-weighted sum of the last samples", out[m++], sum, TOL(T));
				pos += diff / rate;
				more = pos > T(0.5);
				if (more)
					pos -= 1;
			}
		}
		sa_check_eqi("number of outputs", n, m);
		for (int i = m; i < 8; ++i)
			sa_check_eq("further output left alone", out[i], was, 0);
	}
}
extern "C" void sa_C25_stream1() { streaming<double, 1, 3>(0.45); }
extern "C" void sa_C25_stream2() { streaming<double, 2, 2>(0.45); }
extern "C" void sa_C25_stream3() { streaming<double, 3, 2>(0.45); }
extern "C" void sa_C25_stream2fast() { streaming<double, 2, 2>(0.8); }
extern "C" void sa_C25_stream4() { streaming<double, 4, 3>(0.3); }
extern "C" void sa_C25_stream7() { streaming<double, 7, 4>(0.01); }

// C29
template <typename T, int N> static void nlms(bool mus)
{
	DSP::NLMS<T, N> lms;
	T f[N], h[N];
	for (int i = 0; i < N; ++i)
		f[i] = h[i] = 0;
	while (sa_head(0)) {
		T x = sa_real("x"), d = sa_real("d"), mu = mus ? sa_real("mu") : 1;
		T e = mus ? lms(x, d, mu) : lms(x, d);
		for (int i = 0; i + 1 < N; ++i)
			h[i] = h[i+1];
		h[N-1] = x;
		T p = d, power = 0;
		for (int i = 0; i < N; ++i) {
			p -= f[i] * h[i];
			power += h[i] * h[i];
		}
		sa_check_eq("prediction error", e, p, TOL(T));
		const T *g = lms;
		if (power != 0)
			for (int i = 0; i < N; ++i)
				f[i] = f[i] + mu * p * h[i] / power;
		for (int i = 0; i < N; ++i) {
			sa_check_eq("coefficient after the update", g[i], f[i], TOL(T));
			f[i] = g[i];
		}
	}
}
extern "C" void sa_C29_n1() { nlms<double, 1>(true); }
extern "C" void sa_C29_n2() { nlms<double, 2>(true); }
extern "C" void sa_C29_n3() { nlms<double, 3>(true); }
extern "C" void sa_C29_n4() { nlms<double, 4>(true); }
extern "C" void sa_C29_n5() { nlms<float, 5>(true); }
extern "C" void sa_C29_n6() { nlms<double, 6>(true); }
extern "C" void sa_C29_n7() { nlms<double, 7>(true); }
extern "C" void sa_C29_n8() { nlms<double, 8>(true); }
extern "C" void sa_C29_n16() { nlms<double, 16>(true); }
extern "C" void sa_C29_n33() { nlms<double, 33>(true); }
extern "C" void sa_C29_default3() { nlms<double, 3>(false); }
template <typename T, int N> static void nclms(bool mus)
{
	typedef DSP::Complex<T> C;
	DSP::NCLMS<C, N> lms;
	T fr[N], fi[N], hr[N], hi[N];
	for (int i = 0; i < N; ++i)
		fr[i] = fi[i] = hr[i] = hi[i] = 0;
	while (sa_head(0)) {
		T a = sa_real("a"), b = sa_real("b"), c = sa_real("c"), d = sa_real("d"), mu = mus ? sa_real("mu") : 1;
		C e = mus ? lms(C(a, b), C(c, d), mu) : lms(C(a, b), C(c, d));
		for (int i = 0; i + 1 < N; ++i)
			hr[i] = hr[i+1], hi[i] = hi[i+1];
		hr[N-1] = a;
		hi[N-1] = b;
		T p = c, q = d, power = 0;
		for (int i = 0; i < N; ++i) {
			p -= fr[i] * hr[i] - fi[i] * hi[i];
			q -= fr[i] * hi[i] + fi[i] * hr[i];
			power += hr[i] * hr[i] + hi[i] * hi[i];
		}
		sa_check_eq("prediction error, real part", e.real(), p, TOL(T));
		sa_check_eq("prediction error, imaginary part", e.imag(), q, TOL(T));
		const C *g = lms;
		if (power != 0)
			for (int i = 0; i < N; ++i) {
				fr[i] = fr[i] + mu * (p * hr[i] + q * hi[i]) / power;
				fi[i] = fi[i] + mu * (q * hr[i] - p * hi[i]) / power;
			}
		for (int i = 0; i < N; ++i) {
			sa_check_eq("coefficient after the update, real part", g[i].real(), fr[i], TOL(T));
			sa_check_eq("coefficient after the update, imaginary part", g[i].imag(), fi[i], TOL(T));
			fr[i] = g[i].real();
			fi[i] = g[i].imag();
		}
	}
}
extern "C" void sa_C29_c1() { nclms<double, 1>(true); }
extern "C" void sa_C29_c2() { nclms<double, 2>(true); }
extern "C" void sa_C29_c3() { nclms<double, 3>(true); }
extern "C" void sa_C29_c4() { nclms<double, 4>(true); }
extern "C" void sa_C29_c8() { nclms<double, 8>(true); }
extern "C" void sa_C29_c16() { nclms<double, 16>(true); }
extern "C" void sa_C29_cf3() { nclms<float, 3>(true); }
extern "C" void sa_C29_cdefault2() { nclms<double, 2>(false); }

// C30
template <typename T> static void schmitt(int how)
{
	T low = sa_real("low"), high = sa_real("high");
	bool level = how & 1;
	if (how > 1) {
		high = how > 3 ? T(1) / 3 : T(sa_real("threshold"));
		low = -high;
	} else {
		sa_assume(low <= high);
	}
	DSP::SchmittTrigger<T> trigger = how > 3 ? DSP::SchmittTrigger<T>() : how > 1 ? DSP::SchmittTrigger<T>(high, level) : DSP::SchmittTrigger<T>(low, high, level);
	if (how == 4)
		level = false;
	while (sa_head(0)) {
		T x = sa_real("x");
		bool now = trigger(x);
		if (!level && now)
			sa_check("switched on only above the high threshold", x > high);
		if (level && !now)
			sa_check("switched off only below the low threshold", x < low);
		if (level && now)
			sa_check("stays on only down to the low threshold", x >= low);
		if (!level && !now)
			sa_check("stays off only up to the high threshold", x <= high);
		level = now;
	}
}
extern "C" void sa_C30_schmitt() { schmitt<double>(0); }
extern "C" void sa_C30_schmittOn() { schmitt<double>(1); }
extern "C" void sa_C30_symmetric() { schmitt<double>(2); }
extern "C" void sa_C30_symmetricOn() { schmitt<float>(3); }
extern "C" void sa_C30_third() { schmitt<double>(4); }
extern "C" void sa_C30_two() // initial level of the two-threshold form defaults to off
{
	double low = sa_real("low"), high = sa_real("high");
	sa_assume(low <= high);
	DSP::SchmittTrigger<double> a(low, high), b(high);
	double x = sa_real("x");
	sa_check("starts off", a(x) == (x > high));
	sa_check("starts off, symmetric", b(x) == (x > high));
}
extern "C" void sa_C30_edges()
{
	int start = sa_choose(3);
	bool was = start == 1;
	DSP::FallingEdgeTrigger falling = start == 2 ? DSP::FallingEdgeTrigger() : DSP::FallingEdgeTrigger(was);
	DSP::RisingEdgeTrigger rising = start == 2 ? DSP::RisingEdgeTrigger() : DSP::RisingEdgeTrigger(was);
	while (sa_head(0)) {
		bool in = sa_int_in("level", 0, 1);
		sa_check("falling edge", falling(in) == (was && !in));
		sa_check("rising edge", rising(in) == (!was && in));
		was = in;
	}
}
template <typename T> static void helpers()
{
	T x = sa_real("x"), a = sa_real("a"), b = sa_real("b");
	sa_assume(a <= b);
	int s = DSP::signum(x);
	sa_check("sign", x > 0 ? s == 1 : x < 0 ? s == -1 : s == 0);
	sa_check("sign of zero", DSP::signum(T(0)) == 0);
	T c = DSP::clamp(x, a, b);
	sa_check("clamped value", x < a ? c == a : x > b ? c == b : c == x);
	sa_check_eq("clamped to one value", DSP::clamp(x, a, a), a, 0);
	sa_check_eq("interpolation", DSP::lerp(a, b, x), a + x * (b - a), TOL(T));
	sa_check_eq("interpolation at zero", DSP::lerp(a, b, T(0)), a, 0);
	sa_check_eq("interpolation at one", DSP::lerp(a, b, T(1)), b, 0);
	sa_check("impulse", x == 0 ? DSP::delta(x) == 1 : DSP::delta(x) == 0);
	sa_check("impulse at zero", DSP::delta(T(0)) == 1);
	if (x == 0)
		sa_check_eq("sinc at zero", DSP::sinc(x), 1, 0);
	else
		sa_check_eq("sinc", DSP::sinc(x) * PI * x, sa_turn_sin(x / 2), TOL(T));
	sa_check_eq("sinc at zero", DSP::sinc(T(0)), 1, 0);
	sa_check_eq("sinc at one half", DSP::sinc(T(0.5)), 2 / PI, TOL(T));
	sa_check_eq("sinc at one", DSP::sinc(T(1)), 0, TOL(T));
	T m = sa_real("m"), d = sa_real_in("d", 0.001, 1000);
	sa_check_eq("normal density", DSP::normal_pdf(x, m, d) * d * std::sqrt(2 * PI), std::exp(double(-(x - m) * (x - m) / (2 * d * d))), TOL(T));
	sa_check_eq("normal density at the mean", DSP::normal_pdf(m, m, d) * d, 1 / std::sqrt(2 * PI), TOL(T));
}
extern "C" void sa_C30_helpers() { helpers<double>(); }
extern "C" void sa_C30_helpersf() { helpers<float>(); }
extern "C" void sa_C30_integers()
{
	int x = sa_int_in("x", -2147483647 - 1, 2147483647), a = sa_int_in("a", -2147483647 - 1, 2147483647), b = sa_int_in("b", -2147483647 - 1, 2147483647);
	sa_assume(a <= b);
	int s = DSP::signum(x);
	sa_check("sign", x > 0 ? s == 1 : x < 0 ? s == -1 : s == 0);
	int c = DSP::clamp(x, a, b);
	sa_check("clamped value", x < a ? c == a : x > b ? c == b : c == x);
	sa_check("impulse", x == 0 ? DSP::delta(x) == 1 : DSP::delta(x) == 0);
	typedef DSP::Complex<double> C;
	double p = sa_real("p"), q = sa_real("q"), r = sa_real("r"), t = sa_real("t"), u = sa_real("u");
	C l = DSP::lerp(C(p, q), C(r, t), u);
	sa_check_eq("complex interpolation, real part", l.real(), p + u * (r - p), SA_TOL);
	sa_check_eq("complex interpolation, imaginary part", l.imag(), q + u * (t - q), SA_TOL);
}

// C31
template <typename F, typename T> static void fm(int kind, int bandwidths)
{
	typedef DSP::Complex<T> C;
	F fmd;
	T scale = 0, pr = 1, pi = 0, qr = 1, qi = 0, was = 0;
	if (bandwidths) {
		T bw = sa_real_in("bw", 0.001, 1);
		fmd.bandwidth(bw);
		scale = 1 / (bw * PI);
	}
	while (sa_head(0)) {
		T re = sa_real("re"), im = sa_real("im");
		if (kind == 2 || kind == 5)
			sa_assume(pr * pr + pi * pi > 1e-12);
		if (kind == 4)
			sa_assume(re * re + im * im > 1e-12);
		T y = fmd(C(re, im));
		T a = re * pr + im * pi, b = im * pr - re * pi, n = pr * pr + pi * pi;
		switch (kind) {
		case 1: {
			T phase = std::atan2(im, re), d = phase - was;
			was = phase;
			sa_check_eq("wrapped phase step", y, scale * (d < T(-PI) ? d + 2 * PI : d > T(PI) ? d - 2 * PI : d), TOL(T));
			break; }
		case 2: sa_check_eq("phase of the quotient", y, scale * std::atan2(b / n, a / n), TOL(T)); break;
		case 3: sa_check_eq("phase of the product with the conjugate", y, scale * std::atan2(b, a), TOL(T)); break;
		case 4: sa_check_eq("cross product over the power", y, scale * b / (re * re + im * im), TOL(T)); break;
		case 5: sa_check_eq("central difference over the power", y, scale / 2 * (pr * (im - qi) - pi * (re - qr)) / n, TOL(T)); break;
		}
		qr = pr; qi = pi;
		pr = re; pi = im;
	}
}
typedef DSP::Complex<double> CD;
typedef DSP::Complex<float> CF;
extern "C" void sa_C31_fmd1() { fm<DSP::FMD1<CD>, double>(1, 1); }
extern "C" void sa_C31_fmd2() { fm<DSP::FMD2<CD>, double>(2, 1); }
extern "C" void sa_C31_fmd3() { fm<DSP::FMD3<CD>, double>(3, 1); }
extern "C" void sa_C31_fmd4() { fm<DSP::FMD4<CD>, double>(4, 1); }
extern "C" void sa_C31_fmd5() { fm<DSP::FMD5<CD>, double>(5, 1); }
extern "C" void sa_C31_fmd1f() { fm<DSP::FMD1<CF>, float>(1, 1); }
extern "C" void sa_C31_fmd3f() { fm<DSP::FMD3<CF>, float>(3, 1); }
extern "C" void sa_C31_fmd4f() { fm<DSP::FMD4<CF>, float>(4, 1); }
extern "C" void sa_C31_unset() { fm<DSP::FMD1<CD>, double>(1, 0); fm<DSP::FMD2<CD>, double>(2, 0); fm<DSP::FMD3<CD>, double>(3, 0); fm<DSP::FMD4<CD>, double>(4, 0); fm<DSP::FMD5<CD>, double>(5, 0); }
template <typename T> static void am(int how)
{
	typedef DSP::Complex<T> C;
	DSP::AMD1<C> amd;
	T att = 0, dec = 0, lo = 0.001, hi = 1, idx = 1, avg = 0;
	if (how) {
		att = sa_real_in("att", 0, 1);
		dec = sa_real_in("dec", 0, 1);
		if (how == 2) {
			lo = sa_real_in("lo", 0.001, 0.1);
			hi = sa_real_in("hi", 0.1, 10);
			amd.agc(att, dec, lo, hi);
		} else {
			amd.agc(att, dec);
		}
		idx = sa_real_in("idx", 0.01, 1);
		amd.index(idx);
	}
	while (sa_head(0)) {
		T re = sa_real("re"), im = sa_real("im");
		T y = amd(C(re, im));
		T amp = std::sqrt(re * re + im * im);
		T k = amp < avg ? dec : att;
		avg = avg + k * (amp - avg);
		if (avg < lo)
			avg = lo;
		if (avg > hi)
			avg = hi;
		sa_check_eq("normalized amplitude", (y * idx + 1) * avg, amp * (1 + idx), TOL(T));
	}
}
extern "C" void sa_C31_amd() { am<double>(1); }
extern "C" void sa_C31_amdLimits() { am<double>(2); }
extern "C" void sa_C31_amdDefault() { am<double>(0); }
extern "C" void sa_C31_amdf() { am<float>(2); }

// C32: a state is a unit vector (reached by one call from the start) and a step
template <typename T> static void steps(DSP::Phasor<DSP::Complex<T>> &p, T phi, T theta, int how)
{
	typedef DSP::Complex<T> C;
	T c = std::cos(phi), s = std::sin(phi);
	if (how == 1)
		p.freq(theta / (2 * PI));
	else if (how == 2)
		p.omega(theta);
	C u = p();
	sa_check_eq("phase kept, real part", u.real(), c, TOL(T));
	sa_check_eq("phase kept, imaginary part", u.imag(), s, TOL(T));
	for (int i = 1; i < 4; ++i) {
		C v = p();
		sa_check_eq("advanced by the step, real part", v.real(), u.real() * std::cos(theta) - u.imag() * std::sin(theta), TOL(T));
		sa_check_eq("advanced by the step, imaginary part", v.imag(), u.real() * std::sin(theta) + u.imag() * std::cos(theta), TOL(T));
		sa_check_eq("unit magnitude", v.real() * v.real() + v.imag() * v.imag(), 1, TOL(T));
		u = v;
	}
	p.reset();
	C z = p();
	sa_check_eq("back at one after reset, real part", z.real(), 1, TOL(T));
	sa_check_eq("back at one after reset, imaginary part", z.imag(), 0, TOL(T));
	C w = p();
	sa_check_eq("step kept over reset, real part", w.real(), std::cos(theta), TOL(T));
	sa_check_eq("step kept over reset, imaginary part", w.imag(), std::sin(theta), TOL(T));
}
template <typename T> static void oscillator(int how)
{
	DSP::Phasor<DSP::Complex<T>> p;
	DSP::Complex<T> one = p();
	sa_check_eq("starts at one, real part", one.real(), 1, 0);
	sa_check_eq("starts at one, imaginary part", one.imag(), 0, 0);
	one = p();
	sa_check_eq("stays at one without a frequency, real part", one.real(), 1, TOL(T));
	sa_check_eq("stays at one without a frequency, imaginary part", one.imag(), 0, TOL(T));
	T phi = sa_real_in("phi", -100, 100), theta = sa_real_in("theta", -100, 100);
	p.omega(phi);
	p();
	steps<T>(p, phi, theta, how);
	DSP::Phasor<DSP::Complex<T>> q;
	T f = sa_real_in("f", -100, 100);
	q.freq(f);
	one = q();
	sa_check_eq("starts at one, real part", one.real(), 1, 0);
	sa_check_eq("starts at one, imaginary part", one.imag(), 0, 0);
	one = q();
	sa_check_eq("first step, real part", one.real(), sa_turn_cos(f), TOL(T));
	sa_check_eq("first step, imaginary part", one.imag(), sa_turn_sin(f), TOL(T));
	struct State { T prev[2], delta[2]; };
	sa_check("no other state", sizeof(State) == sizeof(q));
}
extern "C" void sa_C32_freq() { oscillator<double>(1); }
extern "C" void sa_C32_omega() { oscillator<double>(2); }
extern "C" void sa_C32_freqf() { oscillator<float>(1); }
// a step that is not exactly of unit length, as any rounded one: the magnitude must not follow it
template <typename T> static void drift()
{
	T theta = sa_real_in("theta", -100, 100);
	DSP::Phasor<DSP::Complex<T>> p;
	sa_gain(sa_real_in("gain", 0.99, 1.01));
	p.omega(theta);
	sa_gain(1);
	p();
	DSP::Complex<T> u(1, 0);
	for (int i = 1; i < 4; ++i) {
		DSP::Complex<T> v = p();
		sa_check_eq("unit magnitude in spite of rounding", v.real() * v.real() + v.imag() * v.imag(), 1, TOL(T));
		sa_check_eq("advanced in spite of rounding, real part", v.real(), u.real() * std::cos(theta) - u.imag() * std::sin(theta), TOL(T));
		sa_check_eq("advanced in spite of rounding, imaginary part", v.imag(), u.real() * std::sin(theta) + u.imag() * std::cos(theta), TOL(T));
		u = v;
	}
}
extern "C" void sa_C32_drift() { drift<double>(); }
extern "C" void sa_C32_driftf() { drift<float>(); }
template <typename T> static void rational()
{
	int N = sa_int_in("N", 1, 10000000), n = sa_int_in("n", -10000000, 10000000);
	sa_assume(n > -N && n < N);
	DSP::Phasor<DSP::Complex<T>> p;
	T phi = sa_real_in("phi", -100, 100);
	p.omega(phi);
	p();
	p.omega(n, N);
	DSP::Complex<T> u = p(), v = p();
	T c = sa_turn_cos(double(n) / N), s = sa_turn_sin(double(n) / N);
	sa_check_eq("fraction of a turn, real part", v.real(), u.real() * c - u.imag() * s, TOL(T));
	sa_check_eq("fraction of a turn, imaginary part", v.imag(), u.real() * s + u.imag() * c, TOL(T));
}
extern "C" void sa_C32_rational() { rational<double>(); }
extern "C" void sa_C32_rationalf() { rational<float>(); }
