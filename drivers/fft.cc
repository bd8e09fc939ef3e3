#include "sa.h"
#include "complex.hh"
#include "fft.hh"
#include "fdzp.hh"

template <typename V> struct Tol { static constexpr double value = SA_TOL; };
template <> struct Tol<float> { static constexpr double value = SA_TOLF; };

// the defining sum
template <typename C> static C dft(const C *in, int k, int N, int sign)
{
	typedef typename C::value_type V;
	V re = 0, im = 0;
	for (int n = 0; n < N; ++n) {
		double t = double((long(n) * k) % N) / N;
		V c = sa_turn_cos(t), s = sign * sa_turn_sin(t);
		re += c * in[n].real() - s * in[n].imag();
		im += c * in[n].imag() + s * in[n].real();
	}
	return C(re, im);
}
template <typename C> static void same(const char *lr, const char *li, C a, C b)
{
	sa_check_eq(lr, a.real(), b.real(), Tol<typename C::value_type>::value);
	sa_check_eq(li, a.imag(), b.imag(), Tol<typename C::value_type>::value);
}
template <int N, typename V, int SIGN> static void transform()
{
	typedef DSP::Complex<V> C;
	static C in[N], out[N], re[N];
	static DSP::FastFourierTransform<N, C, SIGN> fft;
	for (int call = 0; call < (N <= 9 ? 2 : 1); ++call) {
		for (int n = 0; n < N; ++n)
			re[n] = in[n] = C(sa_real("re"), sa_real("im"));
		fft(out, in);
		for (int k = 0; k < N; ++k)
			same("real part of bin", "imaginary part of bin", out[k], dft(re, k, N, SIGN));
		for (int n = 0; n < N; ++n) {
			sa_check_eq("input left unchanged", in[n].real(), re[n].real(), 0);
			sa_check_eq("input left unchanged", in[n].imag(), re[n].imag(), 0);
		}
	}
}
template <int N> static void transforms()
{
	if (sa_choose(2))
		transform<N, double, -1>();
	else
		transform<N, double, 1>();
}
template <int N> static void transformsf()
{
	if (sa_choose(2))
		transform<N, float, -1>();
	else
		transform<N, float, 1>();
}
#define SIZE(N) extern "C" void sa_C09_n##N() { transforms<N>(); }
#define SIZEF(N) extern "C" void sa_C09_f##N() { transformsf<N>(); }
SIZE(1) SIZE(2) SIZE(3) SIZE(4) SIZE(5) SIZE(6) SIZE(7) SIZE(8) SIZE(9) SIZE(10) SIZE(11) SIZE(12) SIZE(13) SIZE(14) SIZE(15) SIZE(16)
SIZE(17) SIZE(18) SIZE(19) SIZE(20) SIZE(21) SIZE(22) SIZE(23) SIZE(24) SIZE(25) SIZE(26) SIZE(27) SIZE(28) SIZE(29) SIZE(30) SIZE(31) SIZE(32)
SIZE(33) SIZE(34) SIZE(35) SIZE(36) SIZE(38) SIZE(39) SIZE(40) SIZE(45) SIZE(46) SIZE(48) SIZE(49) SIZE(51) SIZE(57) SIZE(58) SIZE(62) SIZE(63) SIZE(64)
SIZE(69) SIZE(87) SIZE(93) SIZE(96) SIZE(121) SIZE(128) SIZE(169)
SIZEF(1) SIZEF(2) SIZEF(3) SIZEF(4) SIZEF(5) SIZEF(7) SIZEF(8) SIZEF(11) SIZEF(12) SIZEF(13) SIZEF(16) SIZEF(32)
// squares of the larger radices: the inner butterfly runs with a stride
#define SIZEQ(N) extern "C" void sa_C09V_n##N() { transform<N, double, -1>(); } extern "C" void sa_C09V_i##N() { transform<N, double, 1>(); }
SIZEQ(256) SIZEQ(289) SIZEQ(361) SIZEQ(512) SIZEQ(529) SIZEQ(841) SIZEQ(961)
// longer ones: any values where the index leaves remainder zero or P-1 with P, zeros elsewhere, so that the stages below
// the outer ones are seen with a stride and with a quotient
template <int N, int P, int SIGN> static void sparse()
{
	typedef DSP::Complex<double> C;
	static C in[N], out[N];
	static DSP::FastFourierTransform<N, C, SIGN> fft;
	for (int n = 0; n < N; ++n)
		in[n] = n % P == 0 || n % P == P - 1 ? C(sa_real("re"), sa_real("im")) : C(0, 0);
	fft(out, in);
	for (int k = 0; k < N; ++k) {
		double re = 0, im = 0;
		for (int n = 0; n < N; n += (n + 1) % P ? P - 1 : 1) {
			double t = double((long(n) * k) % N) / N;
			double c = sa_turn_cos(t), s = SIGN * sa_turn_sin(t);
			re += c * in[n].real() - s * in[n].imag();
			im += c * in[n].imag() + s * in[n].real();
		}
		same("real part of bin", "imaginary part of bin", out[k], C(re, im));
	}
}
#define SPARSE(N, P) extern "C" void sa_C09_n##N() { sparse<N, P, -1>(); } extern "C" void sa_C09V_i##N() { sparse<N, P, 1>(); }
SIZE(50) SIZE(54) SIZE(70) SIZE(75) SIZE(98) SIZE(105)
SPARSE(192, 3) SPARSE(242, 11) SPARSE(338, 13) SPARSE(578, 17) SPARSE(646, 19) SPARSE(722, 19) SPARSE(768, 6) SPARSE(1058, 23) SPARSE(1682, 29) SPARSE(1922, 31)
SPARSE(1024, 32) SPARSE(2048, 64) SPARSE(4096, 128)

// real input
template <int N, typename V> static void real_transform()
{
	typedef DSP::Complex<V> C;
	static V in[N], keep[N];
	static C out[N/2+1], full[N];
	static DSP::RealToHalfComplexTransform<N, C> fft;
	for (int call = 0; call < (N <= 12 ? 2 : 1); ++call) {
		for (int n = 0; n < N; ++n) {
			keep[n] = in[n] = sa_real("x");
			full[n] = C(in[n], 0);
		}
		fft(out, in);
		sa_check_init("every bin is written", out, sizeof(out));
		for (int k = 0; k <= N/2; ++k) {
			C ref = dft(full, k, N, -1);
			V w = k == 0 || k == N/2 ? 0.5 : 1; // DC and Nyquist at half weight
			same("real part of bin", "imaginary part of bin", out[k], C(w * ref.real(), w * ref.imag()));
		}
		for (int n = 0; n < N; ++n)
			sa_check_eq("input left unchanged", in[n], keep[n], 0);
	}
}
#define REAL(N) extern "C" void sa_C10_n##N() { real_transform<N, double>(); }
#define REALF(N) extern "C" void sa_C10_f##N() { real_transform<N, float>(); }
REAL(2) REAL(4) REAL(6) REAL(8) REAL(10) REAL(12) REAL(14) REAL(16) REAL(18) REAL(20) REAL(22) REAL(24) REAL(26) REAL(28) REAL(30) REAL(32)
REAL(34) REAL(36) REAL(38) REAL(40) REAL(46) REAL(58) REAL(62) REAL(64) REAL(66) REAL(96) REAL(128) REAL(124) REAL(242)
extern "C" void sa_C10V_n300() { real_transform<300, double>(); }
extern "C" void sa_C10V_n512() { real_transform<512, double>(); }
REALF(2) REALF(4) REALF(6) REALF(8) REALF(10) REALF(12) REALF(16) REALF(18) REALF(64)

// interpolation by zero padding
template <int OUT, int IN, typename V> static void padding()
{
	typedef DSP::Complex<V> C;
	static C in[IN], out[OUT], bins[IN];
	static DSP::FDZP<OUT, IN, C> zp;
	for (int call = 0; call < 2; ++call) {
		C keep[IN];
		for (int n = 0; n < IN; ++n)
			keep[n] = in[n] = C(sa_real("re"), sa_real("im"));
		zp(out, in);
		for (int k = 0; k < IN; ++k)
			bins[k] = dft(keep, k, IN, -1);
		for (int m = 0; m < OUT; ++m) {
			V re = 0, im = 0;
			// frequencies -IN/2..IN/2, both ends at half weight when IN is even
			for (int f = -(IN/2); f <= IN/2; ++f) {
				C b = bins[(f + IN) % IN];
				V w = (IN % 2 == 0 && (f == IN/2 || f == -(IN/2))) ? 0.5 / IN : 1.0 / IN;
				double t = double(((long(f) * m) % OUT + OUT) % OUT) / OUT;
				V c = w * V(sa_turn_cos(t)), s = w * V(sa_turn_sin(t));
				re += c * b.real() - s * b.imag();
				im += c * b.imag() + s * b.real();
			}
			same("real part of interpolated sample", "imaginary part of interpolated sample", out[m], C(re, im));
		}
		for (int n = 0; n < IN; ++n) {
			sa_check_eq("input left unchanged", in[n].real(), keep[n].real(), 0);
			sa_check_eq("input left unchanged", in[n].imag(), keep[n].imag(), 0);
		}
	}
}
#define PAD(O, I) extern "C" void sa_C11_p##O##_##I() { padding<O, I, double>(); }
#define PADF(O, I) extern "C" void sa_C11_f##O##_##I() { padding<O, I, float>(); }
PAD(2, 1) PAD(3, 1) PAD(4, 1) PAD(3, 2) PAD(4, 2) PAD(5, 2) PAD(6, 2) PAD(4, 3) PAD(5, 3) PAD(6, 3) PAD(7, 3) PAD(9, 3)
PAD(5, 4) PAD(6, 4) PAD(7, 4) PAD(8, 4) PAD(9, 4) PAD(12, 4) PAD(16, 4) PAD(6, 5) PAD(7, 5) PAD(8, 5) PAD(9, 5) PAD(10, 5) PAD(13, 5)
PAD(7, 6) PAD(8, 6) PAD(9, 6) PAD(10, 6) PAD(12, 6) PAD(8, 7) PAD(9, 7) PAD(10, 7) PAD(11, 7) PAD(14, 7) PAD(21, 7)
PAD(9, 8) PAD(10, 8) PAD(11, 8) PAD(12, 8) PAD(16, 8) PAD(24, 8) PAD(32, 8) PAD(10, 9) PAD(12, 9) PAD(18, 9) PAD(32, 15) PAD(20, 16) PAD(32, 16) PAD(35, 33)
extern "C" void sa_C11V_p300_8() { padding<300, 8, double>(); }
extern "C" void sa_C11V_p168_160() { padding<168, 160, double>(); }
PADF(4, 2) PADF(5, 3) PADF(8, 4) PADF(10, 5) PADF(9, 8)
