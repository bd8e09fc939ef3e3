#include "sa.h"
#include "const.hh"
#include "unit_circle.hh"
#include "atan2.hh"
#include "exp.hh"
#include "decibel.hh"

static const double PI = 3.14159265358979323846;
template <typename V> struct Eps { static constexpr double value = 2e-15; };
template <> struct Eps<float> { static constexpr double value = 2.5e-7; };

// sine and cosine of n/N of a turn
template <typename T> static void circle()
{
	sa_inline_uc(1);
	int N = sa_int_in("N", 1, 268435455), n = sa_int_in("n", -268435455, 268435455);
	sa_assume(-N <= n);
	sa_assume(n <= N);
	if (sa_choose(2))
		sa_check_fn2("cosine of the fraction", DSP::UnitCircle<T>::cos(n, N), "cos2pi", n, N, Eps<T>::value);
	else
		sa_check_fn2("sine of the fraction", DSP::UnitCircle<T>::sin(n, N), "sin2pi", n, N, Eps<T>::value);
}
extern "C" void sa_C18_double() { circle<double>(); }
extern "C" void sa_C18_float() { circle<float>(); }
template <typename T> static void rad()
{
	sa_inline_uc(1);
	int N = sa_int_in("N", 1, 268435455), n = sa_int_in("n", -268435455, 268435455);
	sa_check_eq("angle of the fraction", DSP::UnitCircle<T>::rad(n, N), 2 * PI * n / N, 3e-7);
}
extern "C" void sa_C18_rad() { rad<double>(); rad<float>(); }
extern "C" void sa_C18_small() // the same on concrete circles: exact corner values
{
	sa_inline_uc(1);
	for (int N = 1; N < 26; ++N) {
		for (int n = -N; n <= N; ++n) {
			sa_check_eq("cosine", DSP::UnitCircle<double>::cos(n, N), sa_turn_cos(double(n) / N), 4e-16);
			sa_check_eq("sine", DSP::UnitCircle<double>::sin(n, N), sa_turn_sin(double(n) / N), 4e-16);
		}
	}
}

// arc tangent; the three ranges of the argument meet up to 1e-6
static const double T_LO = -0.20481924, T_HI = 0.41421352, U_HI = 0.41421352;
template <typename T> static void arc(int negative)
{
	double s = negative ? -1 : 1;
	switch (sa_choose(3)) {
	case 0: {
		double x = sa_real_in("x", 0, 0.6599999);
		sa_check_fn("arc tangent", s * DSP::atan<T>(s * x), "atan", x, Eps<T>::value);
		break;
	}
	case 1: {
		double t = sa_real_in("t", T_LO, T_HI); // around one: tan(pi/4 + atan t)
		double x = 2 / (1 - t) - 1;
		sa_check_fn("arc tangent of a middle argument", s * DSP::atan<T>(s * x) - PI / 4, "atan", t, Eps<T>::value);
		break;
	}
	default: {
		double u = sa_real_in("u", 1e-300, U_HI); // reciprocal of a large argument
		sa_check_fn("arc tangent of a large argument", PI / 2 - s * DSP::atan<T>(s / u), "atan", u, Eps<T>::value);
	}
	}
}
extern "C" void sa_C19_atan() { arc<double>(sa_choose(2)); }
extern "C" void sa_C19_atanf() { arc<float>(sa_choose(2)); }
// four quadrants; the ratio and the abscissa vary independently
template <typename T> static void arc2()
{
	int left = sa_choose(2), down = sa_choose(2);
	double m = sa_real_in("m", 1e-300, 1e300);
	T x = left ? -m : m;
	double s = down ? -1 : 1;
	// in the left half the angle is +-(pi - a)
	switch (sa_choose(3)) {
	case 0: {
		double r = sa_real_in("r", 0, 0.6599999);
		sa_assume(r > 0);
		T v = s * DSP::atan2<T>(s * r * m, x);
		if (left) sa_check_fn("two-argument arc tangent, left", PI - v, "atan", r, 2 * Eps<T>::value);
		else sa_check_fn("two-argument arc tangent, right", v, "atan", r, 2 * Eps<T>::value);
		break;
	}
	case 1: {
		double t = sa_real_in("t", T_LO, T_HI);
		T v = s * DSP::atan2<T>(s * (2 / (1 - t) - 1) * m, x);
		if (left) sa_check_fn("diagonal two-argument arc tangent, left", 3 * PI / 4 - v, "atan", t, 2 * Eps<T>::value);
		else sa_check_fn("diagonal two-argument arc tangent, right", v - PI / 4, "atan", t, 2 * Eps<T>::value);
		break;
	}
	default: {
		double u = sa_real_in("u", 1e-300, U_HI);
		T v = s * DSP::atan2<T>(s * m / u, x);
		if (left) sa_check_fn("steep two-argument arc tangent, left", v - PI / 2, "atan", u, 2 * Eps<T>::value);
		else sa_check_fn("steep two-argument arc tangent, right", PI / 2 - v, "atan", u, 2 * Eps<T>::value);
	}
	}
}
extern "C" void sa_C19_atan2() { arc2<double>(); }
extern "C" void sa_C19_atan2f() { arc2<float>(); }
template <typename T> static void axes()
{
	double m = sa_real_in("m", 1e-300, 1e300);
	sa_check_eq("on the positive real axis", DSP::atan2<T>(0, m), 0, 0);
	sa_check_eq("on the negative real axis", DSP::atan2<T>(0, -m), PI, Eps<T>::value);
	sa_check_eq("on the positive imaginary axis", DSP::atan2<T>(m, 0), PI / 2, Eps<T>::value);
	sa_check_eq("on the negative imaginary axis", DSP::atan2<T>(-m, 0), -PI / 2, Eps<T>::value);
	sa_check_eq("at the origin", DSP::atan2<T>(0, 0), 0, 0);
	sa_check_eq("on the positive imaginary axis, negative zero", DSP::atan2<T>(m, -0.0), PI / 2, Eps<T>::value);
	sa_check_eq("on the negative imaginary axis, negative zero", DSP::atan2<T>(-m, -0.0), -PI / 2, Eps<T>::value);
}
extern "C" void sa_C19_axes() { axes<double>(); axes<float>(); }

// scaling by powers of two
template <typename T> static void scale(int lo, int hi)
{
	double x = sa_real("x");
	double p = 1;
	for (int n = 0; n <= hi; ++n, p *= 2)
		sa_check_eq("scaling by a power of two", DSP::ldexp<T>(x, n), x * p, 0);
	p = 1;
	for (int n = 0; n >= lo; --n, p /= 2)
		sa_check_eq("scaling by a negative power of two", DSP::ldexp<T>(x, n), x * p, 0);
}
extern "C" void sa_C20_ldexp() { scale<double>(-1022, 1023); }
extern "C" void sa_C20_ldexpf() { scale<float>(-126, 127); }
// the argument is k lg 2 + w with |w| <= lg 2 / 2, the power of ten 2^k times that of w
static const double LG2 = 0.30102999566398119521;
template <typename T> static void powers(int range, double tol, int level)
{
	int k = sa_choose(2 * range + 1) - range;
	double w = sa_real_in("w", -0.5 * LG2, 0.5 * LG2), p = 1;
	for (int i = 0; i < k; ++i)
		p *= 2;
	for (int i = 0; i > k; --i)
		p /= 2;
	if (level)
		sa_check_fnrel("from decibel", DSP::idecibel<T>(10 * (k * LG2 + w)) / p, "exp10", w, tol);
	else
		sa_check_fnrel("power of ten", DSP::exp10<T>(k * LG2 + w) / p, "exp10", w, tol);
}
extern "C" void sa_C20_exp10() { powers<double>(1020, 1e-12, 0); }
extern "C" void sa_C20_exp10f() { powers<float>(122, 1e-5, 0); }
extern "C" void sa_C20_idecibel() { powers<double>(1020, 1e-9, 1); }
extern "C" void sa_C20_idecibelf() { powers<float>(122, 1e-5, 1); }
template <typename T> static void decibels(double lo, double hi, double tol)
{
	// argument t^1024; the level is 1024 times that of t
	double t = sa_real_in("t", lo, hi);
	double v = t;
	for (int i = 0; i < 10; ++i)
		v *= v;
	sa_check_fn("to decibel", DSP::decibel<T>(v) / 1024, "10log10", t, tol);
}
extern "C" void sa_C20_decibel() { decibels<double>(0.934, 1.071, 1e-12); }
extern "C" void sa_C20_decibelf() { decibels<float>(0.92, 1.09, 1e-6); }
extern "C" void sa_C20_exact()
{
	static const double v[9] = { 1, 10, 100, 0.1, 0.01, 1e10, 1e-10, 1e30, 1e-30 };
	static const double dB[9] = { 0, 10, 20, -10, -20, 100, -100, 300, -300 };
	for (int i = 0; i < 9; ++i) {
		sa_check_eq("decibel of a power of ten", DSP::decibel(v[i]), dB[i], 1e-7);
		sa_check_eq("power of ten of a decibel", DSP::idecibel(dB[i]) / v[i], 1, 1e-9);
		sa_check_eq("there and back", DSP::decibel(DSP::idecibel(dB[i])), dB[i], 1e-7);
	}
}
