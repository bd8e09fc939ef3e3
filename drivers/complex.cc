#include "sa.h"
#include "complex.hh"

#define EQ(L, C, R, I) do { auto c_ = (C); sa_check_eq(L " (real part)", c_.real(), (R), SA_TOL); sa_check_eq(L " (imaginary part)", c_.imag(), (I), SA_TOL); } while (0)
template <typename T> static void plain()
{
	typedef DSP::Complex<T> C;
	T a = sa_real("a"), b = sa_real("b"), c = sa_real("c"), d = sa_real("d"), s = sa_real("s");
	const C x(a, b), y(c, d);
	EQ("default construction", C(), 0, 0);
	EQ("construction from a real", C(s), s, 0);
	EQ("construction", x, a, b);
	EQ("sum", x + y, a + c, b + d);
	EQ("difference", x - y, a - c, b - d);
	EQ("plus sign", +x, a, b);
	EQ("negative", -x, -a, -b);
	EQ("product", x * y, a * c - b * d, a * d + b * c);
	EQ("scaling", s * x, s * a, s * b);
	EQ("conjugate", conj(x), a, -b);
	sa_check_eq("norm", norm(x), a * a + b * b, SA_TOL);
	sa_check_eq("modulus", abs(x), std::sqrt(a * a + b * b), SA_TOL);
	sa_check_eq("argument", arg(x), std::atan2(double(b), double(a)), SA_TOL);
	C p = DSP::polar(s, a);
	EQ("polar form", p, s * std::cos(a), s * std::sin(a));
	sa_check_eq("norm of the polar form", norm(p), s * s, SA_TOL);
	C z(x);
	z.real(c);
	EQ("setting the real part", z, c, b);
	z.imag(d);
	EQ("setting the imaginary part", z, c, d);
}
template <typename T> static void division()
{
	typedef DSP::Complex<T> C;
	T a = sa_real("a"), b = sa_real("b"), c = sa_real("c"), d = sa_real("d"), s = sa_real("s");
	sa_assume(c * c + d * d > 0);
	sa_assume(s != 0);
	const C x(a, b), y(c, d);
	EQ("quotient", x / y, (a * c + b * d) / (c * c + d * d), (b * c - a * d) / (c * c + d * d));
	EQ("quotient times divisor", (x / y) * y, a, b);
	EQ("division by a real", x / s, a / s, b / s);
	EQ("real divided", s / y, s * c / (c * c + d * d), -s * d / (c * c + d * d));
	EQ("real divided times divisor", (s / y) * y, s, 0);
	C z(x);
	EQ("value of /=", z /= y, (x / y).real(), (x / y).imag());
	EQ("effect of /=", z, (x / y).real(), (x / y).imag());
	z = x;
	EQ("value of /= by a real", z /= s, a / s, b / s);
	EQ("effect of /= by a real", z, a / s, b / s);
	z = y;
	z /= z;
	EQ("divided by itself", z, 1, 0);
}
template <typename T> static void compound()
{
	typedef DSP::Complex<T> C;
	T a = sa_real("a"), b = sa_real("b"), c = sa_real("c"), d = sa_real("d"), s = sa_real("s");
	const C x(a, b), y(c, d);
	C z(x);
	EQ("value of +=", z += y, a + c, b + d);
	EQ("effect of +=", z, a + c, b + d);
	z = x;
	EQ("value of -=", z -= y, a - c, b - d);
	EQ("effect of -=", z, a - c, b - d);
	z = x;
	EQ("value of *=", z *= y, a * c - b * d, a * d + b * c);
	EQ("effect of *=", z, a * c - b * d, a * d + b * c);
	z = x;
	EQ("value of *= by a real", z *= s, a * s, b * s);
	EQ("effect of *= by a real", z, a * s, b * s);
	EQ("assigning a real (value)", z = s, s, 0);
	EQ("assigning a real", z, s, 0);
	z = x;
	EQ("assignment", z, a, b);
	z += z;
	EQ("added to itself", z, 2 * a, 2 * b);
	z = x;
	z -= z;
	EQ("subtracted from itself", z, 0, 0);
	z = x;
	z *= z;
	EQ("multiplied by itself", z, a * a - b * b, 2 * a * b);
	z = x;
	z *= z.imag();
	EQ("scaled by its own part", z, a * b, b * b);
	z = x;
	z = z.imag();
	EQ("assigned its own imaginary part", z, b, 0);
	z = x;
	z = z;
	EQ("assigned to itself", z, a, b);
	sa_check_eq("right operand of a compound assignment", y.real(), c, 0);
	sa_check_eq("right operand of a compound assignment", y.imag(), d, 0);
}
template <typename T> static void compare()
{
	typedef DSP::Complex<T> C;
	T a = sa_real("a"), b = sa_real("b"), c = sa_real("c"), d = sa_real("d");
	const C x(a, b), y(c, d);
	bool same = a == c && b == d;
	sa_check_eqi("equality", x == y, same);
	sa_check_eqi("inequality", x != y, !same);
	sa_check("equality with itself", x == x);
	sa_check("inequality with itself", !(x != x));
}
template <typename T> static void all()
{
	switch (sa_choose(4)) {
	case 0: plain<T>(); break;
	case 1: division<T>(); break;
	case 2: compound<T>(); break;
	default: compare<T>();
	}
}
extern "C" void sa_C12_double() { all<double>(); }
extern "C" void sa_C12_float() { all<float>(); }
extern "C" void sa_C12_long_double() { all<long double>(); }
// integer components: exact as long as nothing overflows
extern "C" void sa_C12_int()
{
	typedef DSP::Complex<int> C;
	const int M = 20000;
	int a = sa_int_in("a", -M, M), b = sa_int_in("b", -M, M), c = sa_int_in("c", -M, M), d = sa_int_in("d", -M, M), s = sa_int_in("s", -M, M);
	const C x(a, b), y(c, d);
	EQ("integer sum", x + y, a + c, b + d);
	EQ("integer difference", x - y, a - c, b - d);
	EQ("integer product", x * y, a * c - b * d, a * d + b * c);
	EQ("integer scaling", s * x, s * a, s * b);
	EQ("integer conjugate", conj(x), a, -b);
	EQ("integer negative", -x, -a, -b);
	sa_check_eqi("integer norm", norm(x), a * a + b * b);
}
