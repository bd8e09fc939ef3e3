// splines (C21, C22), regression (C23) and robust line estimators (C24)
#include "sa.h"
#include "complex.hh"
#include "spline.hh"
#include "regression.hh"
#include "theil_sen.hh"
#include "repeated_median.hh"

// C21: the coefficients of each segment are recovered from four evaluations; they must describe the segment
// between the knots and meet the interpolation, smoothness and end conditions
template <typename T> struct Cubic { T a, b, c, d; };
template <typename T> static Cubic<T> fit(T v0, T v1, T v2, T v3) // values at 0, 1/4, 1/2, 3/4
{
	T d1 = v1 - v0, d2 = v2 - v1 - d1, d3 = v3 - v2 - (v2 - v1) - d2;
	// Newton form in u = 4 t: v0 + d1 u + d2 u(u-1)/2 + d3 u(u-1)(u-2)/6
	T c1 = d1 - d2 / 2 + d3 / 3, c2 = d2 / 2 - d3 / 2, c3 = d3 / 6;
	return Cubic<T>{ v0, c1 * 4, c2 * 16, c3 * 64 };
}
template <int KNOTS, typename T> static void natural(const T *y, int stride, T x0, T dx, bool defaults, double tol)
{
	typedef DSP::UniformNaturalCubicSpline<KNOTS, T, T> Spline;
	Spline spline;
	if (defaults)
		spline = Spline(y);
	else
		spline = Spline(y, x0, dx, stride);
	Cubic<T> p[KNOTS-1];
	for (int k = 0; k < KNOTS - 1; ++k) {
		T v[4];
		for (int j = 0; j < 4; ++j)
			v[j] = spline(x0 + dx * (k + T(j) / 4));
		p[k] = fit(v[0], v[1], v[2], v[3]);
		sa_check_eq("knot on the left of a segment", p[k].a, y[k*stride], tol);
		sa_check_eq("knot on the right of a segment", p[k].a + p[k].b + p[k].c + p[k].d, y[(k+1)*stride], tol);
		double t = sa_real_in("t", 0, 0.9999999);
		sa_check_eq("inside a segment", spline(x0 + dx * (k + t)), p[k].a + t * (p[k].b + t * (p[k].c + t * p[k].d)), tol);
	}
	for (int k = 0; k < KNOTS; ++k)
		sa_check_eq("at a knot", spline(x0 + dx * k), y[k*stride], tol);
	for (int k = 1; k < KNOTS - 1; ++k) {
		sa_check_eq("continuous slope", p[k-1].b + 2 * p[k-1].c + 3 * p[k-1].d, p[k].b, 4 * tol);
		sa_check_eq("continuous curvature", 2 * p[k-1].c + 6 * p[k-1].d, 2 * p[k].c, 4 * tol);
	}
	sa_check_eq("no curvature at the start", p[0].c, 0, 4 * tol);
	sa_check_eq("no curvature at the end", 2 * p[KNOTS-2].c + 6 * p[KNOTS-2].d, 0, 4 * tol);
	double t = sa_real_in("before", -9, 0);
	sa_check_eq("before the first knot", spline(x0 + dx * t), p[0].a + t * (p[0].b + t * (p[0].c + t * p[0].d)), 30 * tol);
	double u = sa_real_in("after", 1, 9);
	sa_check_eq("after the last knot", spline(x0 + dx * (KNOTS - 2 + u)), p[KNOTS-2].a + u * (p[KNOTS-2].b + u * (p[KNOTS-2].c + u * p[KNOTS-2].d)), 30 * tol);
}
template <int KNOTS, typename T> static void naturals(double tol)
{
	const int S = 3;
	T y[KNOTS*S];
	for (int i = 0; i < KNOTS * S; ++i)
		y[i] = sa_real("y");
	natural<KNOTS, T>(sa_exact(y, KNOTS), 1, 0, 1, true, tol);
	natural<KNOTS, T>(sa_exact(y, KNOTS), 1, sa_real_in("x0", -1000, 1000), sa_real_in("dx", 0.01, 100), false, tol);
	natural<KNOTS, T>(sa_exact(y, 2 * KNOTS - 1), 2, 3, 0.25, false, tol);
	natural<KNOTS, T>(y + (KNOTS - 1) * S, -S, sa_real_in("x0", -1000, 1000), 2, false, tol);
	natural<KNOTS, T>(sa_exact(y, (KNOTS - 1) * S + 1), S, -5, -0.5, false, tol);
}
extern "C" void sa_C21_n2() { naturals<2, double>(SA_TOL); }
extern "C" void sa_C21_n3() { naturals<3, double>(SA_TOL); }
extern "C" void sa_C21_n4() { naturals<4, double>(SA_TOL); }
extern "C" void sa_C21_n5() { naturals<5, double>(SA_TOL); }
extern "C" void sa_C21_n6() { naturals<6, double>(SA_TOL); }
extern "C" void sa_C21_n7() { naturals<7, double>(SA_TOL); }
extern "C" void sa_C21_n12() { naturals<12, double>(SA_TOL); }
extern "C" void sa_C21_n33() { naturals<33, double>(SA_TOL); }
extern "C" void sa_C21_n48() { naturals<48, double>(SA_TOL); }
extern "C" void sa_C21V_n150() { naturals<150, double>(1e-6); }
extern "C" void sa_C21_f5() { naturals<5, float>(SA_TOLF); }
extern "C" void sa_C21_complex()
{
	typedef DSP::Complex<double> C;
	C y[6]; double r[6], q[6];
	for (int i = 0; i < 6; ++i)
		y[i] = C(r[i] = sa_real("r"), q[i] = sa_real("q"));
	DSP::UniformNaturalCubicSpline<6, C, double> s(y, 1, 2);
	DSP::UniformNaturalCubicSpline<6, double, double> a(r, 1, 2), b(q, 1, 2);
	for (int k = -1; k < 6; ++k) {
		double x = 1 + 2 * (k + sa_real_in("t", 0, 0.9999999));
		sa_check_eq("complex spline, real part", s(x).real(), a(x), SA_TOL);
		sa_check_eq("complex spline, imaginary part", s(x).imag(), b(x), SA_TOL);
	}
}

// C22
template <typename T> static T hermite(T y0, T m0, T y1, T m1, T u, T h)
{
	T s = y1 - y0;
	return y0 + u * (m0 * h + u * (3 * s - h * (2 * m0 + m1) + u * (h * (m0 + m1) - 2 * s)));
}
template <typename T> static void table(const T *X, const T *Y, int n, double tol)
{
	typedef DSP::CubicHermiteSpline<T, T> Spline;
	T m[160];
	for (int i = 0; i < n; ++i) {
		T l = i ? (Y[i] - Y[i-1]) / (X[i] - X[i-1]) : 0;
		T r = i < n - 1 ? (Y[i+1] - Y[i]) / (X[i+1] - X[i]) : 0;
		m[i] = i && i < n - 1 ? (l + r) / 2 : l + r;
		sa_check_eq("at a point", Spline::eval(X, Y, X[i], n), Y[i], tol);
	}
	int k = sa_choose(n + 1) - 1;
	T x = sa_real("x");
	if (k >= 0)
		sa_assume(x > X[k]);
	if (k < n - 1)
		sa_assume(x < X[k+1]);
	if (k < 0)
		sa_assume(x > X[0] - 10);
	if (k > n - 2)
		sa_assume(x < X[n-1] + 10);
	int s = k < 0 ? 0 : k > n - 2 ? n - 2 : k;
	T h = X[s+1] - X[s];
	sa_check_eq("between, before or after the points", Spline::eval(X, Y, x, n), hermite<T>(Y[s], m[s], Y[s+1], m[s+1], (x - X[s]) / h, h), tol);
}
template <typename T> static void tables(int n, double tol)
{
	T *X = new T[n], *Y = new T[n];
	for (int i = 0; i < n; ++i)
		Y[i] = sa_real("y");
	X[0] = sa_real("x");
	for (int i = 1; i < n; ++i)
		X[i] = X[i-1] + sa_real_in("gap", 0.01, 100);
	table<T>(X, Y, n, tol);
}
template <typename T> static void fixedTables(int n, double tol)
{
	T *X = new T[n], *Y = new T[n];
	for (int i = 0; i < n; ++i)
		Y[i] = sa_real("y");
	for (int i = 0; i < n; ++i)
		X[i] = -3 + i * (i + 5) * T(0.125);
	table<T>(X, Y, n, tol);
}
extern "C" void sa_C22_n3() { tables<double>(3, SA_TOL); }
extern "C" void sa_C22_n4() { tables<double>(4, SA_TOL); }
extern "C" void sa_C22_n5() { tables<double>(5, SA_TOL); }
extern "C" void sa_C22_n3fixed() { fixedTables<double>(3, SA_TOL); }
extern "C" void sa_C22_n4fixed() { fixedTables<double>(4, SA_TOL); }
extern "C" void sa_C22_n6fixed() { fixedTables<double>(6, SA_TOL); }
extern "C" void sa_C22_n9fixed() { fixedTables<double>(9, SA_TOL); }
extern "C" void sa_C22_n32fixed() { fixedTables<double>(32, SA_TOL); }
extern "C" void sa_C22V_n150fixed() { fixedTables<double>(150, SA_TOL); }
extern "C" void sa_C22_f4fixed() { fixedTables<float>(4, SA_TOLF); }
template <typename T> static void uniform(int n, T x0, T dx, bool defaults, double tol)
{
	typedef DSP::CubicHermiteSpline<T, T> Spline;
	T *Y = new T[n], m[160];
	for (int i = 0; i < n; ++i)
		Y[i] = sa_real("y");
	for (int i = 0; i < n; ++i) {
		T l = i ? Y[i] - Y[i-1] : 0;
		T r = i < n - 1 ? Y[i+1] - Y[i] : 0;
		m[i] = i && i < n - 1 ? (l + r) / 2 : l + r;
		sa_check_eq("at an equally spaced point", defaults ? Spline::eval(Y, i, n) : Spline::eval(Y, x0 + dx * i, n, x0, dx), Y[i], tol);
	}
	for (int k = -1; k < n; ++k) {
		T u = sa_real_in("u", k < 0 ? -9 : k, k < n - 1 ? k + 0.9999999 : n + 9);
		int s = k < 0 ? 0 : k > n - 2 ? n - 2 : k;
		sa_check_eq("between, before or after equally spaced points", defaults ? Spline::eval(Y, u, n) : Spline::eval(Y, x0 + dx * u, n, x0, dx), hermite<T>(Y[s], m[s], Y[s+1], m[s+1], u - s, 1), 100 * tol);
	}
}
template <typename T> static void uniforms(int n, double tol)
{
	uniform<T>(n, 0, 1, true, tol);
	uniform<T>(n, sa_real_in("x0", -1000, 1000), sa_real_in("dx", 0.01, 100), false, tol);
	uniform<T>(n, sa_real_in("x0", -1000, 1000), 0.25, false, tol);
	uniform<T>(n, 2, -3, false, tol);
}
extern "C" void sa_C22_u3() { uniforms<double>(3, SA_TOL); }
extern "C" void sa_C22_u4() { uniforms<double>(4, SA_TOL); }
extern "C" void sa_C22_u5() { uniforms<double>(5, SA_TOL); }
extern "C" void sa_C22_u6() { uniforms<double>(6, SA_TOL); }
extern "C" void sa_C22_u9() { uniforms<double>(9, SA_TOL); }
extern "C" void sa_C22_u32() { uniforms<double>(32, SA_TOL); }
extern "C" void sa_C22V_u150() { uniforms<double>(150, SA_TOL); }
extern "C" void sa_C22_uf5() { uniforms<float>(5, SA_TOLF); }
extern "C" void sa_C22_complex()
{
	typedef DSP::Complex<double> C;
	C y[5]; double r[5], q[5], X[5] = { -2, -1, 1.5, 2, 5 };
	for (int i = 0; i < 5; ++i)
		y[i] = C(r[i] = sa_real("r"), q[i] = sa_real("q"));
	double x = sa_real_in("x", -3, 6);
	C v = DSP::CubicHermiteSpline<C, double>::eval(X, y, x, 5), u = DSP::CubicHermiteSpline<C, double>::eval(y, x, 5, -2.5, 2);
	typedef DSP::CubicHermiteSpline<double, double> Spline;
	sa_check_eq("complex table, real part", v.real(), Spline::eval(X, r, x, 5), SA_TOL);
	sa_check_eq("complex table, imaginary part", v.imag(), Spline::eval(X, q, x, 5), SA_TOL);
	sa_check_eq("complex equally spaced table, real part", u.real(), Spline::eval(r, x, 5, -2.5, 2), SA_TOL);
	sa_check_eq("complex equally spaced table, imaginary part", u.imag(), Spline::eval(q, x, 5, -2.5, 2), SA_TOL);
}

// C23: normal equations on the fitted line
template <typename T> static void lineOf(DSP::SimpleLinearRegression<T> f, const T *x, const T *y, int n, double tol)
{
	T m = f.slope(), b = f.yint();
	T r = 0, rx = 0;
	for (int i = 0; i < n; ++i) {
		r += y[i] - (b + m * x[i]);
		rx += (y[i] - (b + m * x[i])) * (x[i] - x[0]);
	}
	sa_check_eq("residuals sum to zero", r, 0, tol);
	sa_check_eq("residuals are orthogonal to the abscissae", rx, 0, tol);
	T u = sa_real("u");
	sa_check_eq("evaluation", f(u), b + m * u, tol);
}
template <typename T> static void regress(int n, int kind, double tol)
{
	T *x = new T[n], *y = new T[n];
	T o = sa_real("o"), s = sa_real_in("s", 0.1, 10);
	for (int i = 0; i < n; ++i) {
		x[i] = kind == 0 ? o + s * (i * i - 2 * i) : kind == 1 ? o + s * (i ? 1 : 0) : o - s * i;
		y[i] = sa_real("y");
	}
	DSP::SimpleLinearRegression<T> f(x, y, n);
	lineOf<T>(f, x, y, n, tol);
}
template <typename T> static void regresses(int n, double tol)
{
	for (int kind = 0; kind < 3; ++kind)
		regress<T>(n, kind, tol);
	T *y = new T[n], x[160];
	for (int i = 0; i < n; ++i)
		y[i] = sa_real("y");
	for (int i = 0; i < n; ++i)
		x[i] = i;
	lineOf<T>(DSP::SimpleLinearRegression<T>(y, n), x, y, n, tol);
	T x0 = sa_real("x0"), dx = sa_real_in("dx", 0.1, 10);
	for (int i = 0; i < n; ++i)
		x[i] = x0 + i * dx;
	lineOf<T>(DSP::SimpleLinearRegression<T>(y, n, x0, dx), x, y, n, tol);
	for (int i = 0; i < n; ++i)
		x[i] = x0 - i * dx;
	lineOf<T>(DSP::SimpleLinearRegression<T>(y, n, x0, -dx), x, y, n, tol);
}
extern "C" void sa_C23_n2() { regresses<double>(2, SA_TOL); }
extern "C" void sa_C23_n3() { regresses<double>(3, SA_TOL); }
extern "C" void sa_C23_n4() { regresses<double>(4, SA_TOL); }
extern "C" void sa_C23_n5() { regresses<double>(5, SA_TOL); }
extern "C" void sa_C23_n8() { regresses<double>(8, SA_TOL); }
extern "C" void sa_C23_n17() { regresses<double>(17, SA_TOL); }
extern "C" void sa_C23V_n150() { regresses<double>(150, SA_TOL); }
extern "C" void sa_C23_f5() { regresses<float>(5, SA_TOLF); }
// three fully symbolic points
extern "C" void sa_C23_free3()
{
	double x[3], y[3];
	for (int i = 0; i < 3; ++i)
		y[i] = sa_real("y");
	x[0] = sa_real("x");
	x[1] = x[0] + sa_real_in("gap", 0.1, 10);
	x[2] = x[1] + sa_real_in("gap", 0.1, 10);
	lineOf<double>(DSP::SimpleLinearRegression<double>(x, y, 3), x, y, 3, SA_TOL);
}
// where the slope is not zero the line crosses zero at the reported abscissa
extern "C" void sa_C23_crossing()
{
	double m = sa_real_in("m", 0.1, 10), b = sa_real("b");
	if (sa_choose(2))
		m = -m;
	double x[5], y[5], z[5], e = sa_real_in("e", -0.01, 0.01);
	for (int i = 0; i < 5; ++i) {
		x[i] = i * i - 3;
		y[i] = m * x[i] + b;
		z[i] = m * (2 + 0.5 * i) + b;
	}
	DSP::SimpleLinearRegression<double> f(x, y, 5), g(z, 5, 2, 0.5);
	sa_check_eq("slope of a line", f.slope(), m, SA_TOL);
	sa_check_eq("ordinate intercept of a line", f.yint(), b, SA_TOL);
	sa_check_eq("abscissa intercept of a line", m * f.xint(), -b, SA_TOL);
	sa_check_eq("zero at the abscissa intercept", f(f.xint()), 0, SA_TOL);
	sa_check_eq("slope of a line, equally spaced", g.slope(), m, SA_TOL);
	sa_check_eq("ordinate intercept of a line, equally spaced", g.yint(), b, SA_TOL);
	sa_check_eq("abscissa intercept of a line, equally spaced", m * g.xint(), -b, SA_TOL);
	y[1] += e;
	z[1] += e;
	DSP::SimpleLinearRegression<double> p(x, y, 5), q(z, 5, 2, 0.5);
	sa_check_eq("intercepts agree", p.slope() * p.xint(), -p.yint(), SA_TOL);
	sa_check_eq("intercepts agree, equally spaced", q.slope() * q.xint(), -q.yint(), SA_TOL);
	DSP::SimpleLinearRegression<double> none;
	sa_check_eq("empty line", none.slope(), 0, 0);
	sa_check_eq("empty line", none.yint(), 0, 0);
	sa_check_eq("empty line", none.xint(), 0, 0);
	sa_check_eq("empty line", none(3), 0, 0);
}

// C24
template <typename E> static void robustLine(E &e, const double *x, int n, int outlier)
{
	double m = sa_real_in("m", 0.1, 10), b = sa_real("b");
	if (sa_choose(2))
		m = -m;
	double *y = new double[n];
	for (int i = 0; i < n; ++i)
		y[i] = m * x[i] + b;
	if (outlier >= 0) {
		double d = sa_real_in("d", 1e-3, 1e6);
		y[outlier] += sa_choose(2) ? d : -d;
	}
	e.compute(sa_exact(x, n), y, n);
	const char *l = outlier < 0 ? "points on a line" : "one outlier";
	sa_check_eq(l, e.slope(), m, SA_TOL);
	sa_check_eq(l, e.yint(), b, SA_TOL);
	sa_check_eq(l, e.xint() * m, -b, SA_TOL);
	double u = sa_real("u");
	sa_check_eq(l, e(u), m * u + b, SA_TOL);
}
template <typename E> static void robusts(int n)
{
	static const double xs[3][9] = {
		{ 0, 1, 2, 3, 4, 5, 6, 7, 8 },
		{ -3, -2.5, -1, 2, 10, 11, 12.5, 13, 20 },
		{ 5, -1, 4, 0.5, -7, 3, 9, -2, 1 }
	};
	E e;
	const double *x = xs[sa_choose(3)];
	int o = sa_choose(n >= 5 ? n + 1 : 1) - 1;
	robustLine(e, x, n, o);
	if (sa_choose(2))
		robustLine(e, x, n > 5 ? n - 1 : n, -1); // the same estimator again
}
extern "C" void sa_C24_theil2() { robusts<DSP::TheilSenEstimator<double, 2>>(2); }
extern "C" void sa_C24_theil3() { robusts<DSP::TheilSenEstimator<double, 3>>(3); }
extern "C" void sa_C24_theil4() { robusts<DSP::TheilSenEstimator<double, 9>>(4); }
extern "C" void sa_C24_theil5() { robusts<DSP::TheilSenEstimator<double, 5>>(5); }
extern "C" void sa_C24_theil6() { robusts<DSP::TheilSenEstimator<double, 6>>(6); }
extern "C" void sa_C24_theil7() { robusts<DSP::TheilSenEstimator<double, 8>>(7); }
extern "C" void sa_C24_repeated2() { robusts<DSP::RepeatedMedianEstimator<double, 2>>(2); }
extern "C" void sa_C24_repeated3() { robusts<DSP::RepeatedMedianEstimator<double, 3>>(3); }
extern "C" void sa_C24_repeated4() { robusts<DSP::RepeatedMedianEstimator<double, 9>>(4); }
extern "C" void sa_C24_repeated5() { robusts<DSP::RepeatedMedianEstimator<double, 5>>(5); }
extern "C" void sa_C24_repeated6() { robusts<DSP::RepeatedMedianEstimator<double, 6>>(6); }
extern "C" void sa_C24_repeated7() { robusts<DSP::RepeatedMedianEstimator<double, 9>>(7); }
extern "C" void sa_C24_second2() { robusts<DSP::RepeatedMedianEstimator2<double, 2>>(2); }
extern "C" void sa_C24_second3() { robusts<DSP::RepeatedMedianEstimator2<double, 3>>(3); }
extern "C" void sa_C24_second4() { robusts<DSP::RepeatedMedianEstimator2<double, 9>>(4); }
extern "C" void sa_C24_second5() { robusts<DSP::RepeatedMedianEstimator2<double, 5>>(5); }
extern "C" void sa_C24_second6() { robusts<DSP::RepeatedMedianEstimator2<double, 6>>(6); }
extern "C" void sa_C24_second7() { robusts<DSP::RepeatedMedianEstimator2<double, 9>>(7); }
// arbitrary data: the medians by their definition
static void isMedian(const char *label, double m, const double *v, int n)
{
	int below = 0, upto = 0;
	for (int i = 0; i < n; ++i) {
		below += v[i] < m;
		upto += v[i] <= m;
	}
	sa_check(label, below <= n / 2 && n / 2 < upto);
}
static double upperMedian(const double *v, int n)
{
	double w[40];
	for (int i = 0; i < n; ++i) {
		int j = i;
		for (; j && v[i] < w[j-1]; --j)
			w[j] = w[j-1];
		w[j] = v[i];
	}
	return w[n/2];
}
static const double abscissae[3][4] = { { 0, 1, 3, 4 }, { 2, -1, 5, 0.5 }, { 1, 1, 2, 4 } };
template <typename E, int KIND> static void byDefinition(E &e, const double *x, const double *y, int n)
{
	double v[800], w[40];
	e.compute(sa_exact(x, n), sa_exact(y, n), n);
	if (KIND == 0) {
		int c = 0;
		for (int i = 0; i < n; ++i)
			for (int j = i + 1; j < n; ++j)
				if (x[i] != x[j])
					v[c++] = (y[i] - y[j]) / (x[i] - x[j]);
		isMedian("median of the pairwise slopes", e.slope(), v, c);
	} else {
		for (int i = 0; i < n; ++i) {
			int c = 0;
			for (int j = 0; j < n; ++j)
				if (x[i] != x[j])
					v[c++] = (y[i] - y[j]) / (x[i] - x[j]);
			w[i] = upperMedian(v, c);
		}
		isMedian("median of the median slopes", e.slope(), w, n);
	}
	for (int i = 0; i < n; ++i) {
		if (KIND == 1) {
			int c = 0;
			for (int j = 0; j < n; ++j)
				if (x[i] != x[j])
					v[c++] = (x[j] * y[i] - x[i] * y[j]) / (x[j] - x[i]);
			w[i] = upperMedian(v, c);
		} else {
			w[i] = y[i] - e.slope() * x[i];
		}
	}
	isMedian(KIND == 1 ? "median of the median intercepts" : "median of the residuals", e.yint(), w, n);
	sa_check_eq("intercepts agree", e.slope() * e.xint(), -e.yint(), SA_TOL);
}
template <typename E, int KIND> static void medians(int n, int which)
{
	E e;
	double y[4];
	for (int i = 0; i < n; ++i)
		y[i] = sa_real("y");
	sa_check_eq("before any data", e.slope(), 0, 0);
	sa_check_eq("before any data", e.yint(), 0, 0);
	sa_check_eq("before any data", e.xint(), 0, 0);
	byDefinition<E, KIND>(e, abscissae[which], y, n);
}
// any line plus any positive multiple of a fixed scatter
template <typename E, int KIND> static void scattered()
{
	static const double x[9] = { 5, -1, 4, 0.5, -7, 3, 9, -2, 1 };
	static const double c[4][9] = {
		{ 3, 0, -8, 1, 1, -2, 14, 6, -5 },
		{ -5, -4, -3, -2, 7, 8, 9, 10, 2.5 },
		{ 0.5, -17, 2, 30, -11, 4, 8, 1, -6 },
		{ 9, 2, 8, 0, 3, -40, 1, 4, 7 }
	};
	double m = sa_real_in("m", -10, 10), b = sa_real("b"), s = sa_real_in("s", 0.001, 1000), y[9];
	int n = 4 + sa_choose(6), k = sa_choose(4);
	for (int i = 0; i < n; ++i)
		y[i] = m * x[i] + b + s * c[k][i];
	E e;
	byDefinition<E, KIND>(e, x, y, n);
}
// many points
template <typename E, int KIND> static void manyScattered()
{
	double x[40], y[40], m = sa_real_in("m", -10, 10), b = sa_real("b"), s = sa_real_in("s", 0.001, 1000);
	for (int i = 0; i < 40; ++i) {
		x[i] = i * 17 % 41 - 8;
		y[i] = m * x[i] + b + s * (i * i * i % 89 - 30);
	}
	E e;
	byDefinition<E, KIND>(e, x, y, 40);
}
extern "C" void sa_C24V_theilMuch() { manyScattered<DSP::TheilSenEstimator<double, 40>, 0>(); }
extern "C" void sa_C24V_repeatedMuch() { manyScattered<DSP::RepeatedMedianEstimator<double, 40>, 1>(); }
extern "C" void sa_C24V_secondMuch() { manyScattered<DSP::RepeatedMedianEstimator2<double, 40>, 2>(); }
extern "C" void sa_C24_theilScattered() { scattered<DSP::TheilSenEstimator<double, 9>, 0>(); }
extern "C" void sa_C24_repeatedScattered() { scattered<DSP::RepeatedMedianEstimator<double, 9>, 1>(); }
extern "C" void sa_C24_secondScattered() { scattered<DSP::RepeatedMedianEstimator2<double, 9>, 2>(); }
extern "C" void sa_C24_theilMedian2() { medians<DSP::TheilSenEstimator<double, 4>, 0>(2, sa_choose(2)); }
extern "C" void sa_C24_theilMedian3() { medians<DSP::TheilSenEstimator<double, 4>, 0>(3, sa_choose(3)); }
extern "C" void sa_C24_repeatedMedian2() { medians<DSP::RepeatedMedianEstimator<double, 4>, 1>(2, sa_choose(2)); }
extern "C" void sa_C24_repeatedMedian3() { medians<DSP::RepeatedMedianEstimator<double, 4>, 1>(3, sa_choose(3)); }
extern "C" void sa_C24_secondMedian2() { medians<DSP::RepeatedMedianEstimator2<double, 4>, 2>(2, sa_choose(2)); }
extern "C" void sa_C24_secondMedian3() { medians<DSP::RepeatedMedianEstimator2<double, 4>, 2>(3, sa_choose(3)); }
// more points than the capacity
template <typename E> static void crowded()
{
	E e;
	double x[9], y[9], m = sa_real_in("m", 0.1, 10), b = sa_real("b");
	for (int i = 0; i < 9; ++i) {
		x[i] = 3 * i - 7;
		y[i] = m * x[i] + b;
	}
	e.compute(x, y, 9);
	sa_check_eq("more points than the capacity", e.slope(), m, SA_TOL);
	sa_check_eq("more points than the capacity", e.yint(), b, SA_TOL);
	e.compute(sa_exact(x, 5), sa_exact(y, 5), 5);
	sa_check_eq("one point more than the capacity", e.slope(), m, SA_TOL);
	sa_check_eq("one point more than the capacity", e.yint(), b, SA_TOL);
	e.compute(sa_exact(x, 4), sa_exact(y, 4), 4);
	sa_check_eq("as many points as the capacity", e.slope(), m, SA_TOL);
}
extern "C" void sa_C24_crowded()
{
	crowded<DSP::TheilSenEstimator<double, 4>>();
	crowded<DSP::RepeatedMedianEstimator<double, 4>>();
	crowded<DSP::RepeatedMedianEstimator2<double, 4>>();
}
// enough points for the selection to partition
template <typename E> static void many(int n, int outliers)
{
	E e;
	double *x = new double[n], *y = new double[n], m = sa_real_in("m", 0.1, 10), b = sa_real("b"), d = sa_real_in("d", 1, 1000);
	int order = sa_choose(3);
	for (int i = 0; i < n; ++i) {
		x[i] = order == 0 ? i : order == 1 ? 5 - 2 * i : i * 7 % n - 3;
		y[i] = m * x[i] + b;
	}
	const char *l = outliers ? "several outliers among many points" : "many points on a line";
	if (outliers && sa_choose(2))
		d = -d;
	for (int k = 0; k < outliers; ++k)
		y[(3 + 5 * k) % n] += (k + 1) * d;
	e.compute(x, y, n);
	sa_check_eq(l, e.slope(), m, SA_TOL);
	sa_check_eq(l, e.yint(), b, SA_TOL);
	sa_check_eq(l, e.xint() * m, -b, SA_TOL);
}
extern "C" void sa_C24_theilMany() { many<DSP::TheilSenEstimator<double, 16>>(16, sa_choose(4)); }
extern "C" void sa_C24_theilMany33() { many<DSP::TheilSenEstimator<double, 33>>(33, sa_choose(2) * 5); }
extern "C" void sa_C24V_theilMany150() { many<DSP::TheilSenEstimator<double, 150>>(150, 0); }
extern "C" void sa_C24_repeatedMany() { many<DSP::RepeatedMedianEstimator<double, 16>>(16, sa_choose(2) * 3); }
extern "C" void sa_C24_repeatedMany40() { many<DSP::RepeatedMedianEstimator<double, 40>>(40, sa_choose(2) * 7); }
extern "C" void sa_C24V_repeatedMany150() { many<DSP::RepeatedMedianEstimator<double, 150>>(150, 0); }
extern "C" void sa_C24_secondMany() { many<DSP::RepeatedMedianEstimator2<double, 16>>(16, sa_choose(2) * 3); }
extern "C" void sa_C24_secondMany40() { many<DSP::RepeatedMedianEstimator2<double, 40>>(40, sa_choose(2) * 7); }
extern "C" void sa_C24V_secondMany150() { many<DSP::RepeatedMedianEstimator2<double, 150>>(150, 0); }
