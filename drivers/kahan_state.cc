// Compensated summation (C33): the whole state takes part in copies and comparisons
#include "sa.h"
#include "kahan.hh"
#include <cstring>

// the state of a sum is whatever numbers the object is made of
template <typename T> struct Whole
{
	static const int N = sizeof(DSP::Kahan<T>) / sizeof(T);
	T part[N];
	Whole(const DSP::Kahan<T> &k) { std::memcpy(part, &k, sizeof(part)); }
	void make(DSP::Kahan<T> &k) const { std::memcpy((void *)&k, part, sizeof(part)); }
};
template <typename T> static DSP::Kahan<T> anything()
{
	DSP::Kahan<T> k;
	Whole<T> w(k);
	for (int i = 0; i < w.N; ++i)
		w.part[i] = sa_real("state");
	w.make(k);
	return k;
}
template <typename T> static void copies()
{
	DSP::Kahan<T> a = anything<T>(), b(a), c;
	c = a;
	Whole<T> x(a), y(b), z(c);
	for (int i = 0; i < x.N; ++i) {
		sa_check_eq("copy has all of the state", y.part[i], x.part[i], 0);
		sa_check_eq("assignment has all of the state", z.part[i], x.part[i], 0);
	}
	sa_check("copy equals the original", a == b);
	sa_check("original equals the copy", b == a);
}
extern "C" void sa_C33_copiesf() { copies<float>(); }
extern "C" void sa_C33_copiesd() { copies<double>(); }
template <typename T> static void differ()
{
	DSP::Kahan<T> a = anything<T>(), b(a);
	Whole<T> w(a);
	int which = sa_choose(w.N);
	T other = sa_real("other");
	sa_assume(other != w.part[which]);
	w.part[which] = other;
	w.make(b);
	sa_check("sums that differ anywhere are not equal", !(a == b));
	sa_check("sums that differ anywhere are not equal, other way", !(b == a));
	sa_check("a sum equals itself", a == a && b == b);
}
extern "C" void sa_C33_differf() { differ<float>(); }
extern "C" void sa_C33_differd() { differ<double>(); }
template <typename T> static void stationary()
{
	sa_rounding(2);
	DSP::Kahan<T> a = anything<T>(), b(a);
	T x = sa_real("x");
	Whole<T> before(a);
	bool same = a.same(x);
	T y = b(x);
	Whole<T> after(b), got(a);
	for (int i = 0; i < after.N; ++i)
		sa_check_eq("trying a value feeds it", got.part[i], after.part[i], 0);
	sa_check_eq("trying a value gives the new sum", a(), y, 0);
	bool changed = false;
	for (int i = 0; i < after.N; ++i)
		if (after.part[i] != before.part[i])
			changed = true;
	sa_check("unchanged means that nothing changed", same == !changed);
}
extern "C" void sa_C33_samef() { stationary<float>(); }
extern "C" void sa_C33_samed() { stationary<double>(); }
template <typename T> static void ranges()
{
	sa_rounding(2);
	T init = sa_real("init"), x[4];
	for (int i = 0; i < 4; ++i)
		x[i] = sa_real("x");
	DSP::Kahan<T> k(init);
	for (int n = 0; n <= 4; ++n) {
		sa_check_eq("range sum feeds every value in order", DSP::kahan_sum(x, x + n, init), k(), 0);
		if (n < 4)
			k(x[n]);
	}
}
extern "C" void sa_C33_rangesf() { ranges<float>(); }
extern "C" void sa_C33_rangesd() { ranges<double>(); }
