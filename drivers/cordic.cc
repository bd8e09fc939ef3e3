// fixed-point arc tangent (C36): the pairs of coordinates that take one path through the rotations form a polygon,
// whose corners must point where the result of that path says
#include "sa.h"
#include "cordic.hh"

template <typename T> static void direction(int side, int least, double tol)
{
	const int n = 1 << (8 * sizeof(T));
	int x = sa_int_in("x", -n / 2, n / 2 - 1), y = sa_int_in("y", -n / 2, n / 2 - 1);
	sa_plane(x, y);
	switch (side) {
	case 0: sa_assume(x >= least); break;
	case 1: sa_assume(x <= -least); break;
	case 2: sa_assume(y >= least); break;
	default: sa_assume(y <= -least);
	}
	T a = DSP::CORDIC<T>::atan2(y, x);
	sa_check_angle("angle of every pair on this path", a, n, tol);
}
// one coordinate at least at half of full scale
extern "C" void sa_C36_right8() { direction<signed char>(0, 64, 1.6); }
extern "C" void sa_C36_left8() { direction<signed char>(1, 64, 1.6); }
extern "C" void sa_C36_up8() { direction<signed char>(2, 64, 1.6); }
extern "C" void sa_C36_down8() { direction<signed char>(3, 64, 1.6); }
extern "C" void sa_C36V_right16() { direction<short>(0, 16384, 3); }
extern "C" void sa_C36V_left16() { direction<short>(1, 16384, 3); }
extern "C" void sa_C36V_up16() { direction<short>(2, 16384, 3); }
extern "C" void sa_C36V_down16() { direction<short>(3, 16384, 3); }
// at full scale
extern "C" void sa_C36_full8() { direction<signed char>(sa_choose(4), 127, 1.3); }
extern "C" void sa_C36V_full16right() { direction<short>(0, 32767, 2.2); }
extern "C" void sa_C36V_full16left() { direction<short>(1, 32767, 2.2); }
extern "C" void sa_C36V_full16up() { direction<short>(2, 32767, 2.2); }
extern "C" void sa_C36V_full16down() { direction<short>(3, 32767, 2.2); }
// any pair: nothing overflows
template <typename T> static void fits()
{
	const int n = 1 << (8 * sizeof(T));
	int x = sa_int_in("x", -n / 2, n / 2 - 1), y = sa_int_in("y", -n / 2, n / 2 - 1);
	sa_plane(x, y);
	T a = DSP::CORDIC<T>::atan2(y, x);
	sa_check("the result is an angle", a >= -n / 2 && a < n / 2);
}
extern "C" void sa_C36_fits8() { fits<signed char>(); }
extern "C" void sa_C36_fits16() { fits<short>(); }
