// cost (C38): elements of unknown value and known order that count what is done with them
#include "sa.h"
#include "quick.hh"
#include "movext.hh"

static int sa_compared, sa_moved;
struct Element
{
	double v;
	Element(double v = 0) : v(v) {}
	Element(const Element &e) : v(e.v) { ++sa_moved; }
	Element &operator = (const Element &e)
	{
		++sa_moved;
		v = e.v;
		return *this;
	}
	bool operator < (const Element &e) const { ++sa_compared; return v < e.v; }
	bool operator > (const Element &e) const { ++sa_compared; return v > e.v; }
	bool operator == (const Element &e) const { ++sa_compared; return v == e.v; }
	bool operator <= (const Element &e) const { ++sa_compared; return v <= e.v; }
	bool operator >= (const Element &e) const { ++sa_compared; return v >= e.v; }
	bool operator != (const Element &e) const { ++sa_compared; return v != e.v; }
};
// the rank of element i of n
static int rank(int shape, int i, int n)
{
	switch (shape) {
	case 0: return 0; // constant
	case 1: return i; // ascending
	case 2: return n - i; // descending
	case 3: return i < n / 2 ? i : n - i; // up and down
	case 4: return i < n / 2 ? n - i : i; // down and up
	case 5: return i % 2; // two values
	case 6: return i % 2 ? i : n - i; // interleaved
	case 7: return i % 7; // saw tooth
	case 8: return i * 37 % n; // scattered
	default: return i / 9; // steps
	}
}
template <int N> static void shaped(Element *a, int shape)
{
	static double level[N + 1];
	level[0] = sa_real_in("lowest", -1000, 1000);
	double step = sa_real_in("step", 1, 10);
	for (int i = 1; i <= N; ++i)
		level[i] = level[i-1] + step;
	for (int i = 0; i < N; ++i)
		a[i].v = level[rank(shape, i, N)];
}
static int logarithm(int n)
{
	int k = 0;
	while (n > 1) {
		n = (n + 1) / 2;
		++k;
	}
	return k;
}
template <int N> static void sorting()
{
	Element a[N];
	shaped<N>(a, sa_choose(10));
	sa_compared = sa_moved = 0;
	DSP::quick_sort(a, N);
	sa_check_le("comparisons of a sort", sa_compared, 6 * N * logarithm(N));
	sa_check_le("moves of a sort", sa_moved, 6 * N * logarithm(N));
}
extern "C" void sa_C38_sort64() { sorting<64>(); }
extern "C" void sa_C38_sort100() { sorting<100>(); }
extern "C" void sa_C38_sort256() { sorting<256>(); }
extern "C" void sa_C38_sort500() { sorting<500>(); }
template <int N> static void selecting()
{
	Element a[N];
	shaped<N>(a, sa_choose(10));
	int k = 0;
	switch (sa_choose(5)) {
	case 0: k = 0; break;
	case 1: k = N / 4; break;
	case 2: k = N / 2; break;
	case 3: k = 3 * N / 4; break;
	case 4: k = N - 1; break;
	}
	sa_compared = sa_moved = 0;
	DSP::quick_select(a, k, N);
	sa_check_le("comparisons of a selection", sa_compared, 16 * N);
	sa_check_le("moves of a selection", sa_moved, 16 * N);
}
extern "C" void sa_C38_select100() { selecting<100>(); }
extern "C" void sa_C38_select256() { selecting<256>(); }
extern "C" void sa_C38_select500() { selecting<500>(); }
extern "C" void sa_C38_select1000() { selecting<1000>(); }
template <int N, int K> static void extrema()
{
	typedef DSP::MovExt<Element, std::equal_to<Element>, std::less<Element>, N> Min;
	Element x[K];
	shaped<K>(x, sa_choose(10));
	Min min(Element(2000));
	sa_compared = sa_moved = 0;
	for (int i = 0; i < K; ++i)
		min(x[i]);
	sa_check_le("comparisons of moving extrema", sa_compared, 6 * K);
	sa_check_le("moves of moving extrema", sa_moved, 32 * K);
}
extern "C" void sa_C38_extrema8() { extrema<8, 200>(); }
extern "C" void sa_C38_extrema64() { extrema<64, 300>(); }
