// sorting and selection (C34)
#include "sa.h"
namespace DSP { namespace QUICK {} }
#include "quick.hh"

struct Item
{
	double key;
	int id;
	bool operator < (const Item &o) const { return key < o.key; }
	bool operator > (const Item &o) const { return key > o.key; }
};
static void permuted(const Item *a, const double *keys, int n)
{
	bool seen[256];
	for (int i = 0; i < n; ++i)
		seen[i] = false;
	for (int i = 0; i < n; ++i) {
		int id = a[i].id;
		sa_check("the same elements", 0 <= id && id < n && !seen[id]);
		seen[id] = true;
		sa_check_eq("elements kept whole", a[i].key, keys[id], 0);
	}
}
static void sorted(Item *a, const double *keys, int n)
{
	DSP::quick_sort(a, n);
	permuted(a, keys, n);
	for (int i = 1; i < n; ++i)
		sa_check("non-decreasing order", a[i-1].key <= a[i].key);
}
static void selected(Item *a, const double *keys, int k, int n)
{
	Item v = DSP::quick_select(a, k, n);
	permuted(a, keys, n);
	sa_check("returned element is at its place", v.id == a[k].id);
	sa_check_eq("returned element", v.key, a[k].key, 0);
	for (int i = 0; i < n; ++i)
		if (i < k)
			sa_check("nothing larger before", a[i].key <= v.key);
		else
			sa_check("nothing smaller after", a[i].key >= v.key);
}
static void fill(Item *a, double *keys, int n)
{
	for (int i = 0; i < n; ++i) {
		a[i].key = keys[i];
		a[i].id = i;
	}
}
template <int N> static void any()
{
	Item a[N+2];
	double keys[N+1];
	for (int i = 0; i < N; ++i)
		keys[i] = sa_real("key");
	// neighbours of the array
	double before = sa_real("before"), after = sa_real("after");
	a[0].key = before;
	a[0].id = -1;
	a[N+1].key = after;
	a[N+1].id = -2;
	fill(a + 1, keys, N);
	int k = sa_choose(N + 1);
	if (k < N)
		selected(a + 1, keys, k, N);
	else
		sorted(a + 1, keys, N);
	sa_check_eq("element before the array left alone", a[0].key, before, 0);
	sa_check_eq("element after the array left alone", a[N+1].key, after, 0);
	sa_check("element before the array left alone", a[0].id == -1);
	sa_check("element after the array left alone", a[N+1].id == -2);
}
extern "C" void sa_C34_any0() { any<0>(); }
extern "C" void sa_C34_any1() { any<1>(); }
extern "C" void sa_C34_any2() { any<2>(); }
extern "C" void sa_C34_any3() { any<3>(); }
extern "C" void sa_C34_any4() { any<4>(); }
extern "C" void sa_C34_any5() { any<5>(); }
extern "C" void sa_C34_any6() { any<6>(); }
extern "C" void sa_C34T_any7() { any<7>(); }
extern "C" void sa_C34_numbers()
{
	double a[4], s = 0, q = 0;
	for (int i = 0; i < 4; ++i) {
		a[i] = sa_real("a");
		s += a[i];
		q += a[i] * a[i];
	}
	int k = sa_choose(5);
	if (k < 4)
		sa_check_eq("returned number", DSP::quick_select(a, k, 4), a[k], 0);
	else
		DSP::quick_sort(a, 4);
	sa_check_eq("the same numbers", a[0] + a[1] + a[2] + a[3], s, 0);
	sa_check_eq("the same numbers", a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3], q, SA_TOL);
	for (int i = 1; i < 4 && k > 3; ++i)
		sa_check("non-decreasing order", a[i-1] <= a[i]);
	int b[5];
	for (int i = 0; i < 5; ++i)
		b[i] = sa_int_in("b", -2147483647 - 1, 2147483647);
	DSP::quick_sort(b, 3);
	for (int i = 1; i < 3; ++i)
		sa_check("non-decreasing order of integers", b[i-1] <= b[i]);
}

// the pieces by themselves, where they have these names: fully arbitrary contents
namespace pieces {
static bool partition(...) { return false; }
using namespace DSP::QUICK;
template <typename T> static auto split(T *a, int &l, int &h, int) -> decltype(DSP::QUICK::partition(a, l, h), true) { DSP::QUICK::partition(a, l, h); return true; }
template <typename T> static bool split(T *a, int &l, int &h, long) { return false; }
}
template <int N> static void parted(int lo, int hi)
{
	Item a[N];
	double keys[N];
	for (int i = 0; i < N; ++i)
		keys[i] = sa_real("key");
	fill(a, keys, N);
	int l = lo, h = hi;
	if (!pieces::split(a, l, h, 0))
		return;
	permuted(a, keys, N);
	sa_check("pivot range inside", lo <= l && l <= h && h <= hi);
	for (int i = 0; i < lo; ++i)
		sa_check_eqi("left of the range left alone", a[i].id, i);
	for (int i = hi + 1; i < N; ++i)
		sa_check_eqi("right of the range left alone", a[i].id, i);
	for (int i = lo; i < l; ++i)
		sa_check("smaller ones first", a[i].key < a[l].key);
	for (int i = l; i <= h; ++i)
		sa_check("equal ones between", a[i].key == a[l].key);
	for (int i = h + 1; i <= hi; ++i)
		sa_check("larger ones last", a[i].key > a[l].key);
}
extern "C" void sa_C34_part5() { parted<5>(0, 4); }
extern "C" void sa_C34_part5in7() { parted<7>(1, 5); }
extern "C" void sa_C34_part6() { parted<6>(0, 5); }
extern "C" void sa_C34_part7() { parted<7>(0, 6); }
extern "C" void sa_C34T_part8() { parted<8>(0, 7); }

// longer arrays: fixed arrangements with free elements in them
static double arrangement(int kind, int i, int n)
{
	switch (kind) {
	case 0: return i;
	case 1: return n - i;
	case 2: return 5;
	case 3: return i < n / 2 ? i : n - i;
	case 4: return i * 7 % 5;
	case 5: return (i * 37 + 11) % 101;
	case 6: return i & 1;
	default: return i < n / 2 ? n / 2 - i : i;
	}
}
template <int N> static void longer(int kind, int free)
{
	Item a[N];
	double keys[N];
	for (int i = 0; i < N; ++i)
		keys[i] = arrangement(kind, i, N);
	if (free > 0)
		keys[(kind * 5 + 3) % N] = sa_real("key");
	if (free > 1)
		keys[N - 1 - kind] = sa_real("key");
	fill(a, keys, N);
	int k = sa_choose(4);
	if (k)
		selected(a, keys, k == 1 ? 0 : k == 2 ? N / 2 : N - 1, N);
	else
		sorted(a, keys, N);
}
#define LONGER(N) \
extern "C" void sa_C34_fixed##N() { longer<N>(sa_choose(8), 0); } \
extern "C" void sa_C34_free##N() { longer<N>(sa_choose(8), 1); }
LONGER(32)
LONGER(33)
LONGER(34)
LONGER(47)
LONGER(70)
LONGER(100)
extern "C" void sa_C34_fixed200() { longer<200>(sa_choose(8), 0); }
extern "C" void sa_C34_two33() { longer<33>(sa_choose(8), 2); }
template <int N> static void every()
{
	Item a[N];
	double keys[N];
	int kind = sa_choose(2) ? 5 : 4, k = sa_choose(N);
	for (int i = 0; i < N; ++i)
		keys[i] = arrangement(kind, i, N);
	fill(a, keys, N);
	selected(a, keys, k, N);
}
extern "C" void sa_C34_every40() { every<40>(); }
extern "C" void sa_C34_every90() { every<90>(); }
