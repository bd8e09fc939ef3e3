#include "sa.h"
#include "deque.hh"
#include "stack.hh"
#include "movext.hh"

template <typename T, int N> static void deque_state(DSP::Deque<T, N> &d, const T *seq, int n)
{
	sa_check_eqi("deque size", d.size(), n);
	sa_check("deque empty", d.empty() == (n == 0));
	sa_check("deque full", d.full() == (n == N));
	sa_check_eqi("deque capacity", d.max_size(), N);
	if (n) {
		sa_check_eq("deque front", d.front(), seq[0], 0);
		sa_check_eq("deque back", d.back(), seq[n-1], 0);
	}
	DSP::Deque<T, N> c(d), e(d);
	for (int i = 0; i < n; ++i) {
		sa_check_eq("deque contents from the front", c.front(), seq[i], 0);
		c.pop_front();
		sa_check_eq("deque contents from the back", e.back(), seq[n-1-i], 0);
		e.pop_back();
	}
	sa_check("deque drained", c.empty() && e.empty() && c.size() == 0 && e.size() == 0);
}
// front() is seq[0], back() is seq[n-1]
template <typename T, int N> static void deque_history()
{
	DSP::Deque<T, N> d;
	T seq[N];
	int n = 0;
	while (sa_head(0)) {
		deque_state<T, N>(d, seq, n);
		T x;
		switch (sa_choose(5)) {
		case 0:
			x = sa_real("x");
			if (n == N) sa_expect_abort(1);
			d.push_back(x);
			if (n == N) { sa_fail("push onto a full deque not stopped"); return; }
			seq[n++] = x;
			break;
		case 1:
			x = sa_real("x");
			if (n == N) sa_expect_abort(1);
			d.push_front(x);
			if (n == N) { sa_fail("push onto a full deque not stopped"); return; }
			for (int i = n; i > 0; --i)
				seq[i] = seq[i-1];
			seq[0] = x;
			++n;
			break;
		case 2:
			if (n == 0) sa_expect_abort(1);
			d.pop_back();
			if (n == 0) { sa_fail("pop of an empty deque not stopped"); return; }
			--n;
			break;
		case 3:
			if (n == 0) sa_expect_abort(1);
			d.pop_front();
			if (n == 0) { sa_fail("pop of an empty deque not stopped"); return; }
			--n;
			for (int i = 0; i < n; ++i)
				seq[i] = seq[i+1];
			break;
		default:
			d.clear();
			n = 0;
		}
		for (int i = n; i < N; ++i)
			seq[i] = 0;
	}
}
template <typename T, int N> static void deque_misuse()
{
	DSP::Deque<T, N> d;
	int k = sa_choose(N + 1);
	for (int i = 0; i < k; ++i)
		d.push_front(i);
	for (int i = 0; i < k; ++i)
		d.pop_back();
	sa_expect_abort(1);
	if (sa_choose(2)) d.front(); else d.back();
	sa_fail("reading an empty deque not stopped");
}
template <typename T, int N> static void stack_history()
{
	DSP::Stack<T, N> d;
	T seq[N];
	for (int i = 0; i < N; ++i)
		seq[i] = 0;
	int n = 0;
	while (sa_head(0)) {
		sa_check_eqi("stack size", d.size(), n);
		sa_check("stack empty", d.empty() == (n == 0));
		sa_check("stack full", d.full() == (n == N));
		sa_check_eqi("stack capacity", d.max_size(), N);
		if (n) {
			sa_check_eq("stack top", d.top(), seq[n-1], 0);
			sa_check_eq("stack bottom", d.first(), seq[0], 0);
		}
		DSP::Stack<T, N> c(d);
		for (int i = n; i > 0; --i) {
			sa_check_eq("stack contents", c.top(), seq[i-1], 0);
			c.pop();
		}
		sa_check("stack drained", c.empty());
		switch (sa_choose(5)) {
		case 0: {
			T x = sa_real("x");
			if (n == N) sa_expect_abort(1);
			d.push(x);
			if (n == N) { sa_fail("push onto a full stack not stopped"); return; }
			seq[n++] = x;
			break; }
		case 1:
			if (n == 0) sa_expect_abort(1);
			d.pop();
			if (n == 0) { sa_fail("pop of an empty stack not stopped"); return; }
			seq[--n] = 0;
			break;
		case 2:
			if (n) break;
			sa_expect_abort(1);
			d.top();
			sa_fail("top of an empty stack not stopped");
			return;
		case 3:
			if (n) break;
			sa_expect_abort(1);
			d.first();
			sa_fail("first of an empty stack not stopped");
			return;
		default:
			d.clear();
			n = 0;
			for (int i = 0; i < N; ++i)
				seq[i] = 0;
		}
	}
}
extern "C" void sa_C06_deque1() { deque_history<double, 1>(); }
extern "C" void sa_C06_deque2() { deque_history<float, 2>(); }
extern "C" void sa_C06_deque3() { deque_history<double, 3>(); }
extern "C" void sa_C06_deque4() { deque_history<float, 4>(); }
extern "C" void sa_C06_deque5() { deque_history<double, 5>(); }
extern "C" void sa_C06T_deque7() { deque_history<double, 7>(); }
extern "C" void sa_C06_misuse() { switch (sa_choose(4)) { case 0: deque_misuse<int, 1>(); break; case 1: deque_misuse<int, 2>(); break; case 2: deque_misuse<float, 5>(); break; default: deque_misuse<double, 8>(); } }
extern "C" void sa_C06_stack1() { stack_history<float, 1>(); }
extern "C" void sa_C06_stack2() { stack_history<double, 2>(); }
extern "C" void sa_C06_stack3() { stack_history<float, 3>(); }
extern "C" void sa_C06_stack5() { stack_history<double, 5>(); }
extern "C" void sa_C06_stack8() { stack_history<double, 8>(); }

// moving extrema
static float any(float) { return sa_real_in("x", std::numeric_limits<float>::lowest(), std::numeric_limits<float>::max()); }
static double any(double) { return sa_real_in("x", std::numeric_limits<double>::lowest(), std::numeric_limits<double>::max()); }
static int any(int) { return sa_int_in("i", std::numeric_limits<int>::min(), std::numeric_limits<int>::max()); }
static short any(short) { return sa_int_in("i", -32768, 32767); }
static unsigned char any(unsigned char) { return sa_int_in("i", 0, 255); }
template <typename T> static void same(const char *l, T a, T b) { sa_check_eq(l, a, b, 0); }
static void same(const char *l, int a, int b) { sa_check_eqi(l, a, b); }
static void same(const char *l, short a, short b) { sa_check_eqi(l, a, b); }
static void same(const char *l, unsigned char a, unsigned char b) { sa_check_eqi(l, a, b); }
template <typename T, typename M, bool MAX, int N> static void extremum()
{
	M m;
	T last[N];
	for (int i = 0; i < N; ++i)
		last[i] = 0;
	int n = 0;
	while (sa_head_order(last, sizeof(last))) {
		T x = any(T());
		T y = m(x);
		for (int i = N - 1; i > 0; --i)
			last[i] = last[i-1];
		last[0] = x;
		if (n < N)
			++n;
		T e = last[0];
		for (int i = 1; i < n; ++i)
			if (MAX ? last[i] > e : last[i] < e)
				e = last[i];
		same("extremum of the window", y, e);
	}
}
template <int N> static void extrema()
{
	switch (sa_choose(4)) {
	case 0: extremum<float, DSP::MovMin<float, N>, false, N>(); break;
	case 1: extremum<float, DSP::MovMax<float, N>, true, N>(); break;
	case 2: extremum<int, DSP::MovMin<int, N>, false, N>(); break;
	default: extremum<int, DSP::MovMax<int, N>, true, N>();
	}
}
extern "C" void sa_C08_n1() { extrema<1>(); }
extern "C" void sa_C08_n2() { extrema<2>(); }
extern "C" void sa_C08_n3() { extrema<3>(); }
template <typename T, int N> static void narrow()
{
	if (sa_choose(2))
		extremum<T, DSP::MovMin<T, N>, false, N>();
	else
		extremum<T, DSP::MovMax<T, N>, true, N>();
}
extern "C" void sa_C08_short1() { narrow<short, 1>(); }
extern "C" void sa_C08_short2() { narrow<short, 2>(); }
// the first inputs of unsigned types
template <typename T, typename M, bool MAX, int N> static void first()
{
	M m;
	T in[N+1];
	for (int n = 0; n <= N; ++n) {
		in[n] = any(T());
		T y = m(in[n]), e = in[n];
		for (int i = n; i >= 0 && i > n - N; --i)
			if (MAX ? in[i] > e : in[i] < e)
				e = in[i];
		same("extremum of the first inputs", y, e);
	}
}
extern "C" void sa_C08_bytes2() { if (sa_choose(2)) first<unsigned char, DSP::MovMin<unsigned char, 2>, false, 2>(); else first<unsigned char, DSP::MovMax<unsigned char, 2>, true, 2>(); }
extern "C" void sa_C08_bytes3() { if (sa_choose(2)) first<unsigned char, DSP::MovMin<unsigned char, 3>, false, 3>(); else first<unsigned char, DSP::MovMax<unsigned char, 3>, true, 3>(); }
extern "C" void sa_C08_byte1() { narrow<unsigned char, 1>(); }
extern "C" void sa_C08T_n4min() { extremum<double, DSP::MovMin<double, 4>, false, 4>(); }
// long windows over unknown values of known order
static int place(int shape, int i, int n)
{
	switch (shape) {
	case 0: return 0;
	case 1: return i;
	case 2: return n - i;
	case 3: return i < n / 2 ? i : n - i;
	case 4: return i < n / 2 ? n - i : i;
	case 5: return i % 2;
	case 6: return i % 2 ? i : n - i;
	case 7: return i % 7;
	case 8: return i * 37 % n;
	case 9: return i / 9;
	case 10: return (n - i) / 5;
	default: return i * i % 11;
	}
}
template <typename T> struct Step { static T base() { return sa_real_in("base", -1000, 1000); } static T step() { return sa_real_in("step", 1, 10); } };
template <> struct Step<int> { static int base() { return sa_int_in("base", -1000, 1000); } static int step() { return sa_int_in("step", 1, 10); } };
template <typename T, template <typename, int> class M, bool MAX, int N> static void ordered(int free)
{
	const int K = 3 * N + 4;
	static M<T, N> m;
	T value[K], base = Step<T>::base(), step = Step<T>::step();
	int rank[K], shape = sa_choose(12);
	for (int i = 0; i < K; ++i) {
		rank[i] = place(shape, i, K);
		value[i] = base + step * rank[i];
	}
	int odd = -1;
	if (free)
		value[odd = sa_choose(3) * N / 2 + N / 3] = any(T());
	for (int i = 0; i < K; ++i) {
		T y = m(value[i]);
		int k = -1;
		for (int j = i; j >= 0 && j > i - N; --j)
			if (j != odd && (k < 0 || (MAX ? rank[j] > rank[k] : rank[j] < rank[k])))
				k = j;
		if (odd >= 0 && odd <= i && odd > i - N && (k < 0 || (MAX ? value[odd] > value[k] : value[odd] < value[k])))
			k = odd;
		same("extremum of a long window", y, value[k]);
	}
}
#define LONG(N) extern "C" void sa_C08_long##N() { \
	switch (sa_choose(4)) { \
	case 0: ordered<double, DSP::MovMin, false, N>(0); break; \
	case 1: ordered<double, DSP::MovMax, true, N>(0); break; \
	case 2: ordered<int, DSP::MovMin, false, N>(0); break; \
	default: ordered<int, DSP::MovMax, true, N>(0); \
	} \
}
LONG(4) LONG(5) LONG(6) LONG(7) LONG(8) LONG(16) LONG(33)
extern "C" void sa_C08V_long260()
{
	if (sa_choose(2))
		ordered<int, DSP::MovMin, false, 260>(0);
	else
		ordered<double, DSP::MovMax, true, 260>(0);
}
extern "C" void sa_C08_free5() { ordered<double, DSP::MovMin, false, 5>(1); }
extern "C" void sa_C08_free8() { ordered<double, DSP::MovMax, true, 8>(1); }
// large capacities: some long histories, filled and drained at both ends
template <int N> static void large_deque()
{
	DSP::Deque<double, N> d;
	double seq[N];
	int n = 0, s = sa_choose(6);
	for (int i = 0; i < 5 * N; ++i) {
		bool grow = i / N % 2 == 0 ? i % 5 != 4 : i % 5 == 4, front = s == 0 ? 0 : s == 1 ? 1 : s == 2 ? i & 1 : s == 3 ? i * i % 7 < 3 : s == 4 ? grow : !grow;
		double x = sa_real("x");
		if (grow && n < N) {
			if (front) {
				d.push_front(x);
				for (int j = n; j > 0; --j)
					seq[j] = seq[j-1];
				seq[0] = x;
			} else {
				d.push_back(x);
				seq[n] = x;
			}
			++n;
		} else if (!grow && n) {
			--n;
			if (front) {
				d.pop_front();
				for (int j = 0; j < n; ++j)
					seq[j] = seq[j+1];
			} else {
				d.pop_back();
			}
		}
		if (i % 3 == 0)
			deque_state<double, N>(d, seq, n);
	}
}
extern "C" void sa_C06_large8() { large_deque<8>(); }
extern "C" void sa_C06_large16() { large_deque<16>(); }
extern "C" void sa_C06_large33() { large_deque<33>(); }
extern "C" void sa_C06V_large300() { large_deque<300>(); }
template <int N> static void large_stack()
{
	DSP::Stack<double, N> d;
	double seq[N];
	int n = 0;
	for (int i = 0; i < 5 * N; ++i) {
		bool grow = i / N % 2 == 0 ? i % 5 != 4 : i % 5 == 4;
		double x = sa_real("x");
		if (grow && n < N) {
			d.push(x);
			seq[n++] = x;
		} else if (!grow && n) {
			d.pop();
			--n;
		}
		sa_check("stack empty", d.empty() == (n == 0));
		sa_check("stack full", d.full() == (n == N));
		sa_check_eqi("stack size", d.size(), n);
		if (n) {
			sa_check_eq("top of a stack", d.top(), seq[n-1], 0);
			sa_check_eq("first of a stack", d.first(), seq[0], 0);
		}
	}
}
extern "C" void sa_C06_largeStack() { large_stack<16>(); large_stack<40>(); large_stack<300>(); }
