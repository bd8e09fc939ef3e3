#include "sa.h"
#include "delay.hh"
#include "bip_buffer.hh"

template <typename T, int N> static void delay_line()
{
	double init = sa_real("init");
	DSP::Delay<T, N> d(init);
	T last[N];
	for (int i = 0; i < N; ++i)
		last[i] = init;
	while (sa_head(0)) {
		T x = sa_real("x");
		T y = d(x);
		sa_check_eq("delayed input", y, last[0], 0);
		for (int i = 0; i + 1 < N; ++i)
			last[i] = last[i+1];
		last[N-1] = x;
	}
}
template <typename T, int N> static void delay_default()
{
	DSP::Delay<T, N> d;
	for (int i = 0; i < N; ++i)
		sa_check_eq("default initial value", d(1 + i), 0, 0);
	for (int i = 0; i < N; ++i)
		sa_check_eq("first inputs", d(0), 1 + i, 0);
}
template <typename T, int N> static void contiguous()
{
	DSP::BipBuffer<T, N> b;
	T last[N];
	for (int i = 0; i < N; ++i)
		last[i] = 0;
	while (sa_head(0)) {
		const T *q = b();
		for (int i = 0; i < N; ++i)
			sa_check_eq("queried history", q[i], last[i], 0);
		T x = sa_real("x");
		const T *p = b(x);
		for (int i = 0; i + 1 < N; ++i)
			last[i] = last[i+1];
		last[N-1] = x;
		for (int i = 0; i < N; ++i)
			sa_check_eq("fed history", p[i], last[i], 0);
	}
}
template <int N> static void both()
{
	switch (sa_choose(4)) {
	case 0: delay_line<float, N>(); break;
	case 1: delay_line<double, N>(); break;
	case 2: contiguous<float, N>(); break;
	default: contiguous<double, N>();
	}
	
}
extern "C" void sa_C05_n1() { both<1>(); }
extern "C" void sa_C05_n2() { both<2>(); }
extern "C" void sa_C05_n3() { both<3>(); }
extern "C" void sa_C05_n4() { both<4>(); }
extern "C" void sa_C05_n5() { both<5>(); }
extern "C" void sa_C05_n7() { both<7>(); }
extern "C" void sa_C05_n16() { both<16>(); }
extern "C" void sa_C05_n33() { both<33>(); }
extern "C" void sa_C05_default() { delay_default<float, 1>(); delay_default<double, 5>(); delay_default<int, 8>(); }
extern "C" void sa_C05_n64() { both<64>(); }
extern "C" void sa_C05_n100() { both<100>(); }
extern "C" void sa_C05V_n300() { both<300>(); }
