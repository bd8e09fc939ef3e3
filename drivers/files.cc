// WAV (C26, C27) and Netpbm (C28) files, by way of the streams in shim/fstream
#include "sa.h"
#include "wav.hh"
#include "netpbm.hh"

// comparisons of the C library, for the analysis to follow
extern "C" int memcmp(const void *a, const void *b, size_t n) noexcept
{
	const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b;
	for (size_t i = 0; i < n; ++i)
		if (p[i] != q[i])
			return p[i] < q[i] ? -1 : 1;
	return 0;
}
extern "C" int strncmp(const char *a, const char *b, size_t n) noexcept
{
	for (size_t i = 0; i < n; ++i) {
		if (a[i] != b[i])
			return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
		if (!a[i])
			break;
	}
	return 0;
}
static int U8(int at) { return sa_file.byte[at]; }
static int S16(int at) { return short(U8(at) | U8(at + 1) << 8); }
static int U16(int at) { return U8(at) | U8(at + 1) << 8; }
static int S32(int at) { return U8(at) | U8(at + 1) << 8 | U8(at + 2) << 16 | U8(at + 3) << 24; }
static bool tag(int at, const char *s) { return U8(at) == s[0] && U8(at + 1) == s[1] && U8(at + 2) == s[2] && U8(at + 3) == s[3]; }

// C26
struct Expect // what the file must hold
{
	int count = 0;
	double value[16];
	bool quiet[16];
	void add(double v) { quiet[count] = false; value[count++] = v; }
	void mute() { quiet[count] = true; value[count++] = 0; }
};
static void header(int rate, int width, int channels, int count)
{
	int extra = width == 32 ? 14 : 0, size = count * (width / 8);
	sa_check("RIFF/WAVE tags", tag(0, "RIFF") && tag(8, "WAVE") && tag(12, "fmt "));
	sa_check_eqi("length of the format chunk", S32(16), width == 32 ? 18 : 16);
	sa_check_eqi("sample format", U16(20), width == 32 ? 3 : 1);
	sa_check_eqi("channels in the header", U16(22), channels);
	sa_check_eqi("rate in the header", S32(24), rate);
	sa_check_eqi("byte rate in the header", S32(28), rate * channels * (width / 8));
	sa_check_eqi("block size in the header", U16(32), channels * (width / 8));
	sa_check_eqi("sample width in the header", U16(34), width);
	if (width == 32) {
		sa_check_eqi("no format extension", U16(36), 0);
		sa_check("fact tag", tag(38, "fact"));
		sa_check_eqi("length of the fact chunk", S32(42), 4);
		sa_check_eqi("frames in the fact chunk", S32(46), count / channels);
	}
	sa_check("data tag", tag(36 + extra, "data"));
	sa_check_eqi("length of the data chunk", S32(40 + extra), size);
	sa_check_eqi("length of the file in the header", S32(4), 36 + extra + size);
	sa_check_eqi("length of the file", sa_file.size, 44 + extra + size);
}
static float asFloat(int v)
{
	union { int i; float f; } u;
	u.i = v;
	return u.f;
}
static void samples(int width, const Expect &e)
{
	int at = width == 32 ? 58 : 44;
	for (int i = 0; i < e.count; ++i, at += width / 8) {
		if (width == 32) {
			sa_check_eq("stored float sample", asFloat(S32(at)), e.value[i], 0);
			continue;
		}
		int v = width == 8 ? U8(at) : S16(at), lo = width == 8 ? 0 : -32768, hi = width == 8 ? 255 : 32767;
		double w = width == 8 ? 128 + 127 * e.value[i] : 32767 * e.value[i];
		if (e.quiet[i]) {
			sa_check_eqi("silence is the mid level", v, width == 8 ? 128 : 0);
		} else if (w <= lo) {
			sa_check_eqi("saturated at the lower limit", v, lo);
		} else if (w >= hi) {
			sa_check_eqi("saturated at the upper limit", v, hi);
		} else {
			sa_check_le("rounded to nearest", v - w, 0.5);
			sa_check_le("rounded to nearest", w - v, 0.5);
		}
	}
}
template <typename T> static void written(int bits, int channels, int ops)
{
	int width = bits == 8 || bits == 16 ? bits : 32;
	int rate = sa_int_in("rate", 1, 2147483647 / (4 * channels));
	Expect e;
	{
		DSP::WriteWAV<T> wav("out.wav", rate, bits, channels);
		DSP::WritePCM<T> *pcm = &wav;
		sa_check_eqi("reported rate", pcm->rate(), rate);
		sa_check_eqi("reported channels", pcm->channels(), channels);
		for (int i = 0; i < ops; ++i) {
			T buf[16];
			for (int j = 0; j < 16; ++j)
				buf[j] = sa_real("sample");
			switch (sa_choose(4)) {
			case 0:
				pcm->write(sa_exact(buf, channels), 1);
				for (int c = 0; c < channels; ++c)
					e.add(buf[c]);
				break;
			case 1:
				pcm->write(sa_exact(buf, channels), 1, channels + 2);
				for (int c = 0; c < channels; ++c)
					e.add(buf[c]);
				break;
			case 2:
				pcm->silence(2);
				for (int c = 0; c < 2 * channels; ++c)
					e.mute();
				break;
			default:
				pcm->write(sa_exact(buf, 0), 0);
				pcm->silence(0);
			}
		}
		sa_check("still good", pcm->good());
	}
	header(rate, width, channels, e.count);
	samples(width, e);
}
extern "C" void sa_C26_w8c1() { written<double>(8, 1, 2); }
extern "C" void sa_C26_w8c2() { written<double>(8, 2, 1); }
extern "C" void sa_C26_w16c1() { written<double>(16, 1, 2); }
extern "C" void sa_C26_w16c2() { written<double>(16, 2, 1); }
extern "C" void sa_C26_w16c3() { written<double>(16, 3, 1); }
extern "C" void sa_C26_w32c1() { written<float>(32, 1, 3); }
extern "C" void sa_C26_w32c2() { written<float>(32, 2, 2); }
extern "C" void sa_C26_w24c2() { written<float>(24, 2, 1); }
extern "C" void sa_C26_w16c1f() { written<float>(16, 1, 1); }
template <typename T> static void frames(int bits, int channels, int stride)
{
	int width = bits;
	Expect e;
	{
		T buf[32];
		for (int j = 0; j < 32; ++j)
			buf[j] = j % 3 == 0 ? sa_real("sample") : T(0.25) * (j - 15);
		DSP::WriteWAV<T> wav("out.wav", 44100, bits, channels);
		if (stride < 0) {
			wav.write(sa_exact(buf, 3 * channels), 3);
			stride = channels;
		} else {
			wav.write(sa_exact(buf, 2 * stride + channels), 3, stride);
		}
		for (int n = 0; n < 3; ++n)
			for (int c = 0; c < channels; ++c)
				e.add(buf[n*stride+c]);
		wav.silence(1);
		for (int c = 0; c < channels; ++c)
			e.mute();
	}
	header(44100, width, channels, e.count);
	samples(width, e);
}
extern "C" void sa_C26_frames8() { frames<double>(8, 2, -1); }
extern "C" void sa_C26_frames16() { frames<double>(16, 2, 3); }
extern "C" void sa_C26_frames16packed() { frames<double>(16, 3, 1); }
extern "C" void sa_C26_frames16same() { frames<double>(16, 2, 0); }
extern "C" void sa_C26_frames32() { frames<float>(32, 3, 5); }
extern "C" void sa_C26_frames32mono() { frames<float>(32, 1, -1); }
// a recording of any length: the header as if so many frames had been written before
template <typename T> static void lengthy(int bits, int channels)
{
	int extra = bits == 32 ? 14 : 0, block = channels * (bits / 8);
	int more = sa_int_in("frames before", 0, (2147483647 - 200) / block);
	{
		DSP::WriteWAV<T> wav("out.wav", 48000, bits, channels);
		wav.silence(1);
		sa_beyond = long(more) * block;
	}
	sa_check_eqi("length of the data chunk of a long file", S32(40 + extra), more * block + block);
	sa_check_eqi("length of a long file in the header", S32(4), 36 + extra + more * block + block);
	if (bits == 32)
		sa_check_eqi("frames of a long file in the fact chunk", S32(46), more + 1);
}
extern "C" void sa_C26_long8() { lengthy<double>(8, 3); }
extern "C" void sa_C26_long16() { lengthy<double>(16, 2); }
extern "C" void sa_C26_long32() { lengthy<float>(32, 1); }
extern "C" void sa_C26_long32c2() { lengthy<float>(32, 2); }

// C27
static double stored(int width, double v) // what the file keeps of a sample
{
	double f = width == 8 ? 127 : 32767, lo = width == 8 ? -128 : -32768, hi = width == 8 ? 127 : 32767;
	if (width == 32)
		return v;
	if (f * v < lo)
		return lo / f;
	if (f * v > hi)
		return hi / f;
	return v;
}
static double halfStep(int width) { return width == 32 ? 0 : width == 8 ? 0.5 / 127 : 0.5 / 32767; }
template <typename T> static void roundTrip(int bits, int channels, int num, int stride, int skip)
{
	int width = bits == 8 || bits == 16 ? bits : 32;
	int rate = sa_int_in("rate", 1, 2147483647 / (4 * channels));
	int step = stride < 0 ? channels : stride, extent = skip < 0 ? num : num - skip;
	extent = extent > 0 ? (extent - 1) * step + channels : 0;
	T *in = new T[num*channels], *out = new T[extent], spare[8];
	for (int j = 0; j < num * channels; ++j)
		in[j] = sa_real("sample");
	for (int j = 0; j < extent; ++j)
		out[j] = 7;
	{
		DSP::WriteWAV<T> wav("x.wav", rate, bits, channels);
		wav.write(in, num);
	}
	DSP::ReadWAV<T> wav("x.wav");
	DSP::ReadPCM<T> *pcm = &wav;
	sa_check("a written file is good", pcm->good());
	sa_check_eqi("frames read back", pcm->frames(), num);
	sa_check_eqi("channels read back", pcm->channels(), channels);
	sa_check_eqi("rate read back", pcm->rate(), rate);
	sa_check_eqi("width read back", wav.bits(), width);
	int first = 0;
	if (skip >= 0) {
		pcm->skip(skip);
		first = skip;
		sa_check("skipping stays in the file", pcm->good());
	}
	if (stride < 0) {
		pcm->read(out, num - first);
		stride = channels;
	} else {
		pcm->read(out, num - first, stride);
	}
	sa_check("reading stays in the file", pcm->good());
	for (int n = 0; n < num - first; ++n) {
		for (int c = 0; c < channels; ++c) {
			double w = stored(width, in[(first+n)*channels+c]), v = out[n*stride+c];
			sa_check_le("sample read back", v - w, halfStep(width) + 1e-12);
			sa_check_le("sample read back", w - v, halfStep(width) + 1e-12);
		}
		for (int c = channels; c < stride && n < num - first - 1; ++c)
			sa_check_eq("values between the frames untouched", out[n*stride+c], 7, 0);
	}
	pcm->read(spare, 1);
	sa_check("the file ends after the last frame", !pcm->good());
}
extern "C" void sa_C27_r8c1() { roundTrip<double>(8, 1, 2, -1, -1); }
extern "C" void sa_C27_r8c2() { roundTrip<double>(8, 2, 1, 3, -1); }
extern "C" void sa_C27_r16c1() { roundTrip<double>(16, 1, 2, -1, -1); }
extern "C" void sa_C27_r16c2() { roundTrip<double>(16, 2, 1, 3, -1); }
extern "C" void sa_C27_r16skip() { roundTrip<double>(16, 1, 3, 2, 1); }
extern "C" void sa_C27_r8skip() { roundTrip<double>(8, 1, 3, -1, 2); }
extern "C" void sa_C27_r32c1() { roundTrip<float>(32, 1, 8, 2, 3); }
extern "C" void sa_C27_r32c2() { roundTrip<float>(32, 2, 6, -1, 2); }
extern "C" void sa_C27_r32c3() { roundTrip<float>(32, 3, 5, 4, 0); }
extern "C" void sa_C27_r24c2() { roundTrip<float>(24, 2, 3, -1, -1); }
// many frames in one call
template <typename T> static void many(int bits, int channels, int num)
{
	T *in = new T[num*channels], *out = new T[num*channels];
	for (int j = 0; j < num * channels; ++j)
		in[j] = T(0.0078125) * (j % 251 - 120);
	in[num*channels-1] = sa_real("last sample");
	{
		DSP::WriteWAV<T> wav("x.wav", 8000, bits, channels);
		wav.write(in, num);
		wav.silence(num);
	}
	DSP::ReadWAV<T> wav("x.wav");
	sa_check_eqi("frames written at once and of silence", wav.frames(), 2 * num);
	for (int n = 0; n < 2; ++n) {
		wav.read(out, num);
		sa_check("reading many frames stays in the file", wav.good());
		for (int j = 0; j < num * channels; ++j) {
			double w = n ? 0 : stored(bits, in[j]), v = out[j];
			sa_check_le("sample of many", v - w, halfStep(bits) + 1e-12);
			sa_check_le("sample of many", w - v, halfStep(bits) + 1e-12);
		}
	}
}
extern "C" void sa_C26_many8() { many<double>(8, 1, 300); }
extern "C" void sa_C26_many16() { many<double>(16, 1, 300); }
extern "C" void sa_C27_many8() { many<double>(8, 1, 300); }
extern "C" void sa_C27_many() { many<double>(8, 1, 33000); }
extern "C" void sa_C27_many16() { many<double>(16, 2, 300); }
extern "C" void sa_C27_many32() { many<float>(32, 1, 300); }
// strides that are left out, or keep one frame only, and files without frames
template <typename T> static void strides(int bits, int channels)
{
	T *in = new T[4*channels];
	for (int j = 0; j < 4 * channels; ++j)
		in[j] = T(0.0625) * (j - 5);
	{
		DSP::WriteWAV<T> wav("x.wav", 8000, bits, channels);
		wav.write(in, 4);
	}
	int stride = sa_choose(2) ? channels : 0;
	DSP::ReadWAV<T> wav("x.wav");
	T *out = new T[3*stride+channels];
	if (stride)
		wav.read(out, 4);
	else
		wav.read(out, 4, 0);
	for (int n = stride ? 0 : 3; n < 4; ++n)
		for (int c = 0; c < channels; ++c) {
			double w = in[n*channels+c], v = out[n*stride+c];
			sa_check_le("sample read back at its stride", v - w, halfStep(bits) + 1e-12);
			sa_check_le("sample read back at its stride", w - v, halfStep(bits) + 1e-12);
		}
}
extern "C" void sa_C27_strides8() { strides<double>(8, 2); }
extern "C" void sa_C27_strides16() { strides<double>(16, 2); }
extern "C" void sa_C27_strides32() { strides<float>(32, 2); }
// reading and skipping in any order
template <typename T> static void mixed(int bits, int channels)
{
	T in[27], out[6];
	for (int j = 0; j < 9 * channels; ++j)
		in[j] = T(0.0625) * (j - 12);
	{
		DSP::WriteWAV<T> wav("x.wav", 8000, bits, channels);
		for (int n = 0; n < 9; ++n)
			wav.write(in + n * channels, 1);
	}
	DSP::ReadWAV<T> wav("x.wav");
	int at = 0;
	for (int i = 0; i < 4; ++i) {
		int num = 1 + sa_choose(2);
		int way = sa_choose(at ? 3 : 2);
		if (way == 2) {
			wav.skip(-1);
			num = -1;
		} else if (way) {
			wav.skip(num);
		} else {
			wav.read(out, num);
			for (int j = 0; j < num * channels; ++j) {
				sa_check_le("sample after reading and skipping", out[j] - in[at*channels+j], halfStep(bits) + 1e-12);
				sa_check_le("sample after reading and skipping", in[at*channels+j] - out[j], halfStep(bits) + 1e-12);
			}
		}
		at += num;
	}
	sa_check("reading and skipping stay in the file", wav.good());
	wav.read(out, 1);
	sa_check_le("sample after reading and skipping", out[0] - in[at*channels], halfStep(bits) + 1e-12);
	sa_check_le("sample after reading and skipping", in[at*channels] - out[0], halfStep(bits) + 1e-12);
	sa_check_eqi("the number of frames stays", wav.frames(), 9);
}
extern "C" void sa_C27_mixed8() { mixed<double>(8, 3); }
extern "C" void sa_C27_mixed16() { mixed<double>(16, 2); }
extern "C" void sa_C27_mixed32() { mixed<float>(32, 1); }
extern "C" void sa_C27_mixed32c3() { mixed<float>(32, 3); }
extern "C" void sa_C27_empty()
{
	int channels = 1 + sa_choose(3), bits = sa_choose(2) ? 16 : 32;
	{
		DSP::WriteWAV<float> wav("x.wav", 8000, bits, channels);
		if (sa_choose(2))
			wav.silence(0);
	}
	DSP::ReadWAV<float> wav("x.wav");
	sa_check_eqi("an empty recording has an unknown length", wav.frames(), -1);
	sa_check_eqi("channels of an empty recording", wav.channels(), channels);
	sa_check_eqi("rate of an empty recording", wav.rate(), 8000);
	sa_check_eqi("width of an empty recording", wav.bits(), bits);
}
extern "C" void sa_C27_single() // one byte of data
{
	{
		DSP::WriteWAV<float> wav("x.wav", 8000, 8, 1);
		wav.silence(1);
	}
	DSP::ReadWAV<float> wav("x.wav");
	sa_check_eqi("a single frame of one byte", wav.frames(), 1);
}
// every code of the integer widths, decoded
template <typename T> static void codes(int bits)
{
	{
		DSP::WriteWAV<T> wav("x.wav", 8000, bits, 1);
		wav.silence(1);
	}
	int v = bits == 8 ? sa_int_in("code", 0, 255) : sa_int_in("code", -32768, 32767);
	sa_file.byte[44] = v & 255;
	if (bits == 16)
		sa_file.byte[45] = (v >> 8) & 255;
	DSP::ReadWAV<T> wav("x.wav");
	T out;
	wav.read(&out, 1);
	sa_check_eq("decoded value", out, bits == 8 ? (v - 128) / 127. : v / 32767., 1e-12);
}
extern "C" void sa_C27_code8() { codes<double>(8); }
extern "C" void sa_C27_code16() { codes<double>(16); }
// any header: a positive frame count means that everything in it agrees
static void put(int at, int v, int n)
{
	for (int i = 0; i < n; ++i)
		sa_file.byte[at+i] = (v >> (8 * i)) & 255;
}
static void puts4(int at, const char *s)
{
	for (int i = 0; i < 4; ++i)
		sa_file.byte[at+i] = s[i];
}
static int lay(bool ext, int format, int width, int channels, int rate, int size)
{
	int extra = ext ? 14 : 0, bytes = width / 8;
	puts4(0, "RIFF");
	put(4, 36 + extra + size, 4);
	puts4(8, "WAVE");
	puts4(12, "fmt ");
	put(16, ext ? 18 : 16, 4);
	put(20, format, 2);
	put(22, channels, 2);
	put(24, rate, 4);
	put(28, rate * channels * bytes, 4);
	put(32, channels * bytes, 2);
	put(34, width, 2);
	if (ext) {
		put(36, 0, 2);
		puts4(38, "fact");
		put(42, 4, 4);
		put(46, size / (channels * bytes), 4);
	}
	puts4(36 + extra, "data");
	put(40 + extra, size, 4);
	sa_file.size = 44 + extra + size;
	for (int i = 0; i < size; ++i)
		sa_file.byte[44+extra+i] = 0;
	return 44 + extra;
}
static int any(const char *name, int at, int n)
{
	int v = n == 2 ? sa_int_in(name, -32768, 32767) : sa_int_in(name, -2147483647 - 1, 2147483647);
	put(at, v, n);
	return v;
}
template <typename T> static void consistent(bool ext)
{
	DSP::ReadWAV<T> wav("x.wav");
	int at = ext ? 50 : 36;
	int frames = wav.frames();
	wav.good();
	if (frames <= 0)
		return;
	int channels = wav.channels(), bytes = wav.bits() / 8;
	sa_check("a positive frame count needs the tags", tag(0, "RIFF") && tag(8, "WAVE") && tag(12, "fmt ") && tag(at, "data"));
	sa_check("a positive frame count needs a known format", (U16(20) == 1 && (bytes == 1 || bytes == 2)) || (U16(20) == 3 && bytes == 4));
	sa_check_eqi("a positive frame count needs the width", U16(34), 8 * bytes);
	sa_check_eqi("a positive frame count needs the block size", S16(32), channels * bytes);
	sa_check("a positive frame count needs the byte rate", (long long)wav.rate() * channels * bytes == S32(28));
	sa_check("a positive frame count needs agreeing sizes", (long long)S32(at + 4) + at == S32(4));
	sa_check_eqi("a positive frame count needs the size of its format chunk", S32(16), ext ? 18 : 16);
	if (ext) {
		sa_check_eqi("a positive frame count needs the extension the format chunk has room for", S16(36), 0);
		sa_check("a positive frame count needs the tag of the chunk between", tag(38, "fact"));
		sa_check_eqi("a positive frame count needs the size of the chunk between", S32(42), 4);
	}
}
template <typename T> static void perturbed(bool ext, int width, int channels)
{
	lay(ext, width == 32 ? 3 : 1, width, channels, 8000, 4 * channels * width / 8);
	switch (sa_choose(14)) {
	case 0: any("chunk size", 4, 4); break;
	case 1: any("format chunk size", 16, 4); break;
	case 2: any("format", 20, 2); break;
	case 3: any("channels", 22, 2); break;
	case 4: any("rate", 24, 4); break;
	case 5: any("byte rate", 28, 4); break;
	case 6: any("block", 32, 2); break;
	case 7: any("width", 34, 2); break;
	case 8: any("data size", ext ? 54 : 40, 4); break;
	case 9: any("tag", 0, 4); break;
	case 10: any("tag", 8, 4); break;
	case 11: any("tag", 12, 4); break;
	case 12: any("tag", ext ? 50 : 36, 4); break;
	default:
		if (ext) {
			any("extension", 36, 2);
			any("fact", 38, 4);
			any("fact size", 42, 4);
			any("count", 46, 4);
		}
	}
	consistent<T>(ext);
}
extern "C" void sa_C27_header8() { perturbed<double>(false, 8, 1); }
extern "C" void sa_C27_header16() { perturbed<double>(false, 16, 2); }
extern "C" void sa_C27_header32() { perturbed<float>(true, 32, 2); }
template <typename T> static void freeFields(bool ext, int width)
{
	lay(ext, width == 32 ? 3 : 1, width, 1, 8000, 4 * width / 8);
	any("channels", 22, 2);
	any("rate", 24, 4);
	any("byte rate", 28, 4);
	any("block", 32, 2);
	any("chunk size", 4, 4);
	any("data size", ext ? 54 : 40, 4);
	if (ext)
		any("count", 46, 4);
	consistent<T>(ext);
}
extern "C" void sa_C27_fields8() { freeFields<double>(false, 8); }
extern "C" void sa_C27_fields16() { freeFields<double>(false, 16); }
extern "C" void sa_C27_fields32() { freeFields<float>(true, 32); }
// the layouts the writer does not use
extern "C" void sa_C27_header16x() { perturbed<double>(true, 16, 1); }
extern "C" void sa_C27_header32s() { perturbed<float>(false, 32, 1); }
extern "C" void sa_C27_fields8x() { freeFields<double>(true, 8); }
extern "C" void sa_C27_fields16x() { freeFields<double>(true, 16); }
extern "C" void sa_C27_fields32s() { freeFields<float>(false, 32); }
// headers of every layout in which everything agrees
extern "C" void sa_C27_layouts()
{
	bool ext = sa_choose(2);
	int width = sa_choose(3), channels = 1 + sa_choose(3), frames = 1 + sa_choose(3);
	width = width ? 16 * width : 8;
	lay(ext, width == 32 ? 3 : 1, width, channels, 48000, frames * channels * width / 8);
	DSP::ReadWAV<float> wav("x.wav");
	sa_check_eqi("frames of an agreeing header", wav.frames(), frames);
	sa_check_eqi("channels of an agreeing header", wav.channels(), channels);
	sa_check_eqi("width of an agreeing header", wav.bits(), width);
	sa_check_eqi("rate of an agreeing header", wav.rate(), 48000);
	float out[9];
	wav.read(out, frames);
	for (int i = 0; i < frames * channels; ++i)
		sa_check_eq("samples right behind an agreeing header", out[i], width == 8 ? -128. / 127 : 0, 1e-6);
	sa_check("an agreeing file is read to its end", wav.good());
	wav.read(out, 1);
	sa_check("there is nothing behind the end", !wav.good());
}
// a file that ends early
template <typename T> static void cut(bool ext, int width)
{
	int end = lay(ext, ext ? 3 : 1, width, 1, 8000, 4 * width / 8);
	sa_file.size = sa_choose(end);
	DSP::ReadWAV<T> wav("x.wav");
	sa_check("a cut header gives no frames", wav.frames() <= 0);
	sa_check("a cut header is not good", !wav.good());
}
extern "C" void sa_C27_cut8() { cut<double>(false, 8); }
extern "C" void sa_C27_cut32() { cut<float>(true, 32); }

// C28
static double encoded(double v) // sRGB
{
	v = v < 0 ? 0 : v > 1 ? 1 : v;
	return v <= 0.0031308 ? 12.92 * v : 1.055 * std::pow(v, 1 / 2.4) - 0.055;
}
static double decoded(double e) { return e <= 0.04045 ? e / 12.92 : std::pow((e + 0.055) / 1.055, 2.4); }
struct Image // as another program would read it
{
	int kind, number[3], data;
	Image()
	{
		sa_check("magic", U8(0) == 'P' && (U8(1) == '5' || U8(1) == '6'));
		kind = U8(1) - '0';
		int at = 2;
		for (int i = 0; i < 3; ++i) {
			sa_check("blank before a number", blank(U8(at)));
			while (blank(U8(at)))
				++at;
			sa_check("a number in the header", digit(U8(at)));
			for (number[i] = 0; digit(U8(at)); ++at)
				number[i] = 10 * number[i] + U8(at) - '0';
		}
		sa_check("one blank before the pixels", blank(U8(at)));
		data = at + 1;
	}
	static bool blank(int c) { return c == ' ' || c == '\n' || c == '\t'; }
	static bool digit(int c) { return c >= '0' && c <= '9'; }
};
static void imageHeader(const Image &img, int width, int height, bool mono, int maxval)
{
	sa_check_eqi("kind of image", img.kind, mono ? 5 : 6);
	sa_check_eqi("width in the header", img.number[0], width);
	sa_check_eqi("height in the header", img.number[1], height);
	sa_check_eqi("maximum in the header", img.number[2], maxval);
	sa_check_eqi("length of the image", sa_file.size, img.data + width * height * (mono ? 1 : 3));
}
static void component(int code, double v, int maxval)
{
	double w = maxval * encoded(v);
	if (v <= 0) {
		sa_check_eqi("dark saturates at zero", code, 0);
	} else if (v >= 1) {
		sa_check_eqi("bright saturates at the maximum", code, maxval);
	} else {
		// the two pieces of the curve meet at 0.0031308 to within 1e-7
		sa_check_le("component rounded to nearest", code - w, 0.5 + 1e-4);
		sa_check_le("component rounded to nearest", w - code, 0.5 + 1e-4);
	}
}
static void imageWritten(int width, int height, bool mono, int maxval, int stride)
{
	double buf[48];
	int num = width * height, comps = mono ? 1 : 3, step = stride < 0 ? comps : stride;
	for (int i = 0; i < 48; ++i)
		buf[i] = 0.02 * i;
	int which = sa_choose(num * comps);
	double v = sa_real("component");
	buf[which / comps * step + which % comps] = v;
	{
		DSP::WritePNM<double> pnm("x.pnm", width, height, mono, maxval);
		DSP::WritePEL<double> *pel = &pnm;
		sa_check_eqi("reported width", pel->width(), width);
		sa_check_eqi("reported height", pel->height(), height);
		sa_check("reported kind", pel->mono() == mono);
		int half = num / 2;
		if (stride < 0) {
			pel->write(sa_exact(buf, half * comps), half);
			pel->write(sa_exact(buf + half * step, (num - half) * comps), num - half);
		} else {
			pel->write(sa_exact(buf, half ? (half - 1) * step + comps : 0), half, stride);
			pel->write(sa_exact(buf + half * step, (num - half - 1) * step + comps), num - half, stride);
		}
		sa_check("still good", pel->good());
	}
	Image img;
	imageHeader(img, width, height, mono, maxval);
	for (int i = 0; i < num; ++i)
		for (int c = 0; c < comps; ++c)
			component(U8(img.data + comps * i + c), buf[step*i+c], maxval);
}
extern "C" void sa_C28_grey() { imageWritten(3, 2, true, 255, -1); }
extern "C" void sa_C28_greyStride() { imageWritten(3, 2, true, 255, 5); }
extern "C" void sa_C28_colour() { imageWritten(2, 2, false, 255, -1); }
extern "C" void sa_C28_colourStride() { imageWritten(2, 2, false, 255, 4); }
extern "C" void sa_C28_colour100() { imageWritten(2, 1, false, 100, -1); }
extern "C" void sa_C28_grey15() { imageWritten(2, 1, true, 15, -1); }
extern "C" void sa_C28_grey3() { imageWritten(2, 1, true, 3, -1); }
extern "C" void sa_C28_wide() { imageWritten(12, 1, true, 255, -1); }
// what is left out: kind, maximum and stride
extern "C" void sa_C28_defaults()
{
	double buf[12], back[12];
	for (int i = 0; i < 12; ++i) {
		buf[i] = 0.08 * i;
		back[i] = 7;
	}
	bool mono = sa_choose(2);
	int comps = mono ? 1 : 3;
	if (mono) {
		DSP::WritePNM<double> pnm("x.pnm", 3, 1, true);
		pnm.write(buf, 3);
	} else {
		DSP::WritePNM<double> pnm("x.pnm", 3, 1);
		sa_check("in colour unless told otherwise", !pnm.mono());
		pnm.write(buf, 3);
	}
	Image img;
	imageHeader(img, 3, 1, mono, 255);
	for (int i = 0; i < 3 * comps; ++i)
		component(U8(img.data + i), buf[i], 255);
	DSP::ReadPNM<double> pnm("x.pnm");
	pnm.read(back, 3);
	for (int i = 0; i < 3 * comps; ++i)
		sa_check_eq("component at its place", back[i], decoded(U8(img.data + i) / 255.), 1e-9);
	for (int i = 3 * comps; i < 12; ++i)
		sa_check_eq("nothing else touched", back[i], 7, 0);
}
extern "C" void sa_C28_same() // a stride of zero keeps one pixel
{
	double buf[4] = { 0.1, 0.4, 0.7, 7 };
	bool mono = sa_choose(2);
	int comps = mono ? 1 : 3;
	{
		DSP::WritePNM<double> pnm("x.pnm", 2, 1, mono);
		pnm.write(buf, 2, 0);
	}
	Image img;
	imageHeader(img, 2, 1, mono, 255);
	for (int i = 0; i < 2 * comps; ++i)
		component(U8(img.data + i), buf[i % comps], 255);
	for (int i = 0; i < 2 * comps; ++i)
		sa_file.byte[img.data+i] = 40 * i + 9;
	DSP::ReadPNM<double> pnm("x.pnm");
	for (int i = 0; i < 4; ++i)
		buf[i] = 7;
	pnm.read(buf, 2, 0);
	for (int i = 0; i < comps; ++i)
		sa_check_eq("component of the last pixel", buf[i], decoded((40 * (comps + i) + 9) / 255.), 1e-9);
	sa_check_eq("nothing else touched", buf[comps], 7, 0);
}
extern "C" void sa_C28_digits() // numbers of any digits
{
	static const char head[] = "P5 000 000 255\n";
	for (int i = 0; head[i]; ++i)
		sa_file.byte[i] = head[i];
	sa_file.size = 15;
	int d[6], at = sa_choose(3);
	for (int i = 0; i < 6; ++i) {
		d[i] = i / 2 == at ? sa_int_in("digit", 0, 9) : 7 - i;
		sa_file.byte[i < 3 ? 3 + i : 4 + i] = '0' + d[i];
	}
	DSP::ReadPNM<double> pnm("x.pnm");
	sa_check_eqi("width of any digits", pnm.width(), 100 * d[0] + 10 * d[1] + d[2]);
	sa_check_eqi("height of any digits", pnm.height(), 100 * d[3] + 10 * d[4] + d[5]);
}
extern "C" void sa_C28_long() // long numbers
{
	static const char head[] = "P6 0000000 0000000 255\n";
	for (int i = 0; head[i]; ++i)
		sa_file.byte[i] = head[i];
	sa_file.size = 23;
	int width = 0, height = 0, at = sa_choose(7);
	for (int i = 0; i < 7; ++i) {
		int a = i == at ? sa_int_in("digit", 0, 9) : 9 - i, b = i == at ? sa_int_in("digit", 0, 9) : i;
		sa_file.byte[3+i] = '0' + a;
		sa_file.byte[11+i] = '0' + b;
		width = 10 * width + a;
		height = 10 * height + b;
	}
	DSP::ReadPNM<double> pnm("x.pnm");
	sa_check_eqi("width of any digits", pnm.width(), width);
	sa_check_eqi("height of any digits", pnm.height(), height);
}
static int layImage(const char *head, int n)
{
	int at = 0;
	for (; head[at]; ++at)
		sa_file.byte[at] = head[at];
	for (int i = 0; i < n; ++i)
		sa_file.byte[at+i] = i;
	sa_file.size = at + n;
	return at;
}
static void decode(const char *head, int maxval)
{
	layImage(head, maxval + 1);
	double *buf = new double[maxval+1];
	DSP::ReadPNM<double> pnm("x.pnm");
	sa_check_eqi("width read", pnm.width(), 4);
	sa_check_eqi("height read", pnm.height(), (maxval + 1) / 4);
	sa_check("kind read", pnm.mono());
	pnm.read(buf, maxval + 1);
	sa_check("the image holds all pixels", pnm.good());
	for (int i = 0; i <= maxval; ++i)
		sa_check_eq("decoded component", buf[i], decoded(double(i) / maxval), 1e-9);
	{
		DSP::WritePNM<double> out("x.pnm", 4, (maxval + 1) / 4, true, maxval);
		out.write(buf, maxval + 1);
	}
	Image img;
	imageHeader(img, 4, (maxval + 1) / 4, true, maxval);
	for (int i = 0; i <= maxval; ++i)
		sa_check_eqi("component survives reading and writing", U8(img.data + i), i);
}
extern "C" void sa_C28_decode255() { decode("P5 4 64 255\n", 255); }
extern "C" void sa_C28_decode127() { decode("P5 4 32 127\n", 127); }
extern "C" void sa_C28_decode63() { decode("P5 4 16 63\n", 63); }
extern "C" void sa_C28_decode15() { decode("P5 4 4 15\n", 15); }
extern "C" void sa_C28_decode7() { decode("P5 4 2 7\n", 7); }
extern "C" void sa_C28_decode3() { decode("P5 4 1 3\n", 3); }
// many pixels in one call
static void manyPixels(bool mono, int num)
{
	int comps = mono ? 1 : 3;
	double *in = new double[num*comps], *out = new double[num*comps];
	for (int i = 0; i < num * comps; ++i)
		in[i] = decoded(i % 251 / 255.);
	double last = sa_real_in("last component", 0.2, 0.3);
	in[num*comps-1] = last;
	{
		DSP::WritePNM<double> pnm("x.pnm", num, 1, mono);
		pnm.write(in, num);
	}
	Image img;
	imageHeader(img, num, 1, mono, 255);
	for (int i = 0; i < num * comps - 1; ++i)
		sa_check_eqi("component of many pixels", U8(img.data + i), i % 251);
	component(U8(img.data + num * comps - 1), last, 255);
	DSP::ReadPNM<double> pnm("x.pnm");
	pnm.read(out, num);
	sa_check("the image holds many pixels", pnm.good());
	for (int i = 0; i < num * comps - 1; ++i)
		sa_check_eq("component of many pixels read back", out[i], in[i], 1e-9);
}
extern "C" void sa_C28_manyGrey() { manyPixels(true, 300); }
extern "C" void sa_C28_many() { manyPixels(true, 33000); }
extern "C" void sa_C28_manyColour() { manyPixels(false, 300); }
static void place(bool mono, int stride)
{
	int base = layImage(mono ? "P5 3 2 255\n" : "P6 3 2 255\n", mono ? 6 : 18), comps = mono ? 1 : 3;
	for (int i = 0; i < 6 * comps; ++i)
		sa_file.byte[base+i] = 13 * i + 5;
	int step = stride < 0 ? comps : stride, extent = 5 * step + comps;
	double *buf = new double[extent], spare[3];
	for (int i = 0; i < extent; ++i)
		buf[i] = 7;
	DSP::ReadPNM<double> pnm("x.pnm");
	DSP::ReadPEL<double> *pel = &pnm;
	sa_check_eqi("width read", pel->width(), 3);
	sa_check_eqi("height read", pel->height(), 2);
	sa_check("kind read", pel->mono() == mono);
	if (stride < 0) {
		pel->read(buf, 2);
		pel->read(buf + 2 * step, 4);
	} else {
		pel->read(buf, 2, stride);
		pel->read(buf + 2 * step, 4, stride);
	}
	sa_check("the image holds all pixels", pel->good());
	for (int i = 0; i < 6; ++i) {
		for (int c = 0; c < comps; ++c)
			sa_check_eq("component at its place", buf[step*i+c], decoded((13 * (comps * i + c) + 5) / 255.), 1e-9);
		for (int c = comps; c < step && i < 5; ++c)
			sa_check_eq("values between the pixels untouched", buf[step*i+c], 7, 0);
	}
	pel->read(spare, 1);
	sa_check("the file ends after the last pixel", !pel->good());
}
extern "C" void sa_C28_placeGrey() { place(true, -1); }
extern "C" void sa_C28_placeGrey3() { place(true, 3); }
extern "C" void sa_C28_placeColour() { place(false, -1); }
extern "C" void sa_C28_placeColour5() { place(false, 5); }
// one component of any code, at any place
static void anyCode(bool mono)
{
	int base = layImage(mono ? "P5 2 1 255\n" : "P6 2 1 255\n", mono ? 2 : 6), comps = mono ? 1 : 3;
	for (int i = 0; i < 2 * comps; ++i)
		sa_file.byte[base+i] = 99;
	int which = sa_choose(2 * comps), code = sa_choose(256);
	sa_file.byte[base+which] = code;
	double *buf = new double[2*comps];
	DSP::ReadPNM<double> pnm("x.pnm");
	pnm.read(buf, 2);
	for (int i = 0; i < 2 * comps; ++i)
		sa_check_eq("component of its own code", buf[i], decoded((i == which ? code : 99) / 255.), 1e-9);
}
extern "C" void sa_C28_codeGrey() { anyCode(true); }
extern "C" void sa_C28_codeColour() { anyCode(false); }
// blanks and comments
static int append(int at, const char *s)
{
	while (*s)
		sa_file.byte[at++] = *s++;
	return at;
}
static int gap(int at, int which)
{
	switch (which) {
	case 0: return append(at, " ");
	case 1: return append(at, "\n");
	case 2: return append(at, "\t");
	case 3: return append(at, " \t \n  ");
	case 4: return append(at, "\n# one 7 line\n");
	case 5: return append(at, "\n# 1\n#\n# 3\n");
	case 6: return append(at, " # 12 after a blank\n");
	case 7: return append(at, "\n\n# 12 after an empty line\n \t");
	default: return append(at, "\n# before\n\n\t# and 5 after\n\n");
	}
}
static void layouts(bool mono)
{
	int at = append(0, mono ? "P5" : "P6"), a = sa_choose(9), b = sa_choose(9), c = sa_choose(9), d = sa_choose(3);
	at = append(gap(at, a), "12");
	at = append(gap(at, b), "305");
	at = append(gap(at, c), "255");
	at = append(at, d == 0 ? "\n" : d == 1 ? " " : "\t");
	int comps = mono ? 1 : 3;
	for (int i = 0; i < comps; ++i)
		sa_file.byte[at+i] = 35 - i; // first one looks like a comment
	sa_file.size = at + comps;
	DSP::ReadPNM<double> pnm("x.pnm");
	sa_check_eqi("width under blanks and comments", pnm.width(), 12);
	sa_check_eqi("height under blanks and comments", pnm.height(), 305);
	sa_check("kind under blanks and comments", pnm.mono() == mono);
	double buf[3];
	pnm.read(buf, 1);
	for (int i = 0; i < comps; ++i)
		sa_check_eq("first pixel under blanks and comments", buf[i], decoded((35 - i) / 255.), 1e-9);
}
extern "C" void sa_C28_layoutGrey() { layouts(true); }
extern "C" void sa_C28_layoutColour() { layouts(false); }
// what is no image has no size
extern "C" void sa_C28_other()
{
	const char *head = "P5 3 2 255\n";
	switch (sa_choose(8)) {
	case 0: head = "Q5 3 2 255\n"; break;
	case 1: head = "P4 3 2 255\n"; break;
	case 2: head = "P7 3 2 255\n"; break;
	case 3: head = "Px 3 2 255\n"; break;
	case 4: head = "P53 2 255\n"; break;
	case 5: head = "P5 3 x2 255\n"; break;
	case 6: head = "P5 3 2 255x"; break;
	default: head = "P5 3 2"; break;
	}
	layImage(head, 0);
	DSP::ReadPNM<double> pnm("x.pnm");
	sa_check_eqi("no width", pnm.width(), 0);
	sa_check_eqi("no height", pnm.height(), 0);
}
