// Values, memory, facts and states of the abstract interpreter.
#pragma once
#include "poly.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"

// ---- intervals ---------------------------------------------------------------------------------
struct Itv { R lo = -INF, hi = INF; bool ls = false, hs = false; };
static inline Itv ipoint(R x) { return {x, x, false, false}; }
static inline R mul0(R a, R b) { return a == 0 || b == 0 ? 0 : a * b; }
static Itv iadd(const Itv &a, const Itv &b) { return {a.lo + b.lo, a.hi + b.hi, a.ls || b.ls, a.hs || b.hs}; }
static Itv iscale(const Itv &a, R k)
{
	if (k == 0) return ipoint(0);
	if (k > 0) return {a.lo * k, a.hi * k, a.ls, a.hs};
	return {a.hi * k, a.lo * k, a.hs, a.ls};
}
static Itv imul(const Itv &a, const Itv &b)
{
	R c[4] = {mul0(a.lo, b.lo), mul0(a.lo, b.hi), mul0(a.hi, b.lo), mul0(a.hi, b.hi)};
	bool s[4] = {(a.ls && b.lo != 0) || (b.ls && a.lo != 0) || (a.ls && b.ls), (a.ls && b.hi != 0) || (b.hs && a.lo != 0) || (a.ls && b.hs), (a.hs && b.lo != 0) || (b.ls && a.hi != 0) || (a.hs && b.ls), (a.hs && b.hi != 0) || (b.hs && a.hi != 0) || (a.hs && b.hs)};
	Itv r;
	r.lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3]));
	r.hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
	r.ls = r.hs = true;
	for (int i = 0; i < 4; ++i) { if (c[i] == r.lo && !s[i]) r.ls = false; if (c[i] == r.hi && !s[i]) r.hs = false; }
	// a strict bound at a zero endpoint: only sound when neither factor can be zero
	bool az = a.lo > 0 || a.hi < 0 || (a.lo == 0 && a.ls) || (a.hi == 0 && a.hs);
	bool bz = b.lo > 0 || b.hi < 0 || (b.lo == 0 && b.ls) || (b.hi == 0 && b.hs);
	if (r.lo == 0) r.ls = az && bz;
	if (r.hi == 0) r.hs = az && bz;
	return r;
}
static Itv imeet(const Itv &a, const Itv &b)
{
	Itv r;
	if (a.lo > b.lo || (a.lo == b.lo && a.ls)) r.lo = a.lo, r.ls = a.ls; else r.lo = b.lo, r.ls = b.ls;
	if (a.hi < b.hi || (a.hi == b.hi && a.hs)) r.hi = a.hi, r.hs = a.hs; else r.hi = b.hi, r.hs = b.hs;
	return r;
}
static Itv ihull(const Itv &a, const Itv &b)
{
	Itv r;
	if (a.lo < b.lo || (a.lo == b.lo && !a.ls)) r.lo = a.lo, r.ls = a.ls; else r.lo = b.lo, r.ls = b.ls;
	if (a.hi > b.hi || (a.hi == b.hi && !a.hs)) r.hi = a.hi, r.hs = a.hs; else r.hi = b.hi, r.hs = b.hs;
	return r;
}
static bool iempty(const Itv &a) { return a.lo > a.hi || (a.lo == a.hi && (a.ls || a.hs)); }
static bool ieq(const Itv &a, const Itv &b) { return a.lo == b.lo && a.hi == b.hi && (a.ls == b.ls || std::isinf(a.lo)) && (a.hs == b.hs || std::isinf(a.hi)); }
static bool iNonzero(const Itv &a) { return a.lo > 0 || a.hi < 0 || (a.lo == 0 && a.ls) || (a.hi == 0 && a.hs); }
static Itv iinv(const Itv &a)
{
	Itv r;
	if (!iNonzero(a)) return r;
	if (a.lo >= 0) {
		r.lo = std::isinf(a.hi) ? 0 : 1 / a.hi; r.ls = a.hs || std::isinf(a.hi);
		r.hi = a.lo == 0 ? INF : 1 / a.lo; r.hs = a.ls;
	} else {
		r.hi = std::isinf(a.lo) ? 0 : 1 / a.lo; r.hs = a.ls || std::isinf(a.lo);
		r.lo = a.hi == 0 ? -INF : 1 / a.hi; r.ls = a.hs;
	}
	return r;
}
static Itv ipow(const Itv &a, int e)
{
	if (e < 0) return ipow(iinv(a), -e);
	if (e == 0) return ipoint(1);
	if (e & 1) {
		Itv r{a.lo, a.hi, a.ls, a.hs};
		if (e > 1) { r.lo = std::isinf(a.lo) ? a.lo : std::pow(a.lo, (R)e); r.hi = std::isinf(a.hi) ? a.hi : std::pow(a.hi, (R)e); }
		return r;
	}
	R l = std::fabs(a.lo), h = std::fabs(a.hi);
	Itv r;
	if (a.lo >= 0) { r.lo = std::pow(l, (R)e); r.ls = a.ls; r.hi = std::isinf(h) ? INF : std::pow(h, (R)e); r.hs = a.hs; }
	else if (a.hi <= 0) { r.lo = std::pow(h, (R)e); r.ls = a.hs; r.hi = std::isinf(l) ? INF : std::pow(l, (R)e); r.hs = a.ls; }
	else { r.lo = 0; r.ls = false; R m = std::max(l, h); r.hi = std::isinf(m) ? INF : std::pow(m, (R)e); r.hs = l == h ? (a.ls && a.hs) : l > h ? a.ls : a.hs; }
	return r;
}

// ---- values ------------------------------------------------------------------------------------
enum VK : uint8_t { VUndef, VInt, VFlt, VPtr, VFn, VAgg, VNone };
struct Bit { int s; int k; bool operator==(const Bit &o) const { return s == o.s && k == o.k; } }; // s<0: constant k
typedef std::vector<Bit> Bits;
struct Val {
	VK k = VNone;
	int w = 0;     // VInt: width
	int obj = 0;   // VPtr: object (0 = null)
	int slo = 0, shi = 0; // VPtr: extent of the member it was derived from (shi == 0: whole object)
	Poly p;        // VInt, VFlt: value; VPtr: offset
	std::shared_ptr<const Bits> bits;
	std::shared_ptr<const std::vector<Val>> agg;
	const llvm::Value *fn = nullptr;
	const llvm::Instruction *org = nullptr;
};
static Val vint(Poly p, int w) { Val v; v.k = VInt; v.p = p; v.w = w; return v; }
static Val vintc(R c, int w) { return vint(pconst(c), w); }
static Val vflt(Poly p) { Val v; v.k = VFlt; v.p = p; return v; }
static Val vptr(int obj, Poly off) { Val v; v.k = VPtr; v.obj = obj; v.p = off; return v; }
static Val vundef() { Val v; v.k = VUndef; return v; }
static bool vconst(const Val &v) { return v.k == VInt && isConst(v.p); }
static bool veq(const Val &a, const Val &b)
{
	if (a.k != b.k) return false;
	switch (a.k) {
	case VUndef: case VNone: return true;
	case VInt: return a.w == b.w && peq(a.p, b.p);
	case VFlt: return peq(a.p, b.p);
	case VPtr: return a.obj == b.obj && peq(a.p, b.p);
	case VFn: return a.fn == b.fn;
	case VAgg:
		if (a.agg == b.agg) return true;
		if (a.agg->size() != b.agg->size()) return false;
		for (size_t i = 0; i < a.agg->size(); ++i) if (!veq((*a.agg)[i], (*b.agg)[i])) return false;
		return true;
	}
	return false;
}

// ---- memory ------------------------------------------------------------------------------------
struct Cell { int size; Val v; };
struct Obj {
	int size = 0;
	bool constant = false, live = true, heap = false;
	std::string name;
	std::vector<uint8_t> st; // per byte: 0 indeterminate, 1 zero, 2 covered by a cell
	std::map<int,Cell> cells;
};
typedef std::shared_ptr<Obj> ObjP;
static bool objEq(const ObjP &a, const ObjP &b)
{
	if (a == b) return true;
	if (!a || !b || a->size != b->size || a->live != b->live || a->st != b->st || a->cells.size() != b->cells.size()) return false;
	auto i = a->cells.begin(), j = b->cells.begin();
	for (; i != a->cells.end(); ++i, ++j)
		if (i->first != j->first || i->second.size != j->second.size || !veq(i->second.v, j->second.v)) return false;
	return true;
}
static const int STACK0 = 1000000, HEAP0 = 2000000;

// ---- facts -------------------------------------------------------------------------------------
struct PLess {
	bool operator()(const Poly &a, const Poly &b) const
	{
		if (a == b) return false;
		if (a->t.size() != b->t.size()) return a->t.size() < b->t.size();
		for (size_t i = 0; i < a->t.size(); ++i) {
			if (a->t[i].m != b->t[i].m) return a->t[i].m < b->t[i].m;
			if (a->t[i].c != b->t[i].c) return a->t[i].c < b->t[i].c;
		}
		return false;
	}
};
struct Fact { Itv i; std::vector<R> ne; };
typedef std::map<Poly,Fact,PLess> Facts;

static R roundCoef(R c)
{
	if (c == 0 || isInteger(c)) return c;
	int e;
	R m = std::frexp(c, &e);
	return std::ldexp(std::rint(std::ldexp(m, 46)), e - 46);
}
// p = scale * dir + k
static void normDir(const Poly &p, Poly &dir, R &scale, R &k)
{
	k = constPart(p);
	auto r = std::make_shared<PolyRep>();
	scale = 0;
	for (auto &t : p->t) {
		if (!t.m) continue;
		if (scale == 0) scale = t.c;
		r->t.push_back({t.m, roundCoef(t.c / scale)});
	}
	dir = r;
}

// ---- states ------------------------------------------------------------------------------------
struct FnInfo;
struct Frame {
	const llvm::Function *F = nullptr;
	FnInfo *info = nullptr;
	const llvm::BasicBlock *bb = nullptr, *prev = nullptr;
	llvm::BasicBlock::const_iterator it;
	std::vector<Val> regs;
	int memBase = 0;
	const llvm::CallBase *call = nullptr;
};
// the values two symbols may have together, as a convex polygon
struct Plane {
	int x, y;
	std::vector<std::pair<R,R>> v;
	void clip(R a, R b, R c) // keep a x + b y + c <= 0
	{
		std::vector<std::pair<R,R>> w;
		for (size_t i = 0; i < v.size(); ++i) {
			auto p = v[i], q = v[(i+1)%v.size()];
			R d = a * p.first + b * p.second + c, e = a * q.first + b * q.second + c;
			if (d <= 0) w.push_back(p);
			if ((d < 0 && e > 0) || (d > 0 && e < 0)) { R t = d / (d - e); w.push_back({p.first + t * (q.first - p.first), p.second + t * (q.second - p.second)}); }
		}
		v = w;
	}
};
struct State {
	std::vector<Frame> fr;
	std::vector<ObjP> glob, mem, heap;
	std::shared_ptr<Facts> facts = std::make_shared<Facts>();
	std::map<std::string,int> cnt;
	std::shared_ptr<const Plane> plane;
	bool expectAbort = false, noOvf = false, inlineUC = false;
	bool dead = false;
	int stopIdx = -1;
};
