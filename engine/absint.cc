// Abstract interpreter for the LLVM IR of the analysis drivers and the library code they instantiate.
//
// Nothing is executed: every scalar is an element of the polynomial/interval/bit domain of poly.h and
// facts.h, memory is a typed-cell store, undecided conditions split the abstract state (merged again at
// post-dominators), and unbounded histories are solved as fixpoints at marked loop heads with an affine
// hull join (Karr 1976, Mueller-Olm & Seidl 2004) or an order-type partition.
#include "facts.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
#include <pthread.h>
#include <unistd.h>
using namespace llvm;

// ---- bookkeeping -------------------------------------------------------------------------------
struct Violation { std::string kind, label, detail, where, construct; };
static std::vector<Violation> viols;
static std::map<std::string,long> obl;
static std::set<std::string> fnsSeen;
static std::map<std::string,long> stats;
static long steps = 0, maxSteps = 300000000;
static double maxSeconds = 800;
static auto t0 = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
static std::string repoPrefix = "/repo";
static bool verbose = false;
static size_t maxViols = 4;
static int rounding = 0, precision = 53;
static Poly gain; // of sine and cosine, if they are taken to be imprecise
static std::set<int> large, errors;
static bool holdViols = false; // alarms of an unfinished refinement round do not count yet
static std::set<std::string> onlyKinds; // empty: every kind counts
static Module *M;
static const DataLayout *DL;

struct Bad { std::string kind, label, detail; const Instruction *org = nullptr; };
struct Unsupported { std::string what; };
struct Budget { std::string what; };
struct EnoughViols {};

static void oblige(const char *kind) { ++obl[kind]; }

// ---- per-function info -------------------------------------------------------------------------
struct FnInfo {
	std::unordered_map<const Value*,int> num;
	std::unique_ptr<PostDominatorTree> pdt;
	std::unique_ptr<DominatorTree> dt;
	std::map<const BasicBlock*,const BasicBlock*> ip;
	std::map<const BasicBlock*,std::vector<char>> domIn; // registers defined on every path to the block
	int n = 0;
	std::string dem;
	int uc = 0; // 1: unit circle cosine, 2: sine
};
static std::unordered_map<const Function*,std::unique_ptr<FnInfo>> infos;
static FnInfo *getInfo(const Function *F)
{
	auto &p = infos[F];
	if (p) return p.get();
	p.reset(new FnInfo);
	Function *f = const_cast<Function*>(F);
	for (auto &a : F->args()) p->num[&a] = p->n++;
	for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->num[&i] = p->n++;
	p->pdt.reset(new PostDominatorTree(*f));
	p->dt.reset(new DominatorTree(*f));
	for (auto &bb : *F) {
		auto *n = p->pdt->getNode(const_cast<BasicBlock*>(&bb));
		const BasicBlock *ip = nullptr;
		if (n && n->getIDom()) ip = n->getIDom()->getBlock();
		p->ip[&bb] = ip;
	}
	p->dem = demangle(F->getName().str());
	const std::string &d = p->dem;
	if (d.find("DSP::UnitCircle<") == 0) {
		if (d.find(">::cos(int, int)") != std::string::npos) p->uc = 1;
		if (d.find(">::sin(int, int)") != std::string::npos) p->uc = 2;
	}
	return p.get();
}
static const std::vector<char> &domIn(FnInfo *I, const Function *F, const BasicBlock *bb)
{
	auto it = I->domIn.find(bb);
	if (it != I->domIn.end()) return it->second;
	std::vector<char> v(I->n, 1);
	for (auto &b : *F) for (auto &i : b) {
		auto n = I->num.find(&i);
		if (n == I->num.end()) continue;
		v[n->second] = I->dt->dominates(&i, bb) ? 1 : 0;
	}
	return I->domIn[bb] = v;
}

static std::string locOf(const Instruction *I)
{
	if (!I) return "";
	const DebugLoc &d = I->getDebugLoc();
	std::string s;
	if (d) {
		auto *sc = cast<DIScope>(d.getScope());
		std::string f = sc->getFilename().str();
		if (f.empty() || f[0] != '/') f = sc->getDirectory().str() + "/" + f;
		s = f + ":" + std::to_string(d.getLine());
	}
	return s;
}
static bool inRepo(const Instruction *I) { return locOf(I).compare(0, repoPrefix.size() + 1, repoPrefix + "/") == 0; }
static std::string fnShort(const Function *F) { std::string d = demangle(F->getName().str()); return d.size() > 220 ? d.substr(0, 220) + "..." : d; }

static std::string whereStr(const State &S, const Instruction *org, std::string &construct)
{
	std::string w;
	construct.clear();
	for (int i = (int)S.fr.size() - 1; i >= 0; --i) {
		const Frame &f = S.fr[i];
		const Instruction *I = nullptr;
		if (f.it != f.bb->end()) I = &*f.it;
		if (i + 1 < (int)S.fr.size() && S.fr[i+1].call) I = S.fr[i+1].call;
		std::string l = locOf(I);
		w += (w.empty() ? "" : " <- ") + l + " in " + fnShort(f.F);
		if (construct.empty() && I && inRepo(I)) construct = l + " in " + fnShort(f.F);
	}
	if (construct.empty() && org) construct = locOf(org) + " in " + fnShort(org->getFunction());
	return w;
}
static void report(const State &S, const Bad &b)
{
	if (!onlyKinds.empty() && !onlyKinds.count(b.kind)) { ++stats["other_alarms"]; return; }
	Violation v;
	v.kind = b.kind; v.label = b.label; v.detail = b.detail;
	v.where = whereStr(S, b.org, v.construct);
	for (auto &x : viols) if (x.kind == v.kind && x.label == v.label && x.construct == v.construct) return;
	viols.push_back(v);
	if (!holdViols && viols.size() >= maxViols) throw EnoughViols();
}

// ---- bits --------------------------------------------------------------------------------------
static Bit canonBit(const State &S, int s, int k)
{
	Itv b = symBounds(S, s, 0);
	if (b.lo == b.hi) return {-1, int(((long long)b.lo >> k) & 1)};
	if (b.lo >= 0) {
		int top = 0;
		while (top < 63 && std::ldexp((R)1, top) <= b.hi) ++top;
		if (k >= top) return {-1, 0};
	} else {
		int top = 0;
		while (top < 63 && (std::ldexp((R)1, top) <= b.hi || -std::ldexp((R)1, top) > b.lo)) ++top;
		if (k >= top) { if (b.hi < 0) return {-1, 1}; return {s, top}; }
	}
	auto it = C.symIdx.find(std::string("bit(") + pstr(psym(s)) + "," + std::to_string(k) + ")");
	if (it != C.symIdx.end()) {
		Itv q = symBounds(S, it->second, 0);
		if (q.lo == q.hi) return {-1, (int)q.lo};
	}
	return {s, k};
}
static bool isSignBit(const State &S, int s, int k)
{
	Itv b = symBounds(S, s, 0);
	if (b.lo >= 0) return false;
	int top = 0;
	while (top < 63 && (std::ldexp((R)1, top) <= b.hi || -std::ldexp((R)1, top) > b.lo)) ++top;
	return k >= top;
}
// a sum of pieces that occupy different bit positions is their concatenation
static bool bitsOfSum(const State &S, const Val &v, Bits &r)
{
	r.assign(v.w, Bit{-1, 0});
	std::vector<char> used(v.w, 0);
	std::vector<std::pair<int, int>> fill; // position from which a bit is repeated, symbol
	for (auto &t : v.p->t) {
		auto &fs = C.monos[t.m].f;
		R a = std::fabs(t.c);
		int e;
		if (std::frexp(a, &e) != 0.5L || e < 1) { if (!fs.empty()) return false; }
		--e;
		if (fs.empty()) {
			if (t.c < 0 || t.c >= std::ldexp((R)1, v.w - 1) || t.c != std::floor(t.c)) return false;
			long long x = (long long)t.c;
			for (int i = 0; i < v.w; ++i) if ((x >> i) & 1) { if (used[i]) return false; used[i] = 1; r[i] = {-1, 1}; }
			continue;
		}
		if (fs.size() != 1 || fs[0].second != 1) return false;
		int s = fs[0].first;
		if (!C.syms[s].isInt) return false;
		if (e >= v.w) continue; // vanishes modulo 2^w
		auto &y = C.syms[s];
		if (t.c < 0) {
			if (y.fn != F_BIT) return false;
			fill.push_back({e, s});
			continue;
		}
		Itv b = symBounds(S, s, 0);
		int n = 0;
		if (y.fn == F_BIT) n = 1;
		else if (y.fn == F_SLICE) n = (int)constVal(y.args[2]);
		else {
			if (!(b.lo >= 0) || !(b.hi < std::ldexp((R)1, 62))) return false;
			while (std::ldexp((R)1, n) <= b.hi) ++n;
		}
		int base = y.fn == F_BIT || y.fn == F_SLICE ? asSym(y.args[0]) : s;
		int k0 = y.fn == F_BIT || y.fn == F_SLICE ? (int)constVal(y.args[1]) : 0;
		if (base < 0) return false;
		for (int i = 0; i < n; ++i) {
			if (e + i >= v.w) break;
			if (used[e + i]) return false;
			used[e + i] = 1;
			r[e + i] = canonBit(S, base, k0 + i);
		}
	}
	if (fill.size() > 1) return false;
	for (auto &f : fill) {
		int base = asSym(C.syms[f.second].args[0]), k0 = (int)constVal(C.syms[f.second].args[1]);
		if (base < 0 || f.first < 1) return false;
		Bit b = canonBit(S, base, k0);
		if (!(r[f.first - 1] == b)) return false;
		for (int i = f.first; i < v.w; ++i) { if (used[i]) return false; r[i] = b; }
	}
	return true;
}
static Bits bitsOf(const State &S, const Val &v)
{
	Bits r;
	if (isConst(v.p)) {
		long long x = (long long)constVal(v.p);
		for (int i = 0; i < v.w; ++i) r.push_back({-1, i < 64 ? int((x >> i) & 1) : 0});
		return r;
	}
	if (v.bits) {
		for (auto &b : *v.bits) r.push_back(b.s < 0 ? b : canonBit(S, b.s, b.k));
		return r;
	}
	if (bitsOfSum(S, v, r)) return r;
	r.clear();
	int s = asSym(v.p);
	if (s < 0) s = mkAtomSym(F_ALIAS, {v.p}, true);
	for (int i = 0; i < v.w; ++i) r.push_back(canonBit(S, s, i));
	return r;
}
static Poly symPoly(int s) { return C.syms[s].fn == F_ALIAS ? C.syms[s].args[0] : psym(s); }
static Val fromBits(const State &S, Bits b, int w)
{
	bool allc = true;
	for (auto &x : b) { if (x.s >= 0) x = canonBit(S, x.s, x.k); if (x.s >= 0) allc = false; }
	if (allc) {
		unsigned long long x = 0;
		for (int i = 0; i < w && i < 64; ++i) if (b[i].k) x |= 1ull << i;
		long long y = (long long)x;
		if (w < 64) { y = (long long)(x << (64 - w)) >> (64 - w); }
		return vintc((R)y, w);
	}
	Val v;
	v.k = VInt; v.w = w;
	v.bits = std::make_shared<Bits>(b);
	// a single symbol?
	for (int i = 0; i < w; ++i) if (b[i].s >= 0) {
		int s = b[i].s;
		bool ok = true;
		for (int j = 0; j < w && ok; ++j) { Bit c = canonBit(S, s, j); if (!(c == b[j])) ok = false; }
		Itv fit = symBounds(S, s, 0);
		if (ok && fit.lo >= -std::ldexp((R)1, w - 1) && fit.hi < std::ldexp((R)1, w - 1)) { v.p = symPoly(s); return v; }
		break;
	}
	// weighted sum of runs
	Poly p = C.zero;
	int i = 0;
	while (i < w) {
		if (b[i].s < 0) { if (b[i].k) p = padd(p, pconst(std::ldexp((R)1, i))); ++i; continue; }
		int s = b[i].s, k = b[i].k, n = 1;
		bool sgn = isSignBit(S, s, k);
		if (!sgn) while (i + n < w && b[i+n].s == s && b[i+n].k == k + n) { ++n; if (isSignBit(S, s, k + n - 1)) break; }
		Poly q;
		Itv bd = symBounds(S, s, 0);
		auto bitAtom = [&](int kk) { return psym(mkAtomSym(F_BIT, {psym(s), pconst(kk)}, true)); };
		if (k == 0 && bd.lo >= 0 && canonBit(S, s, n).s < 0 && std::ldexp((R)1, n) > bd.hi) q = symPoly(s);
		else if (k == 0 && n > 1 && bd.lo < 0 && isSignBit(S, s, n - 1)) q = padd(symPoly(s), pscale(bitAtom(n - 1), std::ldexp((R)1, n)));
		else if (n == 1) q = bitAtom(k);
		else { int a = mkAtomSym(F_SLICE, {psym(s), pconst(k), pconst(n)}, true); C.syms[a].aux = n; q = psym(a); }
		p = padd(p, pscale(q, std::ldexp((R)1, i)));
		i += n;
	}
	if (b[w-1].s < 0) { if (b[w-1].k) p = psub(p, pconst(std::ldexp((R)1, w))); }
	else p = psub(p, pscale(psym(mkAtomSym(F_BIT, {psym(b[w-1].s), pconst(b[w-1].k)}, true)), std::ldexp((R)1, w)));
	v.p = p;
	return v;
}

// ---- interpreter -------------------------------------------------------------------------------
struct Stop { int kind; int depth; const BasicBlock *bb; const Instruction *head; }; // 0 block, 1 return below depth, 2 head
typedef std::vector<Stop> Stops;

struct Fork { std::vector<State> states; const BasicBlock *merge; };

struct Interp {
	enum Res { Cont, Dead };
	std::map<const GlobalVariable*,int> globId;
	std::vector<const GlobalVariable*> globs;

	// -- objects
	ObjP newObj(int size, const std::string &name)
	{
		auto o = std::make_shared<Obj>();
		o->size = size; o->name = name;
		o->st.assign(size, 0);
		return o;
	}
	ObjP &slot(State &S, int id)
	{
		if (id >= HEAP0) { if (id - HEAP0 >= (int)S.heap.size()) throw Bad{"memory", "dangling pointer", ""}; return S.heap[id - HEAP0]; }
		if (id >= STACK0) { if (id - STACK0 >= (int)S.mem.size()) throw Bad{"memory", "pointer to an object whose lifetime has ended", ""}; return S.mem[id - STACK0]; }
		if (id <= 0 || id > (int)S.glob.size()) throw Bad{"memory", "null or wild pointer dereference", ""};
		ObjP &o = S.glob[id - 1];
		if (!o) initGlobal(S, id);
		return S.glob[id - 1];
	}
	void initGlobal(State &S, int id)
	{
		const GlobalVariable *g = globs[id - 1];
		int size = DL->getTypeAllocSize(g->getValueType());
		auto o = newObj(size, g->getName().str());
		o->st.assign(size, 1);
		S.glob[id - 1] = o;
		if (g->hasInitializer()) storeConst(S, *o, 0, g->getInitializer());
		o->constant = g->isConstant();
	}
	void storeConst(State &S, Obj &o, int off, const Constant *c)
	{
		if (isa<ConstantAggregateZero>(c) || c->isNullValue()) return; // bytes are zero already
		if (isa<UndefValue>(c)) { int n = DL->getTypeStoreSize(c->getType()); for (int i = 0; i < n; ++i) o.st[off+i] = 0; return; }
		Type *t = c->getType();
		if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
			int es = DL->getTypeAllocSize(ds->getElementType());
			for (unsigned i = 0; i < ds->getNumElements(); ++i) storeConst(S, o, off + i * es, ds->getElementAsConstant(i));
			return;
		}
		if (auto *st = dyn_cast<StructType>(t)) {
			const StructLayout *sl = DL->getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i) storeConst(S, o, off + sl->getElementOffset(i), c->getAggregateElement(i));
			return;
		}
		if (auto *at = dyn_cast<ArrayType>(t)) {
			int es = DL->getTypeAllocSize(at->getElementType());
			for (unsigned i = 0; i < at->getNumElements(); ++i) storeConst(S, o, off + i * es, c->getAggregateElement(i));
			return;
		}
		if (t->isVectorTy()) {
			auto *vt = cast<FixedVectorType>(t);
			int es = DL->getTypeAllocSize(vt->getElementType());
			for (unsigned i = 0; i < vt->getNumElements(); ++i) storeConst(S, o, off + i * es, c->getAggregateElement(i));
			return;
		}
		Val v = constVal_(S, c);
		putCell(S, o, off, DL->getTypeStoreSize(t), v);
	}
	Val constVal_(State &S, const Constant *c)
	{
		Type *t = c->getType();
		if (auto *ci = dyn_cast<ConstantInt>(c)) {
			if (ci->getBitWidth() > 64) throw Unsupported{"integer wider than 64 bits"};
			return vintc((R)ci->getSExtValue(), ci->getBitWidth());
		}
		if (auto *cf = dyn_cast<ConstantFP>(c)) {
			APFloat f = cf->getValueAPF();
			if (f.isNaN()) return vundefFlt();
			if (f.isInfinity()) return vflt(pconst(f.isNegative() ? -INF : INF));
			bool li;
			f.convert(APFloat::x87DoubleExtended(), APFloat::rmNearestTiesToEven, &li);
			APInt bits = f.bitcastToAPInt();
			R r = 0;
			memcpy(&r, bits.getRawData(), 10);
			return vflt(pconst(r));
		}
		if (isa<ConstantPointerNull>(c)) return vptr(0, C.zero);
		if (isa<UndefValue>(c)) return vundef();
		if (auto *g = dyn_cast<GlobalVariable>(c)) return vptr(globId[g], C.zero);
		if (auto *f = dyn_cast<Function>(c)) { Val v; v.k = VFn; v.fn = f; return v; }
		if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal_(S, ga->getAliasee());
		if (auto *ce = dyn_cast<ConstantExpr>(c)) {
			if (auto *gep = dyn_cast<GEPOperator>(ce)) {
				Val b = constVal_(S, cast<Constant>(gep->getPointerOperand()));
				APInt off(64, 0);
				if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
				b.p = padd(b.p, pconst((R)off.getSExtValue()));
				return b;
			}
			if (ce->isCast()) {
				Val v = constVal_(S, cast<Constant>(ce->getOperand(0)));
				if (ce->getOpcode() == Instruction::PtrToInt) return ptrToInt(v, t->getIntegerBitWidth());
				return v;
			}
			throw Unsupported{"constant expression"};
		}
		if (t->isAggregateType() || t->isVectorTy()) {
			unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
			auto a = std::make_shared<std::vector<Val>>();
			for (unsigned i = 0; i < n; ++i) a->push_back(constVal_(S, c->getAggregateElement(i)));
			Val v; v.k = VAgg; v.agg = a;
			return v;
		}
		throw Unsupported{"constant"};
	}
	Val vundefFlt() { return vundef(); }
	Val ptrToInt(const Val &v, int w)
	{
		if (v.k == VInt) return v;
		if (v.k != VPtr) throw Unsupported{"pointer to integer"};
		if (v.obj == 0) return vint(v.p, w);
		int s = newSym("addr" + std::to_string(v.obj), true, 4096, 140737488355328.0L);
		return vint(padd(psym(s), v.p), w);
	}
	Val intToPtr(const Val &v)
	{
		if (v.k == VPtr || v.k == VFn) return v;
		for (auto &t : v.p->t) {
			int s = asSym(pmono(t.m, 1));
			if (t.c == 1 && s >= 0 && C.syms[s].name.compare(0, 4, "addr") == 0) return vptr(atoi(C.syms[s].name.c_str() + 4), psub(v.p, psym(s)));
		}
		return vptr(0, v.p);
	}
	// split a cell into byte cells so that a part of it can be overwritten
	void explode(State &S, Obj &o, int at)
	{
		Cell c = o.cells[at];
		o.cells.erase(at);
		for (int i = 0; i < c.size; ++i) {
			Cell b; b.size = 1;
			Val v = cellBits(S, c.v, c.size);
			if (v.k == VUndef) { o.st[at+i] = 0; continue; }
			Bits bs = bitsOf(S, v);
			b.v = fromBits(S, Bits(bs.begin() + 8 * i, bs.begin() + 8 * i + 8), 8);
			o.cells[at+i] = b;
		}
	}
	Val cellBits(State &S, const Val &v, int size)
	{
		if (v.k == VUndef) return v;
		if (v.k == VInt) { if (v.w == 8 * size) return v; return castInt(S, v, 8 * size, false); }
		if (v.k == VFlt) {
			if (isConst(v.p)) {
				if (size == 4) { float f = (float)constVal(v.p); int32_t i; memcpy(&i, &f, 4); return vintc(i, 32); }
				if (size == 8) { double f = (double)constVal(v.p); int64_t i; memcpy(&i, &f, 8); return vintc((R)i, 64); }
			}
			if (size == 4) return vint(mkFn(F_FBITS, {v.p}, nullptr), 32);
			throw Unsupported{"bytes of a floating-point value"};
		}
		if (v.k == VPtr) return ptrToInt(v, 64);
		throw Unsupported{"bytes of a value"};
	}
	void clearRange(State &S, Obj &o, int off, int n)
	{
		auto it = o.cells.upper_bound(off);
		if (it != o.cells.begin()) {
			auto p = std::prev(it);
			if (p->first < off && p->first + p->second.size > off) explode(S, o, p->first);
		}
		it = o.cells.lower_bound(off);
		while (it != o.cells.end() && it->first < off + n) {
			if (it->first + it->second.size > off + n) { int at = it->first; explode(S, o, at); it = o.cells.lower_bound(off); continue; }
			it = o.cells.erase(it);
		}
	}
	void putCell(State &S, Obj &o, int off, int n, const Val &v)
	{
		auto it = o.cells.find(off);
		if (it != o.cells.end() && it->second.size == n) {
			if (v.k == VUndef) { o.cells.erase(it); for (int i = 0; i < n; ++i) o.st[off+i] = 0; return; }
			it->second.v = v;
			return;
		}
		clearRange(S, o, off, n);
		if (v.k == VUndef) { for (int i = 0; i < n; ++i) o.st[off+i] = 0; return; }
		for (int i = 0; i < n; ++i) o.st[off+i] = 2;
		o.cells[off] = Cell{n, v};
	}
	ObjP &writable(State &S, int id)
	{
		ObjP &o = slot(S, id);
		if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
		return o;
	}
	// bounds obligation; the offset is constant afterwards (or the state was split)
	struct Resplit { Fork f; };
	long checkAccess(State &S, const Val &p, int n, const char *what, bool write)
	{
		if (p.k == VUndef) throw Bad{"uninit", std::string(what) + " through an indeterminate pointer", ""};
		if (p.k != VPtr) throw Bad{"memory", std::string(what) + " through something that is not an object pointer", ""};
		oblige("bounds");
		if (p.obj == 0) throw Bad{"memory", std::string(what) + " through a null pointer", ""};
		ObjP &o = slot(S, p.obj);
		if (!o->live) throw Bad{"memory", std::string(what) + " of freed memory", o->name};
		if (write && o->constant) throw Bad{"memory", "write to constant object", o->name};
		int lo = p.shi ? p.slo : 0, end = p.shi ? p.shi : o->size;
		if (!isConst(p.p)) {
			Itv b = bounds(S, p.p);
			if (b.lo < lo || b.hi > end - n) {
				// an offset that can leave the object is a violation unless a split refutes it
				if (!std::isinf(b.lo) && !std::isinf(b.hi) && b.hi - b.lo < 1e6) concretise(S, p.p);
				throw Bad{"bounds", std::string(what) + " may leave object '" + o->name + "'", "offset " + pstr(p.p, 8) + " in [" + num(b.lo) + "," + num(b.hi) + "], allowed [" + std::to_string(lo) + "," + std::to_string(end) + ")"};
			}
			concretise(S, p.p);
		}
		R off = constVal(p.p);
		if (off < lo || off + n > end)
			throw Bad{"bounds", std::string(what) + " outside " + (p.shi ? "member of " : "") + "object '" + o->name + "'", "byte offset " + num(off) + " size " + std::to_string(n) + ", allowed [" + std::to_string(lo) + "," + std::to_string(end) + ")"};
		return (long)off;
	}
	// split the state on an integer symbol of p with a small range; the instruction is repeated
	void concretise(State &S, const Poly &p)
	{
		std::set<int> syms;
		polySyms(p, syms, false);
		int best = -1; R bw = 1e9;
		for (int s : syms) {
			if (!C.syms[s].isInt) continue;
			Itv b = bounds(S, psym(s));
			if (std::isinf(b.lo) || std::isinf(b.hi)) continue;
			if (b.hi - b.lo < bw) bw = b.hi - b.lo, best = s;
		}
		if (best < 0 || bw > 5000) throw Bad{"undecided", "an index or count cannot be bounded", pstr(p, 8)};
		Itv b = bounds(S, psym(best));
		Fork f;
		f.merge = nullptr;
		std::vector<R> ne;
		for (R v = b.lo; v <= b.hi; v += 1) {
			State T = S;
			if (assumeSymEq(T, best, v)) f.states.push_back(std::move(T));
		}
		++stats["case_splits"];
		throw Resplit{std::move(f)};
	}
	bool assumeSymEq(State &T, int s, R v)
	{
		Poly d = psub(psym(s), pconst(v));
		if (decide(T, d, EQ) == 0) return false;
		const Sym y = C.syms[s];
		if (y.fn == F_NONE) { std::map<int,Poly> m; m[s] = pconst(v); return substState(T, m); }
		// atom: replace it and record what its value says about the arguments
		if (y.fn == F_BIT) {
			int b = asSym(y.args[0]); int k = (int)constVal(y.args[1]);
			bool sg = b >= 0 && isSignBit(T, b, k);
			std::map<int,Poly> m; m[s] = pconst(v);
			if (!substState(T, m)) return false;
			if (!addFactItv(T, psym(s), ipoint(v))) return false;
			if (sg) return assume(T, symPoly(b), v != 0 ? LT : GE);
			return true;
		}
		std::map<int,Poly> m; m[s] = pconst(v);
		if (!substState(T, m)) return false;
		addFactItv(T, psym(s), ipoint(v));
		if (y.fn == F_RINT) { // ties go to the even neighbour
			bool even = std::fmod(v, 2) == 0;
			return assume(T, psub(y.args[0], pconst(v + 0.5L)), even ? LE : LT) && assume(T, psub(y.args[0], pconst(v - 0.5L)), even ? GE : GT);
		}
		if (y.fn == F_TRUNC) {
			if (v > 0) return assume(T, psub(y.args[0], pconst(v)), GE) && assume(T, psub(y.args[0], pconst(v + 1)), LT);
			if (v < 0) return assume(T, psub(y.args[0], pconst(v)), LE) && assume(T, psub(y.args[0], pconst(v - 1)), GT);
			return assume(T, psub(y.args[0], pconst(1)), LT) && assume(T, psub(y.args[0], pconst(-1)), GT);
		}
		if (y.fn == F_FLOOR) return assume(T, psub(y.args[0], pconst(v)), GE) && assume(T, psub(y.args[0], pconst(v + 1)), LT);
		if (y.fn == F_ALIAS) return assume(T, psub(y.args[0], pconst(v)), EQ);
		return true;
	}

	// -- typed memory access
	Val loadScalar(State &S, Obj &o, int off, Type *t)
	{
		int n = DL->getTypeStoreSize(t);
		auto it = o.cells.find(off);
		bool isF = t->isFloatingPointTy(), isP = t->isPointerTy();
		if (it != o.cells.end() && it->second.size == n) {
			const Val &v = it->second.v;
			if (isF && v.k == VFlt) return v;
			if (isP && (v.k == VPtr || v.k == VFn)) return v;
			if (!isF && !isP && v.k == VInt) return t->getIntegerBitWidth() == (unsigned)v.w ? v : castInt(S, v, t->getIntegerBitWidth(), false);
		}
		bool allZ = true;
		for (int i = 0; i < n; ++i) {
			if (o.st[off+i] == 0) { Val u = vundef(); return u; }
			if (o.st[off+i] != 1) allZ = false;
		}
		if (allZ) return isF ? vflt(C.zero) : isP ? vptr(0, C.zero) : vintc(0, t->getIntegerBitWidth());
		Bits bs;
		for (int i = 0; i < n;) {
			if (o.st[off+i] == 1) { for (int j = 0; j < 8; ++j) bs.push_back({-1, 0}); ++i; continue; }
			auto c = std::prev(o.cells.upper_bound(off + i));
			Val v = cellBits(S, c->second.v, c->second.size);
			if (v.k == VUndef) return v;
			Bits cb = bitsOf(S, v);
			int b0 = off + i - c->first;
			int m = std::min(c->second.size - b0, n - i);
			bs.insert(bs.end(), cb.begin() + 8 * b0, cb.begin() + 8 * (b0 + m));
			i += m;
		}
		Val v = fromBits(S, bs, 8 * n);
		if (isP) return intToPtr(v);
		if (isF) {
			if (isConst(v.p)) {
				if (n == 4) { int32_t x = (int32_t)constVal(v.p); float f; memcpy(&f, &x, 4); return vflt(pconst(f)); }
				int64_t x = (int64_t)constVal(v.p); double f; memcpy(&f, &x, 8); return vflt(pconst(f));
			}
			return vflt(mkFn(F_UNFBITS, {v.p}, nullptr));
		}
		int w = t->getIntegerBitWidth();
		return w == v.w ? v : castInt(S, v, w, false);
	}
	Val load(State &S, Obj &o, int off, Type *t)
	{
		if (t->isAggregateType() || t->isVectorTy()) {
			auto a = std::make_shared<std::vector<Val>>();
			if (auto *st = dyn_cast<StructType>(t)) {
				const StructLayout *sl = DL->getStructLayout(st);
				for (unsigned i = 0; i < st->getNumElements(); ++i) a->push_back(load(S, o, off + sl->getElementOffset(i), st->getElementType(i)));
			} else {
				Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
				unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
				int es = DL->getTypeAllocSize(et);
				for (unsigned i = 0; i < n; ++i) a->push_back(load(S, o, off + i * es, et));
			}
			Val v; v.k = VAgg; v.agg = a;
			return v;
		}
		return loadScalar(S, o, off, t);
	}
	void store(State &S, Obj &o, int off, Type *t, const Val &v)
	{
		if (t->isAggregateType() || t->isVectorTy()) {
			if (v.k == VUndef) { int n = DL->getTypeStoreSize(t); clearRange(S, o, off, n); for (int i = 0; i < n; ++i) o.st[off+i] = 0; return; }
			if (auto *st = dyn_cast<StructType>(t)) {
				const StructLayout *sl = DL->getStructLayout(st);
				for (unsigned i = 0; i < st->getNumElements(); ++i) store(S, o, off + sl->getElementOffset(i), st->getElementType(i), (*v.agg)[i]);
			} else {
				Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
				int es = DL->getTypeAllocSize(et);
				for (unsigned i = 0; i < v.agg->size(); ++i) store(S, o, off + i * es, et, (*v.agg)[i]);
			}
			return;
		}
		putCell(S, o, off, DL->getTypeStoreSize(t), v);
	}
	void copyMem(State &S, const Val &d, const Val &s, long n)
	{
		if (!n) return;
		long so = checkAccess(S, s, n, "read", false);
		long dof = checkAccess(S, d, n, "write", true);
		ObjP src = slot(S, s.obj);
		std::vector<std::pair<int,Cell>> cs;
		std::vector<uint8_t> st(src->st.begin() + so, src->st.begin() + so + n);
		Obj tmp = *src;
		// make cells at the borders splittable
		auto it = tmp.cells.upper_bound(so);
		if (it != tmp.cells.begin()) { auto p = std::prev(it); if (p->first < so && p->first + p->second.size > so) explode(S, tmp, p->first); }
		it = tmp.cells.upper_bound(so + n - 1);
		if (it != tmp.cells.begin()) { auto p = std::prev(it); if (p->first < so + n && p->first + p->second.size > so + n) explode(S, tmp, p->first); }
		for (auto i = tmp.cells.lower_bound(so); i != tmp.cells.end() && i->first < so + n; ++i) cs.push_back({int(i->first - so), i->second});
		for (int i = 0; i < n; ++i) st[i] = tmp.st[so + i];
		ObjP &dst = writable(S, d.obj);
		clearRange(S, *dst, dof, n);
		for (int i = 0; i < n; ++i) dst->st[dof + i] = st[i];
		for (auto &c : cs) dst->cells[dof + c.first] = c.second;
	}

	// -- integers
	static R lim(int w) { return std::ldexp((R)1, w - 1); }
	Val wrapConst(R x, int w)
	{
		// exact for |x| < 2^63; otherwise reduce modulo 2^w
		R m = std::ldexp((R)1, w);
		R y = x - m * std::floor((x + m / 2) / m);
		return vintc(y, w);
	}
	Val fitInt(State &S, const Poly &p, int w, bool nsw, const Instruction *I)
	{
		if (isConst(p)) {
			R c = constVal(p);
			if (c >= -lim(w) && c < lim(w)) return vint(p, w);
			if (nsw && !S.noOvf && w > 1) throw Bad{"overflow", "signed integer overflow", num(c)};
			return wrapConst(c, w);
		}
		Itv b = bounds(S, p, 0);
		if (!(b.lo >= -lim(w) && b.hi < lim(w))) b = bounds(S, p, 2);
		if (b.lo >= -lim(w) && b.hi < lim(w)) return vint(p, w);
		if (nsw && !S.noOvf) throw Bad{"overflow", "signed integer overflow possible", pstr(p, 8) + " in [" + num(b.lo) + "," + num(b.hi) + "]"};
		if (w == 64) { // addresses and sizes
			bool addr = false;
			for (auto &t : p->t) { int s = asSym(pmono(t.m, 1)); if (s >= 0 && C.syms[s].name.compare(0, 4, "addr") == 0) addr = true; }
			if (addr) return vint(p, w);
		}
		int s = mkAtomSym(F_WRAP, {p, pconst(w)}, true);
		C.syms[s].lo = -lim(w); C.syms[s].hi = lim(w) - 1;
		return vint(psym(s), w);
	}
	Val castInt(State &S, const Val &v, int w, bool sext)
	{
		if (v.k == VUndef) return v;
		if (v.k != VInt) throw Unsupported{"integer cast"};
		if (w == v.w) return v;
		if (isConst(v.p)) {
			R c = constVal(v.p);
			if (w < v.w) return wrapConst(c, w);
			if (!sext && c < 0) return vintc(c + std::ldexp((R)1, v.w), w);
			return vint(v.p, w);
		}
		if (w > v.w) {
			Itv b = bounds(S, v.p, 0);
			if (sext || b.lo >= 0) { Val r = vint(v.p, w); return r; }
			Bits bs = bitsOf(S, v);
			while ((int)bs.size() < w) bs.push_back({-1, 0});
			return fromBits(S, bs, w);
		}
		Itv b = bounds(S, v.p, 0);
		if (b.lo >= -lim(w) && b.hi < lim(w)) return vint(v.p, w);
		Bits bs = bitsOf(S, v);
		bs.resize(w);
		return fromBits(S, bs, w);
	}

	// -- operand evaluation
	Val get(State &S, const Value *v)
	{
		if (auto *c = dyn_cast<Constant>(v)) return constVal_(S, c);
		Frame &f = S.fr.back();
		auto it = f.info->num.find(v);
		if (it == f.info->num.end()) {
			if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Val();
			throw Unsupported{"operand"};
		}
		return f.regs[it->second];
	}
	void set(State &S, const Instruction *I, Val v)
	{
		Frame &f = S.fr.back();
		f.regs[f.info->num[I]] = std::move(v);
	}
	static void need(const Val &v, const char *what)
	{
		if (v.k == VUndef) throw Bad{"uninit", std::string("indeterminate value used in ") + what, ""};
	}
	static R asConstArg(const Val &v, const char *what)
	{
		if ((v.k == VInt || v.k == VFlt) && isConst(v.p)) return constVal(v.p);
		throw Unsupported{std::string("non-constant ") + what};
	}
	std::string cstr(State &S, const Val &p)
	{
		std::string r;
		if (p.k != VPtr || !isConst(p.p)) return "?";
		ObjP o = slot(S, p.obj);
		for (long i = (long)constVal(p.p); i < o->size; ++i) {
			auto it = o->cells.find(i);
			if (it == o->cells.end() || !vconst(it->second.v)) break;
			char ch = (char)(int)constVal(it->second.v.p);
			if (!ch) break;
			r += ch;
		}
		return r;
	}

	// -- control flow
	void enterBlock(State &S, const BasicBlock *to)
	{
		Frame &f = S.fr.back();
		f.prev = f.bb;
		f.bb = to;
		f.it = to->begin();
		// phis
		std::vector<std::pair<int,Val>> vs;
		for (; f.it != to->end(); ++f.it) {
			auto *phi = dyn_cast<PHINode>(&*f.it);
			if (!phi) break;
			vs.push_back({f.info->num[phi], get(S, phi->getIncomingValueForBlock(f.prev))});
		}
		for (auto &x : vs) S.fr.back().regs[x.first] = x.second;
	}
	void pushFrame(State &S, const Function *F, const CallBase *call, const std::vector<Val> &args)
	{
		if (S.fr.size() > 400) throw Bad{"termination", "unbounded recursion", fnShort(F)};
		Frame f;
		f.F = F;
		f.info = getInfo(F);
		f.regs.resize(f.info->n);
		f.memBase = S.mem.size();
		f.call = call;
		f.bb = &F->getEntryBlock();
		f.it = f.bb->begin();
		for (size_t i = 0; i < args.size() && i < F->arg_size(); ++i) f.regs[i] = args[i];
		if (const DISubprogram *sp = F->getSubprogram()) {
			std::string fn = sp->getFilename().str();
			if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
			if (fn.compare(0, repoPrefix.size() + 1, repoPrefix + "/") == 0) fnsSeen.insert(fn.substr(repoPrefix.size() + 1) + ": " + f.info->dem);
		}
		S.fr.push_back(std::move(f));
		// byval arguments are copies
		for (unsigned i = 0; call && i < call->arg_size() && i < F->arg_size(); ++i)
			if (call->isByValArgument(i)) {
				Type *t = call->getParamByValType(i);
				int n = DL->getTypeAllocSize(t);
				S.mem.push_back(newObj(n, "byval argument"));
				Val d = vptr(STACK0 + S.mem.size() - 1, C.zero);
				copyMem(S, d, args[i], n);
				S.fr.back().regs[i] = d;
			}
	}

	// result of a comparison that is not decided: split
	[[noreturn]] void splitOn(State &S, const Instruction *I, const Poly &p, Rel rel)
	{
		++stats["splits"];
		needLive(p);
		// bits first
		std::set<int> syms;
		polySyms(p, syms, false);
		for (int s : syms) if (C.syms[s].fn == F_BIT) {
			Fork f; f.merge = S.fr.back().info->ip[S.fr.back().bb];
			for (int v = 0; v < 2; ++v) { State T = S; if (assumeSymEq(T, s, v)) f.states.push_back(std::move(T)); }
			throw Resplit{std::move(f)};
		}
		Fork f;
		f.merge = S.fr.back().info->ip[S.fr.back().bb];
		static const Rel inv[] = {NE, EQ, GE, GT, LE, LT};
		auto push = [&](const Poly &q, Rel r, bool val, const std::function<bool(State &)> &extra = nullptr) {
			State T = S;
			bool ok;
			try { ok = assume(T, q, r) && (!extra || extra(T)); } catch (DivZero &) { ok = true; T = S; addFactItv(T, q, ipoint(0)); }
			if (!ok) return;
			set(T, I, vintc(val ? -1 : 0, 1));
			++T.fr.back().it;
			f.states.push_back(std::move(T));
		};
		for (int side = 0; side < 2; ++side) {
			Rel r = side ? inv[rel] : rel;
			if (r == EQ && p->t.size() == 1 && C.monos[p->t[0].m].f.size() > 1) {
				// a product is zero when a factor is
				auto fs = C.monos[p->t[0].m].f;
				for (auto &x : fs) {
					if (x.second < 0 || C.syms[x.first].fn == F_INV) continue;
					if (decide(S, psym(x.first), EQ) == 0) continue;
					push(psym(x.first), EQ, !side);
				}
			} else if (r == NE && p->t.size() == 1 && C.monos[p->t[0].m].f.size() >= 1) {
				auto fs = C.monos[p->t[0].m].f;
				push(p, NE, !side, [&](State &T) {
					for (auto &x : fs) if (x.second > 0) if (!assume(T, psym(x.first), NE)) return false;
					return true;
				});
			} else
				push(p, r, !side);
		}
		throw Resplit{std::move(f)};
	}
	Val compare(State &S, const Instruction *I, const Poly &p, Rel rel)
	{
		int d = decide(S, p, rel);
		if (d < 0) splitOn(S, I, p, rel);
		return vintc(d ? -1 : 0, 1);
	}

	static Rel fpred(CmpInst::Predicate p)
	{
		switch (p) {
		case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return EQ;
		case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return NE;
		case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return LT;
		case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return LE;
		case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return GT;
		case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return GE;
		default: throw Unsupported{"fcmp predicate"};
		}
	}

	Val binop(State &S, const Instruction *I, unsigned op, const Val &a, const Val &b)
	{
		if (a.k == VAgg || b.k == VAgg) {
			auto r = std::make_shared<std::vector<Val>>();
			for (size_t i = 0; i < a.agg->size(); ++i) r->push_back(binop(S, I, op, (*a.agg)[i], (*b.agg)[i]));
			Val v; v.k = VAgg; v.agg = r;
			return v;
		}
		need(a, "arithmetic"); need(b, "arithmetic");
		Val r;
		switch (op) {
		case Instruction::FAdd: r = vflt(rounding >= 3 ? inexact(S, I->getType(), op, a.p, b.p, padd(a.p, b.p)) : rounded(padd(a.p, b.p))); break;
		case Instruction::FSub: r = vflt(rounding >= 3 ? inexact(S, I->getType(), op, a.p, b.p, psub(a.p, b.p)) : rounded(psub(a.p, b.p))); break;
		case Instruction::FMul: r = vflt(inexact(S, I->getType(), op, a.p, b.p, pmul(a.p, b.p))); break;
		case Instruction::FDiv:
			if (isZero(b.p)) throw Bad{"division", "floating-point division by zero", ""};
			if (!isConst(b.p) && b.p->t.size() >= 2 && a.p->t.size() == b.p->t.size()) {
				// proportional operands
				R k = a.p->t[0].c / b.p->t[0].c;
				if (peq(a.p, pscale(b.p, k))) { r = vflt(pconst(k)); break; }
			}
			r = vflt(inexact(S, I->getType(), op, a.p, b.p, pmul(a.p, pinv(b.p))));
			break;
		case Instruction::FRem: throw Unsupported{"frem"};
		default: r = intop(S, I, op, a, b);
		}
		r.org = I;
		return r;
	}
	// under sa_rounding(3) every operation carries an error of its own, bounded by its magnitude;
	// the unit roundoff of the declared precision is taken as 2^-30
	Poly inexact(State &S, Type *t, unsigned op, const Poly &a, const Poly &b, const Poly &p)
	{
		if (rounding < 3) return p;
		if (isConst(p)) {
			R v = constVal(p);
			if (rounding != 4 || v == (R)(t->getScalarType()->isFloatTy() ? (R)(float)v : (R)(double)v)) return p;
			R m = std::ldexp(std::fabs(v), std::max(precision - t->getScalarType()->getFPMantissaWidth(), 0) - 30);
			return padd(p, psym(error(m)));
		}
		int units = 1;
		for (auto *q : {&a, &b}) {
			if (!*q || !isConst(*q)) continue;
			R c = std::fabs(constVal(*q));
			int e;
			if (c == 0) return p;
			if (op == Instruction::FMul && std::frexp(c, &e) == 0.5L) return p;
			if (op == Instruction::FDiv && q == &b && std::frexp(c, &e) == 0.5L) return p;
			R d = std::ldexp(c, 20);
			if (d != std::rint(d)) ++units; // the constant is not exact either
		}
		int bits = t->getScalarType()->getFPMantissaWidth();
		Itv i = bounds(S, p);
		R m = std::max(std::fabs(i.lo), std::fabs(i.hi));
		m *= std::ldexp((R)units, std::max(precision - bits, 0) - 30);
		if (m == 0) return p;
		R k = 0;
		for (auto &q : p->t) { // a constant with errors has just one
			if (!q.m) { k = q.c; continue; }
			for (auto &x : C.monos[q.m].f) if (!errors.count(x.first)) return padd(p, psym(error(m)));
		}
		return padd(pconst(k), psym(error(m + std::max(std::fabs(i.lo - k), std::fabs(i.hi - k)))));
	}
	static int error(R m)
	{
		int e = newSym("eps" + std::to_string(C.syms.size()), false, -m, m);
		errors.insert(e);
		return e;
	}
	// sums and differences under sa_rounding: 1, results that involve a large operand carry an unknown error;
	// 2, results are an unknown function of the exact ones
	Poly rounded(const Poly &p)
	{
		if (!rounding || rounding >= 3 || isConst(p)) return p;
		if (p->t.size() == 1 && std::fabs(p->t[0].c) == 1) return p; // exact
		if (rounding == 1) {
			for (auto &t : p->t) for (auto &x : C.monos[t.m].f) if (large.count(x.first)) {
				int e = newSym("eps" + std::to_string(errors.size()), false, -INF, INF);
				errors.insert(e);
				return padd(p, psym(e));
			}
			return p;
		}
		if (p->t[0].c < 0) return pneg(rounded(pneg(p)));
		return psym(mkAtomSym(F_OTHER, {p}, false));
	}
	Val intop(State &S, const Instruction *I, unsigned op, const Val &a0, const Val &b0)
	{
		Val a = a0, b = b0;
		if (a.k == VPtr) a = ptrToInt(a, 64);
		if (b.k == VPtr) b = ptrToInt(b, 64);
		int w = a.w;
		bool nsw = false;
		if (auto *o = dyn_cast<OverflowingBinaryOperator>(I)) nsw = o->hasNoSignedWrap();
		if (nsw) oblige("overflow");
		switch (op) {
		case Instruction::Add: return fitInt(S, padd(a.p, b.p), w, nsw, I);
		case Instruction::Sub: return fitInt(S, psub(a.p, b.p), w, nsw, I);
		case Instruction::Mul:
			if (isConst(a.p) && isConst(b.p) && w == 64 && !nsw) {
				unsigned long long x = (unsigned long long)(long long)constVal(a.p) * (unsigned long long)(long long)constVal(b.p);
				return vintc((R)(long long)x, 64);
			}
			return fitInt(S, pmul(a.p, b.p), w, nsw, I);
		case Instruction::Shl: {
			if (!isConst(b.p)) concretise(S, b.p);
			int k = (int)constVal(b.p);
			if (k < 0 || k >= w) throw Bad{"shift", "shift count out of range", num(constVal(b.p))};
			if (isConst(a.p)) { // nsw from a source-level shift is not emitted by clang
				unsigned long long x = (unsigned long long)(long long)constVal(a.p) << k;
				return wrapConst((R)(long long)(w < 64 ? (long long)(x << (64 - w)) >> (64 - w) : (long long)x), w);
			}
			Itv bd = bounds(S, a.p, 0);
			R m = std::ldexp((R)1, k);
			if (!a.bits && bd.lo * m >= -lim(w) && bd.hi * m < lim(w)) return vint(pscale(a.p, m), w);
			Bits x = bitsOf(S, a), r(w, Bit{-1, 0});
			for (int i = k; i < w; ++i) r[i] = x[i-k];
			return fromBits(S, r, w);
		}
		case Instruction::LShr: case Instruction::AShr: {
			if (!isConst(b.p)) concretise(S, b.p);
			int k = (int)constVal(b.p);
			if (k < 0 || k >= w) throw Bad{"shift", "shift count out of range", num(constVal(b.p))};
			if (isConst(a.p)) {
				long long x = (long long)constVal(a.p);
				if (op == Instruction::AShr) return vintc((R)(x >> k), w);
				unsigned long long u = (unsigned long long)x;
				if (w < 64) u &= (1ull << w) - 1;
				u >>= k;
				return wrapConst((R)u, w);
			}
			if (S.plane && op == Instruction::AShr) { // what is cut off is some value of its own
				if (!k) return a;
				if (k == w - 1) { // a mask of the sign
					int d = decide(S, a.p, GE);
					if (d >= 0) return vintc(d - 1, w);
					Fork f; f.merge = nullptr;
					for (int v = 0; v < 2; ++v) {
						State T = S;
						if (!assume(T, a.p, v ? LT : GE)) continue;
						set(T, I, vintc(-v, w));
						++T.fr.back().it;
						f.states.push_back(std::move(T));
					}
					throw Resplit{std::move(f)};
				}
				R u = std::ldexp((R)1, -k);
				Poly e = pscale(a.p, u);
				return vint(polyIsInt(e) ? e : psub(e, freshSym(S, "cut " + std::to_string(k), false, 0, 1 - u, nullptr)), w);
			}
			Bits x = bitsOf(S, a), r(w);
			for (int i = 0; i < w; ++i) r[i] = i + k < w ? x[i+k] : op == Instruction::AShr ? x[w-1] : Bit{-1, 0};
			return fromBits(S, r, w);
		}
		case Instruction::And: case Instruction::Or: case Instruction::Xor: {
			if (isConst(a.p) && isConst(b.p)) {
				long long x = (long long)constVal(a.p), y = (long long)constVal(b.p);
				long long z = op == Instruction::And ? x & y : op == Instruction::Or ? x | y : x ^ y;
				return vintc((R)z, w);
			}
			for (int v = 0; S.plane && v < 2; ++v) {
				const Val &p = v ? b : a, &q = v ? a : b;
				if (!isConst(q.p) || (constVal(q.p) != 0 && constVal(q.p) != -1)) continue;
				bool ones = constVal(q.p) != 0;
				if (op == Instruction::Xor) return ones ? vint(psub(pneg(p.p), C.one), w) : p;
				return ones == (op == Instruction::And) ? p : q;
			}
			Bits x = bitsOf(S, a), y = bitsOf(S, b), r(w);
			for (int i = 0; i < w; ++i) {
				Bit p = x[i], q = y[i];
				if (p.s < 0 && q.s >= 0) std::swap(p, q);
				if (q.s < 0) {
					if (op == Instruction::And) r[i] = q.k ? p : Bit{-1, 0};
					else if (op == Instruction::Or) r[i] = q.k ? Bit{-1, 1} : p;
					else if (!q.k) r[i] = p;
					else if (p.s < 0) r[i] = {-1, !p.k};
					else splitBit(S, p);
				} else if (p == q) r[i] = op == Instruction::Xor ? Bit{-1, 0} : p;
				else splitBit(S, p);
			}
			return fromBits(S, r, w);
		}
		case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem: {
			oblige("division");
			int dz = decide(S, b.p, NE);
			if (dz != 1) throw Bad{"division", "integer division by zero possible", pstr(b.p, 6)};
			bool uns = op == Instruction::UDiv || op == Instruction::URem;
			if (uns && isConst(a.p) && isConst(b.p)) {
				unsigned long long x = (unsigned long long)(long long)constVal(a.p), y = (unsigned long long)(long long)constVal(b.p);
				if (w < 64) { x &= (1ull << w) - 1; y &= (1ull << w) - 1; }
				return wrapConst((R)(op == Instruction::UDiv ? x / y : x % y), w);
			}
			if (uns && (decide(S, a.p, GE) != 1 || decide(S, b.p, GE) != 1)) throw Unsupported{"unsigned division of a possibly negative value"};
			bool rem = op == Instruction::SRem || op == Instruction::URem;
			if (isConst(a.p) && isConst(b.p)) {
				long long x = (long long)constVal(a.p), y = (long long)constVal(b.p);
				return vintc((R)(rem ? x % y : x / y), w);
			}
			if (isConst(b.p)) {
				Itv bd = bounds(S, a.p, 1);
				R d = std::fabs(constVal(b.p));
				if (bd.lo > -d && bd.hi < d) return rem ? a : vintc(0, w);
			}
			// address differences divide exactly
			Poly q = mkFn(F_SDIV, {a.p, b.p}, &S);
			int qs = asSym(q);
			if (qs >= 0 && C.syms[qs].fn == F_SDIV) {
				// facts: |a - b*q| < |b|, same sign as a
				Poly r = psub(a.p, pmul(b.p, q));
				Poly ab = b.p;
				if (decide(S, b.p, LT) == 1) ab = pneg(ab);
				int sa = decide(S, a.p, GE);
				if (sa < 0) splitSign(S, a.p);
				if (sa == 1) { assume(S, r, GE); assume(S, psub(psub(r, ab), pconst(-1)), LE); }
				else { assume(S, r, LE); assume(S, padd(padd(r, ab), pconst(-1)), GE); }
				Itv rb = bounds(S, a.p, 0);
				R w1 = lim(w);
				if (rb.lo >= -w1 && rb.hi < w1) {
					Itv bb = bounds(S, ab, 0);
					Itv ri = sa == 1 ? Itv{0, bb.hi - 1, false, false} : Itv{-(bb.hi - 1), 0, false, false};
					addFactItv(S, r, ri);
				}
				return rem ? vint(r, w) : vint(q, w);
			}
			return rem ? vint(psub(a.p, pmul(b.p, q)), w) : vint(q, w);
		}
		default: throw Unsupported{"integer operation"};
		}
	}
	[[noreturn]] void splitSign(State &S, const Poly &p)
	{
		Fork f; f.merge = S.fr.back().info->ip[S.fr.back().bb];
		for (int v = 0; v < 2; ++v) { State T = S; if (assume(T, p, v ? LT : GE)) f.states.push_back(std::move(T)); }
		throw Resplit{std::move(f)};
	}
	[[noreturn]] void splitBit(State &S, Bit b)
	{
		int a = mkAtomSym(F_BIT, {psym(b.s), pconst(b.k)}, true);
		Fork f; f.merge = S.fr.back().info->ip[S.fr.back().bb];
		for (int v = 0; v < 2; ++v) { State T = S; if (assumeSymEq(T, a, v)) f.states.push_back(std::move(T)); }
		throw Resplit{std::move(f)};
	}

	Val math(State &S, const std::string &n0, const std::vector<Val> &a, const Instruction *I, bool &known)
	{
		known = true;
		std::string n = n0;
		for (auto &x : a) if (x.k == VUndef) need(x, "a mathematical function");
		auto fold = [&](Val v) {
			if (rounding >= 3 && I->getType()->isFloatingPointTy() && v.k == VFlt && n != "fabs" && n != "copysign") v = vflt(inexact(S, I->getType(), I->getOpcode(), nullptr, nullptr, v.p));
			v.org = I;
			return v;
		};
		static const R TWOPI = 6.283185307179586476925286766559005768L;
		auto P = [&](int i) { return a[i].p; };
		if (n == "sqrt") {
			if (decide(S, P(0), LT) == 1 && !(isConst(P(0)) && constVal(P(0)) > -1e-12L)) throw Bad{"domain", "square root of a negative value", pstr(P(0), 6)};
			if (isConst(P(0)) && constVal(P(0)) < 0) return fold(vflt(C.zero));
			return fold(vflt(mkFn(F_SQRT, {P(0)}, &S)));
		}
		if (n == "cos" || n == "sin") {
			Poly v = mkFn(n == "cos" ? F_COST : F_SINT, {pscale(P(0), 1 / TWOPI)}, &S);
			return fold(vflt(gain ? pmul(gain, v) : v));
		}
		if (n == "exp") return fold(vflt(mkFn(F_EXP, {P(0)}, &S)));
		if (n == "log") return fold(vflt(mkFn(F_LOG, {P(0)}, &S)));
		if (n == "log10") return fold(vflt(mkFn(F_LOG10, {P(0)}, &S)));
		if (n == "tan") return fold(vflt(mkFn(F_TAN, {P(0)}, &S)));
		if (n == "atan") return fold(vflt(mkFn(F_ATAN, {P(0)}, &S)));
		if (n == "pow") return fold(vflt(mkFn(F_POW, {P(0), P(1)}, &S)));
		if (n == "powi") return fold(vflt(ppow(P(0), (int)asConstArg(a[1], "exponent"))));
		if (n == "atan2") return fold(vflt(mkFn(F_ATAN2, {P(0), P(1)}, &S)));
		if (n == "copysign") return fold(vflt(mkFn(F_COPYSIGN, {P(0), P(1)}, &S)));
		if (n == "fabs") return fold(vflt(mkFn(F_FABS, {P(0)}, &S)));
		if (n == "abs") { // integer
			int d = decide(S, P(0), GE);
			if (d < 0 && S.plane) { // the polygons of the two signs may share an edge
				Fork f; f.merge = nullptr;
				for (int v = 0; v < 2; ++v) {
					State T = S;
					if (!assume(T, P(0), v ? LT : GE)) continue;
					set(T, I, v ? fitInt(T, pneg(P(0)), a[0].w, true, I) : a[0]);
					++T.fr.back().it;
					f.states.push_back(std::move(T));
				}
				throw Resplit{std::move(f)};
			}
			if (d < 0) splitSign(S, P(0));
			return d ? a[0] : fitInt(S, pneg(P(0)), a[0].w, true, I);
		}
		if (n == "nearbyint" || n == "rint" || n == "lrint" || n == "trunc" || n == "floor" || n == "ceil" || n == "round") {
			Poly e = P(0);
			bool neg = false;
			Fn f = n == "trunc" ? F_TRUNC : n == "floor" || n == "ceil" ? F_FLOOR : F_RINT;
			if (n == "ceil") { e = pneg(e); neg = true; }
			if (n == "round" && isConst(e)) return fold(vflt(pconst(std::round(constVal(e)))));
			Poly q = roundAtom(S, f, e);
			if (neg) q = pneg(q);
			return fold(n == "lrint" ? vint(q, 64) : vflt(q));
		}
		if (n == "fmuladd" && rounding >= 3) { // may be contracted or not
			Poly m = inexact(S, I->getType(), Instruction::FMul, P(0), P(1), pmul(P(0), P(1)));
			return vflt(inexact(S, I->getType(), Instruction::FAdd, m, P(2), padd(m, P(2))));
		}
		if (n == "fma" || n == "fmuladd") return fold(vflt(padd(pmul(P(0), P(1)), P(2))));
		if (n == "fmin" || n == "fmax" || n == "minnum" || n == "maxnum") {
			bool mn = n == "fmin" || n == "minnum";
			int d = decide(S, psub(P(0), P(1)), LE);
			if (d < 0) splitSign(S, psub(P(0), P(1)));
			return (d == 1) == mn ? a[0] : a[1];
		}
		if (n == "hypot") return fold(vflt(mkFn(F_SQRT, {padd(pmul(P(0), P(0)), pmul(P(1), P(1)))}, &S)));
		if (n == "exp2") return fold(vflt(mkFn(F_EXP, {pscale(P(0), std::log((R)2))}, &S)));
		if (n == "acos" && isConst(P(0))) return fold(vflt(pconst(std::acos(constVal(P(0))))));
		if (n == "asin" && isConst(P(0))) return fold(vflt(pconst(std::asin(constVal(P(0))))));
		known = false;
		return Val();
	}
	Poly roundAtom(State &S, Fn f, const Poly &e)
	{
		Poly q = mkFn(f, {e}, &S);
		int s = asSym(q);
		if (s >= 0 && C.syms[s].fn == f && !isConst(q) && !polyIsInt(e)) {
			if (f == F_RINT) { addFactItv(S, psub(e, q), Itv{-0.5L, 0.5L, false, false}); }
			else if (f == F_FLOOR) addFactItv(S, psub(e, q), Itv{0, 1, false, true});
			else {
				int d = decide(S, e, GE);
				if (d < 0) splitSign(S, e);
				if (d) { addFactItv(S, psub(e, q), Itv{0, 1, false, true}); addFactItv(S, q, Itv{0, INF, false, false}); }
				else { addFactItv(S, psub(e, q), Itv{-1, 0, true, false}); addFactItv(S, q, Itv{-INF, 0, false, false}); }
			}
		}
		return q;
	}

	Poly freshSym(State &S, const std::string &name, bool isInt, R lo, R hi, const Instruction *I)
	{
		std::string key = name;
		int n = S.cnt[key]++;
		std::string nm = n ? name + "#" + std::to_string(n) : name;
		// different declared bounds make different symbols
		auto it = C.symIdx.find(nm);
		if (it != C.symIdx.end()) {
			const Sym &y = C.syms[it->second];
			if (y.lo != lo || y.hi != hi || y.isInt != isInt) nm += "[" + num(lo) + "," + num(hi) + "]";
		}
		return psym(newSym(nm, isInt, lo, hi));
	}

#include "checks.h"
#include "calls.h"
#include "heads.h"

	// execute one instruction; returns false when the state died
	Res step(State &S)
	{
		Frame &f = S.fr.back();
		const Instruction *I = &*f.it;
		switch (I->getOpcode()) {
		case Instruction::Alloca: {
			auto *a = cast<AllocaInst>(I);
			long n = 1;
			if (a->isArrayAllocation()) {
				Val c = get(S, a->getArraySize());
				n = (long)asConstArg(c, "array size");
			}
			int size = DL->getTypeAllocSize(a->getAllocatedType()) * n;
			S.mem.push_back(newObj(size, a->getName().str()));
			set(S, I, vptr(STACK0 + S.mem.size() - 1, C.zero));
			break;
		}
		case Instruction::Load: {
			auto *l = cast<LoadInst>(I);
			Val p = get(S, l->getPointerOperand());
			int n = DL->getTypeStoreSize(l->getType());
			long off = checkAccess(S, p, n, "read", false);
			Val v = load(S, *slot(S, p.obj), off, l->getType());
			set(S, I, v);
			break;
		}
		case Instruction::Store: {
			auto *l = cast<StoreInst>(I);
			Val p = get(S, l->getPointerOperand());
			Val v = get(S, l->getValueOperand());
			Type *t = l->getValueOperand()->getType();
			int n = DL->getTypeStoreSize(t);
			long off = checkAccess(S, p, n, "write", true);
			if (v.k != VAgg && inRepoCached(I)) v.org = I;
			store(S, *writable(S, p.obj), off, t, v);
			break;
		}
		case Instruction::GetElementPtr: {
			auto *g = cast<GetElementPtrInst>(I);
			Val b = get(S, g->getPointerOperand());
			need(b, "address arithmetic");
			Poly off = b.p;
			for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
				if (StructType *st = gti.getStructTypeOrNull()) {
					unsigned k = cast<ConstantInt>(gti.getOperand())->getZExtValue();
					off = padd(off, pconst((R)(long)DL->getStructLayout(st)->getElementOffset(k)));
					if (b.k == VPtr && b.obj && isConst(off)) {
						// narrow to the member, unless that is already outside what the pointer may reach
						R mlo = constVal(off), mhi = mlo + (R)(long)DL->getTypeAllocSize(st->getElementType(k));
						if (mlo >= (b.shi ? b.slo : 0) && mhi <= (b.shi ? b.shi : slot(S, b.obj)->size)) { b.slo = (int)mlo; b.shi = (int)mhi; }
					}
				} else {
					Val i = get(S, gti.getOperand());
					need(i, "an array index");
					off = padd(off, pscale(i.p, (R)(long)DL->getTypeAllocSize(gti.getIndexedType())));
				}
			}
			b.p = off;
			set(S, I, b);
			break;
		}
		case Instruction::FNeg: {
			Val a = get(S, I->getOperand(0));
			if (a.k == VAgg) {
				auto r = std::make_shared<std::vector<Val>>();
				for (auto &x : *a.agg) { need(x, "arithmetic"); r->push_back(vflt(pneg(x.p))); }
				Val v; v.k = VAgg; v.agg = r; set(S, I, v);
				break;
			}
			need(a, "arithmetic");
			Val r = vflt(pneg(a.p)); r.org = I;
			set(S, I, r);
			break;
		}
		case Instruction::ICmp: {
			auto *c = cast<ICmpInst>(I);
			Val a = get(S, c->getOperand(0)), b = get(S, c->getOperand(1));
			set(S, I, icmp(S, c, a, b));
			break;
		}
		case Instruction::FCmp: {
			auto *c = cast<FCmpInst>(I);
			if (c->getPredicate() == CmpInst::FCMP_TRUE || c->getPredicate() == CmpInst::FCMP_ORD) { set(S, I, vintc(-1, 1)); break; }
			if (c->getPredicate() == CmpInst::FCMP_FALSE || c->getPredicate() == CmpInst::FCMP_UNO) { set(S, I, vintc(0, 1)); break; }
			Val a = get(S, c->getOperand(0)), b = get(S, c->getOperand(1));
			need(a, "a comparison"); need(b, "a comparison");
			set(S, I, compare(S, I, psub(a.p, b.p), fpred(c->getPredicate())));
			break;
		}
		case Instruction::Select: {
			Val c = get(S, I->getOperand(0));
			need(c, "a conditional");
			if (!isConst(c.p)) concretise(S, c.p);
			set(S, I, get(S, I->getOperand(constVal(c.p) != 0 ? 1 : 2)));
			break;
		}
		case Instruction::Br: {
			auto *b = cast<BranchInst>(I);
			if (!b->isConditional()) { enterBlock(S, b->getSuccessor(0)); return Cont; }
			Val c = get(S, b->getCondition());
			need(c, "a branch condition");
			if (!isConst(c.p)) concretise(S, c.p);
			enterBlock(S, b->getSuccessor(constVal(c.p) != 0 ? 0 : 1));
			return Cont;
		}
		case Instruction::Switch: {
			auto *b = cast<SwitchInst>(I);
			Val c = get(S, b->getCondition());
			need(c, "a switch");
			if (!isConst(c.p)) {
				// split on the first undecided case
				for (auto &cs : b->cases()) {
					Poly d = psub(c.p, pconst((R)cs.getCaseValue()->getSExtValue()));
					int r = decide(S, d, EQ);
					if (r == 1) { enterBlock(S, cs.getCaseSuccessor()); return Cont; }
					if (r < 0) {
						Fork f2; f2.merge = S.fr.back().info->ip[S.fr.back().bb];
						State T = S;
						if (assume(T, d, EQ)) { enterBlock(T, cs.getCaseSuccessor()); f2.states.push_back(std::move(T)); }
						State U = S;
						if (assume(U, d, NE)) f2.states.push_back(std::move(U));
						throw Resplit{std::move(f2)};
					}
				}
				enterBlock(S, b->getDefaultDest());
				return Cont;
			}
			const BasicBlock *to = b->getDefaultDest();
			for (auto &cs : b->cases()) if ((R)cs.getCaseValue()->getSExtValue() == constVal(c.p)) to = cs.getCaseSuccessor();
			enterBlock(S, to);
			return Cont;
		}
		case Instruction::Unreachable: throw Bad{"unreachable", "control reaches undefined behaviour (missing return?)", ""};
		case Instruction::Ret: {
			auto *r = cast<ReturnInst>(I);
			Val v;
			if (r->getReturnValue()) v = get(S, r->getReturnValue());
			const CallBase *call = f.call;
			int base = f.memBase;
			S.fr.pop_back();
			S.mem.resize(base);
			if (S.fr.empty()) return Dead; // entry finished
			if (call && !call->getType()->isVoidTy()) set(S, call, v);
			++S.fr.back().it;
			return Cont;
		}
		case Instruction::Call: case Instruction::Invoke:
			return doCall(S, cast<CallBase>(I));
		case Instruction::SIToFP: case Instruction::UIToFP: {
			Val a = get(S, I->getOperand(0));
			need(a, "a conversion");
			Poly p = a.p;
			if (I->getOpcode() == Instruction::UIToFP) {
				if (isConst(p)) { if (constVal(p) < 0) p = pconst(constVal(p) + std::ldexp((R)1, a.w)); }
				else if (decide(S, p, GE) != 1) throw Unsupported{"unsigned conversion of a possibly negative value"};
			} else if (a.w == 1 && isConst(p)) p = pconst(constVal(p) != 0 ? -1 : 0);
			Val r = vflt(p); r.org = I;
			set(S, I, r);
			break;
		}
		case Instruction::FPToSI: case Instruction::FPToUI: {
			Val a = get(S, I->getOperand(0));
			need(a, "a conversion");
			int w = I->getType()->getIntegerBitWidth();
			oblige("conversion");
			Poly q = roundAtom(S, F_TRUNC, a.p);
			Itv b = bounds(S, q, 1);
			R lo = I->getOpcode() == Instruction::FPToUI ? 0 : -lim(w), hi = I->getOpcode() == Instruction::FPToUI ? 2 * lim(w) - 1 : lim(w) - 1;
			if ((b.lo < lo || b.hi > hi) && !S.noOvf) throw Bad{"conversion", "floating-point value may not fit the integer it is converted to", pstr(a.p, 6) + " in [" + num(b.lo) + "," + num(b.hi) + "]"};
			Val r = I->getOpcode() == Instruction::FPToUI && isConst(q) ? wrapConst(constVal(q), w) : vint(q, w);
			r.org = I;
			set(S, I, r);
			break;
		}
		case Instruction::FPExt: case Instruction::FPTrunc: {
			Val a = get(S, I->getOperand(0));
			if (rounding >= 3 && I->getOpcode() == Instruction::FPTrunc && a.k == VFlt) a = vflt(inexact(S, I->getType(), I->getOpcode(), nullptr, nullptr, a.p));
			set(S, I, a);
			break;
		}
		case Instruction::Trunc: {
			Val a = get(S, I->getOperand(0));
			if (a.k == VPtr) a = ptrToInt(a, 64);
			set(S, I, castInt(S, a, I->getType()->getIntegerBitWidth(), true));
			break;
		}
		case Instruction::ZExt: case Instruction::SExt: {
			Val a = get(S, I->getOperand(0));
			set(S, I, castInt(S, a, I->getType()->getIntegerBitWidth(), I->getOpcode() == Instruction::SExt));
			break;
		}
		case Instruction::PtrToInt: set(S, I, ptrToInt(get(S, I->getOperand(0)), I->getType()->getIntegerBitWidth())); break;
		case Instruction::IntToPtr: set(S, I, intToPtr(get(S, I->getOperand(0)))); break;
		case Instruction::BitCast: {
			Val a = get(S, I->getOperand(0));
			Type *t = I->getType(), *u = I->getOperand(0)->getType();
			if (t->isPointerTy() || t == u) { set(S, I, a); break; }
			// through memory
			int n = DL->getTypeStoreSize(t);
			auto o = newObj(n, "bitcast");
			store(S, *o, 0, u, a);
			set(S, I, load(S, *o, 0, t));
			break;
		}
		case Instruction::Freeze: set(S, I, get(S, I->getOperand(0))); break;
		case Instruction::ExtractValue: {
			auto *e = cast<ExtractValueInst>(I);
			Val a = get(S, e->getAggregateOperand());
			for (unsigned i : e->indices()) { if (a.k == VUndef) break; Val t = (*a.agg)[i]; a = t; }
			set(S, I, a);
			break;
		}
		case Instruction::InsertValue: {
			auto *e = cast<InsertValueInst>(I);
			Val a = get(S, e->getAggregateOperand()), v = get(S, e->getInsertedValueOperand());
			set(S, I, insertAt(a, e->getType(), e->getIndices(), v));
			break;
		}
		case Instruction::ExtractElement: {
			Val a = get(S, I->getOperand(0)), i = get(S, I->getOperand(1));
			set(S, I, a.k == VUndef ? a : (*a.agg)[(int)asConstArg(i, "vector index")]);
			break;
		}
		case Instruction::InsertElement: {
			Val a = get(S, I->getOperand(0)), v = get(S, I->getOperand(1)), i = get(S, I->getOperand(2));
			unsigned k = (unsigned)asConstArg(i, "vector index");
			set(S, I, insertAt(a, I->getType(), ArrayRef<unsigned>(k), v));
			break;
		}
		case Instruction::ShuffleVector: {
			auto *sv = cast<ShuffleVectorInst>(I);
			Val a = get(S, I->getOperand(0)), b = get(S, I->getOperand(1));
			int n = cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements();
			auto r = std::make_shared<std::vector<Val>>();
			for (int m : sv->getShuffleMask()) {
				if (m < 0) r->push_back(vundef());
				else { const Val &src = m < n ? a : b; r->push_back(src.k == VUndef ? src : (*src.agg)[m < n ? m : m - n]); }
			}
			Val v; v.k = VAgg; v.agg = r;
			set(S, I, v);
			break;
		}
		case Instruction::Fence: break;
		default:
			if (I->isBinaryOp()) {
				Val a = get(S, I->getOperand(0)), b = get(S, I->getOperand(1));
				set(S, I, binop(S, I, I->getOpcode(), a, b));
				break;
			}
			throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
		}
		++S.fr.back().it;
		return Cont;
	}
	std::unordered_map<const Instruction*,bool> repoCache;
	bool inRepoCached(const Instruction *I)
	{
		auto it = repoCache.find(I);
		if (it != repoCache.end()) return it->second;
		return repoCache[I] = inRepo(I);
	}
	Val insertAt(Val a, Type *t, ArrayRef<unsigned> idx, const Val &v)
	{
		if (idx.empty()) return v;
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		Type *et = t->isStructTy() ? t->getStructElementType(idx[0]) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
		auto r = std::make_shared<std::vector<Val>>();
		if (a.k == VAgg) *r = *a.agg; else r->assign(n, vundef());
		(*r)[idx[0]] = insertAt((*r)[idx[0]], et, idx.slice(1), v);
		Val o; o.k = VAgg; o.agg = r;
		return o;
	}
	Val icmp(State &S, const ICmpInst *I, Val a, Val b)
	{
		need(a, "a comparison"); need(b, "a comparison");
		auto pr = I->getPredicate();
		if (a.k == VFn || b.k == VFn) {
			bool eq = a.k == b.k && a.fn == b.fn;
			return vintc((pr == CmpInst::ICMP_EQ) == eq ? -1 : 0, 1);
		}
		if (a.k == VPtr && b.k == VPtr) {
			if (a.obj == b.obj) { a = vint(a.p, 64); b = vint(b.p, 64); }
			else if (pr == CmpInst::ICMP_EQ) return vintc(0, 1);
			else if (pr == CmpInst::ICMP_NE) return vintc(-1, 1);
			else { a = ptrToInt(a, 64); b = ptrToInt(b, 64); }
		}
		if (a.k == VPtr) a = ptrToInt(a, 64);
		if (b.k == VPtr) b = ptrToInt(b, 64);
		Rel rel;
		bool uns = false;
		switch (pr) {
		case CmpInst::ICMP_EQ: rel = EQ; break;
		case CmpInst::ICMP_NE: rel = NE; break;
		case CmpInst::ICMP_SLT: rel = LT; break;
		case CmpInst::ICMP_SLE: rel = LE; break;
		case CmpInst::ICMP_SGT: rel = GT; break;
		case CmpInst::ICMP_SGE: rel = GE; break;
		case CmpInst::ICMP_ULT: rel = LT; uns = true; break;
		case CmpInst::ICMP_ULE: rel = LE; uns = true; break;
		case CmpInst::ICMP_UGT: rel = GT; uns = true; break;
		case CmpInst::ICMP_UGE: rel = GE; uns = true; break;
		default: throw Unsupported{"icmp"};
		}
		if (uns) {
			if (isConst(a.p) && constVal(a.p) < 0) a.p = padd(a.p, pconst(std::ldexp((R)1, a.w)));
			if (isConst(b.p) && constVal(b.p) < 0) b.p = padd(b.p, pconst(std::ldexp((R)1, b.w)));
			if (!isConst(a.p)) { int d = decide(S, a.p, GE); if (d < 0) splitSign(S, a.p); if (d == 0) a.p = padd(a.p, pconst(std::ldexp((R)1, a.w))); }
			if (!isConst(b.p)) { int d = decide(S, b.p, GE); if (d < 0) splitSign(S, b.p); if (d == 0) b.p = padd(b.p, pconst(std::ldexp((R)1, b.w))); }
		}
		return compare(S, I, psub(a.p, b.p), rel);
	}

	int stoppedAt(const State &S, const Stops &stops)
	{
		int d = S.fr.size();
		const Frame &f = S.fr.back();
		for (int i = (int)stops.size() - 1; i >= 0; --i) {
			const Stop &s = stops[i];
			if (s.kind == 0) { if (d == s.depth && f.bb == s.bb && f.it == firstNonPhi(f.bb)) return i; if (d < s.depth) return i; }
			else if (s.kind == 1) { if (d < s.depth) return i; }
			else if (s.kind == 2) { if (d == s.depth && &*f.it == s.head) return i; if (d < s.depth) return i; }
		}
		return -1;
	}
	static BasicBlock::const_iterator firstNonPhi(const BasicBlock *b) { return b->getFirstNonPHI()->getIterator(); }

	std::vector<State> run(State s, const Stops &stops)
	{
		std::vector<State> done, work;
		work.push_back(std::move(s));
		bool first = true;
		while (!work.empty()) {
			State S = std::move(work.back());
			work.pop_back();
			for (;;) {
				if (!first || true) {
					int k = stoppedAt(S, stops);
					if (k >= 0 && !(first && stops[k].kind == 2 && S.stopIdx == -2)) { S.stopIdx = k; done.push_back(std::move(S)); break; }
					S.stopIdx = -1;
				}
				first = false;
				if (++steps > maxSteps) throw Budget{"instruction budget exhausted (possible non-termination)"};
				if ((steps & 0xfff) == 0 && elapsed() > maxSeconds) throw Budget{"time budget exhausted"};
				try {
					const Instruction *I = &*S.fr.back().it;
					if (auto *cb = dyn_cast<CallBase>(I)) if (isHead(cb)) {
						std::vector<State> out = runHead(std::move(S), cb, stops);
						for (auto &o : out) done.push_back(std::move(o));
						break;
					}
					if (step(S) == Dead) break;
				} catch (Resplit &r) {
					Fork f = std::move(r.f);
					if (f.states.empty()) break; // contradiction
					if (f.states.size() == 1) { S = std::move(f.states[0]); continue; }
					Stops ns = stops;
					int depth = S.fr.size();
					const BasicBlock *mb = S.fr.back().info->ip[S.fr.back().bb];
					if (mb) ns.push_back({0, depth, mb, nullptr}); else ns.push_back({1, depth, nullptr, nullptr});
					std::vector<State> merged;
					for (auto &t : f.states) {
						std::vector<State> r = run(std::move(t), ns);
						for (auto &x : r) {
							if (x.stopIdx == (int)stops.size()) addMerged(merged, std::move(x), mb);
							else done.push_back(std::move(x));
						}
					}
					for (auto &x : merged) work.push_back(std::move(x));
					if (work.size() + done.size() > 40000) throw Budget{"too many abstract states"};
					break;
				} catch (Unsupported &) {
					if (lastLoc.empty()) { std::string c; lastLoc = whereStr(S, nullptr, c); }
					throw;
				} catch (TooBig &) {
					if (lastLoc.empty()) { std::string c; lastLoc = whereStr(S, nullptr, c); }
					throw;
				} catch (Budget &) {
					if (lastLoc.empty() && !S.fr.empty()) { std::string c; lastLoc = whereStr(S, nullptr, c); }
					throw;
				} catch (Bad &b) {
					report(S, b);
					break;
				} catch (DivZero &) {
					report(S, Bad{"division", "division by zero", ""});
					break;
				}
			}
		}
		return done;
	}
	// join states that agree except for what is known about the symbols
	void addMerged(std::vector<State> &v, State x, const BasicBlock *mb)
	{
		if (mb) {
			Frame &f = x.fr.back();
			if (f.bb == mb) {
				const auto &d = domIn(f.info, f.F, mb);
				std::vector<char> keep = d;
				for (auto &phi : mb->phis()) keep[f.info->num[&phi]] = 1;
				for (int i = 0; i < f.info->n; ++i) if (!keep[i]) f.regs[i] = Val();
			}
		}
		size_t lim = 64;
		for (size_t i = v.size() > lim ? v.size() - lim : 0; i < v.size(); ++i)
			if (sameBut(v[i], x)) { joinFacts(v[i], x); ++stats["merges"]; return; }
		v.push_back(std::move(x));
	}
	bool sameBut(const State &a, const State &b)
	{
		if (a.fr.size() != b.fr.size() || a.mem.size() != b.mem.size() || a.heap.size() != b.heap.size()) return false;
		if (a.expectAbort != b.expectAbort || a.noOvf != b.noOvf || a.inlineUC != b.inlineUC) return false;
		for (size_t i = a.fr.size(); i-- > 0;) {
			const Frame &f = a.fr[i], &g = b.fr[i];
			if (f.F != g.F || f.bb != g.bb || f.it != g.it || f.call != g.call) return false;
			for (size_t k = 0; k < f.regs.size(); ++k) if (!veq(f.regs[k], g.regs[k])) return false;
		}
		for (size_t i = a.mem.size(); i-- > 0;) if (!objEq(a.mem[i], b.mem[i])) return false;
		for (size_t i = 0; i < a.heap.size(); ++i) if (!objEq(a.heap[i], b.heap[i])) return false;
		for (size_t i = 0; i < a.glob.size(); ++i) { if (a.glob[i] == b.glob[i]) continue; if (!a.glob[i] || !b.glob[i]) { const ObjP &o = a.glob[i] ? a.glob[i] : b.glob[i]; if (o->constant) continue; return false; } if (!objEq(a.glob[i], b.glob[i])) return false; }
		return true;
	}
	void joinFacts(State &a, const State &b)
	{
		for (auto &x : b.cnt) { int &c = a.cnt[x.first]; c = std::max(c, x.second); }
		for (size_t i = 0; i < a.glob.size(); ++i) if (!a.glob[i]) a.glob[i] = b.glob[i];
		if (a.facts == b.facts) return;
		auto r = std::make_shared<Facts>();
		for (auto &f : *a.facts) {
			Itv o = bounds(b, f.first, 1);
			Itv h = ihull(f.second.i, o);
			Fact g;
			g.i = h;
			for (R v : f.second.ne) {
				if (v < o.lo || v > o.hi) { g.ne.push_back(v); continue; }
				if (const Fact *q = findFact(b, f.first)) for (R u : q->ne) if (u == v) { g.ne.push_back(v); break; }
			}
			if (std::isinf(h.lo) && std::isinf(h.hi) && g.ne.empty()) continue;
			(*r)[f.first] = g;
		}
		for (auto &f : *b.facts) {
			if (r->count(f.first)) continue;
			Itv h = ihull(f.second.i, bounds(a, f.first, 1));
			if (std::isinf(h.lo) && std::isinf(h.hi)) continue;
			(*r)[f.first].i = h;
		}
		a.facts = r;
	}

	bool runEntry(const Function *F)
	{
		State S;
		S.glob.resize(globs.size());
		pushFrame(S, F, nullptr, {});
		run(std::move(S), {});
		return true;
	}
};

static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

#include "effects.h"

int main(int argc, char **argv)
{
	std::string file, entry;
	bool list = false, effects = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--entry") entry = argv[++i];
		else if (a == "--list") list = true;
		else if (a == "--effects") effects = true;
		else if (a == "--repo") repoPrefix = argv[++i];
		else if (a == "--seconds") maxSeconds = atof(argv[++i]);
		else if (a == "--steps") maxSteps = atol(argv[++i]);
		else if (a == "--only") { std::string k = argv[++i]; size_t p = 0; while (p <= k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); onlyKinds.insert(k.substr(p, q - p)); p = q + 1; } }
		else if (a == "-v") verbose = true;
		else file = a;
	}
	ctxInit();
	LLVMContext ctx;
	SMDiagnostic err;
	auto mod = parseIRFile(file, err, ctx);
	if (!mod) { err.print("absint", errs()); return 3; }
	M = mod.get();
	DL = &M->getDataLayout();
	if (list) {
		for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("sa_C")) printf("%s\n", f.getName().str().c_str());
		return 0;
	}
	if (effects) { Effects e; e.run(*M, repoPrefix); return 0; }
	Interp in;
	for (auto &g : M->globals()) { in.globs.push_back(&g); in.globId[&g] = in.globs.size(); }
	const Function *F = M->getFunction(entry);
	if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
	std::string error;
	auto work = [&] {
	try { in.runEntry(F); }
	catch (EnoughViols &) {}
	catch (Unsupported &u) { error = "unsupported: " + u.what; }
	catch (Budget &b) { error = "budget: " + b.what; }
	catch (TooBig &) { error = "budget: polynomial too large"; }
	catch (std::exception &e) { error = std::string("exception: ") + e.what(); }
	};
	// recursion over splits can be deep
	std::function<void()> fw = work;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, size_t(1) << 30);
	pthread_t th;
	if (pthread_create(&th, &at, [](void *p) -> void * { (*(std::function<void()> *)p)(); return nullptr; }, &fw)) return 3;
	pthread_join(th, nullptr);
	std::string j = "{\"entry\":" + jstr(entry) + ",\"error\":" + (error.empty() ? "null" : jstr(error)) + ",\"lastloc\":" + jstr(in.lastLoc);
	j += ",\"seconds\":" + num((R)elapsed()) + ",\"steps\":" + std::to_string(steps) + ",\"obligations\":{";
	bool c = false;
	for (auto &o : obl) { j += (c ? "," : "") + jstr(o.first) + ":" + std::to_string(o.second); c = true; }
	j += "},\"stats\":{"; c = false;
	for (auto &o : stats) { j += (c ? "," : "") + jstr(o.first) + ":" + std::to_string(o.second); c = true; }
	j += "},\"labels\":{"; c = false;
	for (auto &o : in.labels) { j += (c ? "," : "") + jstr(o.first) + ":" + std::to_string(o.second); c = true; }
	j += "},\"functions\":["; c = false;
	for (auto &f : fnsSeen) { j += (c ? "," : "") + jstr(f); c = true; }
	j += "],\"violations\":["; c = false;
	for (auto &v : viols) {
		j += (c ? "," : "") + std::string("{\"kind\":") + jstr(v.kind) + ",\"label\":" + jstr(v.label) + ",\"detail\":" + jstr(v.detail) + ",\"construct\":" + jstr(v.construct) + ",\"where\":" + jstr(v.where) + "}";
		c = true;
	}
	j += "]}";
	printf("%s\n", j.c_str());
	fflush(stdout);
	_exit(error.empty() ? (viols.empty() ? 0 : 1) : 2);
}
