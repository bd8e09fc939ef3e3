// Symbols, monomials and polynomials of the scalar domain.
//
// A scalar is a polynomial with long double coefficients over interned symbols; exponents may be
// negative (Laurent monomials), so division by a monomial is exact.  Everything else that is not
// polynomial is an interned "atom" symbol: inv(p), sqrt(p), cosT(p) (argument in turns), trunc(p)...
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <stdexcept>

typedef long double R;
static const R INF = std::numeric_limits<R>::infinity();

enum Fn { F_NONE, F_INV, F_SQRT, F_COST, F_SINT, F_TAN, F_EXP, F_LOG, F_LOG10, F_POW, F_RINT, F_TRUNC, F_FLOOR, F_FABS,
	F_COPYSIGN, F_ATAN, F_ATAN2, F_SDIV, F_BIT, F_SLICE, F_FBITS, F_UNFBITS, F_WRAP, F_ALIAS, F_ADDR, F_OTHER };
static const char *fnName[] = { "", "inv", "sqrt", "cos2pi", "sin2pi", "tan", "exp", "log", "log10", "pow", "rint", "trunc", "floor", "fabs",
	"copysign", "atan", "atan2", "quot", "bit", "slice", "fbits", "unfbits", "wrap", "alias", "addr", "fn" };

struct PolyRep;
typedef std::shared_ptr<const PolyRep> Poly;
struct Term { int m; R c; };
struct PolyRep { std::vector<Term> t; };

struct Sym {
	std::string name;
	bool isInt = false;
	R lo = -INF, hi = INF;
	Fn fn = F_NONE;
	std::vector<Poly> args;
	int lead = -1; // F_INV: leading monomial of args[0] when used as a rewrite rule
	int aux = 0;
};
struct Mono { std::vector<std::pair<int,int>> f; int deg = 0; bool allInt = true; bool red = false; };

struct MulRes { int m; Poly p; }; // p null: plain monomial m

struct Ctx {
	std::vector<Sym> syms;
	std::map<std::string,int> symIdx;
	std::vector<Mono> monos;
	std::map<std::vector<std::pair<int,int>>,int> monoIdx;
	std::unordered_map<uint64_t,MulRes> mulCache;
	Poly zero, one;
	size_t termLimit = 400000;
};
static Ctx C;

struct TooBig : std::runtime_error { TooBig() : std::runtime_error("polynomial too large") {} };
struct DivZero : std::runtime_error { DivZero() : std::runtime_error("division by zero") {} };

static inline bool isInteger(R x) { return std::fabs(x) < 9.2e18L && x == std::rint(x); }

static inline R addClean(R a, R b)
{
	R s = a + b;
	if (s == 0 || (isInteger(a) && isInteger(b)))
		return s;
	R m = std::max(std::fabs(a), std::fabs(b));
	return std::fabs(s) <= 4e-15L * m ? 0 : s;
}

static int internMono(const std::vector<std::pair<int,int>> &f)
{
	auto it = C.monoIdx.find(f);
	if (it != C.monoIdx.end())
		return it->second;
	Mono m;
	m.f = f;
	for (auto &x : f) {
		m.deg += std::abs(x.second);
		const Sym &s = C.syms[x.first];
		if (!s.isInt || x.second < 0)
			m.allInt = false;
		if (s.fn == F_SQRT || s.fn == F_SINT || s.fn == F_FABS || s.fn == F_INV || s.fn == F_BIT)
			m.red = true;
	}
	int id = C.monos.size();
	C.monos.push_back(m);
	C.monoIdx[f] = id;
	return id;
}

static void ctxInit()
{
	internMono({}); // monomial 0 is the constant one
	C.zero = std::make_shared<PolyRep>();
	auto one = std::make_shared<PolyRep>();
	one->t.push_back({0, 1});
	C.one = one;
}

static Poly pconst(R c)
{
	if (c == 0) return C.zero;
	if (c == 1) return C.one;
	auto p = std::make_shared<PolyRep>();
	p->t.push_back({0, c});
	return p;
}
static inline bool isConst(const Poly &p) { return p->t.empty() || (p->t.size() == 1 && p->t[0].m == 0); }
static inline R constVal(const Poly &p) { return p->t.empty() ? 0 : p->t[0].c; }
static inline bool isZero(const Poly &p) { return p->t.empty(); }
static Poly pmono(int m, R c) { if (c == 0) return C.zero; auto p = std::make_shared<PolyRep>(); p->t.push_back({m, c}); return p; }
static Poly psym(int s) { return pmono(internMono({{s, 1}}), 1); }
static inline R constPart(const Poly &p) { return !p->t.empty() && p->t[0].m == 0 ? p->t[0].c : 0; }
// single plain symbol with coefficient one?
static int asSym(const Poly &p)
{
	if (p->t.size() != 1 || p->t[0].c != 1) return -1;
	const Mono &m = C.monos[p->t[0].m];
	return m.f.size() == 1 && m.f[0].second == 1 ? m.f[0].first : -1;
}

static bool peq(const Poly &a, const Poly &b)
{
	if (a == b) return true;
	if (a->t.size() != b->t.size()) return false;
	for (size_t i = 0; i < a->t.size(); ++i) {
		if (a->t[i].m != b->t[i].m) return false;
		R x = a->t[i].c, y = b->t[i].c;
		if (x != y && !(std::fabs(x - y) <= 4e-15L * std::max(std::fabs(x), std::fabs(y)) && !(isInteger(x) && isInteger(y)))) return false;
	}
	return true;
}

static Poly paddScaled(const Poly &a, const Poly &b, R k)
{
	if (k == 0 || b->t.empty()) return a;
	if (a->t.empty() && k == 1) return b;
	auto r = std::make_shared<PolyRep>();
	r->t.reserve(a->t.size() + b->t.size());
	size_t i = 0, j = 0;
	while (i < a->t.size() || j < b->t.size()) {
		if (j >= b->t.size() || (i < a->t.size() && a->t[i].m < b->t[j].m)) {
			r->t.push_back(a->t[i++]);
		} else if (i >= a->t.size() || b->t[j].m < a->t[i].m) {
			R c = k * b->t[j].c;
			if (c != 0) r->t.push_back({b->t[j].m, c});
			++j;
		} else {
			R c = addClean(a->t[i].c, k * b->t[j].c);
			if (c != 0) r->t.push_back({a->t[i].m, c});
			++i; ++j;
		}
	}
	if (r->t.size() > C.termLimit) throw TooBig();
	if (r->t.empty()) return C.zero;
	return r;
}
static Poly padd(const Poly &a, const Poly &b) { return paddScaled(a, b, 1); }
static Poly psub(const Poly &a, const Poly &b) { return paddScaled(a, b, -1); }
static Poly pscale(const Poly &a, R k)
{
	if (k == 1) return a;
	if (k == 0) return C.zero;
	auto r = std::make_shared<PolyRep>();
	r->t.reserve(a->t.size());
	for (auto &t : a->t) { R c = t.c * k; if (c != 0) r->t.push_back({t.m, c}); }
	return r->t.empty() ? C.zero : Poly(r);
}
static Poly pneg(const Poly &a) { return pscale(a, -1); }

struct Acc { // accumulator of terms
	std::unordered_map<int, std::pair<R,R>> m; // monomial -> sum, magnitude
	void add(int mo, R c)
	{
		auto &x = m[mo];
		R s = x.first + c;
		if (!(isInteger(x.first) && isInteger(c)) && std::fabs(s) <= 4e-15L * std::max(x.second, std::fabs(c))) s = 0;
		x.first = s;
		x.second = std::max(x.second, std::fabs(c));
	}
	void add(const Poly &p, R k) { for (auto &t : p->t) add(t.m, k * t.c); if (m.size() > C.termLimit) throw TooBig(); }
	Poly get()
	{
		auto r = std::make_shared<PolyRep>();
		for (auto &x : m) if (x.second.first != 0) r->t.push_back({x.first, x.second.first});
		std::sort(r->t.begin(), r->t.end(), [](const Term &a, const Term &b) { return a.m < b.m; });
		return r->t.empty() ? C.zero : Poly(r);
	}
};

static Poly pmul(const Poly &a, const Poly &b);
static Poly ppow(const Poly &a, int e);
static Poly mkInv(const Poly &p);

// monomial order used for the rewrite rule lead(p)*inv(p) -> 1 - tail(p)*inv(p)
static bool monoLess(int a, int b)
{
	const Mono &x = C.monos[a], &y = C.monos[b];
	if (x.deg != y.deg) return x.deg < y.deg;
	return x.f < y.f;
}

static MulRes reduceFactors(std::vector<std::pair<int,int>> f)
{
	// f: sorted factors; apply the reductions of the special atoms
	for (size_t i = 0; i < f.size(); ++i) {
		int s = f[i].first, e = f[i].second;
		Fn fn = C.syms[s].fn;
		if (fn == F_SQRT && (e >= 2 || e < 0)) {
			int q = e >= 0 ? e / 2 : -((1 - e) / 2), r = e - 2 * q;
			auto g = f;
			if (r) g[i].second = r; else g.erase(g.begin() + i);
			MulRes b = reduceFactors(g);
			return {0, pmul(ppow(C.syms[s].args[0], q), b.p ? b.p : pmono(b.m, 1))};
		}
		if (fn == F_SINT && e >= 2) {
			auto g = f;
			if (e - 2) g[i].second = e - 2; else g.erase(g.begin() + i);
			MulRes b = reduceFactors(g);
			extern int mkAtomSym(Fn, const std::vector<Poly> &, bool);
			Poly c = psym(mkAtomSym(F_COST, C.syms[s].args, false));
			return {0, pmul(psub(C.one, pmul(c, c)), b.p ? b.p : pmono(b.m, 1))};
		}
		if (fn == F_FABS && (e >= 2 || e <= -2)) {
			int q = (e / 2) * 2, r = e - q;
			auto g = f;
			if (r) g[i].second = r; else g.erase(g.begin() + i);
			MulRes b = reduceFactors(g);
			return {0, pmul(ppow(C.syms[s].args[0], q), b.p ? b.p : pmono(b.m, 1))};
		}
		if (fn == F_BIT && e >= 2) {
			auto g = f;
			g[i].second = 1;
			return reduceFactors(g);
		}
		if (fn == F_INV && e < 0) {
			auto g = f;
			g.erase(g.begin() + i);
			MulRes b = reduceFactors(g);
			return {0, pmul(ppow(C.syms[s].args[0], -e), b.p ? b.p : pmono(b.m, 1))};
		}
		if (fn == F_INV && C.syms[s].lead >= 0) {
			const auto &L = C.monos[C.syms[s].lead].f;
			bool div = true;
			for (auto &x : L) {
				bool ok = false;
				for (auto &y : f) if (y.first == x.first && y.second >= x.second) ok = true;
				if (!ok) { div = false; break; }
			}
			if (div) {
				std::map<int,int> g(f.begin(), f.end());
				for (auto &x : L) if (!(g[x.first] -= x.second)) g.erase(x.first);
				// rest = f / lead (contains inv(p)); lead = p - tail
				std::vector<std::pair<int,int>> rest(g.begin(), g.end());
				auto rest2 = g; // rest / inv(p)
				if (!(rest2[s] -= 1)) rest2.erase(s);
				MulRes a = reduceFactors(std::vector<std::pair<int,int>>(rest2.begin(), rest2.end()));
				MulRes b = reduceFactors(rest);
				Poly tail = psub(C.syms[s].args[0], pmono(C.syms[s].lead, 1));
				Poly A = a.p ? a.p : pmono(a.m, 1), B = b.p ? b.p : pmono(b.m, 1);
				return {0, psub(A, pmul(tail, B))};
			}
		}
	}
	return {internMono(f), nullptr};
}

static const MulRes &mulMono(int a, int b)
{
	if (a > b) std::swap(a, b);
	uint64_t key = (uint64_t(uint32_t(a)) << 32) | uint32_t(b);
	auto it = C.mulCache.find(key);
	if (it != C.mulCache.end())
		return it->second;
	std::vector<std::pair<int,int>> f;
	const auto &x = C.monos[a].f, &y = C.monos[b].f;
	size_t i = 0, j = 0;
	while (i < x.size() || j < y.size()) {
		if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) f.push_back(x[i++]);
		else if (i >= x.size() || y[j].first < x[i].first) f.push_back(y[j++]);
		else {
			int e = x[i].second + y[j].second;
			if (e) f.push_back({x[i].first, e});
			++i; ++j;
		}
	}
	bool red = C.monos[a].red || C.monos[b].red;
	MulRes r = red ? reduceFactors(f) : MulRes{internMono(f), nullptr};
	return C.mulCache[key] = r;
}

static Poly pmul(const Poly &a, const Poly &b)
{
	if (a->t.empty() || b->t.empty()) return C.zero;
	if (isConst(a)) return pscale(b, constVal(a));
	if (isConst(b)) return pscale(a, constVal(b));
	if (a->t.size() == 1 && b->t.size() == 1) {
		const MulRes &r = mulMono(a->t[0].m, b->t[0].m);
		R c = a->t[0].c * b->t[0].c;
		return r.p ? pscale(r.p, c) : pmono(r.m, c);
	}
	if (a->t.size() * b->t.size() > 4000000) throw TooBig();
	Acc acc;
	for (auto &x : a->t)
		for (auto &y : b->t) {
			MulRes r = mulMono(x.m, y.m);
			if (r.p) acc.add(r.p, x.c * y.c); else acc.add(r.m, x.c * y.c);
		}
	if (acc.m.size() > C.termLimit) throw TooBig();
	return acc.get();
}
static Poly pinvMono(const Poly &a)
{
	std::vector<std::pair<int,int>> f = C.monos[a->t[0].m].f;
	for (auto &x : f) x.second = -x.second;
	MulRes r = reduceFactors(f);
	R c = 1 / a->t[0].c;
	return r.p ? pscale(r.p, c) : pmono(r.m, c);
}
static Poly pinv(const Poly &a)
{
	if (a->t.empty()) throw DivZero();
	if (isConst(a)) return pconst(1 / constVal(a));
	if (a->t.size() == 1) return pinvMono(a);
	return mkInv(a);
}
static Poly ppow(const Poly &a, int e)
{
	if (e < 0) return ppow(pinv(a), -e);
	Poly r = C.one, b = a;
	while (e) { if (e & 1) r = pmul(r, b); e >>= 1; if (e) b = pmul(b, b); }
	return r;
}

static std::string num(R c)
{
	char buf[64];
	if (isInteger(c)) snprintf(buf, sizeof buf, "%.0Lf", c);
	else snprintf(buf, sizeof buf, "%.12Lg", c);
	return buf;
}
static std::string pstr(const Poly &p, int maxTerms = 1 << 30);
static std::string sstr(int s)
{
	const Sym &y = C.syms[s];
	return y.name;
}
static std::string mstr(int m)
{
	std::string r;
	for (auto &x : C.monos[m].f) {
		if (!r.empty()) r += "*";
		r += sstr(x.first);
		if (x.second != 1) r += "^" + std::to_string(x.second);
	}
	return r.empty() ? "1" : r;
}
static std::string pstr(const Poly &p, int maxTerms)
{
	if (p->t.empty()) return "0";
	std::string r;
	int n = 0;
	for (auto &t : p->t) {
		if (n++ >= maxTerms) { r += " + ... (" + std::to_string(p->t.size()) + " terms)"; break; }
		if (!r.empty()) r += t.c < 0 ? " - " : " + ";
		else if (t.c < 0) r += "-";
		R a = std::fabs(t.c);
		if (!t.m) r += num(a);
		else if (a == 1) r += mstr(t.m);
		else r += num(a) + "*" + mstr(t.m);
	}
	return r;
}

static int newSym(const std::string &name, bool isInt, R lo, R hi)
{
	auto it = C.symIdx.find(name);
	if (it != C.symIdx.end()) return it->second;
	Sym s;
	s.name = name; s.isInt = isInt; s.lo = lo; s.hi = hi;
	int id = C.syms.size();
	C.syms.push_back(s);
	C.symIdx[name] = id;
	return id;
}

int mkAtomSym(Fn fn, const std::vector<Poly> &args, bool isInt)
{
	std::string name = fnName[fn];
	name += "(";
	for (size_t i = 0; i < args.size(); ++i) name += (i ? "," : "") + pstr(args[i]);
	name += ")";
	auto it = C.symIdx.find(name);
	if (it != C.symIdx.end()) return it->second;
	if (fn == F_COST || fn == F_SINT || fn == F_EXP) {
		// an argument that differs from a known one only by the rounding of its coefficients is the same
		std::string shape = std::to_string(fn);
		for (auto &t : args[0]->t) shape += "," + std::to_string(t.m);
		static std::map<std::string,std::vector<int>> near;
		auto &v = near[shape];
		for (int k : v) {
			const Poly &p = C.syms[k].args[0];
			bool same = true;
			for (size_t j = 0; j < p->t.size() && same; ++j) same = std::fabs(p->t[j].c - args[0]->t[j].c) <= 2e-7L * std::fabs(p->t[j].c);
			if (same) return k;
		}
		v.push_back(C.syms.size());
	}
	Sym s;
	s.name = name; s.isInt = isInt; s.fn = fn; s.args = args;
	if (fn == F_COST || fn == F_SINT) s.lo = -1, s.hi = 1;
	if (fn == F_SQRT || fn == F_FABS || fn == F_EXP || fn == F_POW) s.lo = 0;
	if (fn == F_BIT) s.lo = 0, s.hi = 1;
	int id = C.syms.size();
	C.syms.push_back(s);
	C.symIdx[name] = id;
	return id;
}

static Poly mkInv(const Poly &p0)
{
	Poly p = p0;
	// monomial content
	std::map<int,int> cont;
	bool first = true;
	for (auto &t : p->t) {
		std::map<int,int> m(C.monos[t.m].f.begin(), C.monos[t.m].f.end());
		if (first) { cont = m; first = false; }
		else {
			for (auto &x : cont) { auto it = m.find(x.first); int e = it == m.end() ? 0 : it->second; x.second = std::min(x.second, e); }
			for (auto &x : m) if (!cont.count(x.first) && x.second < 0) cont[x.first] = x.second;
		}
	}
	Poly pre = C.one;
	std::vector<std::pair<int,int>> cf;
	for (auto &x : cont) if (x.second && C.syms[x.first].fn != F_INV && C.syms[x.first].fn != F_SQRT && C.syms[x.first].fn != F_FABS) cf.push_back(x);
	if (!cf.empty()) {
		int m = internMono(cf);
		for (auto &x : cf) x.second = -x.second;
		pre = pmono(internMono(cf), 1);
		(void)m;
		p = pmul(p, pre);
		if (p->t.size() == 1) return pmul(pre, pinvMono(p));
	}
	int lead = -1;
	bool laurent = false;
	for (auto &t : p->t) {
		if (lead < 0 || monoLess(lead, t.m)) lead = t.m;
		for (auto &x : C.monos[t.m].f) if (x.second < 0 || C.syms[x.first].fn == F_INV) laurent = true;
	}
	R lc = 1;
	for (auto &t : p->t) if (t.m == lead) lc = t.c;
	p = pscale(p, 1 / lc);
	int s = mkAtomSym(F_INV, {p}, false);
	if (C.syms[s].lead < 0 && C.syms[s].aux == 0) {
		C.syms[s].aux = 1;
		if (!laurent && p->t.size() <= 6) C.syms[s].lead = lead;
	}
	return pmul(pre, pscale(psym(s), 1 / lc));
}

static bool polyIsInt(const Poly &p)
{
	for (auto &t : p->t) if (!isInteger(t.c) || !C.monos[t.m].allInt) return false;
	return true;
}

static Poly mkTrig(Fn fn, Poly q)
{
	// argument in turns: drop integer-valued parts, split off quarter turns, fix the parity
	auto r = std::make_shared<PolyRep>();
	for (auto &t : q->t) {
		if (t.m && isInteger(t.c) && C.monos[t.m].allInt) continue;
		R c = t.c;
		if (t.m && std::fabs(c - std::rint(c)) < 1e-7L && std::rint(c) != 0 && C.monos[t.m].allInt) continue;
		r->t.push_back({t.m, c});
	}
	q = r;
	R k = constPart(q);
	Poly rest = psub(q, pconst(k));
	k -= std::rint(k);
	if (isZero(rest)) {
		static const R TWOPI = 6.283185307179586476925286766559005768L;
		R k4 = 4 * k;
		if (std::fabs(k4 - std::rint(k4)) < 1e-15L) {
			int n = ((int)std::rint(k4)) & 3;
			static const R cs[4] = {1, 0, -1, 0}, sn[4] = {0, 1, 0, -1};
			return pconst(fn == F_COST ? cs[n] : sn[n]);
		}
		return pconst(fn == F_COST ? std::cos(TWOPI * k) : std::sin(TWOPI * k));
	}
	R sgn = 1;
	R k4 = 4 * k;
	if (std::fabs(k4 - std::rint(k4)) < 1e-7L) {
		int n = ((int)std::rint(k4)) & 3;
		q = rest;
		// cos(x + n/4), sin(x + n/4)
		for (; n; --n) {
			if (fn == F_COST) { fn = F_SINT; sgn = -sgn; } else fn = F_COST;
		}
	} else {
		q = padd(rest, pconst(k));
	}
	// parity by the first non-constant term
	R lc = q->t[0].m ? q->t[0].c : q->t[1].c;
	if (lc < 0) { q = pneg(q); if (fn == F_SINT) sgn = -sgn; }
	return pscale(psym(mkAtomSym(fn, {q}, false)), sgn);
}

static void polySyms(const Poly &p, std::set<int> &out, bool deep = true)
{
	for (auto &t : p->t)
		for (auto &x : C.monos[t.m].f)
			if (out.insert(x.first).second && deep)
				for (auto &a : C.syms[x.first].args) polySyms(a, out, true);
}

// ---- equality modulo the inv atoms -------------------------------------------------------------
static Poly mulOutInv(const Poly &p, int s, int &maxe)
{
	// p * args^maxe, where maxe is the highest power of the inv atom s in p
	maxe = 0;
	for (auto &t : p->t) for (auto &x : C.monos[t.m].f) if (x.first == s) maxe = std::max(maxe, x.second);
	Poly d = C.syms[s].args[0];
	std::vector<Poly> pw{C.one};
	for (int i = 1; i <= maxe; ++i) pw.push_back(pmul(pw.back(), d));
	Acc acc;
	for (auto &t : p->t) {
		std::vector<std::pair<int,int>> f;
		int e = 0;
		auto src = C.monos[t.m].f;
		for (auto &x : src) if (x.first == s) e = x.second; else f.push_back(x);
		acc.add(pmul(pw[maxe - e], pmono(internMono(f), 1)), t.c);
	}
	return acc.get();
}
// one denominator of p: an inv atom or a symbol with negative exponent (-1: none)
static int someDenom(const Poly &p)
{
	int best = -1;
	for (auto &t : p->t)
		for (auto &x : C.monos[t.m].f)
			if ((x.second < 0 || C.syms[x.first].fn == F_INV) && x.first > best) best = x.first;
	return best;
}
static Poly mulOutNeg(const Poly &p, int s, int &e)
{
	e = 0;
	for (auto &t : p->t) for (auto &x : C.monos[t.m].f) if (x.first == s) e = std::max(e, -x.second);
	return pmul(p, pmono(internMono({{s, e}}), 1));
}
static Poly clearInv(Poly p)
{
	// multiply by the denominators until none remains (the sign is not kept)
	for (int guard = 0; guard < 60; ++guard) {
		int s = someDenom(p), e;
		if (s < 0) return p;
		p = C.syms[s].fn == F_INV ? mulOutInv(p, s, e) : mulOutNeg(p, s, e);
	}
	throw TooBig();
}
