// Bounds, decisions, assumptions and substitutions on states.
#pragma once
#include "state.h"

static Poly substPoly(const Poly &p, const std::map<int,Poly> &m, std::map<int,Poly> &memo, const State *S);
static Poly mkFn(Fn fn, std::vector<Poly> a, const State *S);

static Itv bounds(const State &S, const Poly &p, int combo = 2, int depth = 0);

static const Fact *findFact(const State &S, const Poly &dir)
{
	auto it = S.facts->find(dir);
	return it == S.facts->end() ? nullptr : &it->second;
}

static Itv tightenInt(Itv r)
{
	if (!std::isinf(r.lo)) { R c = std::ceil(r.lo - 1e-12L); if (r.ls && std::fabs(c - r.lo) < 1e-12L) c += 1; r.lo = c; r.ls = false; }
	if (!std::isinf(r.hi)) { R f = std::floor(r.hi + 1e-12L); if (r.hs && std::fabs(f - r.hi) < 1e-12L) f -= 1; r.hi = f; r.hs = false; }
	return r;
}

static Itv symBounds(const State &S, int s, int depth)
{
	const Sym &y = C.syms[s];
	Itv r{y.lo, y.hi, false, false};
	Poly ps = psym(s);
	if (const Fact *f = findFact(S, ps)) r = imeet(r, f->i);
	if (y.fn != F_NONE && depth < 8) {
		auto B = [&](int i) { return bounds(S, y.args[i], 0, depth + 1); };
		switch (y.fn) {
		case F_INV: r = imeet(r, iinv(B(0))); break;
		case F_SQRT: { Itv b = B(0); Itv q; q.lo = b.lo > 0 ? std::sqrt(b.lo) : 0; q.ls = b.lo >= 0 && b.ls; q.hi = b.hi < 0 ? 0 : std::isinf(b.hi) ? INF : std::sqrt(b.hi); q.hs = b.hs; r = imeet(r, q); break; }
		case F_RINT: {
			Itv b = B(0);
			R l = std::rint(b.lo), h = std::rint(b.hi);
			if (b.ls && b.lo - std::floor(b.lo) == 0.5L) l = std::floor(b.lo) + 1;
			if (b.hs && b.hi - std::floor(b.hi) == 0.5L) h = std::floor(b.hi);
			r = imeet(r, Itv{l, h, false, false});
			break;
		}
		case F_TRUNC: { Itv b = B(0); R h = std::trunc(b.hi); if (b.hs && h == b.hi && h > 0) h -= 1; R l = std::trunc(b.lo); if (b.ls && l == b.lo && l < 0) l += 1; r = imeet(r, Itv{l, h, false, false}); break; }
		case F_FLOOR: { Itv b = B(0); R h = std::floor(b.hi); if (b.hs && h == b.hi) h -= 1; r = imeet(r, Itv{std::floor(b.lo), h, false, false}); break; }
		case F_FABS: { Itv b = B(0); Itv q = ipow(b, 2); r.lo = std::max(r.lo, q.lo > 0 ? std::sqrt(q.lo) : (R)0); if (q.lo == 0 && r.lo == 0) r.ls = q.ls || iNonzero(b); r = imeet(r, Itv{-INF, std::isinf(q.hi) ? INF : std::max(std::fabs(b.lo), std::fabs(b.hi)), false, q.hs}); break; }
		case F_EXP: { Itv b = B(0); r = imeet(r, Itv{b.lo < -11000 ? 0 : std::exp(b.lo), b.hi > 11000 ? INF : std::exp(b.hi), b.lo < -11000, false}); break; }
		case F_POW: { Itv b = B(0); Itv e = B(1); if (b.lo >= 0 && e.lo == e.hi && e.lo > 0) r = imeet(r, Itv{std::pow(b.lo, e.lo), std::isinf(b.hi) ? INF : std::pow(b.hi, e.lo), b.ls, b.hs}); break; }
		case F_SDIV: { Itv a = B(0), b = B(1); if (b.lo > 0 || b.hi < 0) { Itv q = imul(a, iinv(b)); r = imeet(r, Itv{std::trunc(q.lo), std::trunc(q.hi), false, false}); } break; }
		case F_ALIAS: r = imeet(r, B(0)); break;
		case F_SLICE: r = imeet(r, Itv{0, std::ldexp((R)1, y.aux) - 1, false, false}); break;
		case F_ATAN2: r = imeet(r, Itv{-3.1415926535897932386L, 3.1415926535897932386L, false, false}); break;
		case F_ATAN: r = imeet(r, Itv{-1.5707963267948966193L, 1.5707963267948966193L, false, false}); break;
		default: break;
		}
	}
	if (y.isInt) r = tightenInt(r);
	return r;
}
static Itv monoBounds(const State &S, int m, int depth)
{
	Itv r = ipoint(1);
	for (auto &x : C.monos[m].f)
		r = imul(r, ipow(symBounds(S, x.first, depth), x.second));
	if (C.monos[m].f.size() > 1 || (C.monos[m].f.size() == 1 && C.monos[m].f[0].second != 1))
		if (const Fact *f = findFact(S, pmono(m, 1))) r = imeet(r, f->i);
	return r;
}
static Itv evalBounds(const State &S, const Poly &p, int depth)
{
	Itv r = ipoint(0);
	for (auto &t : p->t)
		r = iadd(r, t.m ? iscale(monoBounds(S, t.m, depth), t.c) : ipoint(t.c));
	if (p->t.size() >= 2 && !S.facts->empty()) {
		Poly d; R sc, k;
		normDir(p, d, sc, k);
		if (d->t.size() >= 1)
			if (const Fact *f = findFact(S, d)) r = imeet(r, iadd(iscale(f->i, sc), ipoint(k)));
	}
	return r;
}
// bounds of a - b from chains of difference facts (shortest paths in the constraint graph)
static Itv chainBounds(const State &S, int a, int b)
{
	struct Edge { int u, v; R w; bool strict; }; // u - v <= w
	static thread_local std::vector<Edge> es;
	es.clear();
	for (auto &f : *S.facts) {
		auto &t = f.first->t;
		if (t.size() != 2 || t[1].c != -1 || t[0].c != 1) continue;
		if (!std::isinf(f.second.i.hi)) es.push_back({t[0].m, t[1].m, f.second.i.hi, f.second.i.hs});
		if (!std::isinf(f.second.i.lo)) es.push_back({t[1].m, t[0].m, -f.second.i.lo, f.second.i.ls});
	}
	Itv r;
	r.lo = -INF; r.hi = INF; r.ls = r.hs = false;
	if (es.size() < 2) return r;
	for (int dir = 0; dir < 2; ++dir) {
		int from = dir ? b : a, to = dir ? a : b;
		std::map<int, std::pair<R,bool>> d; // from - x <= d[x]
		d[from] = {0, false};
		for (size_t round = 0; round < 40; ++round) {
			bool changed = false;
			for (auto &e : es) {
				auto it = d.find(e.u);
				if (it == d.end()) continue;
				R w = it->second.first + e.w;
				bool st = it->second.second || e.strict;
				auto jt = d.find(e.v);
				if (jt != d.end() && (jt->second.first < w || (jt->second.first == w && (jt->second.second || !st)))) continue;
				d[e.v] = {w, st};
				changed = true;
			}
			if (!changed) break;
		}
		auto it = d.find(to);
		if (it == d.end()) continue;
		if (dir) { r.lo = -it->second.first; r.ls = it->second.second; }
		else { r.hi = it->second.first; r.hs = it->second.second; }
	}
	return r;
}
// p = a x + b y + rest for the symbols of the plane, the rest bounded by itself
static bool planar(const State &S, const Poly &p, R &a, R &b, Itv &rest)
{
	a = b = 0;
	rest = ipoint(0);
	for (auto &t : p->t) {
		if (!t.m) { rest = iadd(rest, ipoint(t.c)); continue; }
		auto &f = C.monos[t.m].f;
		if (f.size() != 1 || f[0].second != 1) return false;
		if (f[0].first == S.plane->x) a = t.c;
		else if (f[0].first == S.plane->y) b = t.c;
		else rest = iadd(rest, iscale(symBounds(S, f[0].first, 0), t.c));
	}
	return true;
}
static Itv bounds(const State &S, const Poly &p, int combo, int depth)
{
	if (isConst(p)) return ipoint(constVal(p));
	R pa, pb; Itv rest;
	if (S.plane && planar(S, p, pa, pb, rest)) {
		R lo = INF, hi = -INF;
		for (auto &v : S.plane->v) { R d = pa * v.first + pb * v.second; lo = std::min(lo, d); hi = std::max(hi, d); }
		Itv r = iadd(Itv{lo, hi, false, false}, rest);
		return polyIsInt(p) ? tightenInt(r) : r;
	}
	Itv r = evalBounds(S, p, depth);
	if (combo > 0 && p->t.size() <= 12 && depth < 3) {
		for (auto &f : *S.facts) {
			if (f.first->t.size() < 2 || f.first->t.size() > 12) continue;
			if (std::isinf(f.second.i.lo) && std::isinf(f.second.i.hi)) continue;
			// eliminate a shared monomial
			bool done = false;
			for (auto &t : f.first->t) {
				for (auto &u : p->t) if (u.m && u.m == t.m) {
					R c = u.c / t.c;
					Poly q = paddScaled(p, f.first, -c);
					if (q->t.size() > p->t.size() + 2) break;
					Itv b = iadd(bounds(S, q, combo - 1, depth), iscale(f.second.i, c));
					r = imeet(r, b);
					done = true;
					break;
				}
				if (done && f.first->t.size() > 3) break;
			}
		}
	}
	if (combo >= 2 && depth == 0) {
		int a = 0, b = 0, n = 0; R ca = 0, k = 0;
		bool ok = true;
		for (auto &t : p->t) {
			if (!t.m) { k = t.c; continue; }
			if (n == 0) a = t.m, ca = t.c;
			else if (n == 1 && t.c == -ca) b = t.m;
			else ok = false;
			++n;
		}
		if (ok && n == 2 && S.facts->size() > 2) r = imeet(r, iadd(iscale(chainBounds(S, a, b), ca), ipoint(k)));
	}
	if (polyIsInt(p)) r = tightenInt(r);
	return r;
}

enum Rel { EQ, NE, LT, LE, GT, GE };
static int monoNonzero(const State &S, int m)
{
	for (auto &x : C.monos[m].f) {
		if (x.second < 0) continue; // a division happened, so it is not zero
		if (C.syms[x.first].fn == F_INV) continue;
		if (iNonzero(symBounds(S, x.first, 0))) continue;
		if (const Fact *f = findFact(S, psym(x.first))) {
			bool nz = false;
			for (R v : f->ne) if (v == 0) nz = true;
			if (nz) continue;
		}
		return 0;
	}
	return 1;
}
// q: p times denominators of known sign, same sign as p; false if there are none or their sign is unknown
static bool clearDenoms(const State &S, const Poly &p, Poly &q)
{
	q = p;
	if (someDenom(p) < 0) return false;
	try {
		for (int g = 0; g < 12; ++g) {
			int s = someDenom(q), e;
			if (s < 0) return true;
			bool inv = C.syms[s].fn == F_INV;
			Poly d = inv ? C.syms[s].args[0] : psym(s);
			q = inv ? mulOutInv(q, s, e) : mulOutNeg(q, s, e);
			if (e & 1) {
				Itv db = bounds(S, d, 1);
				if (db.lo >= 0) continue; // divided by it, so it is not zero
				if (db.hi <= 0) { q = pneg(q); continue; }
				return false;
			}
		}
	} catch (TooBig &) {}
	return false;
}
// a factor common to all terms that is known not to be zero can be divided out; negative ones turn the relation
static bool divideContent(const State &S, Poly &p, Rel &rel)
{
	if (p->t.size() < 2 || !p->t[0].m) return false;
	std::vector<std::pair<int,int>> div;
	bool flip = false;
	for (auto &x : C.monos[p->t[0].m].f) {
		int e = x.second;
		for (auto &t : p->t) {
			bool has = false;
			for (auto &y : C.monos[t.m].f) if (y.first == x.first) { has = true; e = x.second > 0 ? std::min(e, y.second) : std::max(e, y.second); if ((y.second > 0) != (x.second > 0)) has = false; }
			if (!has) { e = 0; break; }
		}
		if (!e) continue;
		Itv b = bounds(S, psym(x.first), 0);
		bool pos = b.lo > 0 || (b.lo == 0 && b.ls), neg = b.hi < 0 || (b.hi == 0 && b.hs);
		if (!pos && !neg) {
			if (!(rel == EQ || rel == NE) && e % 2) continue;
			if (!monoNonzero(S, internMono({{x.first, 1}}))) continue;
		} else if (neg && e % 2) flip = !flip;
		div.push_back({x.first, -e});
	}
	if (div.empty()) return false;
	p = pmul(p, pmono(internMono(div), 1));
	if (flip) rel = rel == LT ? GT : rel == GT ? LT : rel == LE ? GE : rel == GE ? LE : rel;
	return true;
}
static int decidePlain(const State &S, const Poly &p, Rel rel);
static int decide(const State &S, const Poly &p, Rel rel)
{
	int d = decidePlain(S, p, rel);
	if (d >= 0) return d;
	Poly q = p;
	if (!divideContent(S, q, rel)) return d;
	return decidePlain(S, q, rel);
}
static int decidePlain(const State &S, const Poly &p, Rel rel)
{
	Itv b;
	if (isConst(p)) b = ipoint(constVal(p));
	else b = bounds(S, p, 0);
	for (int pass = 0; pass < 2; ++pass) {
		bool pos = b.lo > 0 || (b.lo == 0 && b.ls), neg = b.hi < 0 || (b.hi == 0 && b.hs);
		switch (rel) {
		case EQ: if (pos || neg) return 0; if (b.lo == 0 && b.hi == 0) return 1; break;
		case NE: if (pos || neg) return 1; if (b.lo == 0 && b.hi == 0) return 0; break;
		case LT: if (neg) return 1; if (b.lo >= 0) return 0; break;
		case LE: if (b.hi <= 0) return 1; if (pos) return 0; break;
		case GT: if (pos) return 1; if (b.hi <= 0) return 0; break;
		case GE: if (b.lo >= 0) return 1; if (neg) return 0; break;
		}
		if (S.plane) return -1;
		bool nz = false;
		if (p->t.size() == 1 && monoNonzero(S, p->t[0].m)) nz = true;
		if (!nz && !isConst(p)) {
			Poly d; R sc, k;
			normDir(p, d, sc, k);
			if (const Fact *f = findFact(S, d)) for (R v : f->ne) if (std::fabs(v + k / sc) < 1e-15L * std::max((R)1, std::fabs(v))) nz = true;
		}
		if (nz) {
			if (rel == EQ) return 0;
			if (rel == NE) return 1;
			if (rel == LE) { if (b.lo >= 0) return 0; }
			if (rel == GE) { if (b.hi <= 0) return 0; }
			if (rel == GT) { if (b.lo >= 0) return 1; }
			if (rel == LT) { if (b.hi <= 0) return 1; }
		}
		if (pass == 0) {
			if (isConst(p)) break;
			b = bounds(S, p, 2);
		}
	}
	// sign through denominators of known sign
	if (!isConst(p)) {
		Poly q;
		if (clearDenoms(S, p, q)) return decide(S, q, rel);
	}
	return -1;
}

static void factsCow(State &S) { if (S.facts.use_count() > 1) S.facts = std::make_shared<Facts>(*S.facts); }

static bool addFactItv(State &S, const Poly &p, Itv i) // p in i
{
	if (isConst(p)) { R v = constVal(p); R e = 1e-12L * std::max((R)1, std::fabs(v)); return !(v < i.lo - e || v > i.hi + e || (i.ls && v <= i.lo - e) || (i.hs && v >= i.hi + e)); }
	Poly d; R sc, k;
	normDir(p, d, sc, k);
	i = iscale(iadd(i, ipoint(-k)), 1 / sc);
	factsCow(S);
	Fact &f = (*S.facts)[d];
	f.i = imeet(f.i, i);
	return !iempty(f.i);
}

// ---- substitution ------------------------------------------------------------------------------
static Poly substSym(int s, const std::map<int,Poly> &m, std::map<int,Poly> &memo, const State *S)
{
	auto it = m.find(s);
	if (it != m.end()) return it->second;
	auto jt = memo.find(s);
	if (jt != memo.end()) return jt->second;
	const Sym y = C.syms[s];
	Poly r = nullptr; // unchanged
	if (y.fn != F_NONE) {
		bool ch = false;
		std::vector<Poly> a;
		for (auto &x : y.args) { Poly q = substPoly(x, m, memo, S); if (!peq(q, x)) ch = true; a.push_back(q); }
		if (ch) {
			if (y.fn == F_SLICE || y.fn == F_BIT) {
				if (isConst(a[0])) {
					long long v = (long long)constVal(a[0]);
					int k = (int)constVal(a[1]);
					if (y.fn == F_BIT) r = pconst((v >> k) & 1);
					else { int len = (int)constVal(a[2]); r = pconst((R)(((unsigned long long)v >> k) & ((len >= 64) ? ~0ull : ((1ull << len) - 1)))); }
				} else {
					if (asSym(a[0]) < 0) a[0] = psym(mkAtomSym(F_ALIAS, {a[0]}, true));
					int q = mkAtomSym(y.fn, a, true); C.syms[q].aux = y.aux; r = psym(q);
				}
			} else
				r = mkFn(y.fn, a, S);
		}
	}
	memo[s] = r;
	return r;
}
static Poly substPoly(const Poly &p, const std::map<int,Poly> &m, std::map<int,Poly> &memo, const State *S)
{
	bool any = false;
	for (auto &t : p->t) {
		for (auto &x : C.monos[t.m].f) if (substSym(x.first, m, memo, S)) { any = true; break; }
		if (any) break;
	}
	if (!any) return p;
	Acc acc;
	for (auto &t : p->t) {
		Poly r = nullptr;
		std::vector<std::pair<int,int>> keep;
		std::vector<std::pair<Poly,int>> rep;
		std::vector<std::pair<int,int>> ff = C.monos[t.m].f;
		for (auto &x : ff) {
			Poly q = substSym(x.first, m, memo, S);
			if (q) rep.push_back({q, x.second}); else keep.push_back(x);
		}
		if (rep.empty()) { acc.add(t.m, t.c); continue; }
		r = pmono(internMono(keep), t.c);
		for (auto &x : rep) r = pmul(r, ppow(x.first, x.second));
		acc.add(r, 1);
	}
	return acc.get();
}
struct Subst {
	const std::map<int,Poly> &m;
	std::map<int,Poly> memo;
	const State *S;
	Poly operator()(const Poly &p) { return substPoly(p, m, memo, S); }
	Val val(const Val &v)
	{
		Val r = v;
		if (v.p) r.p = (*this)(v.p);
		if (v.bits) {
			bool any = false;
			for (auto &b : *v.bits) if (b.s >= 0 && substSym(b.s, m, memo, S)) any = true;
			if (any) {
				auto nb = std::make_shared<Bits>(*v.bits);
				for (auto &b : *nb) if (b.s >= 0) {
					Poly q = substSym(b.s, m, memo, S);
					if (!q) continue;
					if (isConst(q)) { long long x = (long long)constVal(q); b = {-1, int((x >> b.k) & 1)}; }
					else { int s = asSym(q); if (s < 0) s = mkAtomSym(F_ALIAS, {q}, true); b.s = s; }
				}
				r.bits = nb;
			}
		}
		if (v.agg) {
			auto a = std::make_shared<std::vector<Val>>();
			for (auto &x : *v.agg) a->push_back(val(x));
			r.agg = a;
		}
		return r;
	}
};
static bool vsame(const Val &a, const Val &b) { return a.p == b.p && a.bits == b.bits && (a.k != VAgg || veq(a, b)); }

static void substObjs(std::vector<ObjP> &v, Subst &sub)
{
	for (auto &o : v) {
		if (!o || o->constant) continue;
		std::vector<std::pair<int,Val>> ch;
		for (auto &c : o->cells) { Val n = sub.val(c.second.v); if (!vsame(n, c.second.v)) ch.push_back({c.first, n}); }
		if (ch.empty()) continue;
		if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
		for (auto &x : ch) o->cells[x.first].v = x.second;
	}
}
static bool assume(State &S, Poly p, Rel rel);
static bool substState(State &S, const std::map<int,Poly> &m)
{
	Subst sub{m, {}, &S};
	for (auto &f : S.fr) for (auto &r : f.regs) if (r.k != VNone && r.k != VUndef) r = sub.val(r);
	substObjs(S.glob, sub);
	substObjs(S.mem, sub);
	substObjs(S.heap, sub);
	auto old = S.facts;
	bool any = false;
	for (auto &f : *old) if (!peq(sub(f.first), f.first)) { any = true; break; }
	if (any) {
		S.facts = std::make_shared<Facts>();
		for (auto &f : *old) if (peq(sub(f.first), f.first)) (*S.facts)[f.first] = f.second;
		for (auto &f : *old) {
			Poly q = sub(f.first);
			if (peq(q, f.first)) continue;
			if (!addFactItv(S, q, f.second.i)) return false;
			for (R v : f.second.ne) {
				if (isConst(q)) { if (constVal(q) == v) return false; }
				else {
					Poly d; R sc, k; normDir(q, d, sc, k);
					(*S.facts)[d].ne.push_back((v - k) / sc);
				}
			}
		}
		// single-valued directions that became plain symbols
		for (auto &f : *S.facts) if (iempty(imeet(f.second.i, evalBounds(S, f.first, 0)))) return false;
	}
	// static bounds of the substituted symbols still hold for their values
	for (auto &x : m) {
		const Sym y = C.syms[x.first];
		if (!std::isinf(y.lo) || !std::isinf(y.hi)) {
			if (!addFactItv(S, x.second, Itv{y.lo, y.hi, false, false})) return false;
			if (!isConst(x.second) && iempty(bounds(S, x.second, 0))) return false;
		}
		if (y.isInt && isConst(x.second) && !isInteger(constVal(x.second))) return false;
	}
	return true;
}

static bool occursDeep(const Poly &p, int s) { std::set<int> o; polySyms(p, o, true); return o.count(s); }

// p == 0
static bool assumeEq(State &S, const Poly &p)
{
	if (isConst(p)) return std::fabs(constVal(p)) < 1e-12L;
	if (decide(S, p, EQ) == 0) return false;
	// sum of like-signed even powers
	{
		bool even = true; int sg = 0; std::map<int,Poly> m;
		for (auto &t : p->t) {
			const Mono &mo = C.monos[t.m];
			if (!t.m || mo.f.size() != 1 || mo.f[0].second < 2 || (mo.f[0].second & 1) || C.syms[mo.f[0].first].fn != F_NONE) { even = false; break; }
			int g = t.c > 0 ? 1 : -1;
			if (sg && g != sg) { even = false; break; }
			sg = g;
			m[mo.f[0].first] = C.zero;
		}
		if (even) return substState(S, m);
	}
	// mixed-radix digits
	if (polyIsInt(p) && p->t.size() >= 2) {
		std::vector<std::pair<R,int>> d; bool ok = true;
		for (auto &t : p->t) if (t.m) {
			int s = asSym(pmono(t.m, 1));
			if (s < 0 || C.syms[s].fn != F_NONE || t.c <= 0) { ok = false; break; }
			d.push_back({t.c, s});
		}
		if (ok && d.size() >= 2) {
			std::sort(d.begin(), d.end());
			R k = -constPart(p);
			std::map<int,Poly> m;
			for (size_t i = 0; ok && i < d.size(); ++i) {
				Itv b = symBounds(S, d[i].second, 0);
				if (b.lo < 0 || std::isinf(b.hi)) { ok = false; break; }
				R q = std::trunc(k / d[i].first), dig = q;
				if (i + 1 < d.size()) {
					R ratio = d[i+1].first / d[i].first;
					if (!isInteger(ratio) || b.hi > ratio - 1) { ok = false; break; }
					dig = q - ratio * std::floor(q / ratio);
				}
				if (dig < b.lo || dig > b.hi) return false;
				k -= dig * d[i].first;
				m[d[i].second] = pconst(dig);
			}
			if (ok) { if (k != 0) return false; return substState(S, m); }
		}
	}
	// linear in a base symbol
	int best = -1; R bc = 0; int bestScore = -1;
	for (auto &t : p->t) {
		const Mono &mo = C.monos[t.m];
		if (mo.f.size() != 1 || mo.f[0].second != 1) continue;
		int s = mo.f[0].first;
		if (C.syms[s].fn != F_NONE) continue;
		Poly rest = psub(p, pmono(t.m, t.c));
		if (occursDeep(rest, s)) continue;
		int score = 1;
		if (C.syms[s].isInt) {
			bool divisible = true;
			for (auto &u : rest->t) if (!isInteger(u.c / t.c) || !C.monos[u.m].allInt) divisible = false;
			score = divisible ? 2 : 0;
		} else score = 3;
		if (score > bestScore || (score == bestScore && s > best)) bestScore = score, best = s, bc = t.c;
	}
	if (best >= 0 && bestScore > 0) {
		Poly rest = psub(p, pscale(psym(best), bc));
		std::map<int,Poly> m;
		m[best] = pscale(rest, -1 / bc);
		return substState(S, m);
	}
	return addFactItv(S, p, ipoint(0));
}

static bool assume(State &S, Poly p, Rel rel)
{
	if (rel == GT || rel == GE) { p = pneg(p); rel = rel == GT ? LT : LE; }
	int d = decide(S, p, rel);
	if (d >= 0) return d;
	R pa, pb; Itv rest;
	if (S.plane && rel == LT && polyIsInt(p)) { p = padd(p, C.one); rel = LE; }
	if (S.plane && planar(S, p, pa, pb, rest)) {
		auto q = std::make_shared<Plane>(*S.plane);
		if (rel != NE) q->clip(pa, pb, rest.lo);
		if (rel == EQ) q->clip(-pa, -pb, -rest.hi);
		S.plane = q;
		return !q->v.empty();
	}
	if (divideContent(S, p, rel)) return assume(S, p, rel);
	if (rel == EQ) return assumeEq(S, p);
	if (rel == NE) {
		Poly dir; R sc, k;
		normDir(p, dir, sc, k);
		factsCow(S);
		Fact &f = (*S.facts)[dir];
		f.ne.push_back(-k / sc);
		R v = -k / sc;
		if (f.i.lo == v) f.i.ls = true;
		if (f.i.hi == v) f.i.hs = true;
		Itv b = bounds(S, p, 0);
		if (b.lo == 0 && !b.ls) return addFactItv(S, p, Itv{0, INF, true, false});
		if (b.hi == 0 && !b.hs) return addFactItv(S, p, Itv{-INF, 0, false, true});
		return true;
	}
	if (rel == LT && polyIsInt(p)) { p = padd(p, C.one); rel = LE; }
	// remove positive inverse factors: p = q*inv(d)^e with d of known sign gives a fact on q as well
	if (!addFactItv(S, p, Itv{-INF, 0, false, rel == LT})) return false;
	{
		Poly q;
		if (clearDenoms(S, p, q) && !addFactItv(S, q, Itv{-INF, 0, false, rel == LT})) return false;
	}
	Itv b = bounds(S, p, 0);
	if (iempty(b)) return false;
	// a direction pinned to one value
	Poly dir; R sc, k;
	normDir(p, dir, sc, k);
	Itv f = bounds(S, dir, 0);
	if (!std::isinf(f.lo) && f.lo == f.hi && !f.ls && !f.hs) return assumeEq(S, psub(dir, pconst(f.lo)));
	return true;
}

// ---- atoms with simplification -----------------------------------------------------------------
static Poly mkSqrt(const Poly &p, const State *S)
{
	if (isConst(p)) return pconst(std::sqrt(constVal(p)));
	if (p->t.size() == 1) {
		// perfect square monomial
		auto f = C.monos[p->t[0].m].f;
		bool sq = p->t[0].c > 0;
		for (auto &x : f) if (x.second & 1) sq = false;
		if (sq) {
			Poly r = pconst(std::sqrt(p->t[0].c));
			for (auto &x : f) {
				Poly y = psym(x.first);
				int e = x.second / 2;
				if (e & 1) y = mkFn(F_FABS, {y}, S);
				r = pmul(r, ppow(y, e));
			}
			return r;
		}
	}
	// pull out a positive constant factor so that sqrt(k*p) is canonical
	R c = std::fabs(p->t.back().c);
	Poly q = pscale(p, 1 / c);
	return pscale(psym(mkAtomSym(F_SQRT, {q}, false)), std::sqrt(c));
}
static Poly mkFn(Fn fn, std::vector<Poly> a, const State *S)
{
	bool allc = true;
	for (auto &x : a) if (!isConst(x)) allc = false;
	R c0 = a.empty() ? 0 : constVal(a[0]);
	switch (fn) {
	case F_INV: return pinv(a[0]);
	case F_SQRT: return mkSqrt(a[0], S);
	case F_COST: case F_SINT: return mkTrig(fn, a[0]);
	case F_EXP:
		if (allc) return pconst(std::exp(c0));
		if (constPart(a[0]) != 0) { R k = constPart(a[0]); return pscale(psym(mkAtomSym(F_EXP, {psub(a[0], pconst(k))}, false)), std::exp(k)); }
		break;
	case F_LOG: if (allc && c0 > 0) return pconst(std::log(c0)); break;
	case F_LOG10: if (allc && c0 > 0) return pconst(std::log10(c0)); break;
	case F_TAN: if (allc) return pconst(std::tan(c0)); break;
	case F_POW:
		if (isConst(a[1]) && isInteger(constVal(a[1])) && std::fabs(constVal(a[1])) <= 16) return ppow(a[0], (int)constVal(a[1]));
		if (allc) return pconst(std::pow(c0, constVal(a[1])));
		if (isConst(a[1]) && constVal(a[1]) == 0.5L) return mkSqrt(a[0], S);
		if (isConst(a[1]) && a[0]->t.size() == 1 && a[0]->t[0].c > 0) {
			// pow(c*pow(x,u), v) = c^v * x^(u*v) for x >= 0
			auto &f = C.monos[a[0]->t[0].m].f;
			if (f.size() == 1 && f[0].second == 1 && C.syms[f[0].first].fn == F_POW && isConst(C.syms[f[0].first].args[1])) {
				const Sym y = C.syms[f[0].first];
				R e = constVal(y.args[1]) * constVal(a[1]);
				if (std::fabs(e - std::rint(e)) < 1e-7L) e = std::rint(e);
				return pscale(mkFn(F_POW, {y.args[0], pconst(e)}, S), std::pow(a[0]->t[0].c, constVal(a[1])));
			}
		}
		break;
	case F_RINT: case F_TRUNC: case F_FLOOR:
		if (allc) return pconst(fn == F_RINT ? std::rint(c0) : fn == F_TRUNC ? std::trunc(c0) : std::floor(c0));
		if (polyIsInt(a[0])) return a[0];
		if (S) {
			Itv b = bounds(*S, a[0], 1);
			if (!std::isinf(b.lo) && !std::isinf(b.hi)) {
				if (fn == F_TRUNC) {
					R l = std::trunc(b.lo), h = std::trunc(b.hi);
					if (b.hs && h == b.hi && h > 0) h -= 1;
					if (b.ls && l == b.lo && l < 0) l += 1;
					if (l == h) return pconst(l);
				}
				if (fn == F_FLOOR) { R l = std::floor(b.lo), h = std::floor(b.hi); if (b.hs && h == b.hi) h -= 1; if (l == h) return pconst(l); }
				if (fn == F_RINT) {
					R l = std::rint(b.lo), h = std::rint(b.hi);
					if (b.ls && b.lo - std::floor(b.lo) == 0.5L) l = std::floor(b.lo) + 1;
					if (b.hs && b.hi - std::floor(b.hi) == 0.5L) h = std::floor(b.hi);
					if (l == h) return pconst(l);
				}
			}
		}
		if (fn == F_RINT) {
			// rint(x + integer) = rint(x) + integer
		}
		return psym(mkAtomSym(fn, a, true));
	case F_FABS:
		if (allc) return pconst(std::fabs(c0));
		if (S) { int d = decide(*S, a[0], GE); if (d == 1) return a[0]; if (decide(*S, a[0], LE) == 1) return pneg(a[0]); }
		{
			if (a[0]->t.size() == 1) {
				Poly r = pconst(std::fabs(a[0]->t[0].c));
				auto f = C.monos[a[0]->t[0].m].f;
				if (f.size() == 1 && f[0].second == 1) return pmul(r, psym(mkAtomSym(F_FABS, {psym(f[0].first)}, C.syms[f[0].first].isInt)));
				for (auto &x : f) {
					Poly y = psym(x.first);
					if (x.second & 1) y = mkFn(F_FABS, {y}, S);
					r = pmul(r, ppow(y, x.second));
				}
				return r;
			}
			R s = a[0]->t.back().c;
			Poly q = pscale(a[0], 1 / s);
			return pscale(psym(mkAtomSym(F_FABS, {q}, polyIsInt(q))), std::fabs(s));
		}
	case F_COPYSIGN:
		if (isConst(a[1])) { Poly m = mkFn(F_FABS, {a[0]}, S); return constVal(a[1]) < 0 ? pneg(m) : m; }
		if (S && !isConst(a[1])) {
			if (decide(*S, a[1], GT) == 1) return mkFn(F_FABS, {a[0]}, S);
			if (decide(*S, a[1], LT) == 1) return pneg(mkFn(F_FABS, {a[0]}, S));
		}
		if (isZero(a[0])) return C.zero;
		break;
	case F_ATAN: if (allc) return pconst(std::atan(c0)); break;
	case F_ATAN2: if (allc) return pconst(std::atan2(c0, constVal(a[1]))); break;
	case F_SDIV:
		if (allc && constVal(a[1]) != 0) return pconst(std::trunc(c0 / constVal(a[1])));
		if (isConst(a[1]) && constVal(a[1]) != 0) {
			bool div = true;
			for (auto &t : a[0]->t) if (!isInteger(t.c / constVal(a[1])) || !C.monos[t.m].allInt) div = false;
			if (div) return pscale(a[0], 1 / constVal(a[1]));
		}
		return psym(mkAtomSym(fn, a, true));
	case F_FBITS: {
		int s = asSym(a[0]);
		if (s >= 0 && C.syms[s].fn == F_UNFBITS) return C.syms[s].args[0];
		int r = mkAtomSym(fn, a, true);
		C.syms[r].lo = -2147483648.0L; C.syms[r].hi = 2147483647.0L;
		return psym(r);
	}
	case F_UNFBITS: {
		int s = asSym(a[0]);
		if (s >= 0 && C.syms[s].fn == F_FBITS) return C.syms[s].args[0];
		return psym(mkAtomSym(fn, a, false));
	}
	case F_ALIAS: if (isConst(a[0])) return a[0]; return psym(mkAtomSym(fn, a, true));
	case F_WRAP: case F_ADDR: return psym(mkAtomSym(fn, a, true));
	default: break;
	}
	return psym(mkAtomSym(fn, a, false));
}
