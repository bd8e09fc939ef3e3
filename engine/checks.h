// Part of struct Interp: the comparisons that decide obligations.
	std::map<std::string,long> labels;
	std::string lastLoc;

	static R maxCoef(const Poly &p) { R m = 0; for (auto &t : p->t) m = std::max(m, std::fabs(t.c)); return m; }
	// a == b up to tol (relative to the largest coefficient, or absolute when the difference can be bounded)
	bool equalUpTo(State &S, const Poly &a, const Poly &b, R tol, std::string &why)
	{
		Poly d = psub(a, b);
		if (isZero(d)) return true;
		needLive(d);
		R sc = std::max(maxCoef(a), maxCoef(b));
		if (sc > 0 && maxCoef(d) <= tol * sc && !std::isinf(sc)) {
			if (!isConst(d)) return true;
			if (std::fabs(constVal(d)) <= tol * std::max(std::fabs(constPart(a)), std::fabs(constPart(b))) || std::fabs(constVal(d)) <= tol) return true;
		}
		if (isConst(a) && isConst(b)) { why = num(constVal(a)) + " instead of " + num(constVal(b)); return std::fabs(constVal(d)) <= tol; }
		Itv bd = bounds(S, d, 1);
		if (bd.lo >= -tol && bd.hi <= tol) return true;
		if (someDenom(d) >= 0) {
			static int marker = newSym("$marker", false, -INF, INF);
			try {
				Poly e = clearInv(padd(a, pmul(psym(marker), b)));
				auto A = std::make_shared<PolyRep>(), B = std::make_shared<PolyRep>();
				Acc acB;
				for (auto &t : e->t) {
					auto f = C.monos[t.m].f;
					bool has = false;
					for (size_t i = 0; i < f.size(); ++i) if (f[i].first == marker) { f.erase(f.begin() + i); has = true; break; }
					if (has) acB.add(internMono(f), t.c); else A->t.push_back(t);
				}
				Poly pb = acB.get(), pa = A;
				Poly d2 = psub(pa, pb);
				R s2 = std::max(maxCoef(pa), maxCoef(pb));
				if (isZero(d2) || maxCoef(d2) <= tol * s2) return true;
			} catch (TooBig &) {}
		}
		why = "got " + pstr(a, 12) + " instead of " + pstr(b, 12) + "; difference " + pstr(d, 8);
		return false;
	}
	void checkEq(State &S, const std::string &label, const Val &a, const Val &b, R tol)
	{
		oblige("equal"); ++labels[label];
		if (a.k == VUndef) throw Bad{"uninit", "indeterminate result: " + label, "", a.org};
		if (b.k == VUndef) throw Bad{"uninit", "indeterminate reference: " + label, "", b.org};
		std::string why;
		if (equalUpTo(S, a.p, b.p, tol, why)) return;
		// rounded quantities with few cases left are told apart first
		std::set<int> syms;
		polySyms(psub(a.p, b.p), syms, false);
		for (int s : syms) {
			if (C.syms[s].fn != F_TRUNC && C.syms[s].fn != F_FLOOR && C.syms[s].fn != F_RINT) continue;
			Itv i = bounds(S, psym(s));
			if (i.hi - i.lo <= 16) concretise(S, psym(s));
		}
		throw Bad{"wrong", label, why, a.org ? a.org : b.org};
	}
	void checkLe(State &S, const std::string &label, const Val &a, const Val &b)
	{
		oblige("order"); ++labels[label];
		if (a.k == VUndef || b.k == VUndef) throw Bad{"uninit", "indeterminate result: " + label, "", a.org};
		int d = decide(S, psub(a.p, b.p), LE);
		if (d != 1) {
			Itv i = bounds(S, psub(a.p, b.p), 2);
			if (i.hi <= 1e-12L) return;
			throw Bad{"wrong", label, pstr(psub(a.p, b.p), 12) + " not shown <= 0, bounds [" + num(i.lo) + "," + num(i.hi) + "]", a.org ? a.org : b.org};
		}
	}

	// ---- univariate functions: interval Taylor forms (no sampling) -----------------------------
	// a jet is the list of Taylor coefficients; coefficients are intervals
	typedef std::vector<Itv> Jet;
	static const int ORD = 16;
	static Itv plain(R x) { return ipoint(x); }
	static Jet jconst(R c) { Jet j(ORD + 1, plain(0)); j[0] = plain(c); return j; }
	static Jet jadd(const Jet &a, const Jet &b) { Jet r(ORD + 1); for (int i = 0; i <= ORD; ++i) r[i] = iadd(a[i], b[i]); return r; }
	static Jet jscale(const Jet &a, R k) { Jet r(ORD + 1); for (int i = 0; i <= ORD; ++i) r[i] = iscale(a[i], k); return r; }
	static Jet jmul(const Jet &a, const Jet &b)
	{
		Jet r(ORD + 1, plain(0));
		for (int i = 0; i <= ORD; ++i) for (int j = 0; i + j <= ORD; ++j) {
			if (a[i].lo == 0 && a[i].hi == 0) break;
			if (b[j].lo == 0 && b[j].hi == 0) continue;
			r[i+j] = iadd(r[i+j], imul(a[i], b[j]));
		}
		return r;
	}
	static Jet jinv(const Jet &a)
	{
		Jet r(ORD + 1);
		Itv q = iinv(a[0]);
		r[0] = q;
		for (int n = 1; n <= ORD; ++n) {
			Itv s = plain(0);
			for (int k = 1; k <= n; ++k) s = iadd(s, imul(a[k], r[n-k]));
			r[n] = iscale(imul(s, q), -1);
		}
		return r;
	}
	static Jet jsqrt(const Jet &a)
	{
		Jet r(ORD + 1);
		r[0] = {std::sqrt(std::max((R)0, a[0].lo)), std::sqrt(std::max((R)0, a[0].hi)), false, false};
		Itv q = iscale(iinv(r[0]), 0.5L);
		for (int n = 1; n <= ORD; ++n) {
			Itv s = a[n];
			for (int k = 1; k < n; ++k) s = iadd(s, iscale(imul(r[k], r[n-k]), -1));
			r[n] = imul(s, q);
		}
		return r;
	}
	static Jet jexp(const Jet &a)
	{
		Jet r(ORD + 1);
		r[0] = {std::exp(a[0].lo), std::exp(a[0].hi), false, false};
		for (int n = 1; n <= ORD; ++n) {
			Itv s = plain(0);
			for (int k = 1; k <= n; ++k) s = iadd(s, iscale(imul(a[k], r[n-k]), (R)k));
			r[n] = iscale(s, (R)1 / n);
		}
		return r;
	}
	// integral of d(x)*a'(x) with given value
	static Jet jint(const Jet &d, const Jet &a, Itv v)
	{
		Jet ap(ORD + 1, plain(0));
		for (int i = 0; i < ORD; ++i) ap[i] = iscale(a[i+1], (R)(i + 1));
		Jet m = jmul(d, ap), r(ORD + 1);
		r[0] = v;
		for (int n = 1; n <= ORD; ++n) r[n] = iscale(m[n-1], (R)1 / n);
		return r;
	}
	static Jet jatan(const Jet &a)
	{
		Jet one = jconst(1);
		return jint(jinv(jadd(one, jmul(a, a))), a, {std::atan(a[0].lo), std::atan(a[0].hi), false, false});
	}
	static Jet jlog(const Jet &a) { return jint(jinv(a), a, {std::log(a[0].lo), std::log(a[0].hi), false, false}); }
	static Jet jtrig(const Jet &a, bool cosine) // argument in radians; narrow arguments
	{
		auto rng = [](Itv x, R ph) {
			// cos(x + ph) over x
			R l = x.lo + ph, h = x.hi + ph;
			R cl = std::cos(l), ch = std::cos(h);
			Itv r{std::min(cl, ch), std::max(cl, ch), false, false};
			static const R PI = 3.14159265358979323846264338327950288L;
			if (std::floor(h / PI) != std::floor(l / PI) || h - l > 3) {
				for (R k = std::ceil(l / PI); k <= std::floor(h / PI); k += 1) { R v = std::fmod(std::fabs(k), 2) == 0 ? 1 : -1; r.lo = std::min(r.lo, v); r.hi = std::max(r.hi, v); }
			}
			return r;
		};
		static const R H = 1.57079632679489661923132169163975144L;
		Jet c(ORD + 1), s(ORD + 1);
		c[0] = rng(a[0], 0); s[0] = rng(a[0], -H);
		for (int n = 1; n <= ORD; ++n) {
			Itv x = plain(0), y = plain(0);
			for (int k = 1; k <= n; ++k) { x = iadd(x, iscale(imul(a[k], s[n-k]), (R)k)); y = iadd(y, iscale(imul(a[k], c[n-k]), (R)k)); }
			c[n] = iscale(x, -(R)1 / n); s[n] = iscale(y, (R)1 / n);
		}
		return cosine ? c : s;
	}
	bool jetOf(const Poly &p, int x, const Jet &jx, Jet &out)
	{
		Jet r = jconst(0);
		for (auto &t : p->t) {
			Jet m = jconst(t.c);
			for (auto &f : C.monos[t.m].f) {
				Jet b;
				if (f.first == x) b = jx;
				else {
					const Sym y = C.syms[f.first];
					if (y.fn == F_NONE) return false;
					Jet a;
					if (y.args.size() != 1 || !jetOf(y.args[0], x, jx, a)) return false;
					static const R TWOPI = 6.283185307179586476925286766559005768L;
					if (y.fn == F_INV) b = jinv(a);
					else if (y.fn == F_SQRT) b = jsqrt(a);
					else if (y.fn == F_EXP) b = jexp(a);
					else if (y.fn == F_ATAN) b = jatan(a);
					else if (y.fn == F_LOG) b = jlog(a);
					else if (y.fn == F_LOG10) b = jscale(jlog(a), 1 / std::log((R)10));
					else if (y.fn == F_COST) b = jtrig(jscale(a, TWOPI), true);
					else if (y.fn == F_SINT) b = jtrig(jscale(a, TWOPI), false);
					else return false;
				}
				int e = f.second;
				if (e < 0) { b = jinv(b); e = -e; }
				for (int i = 0; i < e; ++i) m = jmul(m, b);
			}
			r = jadd(r, m);
		}
		out = r;
		return true;
	}
	Jet refJet(const std::string &fn, const Jet &x)
	{
		static const R TWOPI = 6.283185307179586476925286766559005768L;
		if (fn == "cos2pi") return jtrig(jscale(x, TWOPI), true);
		if (fn == "sin2pi") return jtrig(jscale(x, TWOPI), false);
		if (fn == "cos") return jtrig(x, true);
		if (fn == "sin") return jtrig(x, false);
		if (fn == "atan") return jatan(x);
		if (fn == "exp10") return jexp(jscale(x, std::log((R)10)));
		if (fn == "exp") return jexp(x);
		if (fn == "log") return jlog(x);
		if (fn == "10log10") return jscale(jlog(x), 10 / std::log((R)10));
		if (fn == "sqrt") return jsqrt(x);
		throw Unsupported{"reference function " + fn};
	}
	// sup |p(x) - ref(x)| over x in [lo, hi]; relative: divided by |ref|
	void checkFn(State &S, const std::string &label, const Poly &p, const std::string &fn, int x, R lo, R hi, R tol, bool rel, const Instruction *org)
	{
		oblige("function"); ++labels[label];
		if (std::isinf(lo) || std::isinf(hi)) throw Bad{"wrong", label, "argument of " + fn + " not bounded"};
		if (lo > hi) return;
		R worst = 0, at = lo;
		for (int parts = 1; parts <= (lo == hi ? 1 : 256); parts *= 4) {
		worst = 0;
		for (int i = 0; i < parts; ++i) {
			R a = lo + (hi - lo) * i / parts, b = lo + (hi - lo) * (i + 1) / parts, c = (a + b) / 2, h = (b - a) / 2;
			Jet xi = jconst(0), xc = jconst(c), vi, vc;
			xi[0] = {a, b, false, false};
			xi[1] = xc[1] = plain(1);
			if (!jetOf(p, x, xi, vi) || !jetOf(p, x, xc, vc)) throw Bad{"wrong", label, "value is not a function of the argument alone: " + pstr(p, 10), org};
			Jet ri = refJet(fn, xi), rc = refJet(fn, xc);
			R e = 0, hp = 1;
			for (int k = 0; k < ORD; ++k) {
				Itv d = iadd(vc[k], iscale(rc[k], -1));
				e += std::max(std::fabs(d.lo), std::fabs(d.hi)) * hp;
				hp *= h;
			}
			Itv d = iadd(vi[ORD], iscale(ri[ORD], -1));
			e += std::max(std::fabs(d.lo), std::fabs(d.hi)) * hp;
			if (rel) {
				R m = std::min(std::fabs(ri[0].lo), std::fabs(ri[0].hi));
				e /= m > 0 ? m : 1e-30L;
			}
			if (!(e <= worst)) worst = e, at = c;
			if (!(e <= tol) && parts < 256 && lo != hi) break;
		}
		if (worst <= tol) break;
		}
		if (!(worst <= tol)) throw Bad{"wrong", label, "deviation from " + fn + " up to " + num(worst) + " near argument " + num(at) + ", value " + pstr(p, 10), org};
	}
