// Part of struct Interp: calls - analysis intrinsics, library functions, summaries.
	void kill(State &S, const char *kind, const std::string &label, const std::string &detail) { throw Bad{kind, label, detail}; }
	std::string argStr(State &S, const CallBase *c, int i) { return cstr(S, get(S, c->getArgOperand(i))); }

	Res advance(State &S) { ++S.fr.back().it; return Cont; }
	Res retVal(State &S, const CallBase *c, Val v) { if (!c->getType()->isVoidTy()) set(S, c, v); return advance(S); }

	Res doIntrinsic(State &S, const CallBase *c, const std::string &n)
	{
		auto A = [&](int i) { return get(S, c->getArgOperand(i)); };
		auto K = [&](int i) { return asConstArg(A(i), "intrinsic argument"); };
		if (n == "sa_real") return retVal(S, c, vflt(freshSym(S, argStr(S, c, 0), false, -INF, INF, c)));
		if (n == "sa_real_in") {
			std::string nm = argStr(S, c, 0);
			return retVal(S, c, vflt(freshSym(S, nm, false, K(1), K(2), c)));
		}
		if (n == "sa_int_in") {
			std::string nm = argStr(S, c, 0);
			R lo = K(1), hi = K(2);
			if (lo == hi) return retVal(S, c, vintc(lo, 32));
			return retVal(S, c, vint(freshSym(S, nm, true, lo, hi, c), 32));
		}
		if (n == "sa_choose") {
			Fork f; f.merge = nullptr;
			int k = (int)K(0);
			for (int i = 0; i < k; ++i) { State T = S; set(T, c, vintc(i, 32)); ++T.fr.back().it; f.states.push_back(std::move(T)); }
			throw Resplit{std::move(f)};
		}
		if (n == "sa_assume") {
			Val v = A(0);
			if (!isConst(v.p)) concretise(S, v.p);
			if (constVal(v.p) == 0) return Dead;
			return advance(S);
		}
		if (n == "sa_check") {
			Val v = A(1);
			std::string l = argStr(S, c, 0);
			oblige("condition"); ++labels[l];
			if (v.k == VUndef) throw Bad{"uninit", "indeterminate result: " + l, ""};
			if (!isConst(v.p)) concretise(S, v.p);
			if (constVal(v.p) == 0) throw Bad{"wrong", l, "condition does not hold under " + factStr(S)};
			return advance(S);
		}
		if (n == "sa_check_eq") { checkEq(S, argStr(S, c, 0), A(1), A(2), K(3)); return advance(S); }
		if (n == "sa_check_eqi") { checkEq(S, argStr(S, c, 0), A(1), A(2), 0); return advance(S); }
		if (n == "sa_check_le") { checkLe(S, argStr(S, c, 0), A(1), A(2)); return advance(S); }
		if (n == "sa_check_init") { // every byte of an object holds a value
			Val p = A(1);
			long sz = (long)K(2);
			std::string l = argStr(S, c, 0);
			oblige("initialised"); ++labels[l];
			long off = checkAccess(S, p, sz, "read", false);
			ObjP o = slot(S, p.obj);
			for (long i = off; i < off + sz; ++i) if (!o->st[i]) throw Bad{"uninit", l, "byte " + std::to_string(i - off) + " is indeterminate"};
			return advance(S);
		}
		if (n == "sa_check_fn" || n == "sa_check_fnrel") { // label, value, fn, x, tol
			Val v = A(1), x = A(3);
			std::string l = argStr(S, c, 0), fn = argStr(S, c, 2);
			need(v, "a result");
			int s = asSym(x.p);
			if (isConst(x.p)) { static int dummy = newSym("$x", false, -INF, INF); checkFn(S, l, v.p, fn, dummy, constVal(x.p), constVal(x.p), K(4), n == "sa_check_fnrel", v.org); return advance(S); }
			if (s < 0) throw Unsupported{"argument of a reference function must be a plain symbol"};
			Itv b = bounds(S, x.p, 2);
			checkFn(S, l, v.p, fn, s, b.lo, b.hi, K(4), n == "sa_check_fnrel", v.org);
			return advance(S);
		}
		if (n == "sa_check_fn2") { // label, value, fn, n, N, tol: value is fn(n/N)
			Val v = A(1), a = A(3), b = A(4);
			std::string l = argStr(S, c, 0), fn = argStr(S, c, 2);
			need(v, "a result");
			static int u = newSym("$u", false, -INF, INF);
			R lo = -INF, hi = INF;
			int sn = asSym(a.p), sN = asSym(b.p);
			Poly pn = a.p, pN = b.p;
			Poly q;
			if (isConst(b.p) || sN < 0) {
				throw Unsupported{"circle size must be a plain symbol"};
			}
			if (isConst(pn)) { if (!isZero(pn)) throw Unsupported{"constant position"}; q = v.p; lo = hi = 0; }
			else {
				// position linear in N (after an equality) or an independent symbol
				if (sn < 0) {
					R k = 0;
					if (pn->t.size() == 1 && peq(pn, pscale(pN, pn->t[0].c))) k = pn->t[0].c; else throw Unsupported{"position " + pstr(pn)};
					lo = hi = k;
					q = v.p;
				} else {
					for (auto &f : *S.facts) {
						R cn = 0, cN = 0; bool other = false;
						for (auto &t : f.first->t) { int y = asSym(pmono(t.m, 1)); if (y == sn) cn = t.c; else if (y == sN) cN = t.c; else other = true; }
						if (other || cn == 0) continue;
						// lo <= cn n + cN N <= hi;   N >= 1
						Itv I = f.second.i;
						auto upper = [&](R k) { // cn u + cN <= k/N
							R m = k <= 0 ? 0 : std::isinf(k) ? INF : k;
							R r = (m - cN) / cn;
							if (cn > 0) hi = std::min(hi, r); else lo = std::max(lo, r);
						};
						auto lower = [&](R k) {
							R m = k >= 0 ? 0 : std::isinf(k) ? -INF : k;
							R r = (m - cN) / cn;
							if (cn > 0) lo = std::max(lo, r); else hi = std::min(hi, r);
						};
						if (!std::isinf(I.hi)) upper(I.hi);
						if (!std::isinf(I.lo)) lower(I.lo);
					}
					Itv bn = bounds(S, pn, 0);
					if (bn.lo >= 0) lo = std::max(lo, (R)0);
					if (bn.hi <= 0) hi = std::min(hi, (R)0);
				}
				std::map<int,Poly> m;
				if (sn >= 0) m[sn] = pmul(psym(u), pN);
				std::map<int,Poly> memo;
				q = sn >= 0 ? substPoly(v.p, m, memo, nullptr) : v.p;
			}
			checkFn(S, l, q, fn, u, lo, hi, K(5), false, v.org);
			return advance(S);
		}
		if (n == "sa_bound") { // refine: value known to be within [lo,hi]; obligation proved, then recorded
			return advance(S);
		}
		if (n == "sa_expect_abort") { S.expectAbort = K(0) != 0; return advance(S); }
		if (n == "sa_precision") { precision = (int)K(0); return advance(S); }
		if (n == "sa_check_error") { // label, value, exact value, units
			Val a = A(1), b = A(2);
			std::string l = argStr(S, c, 0);
			need(a, "a result"); need(b, "a result");
			R units = K(3);
			oblige("rounding"); ++labels[l];
			Itv i = bounds(S, psub(a.p, b.p));
			R m = std::ldexp(std::max(std::fabs(i.lo), std::fabs(i.hi)), 30);
			if (verbose) fprintf(stderr, "%s: %Lg of %Lg\n", l.c_str(), m, units);
			if (!(m <= units)) throw Bad{"wrong", l, "may be off by " + num(m) + " units of roundoff, " + num(units) + " are allowed"};
			return advance(S);
		}
		if (n == "sa_rounding") { rounding = (int)K(0); return advance(S); }
		if (n == "sa_gain") { gain = A(0).p; return advance(S); }
		if (n == "sa_plane") {
			int x = asSym(A(0).p), y = asSym(A(1).p);
			if (x < 0 || y < 0) throw Unsupported{"a plane of other than plain values"};
			auto q = std::make_shared<Plane>();
			Itv a = bounds(S, A(0).p, 0), b = bounds(S, A(1).p, 0);
			q->x = x; q->y = y;
			q->v = {{a.lo, b.lo}, {a.hi, b.lo}, {a.hi, b.hi}, {a.lo, b.hi}};
			S.plane = q;
			return advance(S);
		}
		if (n == "sa_check_angle") { // the direction of every point that is left, in parts of a turn
			std::string l = argStr(S, c, 0);
			Val a = A(1);
			R N = K(2), tol = constVal(A(3).p);
			need(a, "a comparison");
			oblige("angle"); ++labels[l];
			if (!S.plane) throw Unsupported{"an angle without a plane"};
			if (!isConst(a.p)) throw Bad{"angle", l, "the result is not one value on this path: " + pstr(a.p, 6)};
			R u = 6.283185307179586476925286766559005768L / N, mid = constVal(a.p) * u, lo = mid - tol * u, hi = mid + tol * u;
			for (auto &v : S.plane->v) {
				R x = v.first, y = v.second, r = std::hypot(x, y);
				bool ok = std::cos(lo) * y - std::sin(lo) * x >= -1e-12L * r && std::cos(hi) * y - std::sin(hi) * x <= 1e-12L * r && std::cos(mid) * x + std::sin(mid) * y > 0;
				if (!ok) throw Bad{"angle", l, num(constVal(a.p)) + " for points up to (" + num(x) + ", " + num(y) + "), whose angle is " + num(std::remainder(std::atan2(y, x) / u, N))};
			}
			return advance(S);
		}
		if (n == "sa_large") {
			Poly p = freshSym(S, argStr(S, c, 0), false, -INF, INF, c);
			large.insert(asSym(p));
			return retVal(S, c, vflt(p));
		}
		if (n == "sa_check_rounded") { // the exact value but for at most one error
			Val v = A(1);
			std::string l = argStr(S, c, 0);
			oblige("equal"); ++labels[l];
			if (v.k == VUndef) throw Bad{"uninit", "indeterminate result: " + l, ""};
			Poly d = v.p;
			for (int i = 0; i < (int)K(2); ++i) d = psub(d, A(3 + i).p);
			if (!(isZero(d) || (d->t.size() == 1 && std::fabs(d->t[0].c) == 1 && errors.count(asSym(d->t[0].c < 0 ? pneg(d) : d)))))
				throw Bad{"wrong", l, "the exact sum is missed by " + pstr(d, 8)};
			return advance(S);
		}
		if (n == "sa_no_overflow") { S.noOvf = K(0) != 0; return advance(S); }
		if (n == "sa_inline_uc") { S.inlineUC = K(0) != 0; return advance(S); }
		if (n == "sa_fail") throw Bad{"wrong", argStr(S, c, 0), "reached under " + factStr(S)};
		if (n == "sa_trace") {
			if (verbose) {
				fprintf(stderr, "TRACE %s", argStr(S, c, 0).c_str());
				for (unsigned i = 1; i < c->arg_size(); ++i) { Val v = A(i); fprintf(stderr, " %s", v.k == VUndef ? "undef" : v.p ? pstr(v.p, 20).c_str() : "-"); if (v.p) { Itv b = bounds(S, v.p, 2); fprintf(stderr, " [%s,%s]", num(b.lo).c_str(), num(b.hi).c_str()); } }
				fprintf(stderr, "   | %s\n", factStr(S).c_str());
			}
			return advance(S);
		}
		if (n == "sa_turn_cos" || n == "sa_turn_sin") {
			Val v = A(0); need(v, "a mathematical function");
			return retVal(S, c, vflt(mkFn(n == "sa_turn_cos" ? F_COST : F_SINT, {v.p}, &S)));
		}
		throw Unsupported{"intrinsic " + n};
	}
	std::string factStr(const State &S)
	{
		std::string r;
		int n = 0;
		for (auto &f : *S.facts) {
			if (std::isinf(f.second.i.lo) && std::isinf(f.second.i.hi) && f.second.ne.empty()) continue;
			if (n++ > 12) { r += " ..."; break; }
			std::string e;
			if (!std::isinf(f.second.i.lo)) e += num(f.second.i.lo) + (f.second.i.ls ? " < " : " <= ");
			e += pstr(f.first, 6);
			if (!std::isinf(f.second.i.hi)) e += (f.second.i.hs ? " < " : " <= ") + num(f.second.i.hi);
			for (R v : f.second.ne) e += " != " + num(v);
			r += (r.empty() ? "" : "; ") + e;
		}
		return r.empty() ? "no conditions" : r;
	}

	Res doCall(State &S, const CallBase *c)
	{
		const Value *cv = c->getCalledOperand();
		if (isa<InlineAsm>(cv)) throw Unsupported{"inline assembly"};
		const Function *F = dyn_cast<Function>(cv->stripPointerCasts());
		if (!F) {
			Val v = get(S, cv);
			need(v, "an indirect call");
			if (v.k != VFn) throw Bad{"memory", "call through something that is not a function", ""};
			F = cast<Function>(v.fn);
		}
		StringRef nm = F->getName();
		std::string n = nm.str();
		auto A = [&](int i) { return get(S, c->getArgOperand(i)); };
		auto sizeArg = [&](int i) { Val v = A(i); need(v, "a size"); if (!isConst(v.p)) concretise(S, v.p); return (long)constVal(v.p); };
		if (nm.starts_with("llvm.")) {
			if (nm.starts_with("llvm.dbg.") || nm.starts_with("llvm.lifetime.") || nm == "llvm.assume" || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant")) return advance(S);
			if (nm.starts_with("llvm.memcpy.") || nm.starts_with("llvm.memmove.")) { long k = sizeArg(2); copyMem(S, A(0), A(1), k); return advance(S); }
			if (nm.starts_with("llvm.memset.")) { long k = sizeArg(2); setMem(S, A(0), A(1), k); return advance(S); }
			if (nm == "llvm.trap" || nm == "llvm.ubsantrap") return aborted(S, "trap");
			if (nm.starts_with("llvm.stacksave")) return retVal(S, c, vptr(0, C.zero));
			if (nm.starts_with("llvm.stackrestore")) return advance(S);
			if (nm.starts_with("llvm.expect.")) return retVal(S, c, A(0));
			if (nm.starts_with("llvm.is.constant.")) return retVal(S, c, vintc(0, 1));
			if (nm.starts_with("llvm.objectsize.")) return retVal(S, c, vintc(-1, 64));
			if (nm.starts_with("llvm.eh.typeid")) return retVal(S, c, vintc(1, 32));
			if (nm.starts_with("llvm.umul.with.overflow") || nm.starts_with("llvm.smul.with.overflow") || nm.starts_with("llvm.uadd.with.overflow")) {
				Val a = A(0), b = A(1);
				need(a, "a size"); need(b, "a size");
				Poly p = nm.contains("mul") ? pmul(a.p, b.p) : padd(a.p, b.p);
				Itv bd = bounds(S, p, 1);
				if (bd.lo < 0 || bd.hi >= lim(a.w)) {
					if (isConst(p)) { auto r = std::make_shared<std::vector<Val>>(); r->push_back(wrapConst(constVal(p), a.w)); r->push_back(vintc(-1, 1)); Val v; v.k = VAgg; v.agg = r; return retVal(S, c, v); }
					throw Bad{"overflow", "size computation may overflow", pstr(p, 6)};
				}
				auto r = std::make_shared<std::vector<Val>>();
				r->push_back(vint(p, a.w)); r->push_back(vintc(0, 1));
				Val v; v.k = VAgg; v.agg = r;
				return retVal(S, c, v);
			}
			if (nm.starts_with("llvm.smax.") || nm.starts_with("llvm.smin.") || nm.starts_with("llvm.umax.") || nm.starts_with("llvm.umin.")) {
				Val a = A(0), b = A(1);
				need(a, "arithmetic"); need(b, "arithmetic");
				int d = decide(S, psub(a.p, b.p), LE);
				if (d < 0) splitSign(S, psub(a.p, b.p));
				bool mn = nm.contains("min");
				return retVal(S, c, (d == 1) == mn ? a : b);
			}
			std::string base = n.substr(5, n.find('.', 5) - 5);
			std::vector<Val> as;
			for (unsigned i = 0; i < c->arg_size(); ++i) as.push_back(A(i));
			bool known;
			if (!as.empty() && as[0].k == VAgg) throw Unsupported{n};
			Val v = math(S, base, as, c, known);
			if (known) splitRounded(S, v);
			if (known) return retVal(S, c, v);
			throw Unsupported{"intrinsic " + n};
		}
		if (nm.starts_with("sa_") && F->isDeclaration()) return doIntrinsic(S, c, n);
		if (!F->isDeclaration()) {
			FnInfo *fi = getInfo(F);
			std::vector<Val> as;
			for (unsigned i = 0; i < c->arg_size(); ++i) as.push_back(A(i));
			if (fi->uc && !S.inlineUC) {
				Val a = as[as.size() - 2], b = as[as.size() - 1];
				need(a, "a position on the circle"); need(b, "a circle size");
				++labels["unit circle summary"];
				oblige("precondition");
				if (decide(S, psub(b.p, C.one), GE) != 1) throw Bad{"wrong", "unit circle of size < 1", pstr(b.p, 6)};
				if (decide(S, psub(a.p, b.p), LE) != 1 || decide(S, padd(a.p, b.p), GE) != 1) throw Bad{"wrong", "unit circle position outside the circle", pstr(a.p, 6) + " of " + pstr(b.p, 6)};
				Val v = vflt(mkFn(fi->uc == 1 ? F_COST : F_SINT, {pmul(a.p, pinv(b.p))}, &S));
				v.org = c;
				return retVal(S, c, v);
			}
			pushFrame(S, F, c, as);
			return Cont;
		}
		// library functions
		if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") {
			long k = sizeArg(0);
			if (k < 0 || k > (1l << 28)) throw Bad{"memory", "allocation of an unreasonable size", std::to_string(k)};
			auto o = newObj(k, "heap@" + locOf(c).substr(locOf(c).rfind('/') + 1));
			o->heap = true;
			S.heap.push_back(o);
			return retVal(S, c, vptr(HEAP0 + S.heap.size() - 1, C.zero));
		}
		if (nm.starts_with("_ZdlPv") || nm.starts_with("_ZdaPv") || n == "free") {
			Val p = A(0);
			need(p, "delete");
			if (p.k == VPtr && p.obj == 0) return advance(S);
			oblige("bounds");
			if (p.k != VPtr || p.obj < HEAP0 || !isZero(p.p)) throw Bad{"memory", "delete of something that was not allocated", ""};
			ObjP &o = writable(S, p.obj);
			if (!o->live) throw Bad{"memory", "double delete", o->name};
			o->live = false;
			return advance(S);
		}
		if (n == "memcpy" || n == "memmove") { long k = sizeArg(2); copyMem(S, A(0), A(1), k); return retVal(S, c, A(0)); }
		if (n == "memset") { long k = sizeArg(2); setMem(S, A(0), A(1), k); return retVal(S, c, A(0)); }
		if (n == "strlen") return retVal(S, c, vintc((R)cstr(S, A(0)).size(), 64));
		if (n == "__assert_fail" || n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || nm.starts_with("_ZSt20__throw_") || nm.contains("__throw_")) {
			std::string what = n == "__assert_fail" ? "assertion failed: " + argStr(S, c, 0) : "call of " + demangle(n);
			return aborted(S, what);
		}
		if (n == "__cxa_guard_acquire") {
			Val p = A(0);
			long off = checkAccess(S, p, 1, "read", false);
			Val v = loadScalar(S, *slot(S, p.obj), off, Type::getInt8Ty(M->getContext()));
			return retVal(S, c, vintc(vconst(v) && constVal(v.p) == 0 ? 1 : 0, 32));
		}
		if (n == "__cxa_guard_release") {
			Val p = A(0);
			long off = checkAccess(S, p, 1, "write", true);
			putCell(S, *writable(S, p.obj), off, 1, vintc(1, 8));
			return advance(S);
		}
		if (n == "__cxa_atexit") return retVal(S, c, vintc(0, 32));
		if (n == "__cxa_pure_virtual") throw Bad{"memory", "call of a pure virtual function", ""};
		std::vector<Val> as;
		for (unsigned i = 0; i < c->arg_size(); ++i) as.push_back(A(i));
		std::string b = n;
		bool known = false;
		Val v;
		if (c->getType()->isFloatingPointTy() || n == "lrint" || n == "lrintf" || n == "abs") {
			v = math(S, b, as, c, known);
			if (!known && !b.empty() && (b.back() == 'f' || b.back() == 'l')) { b.pop_back(); v = math(S, b, as, c, known); }
			if (!known && n == "ldexp") { v = vflt(pscale(as[0].p, std::ldexp((R)1, (int)asConstArg(as[1], "exponent")))); known = true; }
		}
		if (known) splitRounded(S, v);
		if (known) return retVal(S, c, v);
		throw Unsupported{"external function " + demangle(n)};
	}
	// a rounded value with few cases is split where it is computed, before it enters products
	void splitRounded(State &S, Val &v)
	{
		int y = v.p ? asSym(v.p) : -1;
		if (y < 0 || (C.syms[y].fn != F_RINT && C.syms[y].fn != F_FLOOR && C.syms[y].fn != F_TRUNC)) return;
		Itv b = bounds(S, v.p);
		if (b.lo == b.hi) v.p = pconst(b.lo);
		else if (b.hi - b.lo <= 2) concretise(S, v.p);
	}
	Res aborted(State &S, const std::string &what)
	{
		if (S.expectAbort) { ++labels["expected abort"]; oblige("abort"); return Dead; }
		throw Bad{"abort", what, "under " + factStr(S)};
	}
	void setMem(State &S, const Val &d, const Val &v, long n)
	{
		if (!n) return;
		long off = checkAccess(S, d, n, "write", true);
		ObjP &o = writable(S, d.obj);
		need(v, "memset");
		clearRange(S, *o, off, n);
		if (vconst(v) && constVal(v.p) == 0) { for (long i = 0; i < n; ++i) o->st[off+i] = 1; return; }
		for (long i = 0; i < n; ++i) { o->st[off+i] = 2; o->cells[off+i] = Cell{1, castInt(S, v, 8, false)}; }
	}
