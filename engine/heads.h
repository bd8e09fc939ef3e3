// Part of struct Interp: fixpoints at marked loop heads.
	bool isHead(const CallBase *c)
	{
		const Function *f = c->getCalledFunction();
		return f && f->isDeclaration() && (f->getName() == "sa_head" || f->getName() == "sa_head_order");
	}
	struct Slots {
		std::string key;
		std::vector<Val> v;           // slot values
		std::vector<Val*> ref;        // where they live (only valid for writable walks)
	};
	// enumerate everything that is not part of the key; fn may replace a value
	void walkVal(Val &v, std::string &key, const std::function<void(Val &)> &fn, bool order)
	{
		switch (v.k) {
		case VUndef: key += "u;"; break;
		case VNone: key += "n;"; break;
		case VInt:
			// large integers are data, not positions, when only the order matters
			if (isConst(v.p) && !(order && std::fabs(constVal(v.p)) >= 1048576)) { key += std::to_string((long long)constVal(v.p)); key += 'i'; }
			else { key += "I" + std::to_string(v.w) + ";"; fn(v); }
			break;
		case VFlt: key += "F;"; fn(v); break;
		case VPtr:
			key += "p" + std::to_string(v.obj) + ":";
			if (isConst(v.p)) key += std::to_string((long long)constVal(v.p)) + ";"; else { key += "?;"; fn(v); }
			break;
		case VFn: key += "f" + v.fn->getName().str() + ";"; break;
		case VAgg: {
			key += "[";
			auto a = std::make_shared<std::vector<Val>>(*v.agg);
			for (auto &x : *a) walkVal(x, key, fn, order);
			v.agg = a;
			key += "]";
			break;
		}
		}
	}
	void walkState(State &S, std::string &key, const std::function<void(Val &)> &fn, bool order)
	{
		for (auto &f : S.fr) {
			key += "|";
			for (auto &r : f.regs) if (r.k == VNone) key += "n"; else walkVal(r, key, fn, order);
		}
		auto objs = [&](std::vector<ObjP> &v) {
			for (auto &o : v) {
				key += "/";
				if (!o) { key += "0"; continue; }
				if (o->constant) continue;
				key += o->live ? "L" : "D";
				if (!o->live) continue;
				o = std::make_shared<Obj>(*o);
				// byte states not covered by cells
				for (int i = 0; i < o->size;) { int j = i; while (j < o->size && o->st[j] == o->st[i]) ++j; key += char('a' + o->st[i]); key += std::to_string(j - i); i = j; }
				for (auto &c : o->cells) { key += "," + std::to_string(c.first) + ":" + std::to_string(c.second.size); walkVal(c.second.v, key, fn, order); }
			}
		};
		objs(S.glob); objs(S.mem); objs(S.heap);
		key += S.expectAbort ? "x" : ""; key += S.noOvf ? "o" : ""; key += S.inlineUC ? "c" : "";
	}
	struct Elem {
		State st;                       // concretised representative (with head symbols)
		std::vector<Poly> base;         // a0 per slot (over parameters)
		std::vector<std::vector<R>> V;  // reduced row echelon directions
		std::vector<int> piv;
		std::vector<Itv> pivI;
		std::vector<Itv> diffI;         // mode 1: bounds of slot differences
		std::vector<char> isInt;
		int joins = 0, id = 0;
		bool queued = false;
	};
	int headCount = 0;
	std::map<const CallBase*,int> headIds;

	static bool reduceInto(std::vector<std::vector<R>> &V, std::vector<int> &piv, std::vector<R> x)
	{
		R m = 0;
		for (R v : x) m = std::max(m, std::fabs(v));
		if (m == 0) return false;
		for (auto &v : x) v /= m;
		for (size_t i = 0; i < V.size(); ++i) {
			R c = x[piv[i]];
			if (c == 0) continue;
			for (size_t j = 0; j < x.size(); ++j) x[j] -= c * V[i][j];
			x[piv[i]] = 0;
		}
		// pivot: largest entry
		int p = -1; R b = 1e-10L;
		for (size_t j = 0; j < x.size(); ++j) if (std::fabs(x[j]) > b) b = std::fabs(x[j]), p = j;
		if (p < 0) return false;
		R c = x[p];
		for (auto &v : x) { v /= c; if (std::fabs(v) < 1e-14L) v = 0; R r = std::rint(v * 720720) / 720720; if (std::fabs(v - r) < 1e-15L) v = r; }
		for (size_t i = 0; i < V.size(); ++i) {
			R k = V[i][p];
			if (k == 0) continue;
			for (size_t j = 0; j < x.size(); ++j) { V[i][j] -= k * x[j]; if (std::fabs(V[i][j]) < 1e-14L) V[i][j] = 0; }
			V[i][p] = 0;
		}
		V.push_back(x); piv.push_back(p);
		return true;
	}
	static R widenLo(R x)
	{
		static const R T[] = {0, -0.5L, -1, -2, -4, -10, -100, -1000, -32768, -2147483648.0L};
		static const R P[] = {2147483648.0L, 32768, 1000, 100, 10, 4, 2, 1, 0.5L, 0};
		for (R t : P) if (x >= t) return t;
		for (R t : T) if (x >= t) return t;
		return -INF;
	}

	std::vector<State> runHead(State S, const CallBase *cb, const Stops &stops)
	{
		bool ord = cb->getCalledFunction()->getName() == "sa_head_order";
		int mode = ord ? 2 : (int)asConstArg(get(S, cb->getArgOperand(0)), "head mode");
		if (!headIds.count(cb)) headIds[cb] = headCount++;
		int hid = headIds[cb];
		int depth = S.fr.size();
		if (mode == 2) return runOrderHead(std::move(S), cb, stops, hid);
		std::vector<State> done;
		// parameters: base symbols of the entry state
		std::set<int> params;
		auto addSyms = [&](const Poly &p) { polySyms(p, params, true); };
		{
			State T = S;
			std::string k;
			walkState(T, k, [&](Val &v) { addSyms(v.p); }, false);
			for (auto &f : *S.facts) addSyms(f.first);
		}
		auto isParamMono = [&](int m) {
			for (auto &x : C.monos[m].f) {
				if (!params.count(x.first)) {
					if (C.syms[x.first].fn == F_NONE) return false;
					std::set<int> d;
					for (auto &a : C.syms[x.first].args) polySyms(a, d, true);
					for (int s : d) if (C.syms[s].fn == F_NONE && !params.count(s)) return false;
				}
			}
			return true;
		};
		auto entryFacts = S.facts;
		auto entryCnt = S.cnt;
		std::map<std::string,std::unique_ptr<Elem>> elems;
		std::vector<Elem*> queue;
		auto clearRegs = [&](State &T) {
			Frame &f = T.fr.back();
			const auto &d = domIn(f.info, f.F, f.bb);
			for (int i = 0; i < f.info->n; ++i) {
				bool keep = d[i];
				if (!keep) f.regs[i] = Val();
			}
		};
		auto build = [&](Elem &e) {
			// write symbols back into the representative
			std::vector<Poly> val(e.base.size());
			std::vector<Poly> ps(e.piv.size());
			for (size_t i = 0; i < e.piv.size(); ++i) ps[i] = psym(newSym("h" + std::to_string(hid) + "." + std::to_string(e.id) + "." + std::to_string(e.piv[i]), e.isInt[e.piv[i]], -INF, INF));
			for (size_t s = 0; s < val.size(); ++s) {
				Poly p = e.base[s];
				for (size_t i = 0; i < e.piv.size(); ++i) {
					if (e.V[i][s] == 0) continue;
					p = padd(p, pscale(psub(ps[i], e.base[e.piv[i]]), e.V[i][s]));
				}
				val[s] = p;
			}
			size_t n = 0;
			std::string k;
			walkState(e.st, k, [&](Val &v) { v.p = val[n++]; v.bits = nullptr; }, false);
			e.st.facts = std::make_shared<Facts>(*entryFacts);
			e.st.cnt = entryCnt;
			for (size_t i = 0; i < e.piv.size(); ++i) if (!std::isinf(e.pivI[e.piv[i]].lo) || !std::isinf(e.pivI[e.piv[i]].hi)) addFactItv(e.st, ps[i], e.pivI[e.piv[i]]);
			if (mode == 1) {
				size_t q = 0;
				for (size_t i = 0; i < val.size(); ++i) for (size_t j = 0; j < i; ++j, ++q) {
					if (std::isinf(e.diffI[q].lo) && std::isinf(e.diffI[q].hi)) continue;
					Poly d = psub(val[i], val[j]);
					if (!isConst(d)) addFactItv(e.st, d, e.diffI[q]);
				}
			}
		};
		auto arrive = [&](State T) {
			clearRegs(T);
			std::string key;
			std::vector<Poly> vals;
			std::vector<char> isInt;
			walkState(T, key, [&](Val &v) { vals.push_back(v.p); isInt.push_back(v.k != VFlt); }, false);
			auto &slotE = elems[key];
			++stats["head_arrivals"];
			std::vector<Itv> bs;
			for (auto &p : vals) bs.push_back(bounds(T, p, mode == 1 ? 2 : 1));
			std::vector<Itv> ds;
			if (mode == 1) for (size_t i = 0; i < vals.size(); ++i) for (size_t j = 0; j < i; ++j) ds.push_back(bounds(T, psub(vals[i], vals[j]), 2));
			bool fresh = !slotE;
			if (fresh) {
				slotE.reset(new Elem);
				Elem &e = *slotE;
				e.id = elems.size();
				if (elems.size() > 3000) throw Budget{"too many loop states"};
				e.st = std::move(T);
				e.isInt = isInt;
				e.base.resize(vals.size());
				e.pivI = bs;
				e.diffI = ds;
				// parameter part is the base, everything else spans directions
				std::map<int,std::vector<R>> cols;
				for (size_t s = 0; s < vals.size(); ++s) {
					auto b = std::make_shared<PolyRep>();
					for (auto &t : vals[s]->t) {
						if (isParamMono(t.m)) b->t.push_back(t);
						else { auto &c = cols[t.m]; if (c.empty()) c.resize(vals.size(), 0); c[s] = t.c; }
					}
					e.base[s] = b;
				}
				for (auto &c : cols) reduceInto(e.V, e.piv, c.second);
				build(e);
				e.queued = true;
				queue.push_back(&e);
				return;
			}
			Elem &e = *slotE;
			bool grew = false;
			std::map<int,std::vector<R>> cols;
			for (size_t s = 0; s < vals.size(); ++s) {
				Poly d = psub(vals[s], e.base[s]);
				for (auto &t : d->t) { auto &c = cols[t.m]; if (c.empty()) c.resize(vals.size(), 0); c[s] = t.c; }
			}
			for (auto &c : cols) if (reduceInto(e.V, e.piv, c.second)) grew = true;
			bool wide = e.joins > 4;
			auto join = [&](Itv &a, const Itv &b) {
				Itv h = ihull(a, b);
				R sl = 1e-9L * std::max((R)1, std::fabs(a.lo)), sh = 1e-9L * std::max((R)1, std::fabs(a.hi));
				bool ch = false;
				if (h.lo < a.lo - sl || (h.lo < a.lo && isInteger(a.lo)) || (h.lo == a.lo && a.ls && !h.ls)) { ch = true; if (wide) { h.lo = widenLo(h.lo); h.ls = false; } } else { h.lo = a.lo; h.ls = a.ls; }
				if (h.hi > a.hi + sh || (h.hi > a.hi && isInteger(a.hi)) || (h.hi == a.hi && a.hs && !h.hs)) { ch = true; if (wide) { h.hi = -widenLo(-h.hi); h.hs = false; } } else { h.hi = a.hi; h.hs = a.hs; }
				if (ch) a = h;
				return ch;
			};
			for (size_t s = 0; s < vals.size(); ++s) {
				bool ch = join(e.pivI[s], bs[s]);
				bool isPiv = false;
				for (int p : e.piv) if (p == (int)s) isPiv = true;
				if (ch && isPiv) grew = true;
			}
			for (size_t q = 0; q < ds.size(); ++q) if (join(e.diffI[q], ds[q])) grew = true;
			if (grew) {
				++e.joins;
				++stats["head_joins"];
				if (e.joins > 400) throw Budget{"loop fixpoint does not converge"};
				build(e);
				if (!e.queued) { e.queued = true; queue.push_back(&e); }
			}
		};
		arrive(std::move(S));
		while (!queue.empty()) {
			Elem *e = queue.front();
			queue.erase(queue.begin());
			e->queued = false;
			State T = e->st;
			set(T, cb, vintc(1, 32));
			++T.fr.back().it;
			Stops ns = stops;
			ns.push_back({2, depth, nullptr, cb});
			std::vector<State> r = run(std::move(T), ns);
			for (auto &x : r) {
				if (x.stopIdx == (int)stops.size() && (int)x.fr.size() == depth && &*x.fr.back().it == cb) arrive(std::move(x));
				else if (x.stopIdx == (int)stops.size()) throw Unsupported{"loop head left by return"};
				else done.push_back(std::move(x));
			}
		}
		stats["head_states"] += elems.size();
		return done;
	}

	// only the order of the values matters: states are partitioned by the total preorder of the values that
	// are constants or held by the anchor array; any other cell, and any cell not found live, is unknown
	struct NeedLive { int sym; };
	std::map<int,std::pair<std::string,int>> anySyms; // symbol -> (control key, slot)
	void needLive(const Poly &p)
	{
		if (anySyms.empty()) return;
		std::set<int> syms;
		polySyms(p, syms, true);
		for (int s : syms) if (anySyms.count(s)) throw NeedLive{s};
	}
	std::vector<State> runOrderHead(State S0, const CallBase *cb, const Stops &stops, int hid)
	{
		int depth = S0.fr.size();
		Val anchorArg = get(S0, cb->getArgOperand(0));
		long anchorN = (long)asConstArg(get(S0, cb->getArgOperand(1)), "anchor size"), anchorOff = (long)constVal(anchorArg.p);
		std::map<std::string,std::set<int>> live;
		std::map<std::string,int> keyId;
		size_t v0 = viols.size();
		for (int round = 0; ; ++round) {
			if (round > 200) throw Budget{"order fixpoint does not converge"};
			++stats["order_rounds"];
			bool dirty = false, held = holdViols;
			holdViols = true;
			std::vector<State> done, queue;
			std::set<std::string> seen;
			auto need = [&](int sym) { auto a = anySyms[sym]; return live[a.first].insert(a.second).second; };
			// abstractions of one arriving state (several when the order of kept values is open)
			std::function<void(const State &, std::vector<std::pair<std::string,State>> &)> abstracts = [&](const State &raw, std::vector<std::pair<std::string,State>> &out) {
				State T = raw;
				std::string key;
				walkState(T, key, [](Val &) {}, true);
				const std::set<int> &lv = live[key];
				if (!keyId.count(key)) { int n = keyId.size(); keyId[key] = n; }
				int kid = keyId[key];
				std::vector<Poly> anchors;
				{
					ObjP &o = writable(T, anchorArg.obj);
					for (auto &c : o->cells) if (c.first >= anchorOff && c.first < anchorOff + anchorN && c.second.v.p) { anchors.push_back(c.second.v.p); c.second.v.org = (const Instruction*)this; }
				}
				std::vector<Poly> distinct;
				std::vector<int> cls;
				std::vector<char> isI;
				int idx = 0;
				std::string k0;
				walkState(T, k0, [&](Val &v) {
					++idx;
					bool in = v.k != VFlt;
					bool own = v.org == (const Instruction*)this; // the anchor array itself is always kept
					if (own) v.org = nullptr;
					bool anch = isConst(v.p) || own;
					for (auto &p : anchors) if (peq(p, v.p)) { anch = true; break; }
					bool isLive = lv.count(idx) || own;
					int s = asSym(v.p);
					if (isLive && !anch && s >= 0 && anySyms.count(s)) { need(s); dirty = true; }
					if (!(anch && isLive)) {
						// unknown; a live one is not refined any further
						v.p = psym(newSym((isLive ? "unk" : "any") + std::string(in ? "i" : "") + std::to_string(hid) + "." + std::to_string(kid) + "." + std::to_string(idx), in, in ? -lim(v.w) : -INF, in ? lim(v.w) - 1 : INF));
						v.bits = nullptr;
						if (!isLive) anySyms[asSym(v.p)] = {key, idx};
						cls.push_back(-1);
						return;
					}
					for (size_t i = 0; i < distinct.size(); ++i) if (peq(distinct[i], v.p)) { cls.push_back(i); return; }
					cls.push_back(distinct.size());
					distinct.push_back(v.p);
					isI.push_back(in);
				}, true);
				// sort, splitting on undecided pairs
				std::vector<std::vector<int>> order; // groups of equal values, ascending
				for (size_t i = 0; i < distinct.size(); ++i) {
					size_t lo = 0;
					bool placed = false;
					for (; lo < order.size(); ++lo) {
						Poly d = psub(distinct[i], distinct[order[lo][0]]);
						if (decide(raw, d, LT) == 1) break;
						if (decide(raw, d, EQ) == 1) { order[lo].push_back(i); placed = true; break; }
						if (decide(raw, d, GT) == 1) continue;
						for (Rel r : {LT, EQ, GT}) { State U = raw; if (assume(U, d, r)) abstracts(U, out); }
						return;
					}
					if (!placed) order.insert(order.begin() + lo, std::vector<int>{(int)i});
				}
				// canonical names; constants stay
				std::vector<Poly> canon(distinct.size());
				std::vector<Poly> grp;
				std::vector<int> pos(distinct.size());
				int n = 0;
				for (auto &g : order) {
					Poly c = nullptr;
					bool in = false;
					for (int i : g) { if (isConst(distinct[i])) c = distinct[i]; if (isI[i]) in = true; }
					if (!c) c = psym(newSym(std::string(in ? "oi" : "o") + std::to_string(hid) + "." + std::to_string(n), in, in ? -lim(32) : -INF, in ? lim(32) - 1 : INF));
					grp.push_back(c);
					for (int i : g) { canon[i] = c; pos[i] = n; }
					++n;
				}
				key += "#";
				for (int c : cls) key += (c < 0 ? "?" : std::to_string(pos[c])) + ",";
				for (auto &c : grp) key += isConst(c) ? num(constVal(c)) + ";" : "s;";
				size_t q = 0;
				std::string k2;
				walkState(T, k2, [&](Val &v) { int c = cls[q++]; if (c >= 0) { v.p = canon[c]; v.bits = nullptr; } }, true);
				T.facts = std::make_shared<Facts>();
				for (size_t k = 0; k + 1 < grp.size(); ++k) for (size_t m = k + 1; m < grp.size(); ++m) {
					Poly d = psub(grp[k], grp[m]);
					if (!isConst(d)) addFactItv(T, d, Itv{-INF, 0, false, true});
				}
				T.cnt = S0.cnt;
				out.push_back({key, std::move(T)});
			};
			auto clean = [&](State &T) {
				Frame &f = T.fr.back();
				const auto &d = domIn(f.info, f.F, f.bb);
				for (int i = 0; i < f.info->n; ++i) if (!d[i]) f.regs[i] = Val();
			};
			clean(S0);
			queue.push_back(S0);
			int extra = 0;
			while (!queue.empty()) {
				if (dirty && ++extra > 400) break;
				State raw = std::move(queue.back());
				queue.pop_back();
				for (bool again = true; again;) {
					again = false;
					std::vector<std::pair<std::string,State>> abs;
					abstracts(raw, abs);
					for (auto &a : abs) {
						++stats["head_arrivals"];
						if (!seen.insert(a.first).second) continue;
						if (seen.size() > 60000) throw Budget{"too many order states"};
						State T = std::move(a.second);
						set(T, cb, vintc(1, 32));
						++T.fr.back().it;
						Stops ns = stops;
						ns.push_back({2, depth, nullptr, cb});
						std::vector<State> r;
						try { r = run(std::move(T), ns); }
						catch (NeedLive &n) { if (!need(n.sym)) throw Unsupported{"liveness refinement failed"}; again = true; break; }
						for (auto &x : r) {
							if (x.stopIdx == (int)stops.size() && (int)x.fr.size() == depth && &*x.fr.back().it == cb) { clean(x); queue.push_back(std::move(x)); }
							else if (x.stopIdx == (int)stops.size()) throw Unsupported{"loop head left by return"};
							else done.push_back(std::move(x));
						}
					}
				}
			}
			holdViols = held;
			if (dirty) { viols.resize(v0); continue; }
			if (!held && viols.size() >= maxViols) throw EnoughViols();
			stats["head_states"] += seen.size();
			return done;
		}
	}
