// Effects of the library on storage that outlives a call and belongs to no object, from the IR and its debug information
#pragma once
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"

struct Effects {
	std::string repo;
	bool first = true;
	std::string out;
	std::set<const Function *> seen;

	static std::string fileOf(const DIScope *s)
	{
		if (!s || !s->getFile()) return "";
		std::string f = s->getFile()->getFilename().str();
		return !f.empty() && f[0] == '/' ? f : s->getFile()->getDirectory().str() + "/" + f;
	}
	bool inRepo(const std::string &f) const { return f.compare(0, repo.size() + 1, repo + "/") == 0; }
	static bool isConstType(const DIType *t)
	{
		while (t) {
			if (t->getTag() == dwarf::DW_TAG_const_type) return true;
			if (auto *d = dyn_cast<DIDerivedType>(t)) {
				if (t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_volatile_type) { t = d->getBaseType(); continue; }
				return false;
			}
			if (auto *c = dyn_cast<DICompositeType>(t)) {
				if (t->getTag() == dwarf::DW_TAG_array_type) { t = c->getBaseType(); continue; }
				return false;
			}
			return false;
		}
		return false;
	}
	static bool isPointerType(const DIType *t)
	{
		while (t) {
			auto *d = dyn_cast<DIDerivedType>(t);
			if (d && (t->getTag() == dwarf::DW_TAG_pointer_type || t->getTag() == dwarf::DW_TAG_reference_type || t->getTag() == dwarf::DW_TAG_rvalue_reference_type)) return true;
			if (d && (t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_const_type || t->getTag() == dwarf::DW_TAG_volatile_type)) { t = d->getBaseType(); continue; }
			if (auto *c = dyn_cast<DICompositeType>(t)) if (t->getTag() == dwarf::DW_TAG_array_type) { t = c->getBaseType(); continue; }
			return false;
		}
		return false;
	}
	// the records a variable of this type holds by value
	static void recordsOf(const DIType *t, std::set<const DIType *> &r, bool pointers)
	{
		while (t) {
			if (auto *d = dyn_cast<DIDerivedType>(t)) {
				bool indirect = t->getTag() == dwarf::DW_TAG_pointer_type || t->getTag() == dwarf::DW_TAG_reference_type || t->getTag() == dwarf::DW_TAG_rvalue_reference_type;
				if (indirect && !pointers) return;
				t = d->getBaseType();
				continue;
			}
			auto *c = dyn_cast<DICompositeType>(t);
			if (!c) return;
			if (t->getTag() == dwarf::DW_TAG_array_type) { t = c->getBaseType(); continue; }
			if (!r.insert(c).second) return;
			for (auto *e : c->getElements())
				if (auto *d = dyn_cast<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance) recordsOf(d->getBaseType(), r, false);
			return;
		}
	}
	void item(const std::string &kind, const std::string &what, const std::string &fn, const std::string &where, const std::string &extra)
	{
		out += (first ? "" : ",") + std::string("{\"kind\":") + jstr(kind) + ",\"what\":" + jstr(what) + ",\"function\":" + jstr(fn) + ",\"where\":" + jstr(where) + ",\"extra\":" + jstr(extra) + "}";
		first = false;
	}
	static void globalsIn(const Value *v, std::set<const GlobalValue *> &r, std::set<const Value *> &vis)
	{
		if (!isa<Constant>(v) || !vis.insert(v).second) return;
		if (auto *g = dyn_cast<GlobalValue>(v)) { r.insert(g); return; }
		for (auto &o : cast<Constant>(v)->operands()) globalsIn(o.get(), r, vis);
	}
	// does a value depend on what the function was called with
	static bool dependsOnCall(const Value *v, std::set<const Value *> &vis)
	{
		if (isa<Argument>(v)) return true;
		auto *i = dyn_cast<Instruction>(v);
		if (!i || !vis.insert(v).second) return false;
		if (isa<AllocaInst>(i)) { // whatever is stored there
			for (auto *u : i->users()) if (auto *s = dyn_cast<StoreInst>(u)) if (s->getPointerOperand() == i && dependsOnCall(s->getValueOperand(), vis)) return true;
			return false;
		}
		for (auto &o : i->operands()) if (dependsOnCall(o.get(), vis)) return true;
		return false;
	}
	void run(const Module &m, const std::string &prefix)
	{
		repo = prefix;
		std::vector<const Function *> work;
		int lib = 0, insts = 0, wide = 0, wideops = 0;
		for (auto &f : m) if (!f.isDeclaration() && f.getSubprogram() && inRepo(fileOf(f.getSubprogram()))) { work.push_back(&f); seen.insert(&f); ++lib; }
		std::set<std::string> fns;
		for (auto *f : work) fns.insert(fileOf(f->getSubprogram()).substr(repo.size() + 1) + ": " + demangle(f->getName().str()));
		while (!work.empty()) {
			const Function *f = work.back();
			work.pop_back();
			std::string fn = demangle(f->getName().str());
			bool isWide = f->getSubprogram() && inRepo(fileOf(f->getSubprogram())) && fn.find("double") != std::string::npos && fn.find("float") == std::string::npos;
			wide += isWide;
			for (auto &bb : *f) for (auto &i : bb) {
				if (isa<DbgInfoIntrinsic>(&i)) continue;
				++insts;
				std::string where = f->getSubprogram() ? fileOf(f->getSubprogram()) : "";
				if (i.getDebugLoc()) where += ":" + std::to_string(i.getDebugLoc().getLine());
				if (auto *c = dyn_cast<CallBase>(&i)) if (c->isInlineAsm()) item("asm", "inline assembly", fn, where, "");
				if (isWide && i.getType()->isFPOrFPVectorTy()) {
					++wideops;
					Type *t = i.getType()->getScalarType();
					if (t->isFloatTy() || t->is16bitFPTy()) item("narrow", i.getOpcodeName(), fn, where, t->isFloatTy() ? "single" : "half");
				}
				std::set<const GlobalValue *> gs;
				std::set<const Value *> vis;
				for (auto &o : i.operands()) globalsIn(o.get(), gs, vis);
				for (auto *g : gs) {
					if (auto *h = dyn_cast<Function>(g)) {
						if (h->isDeclaration()) { if (!h->isIntrinsic()) item("external", h->getName().str(), fn, where, demangle(h->getName().str())); }
						else {
							std::string hf = h->getSubprogram() ? fileOf(h->getSubprogram()) : "";
							if (hf.find("/drivers/") == std::string::npos && hf.find("/shim/") == std::string::npos && seen.insert(h).second) work.push_back(h);
						}
						continue;
					}
					auto *v = dyn_cast<GlobalVariable>(g);
					if (!v || v->isConstant()) continue;
					std::string n = v->getName().str();
					if (n.compare(0, 4, "_ZGV") == 0) continue;
					SmallVector<DIGlobalVariableExpression *, 2> di;
					v->getDebugInfo(di);
					bool cst = !di.empty() && isConstType(di[0]->getVariable()->getType());
					if (!cst) {
						item(v->isThreadLocal() ? "thread_local" : v->isDeclaration() ? "external_variable" : "variable", demangle(n), fn, where, isa<StoreInst>(&i) ? "written" : "used");
						continue;
					}
					// constant, but initialised when first reached: the value must not depend on that call
					const Value *val = nullptr;
					if (auto *s = dyn_cast<StoreInst>(&i)) val = s->getValueOperand();
					if (val && !isa<Constant>(val)) {
						std::set<const Value *> w;
						if (dependsOnCall(val, w)) item("frozen", demangle(n), fn, where, "initialised from the arguments of the first call");
					}
					if (auto *c = dyn_cast<CallBase>(&i)) for (auto &a : c->args()) {
						std::set<const Value *> w;
						if (a.get() != v && dependsOnCall(a.get(), w) && c->getCalledFunction() && c->getArgOperand(0) == v) item("frozen", demangle(n), fn, where, "constructed from the arguments of the first call");
					}
				}
			}
		}
		DebugInfoFinder finder;
		finder.processModule(m);
		int records = 0;
		// what the callers of the library hold, and what lives only while one of its functions runs
		std::set<const DIType *> held, passing;
		std::set<std::string> callers;
		for (auto *u : finder.compile_units()) { std::string f = fileOf(u); callers.insert(f.substr(0, f.rfind('/'))); }
		for (auto &f : m) for (auto &bb : f) for (auto &i : bb)
			if (auto *d = dyn_cast<DbgVariableIntrinsic>(&i)) if (auto *v = d->getVariable()) {
				std::string f = fileOf(v->getScope());
				if (callers.count(f.substr(0, f.rfind('/')))) recordsOf(v->getType(), held, true);
				else recordsOf(v->getType(), passing, false);
			}
		for (auto *g : finder.global_variables()) recordsOf(g->getVariable()->getType(), held, true);
		for (auto *t : finder.types()) {
			auto *c = dyn_cast<DICompositeType>(t);
			if (!c || !(c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type) || !inRepo(fileOf(c))) continue;
			++records;
			for (auto *e : c->getElements()) {
				auto *d = dyn_cast<DIDerivedType>(e);
				if (!d) continue;
				std::string where = fileOf(c) + ":" + std::to_string(d->getLine());
				if (d->isStaticMember() || d->getTag() == dwarf::DW_TAG_variable) {
					if (!isConstType(d->getBaseType())) item("static_member", (c->getName() + "::" + d->getName()).str(), "", where, "");
				} else if (d->getTag() == dwarf::DW_TAG_member && !d->isArtificial() && !d->getName().starts_with("_vptr")) {
					bool transient = !held.count(c) && (passing.count(c) || c->getName().empty() || isa_and_nonnull<DILocalScope>(c->getScope()));
					if (!transient && isPointerType(d->getBaseType())) item("pointer_member", (c->getName() + "::" + d->getName()).str(), "", where, "");
				}
			}
		}
		std::string j = "{\"library_functions\":" + std::to_string(lib) + ",\"reachable_functions\":" + std::to_string(seen.size()) + ",\"instructions\":" + std::to_string(insts) + ",\"wide_functions\":" + std::to_string(wide) + ",\"wide_operations\":" + std::to_string(wideops) + ",\"records\":" + std::to_string(records) + ",\"functions\":[";
		bool c = false;
		for (auto &f : fns) { j += (c ? "," : "") + jstr(f); c = true; }
		printf("%s],\"items\":[%s]}\n", j.c_str(), out.c_str());
	}
};
