#include "interp.h"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>

using namespace llvm;

double nowSec() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static bool trace = getenv("AN_TRACE");
namespace {
struct Dead {};
const uint64_t BASE = 0x40000000ull;
inline uint32_t idOf(uint64_t a) { return a >> 32; }
inline int64_t offOf(uint64_t a) { return int64_t(a & 0xffffffffull) - int64_t(BASE); }
Ref<Obj> tomb(ObjKind k) {
	static Ref<Obj> t[8];
	if (!t[k]) { t[k] = Ref<Obj>(new Obj); t[k]->kind = k; t[k]->live = ZERO; }
	return t[k];
}
Poly prod(const std::vector<Poly> &v) { Poly r = ONE; for (Poly p : v) r = dom::a(r, p); return r; }
Poly oneHot(const std::vector<Poly> &bases, size_t s) {
	std::vector<uint64_t> tt(std::max<size_t>(1, (size_t(1) << bases.size()) / 64), 0);
	tt[s >> 6] |= 1ull << (s & 63);
	return dom::fn(tt, bases);
}
Poly anyOf(const std::vector<Poly> &bases, const std::vector<size_t> &ss) {
	std::vector<uint64_t> tt(std::max<size_t>(1, (size_t(1) << bases.size()) / 64), 0);
	for (size_t s : ss) tt[s >> 6] |= 1ull << (s & 63);
	return dom::fn(tt, bases);
}
}

// ---------------------------------------------------------------- memory
Obj *Mem::wr(uint32_t id) {
	Ref<Big> &b = t[id >> 12];
	if (b->rc > 1) b = Ref<Big>(new Big(*b));
	Ref<Chunk> &c = b->c[(id >> 6) & 63];
	if (c->rc > 1) c = Ref<Chunk>(new Chunk(*c));
	Ref<Obj> &o = c->o[id & 63];
	if (o->rc > 1) o = Ref<Obj>(new Obj(*o));
	return o.p;
}
void Mem::put(uint32_t id, Ref<Obj> o) {
	if (t.size() <= (id >> 12)) t.resize((id >> 12) + 1);
	Ref<Big> &b = t[id >> 12];
	if (!b) b = Ref<Big>(new Big);
	else if (b->rc > 1) b = Ref<Big>(new Big(*b));
	Ref<Chunk> &c = b->c[(id >> 6) & 63];
	if (!c) c = Ref<Chunk>(new Chunk);
	else if (c->rc > 1) c = Ref<Chunk>(new Chunk(*c));
	c->o[id & 63] = o;
}
static void bytePoly(const Obj *o, uint32_t i, std::array<Poly, 8> &out, Poly undef) {
	if (o->st[i] == 2) { out = o->sym[i]; return; }
	if (o->st[i] == 1) { for (int b = 0; b < 8; b++) out[b] = (o->data[i] >> b) & 1 ? ONE : ZERO; return; }
	for (int b = 0; b < 8; b++) out[b] = undef;
}
static Poly sharedUndef() { return dom::undefBit("memory never written"); }
static void setByte(Obj *o, uint32_t i, const std::array<Poly, 8> &p) {
	uint8_t c = 0; bool all = true;
	for (int b = 0; b < 8; b++) { if (p[b] == ONE) c |= 1 << b; else if (p[b] != ZERO) { all = false; break; } }
	if (all) { o->data[i] = c; o->st[i] = 1; return; }
	if (o->sym.empty()) o->sym.resize(o->size);
	o->sym[i] = p; o->st[i] = 2;
}
static Ref<Obj> mergeObj(Poly c, const Ref<Obj> &t, const Ref<Obj> &f) {
	if (t == f) return t;
	if (!t || (t->live == ZERO && t->size == 0 && (!f || f->size))) {
		if (!f) return t;
		if (f->live == ZERO) return f;
		Ref<Obj> r(new Obj(*f)); r->live = dom::a(dom::n(c), f->live);
		return r->live == ZERO ? tomb(f->kind) : r;
	}
	if (!f || (f->live == ZERO && f->size == 0)) {
		if (t->live == ZERO) return t;
		Ref<Obj> r(new Obj(*t)); r->live = dom::a(c, t->live);
		return r->live == ZERO ? tomb(t->kind) : r;
	}
	Ref<Obj> r(new Obj(*t));
	r->live = dom::ite(c, t->live, f->live);
	if (t->size != f->size) throw Undecided("merging objects of different size");
	Poly ud = 0xffffffffu;
	for (uint32_t i = 0; i < t->size; i++) {
		if (t->st[i] == f->st[i]) {
			if (t->st[i] == 0) continue;
			if (t->st[i] == 1 && t->data[i] == f->data[i]) continue;
			if (t->st[i] == 2 && t->sym[i] == f->sym[i]) continue;
		}
		if (ud == 0xffffffffu && (t->st[i] == 0 || f->st[i] == 0)) ud = sharedUndef();
		std::array<Poly, 8> a, b, m;
		bytePoly(t.p, i, a, ud); bytePoly(f.p, i, b, ud);
		for (int k = 0; k < 8; k++) m[k] = dom::ite(c, a[k], b[k]);
		setByte(r.p, i, m);
	}
	return r;
}
void Interp::mergeMem(Poly c, Mem &t, Mem &&f) {
	joins++;
	if (t.t.size() < f.t.size()) t.t.resize(f.t.size());
	for (size_t b = 0; b < t.t.size(); b++) {
		Ref<Big> fb = b < f.t.size() ? f.t[b] : Ref<Big>();
		if (t.t[b] == fb) continue;
		if (!t.t[b]) t.t[b] = Ref<Big>(new Big);
		for (int k = 0; k < 64; k++) {
			Ref<Chunk> tc = t.t[b]->c[k], fc = fb ? fb->c[k] : Ref<Chunk>();
			if (tc == fc) continue;
			for (int j = 0; j < 64; j++) {
				Ref<Obj> to = tc ? tc->o[j] : Ref<Obj>(), fo = fc ? fc->o[j] : Ref<Obj>();
				if (to == fo) continue;
				Ref<Obj> m = mergeObj(c, to, fo);
				t.put((b << 12) | (k << 6) | j, m);
			}
		}
	}
	if (t.locks != f.locks) {           // locks held on both sides; the others may be held
		std::vector<uint64_t> both;
		for (uint64_t l : t.locks) if (std::count(f.locks.begin(), f.locks.end(), l)) both.push_back(l); else t.mayLocks.insert(l);
		for (uint64_t l : f.locks) if (!std::count(t.locks.begin(), t.locks.end(), l)) t.mayLocks.insert(l);
		t.locks = both;
	}
	t.mayLocks.insert(f.mayLocks.begin(), f.mayLocks.end());
	if (t.caught.size() != f.caught.size()) throw Undecided("join inside different exception handlers");
	for (size_t i = 0; i < t.caught.size(); i++) {
		t.caught[i].exc = mergeVal(c, t.caught[i].exc, f.caught[i].exc);
		if (t.caught[i].rethrown != f.caught[i].rethrown) throw Undecided("join with and without rethrow");
	}
}
uint32_t Interp::alloc(Mem &m, uint32_t size, ObjKind k, uint32_t align, const Value *site, uint64_t *addr) {
	uint32_t id = nextId++;
	if (nextId > 0x7ffffff0u) throw Undecided("too many objects");
	Ref<Obj> o(new Obj);
	o->size = size; o->align = std::max(1u, align); o->kind = k; o->site = site;
	o->data.assign(size, 0); o->st.assign(size, 0);
	if (k == O_HEAP && effects) o->made = inOnce(m);
	uint64_t st = o->start();
	m.put(id, o);
	if (addr) *addr = (uint64_t(id) << 32) + BASE + st;
	return id;
}
Val Interp::undef(uint32_t w, const std::string &note) {
	std::vector<Poly> b(w, dom::undefBit(note));
	return mkBits(std::move(b));
}
Val Interp::readVal(const Obj *o, uint32_t id, uint32_t off, uint32_t n) {
	bool conc = n <= 8;
	if (conc) {
		uint64_t c = 0;
		for (uint32_t i = 0; i < n; i++) {
			if (o->st[off + i] != 1) { conc = false; break; }
			c |= uint64_t(o->data[off + i]) << (8 * i);
		}
		if (conc) return mk(n * 8, c);
	}
	std::vector<Poly> b(n * 8); Poly ud = 0xffffffffu;
	for (uint32_t i = 0; i < n; i++) {
		std::array<Poly, 8> p;
		if (o->st[off + i] == 0 && ud == 0xffffffffu) {
			auto it = undefCache.find(id);
			if (it == undefCache.end()) it = undefCache.emplace(id, undef(1, objName(o) + " never written")).first;
			ud = it->second.n->bits[0];
		}
		bytePoly(o, off + i, p, ud);
		for (int k = 0; k < 8; k++) b[i * 8 + k] = p[k];
	}
	return mkBits(std::move(b));
}
void Interp::writeVal(Obj *o, uint32_t off, const Val &v) {
	uint32_t n = (v.w + 7) / 8;
	if (v.k == 0) {
		for (uint32_t i = 0; i < n; i++) { o->data[off + i] = v.c >> (8 * i); o->st[off + i] = 1; }
		return;
	}
	for (uint32_t i = 0; i < n; i++) {
		std::array<Poly, 8> p;
		for (uint32_t k = 0; k < 8; k++) p[k] = i * 8 + k < v.w ? v.n->bits[i * 8 + k] : ZERO;
		setByte(o, off + i, p);
	}
}
std::string Interp::objName(const Obj *o) {
	switch (o->kind) {
	case O_STACK: return "local " + (o->site && o->site->hasName() ? o->site->getName().str() : std::string("variable"));
	case O_HEAP: return "heap block of " + std::to_string(o->size) + " bytes";
	case O_EXC: return "exception object";
	case O_FUNC: return "function";
	default: return "global " + (o->site && o->site->hasName() ? demangle(o->site->getName().str()) : std::string());
	}
}
std::string Interp::describe(uint64_t a, State &st) {
	const Obj *o = st.mem.get(idOf(a));
	if (!o) return "address without object";
	return objName(o);
}

// ---------------------------------------------------------------- setup
Interp::Interp(Module &m) : M(m), DL(m.getDataLayout()) { addBuiltins(); addCtxBuiltins(); }

uint64_t Interp::addrOf(const GlobalValue *g) {
	if (auto *ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee()).c;
	auto it = gaddr.find(g);
	if (it != gaddr.end()) return it->second;
	uint64_t a;
	if (auto *f = dyn_cast<Function>(g)) {
		alloc(base, 1, O_FUNC, 16, f, &a);
		faddr[a] = f;
	} else {
		auto *v = cast<GlobalVariable>(g);
		Type *t = v->getValueType();
		uint64_t size = t->isSized() ? DL.getTypeAllocSize(t).getFixedValue() : 64;
		uint32_t al = v->getAlign() ? v->getAlign()->value() : DL.getABITypeAlign(t->isSized() ? t : Type::getInt64Ty(M.getContext())).value();
		if (v->isDeclaration()) size = std::max<uint64_t>(size, 64);
		alloc(base, size, v->isDeclaration() ? O_EXT : v->isConstant() ? O_CONST : O_GLOBAL, al, v, &a);
		if (v->getName().starts_with("_ZTI")) tiName[a] = v->getName().str();
	}
	gaddr[g] = a;
	return a;
}
const Function *Interp::funcAt(uint64_t a) { auto it = faddr.find(a); return it == faddr.end() ? nullptr : it->second; }

uint64_t Interp::tiAddr(const std::string &name) {
	if (auto *g = M.getNamedGlobal(name)) return addrOf(g);
	auto it = extTi.find(name);
	if (it != extTi.end()) return it->second;
	uint64_t a; alloc(base, 16, O_EXT, 16, nullptr, &a);
	// reserve the id in every state: the object is only ever compared by address
	tiName[a] = name;
	return extTi[name] = a;
}
bool Interp::derives(const std::string &d, const std::string &b) {
	if (d == b) return true;
	auto it = tiBases.find(d);
	if (it == tiBases.end()) {
		std::vector<std::string> v;
		static const std::map<std::string, std::string> std_ = {
			{"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
			{"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
			{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
			{"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
			{"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
			{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
			{"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
			{"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
			{"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"},
		};
		auto s = std_.find(d);
		if (s != std_.end()) v.push_back(s->second);
		if (auto *g = M.getNamedGlobal(d)) if (g->hasInitializer()) {
			auto *init = g->getInitializer();
			for (unsigned i = 1; i < init->getNumOperands(); i++)
				if (auto *og = dyn_cast<GlobalVariable>(init->getOperand(i)->stripPointerCasts()))
					if (og->getName().starts_with("_ZTI")) v.push_back(og->getName().str());
		}
		it = tiBases.emplace(d, v).first;
	}
	std::vector<std::string> v = it->second;
	for (auto &x : v) if (derives(x, b)) return true;
	return false;
}

Val Interp::constVal(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() <= 64) return mk(ci->getBitWidth(), ci->getZExtValue());
		std::vector<Poly> b; for (unsigned i = 0; i < ci->getBitWidth(); i++) b.push_back(ci->getValue()[i] ? ONE : ZERO);
		return mkBits(b);
	}
	if (isa<ConstantPointerNull>(c)) return mk(64, 0);
	if (auto *g = dyn_cast<GlobalValue>(c)) return mk(64, addrOf(g));
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
		Type *t = c->getType();
		if (t->isIntegerTy() || t->isPointerTy()) return undef(DL.getTypeSizeInBits(t), "undef value");
		std::vector<Val> el; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		for (unsigned i = 0; i < n; i++) el.push_back(constVal(c->getAggregateElement(i)));
		return mkAgg(el);
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) break;
			return mk(64, constVal(ce->getOperand(0)).c + off.getSExtValue());
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
			Val v = constVal(ce->getOperand(0));
			uint32_t w = DL.getTypeSizeInBits(ce->getType());
			return w < v.w ? ops::trunc(v, w) : v;
		}
		case Instruction::Sub: return ops::sub(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
		case Instruction::Add: return ops::add(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
		default: break;
		}
	}
	if (isa<ConstantFP>(c)) { auto b = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); return b.getBitWidth() <= 64 ? mk(b.getBitWidth(), b.getZExtValue()) : undef(b.getBitWidth(), "wide float"); }
	std::string s; raw_string_ostream os(s); c->print(os);
	throw Undecided("constant " + s);
}
void Interp::initGlobal(Obj *o, uint32_t off, const Constant *c) {
	Type *t = c->getType();
	if (isa<UndefValue>(c)) return;
	if (isa<ConstantAggregateZero>(c)) {
		uint64_t n = DL.getTypeAllocSize(t);
		for (uint64_t i = 0; i < n; i++) { o->data[off + i] = 0; o->st[off + i] = 1; }
		return;
	}
	if (auto *st = dyn_cast<StructType>(t)) {
		auto *sl = DL.getStructLayout(st);
		// padding counts as zero in static storage
		for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
		return;
	}
	if (t->isArrayTy() || t->isVectorTy()) {
		Type *e = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
		uint64_t es = DL.getTypeAllocSize(e), n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		for (uint64_t i = 0; i < n; i++) initGlobal(o, off + i * es, c->getAggregateElement(i));
		return;
	}
	Val v = constVal(c);
	writeVal(o, off, v);
}
void Interp::init() {
	for (auto &f : M) addrOf(&f);
	for (auto &g : M.globals()) addrOf(&g);
	static const char *names[] = {"_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument", "_ZTISt11logic_error",
		"_ZTISt13runtime_error", "_ZTISt9bad_alloc", "_ZTISt8bad_cast", "_ZTISt12bad_weak_ptr", "_ZTISt17bad_function_call",
		"_ZTISt12system_error", "_ZTISt20bad_array_new_length", "_ZTISt9exception", "_ZTISt11range_error", "_ZTISt14overflow_error",
		"_ZTISt12domain_error", "_ZTISt18bad_variant_access", "_ZTISt19bad_optional_access"};
	for (auto n : names) tiAddr(n);
	for (auto &g : M.globals()) {
		Obj *o = base.wr(idOf(addrOf(&g)));
		if (g.hasInitializer()) initGlobal(o, 0, g.getInitializer());
		else if (g.getName() == "__libc_single_threaded") { o->data[0] = 0; o->st[0] = 1; }
	}
	if (auto *gc = M.getNamedGlobal("llvm.global_ctors")) {
		std::vector<std::pair<uint64_t, const Function *>> v;
		auto *init = gc->getInitializer();
		for (unsigned i = 0; i < init->getNumOperands(); i++) {
			auto *e = cast<ConstantStruct>(init->getOperand(i));
			if (auto *f = dyn_cast<Function>(e->getOperand(1)->stripPointerCasts()))
				v.push_back({cast<ConstantInt>(e->getOperand(0))->getZExtValue(), f});
		}
		std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
		for (auto &p : v) {
			State st; st.mem = base;
			Out o = call(st, nullptr, p.second, {}, nullptr);
			if (o.has) base = o.mem;
		}
	}
	visited.clear();
}
int Interp::callInt(const Function *f) {
	State st; st.mem = base;
	Out o = call(st, nullptr, f, {}, nullptr);
	if (!o.has || !o.v.conc()) throw Undecided("count function of a context is not constant");
	return o.v.c;
}
void Interp::runCtx(const Function *f, int arg) {
	State st; st.mem = base;
	std::vector<Val> a; if (f->arg_size()) a.push_back(mk(32, arg));
	Out o;
	try { o = call(st, nullptr, f, a, nullptr); } catch (Dead &) {}
	for (auto &u : o.unw) {
		State s2; s2.mem = u.mem;
		dom::Point pt; int r = feasible(s2, u.g, &pt);
		if (r) { Event e; e.kind = "escape"; e.msg = "exception " + demangle(tiName[u.ti]).substr(0) + " leaves the client context"; e.confirmed = r == 1; e.fatal = true; events.push_back(e); }
	}
}

// ---------------------------------------------------------------- function preparation
FI *Interp::info(const Function *f) {
	auto it = fis.find(f);
	if (it != fis.end()) return it->second.get();
	auto fi = std::make_unique<FI>();
	fi->F = f; fi->name = f->getName().str(); fi->pretty = demangle(fi->name);
	if (auto *sp = f->getSubprogram()) {
		fi->file = sp->getFilename().str();
		if (!fi->file.empty() && fi->file[0] != '/') fi->file = sp->getDirectory().str() + "/" + fi->file;
		fi->line = sp->getLine();
		if (fi->file.rfind(repoPrefix, 0) == 0) { fi->repo = true; fi->file = fi->file.substr(repoPrefix.size()); }
	}
	FI *r = fi.get();
	fis[f] = std::move(fi);
	if (f->isDeclaration()) return r;
	std::unordered_map<const Value *, int> slots;
	for (auto &a : f->args()) slots[&a] = r->nslots++;
	std::unordered_map<const BasicBlock *, int> bbn;
	for (auto &b : *f) {
		int k = bbn.size(); bbn[&b] = k;
		for (auto &i : b) if (!i.getType()->isVoidTy()) slots[&i] = r->nslots++;
	}
	std::unordered_map<const Value *, int> cidx;
	auto operand = [&](const Value *v) -> int {
		auto s = slots.find(v);
		if (s != slots.end()) return s->second;
		auto c = cidx.find(v);
		if (c != cidx.end()) return c->second;
		Val x;
		if (auto *k = dyn_cast<Constant>(v)) x = constVal(k);
		else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) x = mk(64, 0);
		else throw Undecided("operand kind in " + r->pretty);
		r->consts.push_back(x);
		return cidx[v] = ~int(r->consts.size() - 1);
	};
	for (auto &b : *f) {
		BBI bi; bi.bb = &b;
		for (auto &i : b) {
			if (isa<DbgInfoIntrinsic>(i)) continue;
			Ins in; in.I = &i; in.op = i.getOpcode(); in.dst = i.getType()->isVoidTy() ? -1 : slots[&i];
			in.w = i.getType()->isSized() && !i.getType()->isVoidTy() && (i.getType()->isIntegerTy() || i.getType()->isPointerTy()) ? DL.getTypeSizeInBits(i.getType()).getFixedValue() : 0;
			if (auto *p = dyn_cast<PHINode>(&i)) {
				std::vector<int> v, fb;
				for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
					v.push_back(operand(p->getIncomingValue(k))); fb.push_back(bbn[p->getIncomingBlock(k)]);
				}
				in.ops = v; in.succ = fb;
				bi.phis.push_back(in);
				continue;
			}
			if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
				in.ops.push_back(operand(g->getPointerOperand()));
				for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
					const Value *ix = gti.getOperand();
					if (StructType *st = gti.getStructTypeOrNull()) in.off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					else {
						int64_t sz = DL.getTypeAllocSize(gti.getIndexedType()).getFixedValue();
						if (auto *ci = dyn_cast<ConstantInt>(ix)) in.off += ci->getSExtValue() * sz;
						else in.sc.push_back({operand(ix), sz});
					}
				}
			} else if (auto *cb = dyn_cast<CallBase>(&i)) {
				in.callee = cb->getCalledFunction();
				for (auto &a : cb->args()) in.ops.push_back(operand(a.get()));
				if (!in.callee) {
					if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) in.callee = dyn_cast<Function>(al->getAliaseeObject());
					else if (auto *ff = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) in.callee = ff;
				}
				if (!in.callee) in.ops.push_back(operand(cb->getCalledOperand()));
				if (auto *iv = dyn_cast<InvokeInst>(&i)) in.succ = {bbn[iv->getNormalDest()], bbn[iv->getUnwindDest()]};
			} else if (auto *br = dyn_cast<BranchInst>(&i)) {
				if (br->isConditional()) in.ops.push_back(operand(br->getCondition()));
				for (unsigned k = 0; k < br->getNumSuccessors(); k++) in.succ.push_back(bbn[br->getSuccessor(k)]);
			} else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
				in.ops.push_back(operand(sw->getCondition()));
				in.succ.push_back(bbn[sw->getDefaultDest()]);
				for (auto &cs : sw->cases()) { in.ops.push_back(operand(cs.getCaseValue())); in.succ.push_back(bbn[cs.getCaseSuccessor()]); }
			} else {
				for (auto &o : i.operands()) if (!isa<BasicBlock>(o.get())) in.ops.push_back(operand(o.get()));
				if (auto *l = dyn_cast<LoadInst>(&i)) { in.ty = l->getType(); in.align = l->getAlign().value(); }
				if (auto *s = dyn_cast<StoreInst>(&i)) { in.ty = s->getValueOperand()->getType(); in.align = s->getAlign().value(); }
			}
			bi.ins.push_back(in);
		}
		for (auto *s : successors(&b)) bi.succ.push_back(bbn[s]);
		r->bbs.push_back(std::move(bi));
	}
	// post-dominators: ip1 among blocks that can return, ip2 among all
	int n = r->bbs.size();
	std::vector<std::vector<int>> pred(n);
	for (int i = 0; i < n; i++) for (int s : r->bbs[i].succ) pred[s].push_back(i);
	std::vector<int> work;
	for (int i = 0; i < n; i++) if (isa<ReturnInst>(r->bbs[i].bb->getTerminator())) { r->bbs[i].toRet = true; work.push_back(i); }
	while (!work.empty()) { int b = work.back(); work.pop_back(); for (int p : pred[b]) if (!r->bbs[p].toRet) { r->bbs[p].toRet = true; work.push_back(p); } }
	auto pdom = [&](bool onlyRet, std::vector<int> &ip) {
		// iterative bitset post-dominance; functions are small
		std::vector<std::vector<bool>> d(n + 1, std::vector<bool>(n + 1, true));
		std::vector<bool> use(n, true);
		if (onlyRet) for (int i = 0; i < n; i++) use[i] = r->bbs[i].toRet;
		d[n].assign(n + 1, false); d[n][n] = true;
		bool ch = true;
		while (ch) {
			ch = false;
			for (int i = n - 1; i >= 0; i--) if (use[i]) {
				std::vector<bool> nd(n + 1, true); bool any = false;
				for (int s : r->bbs[i].succ) if (use[s]) { any = true; for (int k = 0; k <= n; k++) if (!d[s][k]) nd[k] = false; }
				if (!any || (r->bbs[i].succ.empty())) nd = d[n];
				nd[i] = true;
				if (nd != d[i]) { d[i] = nd; ch = true; }
			}
		}
		ip.assign(n, -1);
		for (int i = 0; i < n; i++) if (use[i]) {
			// immediate: the strict post-dominator that is post-dominated by all others
			for (int k = 0; k < n; k++) if (k != i && d[i][k]) {
				bool imm = true;
				for (int m = 0; m < n && imm; m++) if (m != i && m != k && d[i][m] && !d[k][m]) imm = false;
				if (imm) { ip[i] = k; break; }
			}
		}
	};
	if (n <= 400) {
		std::vector<int> a, b; pdom(true, a); pdom(false, b);
		for (int i = 0; i < n; i++) { r->bbs[i].ip1 = a[i]; r->bbs[i].ip2 = b[i]; }
	}
	return r;
}
int Interp::joinOf(FI *f, int bb, const std::vector<int> &succ) {
	int nr = 0; for (int s : succ) if (f->bbs[s].toRet) nr++;
	if (nr >= 1) {
		if (nr == 1 && f->bbs[bb].ip1 < 0) return -1;
		return f->bbs[bb].ip1;
	}
	return f->bbs[bb].ip2;
}

// ---------------------------------------------------------------- events and paths
void Interp::pathAll(State &st, std::vector<Poly> &out) {
	out = pathStack;
	out.insert(out.end(), st.conj.begin(), st.conj.end());
}
bool Interp::impossible(State &st, Poly c) {
	if (c == ZERO) return true;
	if (c == ONE) return false;
	size_t k = 0;
	for (size_t i = st.conj.size(); i-- > 0 && k < 24; k++) if (dom::a(st.conj[i], c) == ZERO) return true;
	for (size_t i = pathStack.size(); i-- > 0 && k < 24; k++) if (dom::a(pathStack[i], c) == ZERO) return true;
	return false;
}
int Interp::feasible(State &st, Poly extra, dom::Point *pt, unsigned tries) {
	if (extra == ZERO) return 0;
	if (impossible(st, extra)) return 0;
	std::vector<Poly> all; pathAll(st, all);
	std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
	all.erase(std::remove(all.begin(), all.end(), extra), all.end());
	all.push_back(extra);     // the question comes last
	dom::Point q; q.seed = 1;
	int r = dom::satisfiable(all, q, tries);
	if (r == 1 && pt) *pt = q;
	return r;
}
std::string Interp::where(Frame *fr) {
	if (!fr) return "?";
	std::string s = fr->f->pretty;
	if (fr->cur) if (auto &dl = fr->cur->getDebugLoc()) {
		std::string file = dl->getFilename().str();
		if (!file.empty() && file[0] != '/') file = dl->getDirectory().str() + "/" + file;
		if (file.rfind(repoPrefix, 0) == 0) file = file.substr(repoPrefix.size());
		s += " (" + file + ":" + std::to_string(dl.getLine()) + ")";
	}
	return s;
}
std::string Interp::chain() {
	std::string s; int k = 0;
	for (size_t i = frames.size(); i-- > 0 && k < 8;) if (frames[i]->f->repo) { s += (k ? " <- " : "") + where(frames[i]); k++; }
	return s;
}
bool Interp::event(State &st, Frame *fr, const std::string &kind, const std::string &msg, Poly cond, bool fatal) {
	dom::Point pt;
	int r = feasible(st, cond, &pt);
	if (r == 0) return false;
	Event e; e.kind = kind; e.msg = msg; e.confirmed = r == 1; e.fatal = fatal;
	e.chain = chain();
	e.where = "?";
	for (size_t i = frames.size(); i-- > 0;) if (frames[i]->f->repo) { e.where = where(frames[i]); break; }
	if (e.where == "?" && fr) e.where = where(fr);
	for (auto &o : events) if (o.kind == e.kind && o.where == e.where && o.confirmed >= e.confirmed) return true;
	if (r == 1) e.witness = showPoint(pt, cond, ZERO);
	events.push_back(e);
	return true;
}
void Interp::checkUndef(State &st, Frame *fr, const Val &v, const char *what) {
	if (v.k != 1) return;
	for (Poly p : v.n->bits) if (p > ONE) {
		auto it = undefMemo.find(p);
		bool u; std::string note;
		if (it != undefMemo.end()) u = it->second;
		else undefMemo[p] = u = dom::containsKind(p, A_UNDEF, &note);
		if (u) { dom::containsKind(p, A_UNDEF, &note); event(st, fr, "uninitialised", std::string(what) + " depends on uninitialised data: " + note, ONE, false); return; }
	}
}

// ---------------------------------------------------------------- memory access
bool Interp::boundsOk(State &st, uint64_t a, uint64_t n, Poly g, Frame *fr, bool write, uint32_t align) {
	const char *rw = write ? "write" : "read";
	if (n == 0) return true;
	if (a < 0x100000000ull) {
		event(st, fr, "null", std::string(rw) + " of " + std::to_string(n) + " bytes through a null or invalid pointer (" + std::to_string(a) + ")", g, true);
		return false;
	}
	const Obj *o = st.mem.get(idOf(a));
	if (!o) { event(st, fr, "wild", std::string(rw) + " through a pointer to no object", g, true); return false; }
	if (o->live == ZERO) {
		event(st, fr, o->kind == O_STACK ? "use-after-scope" : "use-after-free", std::string(rw) + " of a released " + (o->kind == O_STACK ? "local variable" : "heap block"), g, false);
		return false;
	}
	if (o->live != ONE) {
		Poly dead = dom::a(g, dom::n(o->live));
		if (dead != ZERO && !impossible(st, dead)) event(st, fr, "use-after-free", std::string(rw) + " of a released " + objName(o), dead, false);
	}
	int64_t off = offOf(a) - o->start();
	if (o->kind == O_FUNC || off < 0 || uint64_t(off) + n > o->size) {
		event(st, fr, write ? "oob-write" : "oob-read", std::string(rw) + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of " + objName(o) + " (" + std::to_string(o->size) + " bytes)", g, false);
		return false;
	}
	if (write && o->kind == O_CONST) { event(st, fr, "const-write", "write to constant " + objName(o), g, false); return false; }
	if (align > 1 && ((offOf(a)) & (align - 1)))
		event(st, fr, "misaligned", std::string(rw) + " of " + std::to_string(n) + " bytes with alignment " + std::to_string(align) + " at offset " + std::to_string(off) + " of " + objName(o) + " aligned to " + std::to_string(o->align), g, false);
	return true;
}
bool Interp::targets(const Val &p, std::vector<Tgt> &out, std::vector<Poly> &bases, std::vector<uint64_t> &per) {
	std::vector<std::vector<bool>> tb;
	bool hp = p.n->hasP;
	const std::vector<Poly> &bits = hp ? p.n->pidx : p.n->bits;
	if (!ops::basis(bits, 11, bases, tb)) return false;
	per.resize(size_t(1) << bases.size());
	std::map<uint64_t, std::vector<size_t>> inv;
	for (size_t s = 0; s < per.size(); s++) {
		uint64_t v = 0;
		for (size_t i = 0; i < bits.size(); i++) v |= uint64_t(tb[i][s]) << i;
		if (hp) v += p.n->pbase;
		per[s] = v; inv[v].push_back(s);
	}
	for (auto &kv : inv) out.push_back({kv.first, anyOf(bases, kv.second)});
	return true;
}
void Interp::access(State &st, uint64_t addr, uint64_t n, bool write, bool atomic, Frame *fr, AtomicOrdering ord) {
	uint32_t id = idOf(addr);
	if (!n) return;
	const Obj *o = st.mem.get(id);
	if (id >= monitorBelow && o && o->kind != O_HEAP) return;      // what an operation allocates may be published
	if (!o || o->kind == O_CONST || o->kind == O_FUNC || o->kind == O_EXT) return;
	if (auto *gv = dyn_cast_or_null<GlobalVariable>(o->site)) if (gv->isThreadLocal()) return;
	uint32_t off = offOf(addr) - o->start();
	const Instruction *from = nullptr; bool repo = false;
	for (size_t i = frames.size(); i-- > 0;) if (frames[i]->f->repo) { from = frames[i]->cur; repo = true; break; }
	if (!repo) return;                  // the client's own bookkeeping
	seq++;
	for (uint64_t i = 0; i < n; i++) {
		auto &v = accesses[{id, uint32_t(off + i)}];
		if (v.size() > 64) continue;
		Access a; a.write = write; a.atomic = atomic; a.I = fr ? fr->cur : nullptr; a.locks = st.mem.locks; a.f = fr ? fr->f : nullptr; a.seq = seq;
		a.acq = isAcquireOrStronger(ord); a.rel = isReleaseOrStronger(ord); a.from = from; a.fresh = id >= monitorBelow;
		v.push_back(a);
	}
}
// Writes to memory that outlives the caller's objects: global variables and what
// one-time initialisations allocate.  One-time initialisation itself is allowed as
// long as nothing of what it stores depends on the first caller.
void Interp::watch(State &st, uint64_t addr, uint64_t n, const Val *v, Frame *fr) {
	const Obj *o = st.mem.get(idOf(addr));
	if (!o || (o->kind != O_GLOBAL && !o->made)) return;
	auto *gv = dyn_cast_or_null<GlobalVariable>(o->site);
	if (gv && (gv->getName().starts_with("_ZGV") || gv->getName().contains("__once_call") || gv->getName().starts_with("ctx_"))) return;
	bool repo = false;
	for (size_t i = frames.size(); i-- > 0;) repo |= frames[i]->f->repo;
	if (!repo) return;
	const std::string what = gv ? "global variable " + demangle(gv->getName().str()) : "memory allocated by a one-time initialisation";
	if (inOnce(st.mem)) {
		bool dep = v && v->k;
		if (!v) for (uint64_t i = 0; i < n; i++) { uint64_t off = offOf(addr) - o->start() + i; dep |= off < o->size && o->st[off] == 2; }
		if (dep && event(st, fr, "init-input", "the one-time initialisation of " + what + " depends on what its first caller supplied", ONE, false) && !events.empty() && events.back().confirmed) throw Undecided("analysis ends at an initialisation that depends on its first caller");
		return;
	}
	if (o->kind != O_GLOBAL) {
		// reference counts, and caches that are guarded
		for (uint64_t l : st.mem.locks) if (!(l >> 63)) return;
		if (fr && (fr->f->file.find("atomicity.h") != std::string::npos || fr->f->file.find("shared_ptr") != std::string::npos)) return;
	}
	if (event(st, fr, "global-write", "write to " + what, ONE, false) && !events.empty() && events.back().confirmed) throw Undecided("analysis ends at a write to global state");
}
Val Interp::loadInt(State &st, const Val &p, uint32_t w, Frame *fr, uint32_t align, bool atomic) {
	loads++;
	uint32_t n = (w + 7) / 8;
	if (p.k == 0) {
		if (!boundsOk(st, p.c, n, ONE, fr, false, align)) {
			if (p.c < 0x100000000ull || !st.mem.get(idOf(p.c))) throw Dead();
			return undef(w, "out-of-bounds read");
		}
		if (monitor) access(st, p.c, n, false, atomic, fr, curOrd);
		const Obj *o = st.mem.get(idOf(p.c));
		Val v = readVal(o, idOf(p.c), offOf(p.c) - o->start(), n);
		return v.w > w ? ops::trunc(v, w) : v;
	}
	checkUndef(st, fr, p, "address");
	std::vector<Tgt> tg; std::vector<Poly> bases; std::vector<uint64_t> per;
	if (!targets(p, tg, bases, per)) throw Undecided("load address depends on too many unknown bits at " + where(fr));
	std::map<uint64_t, Val> val;
	bool any = false;
	for (auto &t : tg) {
		if (impossible(st, t.g)) { continue; }
		const Obj *o = t.addr >= 0x100000000ull ? st.mem.get(idOf(t.addr)) : nullptr;
		int64_t off = o ? offOf(t.addr) - o->start() : 0;
		bool plain = o && o->live == ONE && off >= 0 && uint64_t(off) + n <= o->size && o->kind != O_FUNC;
		if (!plain && feasible(st, t.g, nullptr, 12) == 0) continue;
		if (!boundsOk(st, t.addr, n, t.g, fr, false, align)) { val[t.addr] = undef(n * 8, "out-of-bounds read"); continue; }
		if (monitor) access(st, t.addr, n, false, atomic, fr, curOrd);
		o = st.mem.get(idOf(t.addr));
		val[t.addr] = readVal(o, idOf(t.addr), offOf(t.addr) - o->start(), n);
		any = true;
	}
	if (!any && val.empty()) throw Dead();
	std::vector<Poly> r(n * 8);
	const Val &dflt = val.begin()->second;
	std::vector<const Val *> pv(per.size());
	for (size_t s = 0; s < per.size(); s++) { auto it = val.find(per[s]); pv[s] = it == val.end() ? &dflt : &it->second; }
	std::vector<Poly> el(per.size());
	for (uint32_t i = 0; i < n * 8; i++) {
		for (size_t s = 0; s < per.size(); s++) el[s] = bitOf(*pv[s], i);
		r[i] = dom::mux(el, bases);
	}
	Val v = mkBits(std::move(r));
	return v.w > w ? ops::trunc(v, w) : v;
}
void Interp::storeInt(State &st, const Val &p, const Val &v, Frame *fr, uint32_t align, bool atomic) {
	stores++;
	uint32_t n = (v.w + 7) / 8;
	if (p.k == 0) {
		if (!boundsOk(st, p.c, n, ONE, fr, true, align)) {
			if (p.c < 0x100000000ull || !st.mem.get(idOf(p.c))) throw Dead();
			const Obj *o = st.mem.get(idOf(p.c));
			if (o->live == ZERO || o->kind == O_CONST || o->kind == O_FUNC) return;
			// keep the part that is in bounds
			int64_t off = offOf(p.c) - o->start();
			for (uint32_t i = 0; i < n; i++) if (off + i >= 0 && uint64_t(off + i) < o->size)
				writeVal(st.mem.wr(idOf(p.c)), off + i, ops::slice(ops::zext(v, n * 8), i * 8, 8));
			return;
		}
		if (monitor) access(st, p.c, n, true, atomic, fr, curOrd);
		if (effects) watch(st, p.c, n, &v, fr);
		Obj *o = st.mem.wr(idOf(p.c));
		const uint32_t off = offOf(p.c) - o->start();
		if (track) { if (o->wid.empty()) o->wid.resize(o->size); for (uint32_t i = 0; i < n; i++) o->wid[off + i] = n << 8 | i; }
		writeVal(o, off, v);
		return;
	}
	checkUndef(st, fr, p, "address");
	std::vector<Tgt> tg; std::vector<Poly> bases; std::vector<uint64_t> per;
	if (!targets(p, tg, bases, per)) throw Undecided("store address depends on too many unknown bits at " + where(fr));
	Val vv = v.w == n * 8 ? v : ops::zext(v, n * 8);
	for (auto &t : tg) {
		if (impossible(st, t.g)) continue;
		if (!boundsOk(st, t.addr, n, t.g, fr, true, align)) continue;
		if (monitor) access(st, t.addr, n, true, atomic, fr, curOrd);
		if (effects) watch(st, t.addr, n, &v, fr);
		Obj *o = st.mem.wr(idOf(t.addr));
		uint32_t off = offOf(t.addr) - o->start();
		Val old = readVal(o, idOf(t.addr), off, n);
		writeVal(o, off, mergeVal(t.g, vv, old));
	}
}
Val Interp::load(State &st, const Val &p, const Type *ty, uint32_t align, Frame *fr, bool atomic) {
	if (auto *s = dyn_cast<StructType>(ty)) {
		auto *sl = DL.getStructLayout(const_cast<StructType *>(s));
		std::vector<Val> el;
		for (unsigned i = 0; i < s->getNumElements(); i++) el.push_back(load(st, ops::add(p, mk(64, sl->getElementOffset(i))), s->getElementType(i), 1, fr, atomic));
		return mkAgg(el);
	}
	if (ty->isArrayTy() || ty->isVectorTy()) {
		const Type *e = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
		uint64_t n = ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
		uint64_t es = DL.getTypeAllocSize(const_cast<Type *>(e));
		std::vector<Val> el;
		for (uint64_t i = 0; i < n; i++) el.push_back(load(st, ops::add(p, mk(64, i * es)), e, 1, fr, atomic));
		return mkAgg(el);
	}
	return loadInt(st, p, DL.getTypeSizeInBits(const_cast<Type *>(ty)), fr, align, atomic);
}
void Interp::store(State &st, const Val &p, const Val &v, const Type *ty, uint32_t align, Frame *fr, bool atomic) {
	if (auto *s = dyn_cast<StructType>(ty)) {
		auto *sl = DL.getStructLayout(const_cast<StructType *>(s));
		for (unsigned i = 0; i < s->getNumElements(); i++) store(st, ops::add(p, mk(64, sl->getElementOffset(i))), v.n->el[i], s->getElementType(i), 1, fr, atomic);
		return;
	}
	if (ty->isArrayTy() || ty->isVectorTy()) {
		const Type *e = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
		uint64_t es = DL.getTypeAllocSize(const_cast<Type *>(e));
		for (uint64_t i = 0; i < v.n->el.size(); i++) store(st, ops::add(p, mk(64, i * es)), v.n->el[i], e, 1, fr, atomic);
		return;
	}
	storeInt(st, p, v, fr, align, atomic);
}
void Interp::copyBytes(State &st, const Val &d, const Val &s, uint64_t n, Frame *fr) {
	if (!n) return;
	moved += n;
	if (d.k == 0 && s.k == 0) {
		bool so = boundsOk(st, s.c, n, ONE, fr, false, 1), dk = boundsOk(st, d.c, n, ONE, fr, true, 1);
		if (so && dk) {
			if (monitor) { access(st, s.c, n, false, false, fr); access(st, d.c, n, true, false, fr); }
			loads++; stores++;
			Ref<Obj> src(const_cast<Obj *>(st.mem.get(idOf(s.c))));
			Obj *o = st.mem.wr(idOf(d.c));
			const Obj *so_ = idOf(d.c) == idOf(s.c) ? o : src.p;
			uint32_t a = offOf(s.c) - so_->start(), b = offOf(d.c) - o->start();
			std::vector<uint8_t> td(so_->data.begin() + a, so_->data.begin() + a + n), ts(so_->st.begin() + a, so_->st.begin() + a + n);
			std::vector<std::array<Poly, 8>> ty;
			if (!so_->sym.empty()) ty.assign(so_->sym.begin() + a, so_->sym.begin() + a + n);
			if (track) {
				std::vector<uint16_t> tw(n); if (!so_->wid.empty()) tw.assign(so_->wid.begin() + a, so_->wid.begin() + a + n);
				if (o->wid.empty()) o->wid.resize(o->size);
				std::copy(tw.begin(), tw.end(), o->wid.begin() + b);
			}
			for (uint64_t i = 0; i < n; i++) {
				o->data[b + i] = td[i]; o->st[b + i] = ts[i];
				if (ts[i] == 2) { if (o->sym.empty()) o->sym.resize(o->size); o->sym[b + i] = ty[i]; }
			}
			if (effects) watch(st, d.c, n, nullptr, fr);
			return;
		}
		if (s.c < 0x100000000ull || d.c < 0x100000000ull) throw Dead();
	}
	std::vector<Val> t;
	for (uint64_t i = 0; i < n; i++) {
		Val a = ops::add(s, mk(64, i));
		if (a.k == 0) {
			const Obj *o = st.mem.get(idOf(a.c)); int64_t off = o ? offOf(a.c) - o->start() : -1;
			if (!o || o->live == ZERO || off < 0 || uint64_t(off) >= o->size) { t.push_back(undef(8, "out-of-bounds read")); continue; }
		}
		t.push_back(loadInt(st, a, 8, fr));
	}
	for (uint64_t i = 0; i < n; i++) {
		Val a = ops::add(d, mk(64, i));
		if (a.k == 0) {
			const Obj *o = st.mem.get(idOf(a.c)); int64_t off = o ? offOf(a.c) - o->start() : -1;
			if (!o || o->live == ZERO || off < 0 || uint64_t(off) >= o->size) continue;
		}
		storeInt(st, a, t[i], fr);
	}
}
void Interp::copyGuarded(State &st, const Val &d, const Val &s, const Val &n, Frame *fr) {
	std::vector<Poly> bits, bases; std::vector<std::vector<bool>> tb; bitsOf(n, bits);
	if (!ops::basis(bits, 11, bases, tb)) throw Undecided("copy length depends on too many unknown bits at " + where(fr));
	uint64_t mx = 0;
	for (size_t q = 0; q < (size_t(1) << bases.size()); q++) {
		uint64_t v = 0; for (size_t i = 0; i < bits.size(); i++) v |= uint64_t(tb[i][q]) << i;
		if (v > mx && feasible(st, oneHot(bases, q), nullptr, 8) != 0) mx = v;
	}
	if (mx > 65536) throw Undecided("copy length may be huge at " + where(fr));
	std::vector<Val> t(mx); std::vector<Poly> g(mx);
	for (uint64_t i = 0; i < mx; i++) {
		g[i] = ops::ult(mk(n.w, i), n);
		if (impossible(st, g[i])) continue;
		st.conj.push_back(g[i]);
		t[i] = loadInt(st, ops::add(s, mk(64, i)), 8, fr);
		st.conj.pop_back();
	}
	for (uint64_t i = 0; i < mx; i++) if (t[i].set()) {
		Val a = ops::add(d, mk(64, i));
		st.conj.push_back(g[i]);
		Val old = loadInt(st, a, 8, fr);
		storeInt(st, a, mergeVal(g[i], t[i], old), fr);
		st.conj.pop_back();
	}
}
void Interp::freePtr(State &st, const Val &p, Frame *fr, int fn) {
	std::vector<Tgt> tg;
	if (p.k == 0) tg.push_back({p.c, ONE});
	else {
		std::vector<Poly> b; std::vector<uint64_t> per;
		if (!targets(p, tg, b, per)) throw Undecided("release of a pointer with too many targets");
	}
	for (auto &t : tg) {
		if (t.addr == 0 || impossible(st, t.g)) continue;
		const Obj *o = t.addr >= 0x100000000ull ? st.mem.get(idOf(t.addr)) : nullptr;
		if (!o) { event(st, fr, "bad-free", "release of an invalid pointer", t.g, false); continue; }
		if (o->live == ZERO) { event(st, fr, "double-free", "block released twice", t.g, false); continue; }
		if (o->live != ONE) {
			Poly d = dom::a(t.g, dom::n(o->live));
			if (d != ZERO && !impossible(st, d)) event(st, fr, "double-free", "block released twice", d, false);
		}
		if (o->kind != O_HEAP && o->kind != O_EXC) { event(st, fr, "bad-free", "release of " + objName(o), t.g, false); continue; }
		if (offOf(t.addr) - o->start() != 0) { event(st, fr, "bad-free", "release of a pointer into the middle of " + objName(o), t.g, false); continue; }
		if (fn && o->allocFn && fn != o->allocFn) event(st, fr, "bad-free", "mismatched allocation and release functions", t.g, false);
		if (monitor) {
			const uint32_t id = idOf(t.addr);
			if (id < monitorBelow) access(st, t.addr, o->size, true, false, fr);
			else if (t.g == ONE) accesses.erase(accesses.lower_bound({id, 0}), accesses.lower_bound({id + 1, 0}));   // never seen by others
		}
		if (o->kind == O_HEAP) liveBytes -= o->size;
		if (t.g == ONE) st.mem.put(idOf(t.addr), tomb(o->kind));
		else {
			Obj *w = st.mem.wr(idOf(t.addr));
			w->live = dom::a(w->live, dom::n(t.g));
			if (w->live == ZERO) st.mem.put(idOf(t.addr), tomb(w->kind));
		}
	}
}

// Four objects, successive members of a chain (an iterator, its successor, ...):
// their memory graphs are compared, and what differs must be an integer field
// that grows by a constant step, at the width it was stored with.  The target
// graph is made the member with the unknown number n (patch), or is compared
// with it; `first` is the number of the first of the four.  Objects common to all are not touched.
bool Interp::generalise(State &st, const std::array<uint64_t, 4> &at, uint64_t target, uint64_t first, const std::vector<Poly> &n, bool patch) {
	auto no = [&](const std::string &w) { if (genWhy.empty()) genWhy = w; return false; };
	if (at[0] == at[1] && at[1] == at[2] && at[2] == at[3]) return target == at[0] ? true : no("a common object is replaced");
	const Obj *o[4], *t;
	std::array<uint64_t, 4> key; for (int k = 0; k < 4; k++) key[k] = idOf(at[k]);
	for (int k = 0; k < 4; k++) {
		if (at[k] < 0x100000000ull || !(o[k] = st.mem.get(key[k]))) return no("a pointer is null or invalid in some members of the chain");
		if (offOf(at[k]) - o[k]->start() != offOf(at[0]) - o[0]->start() || o[k]->kind != O_HEAP || o[k]->live != ONE || o[k]->size != o[0]->size) return no("the members of the chain have different shapes");
	}
	if (target < 0x100000000ull || !(t = st.mem.get(idOf(target)))) return no("a pointer of the successor is null or invalid");
	if (t->kind != O_HEAP || t->live != ONE || t->size != o[0]->size || offOf(target) - t->start() != offOf(at[0]) - o[0]->start()) return no("the successor has a different shape");
	auto sn = genSeen.find(key);
	if (sn != genSeen.end()) return uint32_t(sn->second) == idOf(target) ? true : no("shared differently");
	genSeen[key] = idOf(target); genObjs++;
	const uint32_t size = o[0]->size, tid = idOf(target);
	auto at8 = [&](const Obj *q, uint32_t i) { uint64_t v = 0; for (int b = 0; b < 8; b++) v |= uint64_t(q->data[i + b]) << (8 * b); return v; };
	auto pointer = [&](const Obj *q, uint32_t i) {
		if (i % 8 || i + 8 > size) return false;
		for (int b = 0; b < 8; b++) if (q->st[i + b] != 1) return false;
		const uint64_t v = at8(q, i);
		return v >= 0x100000000ull && (v & 0xffffffffull) >= BASE - 0x1000000 && st.mem.get(idOf(v));
	};
	for (uint32_t i = 0; i < size;) {
		bool same = true;
		for (int k = 1; k < 4; k++) same &= o[k]->st[i] == o[0]->st[i] && (o[k]->st[i] != 1 || o[k]->data[i] == o[0]->data[i]) && (o[k]->st[i] != 2 || o[k]->sym[i] == o[0]->sym[i]);
		if (same && !(i % 8 == 0 && pointer(o[0], i))) {
			if (o[0]->st[i] && !(t->st[i] == o[0]->st[i] && (t->st[i] != 1 || t->data[i] == o[0]->data[i]) && (t->st[i] != 2 || t->sym[i] == o[0]->sym[i]))) {
				// equal in all members seen; it may still be the upper part of a growing field, which is looked at there
				const uint16_t w = o[0]->wid.empty() ? 0 : o[0]->wid[i];
				if (!(w & 255)) return no("a field of the successor is not that of the others");
				const uint32_t from = i - (w & 255);
				bool part = false;
				for (uint32_t j = from; j < i; j++) for (int k = 1; k < 4; k++) part |= o[k]->st[j] != o[0]->st[j] || o[k]->data[j] != o[0]->data[j];
				if (!part) return no("a field of the successor is not that of the others");
			}
			i++; continue;
		}
		if (i % 8 == 0 && pointer(o[0], i)) {
			std::array<uint64_t, 4> v; bool all = pointer(t, i);
			for (int k = 0; k < 4; k++) { all &= pointer(o[k], i); v[k] = all ? at8(o[k], i) : 0; }
			if (!all) return no("a pointer is not one in every member of the chain");
			const uint64_t tv = at8(t, i);
			if (!generalise(st, v, tv, first, n, patch)) return false;
			t = st.mem.get(tid); for (int k = 0; k < 4; k++) o[k] = st.mem.get(key[k]);
			i += 8; continue;
		}
		// a field that differs
		if (o[0]->wid.empty() || !o[0]->wid[i]) return no("a differing byte was not stored as an integer");
		const uint32_t w = o[0]->wid[i] >> 8, f = i - (o[0]->wid[i] & 255);
		if (w > 8 || f + w > size) return no("a differing field is wider than a machine word");
		uint64_t v[4] = {};
		for (int k = 0; k < 4; k++) for (uint32_t b = 0; b < w; b++) {
			if (o[k]->st[f + b] != 1) return no("a differing field is not a known number");
			if (o[k]->wid.empty() || o[k]->wid[f + b] != (w << 8 | b)) return no("a differing field is not stored as one integer");
			v[k] |= uint64_t(o[k]->data[f + b]) << (8 * b);
		}
		const uint64_t m = maskw(8 * w), d = (v[1] - v[0]) & m;
		if (((v[2] - v[1]) & m) != d || ((v[3] - v[2]) & m) != d) return no("a differing field does not grow by a constant step");
		std::vector<Poly> nb(64, ZERO); for (size_t b = 0; b < n.size() && b < 64; b++) nb[b] = n[b];
		const Val want = ops::trunc(ops::add(mk(64, v[0] - d * first), ops::mul(mkBits(nb), mk(64, d))), 8 * w);
		if (patch) {
			Obj *q = st.mem.wr(tid);
			writeVal(q, f, want);
			t = q; for (int k = 0; k < 4; k++) o[k] = st.mem.get(key[k]);
			genFields++;
		} else {
			const Val got = readVal(t, tid, f, w);
			for (uint32_t b = 0; b < 8 * w; b++) if (bitOf(got, b) != bitOf(want, b) && !impossible(st, dom::x(bitOf(got, b), bitOf(want, b)))) return no("a field of the successor is not the next value");
		}
		i = f + w;
	}
	return true;
}

// ---------------------------------------------------------------- control
void Interp::enter(Frame &fr, State &st, int from, int to) {
	BBI &b = fr.f->bbs[to];
	b.seen = true;
	if (b.phis.empty()) return;
	std::vector<Val> v;
	for (auto &p : b.phis) {
		int k = -1;
		for (size_t i = 0; i < p.succ.size(); i++) if (p.succ[i] == from) { k = i; break; }
		v.push_back(op(st, fr.f, p.ops[k]));
	}
	for (size_t i = 0; i < v.size(); i++) st.env[b.phis[i].dst] = std::move(v[i]);
}
bool Interp::forkJoin(Frame &fr, State &st, std::vector<Side> &sides, int from, int J) {
	forks++;
	if (++fr.nest > 600) throw Undecided("loop with unknown bound in " + fr.f->pretty);
	std::vector<Poly> pc = st.conj;
	std::vector<size_t> reached; bool complete = true;
	for (size_t i = 0; i < sides.size(); i++) {
		Side &s = sides[i];
		s.st.conj = pc; s.st.conj.push_back(s.c);
		enter(fr, s.st, from, s.target);
		bool r = false;
		try { r = region(fr, s.st, s.target, J); } catch (Dead &) { r = false; }
		if (r) { reached.push_back(i); if (s.st.conj.size() != pc.size() + 1) complete = false; }
		else { complete = false; s.st = State(); }
	}
	fr.nest--;
	if (reached.empty()) return false;
	if (reached.size() == 1) { st = std::move(sides[reached[0]].st); return true; }
	Poly rest = ZERO;
	if (!complete) for (size_t i : reached) {
		Poly g = ONE;
		for (size_t k = pc.size(); k < sides[i].st.conj.size(); k++) g = dom::a(g, sides[i].st.conj[k]);
		rest = dom::x(rest, g);
	}
	State acc = std::move(sides[reached.back()].st);
	for (size_t k = reached.size() - 1; k-- > 0;) {
		Side &s = sides[reached[k]];
		Mem m = std::move(acc.mem);
		mergeMem(s.c, s.st.mem, std::move(m));
		acc.mem = std::move(s.st.mem);
		for (size_t i = 0; i < acc.env.size(); i++) acc.env[i] = mergeVal(s.c, s.st.env[i], acc.env[i]);
	}
	st = std::move(acc);
	st.conj = pc;
	if (!complete && rest != ONE) st.conj.push_back(rest);
	return true;
}
bool Interp::landing(State &st, Frame &fr, const LandingPadInst *lp, uint64_t ti, uint64_t &sel) {
	std::string tn = tiName[ti];
	for (unsigned i = 0; i < lp->getNumClauses(); i++) {
		if (lp->isFilter(i)) { sel = ~0ull; return true; }
		auto *c = lp->getClause(i)->stripPointerCasts();
		if (isa<ConstantPointerNull>(c)) { sel = 1; return true; }
		std::string n = cast<GlobalValue>(c)->getName().str();
		if (derives(tn, n)) {
			auto it = selIds.find(n);
			if (it == selIds.end()) it = selIds.emplace(n, selIds.size() + 2).first;
			sel = it->second; return true;
		}
	}
	sel = 0;
	return lp->isCleanup();
}
bool Interp::region(Frame &fr, State &st, int bb, int stop) {
	FI *f = fr.f;
	while (bb != stop) {
		BBI &b = f->bbs[bb];
		b.seen = true;
		int next = -1;
		for (const Ins &in : b.ins) {
			fr.cur = in.I;
			if (trace) { std::string t; raw_string_ostream os(t); in.I->print(os); fprintf(stderr, "%*s%s", int(frames.size()), "", t.substr(0, t.find(", !dbg")).c_str()); for (int o : in.ops) { const Val &v = op(st, f, o); if (v.k == 0) fprintf(stderr, " [%llx]", (unsigned long long)v.c); else fprintf(stderr, " [?]"); } fprintf(stderr, "\n"); }
			if (++steps > maxSteps) throw Undecided("step limit");
			if ((steps & 0xfffff) == 0 && deadline && nowSec() > deadline) throw Undecided("time limit");
			switch (in.op) {
			case Instruction::Ret: {
				RetSt r; r.g = prod(st.conj); if (!in.ops.empty()) r.v = op(st, f, in.ops[0]);
				r.mem = std::move(st.mem);
				fr.rets.push_back(std::move(r));
				return false;
			}
			case Instruction::Unreachable:
				event(st, &fr, "unreachable", "control reaches a point the compiler assumes unreachable", ONE, true);
				return false;
			case Instruction::Resume: {
				const Val &v = op(st, f, in.ops[0]);
				Unw u; u.g = prod(st.conj); u.exc = v.n->el[0]; u.ti = st.ti; u.mem = std::move(st.mem);
				fr.unws.push_back(std::move(u));
				return false;
			}
			case Instruction::Br: {
				if (in.ops.empty()) { next = in.succ[0]; enter(fr, st, bb, next); break; }
				Val c = op(st, f, in.ops[0]);
				if (c.k == 0) { next = in.succ[c.c ? 0 : 1]; enter(fr, st, bb, next); break; }
				if (in.succ[0] == in.succ[1]) { next = in.succ[0]; enter(fr, st, bb, next); break; }
				checkUndef(st, &fr, c, "branch condition");
				Poly p = c.n->bits[0];
				if (impossible(st, p)) { next = in.succ[1]; enter(fr, st, bb, next); break; }
				if (impossible(st, dom::n(p))) { next = in.succ[0]; enter(fr, st, bb, next); break; }
				{
					std::vector<Poly> all; pathAll(st, all);
					if (!all.empty() && dom::refuted(p, all)) { next = in.succ[1]; enter(fr, st, bb, next); break; }
					if (!all.empty() && dom::refuted(dom::n(p), all)) { next = in.succ[0]; enter(fr, st, bb, next); break; }
				}
				std::vector<Side> s(2);
				s[0].c = p; s[0].target = in.succ[0]; s[0].st = st;
				s[1].c = dom::n(p); s[1].target = in.succ[1]; s[1].st = std::move(st);
				st.conj = s[0].st.conj;
				int J = joinOf(f, bb, in.succ);
				if (J < 0) J = stop;   // no join before the function ends
				// do not run past the enclosing stop
				if (!forkJoin(fr, st, s, bb, J)) return false;
				next = J;
				if (J < 0) return false;
				break;
			}
			case Instruction::Switch: {
				Val c = op(st, f, in.ops[0]);
				if (c.k == 0) {
					next = in.succ[0];
					for (size_t i = 1; i < in.ops.size(); i++) if (op(st, f, in.ops[i]).c == c.c) { next = in.succ[i]; break; }
					enter(fr, st, bb, next); break;
				}
				checkUndef(st, &fr, c, "switch value");
				std::map<int, Poly> tg; Poly rest = ONE;
				for (size_t i = 1; i < in.ops.size(); i++) {
					Poly e = ops::eq(c, op(st, f, in.ops[i]));
					if (e == ZERO) continue;
					auto it = tg.find(in.succ[i]);
					if (it == tg.end()) tg[in.succ[i]] = e; else it->second = dom::o(it->second, e);
					rest = dom::a(rest, dom::n(e));
				}
				{ auto it = tg.find(in.succ[0]); if (it == tg.end()) tg[in.succ[0]] = rest; else it->second = dom::o(it->second, rest); }
				std::vector<Side> s; std::vector<int> ss;
				std::vector<Poly> all; pathAll(st, all);
				for (auto &kv : tg) if (!impossible(st, kv.second) && !dom::refuted(kv.second, all)) { Side x; x.c = kv.second; x.target = kv.first; x.st = st; s.push_back(std::move(x)); ss.push_back(kv.first); }
				if (s.empty()) return false;
				if (s.size() == 1) { next = s[0].target; enter(fr, st, bb, next); break; }
				int J = joinOf(f, bb, ss); if (J < 0) J = stop;
				if (!forkJoin(fr, st, s, bb, J)) return false;
				next = J; if (J < 0) return false;
				break;
			}
			case Instruction::Call: case Instruction::Invoke: {
				bool ended = false;
				if (in.callee && in.callee->isIntrinsic()) {
					Val v = intrinsic(fr, st, in, ended);
					if (ended) return false;
					if (in.dst >= 0) st.env[in.dst] = v;
					break;
				}
				Out o;
				{
					std::vector<Val> args;
					size_t na = in.ops.size() - (in.callee ? 0 : 1);
					for (size_t i = 0; i < na; i++) args.push_back(op(st, f, in.ops[i]));
					if (in.callee) o = call(st, &fr, in.callee, std::move(args), in.I);
					else o = callVal(st, &fr, op(st, f, in.ops.back()), std::move(args), in.I);
				}
				fr.cur = in.I;
				if (in.op == Instruction::Call) {
					if (!o.unw.empty()) {
						Poly g = prod(st.conj);
						for (auto &u : o.unw) { u.g = dom::a(g, u.g); fr.unws.push_back(std::move(u)); }
					}
					if (!o.has) return false;
					st.mem = std::move(o.mem);
					if (o.g != ONE) st.conj.push_back(o.g);
					if (in.dst >= 0) st.env[in.dst] = std::move(o.v);
					break;
				}
				// invoke
				std::vector<Side> s; std::vector<int> ss;
				if (o.has) {
					Side x; x.c = o.g; x.target = in.succ[0]; x.st = st; x.st.mem = std::move(o.mem);
					if (in.dst >= 0) x.st.env[in.dst] = o.v;
					s.push_back(std::move(x)); ss.push_back(in.succ[0]);
				}
				auto *lp = cast<InvokeInst>(in.I)->getLandingPadInst();
				for (auto &u : o.unw) {
					uint64_t sel;
					if (!landing(st, fr, lp, u.ti, sel)) {
						u.g = dom::a(prod(st.conj), u.g); fr.unws.push_back(std::move(u)); continue;
					}
					Side x; x.c = u.g; x.target = in.succ[1]; x.st = st; x.st.mem = std::move(u.mem); x.st.exc = u.exc; x.st.ti = u.ti;
					s.push_back(std::move(x)); ss.push_back(in.succ[1]);
				}
				if (s.empty()) return false;
				if (s.size() == 1) {
					Poly g = s[0].c; next = s[0].target; std::vector<Poly> cj = st.conj;
					st = std::move(s[0].st); st.conj = cj; if (g != ONE) st.conj.push_back(g);
					enter(fr, st, bb, next); break;
				}
				st.mem = Mem();
				int J = joinOf(f, bb, ss); if (J < 0) J = stop;
				if (!forkJoin(fr, st, s, bb, J)) return false;
				next = J; if (J < 0) return false;
				break;
			}
			default:
				exec(fr, st, in);
			}
			if (next >= 0) break;
		}
		if (next < 0) return false;
		bb = next;
	}
	return true;
}
Out Interp::merge(Frame &fr) {
	Out o;
	auto kill = [&](Mem &m) { for (uint32_t id : fr.allocas) if (m.get(id)) m.put(id, tomb(O_STACK)); };
	for (auto &r : fr.rets) kill(r.mem);
	for (auto &u : fr.unws) kill(u.mem);
	if (!fr.rets.empty()) {
		o.has = true;
		RetSt acc = std::move(fr.rets.back());
		for (size_t i = fr.rets.size() - 1; i-- > 0;) {
			RetSt &r = fr.rets[i];
			Mem m = std::move(acc.mem);
			mergeMem(r.g, r.mem, std::move(m));
			acc.mem = std::move(r.mem);
			acc.v = mergeVal(r.g, r.v, acc.v);
			acc.g = dom::x(acc.g, r.g);
		}
		o.g = acc.g; o.mem = std::move(acc.mem); o.v = std::move(acc.v);
	}
	std::map<uint64_t, Unw> by;
	for (auto &u : fr.unws) {
		auto it = by.find(u.ti);
		if (it == by.end()) { by.emplace(u.ti, std::move(u)); continue; }
		Unw &a = it->second;
		Mem m = std::move(a.mem);
		mergeMem(u.g, u.mem, std::move(m));
		a.mem = std::move(u.mem);
		a.exc = mergeVal(u.g, u.exc, a.exc);
		a.g = dom::x(a.g, u.g);
	}
	for (auto &kv : by) o.unw.push_back(std::move(kv.second));
	return o;
}
Out Interp::runFunction(State &caller, FI *fi, std::vector<Val> &args) {
	Frame fr; fr.f = fi;
	State st; st.mem = std::move(caller.mem); st.env.resize(fi->nslots);
	for (size_t i = 0; i < fi->F->arg_size() && i < args.size(); i++) {
		if (fi->F->hasParamAttribute(i, Attribute::ByVal)) {
			Type *t = fi->F->getParamByValType(i); uint64_t a;
			uint32_t n = DL.getTypeAllocSize(t);
			fr.allocas.push_back(alloc(st.mem, n, O_STACK, 16, nullptr, &a));
			copyBytes(st, mk(64, a), args[i], n, nullptr);
			st.env[i] = mk(64, a);
		} else st.env[i] = args[i];
	}
	size_t ps = pathStack.size();
	pathStack.insert(pathStack.end(), caller.conj.begin(), caller.conj.end());
	frames.push_back(&fr);
	struct Guard { Interp *in; size_t ps; ~Guard() { in->pathStack.resize(ps); in->frames.pop_back(); in->depth--; } } gd{this, ps};
	depth++;
	if (depth > maxDepth) maxDepth = depth;
	if (depth > 30000) { event(st, &fr, "stack", "call depth exceeds 30000 frames", ONE, true); throw Dead(); }
	fi->calls++;
	if (fi->repo) { visited.insert(fi); scopeVisited.insert(fi); }
	try { region(fr, st, 0, -1); } catch (Dead &) {}
	return merge(fr);
}
Out Interp::call(State &st, Frame *fr, const Function *F, std::vector<Val> args, const Instruction *I) {
	auto b = builtins.find(F->getName().str());
	if (b != builtins.end()) {
		Call c{*this, st, fr, I, std::move(args), Val(), {}, false, F};
		Out o;
		b->second(c);
		o.has = !c.noret; o.unw = std::move(c.unw);
		o.v = c.ret;
		if (o.has) o.mem = std::move(st.mem);
		if (!o.unw.empty() && o.has) { Poly g = ONE; for (auto &u : o.unw) g = dom::a(g, dom::n(u.g)); o.g = g; }
		if (!o.has && o.unw.empty()) throw Dead();
		return o;
	}
	if (F->isDeclaration()) throw Undecided("call of external function " + demangle(F->getName().str()) + " from " + where(fr));
	FI *fi = info(F);
	Out o = runFunction(st, fi, args);
	if (!o.has && o.unw.empty()) throw Dead();
	return o;
}
static Val specialize(const Val &v, const std::vector<Poly> &bases, size_t s) {
	if (v.k == 2) { std::vector<Val> el; for (auto &e : v.n->el) el.push_back(specialize(e, bases, s)); return mkAgg(el); }
	if (v.k == 0) return v;
	std::vector<Poly> b = v.n->bits;
	for (auto &p : b) if (p > ONE) for (size_t i = 0; i < bases.size(); i++) {
		if (p == bases[i]) p = (s >> i & 1) ? ONE : ZERO;
		else if (p == dom::n(bases[i])) p = (s >> i & 1) ? ZERO : ONE;
	}
	return mkBits(b);
}
Out Interp::callVal(State &st, Frame *fr, const Val &fp, std::vector<Val> args, const Instruction *I) {
	if (fp.k == 0) {
		const Function *F = funcAt(fp.c);
		if (!F) { event(st, fr, "bad-call", fp.c ? "call through an invalid function pointer" : "call through a null function pointer", ONE, true); throw Dead(); }
		return call(st, fr, F, std::move(args), I);
	}
	checkUndef(st, fr, fp, "call target");
	std::vector<Tgt> tg; std::vector<Poly> bases; std::vector<uint64_t> per;
	if (!targets(fp, tg, bases, per)) throw Undecided("call target depends on too many unknown bits at " + where(fr));
	Frame tmp; tmp.f = fr ? fr->f : nullptr;
	bool any = false;
	for (size_t s = 0; s < per.size(); s++) {
		Poly g = oneHot(bases, s);
		if (impossible(st, g)) continue;
		if (!funcAt(per[s])) { event(st, fr, "bad-call", "call through an invalid function pointer", g, true); continue; }
		State s2; s2.mem = st.mem; s2.conj = st.conj; s2.conj.push_back(g);
		std::vector<Val> a2; for (auto &a : args) a2.push_back(specialize(a, bases, s));
		try {
			Out o = call(s2, fr, funcAt(per[s]), a2, I);
			any = true;
			if (o.has) { RetSt r; r.g = dom::a(g, o.g); r.mem = std::move(o.mem); r.v = o.v; tmp.rets.push_back(std::move(r)); }
			for (auto &u : o.unw) { u.g = dom::a(g, u.g); tmp.unws.push_back(std::move(u)); }
		} catch (Dead &) {}
	}
	if (!any) throw Dead();
	Out o = merge(tmp);
	if (o.unw.empty() && tmp.rets.size() == per.size()) o.g = ONE;
	return o;
}
