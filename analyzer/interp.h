// Abstract interpreter for LLVM IR over the bit domain.
//
// Control flow whose condition is not a constant of the domain is analysed on
// both sides up to the immediate post-dominator and the two abstract states
// are joined there (values become if-then-else forms); there is no
// enumeration of paths and no constraint solver.
#pragma once
#include "val.h"
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

struct Undecided : std::runtime_error { using std::runtime_error::runtime_error; };

enum ObjKind : uint8_t { O_STACK, O_HEAP, O_GLOBAL, O_CONST, O_FUNC, O_EXT, O_EXC };

struct Obj {
	int rc = 0;
	uint32_t size = 0, align = 16;
	uint32_t start() const { return align < 16 ? align : 0; }
	ObjKind kind = O_STACK;
	uint8_t allocFn = 0;               // 1 new, 2 new[], 3 malloc
	bool made = false;                 // on the heap, by an initialisation that happens once
	Poly live = ONE;
	const llvm::Value *site = nullptr; // alloca / global
	std::vector<uint8_t> data, st;     // st: 0 uninitialised, 1 constant, 2 symbolic
	std::vector<std::array<Poly, 8>> sym;
	std::vector<uint16_t> wid;         // width<<8|offset of the last store, while stores are tracked
	Obj() {}
	Obj(const Obj &o) : rc(0), size(o.size), align(o.align), kind(o.kind), allocFn(o.allocFn), made(o.made), live(o.live), site(o.site),
		data(o.data), st(o.st), sym(o.sym), wid(o.wid) {}
};
struct Chunk { int rc = 0; Ref<Obj> o[64]; Chunk() {} Chunk(const Chunk &c) { for (int i = 0; i < 64; i++) o[i] = c.o[i]; } };
struct Big { int rc = 0; Ref<Chunk> c[64]; Big() {} Big(const Big &b) { for (int i = 0; i < 64; i++) c[i] = b.c[i]; } };

struct Caught { Val exc; bool rethrown; };
struct Mem {
	std::vector<Ref<Big>> t;
	std::vector<Caught> caught;
	std::vector<uint64_t> locks;      // held here on every path
	std::set<uint64_t> mayLocks;      // held on some path
	const Obj *get(uint32_t id) const {
		size_t b = id >> 12;
		if (b >= t.size() || !t[b]) return nullptr;
		const Chunk *c = t[b]->c[(id >> 6) & 63].p;
		return c ? c->o[id & 63].p : nullptr;
	}
	Obj *wr(uint32_t id);
	void put(uint32_t id, Ref<Obj> o);
};

struct State {
	Mem mem;
	std::vector<Val> env;
	std::vector<Poly> conj;   // relative to function entry
	Val exc; uint64_t ti = 0; // exception being delivered to a landing pad
};
struct Unw { Poly g; Mem mem; Val exc; uint64_t ti; };
struct RetSt { Poly g; Mem mem; Val v; };
struct Out {
	bool has = false; Poly g = ONE; Mem mem; Val v;
	std::vector<Unw> unw;
};

struct Ins {
	const llvm::Instruction *I; unsigned op; int dst; uint32_t w;
	std::vector<int> ops; std::vector<int> succ;
	// gep: constant offset plus (operand, scale)
	int64_t off = 0; std::vector<std::pair<int, int64_t>> sc;
	const llvm::Type *ty = nullptr; uint32_t align = 1; const llvm::Function *callee = nullptr;
	std::vector<std::pair<int, std::vector<int>>> phi;
};
struct BBI { const llvm::BasicBlock *bb; std::vector<Ins> phis, ins; std::vector<int> succ; int ip1 = -1, ip2 = -1; bool toRet = false; bool seen = false; };
struct FI {
	const llvm::Function *F; std::string name, pretty; int nslots = 0; std::vector<BBI> bbs; std::vector<Val> consts;
	bool repo = false; std::string file; unsigned line = 0; uint64_t calls = 0;
};
struct Frame { FI *f; std::vector<uint32_t> allocas; std::vector<RetSt> rets; std::vector<Unw> unws; int nest = 0; const llvm::Instruction *cur = nullptr; };

struct Event {
	std::string kind, msg, where, chain; bool confirmed, fatal; std::string witness;
};
struct Oblig {
	std::string name; uint64_t bits = 0, equal = 0, unknown = 0, count = 0; bool violated = false, known = false;
	std::string detail, where, knownId;
};
struct Access { bool write, atomic, acq, rel; const llvm::Instruction *I; std::vector<uint64_t> locks; FI *f; uint64_t seq; const llvm::Instruction *from; bool fresh; };

class Interp;
struct Call {
	Interp &in; State &st; Frame *fr; const llvm::Instruction *I; std::vector<Val> args; Val ret; std::vector<Unw> unw; bool noret = false;
	const llvm::Function *F;
	uint64_t c(unsigned i, const char *what);
};
typedef std::function<void(Call &)> Builtin;

class Interp {
public:
	explicit Interp(llvm::Module &m);
	void init();                       // globals and global constructors
	void runCtx(const llvm::Function *f, int arg);
	int callInt(const llvm::Function *f);

	llvm::Module &M; const llvm::DataLayout &DL;
	std::string repoPrefix = "/repo/";
	Mem base;
	std::vector<Event> events;
	std::vector<Oblig> obligs;
	std::set<std::string> notes;
	uint64_t moved = 0, liveBytes = 0, peakBytes = 0;   // bytes copied; heap bytes held
	uint64_t steps = 0, maxSteps = 1200000000ull, forks = 0, joins = 0, loads = 0, stores = 0;
	double deadline = 0;
	uint64_t depth = 0, maxDepth = 0;
	std::set<FI *> visited;
	std::set<FI *> scopeVisited;
	bool thorough = false;
	std::vector<uint64_t> thresholds;
	std::map<std::string, std::string> knownFindings;

	// -- used by builtins
	uint32_t alloc(Mem &m, uint32_t size, ObjKind k, uint32_t align, const llvm::Value *site, uint64_t *addr);
	Val load(State &st, const Val &p, const llvm::Type *ty, uint32_t align, Frame *fr, bool atomic = false);
	void store(State &st, const Val &p, const Val &v, const llvm::Type *ty, uint32_t align, Frame *fr, bool atomic = false);
	Val loadInt(State &st, const Val &p, uint32_t w, Frame *fr, uint32_t align = 1, bool atomic = false);
	void storeInt(State &st, const Val &p, const Val &v, Frame *fr, uint32_t align = 1, bool atomic = false);
	void copyBytes(State &st, const Val &d, const Val &s, uint64_t n, Frame *fr);
	void copyGuarded(State &st, const Val &d, const Val &s, const Val &n, Frame *fr);
	struct Tgt { uint64_t addr; Poly g; };
	bool targets(const Val &p, std::vector<Tgt> &out, std::vector<Poly> &bases, std::vector<uint64_t> &per);
	int feasible(State &st, Poly extra, dom::Point *pt = nullptr, unsigned tries = 24);
	bool impossible(State &st, Poly c);
	bool event(State &st, Frame *fr, const std::string &kind, const std::string &msg, Poly cond, bool fatal);
	Out call(State &st, Frame *fr, const llvm::Function *F, std::vector<Val> args, const llvm::Instruction *I);
	Out callVal(State &st, Frame *fr, const Val &fp, std::vector<Val> args, const llvm::Instruction *I);
	void freePtr(State &st, const Val &p, Frame *fr, int fn);
	void throwStd(Call &c, const char *ti);
	uint64_t tiAddr(const std::string &name);
	bool derives(const std::string &d, const std::string &b);
	std::string cstr(State &st, const Val &p);
	std::string where(Frame *fr);
	std::string chain();
	void pathAll(State &st, std::vector<Poly> &out);
	uint64_t addrOf(const llvm::GlobalValue *g);
	const llvm::Function *funcAt(uint64_t addr);
	std::vector<Frame *> frames;
	std::vector<Poly> pathStack;
	std::map<std::string, Builtin> builtins;
	void addBuiltins();
	void addCtxBuiltins();
	Val nullp() { return mk(64, 0); }
	FI *info(const llvm::Function *f);
	std::unordered_map<uint64_t, std::pair<uint64_t, uint64_t>> excInfo;   // exc addr -> ti, dtor
	std::unordered_map<uint64_t, std::string> tiName;
	uint32_t nextId = 1;
	std::string describe(uint64_t addr, State &st);
	std::string showPoint(dom::Point &pt, Poly a, Poly b);
	std::vector<std::pair<std::string, uint32_t>> inputNames;
	uint32_t inputId(const std::string &name);
	std::map<std::string, uint32_t> inputIds;
	std::map<std::string, uint32_t> ufIds;

	// -- state that outlives the objects of the caller
	bool effects = false, initPhase = false;
	bool inOnce(const Mem &m) { if (initPhase) return true; for (uint64_t l : m.locks) if ((l >> 61) == 4) return true; return false; }
	void watch(State &st, uint64_t addr, uint64_t n, const Val *v, Frame *fr);

	// -- generalisation of a chain of objects
	bool track = false;
	struct Gen { std::vector<uint64_t> root; };
	std::map<std::array<uint64_t, 4>, int> genSeen;
	unsigned genFields = 0, genObjs = 0; std::string genWhy;
	bool generalise(State &st, const std::array<uint64_t, 4> &at, uint64_t target, uint64_t first, const std::vector<Poly> &n, bool patch);

	// -- access monitoring
	bool monitor = false;
	uint32_t monitorBelow = 0;
	std::map<std::pair<uint32_t, uint32_t>, std::vector<Access>> accesses;
	std::vector<std::map<std::pair<uint32_t, uint32_t>, std::vector<Access>>> runs;
	uint64_t seq = 0, coldRuns = 1;
	struct Span { uint64_t first = ~0ull, last = 0; };            // of the critical sections of one run
	std::map<uint64_t, Span> spans; std::vector<std::map<uint64_t, Span>> runSpans;
	void lockTaken(uint64_t m) { if (monitor) { Span &s = spans[m]; ++seq; if (s.first == ~0ull) s.first = seq; } }
	void lockReleased(uint64_t m) { if (monitor) spans[m].last = ++seq; }
	std::string place(const llvm::Instruction *I);
	void access(State &st, uint64_t addr, uint64_t n, bool write, bool atomic, Frame *fr, llvm::AtomicOrdering ord = llvm::AtomicOrdering::NotAtomic);
	llvm::AtomicOrdering curOrd = llvm::AtomicOrdering::NotAtomic;
	Val constVal(const llvm::Constant *c);
	void mergeMem(Poly c, Mem &t, Mem &&f);      // t := ite(c, t, f)
	Val undef(uint32_t w, const std::string &note);
	std::string objName(const Obj *o);
	const llvm::Function *lastRepoEntry = nullptr;
private:
	std::unordered_map<const llvm::Function *, std::unique_ptr<FI>> fis;
	std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
	std::unordered_map<uint64_t, const llvm::Function *> faddr;
	std::unordered_map<std::string, uint64_t> extTi;
	std::map<std::string, std::vector<std::string>> tiBases;
	void initGlobal(Obj *o, uint32_t off, const llvm::Constant *c);
	void writeVal(Obj *o, uint32_t off, const Val &v);
	Val readVal(const Obj *o, uint32_t id, uint32_t off, uint32_t nbytes);
	void enter(Frame &fr, State &st, int from, int to);
	bool region(Frame &fr, State &st, int bb, int stop);
	struct Side { Poly c; State st; int target; };
	bool forkJoin(Frame &fr, State &st, std::vector<Side> &sides, int from, int J);
	int joinOf(FI *f, int bb, const std::vector<int> &succ);
	void exec(Frame &fr, State &st, const Ins &in);

	const Val &op(State &st, const FI *f, int i) { return i >= 0 ? st.env[i] : f->consts[~i]; }
	Out runFunction(State &caller, FI *fi, std::vector<Val> &args);
	Out merge(Frame &fr);
	bool boundsOk(State &st, uint64_t addr, uint64_t n, Poly g, Frame *fr, bool write, uint32_t align);
	Val intrinsic(Frame &fr, State &st, const Ins &in, bool &ended);
	bool landing(State &st, Frame &fr, const llvm::LandingPadInst *lp, uint64_t ti, uint64_t &sel);
	void checkUndef(State &st, Frame *fr, const Val &v, const char *what);
	std::unordered_map<std::string, uint64_t> selIds;
	std::unordered_map<uint32_t, Val> undefCache;
	std::unordered_map<Poly, bool> undefMemo;
};
double nowSec();
