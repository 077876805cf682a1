// Effects the library can reach, over the references between functions: every
// function and variable a function mentions, transitively, vtables included.
#include "interp.h"
#include <cstdlib>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/Analysis/ValueTracking.h>
using namespace llvm;

static std::string fileOf(const Function &f) {
	auto *sp = f.getSubprogram(); if (!sp) return "";
	std::string n = sp->getFilename().str(); if (!n.empty() && n[0] != '/') n = sp->getDirectory().str() + "/" + n;
	return n;
}
static std::string q(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else r += c < 32 || c > 126 ? '?' : c; }
	return r + "\"";
}
// names that mean input, output, clocks, randomness, environment, processes
static const char *deniedC[] = {
	"printf", "fprintf", "vprintf", "vfprintf", "dprintf", "vdprintf", "puts", "fputs", "putchar", "fputc", "putc", "_IO_putc", "fwrite", "fread", "fopen", "fopen64", "fdopen", "freopen", "fclose", "fflush",
	"perror", "getc", "fgetc", "getchar", "fgets", "getline", "getdelim", "scanf", "fscanf", "vscanf", "vfscanf", "__isoc99_scanf", "__isoc99_fscanf", "__isoc23_scanf", "__isoc23_fscanf", "ungetc", "fseek", "fputs_unlocked", "fwrite_unlocked", "tmpfile", "mkstemp",
	"__printf_chk", "__fprintf_chk", "__vfprintf_chk", "__vprintf_chk",
	"open", "open64", "openat", "creat", "read", "write", "pread", "pwrite", "readv", "writev", "close", "lseek", "stat", "lstat", "fstat", "access", "unlink", "remove", "rename", "mkdir", "rmdir", "mmap", "munmap", "mprotect", "ioctl", "fcntl", "dup", "dup2",
	"socket", "send", "sendto", "sendmsg", "recv", "recvfrom", "recvmsg", "connect", "accept", "bind", "listen", "pipe", "pipe2", "opendir", "readdir", "readlink", "realpath", "getcwd", "chdir",
	"fork", "vfork", "execve", "execv", "execvp", "execl", "execlp", "posix_spawn", "system", "popen", "kill", "raise", "signal", "sigaction", "sigprocmask", "alarm", "setitimer", "sleep", "usleep", "nanosleep", "clock_nanosleep", "exit", "_exit", "quick_exit", "atexit", "on_exit",
	"syslog", "vsyslog", "dlopen", "dlsym", "getpid", "getppid", "gettid", "getuid", "geteuid", "getgid", "pthread_create", "pthread_self", "sched_yield", "sched_getcpu", "sched_getaffinity", "syscall", "prctl",
	"time", "clock", "gettimeofday", "clock_gettime", "clock_getres", "timespec_get", "times", "localtime", "localtime_r", "gmtime", "gmtime_r", "mktime", "strftime", "ctime", "ftime",
	"rand", "rand_r", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "erand48", "srand48", "getrandom", "getentropy", "arc4random", "arc4random_buf", "arc4random_uniform",
	"getenv", "secure_getenv", "setenv", "unsetenv", "putenv", "clearenv", "setlocale", "localeconv", "uname", "gethostname", "getrusage", "sysconf", "get_nprocs", "sysinfo", "getauxval", "getpagesize", "backtrace", "mallinfo", "mallinfo2",
	"stdout", "stderr", "stdin", "environ", "__environ", "timezone", "daylight", "tzname", "program_invocation_name", "program_invocation_short_name", "__progname", "getpwuid", "getlogin", "strtok", "feenableexcept", "fesetround", "fegetround",
};
static const char *deniedStd[] = {
	"std::cout", "std::cerr", "std::clog", "std::cin", "std::wcout", "std::wcerr", "std::wclog", "std::wcin", "std::random_device::", "std::chrono::", "std::this_thread::", "std::thread::", "std::filesystem::", "std::locale::global", "std::basic_filebuf", "std::__basic_file",
	"std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream", "std::condition_variable", "std::set_terminate", "std::set_new_handler", "std::basic_syncbuf", "std::print", "std::ios_base::sync_with_stdio", "std::experimental::filesystem",
};
// harmless: memory, strings, exceptions, locks, parsing and formatting in memory
static const char *fineC[] = {
	"memcpy", "memmove", "memset", "memcmp", "memchr", "memrchr", "bcmp", "strlen", "strcmp", "strncmp", "strchr", "strtoul", "strtoull", "strtol", "strtoll", "__isoc23_strtoul", "__isoc23_strtoull", "__isoc23_strtol", "__isoc23_strtoll", "wmemcpy", "wmemset", "wcslen",
	"htonl", "htons", "ntohl", "ntohs", "malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "abort", "isxdigit", "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "toupper", "tolower", "__ctype_b_loc", "__ctype_toupper_loc", "__ctype_tolower_loc",
	"__errno_location", "__gxx_personality_v0", "_Unwind_Resume", "__dynamic_cast", "snprintf", "vsnprintf", "sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "sprintf", "qsort", "bsearch", "abs", "labs", "explicit_bzero", "memccpy", "memmem", "__assert_fail", "__libc_single_threaded", "__dso_handle", "__tls_get_addr", "__cxa_thread_atexit", "__memcpy_chk", "__memset_chk", "__memmove_chk", "__stack_chk_fail", "__once_proxy", "__once_callable", "__once_call",
};
static bool among(const std::string &n, const char **l, size_t k) { for (size_t i = 0; i < k; i++) if (n == l[i]) return true; return false; }
// -1 denied, 1 harmless, 0 not known
static int judge(const std::string &name, const std::string &dem) {
	if (among(name, deniedC, sizeof deniedC / sizeof *deniedC)) return -1;
	for (auto p : deniedStd) if (dem.find(p) != std::string::npos && dem.find("std::__throw") != 0) {
		// as the owner, not as an argument
		size_t at = dem.find(p), par = dem.find('(');
		std::string head = dem.substr(0, par == std::string::npos ? dem.size() : par);
		if (head.find(p) != std::string::npos || at == 0) return -1;
	}
	if (name.rfind("llvm.", 0) == 0) return 1;
	if (name.rfind("__cxa_", 0) == 0 || name.rfind("pthread_mutex_", 0) == 0 || name.rfind("pthread_rwlock_", 0) == 0 || name.rfind("pthread_once", 0) == 0 || name.rfind("__atomic_", 0) == 0) return 1;
	if (among(name, fineC, sizeof fineC / sizeof *fineC)) return 1;
	if (name.rfind("_Zn", 0) == 0 || name.rfind("_Zd", 0) == 0) return 1;                 // operator new, delete
	if (name.rfind("_ZT", 0) == 0) return 1;                                             // vtables, type information
	static const char *fine[] = {"std::", "__cxxabiv1::", "__gnu_cxx::", "vtable for", "typeinfo for", "VTT for", "operator new", "operator delete", "non-virtual thunk", "virtual thunk", "guard variable for"};
	for (auto p : fine) if (dem.rfind(p, 0) == 0) return 1;
	return 0;
}
static bool deniedIntrinsic(unsigned id) {
	return id == Intrinsic::readcyclecounter || id == Intrinsic::x86_rdtsc || id == Intrinsic::x86_rdtscp || id == Intrinsic::x86_rdrand_16 || id == Intrinsic::x86_rdrand_32 || id == Intrinsic::x86_rdrand_64 ||
		id == Intrinsic::x86_rdseed_16 || id == Intrinsic::x86_rdseed_32 || id == Intrinsic::x86_rdseed_64 || id == Intrinsic::x86_rdpid || id == Intrinsic::get_rounding || id == Intrinsic::set_rounding || id == Intrinsic::returnaddress || id == Intrinsic::frameaddress || id == Intrinsic::read_register;
}
namespace {
struct Reach {
	Module &M; std::string repo, out, funcs; size_t n = 0;
	std::map<const GlobalValue *, const GlobalValue *> from;       // how it was reached
	std::vector<const GlobalValue *> work;
	std::set<const GlobalValue *> plain;
	std::map<const GlobalValue *, const Instruction *> at;
	Reach(Module &M, const std::string &r) : M(M), repo(r) {}
	void item(bool ok, const std::string &rule, const std::string &where, const std::string &detail) {
		out += std::string(n++ ? ",\n" : "") + "{\"ok\":" + (ok ? "true" : "false") + ",\"rule\":" + q(rule) + ",\"where\":" + q(where) + ",\"detail\":" + q(detail) + "}";
	}
	std::string site(const Instruction *I) {
		std::string f = fileOf(*I->getFunction()); unsigned line = 0;
		if (auto &d = I->getDebugLoc()) { line = d.getLine(); auto *sc = cast<DIScope>(d.getScope()); f = sc->getFilename().str(); if (!f.empty() && f[0] != '/') f = sc->getDirectory().str() + "/" + f; }
		if (f.rfind(repo, 0) == 0) f = f.substr(repo.size());
		return demangle(I->getFunction()->getName().str()) + " (" + f + ":" + std::to_string(line) + ")";
	}
	std::string path(const GlobalValue *g) {
		std::string r = demangle(g->getName().str()); int k = 0;
		for (const GlobalValue *p = g; (p = from[p]) && k < 12; k++) r += " <- " + demangle(p->getName().str());
		return r;
	}
	bool model(const Function &f) { return fileOf(f).find("/contexts/") != std::string::npos; }
	void reach(const GlobalValue *g, const GlobalValue *by, const Instruction *I) { if (from.count(g)) return; from[g] = by; at[g] = I; work.push_back(g); }
	void refs(const Constant *c, const GlobalValue *by, const Instruction *I, std::set<const Constant *> &seen) {
		if (!seen.insert(c).second) return;
		if (auto *g = dyn_cast<GlobalValue>(c)) { reach(g, by, I); return; }
		for (auto &o : c->operands()) if (auto *k = dyn_cast<Constant>(o)) refs(k, by, I, seen);
	}
	void run() {
		// roots: whatever the library defines
		std::vector<const Function *> roots;
		for (auto &f : M) if (!f.isDeclaration() && fileOf(f).rfind(repo, 0) == 0) roots.push_back(&f);
		std::set<const GlobalValue *> isRoot;
		for (auto *f : roots) { reach(f, nullptr, nullptr); isRoot.insert(f); }
		while (!work.empty()) {
			const GlobalValue *g = work.back(); work.pop_back();
			std::set<const Constant *> seen;
			if (auto *v = dyn_cast<GlobalVariable>(g)) { if (v->hasInitializer()) refs(v->getInitializer(), g, nullptr, seen); continue; }
			auto *f = dyn_cast<Function>(g);
			if (!f || f->isDeclaration() || model(*f)) continue;
			for (auto &I : instructions(*f)) for (auto &o : I.operands()) if (auto *c = dyn_cast<Constant>(o)) refs(c, g, &I, seen);
		}
		// functions that run outside of a call_once
		for (auto *f : roots) if (!f->hasLocalLinkage()) { if (plain.insert(f).second) work.push_back(f); }
		while (!work.empty()) {
			const GlobalValue *g = work.back(); work.pop_back();
			std::map<const GlobalValue *, const GlobalValue *> keep;
			std::swap(keep, from); std::set<const Constant *> seen; std::vector<const GlobalValue *> w; std::swap(w, work);
			auto *v = dyn_cast<GlobalVariable>(g); auto *f = dyn_cast<Function>(g);
			if (v && v->hasInitializer()) refs(v->getInitializer(), g, nullptr, seen);
			if (f && !f->isDeclaration() && !model(*f)) for (auto &I : instructions(*f)) for (auto &o : I.operands()) if (auto *c = dyn_cast<Constant>(o)) refs(c, g, &I, seen);
			std::swap(keep, from); std::swap(w, work);
			for (auto &pr : keep) {
				std::string dem = demangle(pr.first->getName().str());
				if (dem.find("std::call_once<") < dem.find('(') || dem.find("std::once_flag::") == 0) continue;
				if (plain.insert(pr.first).second) work.push_back(pr.first);
			}
		}
		size_t reached = 0, ext = 0;
		bool nw = false, vt = false;
		for (auto &pr : from) {
			const GlobalValue *g = pr.first; auto *f = dyn_cast<Function>(g); auto *v = dyn_cast<GlobalVariable>(g);
			std::string name = g->getName().str(), dem = demangle(name);
			bool external = f ? f->isDeclaration() || model(*f) : v && !v->hasInitializer();
			if (external) {
				ext++;
				nw |= name == "_Znwm"; vt |= dem.find("typeinfo") == 0 || dem.find("vtable") == 0;
				int j = judge(name, dem);
				if (f && f->isIntrinsic()) j = deniedIntrinsic(f->getIntrinsicID()) ? -1 : 1;
				if (model(f ? *f : *roots[0]) && f) j = std::max(j, judge(name, dem));
				std::string w = at[g] ? site(at[g]) : "?";
				if (j < 0) item(false, "no input, output, clock, randomness or environment", w, "reaches " + path(g));
				else item(true, j ? "external function without effects" : "external function, effects unknown", w, dem);
				continue;
			}
			if (!f) continue;
			reached++;
			if (isRoot.count(f)) funcs += std::string(funcs.empty() ? "" : ",") + "[" + q(dem) + "," + q(fileOf(*f) + ":" + std::to_string(f->getSubprogram()->getLine())) + "]";
			body(*f);
		}
		item(roots.size() > 50 && reached > roots.size() && ext > 5 && nw && vt, "the library was looked at", std::to_string(roots.size()) + " functions of the library, " + std::to_string(reached) + " reached, " + std::to_string(ext) + " external names", "too little was reached");
		// what a global constructor does once is not an effect of an operation, but it must be harmless as well: its references are roots above
	}
	void body(const Function &f) {
		bool ctor = f.getSection() == ".text.startup" || f.getName().starts_with("_GLOBAL__sub_I") || f.getName().starts_with("__cxx_global_var_init");
		std::vector<std::pair<const BasicBlock *, std::vector<const BasicBlock *>>> guards;   // entry of a one-time region, its ends
		DominatorTree dt(const_cast<Function &>(f));
		for (auto &I : instructions(f)) if (auto *c = dyn_cast<CallBase>(&I)) {
			if (c->isInlineAsm()) {
				auto *ia = cast<InlineAsm>(c->getCalledOperand());
				item(ia->getAsmString().empty() || ia->getAsmString().find_first_not_of(" \t\n#") == std::string::npos, "no inline assembly", site(&I), ia->getAsmString());
			}
			if (c->getCalledFunction() && c->getCalledFunction()->getName() == "__cxa_guard_acquire") {
				for (auto *u : c->users()) if (auto *cmp = dyn_cast<ICmpInst>(u)) for (auto *b : cmp->users()) if (auto *br = dyn_cast<BranchInst>(b)) {
					bool eq = cmp->getPredicate() == CmpInst::ICMP_EQ;
					std::vector<const BasicBlock *> ends;
					for (auto &J : instructions(f)) if (auto *d = dyn_cast<CallBase>(&J)) if (d->getCalledFunction() && d->getCalledFunction()->getName() == "__cxa_guard_release" && d->getArgOperand(0) == c->getArgOperand(0)) ends.push_back(J.getParent());
					guards.push_back({br->getSuccessor(eq ? 1 : 0), ends});
				}
			}
		}
		auto once = [&](const Instruction &I) {
			for (auto &g : guards) {
				if (!dt.dominates(g.first, I.getParent())) continue;
				bool after = false;
				for (auto *e : g.second) after |= e != I.getParent() && dt.dominates(e, I.getParent());
				if (!after) return true;
			}
			return false;
		};
		size_t stores = 0;
		for (auto &I : instructions(f)) {
			const Value *p = nullptr;
			if (auto *s = dyn_cast<StoreInst>(&I)) p = s->getPointerOperand();
			else if (auto *a = dyn_cast<AtomicRMWInst>(&I)) p = a->getPointerOperand();
			else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) p = x->getPointerOperand();
			else if (auto *m = dyn_cast<MemIntrinsic>(&I)) p = m->getRawDest();
			if (!p) continue;
			stores++;
			const Value *o = getUnderlyingObject(p, 0);
			if (auto *t = dyn_cast<IntrinsicInst>(o)) if (t->getIntrinsicID() == Intrinsic::threadlocal_address) o = getUnderlyingObject(t->getArgOperand(0), 0);
			auto *g = dyn_cast<GlobalVariable>(o);
			if (!g) continue;
			bool fine = g->getName().starts_with("_ZGV") || g->getName().contains("__once_call") || ctor || once(I) || !plain.count(&f);
			item(fine, "no write to a global variable after its initialisation", site(&I), "writes " + demangle(g->getName().str()));
		}
		if (stores && fileOf(f).rfind(repo, 0) == 0) item(true, "stores of this function were looked at", demangle(f.getName().str()), std::to_string(stores));
	}
};
}
void effects(Module &M, const std::string &repo, std::string &json) {
	Reach p(M, repo); p.run();
	json = "\"static\":[" + p.out + "],\"functions\":[" + p.funcs + "]";
}
