// Driver: loads the linked IR of the library and the client contexts, analyses
// every case of the requested property and prints one JSON document.
#include "interp.h"
#include <algorithm>
#include <cstring>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
void effects(Module &M, const std::string &repo, std::string &json);

static std::string q(const std::string &s) {
	std::string r = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch < 32 || ch > 126) { char t[8]; snprintf(t, 8, "\\u%04x", ch); r += t; }
		else r += ch;
	}
	return r + "\"";
}
static void onStack(size_t bytes, std::function<void()> f) {
	void *m = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
	pthread_attr_t a; pthread_attr_init(&a);
	if (pthread_attr_setstack(&a, m, bytes)) { perror("stack"); exit(3); }
	pthread_t t;
	if (pthread_create(&t, &a, [](void *p) -> void * { (*static_cast<std::function<void()> *>(p))(); return nullptr; }, &f)) { perror("thread"); exit(3); }
	pthread_join(t, nullptr);
	munmap(m, bytes);
}
struct Task { const Function *f; int i; };

static std::string runTask(Interp &in, const Task &t) {
	std::string err; double t0 = nowSec();
	for (auto &f : in.M) (void)f;
	try { in.runCtx(t.f, t.i); }
	catch (Undecided &e) {
		err = e.what();
		// control was determined all along, and the client alone needs a small part of this
		if (err == "step limit" && !in.forks) {
			Oblig o; o.name = "every call comes to an end"; o.bits = o.count = 1; o.violated = true;
			o.detail = "no end after " + std::to_string(in.maxSteps) + " instructions, in " + in.chain();
			in.obligs.push_back(o); err.clear();
		}
	}
	catch (std::bad_alloc &) { err = "out of memory"; }
	std::string s = "{\"ctx\":" + q(t.f->getName().str()) + ",\"case\":" + std::to_string(t.i);
	if (!err.empty()) s += ",\"undecided\":" + q(err + " [" + in.chain() + "]");
	s += ",\"obligations\":[";
	bool first = true;
	for (auto &o : in.obligs) {
		s += std::string(first ? "" : ",") + "{\"name\":" + q(o.name) + ",\"count\":" + std::to_string(o.count) + ",\"bits\":" + std::to_string(o.bits) + ",\"equal\":" + std::to_string(o.equal) +
			",\"unknown\":" + std::to_string(o.unknown) + ",\"violated\":" + (o.violated ? "true" : "false");
		if (o.known) s += ",\"known\":" + q(o.knownId);
		if (!o.detail.empty()) s += ",\"detail\":" + q(o.detail);
		if (!o.where.empty()) s += ",\"where\":" + q(o.where);
		s += "}"; first = false;
	}
	s += "],\"events\":["; first = true;
	for (auto &e : in.events) {
		s += std::string(first ? "" : ",") + "{\"kind\":" + q(e.kind) + ",\"msg\":" + q(e.msg) + ",\"where\":" + q(e.where) + ",\"chain\":" + q(e.chain) + ",\"confirmed\":" + (e.confirmed ? "true" : "false") +
			",\"fatal\":" + (e.fatal ? "true" : "false") + ",\"witness\":" + q(e.witness) + "}";
		first = false;
	}
	s += "],\"visited\":["; first = true;
	for (FI *f : in.visited) {
		unsigned seen = 0, tot = 0; for (auto &b : f->bbs) { tot++; seen += b.seen; }
		s += std::string(first ? "" : ",") + "[" + q(f->pretty) + "," + q(f->file + ":" + std::to_string(f->line)) + "," + std::to_string(seen) + "," + std::to_string(tot) + "]";
		first = false;
	}
	s += "],\"notes\":["; first = true;
	for (auto &n : in.notes) { s += (first ? "" : ",") + q(n); first = false; }
	char b[256]; snprintf(b, sizeof b, "],\"steps\":%llu,\"forks\":%llu,\"loads\":%llu,\"stores\":%llu,\"polys\":%zu,\"sec\":%.2f}",
		(unsigned long long)in.steps, (unsigned long long)in.forks, (unsigned long long)in.loads, (unsigned long long)in.stores, dom::polyCount(), nowSec() - t0);
	return s + b;
}
// Constants the library compares against: lengths around them are analysed too.
static void findThresholds(Module &M, const std::string &repo, std::vector<uint64_t> &out) {
	std::set<uint64_t> s;
	for (auto &f : M) {
		auto *sp = f.getSubprogram();
		if (!sp || f.isDeclaration()) continue;
		std::string file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
		if (file.rfind(repo, 0)) continue;
		for (auto &b : f) for (auto &i : b) {
			if (auto *c = dyn_cast<ICmpInst>(&i)) { for (auto &o : c->operands()) if (auto *k = dyn_cast<ConstantInt>(o)) if (k->getBitWidth() >= 8 && k->getBitWidth() <= 64 && !k->isNegative()) s.insert(k->getZExtValue()); }
			else if (auto *sw = dyn_cast<SwitchInst>(&i)) { for (auto &cs : sw->cases()) s.insert(cs.getCaseValue()->getZExtValue()); }
			else if (auto *t = dyn_cast<TruncInst>(&i)) { unsigned w = t->getType()->getIntegerBitWidth(); unsigned from = t->getOperand(0)->getType()->getIntegerBitWidth(); if (w == 8 && from == 64) s.insert(256); if (w == 16) s.insert(65536); }
			else if (auto *bo = dyn_cast<BinaryOperator>(&i)) { unsigned k = bo->getOpcode(); if ((k == Instruction::Add || k == Instruction::Sub) && (bo->getType()->isIntegerTy(16) || bo->getType()->isIntegerTy(8))) s.insert(bo->getType()->isIntegerTy(16) ? 65536 : 256); if (k == Instruction::And || k == Instruction::URem || k == Instruction::UDiv || k == Instruction::LShr) if (auto *ci = dyn_cast<ConstantInt>(bo->getOperand(1))) if (bo->getType()->isIntegerTy(64)) s.insert(k == Instruction::LShr ? 1ull << (ci->getZExtValue() & 63) : k == Instruction::And ? ci->getZExtValue() + 1 : ci->getZExtValue()); }
			else if (auto *c = dyn_cast<CallBase>(&i)) { for (auto &o : c->args()) if (auto *k = dyn_cast<ConstantInt>(o)) if (k->getBitWidth() == 64) s.insert(k->getZExtValue()); }
			else if (auto *st = dyn_cast<StoreInst>(&i)) { if (auto *k = dyn_cast<ConstantInt>(st->getValueOperand())) if (k->getBitWidth() == 64) s.insert(k->getZExtValue()); }
		}
	}
	for (uint64_t v : s) out.push_back(v);
}
int main(int argc, char **argv) {
	std::string file, prop, repo = "/repo/", only; int jobs = 8; double limit = 600, perCase = 300; bool thorough = false, eff = false; long onlyCase = -1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--prop") prop = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--limit") limit = atof(argv[++i]);
		else if (a == "--case-limit") perCase = atof(argv[++i]); else if (a == "--repo") repo = argv[++i]; else if (a == "--thorough") thorough = true;
		else if (a == "--effects") eff = true; else if (a == "--only") only = argv[++i]; else if (a == "--case") onlyCase = atol(argv[++i]);
		else file = a;
	}
	LLVMContext C; SMDiagnostic e;
	auto M = parseIRFile(file, e, C);
	if (!M) { e.print("analyzer", errs()); return 3; }
	double t0 = nowSec();
	Interp in(*M); in.repoPrefix = repo; in.thorough = thorough; in.effects = eff;
	findThresholds(*M, repo, in.thresholds);
	std::vector<Task> tasks; std::string initErr;
	onStack(size_t(4) << 30, [&] {
		try {
			in.initPhase = true; in.init(); in.initPhase = false;
			for (auto &f : *M) {
				std::string n = f.getName().str();
				bool mine = false;
				for (size_t o = 0; o < prop.size();) { size_t e = std::min(prop.find(',', o), prop.size()); std::string p1 = prop.substr(o, e - o) + "_"; mine |= !n.compare(0, p1.size(), p1); o = e + 1; }
				if (f.isDeclaration() || !mine || (n.size() > 2 && !n.compare(n.size() - 2, 2, "_N"))) continue;
				if (!only.empty() && n != only) continue;
				int cnt = 1;
				if (auto *cf = M->getFunction(n + "_N")) cnt = in.callInt(cf);
				for (int i = 0; i < cnt; i++) if (onlyCase < 0 || onlyCase == i) tasks.push_back({&f, i});
			}
		} catch (Undecided &u) { initErr = u.what(); }
	});
	std::string initEv;
	for (auto &ev : in.events) initEv += ev.kind + ": " + ev.msg + " at " + ev.where + "; ";
	in.events.clear(); in.obligs.clear(); in.visited.clear(); in.scopeVisited.clear(); in.steps = in.forks = in.loads = in.stores = 0;
	printf("{\"property\":%s,\"tasks\":%zu,\"thresholds\":%zu,\"init_error\":%s,\"init_events\":%s,\"results\":[", q(prop).c_str(), tasks.size(), in.thresholds.size(), q(initErr).c_str(), q(initEv).c_str());
	fflush(stdout);
	struct Ch { pid_t pid; int fd; size_t k; std::string buf; double start; };
	std::vector<Ch> run; size_t next = 0; bool firstOut = true;
	// memory: when little is left the biggest process is stopped, and its case is
	// analysed again at the end, alone
	std::vector<size_t> again; bool alone = false;
	auto rss = [](pid_t p) -> long { FILE *f = fopen(("/proc/" + std::to_string(p) + "/statm").c_str(), "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4; };
	auto freeMB = []() -> long { FILE *f = fopen("/proc/meminfo", "r"); long r = 1 << 30; char k[64]; long v; if (f) { while (fscanf(f, "%63s %ld kB", k, &v) >= 1) if (!strcmp(k, "MemAvailable:")) { r = v / 1024; break; } fclose(f); } return r; };
	auto gone = [&](size_t k, const char *why) { printf("%s{\"ctx\":%s,\"case\":%d,\"undecided\":%s}", firstOut ? "" : ",\n", q(tasks[k].f->getName().str()).c_str(), tasks[k].i, q(why).c_str()); firstOut = false; };
	while ((next < tasks.size() && nowSec() - t0 < limit) || !run.empty() || !again.empty()) {
		if (run.empty() && nowSec() - t0 >= limit) break;
		if (next == tasks.size() && run.empty() && !again.empty()) {
			alone = true; jobs = 1;
			tasks.push_back(tasks[again.back()]); again.pop_back();
		}
		while (next < tasks.size() && int(run.size()) < jobs && nowSec() - t0 < limit) {
			int p[2]; if (pipe(p)) return 3;
			fflush(stdout);
			pid_t pid = fork();
			if (!pid) {
				close(p[0]);
				in.deadline = std::min(nowSec() + perCase, t0 + limit);
				onStack(size_t(16) << 30, [&] {
					std::string s = runTask(in, tasks[next]);
					size_t o = 0; while (o < s.size()) { ssize_t w = write(p[1], s.data() + o, s.size() - o); if (w <= 0) break; o += w; }
				});
				_exit(0);
			}
			close(p[1]);
			run.push_back({pid, p[0], next, "", nowSec()}); next++;
		}
		std::vector<pollfd> pf; for (auto &r : run) pf.push_back({r.fd, POLLIN, 0});
		poll(pf.data(), pf.size(), 200);
		double now = nowSec();
		size_t big = run.size();
		if (!run.empty() && freeMB() < 5000) { long most = 0; for (size_t i = 0; i < run.size(); i++) if (long m = rss(run[i].pid); m > most) { most = m; big = i; } if (most < 400000) big = run.size(); }
		for (size_t i = run.size(); i-- > 0;) {
			bool end = false;
			if (i == big) {
				kill(run[i].pid, SIGKILL); int st; waitpid(run[i].pid, &st, 0); close(run[i].fd);
				if (alone) gone(run[i].k, "memory limit"); else again.push_back(run[i].k);
				run.erase(run.begin() + i); continue;
			}
			if (pf[i].revents) { char b[65536]; ssize_t n = read(run[i].fd, b, sizeof b); if (n > 0) run[i].buf.append(b, n); else end = true; }
			bool killed = false;
			if (!end && (now - run[i].start > perCase + 20 || now - t0 > limit + 20)) { kill(run[i].pid, SIGKILL); killed = end = true; }
			if (end) {
				int st; waitpid(run[i].pid, &st, 0); close(run[i].fd);
				std::string s = run[i].buf;
				if (s.empty() || s.back() != '}' || killed)
					s = "{\"ctx\":" + q(tasks[run[i].k].f->getName().str()) + ",\"case\":" + std::to_string(tasks[run[i].k].i) + ",\"undecided\":" + q(killed ? "time limit" : "analysis ended abnormally, status " + std::to_string(st)) + "}";
				// a violation is known: the other contexts only get a little more time
				if (s.find("\"violated\":true") != std::string::npos || s.find("\"confirmed\":true,\"fatal\":true") != std::string::npos || (eff && s.find("\"confirmed\":true") != std::string::npos)) limit = std::min(limit, now - t0 + 45);
				printf("%s%s", firstOut ? "" : ",\n", s.c_str()); firstOut = false;
				run.erase(run.begin() + i);
			}
		}
	}
	for (; next < tasks.size(); next++) gone(next, "time limit");
	for (auto k : again) gone(k, "memory limit");
	std::string fx; if (eff) { effects(*M, repo, fx); fx += ","; }
	printf("],%s\"sec\":%.2f}\n", fx.c_str(), nowSec() - t0);
	return 0;
}
