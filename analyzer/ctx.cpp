// Intrinsics of the client contexts (contexts/ctx.h): unknown inputs,
// uninterpreted collaborators, obligations and monitors.
#include "interp.h"
#include <algorithm>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
using namespace llvm;

uint32_t Interp::inputId(const std::string &name) {
	auto it = inputIds.find(name);
	if (it != inputIds.end()) return it->second;
	uint32_t id = inputNames.size();
	inputNames.push_back({name, 0});
	return inputIds[name] = id;
}
static void collect(Poly p, std::set<Atom> &seen, std::map<uint32_t, std::map<uint32_t, Atom>> &ins, unsigned &budget) {
	std::vector<Atom> at; dom::atomsOf(p, at);
	for (Atom a : at) {
		if (!budget || !seen.insert(a).second) continue;
		budget--;
		const AtomInfo &ai = dom::atom(a);
		if (ai.kind == A_IN) ins[ai.id][ai.bit] = a;
		for (Poly q : ai.args) if (q > ONE) collect(q, seen, ins, budget);
	}
}
std::string Interp::showPoint(dom::Point &pt, Poly a, Poly b) {
	std::set<Atom> seen; std::map<uint32_t, std::map<uint32_t, Atom>> ins; unsigned budget = 20000;
	collect(a, seen, ins, budget); collect(b, seen, ins, budget);
	std::string s;
	for (auto &kv : ins) {
		std::map<uint32_t, unsigned> by;
		for (auto &x : kv.second) { unsigned &v = by[x.first / 8]; if (dom::eval(dom::ofAtom(x.second), pt)) v |= 1u << (x.first % 8); }
		s += (s.empty() ? "" : ", ") + inputNames[kv.first].first + "={";
		int k = 0;
		for (auto &x : by) { char t[32]; snprintf(t, sizeof t, "%s[%u]=%02x", k ? " " : "", x.first, x.second); s += t; if (++k == 40) { s += " ..."; break; } }
		s += "}";
		if (s.size() > 1200) { s += " ..."; break; }
	}
	return s;
}

static std::string scopeText(Interp &in) {
	std::vector<std::string> v;
	for (FI *f : in.scopeVisited) v.push_back(f->pretty.substr(0, 110) + " (" + f->file + ":" + std::to_string(f->line) + ")");
	std::sort(v.begin(), v.end());
	std::string s;
	for (size_t i = 0; i < v.size() && i < 60; i++) s += (i ? "; " : "") + v[i];
	if (v.size() > 60) s += "; ... " + std::to_string(v.size() - 60) + " more";
	return s;
}
static std::string ctxName(Interp &in) {
	for (Frame *f : in.frames) if (f->f->name.size() > 3 && f->f->name[0] == 'C' && isdigit(f->f->name[1])) return f->f->name;
	return "?";
}
static Oblig &oblig(Interp &in, const std::string &name) {
	for (auto &o : in.obligs) if (o.name == name && !o.violated) return o;
	in.obligs.emplace_back(); in.obligs.back().name = name;
	return in.obligs.back();
}
// compare bits of a and b under the current path; 1 equal, 0 unknown, -1 different (detail filled)
static int cmpBits(Call &c, const std::vector<Poly> &a, const std::vector<Poly> &b, uint64_t &eqBits, uint64_t &unk, std::string &detail) {
	Interp &in = c.in;
	int res = 1; unsigned tried = 0, diff = 0; std::string bits;
	Poly firstBad = 0; uint32_t firstIdx = 0; dom::Point pt;
	for (uint32_t i = 0; i < a.size(); i++) {
		Poly d = dom::x(a[i], b[i]);
		if (d == ZERO || in.impossible(c.st, d)) { eqBits++; continue; }
		diff++;
		if (res == -1) { unk++; continue; }
		if (tried++ < 24) {
			dom::Point q; int r = in.feasible(c.st, d, &q, 48);
			if (r == 0) { eqBits++; diff--; continue; }
			if (r == 1) { res = -1; firstBad = d; firstIdx = i; pt = q; continue; }
		}
		unk++; if (res == 1) res = 0;
	}
	if (res == -1) {
		detail = "byte " + std::to_string(firstIdx / 8) + " bit " + std::to_string(firstIdx % 8) + " differs (" + std::to_string(diff) + " of " + std::to_string(a.size()) + " bits have different forms); expected " +
			dom::show(b[firstIdx]) + ", computed " + dom::show(a[firstIdx]);
		std::string u; if (dom::containsKind(a[firstIdx], A_UNDEF, &u)) detail += "; the computed value depends on uninitialised or out-of-bounds data: " + u;
		detail += "; for example " + in.showPoint(pt, a[firstIdx], b[firstIdx]);
	} else if (res == 0) detail = "normal forms differ but no witness was found";
	(void)firstBad;
	return res;
}
static void readBits(Call &c, const Val &p, uint64_t n, std::vector<Poly> &out) {
	for (uint64_t i = 0; i < n; i++) { std::vector<Poly> b; bitsOf(c.in.loadInt(c.st, ops::add(p, mk(64, i)), 8, c.fr), b); out.insert(out.end(), b.begin(), b.end()); }
}
static uint64_t firstHeap(Mem &m, std::function<void(uint32_t, const Obj *)> f) {
	uint64_t n = 0;
	for (uint32_t id = 1; id < (m.t.size() << 12); id++) {
		if (!m.t[id >> 12]) { id |= 4095; continue; }
		if (!m.t[id >> 12]->c[(id >> 6) & 63]) { id |= 63; continue; }
		const Obj *o = m.get(id);
		if (o && (o->kind == O_HEAP || o->kind == O_EXC) && o->live != ZERO) { n++; f(id, o); }
	}
	return n;
}
static bool commonLock(const Access &a, const Access &b) {
	const uint64_t RD = 1ull << 62, PASS = 1ull << 61;
	for (uint64_t x : a.locks) for (uint64_t y : b.locks) {
		if (x == y && !(x & RD) && !(x & PASS)) return true;
		if ((x & RD) && y == (x & ~RD)) return true;
		if ((y & RD) && x == (y & ~RD)) return true;
		// one-time initialisation: one side inside, the other has passed it
		if ((x & PASS) && y == (x & ~PASS)) return true;
		if ((y & PASS) && x == (y & ~PASS)) return true;
	}
	return false;
}
static std::string accText(const Access &a) {
	std::string s = a.write ? "write" : "read";
	s += a.f ? " in " + a.f->pretty.substr(0, 100) : std::string();
	if (a.I) if (auto &dl = a.I->getDebugLoc()) s += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")";
	if (a.from && a.from != a.I) if (auto &dl = a.from->getDebugLoc()) s += " called from " + demangle(a.from->getFunction()->getName().str()).substr(0, 100) + " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")";
	s += a.locks.empty() ? ", no lock held" : ", " + std::to_string(a.locks.size()) + " lock(s) held";
	return s;
}

void Interp::addCtxBuiltins() {
	auto &B = builtins;
	B["ctx_in"] = [](Call &c) {
		std::string nm = c.in.cstr(c.st, c.args[0]); uint64_t n = c.c(2, "input size");
		uint32_t id = c.in.inputId(nm);
		for (uint64_t i = 0; i < n; i++) {
			std::vector<Poly> b; for (int k = 0; k < 8; k++) b.push_back(dom::input(id, i * 8 + k));
			c.in.storeInt(c.st, ops::add(c.args[1], mk(64, i)), mkBits(b), c.fr);
		}
	};
	// an unknown number of the given width
	B["ctx_bits"] = [](Call &c) {
		std::string nm = c.in.cstr(c.st, c.args[0]); uint64_t n = c.c(1, "input width");
		uint32_t id = c.in.inputId(nm); std::vector<Poly> b;
		for (uint64_t i = 0; i < 64; i++) b.push_back(i < n ? dom::input(id, i) : ZERO);
		c.ret = mkBits(b);
	};
	B["ctx_uf"] = [](Call &c) {
		std::string nm = c.in.cstr(c.st, c.args[0]);
		uint64_t na = c.c(2, "argument size"), no = c.c(4, "result size");
		std::vector<Poly> a; readBits(c, c.args[1], na, a);
		auto it = c.in.ufIds.find(nm);
		if (it == c.in.ufIds.end()) it = c.in.ufIds.emplace(nm, c.in.ufIds.size()).first;
		for (uint64_t i = 0; i < no; i++) {
			std::vector<Poly> b; for (int k = 0; k < 8; k++) b.push_back(dom::uf(it->second, a, i * 8 + k));
			c.in.storeInt(c.st, ops::add(c.args[3], mk(64, i)), mkBits(b), c.fr);
		}
	};
	B["ctx_eq"] = [](Call &c) {
		std::string nm = ctxName(c.in) + ": " + c.in.cstr(c.st, c.args[0]);
		uint64_t n = c.c(3, "size");
		std::vector<Poly> a, b; readBits(c, c.args[1], n, a); readBits(c, c.args[2], n, b);
		Oblig &o = oblig(c.in, nm);
		o.bits += a.size(); o.count++;
		std::string d; uint64_t unk = 0;
		int r = cmpBits(c, a, b, o.equal, unk, d); o.unknown += unk;
		if (r == -1) { o.violated = true; o.detail = d; o.where = scopeText(c.in); }
		else if (r == 0) o.detail = d;
	};
	B["ctx_known_eq"] = [](Call &c) {
		std::string kid = c.in.cstr(c.st, c.args[0]), nm = ctxName(c.in) + ": " + c.in.cstr(c.st, c.args[1]);
		uint64_t n = c.c(5, "size");
		std::vector<Poly> g, s, k; readBits(c, c.args[2], n, g); readBits(c, c.args[3], n, s); readBits(c, c.args[4], n, k);
		Oblig &o = oblig(c.in, nm);
		o.bits += g.size(); o.count++;
		std::string d; uint64_t unk = 0, eq = 0;
		if (g == k && g != s) { o.knownId = kid; o.equal += g.size(); o.known = true; return; }
		int r = cmpBits(c, g, s, eq, unk, d);
		if (r == 1) { o.equal += eq; return; }
		std::string d2; uint64_t unk2 = 0, eq2 = 0;
		int r2 = cmpBits(c, g, k, eq2, unk2, d2);
		if (r2 == 1) { o.knownId = kid; o.equal += eq2; o.known = true; return; }
		o.equal += eq; o.unknown += unk;
		if (r == -1) { o.violated = true; o.detail = d; o.where = scopeText(c.in); } else o.detail = d;
	};
	// 1 if the two normal forms are the same
	B["ctx_same"] = [](Call &c) {
		uint64_t n = c.c(2, "size"); std::vector<Poly> a, b; readBits(c, c.args[0], n, a); readBits(c, c.args[1], n, b);
		bool same = true; for (size_t i = 0; i < a.size() && same; i++) same = a[i] == b[i] || c.in.impossible(c.st, dom::x(a[i], b[i]));
		c.ret = mk(32, same);
	};
	B["ctx_true"] = [](Call &c) {
		std::string nm = ctxName(c.in) + ": " + c.in.cstr(c.st, c.args[0]);
		Poly f = ops::eq(c.args[1], mk(c.args[1].w, 0));
		Oblig &o = oblig(c.in, nm); o.bits++; o.count++;
		if (f == ZERO || c.in.impossible(c.st, f)) { o.equal++; return; }
		dom::Point pt; int r = c.in.feasible(c.st, f, &pt, 48);
		if (r == 0) { o.equal++; return; }
		if (r == 1) { o.violated = true; o.detail = "does not hold for " + c.in.showPoint(pt, f, ZERO); o.where = scopeText(c.in); }
		else { o.unknown++; o.detail = "condition neither proved nor refuted"; }
	};
	// conditions under which control may get here must be impossible
	B["ctx_fail"] = [](Call &c) {
		std::string nm = ctxName(c.in) + ": " + c.in.cstr(c.st, c.args[0]);
		Oblig &o = oblig(c.in, nm); o.bits++; o.count++;
		dom::Point pt; int r = c.in.feasible(c.st, ONE, &pt, 48);
		if (r == 0) { o.equal++; return; }
		if (r == 1) {
			o.violated = true; o.where = scopeText(c.in);
			std::vector<Poly> all; c.in.pathAll(c.st, all); Poly g = ONE; std::string s;
			for (Poly p : all) if (p != ONE) { std::string t = c.in.showPoint(pt, p, ZERO); if (!t.empty()) { s = t; } }
			(void)g; o.detail = "reached" + (s.empty() ? std::string(" unconditionally") : " for " + s);
		} else { o.unknown++; o.detail = "reachability neither proved nor refuted"; }
	};
	// the current point is reached as it should be
	B["ctx_pass"] = [](Call &c) {
		std::string nm = ctxName(c.in) + ": " + c.in.cstr(c.st, c.args[0]);
		Oblig &o = oblig(c.in, nm); o.bits++; o.count++; o.equal++;
	};
	// path condition of the current point as a value: 1 where it is taken
	B["ctx_scope"] = [](Call &c) { c.in.scopeVisited.clear(); };
	B["ctx_thorough"] = [](Call &c) { c.ret = mk(32, c.in.thorough); };
	B["ctx_threshold"] = [](Call &c) { uint64_t i = c.c(0, "index"); c.ret = mk(64, i < c.in.thresholds.size() ? c.in.thresholds[i] : 0); };
	B["ctx_thresholds"] = [](Call &c) { c.ret = mk(32, c.in.thresholds.size()); };
	B["ctx_depth_reset"] = [](Call &c) { c.in.maxDepth = c.in.depth; };
	B["ctx_depth_max"] = [](Call &c) { c.ret = mk(32, c.in.maxDepth - c.in.depth); };
	B["ctx_cost"] = [](Call &c) { c.ret = mk(64, c.in.steps + c.in.moved / 8); };
	B["ctx_held"] = [](Call &c) { c.ret = mk(64, c.in.liveBytes); };
	B["ctx_peak_reset"] = [](Call &c) { c.in.peakBytes = c.in.liveBytes; };
	B["ctx_peak"] = [](Call &c) { c.ret = mk(64, c.in.peakBytes); };
	B["ctx_note"] = [](Call &c) { c.in.notes.insert(ctxName(c.in) + ": " + c.in.cstr(c.st, c.args[0]) + (c.args.size() > 1 && c.args[1].k == 0 ? " " + std::to_string(int64_t(c.args[1].c)) : "")); };
	B["ctx_dump"] = [](Call &c) {
		uint64_t n = c.c(1, "size"); std::vector<Poly> a; readBits(c, c.args[0], n, a); std::string s;
		for (uint64_t i = 0; i < n; i++) { bool k = true; unsigned v = 0; for (int b = 0; b < 8; b++) { if (a[i * 8 + b] > ONE) k = false; else v |= a[i * 8 + b] << b; } char t[8]; snprintf(t, 8, "%02x", v); s += k ? t : "??"; if (!k && n < 3) for (int b = 0; b < 8; b++) s += " " + dom::show(a[i * 8 + b]); }
		fprintf(stderr, "dump %s\n", s.c_str());
	};
	B["ctx_live"] = [](Call &c) { c.ret = mk(64, firstHeap(c.st.mem, [](uint32_t, const Obj *) {})); };
	B["ctx_mark"] = [](Call &c) { c.ret = mk(64, c.in.nextId); };
	// nothing allocated since the mark is still alive
	B["ctx_no_leak"] = [](Call &c) {
		std::string nm = ctxName(c.in) + ": " + c.in.cstr(c.st, c.args[0]); uint64_t mark = c.c(1, "mark");
		Oblig &o = oblig(c.in, nm); o.bits++; o.count++;
		bool bad = false, unk = false; std::string d;
		firstHeap(c.st.mem, [&](uint32_t id, const Obj *ob) {
			if (id < mark || bad) return;
			dom::Point pt; int r = c.in.feasible(c.st, ob->live, &pt, 24);
			if (r == 0) return;
			if (r == -1) { unk = true; return; }
			bad = true; d = c.in.objName(ob) + " is never released";
			if (auto *I = dyn_cast_or_null<Instruction>(ob->site)) { d += ", allocated in " + demangle(I->getFunction()->getName().str()).substr(0, 160); }
		});
		if (bad) { o.violated = true; o.detail = d; o.where = scopeText(c.in); }
		else if (unk) { o.unknown++; o.detail = "release neither proved nor refuted"; } else o.equal++;
	};
	// chains of objects: see Interp::generalise
	B["ctx_track"] = [](Call &c) { c.in.track = true; };
	auto chainOf = [](Call &c, uint64_t p) { std::array<uint64_t, 4> a; for (unsigned k = 0; k < 4; k++) { Val v = c.in.loadInt(c.st, mk(64, p + 8 * k), 64, c.fr); if (!v.conc()) throw Undecided("chain of objects is not known"); a[k] = v.c; } return a; };
	B["ctx_generalise"] = [chainOf](Call &c) {
		const auto a = chainOf(c, c.c(0, "chain")); const uint64_t target = c.c(2, "member");
		std::vector<Poly> n; bitsOf(c.args[3], n);
		c.in.genSeen.clear(); c.in.genFields = c.in.genObjs = 0; c.in.genWhy.clear();
		// a trial on a copy: nothing is changed unless all of it can be
		State t; t.mem = c.st.mem; t.conj = c.st.conj;   // (env is not needed)
		bool ok = c.in.generalise(t, a, target, c.c(1, "first"), n, true);
		if (ok) c.st.mem = t.mem; else c.in.notes.insert(ctxName(c.in) + ": not generalised: " + c.in.genWhy);
		if (ok) c.in.notes.insert(ctxName(c.in) + ": generalised over " + std::to_string(c.in.genObjs) + " objects, " + std::to_string(c.in.genFields) + " growing fields");
		c.ret = mk(32, ok && c.in.genFields);
	};
	// the samples against the successor of the general member
	B["ctx_inductive"] = [chainOf](Call &c) {
		const auto a = chainOf(c, c.c(0, "chain")); const uint64_t target = c.c(2, "successor");
		std::vector<Poly> n; bitsOf(c.args[3], n);
		c.in.genSeen.clear(); c.in.genWhy.clear();
		bool ok = c.in.generalise(c.st, a, target, c.c(1, "first"), n, false);
		if (!ok) c.in.notes.insert(ctxName(c.in) + ": not inductive: " + c.in.genWhy);
		c.ret = mk(32, ok);
	};
	// thread monitor: record accesses to everything that exists now
	B["ctx_share"] = [](Call &c) { c.in.monitorBelow = c.in.nextId; c.in.runs.clear(); c.in.runSpans.clear(); c.in.coldRuns = c.c(0, "operations"); };
	B["ctx_run"] = [](Call &c) { c.in.monitor = true; c.in.accesses.clear(); c.in.spans.clear(); c.in.seq = 0; c.st.mem.locks.clear(); };
	B["ctx_stop"] = [](Call &c) {
		c.in.monitor = false;
		c.in.runs.push_back(c.in.accesses); c.in.accesses.clear(); c.in.runSpans.push_back(c.in.spans);
		for (uint64_t l : c.st.mem.locks) if (!(l >> 61)) { c.in.event(c.st, c.fr, "lock", "operation ends with a mutex still locked", ONE, false); break; }
		c.st.mem.locks.clear();
	};
	// run 0: the operation on fresh shared objects; later runs: again
	B["ctx_races"] = [](Call &c) {
		std::string nm = ctxName(c.in) + ": " + c.in.cstr(c.st, c.args[0]);
		Oblig &o = oblig(c.in, nm);
		auto &R = c.in.runs;
		typedef std::pair<uint32_t, uint32_t> Key;
		std::vector<std::map<Key, uint64_t>> acq(R.size()), rel(R.size());
		for (size_t r = 0; r < R.size(); r++) for (auto &kv : R[r]) for (auto &a : kv.second) if (a.atomic) {
			if (!a.write && a.acq) { auto it = acq[r].find(kv.first); if (it == acq[r].end() || a.seq < it->second) acq[r][kv.first] = a.seq; }
			if (a.write && a.rel) { uint64_t &s = rel[r][kv.first]; s = std::max(s, a.seq); }
		}
		std::string first;
		for (size_t i = 0; i < R.size(); i++) for (size_t j = i; j < R.size(); j++) for (auto &kv : R[i]) {
			auto it = R[j].find(kv.first);
			if (it == R[j].end()) continue;
			bool anyW = false; for (auto &a : kv.second) anyW |= a.write; for (auto &b : it->second) anyW |= b.write;
			if (!anyW) { o.bits++; o.equal++; o.count++; continue; }
			bool bad = false;
			for (auto &a : kv.second) for (auto &b : it->second) {
				if (!a.write && !b.write) continue;
				if (a.atomic && b.atomic) continue;
				if (commonLock(a, b)) continue;
				if (i == j && a.fresh) continue;        // each thread has its own
				auto &S = c.in.runSpans;
				bool hb = false;
				if (i == j && i < c.in.coldRuns) {
					// two threads on a fresh object: the critical sections of a mutex are ordered, the second one finds
					// what the first one left and behaves as a later run does (those pairs are looked at below)
					auto under = [&](const Access &w, const Access &o) { for (uint64_t l : w.locks) if (!(l >> 61)) { auto q = S[i].find(l); if (q != S[i].end() && q->second.first < o.seq) return true; } return false; };
					hb = a.write && b.write ? under(a, b) && under(b, a) : a.write ? under(a, b) : under(b, a);
				} else if (i < j) {
					// the later run came after the critical section of the earlier one
					for (auto &m : S[i]) { auto q = S[j].find(m.first); if (m.second.last > a.seq && q != S[j].end() && q->second.first < b.seq && (i < c.in.coldRuns || a.fresh)) { hb = true; break; } }
				}
				if (hb) continue;
				// safe publication: written and then released in the earlier run, acquired before use in the later one
				bool pub = false;
				if (i < j && a.write && !b.write) for (auto &f : rel[i]) { auto q = acq[j].find(f.first); if (f.second > a.seq && q != acq[j].end() && q->second < b.seq && !rel[j].count(f.first)) { pub = true; break; } }
				if (pub) continue;
				bad = true;
				if (first.empty()) first = accText(a) + " and " + accText(b) + " of the same shared byte are not ordered by a lock, an atomic or one-time initialisation";
			}
			o.bits++; o.count++;
			if (!bad) o.equal++;
		}
		if (!first.empty()) { o.violated = true; o.detail = first; o.where = scopeText(c.in); }
	};
	B["ctx_accesses"] = [](Call &c) { uint64_t n = 0; for (auto &r : c.in.runs) for (auto &kv : r) n += kv.second.size(); c.ret = mk(64, n); };
	B["_ZNSt10_Sp_lockerC1EPKv"] = B["_ZNSt10_Sp_lockerC2EPKv"] = [](Call &c) { c.st.mem.locks.push_back(1ull << 60); c.in.lockTaken(1ull << 60); };
	B["_ZNSt10_Sp_lockerD1Ev"] = B["_ZNSt10_Sp_lockerD2Ev"] = [](Call &c) { c.in.lockReleased(1ull << 60); auto &v = c.st.mem.locks; for (size_t i = v.size(); i-- > 0;) if (v[i] == 1ull << 60) { v.erase(v.begin() + i); return; } };
}
