#include "dom.h"
#include <algorithm>
#include <cassert>
#include <cstring>
#include <set>
#include <unordered_set>

namespace dom {
namespace {

// ---- interned sorted u32 sequences ------------------------------------
struct Pool {
	std::vector<uint32_t> data;
	std::vector<uint64_t> off;   // start offsets, off[i+1] end
	std::vector<uint32_t> table;
	uint64_t mask;
	Pool() { clear(); }
	void clear() { data.clear(); off.assign(1, 0); table.assign(1 << 16, 0xffffffffu); mask = table.size() - 1; }
	static uint64_t hash(const uint32_t *p, uint32_t n) {
		uint64_t h = 0x9E3779B97F4A7C15ull ^ n;
		for (uint32_t i = 0; i < n; i++) { h ^= p[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
		return h;
	}
	uint32_t size() const { return off.size() - 1; }
	const uint32_t *get(uint32_t id, uint32_t &n) const { n = off[id + 1] - off[id]; return data.data() + off[id]; }
	void rehash() {
		std::vector<uint32_t> t(table.size() * 2, 0xffffffffu);
		mask = t.size() - 1;
		for (uint32_t i = 0; i < size(); i++) {
			uint32_t n; const uint32_t *p = get(i, n);
			uint64_t h = hash(p, n) & mask;
			while (t[h] != 0xffffffffu) h = (h + 1) & mask;
			t[h] = i;
		}
		table.swap(t);
	}
	uint32_t intern(const uint32_t *p, uint32_t n) {
		uint64_t h = hash(p, n) & mask;
		while (table[h] != 0xffffffffu) {
			uint32_t m; const uint32_t *q = get(table[h], m);
			if (m == n && !memcmp(p, q, n * 4)) return table[h];
			h = (h + 1) & mask;
		}
		uint32_t id = size();
		table[h] = id;
		// p may point into data
		std::vector<uint32_t> tmp(p, p + n);
		data.insert(data.end(), tmp.begin(), tmp.end());
		off.push_back(data.size());
		if (size() * 2 > table.size()) rehash();
		return id;
	}
};
Pool M, P;
std::vector<AtomInfo> atoms;
std::unordered_map<std::string, Atom> atomIdx;
struct XC { uint32_t p, q, r; };
std::vector<XC> xcache(1 << 20, XC{0, 0, 0});
std::vector<uint32_t> buf;

Poly internSorted(std::vector<uint32_t> &v) { return P.intern(v.data(), v.size()); }

void init() {
	M.clear(); P.clear(); atoms.clear(); atomIdx.clear();
	std::fill(xcache.begin(), xcache.end(), XC{0, 0, 0});
	uint32_t d = 0;
	M.intern(&d, 0);            // monomial 0: the empty product
	P.intern(&d, 0);            // poly 0: zero
	P.intern(&d, 1);            // poly 1: {mono 0}
}
struct Init { Init() { init(); } } initer;

std::vector<uint8_t> kindMemo;     // 0: not computed yet
uint8_t kindsOf(Poly p) {
	if (p <= ONE) return 0;
	if (kindMemo.size() <= p) kindMemo.resize(std::max<size_t>(p + 1, kindMemo.size() * 2), 0);
	if (kindMemo[p]) return kindMemo[p];
	uint8_t r = 0; uint32_t n; const uint32_t *m = P.get(p, n);
	for (uint32_t i = 0; i < n; i++) { uint32_t k; const uint32_t *q = M.get(m[i], k); for (uint32_t j = 0; j < k; j++) r |= atoms[q[j]].kinds; }
	return kindMemo[p] = r;
}
std::unordered_map<std::string, Poly> fnMemo;
std::vector<XC> acache(1 << 18, XC{0, 0, 0});

Poly single(Atom a) { uint32_t m = M.intern(&a, 1); return P.intern(&m, 1); }

Atom makeAtom(const std::string &key, AtomInfo &&i) {
	auto it = atomIdx.find(key);
	if (it != atomIdx.end()) return it->second;
	Atom a = atoms.size();
	i.kinds = 1 << i.kind;
	for (Poly p : i.args) i.kinds |= kindsOf(p);
	// leaf support
	if (i.kind == A_IN || i.kind == A_UF || i.kind == A_UNDEF || i.kind == A_HAVOC) i.leaves = {a};
	else {
		std::vector<Atom> l; bool ok = true;
		for (Poly p : i.args) if (!leavesOf(p, l, 8)) { ok = false; break; }
		if (ok) i.leaves = l; else i.bigSupport = true;
	}
	atoms.push_back(std::move(i));
	atomIdx.emplace(key, a);
	return a;
}
void put(std::string &k, uint32_t v) { k.append(reinterpret_cast<char *>(&v), 4); }
void put64(std::string &k, uint64_t v) { k.append(reinterpret_cast<char *>(&v), 8); }

uint32_t monoMul(uint32_t m1, uint32_t m2) {
	if (m1 == 0) return m2;
	if (m2 == 0 || m1 == m2) return m1;
	uint32_t n1, n2; const uint32_t *a = M.get(m1, n1), *b = M.get(m2, n2);
	std::vector<uint32_t> r; r.reserve(n1 + n2);
	std::set_union(a, a + n1, b, b + n2, std::back_inserter(r));
	return M.intern(r.data(), r.size());
}
uint32_t psize(Poly p) { uint32_t n; P.get(p, n); return n; }
bool hasOne(Poly p) { uint32_t n; const uint32_t *m = P.get(p, n); return n && m[0] == 0; }

Poly expandMul(Poly p, Poly q) {
	uint32_t n1, n2;
	const uint32_t *a0 = P.get(p, n1); std::vector<uint32_t> a(a0, a0 + n1);
	const uint32_t *b0 = P.get(q, n2); std::vector<uint32_t> b(b0, b0 + n2);
	std::vector<uint32_t> r; r.reserve(n1 * n2);
	for (uint32_t i : a) for (uint32_t j : b) r.push_back(monoMul(i, j));
	std::sort(r.begin(), r.end());
	std::vector<uint32_t> out;
	for (size_t i = 0; i < r.size();) {
		size_t j = i; while (j < r.size() && r[j] == r[i]) j++;
		if ((j - i) & 1) out.push_back(r[i]);
		i = j;
	}
	return internSorted(out);
}
bool singleAtom(Poly p, Atom &a) {
	uint32_t n; const uint32_t *m = P.get(p, n);
	if (n != 1 || m[0] == 0) return false;
	uint32_t k; const uint32_t *q = M.get(m[0], k);
	if (k != 1) return false;
	a = q[0]; return true;
}
}  // namespace

const AtomInfo &atom(Atom a) { return atoms[a]; }
size_t atomCount() { return atoms.size(); }
size_t polyCount() { return P.size(); }
const uint32_t *monos(Poly p, uint32_t &n) { return P.get(p, n); }
const uint32_t *monoAtoms(uint32_t m, uint32_t &n) { return M.get(m, n); }
void reset();

Poly ofAtom(Atom a) { return single(a); }
Poly input(uint32_t id, uint32_t bit) {
	std::string k = "I"; put(k, id); put(k, bit);
	AtomInfo i; i.kind = A_IN; i.id = id; i.bit = bit;
	return single(makeAtom(k, std::move(i)));
}
Poly uf(uint32_t f, const std::vector<Poly> &args, uint32_t bit) {
	std::string k = "U"; put(k, f); put(k, bit);
	for (Poly p : args) put(k, p);
	AtomInfo i; i.kind = A_UF; i.id = f; i.bit = bit; i.args = args;
	return single(makeAtom(k, std::move(i)));
}
static Poly fresh(AtomKind kind, const std::string &note) {
	AtomInfo i; i.kind = kind; i.id = atoms.size(); i.bit = 0; i.note = note;
	std::string k = "X"; put(k, i.id);
	return single(makeAtom(k, std::move(i)));
}
Poly undefBit(const std::string &note) { return fresh(A_UNDEF, note); }
Poly havocBit(const std::string &note) { return fresh(A_HAVOC, note); }

Poly x(Poly p, Poly q) {
	if (p == q) return ZERO;
	if (p == ZERO) return q;
	if (q == ZERO) return p;
	if (p > q) std::swap(p, q);
	XC &c = xcache[(p * 2654435761u ^ q * 40503u) & (xcache.size() - 1)];
	if (c.p == p && c.q == q) return c.r;
	uint32_t n1, n2; const uint32_t *a = P.get(p, n1), *b = P.get(q, n2);
	buf.clear();
	uint32_t i = 0, j = 0;
	while (i < n1 && j < n2) {
		if (a[i] < b[j]) buf.push_back(a[i++]);
		else if (a[i] > b[j]) buf.push_back(b[j++]);
		else { i++; j++; }
	}
	while (i < n1) buf.push_back(a[i++]);
	while (j < n2) buf.push_back(b[j++]);
	Poly r = P.intern(buf.data(), buf.size());
	c = XC{p, q, r};
	return r;
}
Poly n(Poly p) { return x(p, ONE); }

void atomsOf(Poly p, std::vector<Atom> &out) {
	uint32_t n; const uint32_t *m = P.get(p, n);
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k; const uint32_t *q = M.get(m[i], k);
		for (uint32_t j = 0; j < k; j++) out.push_back(q[j]);
	}
	std::sort(out.begin(), out.end());
	out.erase(std::unique(out.begin(), out.end()), out.end());
}
bool leavesOf(Poly p, std::vector<Atom> &out, unsigned lim) {
	uint32_t n; const uint32_t *m = P.get(p, n);
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k; const uint32_t *q = M.get(m[i], k);
		for (uint32_t j = 0; j < k; j++) {
			const AtomInfo &ai = atoms[q[j]];
			if (ai.bigSupport) {
				if (lim <= 8) return false;
				for (Poly b : ai.args) if (!leavesOf(b, out, lim)) return false;
				continue;
			}
			for (Atom l : ai.leaves)
				if (std::find(out.begin(), out.end(), l) == out.end()) {
					if (out.size() >= lim) return false;
					out.push_back(l);
				}
		}
	}
	return true;
}

// evaluate over explicit assignment of leaves
static bool evalLeaves(Poly p, const std::vector<Atom> &lv, uint32_t bits);
static bool evalAtomLeaves(Atom a, const std::vector<Atom> &lv, uint32_t bits) {
	for (size_t i = 0; i < lv.size(); i++) if (lv[i] == a) return bits >> i & 1;
	const AtomInfo &ai = atoms[a];
	switch (ai.kind) {
	case A_FN: {
		uint32_t ix = 0;
		for (size_t i = 0; i < ai.args.size(); i++) ix |= uint32_t(evalLeaves(ai.args[i], lv, bits)) << i;
		return ai.tt[ix >> 6] >> (ix & 63) & 1;
	}
	case A_ANDN:
		for (Poly q : ai.args) if (!evalLeaves(q, lv, bits)) return false;
		return true;
	case A_MUX: {
		size_t ne = ai.args.size() - ai.nidx; uint32_t ix = 0;
		for (size_t i = 0; i < ai.nidx; i++) ix |= uint32_t(evalLeaves(ai.args[ne + i], lv, bits)) << i;
		return evalLeaves(ai.args[ix], lv, bits);
	}
	default: assert(false); return false;
	}
}
static bool evalLeaves(Poly p, const std::vector<Atom> &lv, uint32_t bits) {
	uint32_t n; const uint32_t *m = P.get(p, n); bool r = false;
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k; const uint32_t *q = M.get(m[i], k); bool t = true;
		for (uint32_t j = 0; j < k && t; j++) t = evalAtomLeaves(q[j], lv, bits);
		r ^= t;
	}
	return r;
}
static Poly fromTTLeaves(std::vector<uint64_t> tt, std::vector<Atom> lv);

// canonical FN from truth table; bases arbitrary polys
static Poly fn0(const std::vector<uint64_t> &tt0, const std::vector<Poly> &bases0);
Poly fn(const std::vector<uint64_t> &tt0, const std::vector<Poly> &bases0) {
	std::string key; for (Poly p : bases0) put(key, p);
	for (uint64_t w : tt0) put64(key, w);
	auto it = fnMemo.find(key);
	if (it != fnMemo.end()) return it->second;
	if (fnMemo.size() > 2000000) fnMemo.clear();
	Poly r = fn0(tt0, bases0);
	return fnMemo[key] = r;
}
static Poly fn0(const std::vector<uint64_t> &tt0, const std::vector<Poly> &bases0) {
	std::vector<Poly> bases = bases0; std::vector<bool> T(size_t(1) << bases.size());
	for (size_t i = 0; i < T.size(); i++) T[i] = tt0[i >> 6] >> (i & 63) & 1;
	// constants, complements, duplicates, irrelevance
	for (size_t v = 0; v < bases.size();) {
		bool drop = false; int cval = 0; size_t dup = v;
		if (isConst(bases[v])) { drop = true; cval = bases[v]; }
		else {
			if (hasOne(bases[v])) {
				bases[v] = n(bases[v]);
				std::vector<bool> T2(T.size());
				for (size_t i = 0; i < T.size(); i++) T2[i] = T[i ^ (size_t(1) << v)];
				T = T2;
			}
			for (size_t w = 0; w < v; w++) if (bases[w] == bases[v]) { dup = w; break; }
			if (dup == v) {
				bool rel = false;
				for (size_t i = 0; i < T.size() && !rel; i++) if (!(i >> v & 1)) rel = T[i] != T[i | size_t(1) << v];
				if (!rel) { drop = true; cval = 0; }
			}
		}
		if (drop || dup != v) {
			std::vector<bool> T2(T.size() / 2);
			for (size_t i = 0; i < T2.size(); i++) {
				size_t lo = i & ((size_t(1) << v) - 1), hi = (i >> v) << (v + 1);
				size_t bit = drop ? cval : (i >> dup & 1);
				T2[i] = T[hi | (bit << v) | lo];
			}
			T = T2; bases.erase(bases.begin() + v);
			v = 0;   // relevance may have changed
			continue;
		}
		v++;
	}
	size_t k = bases.size();
	if (k == 0) return T[0] ? ONE : ZERO;
	// ANF over bases
	std::vector<bool> A = T;
	for (size_t v = 0; v < k; v++)
		for (size_t i = 0; i < A.size(); i++) if (i >> v & 1) A[i] = A[i] ^ A[i ^ (size_t(1) << v)];
	bool affine = true; uint64_t cost = 0;
	for (size_t i = 0; i < A.size(); i++) if (A[i]) {
		if (__builtin_popcountll(i) > 1) affine = false;
		uint64_t c = 1;
		for (size_t v = 0; v < k && c < 1000000; v++) if (i >> v & 1) c *= psize(bases[v]);
		cost += c;
	}
	std::vector<Atom> lv; bool small = true;
	for (Poly b : bases) if (!leavesOf(b, lv, 6)) { small = false; break; }
	if (affine || cost <= 48 || small) {
		if (!affine && small && cost > 4096) {
			// fall through to leaf truth table
			std::vector<uint64_t> t2((size_t(1) << lv.size()) / 64 + 1, 0);
			for (uint32_t a = 0; a < (1u << lv.size()); a++) {
				uint32_t ix = 0;
				for (size_t v = 0; v < k; v++) ix |= uint32_t(evalLeaves(bases[v], lv, a)) << v;
				if (T[ix]) t2[a >> 6] |= 1ull << (a & 63);
			}
			return fromTTLeaves(t2, lv);
		}
		Poly r = ZERO;
		for (size_t i = 0; i < A.size(); i++) if (A[i]) {
			Poly t = ONE;
			for (size_t v = 0; v < k; v++) if (i >> v & 1) t = expandMul(t, bases[v]);
			r = x(r, t);
		}
		return r;
	}
	// canonical opaque node: sort bases, normalise f(0)=0
	std::vector<size_t> ord(k);
	for (size_t i = 0; i < k; i++) ord[i] = i;
	std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return bases[a] < bases[b]; });
	std::vector<uint64_t> tt(std::max<size_t>(1, (size_t(1) << k) / 64), 0);
	bool neg = T[0];
	for (size_t i = 0; i < T.size(); i++) {
		size_t j = 0;
		for (size_t v = 0; v < k; v++) if (i >> ord[v] & 1) j |= size_t(1) << v;
		if (T[i] != neg) tt[j >> 6] |= 1ull << (j & 63);
	}
	AtomInfo ai; ai.kind = A_FN; ai.id = ai.bit = 0;
	for (size_t v = 0; v < k; v++) ai.args.push_back(bases[ord[v]]);
	ai.tt = tt;
	std::string key = "F"; for (Poly p : ai.args) put(key, p);
	for (uint64_t w : tt) put64(key, w);
	Poly r = single(makeAtom(key, std::move(ai)));
	return neg ? n(r) : r;
}
static Poly fromTTLeaves(std::vector<uint64_t> tt, std::vector<Atom> lv) {
	std::vector<bool> A(size_t(1) << lv.size());
	for (size_t i = 0; i < A.size(); i++) A[i] = tt[i >> 6] >> (i & 63) & 1;
	for (size_t v = 0; v < lv.size(); v++)
		for (size_t i = 0; i < A.size(); i++) if (i >> v & 1) A[i] = A[i] ^ A[i ^ (size_t(1) << v)];
	Poly r = ZERO;
	for (size_t i = 0; i < A.size(); i++) if (A[i]) {
		std::vector<uint32_t> m;
		for (size_t v = 0; v < lv.size(); v++) if (i >> v & 1) m.push_back(lv[v]);
		std::sort(m.begin(), m.end());
		uint32_t mi = M.intern(m.data(), m.size());
		r = x(r, P.intern(&mi, 1));
	}
	return r;
}

static const uint64_t MULLIM = 512;

static void basesOf(Poly p, std::vector<Poly> &out) {
	Atom a;
	Poly q = hasOne(p) ? n(p) : p;
	if (singleAtom(q, a) && atoms[a].kind == A_FN)
		for (Poly b : atoms[a].args) { if (std::find(out.begin(), out.end(), b) == out.end()) out.push_back(b); }
	else if (std::find(out.begin(), out.end(), q) == out.end()) out.push_back(q);
}
static bool evalBase(Poly p, const std::vector<Poly> &bases, uint32_t bits) {
	bool inv = hasOne(p); Poly q = inv ? n(p) : p;
	for (size_t i = 0; i < bases.size(); i++) if (bases[i] == q) return (bits >> i & 1) ^ inv;
	Atom a; bool ok = singleAtom(q, a); assert(ok); (void)ok;
	uint32_t ix = 0;
	for (size_t i = 0; i < atoms[a].args.size(); i++) ix |= uint32_t(evalBase(atoms[a].args[i], bases, bits)) << i;
	return bool(atoms[a].tt[ix >> 6] >> (ix & 63) & 1) ^ inv;
}

// f over up to three polys, given as 8-bit truth table
static Poly combine(unsigned tt3, const std::vector<Poly> &in) {
	std::vector<Atom> lv; bool small = true;
	for (Poly p : in) if (!leavesOf(p, lv, 6)) { small = false; break; }
	if (small) {
		std::vector<uint64_t> t(1, 0);
		for (uint32_t a = 0; a < (1u << lv.size()); a++) {
			uint32_t ix = 0;
			for (size_t v = 0; v < in.size(); v++) ix |= uint32_t(evalLeaves(in[v], lv, a)) << v;
			if (tt3 >> ix & 1) t[0] |= 1ull << a;
		}
		return fromTTLeaves(t, lv);
	}
	std::vector<Poly> bases;
	for (Poly p : in) basesOf(p, bases);
	if (bases.size() > 8) {
		bases.clear();
		for (Poly p : in) { Poly q = hasOne(p) ? n(p) : p; if (std::find(bases.begin(), bases.end(), q) == bases.end()) bases.push_back(q); }
	}
	std::vector<uint64_t> tt(std::max<size_t>(1, (size_t(1) << bases.size()) / 64), 0);
	for (uint32_t b = 0; b < (1u << bases.size()); b++) {
		uint32_t ix = 0;
		for (size_t v = 0; v < in.size(); v++) ix |= uint32_t(evalBase(in[v], bases, b)) << v;
		if (tt3 >> ix & 1) tt[b >> 6] |= 1ull << (b & 63);
	}
	return fn(tt, bases);
}

static Poly a0(Poly p, Poly q);
Poly a(Poly p, Poly q) {
	if (p == ZERO || q == ZERO) return ZERO;
	if (p == ONE) return q;
	if (q == ONE || p == q) return p;
	if (p > q) std::swap(p, q);
	XC &c = acache[(p * 2654435761u ^ q * 40503u) & (acache.size() - 1)];
	if (c.p == p && c.q == q) return c.r;
	Poly r = a0(p, q);
	c = XC{p, q, r};
	return r;
}
// ---- simplification under a conjunction ----------------------------------
// c & q only depends on q where the conjunction c holds: the affine factors of c
// are equations by which atoms of q, at any depth, are replaced by older ones.
// A conjunction is a product of atoms, of which one may be an ANDN that holds the
// factors which are not plain atoms.
struct Under {
	Atom minPivot = ~0u; bool contradiction = false;
	std::unordered_map<Atom, Poly> piv, self, am; std::unordered_map<Poly, Poly> pm;
	uint64_t budget = 200000;
	static bool affine(Poly p) {
		uint32_t n; const uint32_t *m = P.get(p, n);
		if (n > 200) return false;
		for (uint32_t i = 0; i < n; i++) { uint32_t k; M.get(m[i], k); if (k > 1) return false; }
		return true;
	}
	static Atom top(Poly p) {
		uint32_t n; const uint32_t *m = P.get(p, n); Atom t = 0;
		for (uint32_t i = 0; i < n; i++) { uint32_t k; const uint32_t *q = M.get(m[i], k); if (k) t = std::max(t, q[0]); }
		return t;
	}
	// f holds
	void add(Poly f) {
		Poly q = n(f);
		while (q > ONE) {
			Atom t = top(q); auto it = piv.find(t);
			if (it == piv.end()) { piv[t] = x(q, single(t)); minPivot = std::min(minPivot, t); am.clear(); pm.clear(); return; }
			q = x(q, x(single(t), it->second));
		}
		if (q == ONE) contradiction = true;
	}
	bool poly(Poly p, Poly &out);
	bool atomOf(Atom a, Poly &out);
};
static std::unordered_map<uint32_t, Under> unders; static uint64_t underLeft = 20000000; static int underDepth = 0;
static Poly conjoin(std::vector<Poly> f);
void reset() { init(); unders.clear(); }
bool Under::atomOf(Atom at, Poly &out) {
	if (at < minPivot) { out = single(at); return true; }
	auto sf = self.find(at);
	if (sf != self.end()) { out = ONE; return true; }
	auto it = am.find(at);
	if (it != am.end()) { out = it->second; return true; }
	if (!budget || !underLeft) return false;
	budget--; underLeft--;
	auto pv = piv.find(at);
	if (pv != piv.end()) { if (!poly(pv->second, out)) return false; am[at] = out; return true; }
	const AtomInfo ai = atoms[at];
	std::vector<Poly> na(ai.args.size()); bool changed = false;
	for (size_t i = 0; i < na.size(); i++) { if (!poly(ai.args[i], na[i])) return false; if (na[i] != ai.args[i]) changed = true; }
	if (!changed) out = single(at);
	else switch (ai.kind) {
	case A_UF: out = uf(ai.id, na, ai.bit); break;
	case A_FN: out = fn(ai.tt, na); break;
	case A_ANDN: out = conjoin(na); break;
	case A_MUX: out = mux(std::vector<Poly>(na.begin(), na.end() - ai.nidx), std::vector<Poly>(na.end() - ai.nidx, na.end())); break;
	default: out = single(at);
	}
	am[at] = out;
	return true;
}
bool Under::poly(Poly p, Poly &out) {
	if (p <= ONE) { out = p; return true; }
	auto it = pm.find(p);
	if (it != pm.end()) { out = it->second; return true; }
	uint32_t n; const uint32_t *m0 = P.get(p, n);
	if (n > 5000) return false;
	std::vector<uint32_t> m(m0, m0 + n), keep; Poly r = ZERO;
	for (uint32_t mi : m) {
		uint32_t k; const uint32_t *q0 = M.get(mi, k); std::vector<uint32_t> q(q0, q0 + k);
		bool changed = false; std::vector<Poly> f(k);
		for (uint32_t j = 0; j < k; j++) { if (!atomOf(q[j], f[j])) return false; if (f[j] != single(q[j])) changed = true; }
		if (!changed) { keep.push_back(mi); continue; }
		Poly t = ONE; for (Poly g : f) { if (g == ZERO) { t = ZERO; break; } }
		if (t != ZERO) for (Poly g : f) t = a(t, g);
		r = x(r, t);
	}
	r = x(r, P.intern(keep.data(), keep.size()));
	out = pm[p] = r;
	return true;
}
// one product that holds an ANDN or many atoms
static bool isConj(Poly p, uint32_t &mono) {
	uint32_t n; const uint32_t *m = P.get(p, n);
	if (n != 1 || m[0] == 0) return false;
	mono = m[0];
	uint32_t k; const uint32_t *q = M.get(mono, k);
	if (k > 8) return true;
	for (uint32_t i = 0; i < k; i++) if (atoms[q[i]].kind == A_ANDN) return true;
	return false;
}
static void conjFactors(uint32_t mono, std::vector<Poly> &f) {
	uint32_t k; const uint32_t *q0 = M.get(mono, k); std::vector<uint32_t> q(q0, q0 + k);
	for (Atom at : q)
		if (atoms[at].kind == A_ANDN) f.insert(f.end(), atoms[at].args.begin(), atoms[at].args.end());
		else f.push_back(single(at));
}
static Poly under(uint32_t c, Poly q) {
	if (q <= ONE || underDepth > 3) return q;
	auto it = unders.find(c);
	if (it == unders.end()) {
		if (unders.size() > 3000 && !underDepth) unders.clear();
		Under u; std::vector<Poly> fs; conjFactors(c, fs);
		for (Poly f : fs) if (Under::affine(f)) u.add(f);
		uint32_t k; const uint32_t *at = M.get(c, k);
		for (uint32_t i = 0; i < k; i++) if (atoms[at[i]].kind == A_ANDN) { u.self[at[i]] = ONE; u.minPivot = std::min(u.minPivot, at[i]); }
		it = unders.emplace(c, std::move(u)).first;
	}
	Poly r; underDepth++;
	Under &u = it->second; bool done = u.poly(q, r);
	underDepth--;
	return done ? r : q;
}
static Poly conjoin(std::vector<Poly> f0) {
	std::vector<Poly> f;
	for (Poly r : f0) {
		uint32_t mono;
		if (r == ZERO) return ZERO;
		if (r == ONE) continue;
		if (isConj(r, mono)) conjFactors(mono, f);
		else f.push_back(r);
	}
	std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end());
	for (Poly r : f) if (std::binary_search(f.begin(), f.end(), n(r))) return ZERO;
	Under u; std::vector<Poly> rest;
	for (Poly r : f) if (Under::affine(r)) { u.add(r); if (u.contradiction) return ZERO; } else rest.push_back(r);
	// the others, simplified; one of them may become an equation
	for (bool again = true; again && underDepth <= 3;) {
		again = false; std::vector<Poly> left;
		for (Poly r : rest) {
			Poly q; underDepth++; u.budget = 20000; bool done = u.poly(r, q); underDepth--;
			if (!done) { left.push_back(r); continue; }
			if (q == ZERO) return ZERO;
			if (q == ONE) continue;
			uint32_t mono;
			if (Under::affine(q)) { u.add(q); again = true; if (u.contradiction) return ZERO; }
			else if (isConj(q, mono)) { conjFactors(mono, left); again = true; }
			else left.push_back(q);
		}
		std::sort(left.begin(), left.end()); left.erase(std::unique(left.begin(), left.end()), left.end());
		rest = left;
	}
	std::vector<Poly> g = rest; std::vector<Atom> plain;
	for (auto &kv : u.piv) {
		Poly r; underDepth++; u.budget = 20000; bool done = u.poly(kv.second, r); underDepth--;
		if (!done) r = kv.second;
		r = n(x(single(kv.first), r));
		Atom at; if (singleAtom(r, at) && atoms[at].kind != A_ANDN) plain.push_back(at); else g.push_back(r);
	}
	std::sort(plain.begin(), plain.end()); std::sort(g.begin(), g.end()); g.erase(std::unique(g.begin(), g.end()), g.end());
	for (Poly r : g) if (r == ZERO || std::binary_search(g.begin(), g.end(), n(r))) return ZERO;
	uint32_t mi = M.intern(plain.data(), plain.size()); Poly pm = P.intern(&mi, 1);
	if (g.empty()) return pm;
	if (g.size() == 1) return expandMul(pm, g[0]);
	AtomInfo ai; ai.kind = A_ANDN; ai.id = ai.bit = 0; ai.args = g;
	std::string key = "A"; for (Poly r : g) put(key, r);
	return expandMul(pm, single(makeAtom(key, std::move(ai))));
}
Poly all(const std::vector<Poly> &f0) {
	std::vector<Poly> f;
	for (Poly r : f0) { if (r == ZERO) return ZERO; if (r != ONE) f.push_back(r); }
	std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end());
	if (f.size() > 8) return conjoin(f);
	Poly r = ONE; for (Poly q : f) { r = a(r, q); if (r == ZERO) break; }
	return r;
}
static Poly a0(Poly p, Poly q) {
	if (p == ZERO || q == ZERO) return ZERO;
	if (p == ONE) return q;
	if (q == ONE || p == q) return p;
	if (p == n(q)) return ZERO;
	uint32_t ca, cb; bool pc = isConj(p, ca), qc = isConj(q, cb);
	if (pc && qc) return conjoin({p, q});
	if (pc || qc) {
		if (qc) { std::swap(p, q); ca = cb; }
		Poly r = under(ca, q);
		if (r == ZERO) return ZERO;
		if (r == ONE) return p;
		if (isConj(r, cb)) return conjoin({p, r});
		if (isConj(n(r), cb)) return x(p, conjoin({p, n(r)}));
		q = r;
	} else if (isConj(n(p), ca)) return x(q, a(n(p), q));
	else if (isConj(n(q), cb)) return x(p, a(n(q), p));
	uint64_t s1 = psize(p), s2 = psize(q);
	if (s1 * s2 <= MULLIM || (std::min(s1, s2) <= 2 && std::max(s1, s2) <= 4096)) return expandMul(p, q);
	// conjunctions of many factors
	auto factors = [](Poly r, std::vector<Poly> &f) {
		uint32_t mono;
		if (isConj(r, mono)) conjFactors(mono, f);
		else f.push_back(r);
	};
	std::vector<Poly> f; factors(p, f); factors(q, f);
	std::vector<Poly> bases; for (Poly r : f) basesOf(r, bases);
	if (bases.size() <= 6) {
		if (f.size() == 2) return combine(0x8, {p, q});
		Poly r = combine(0x8, {f[0], f[1]});
		for (size_t i = 2; i < f.size(); i++) r = combine(0x8, {r, f[i]});
		return r;
	}
	return conjoin(f);
}
Poly o(Poly p, Poly q) { return n(a(n(p), n(q))); }
Poly ite(Poly c, Poly t, Poly f) {
	if (c == ONE || t == f) return t;
	if (c == ZERO) return f;
	return x(f, a(c, x(t, f)));
}
Poly maj(Poly p, Poly q, Poly r) {
	if (p == q) return p;
	if (p == r) return p;
	if (q == r) return q;
	if (p == ZERO) return a(q, r);
	if (q == ZERO) return a(p, r);
	if (r == ZERO) return a(p, q);
	if (p == ONE) return o(q, r);
	if (q == ONE) return o(p, r);
	if (r == ONE) return o(p, q);
	uint64_t s1 = psize(p), s2 = psize(q), s3 = psize(r);
	if (s1 * s2 + s1 * s3 + s2 * s3 <= 64) return x(x(expandMul(p, q), expandMul(p, r)), expandMul(q, r));
	return combine(0xe8, {p, q, r});
}
Poly mux(const std::vector<Poly> &elems0, const std::vector<Poly> &idx0) {
	std::vector<Poly> e = elems0, ix = idx0;
	for (size_t v = 0; v < ix.size();) {
		bool drop = false; size_t c = 0;
		if (isConst(ix[v])) { drop = true; c = ix[v]; }
		else {
			drop = true;
			for (size_t i = 0; i < e.size(); i++) if (!(i >> v & 1) && e[i] != e[i | size_t(1) << v]) { drop = false; break; }
			if (!drop && hasOne(ix[v])) {
				ix[v] = n(ix[v]);
				for (size_t i = 0; i < e.size(); i++) if (!(i >> v & 1)) std::swap(e[i], e[i | size_t(1) << v]);
			}
			size_t dup = v;
			if (!drop) for (size_t w = 0; w < v; w++) if (ix[w] == ix[v]) dup = w;
			if (!drop && dup != v) {
				std::vector<Poly> e2(e.size() / 2);
				for (size_t i = 0; i < e2.size(); i++) {
					size_t lo = i & ((size_t(1) << v) - 1), hi = (i >> v) << (v + 1);
					e2[i] = e[hi | ((i >> dup & 1) << v) | lo];
				}
				e = e2; ix.erase(ix.begin() + v); v = 0; continue;
			}
		}
		if (drop) {
			std::vector<Poly> e2(e.size() / 2);
			for (size_t i = 0; i < e2.size(); i++) {
				size_t lo = i & ((size_t(1) << v) - 1), hi = (i >> v) << (v + 1);
				e2[i] = e[hi | (c << v) | lo];
			}
			e = e2; ix.erase(ix.begin() + v); v = 0; continue;
		}
		v++;
	}
	if (ix.empty()) return e[0];
	bool allc = true;
	for (Poly p : e) if (!isConst(p)) allc = false;
	if (allc) {
		std::vector<uint64_t> tt(std::max<size_t>(1, e.size() / 64), 0);
		for (size_t i = 0; i < e.size(); i++) if (e[i]) tt[i >> 6] |= 1ull << (i & 63);
		return fn(tt, ix);
	}
	if (ix.size() == 1) return ite(ix[0], e[1], e[0]);
	if (ix.size() <= 4) {
		bool tiny = true;
		for (Poly p : ix) if (psize(p) > 1) tiny = false;
		for (Poly p : e) if (psize(p) > 2) tiny = false;
		if (tiny) {
			std::vector<Poly> cur = e;
			for (size_t v = ix.size(); v-- > 0;) {
				size_t h = cur.size() / 2;
				std::vector<Poly> nx(h);
				for (size_t i = 0; i < h; i++) nx[i] = x(cur[i], expandMul(ix[v], x(cur[i], cur[i + h])));
				cur = nx;
			}
			return cur[0];
		}
	}
	// sort indices
	std::vector<size_t> ord(ix.size());
	for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
	std::sort(ord.begin(), ord.end(), [&](size_t l, size_t r) { return ix[l] < ix[r]; });
	AtomInfo ai; ai.kind = A_MUX; ai.id = ai.bit = 0; ai.nidx = ix.size();
	ai.args.resize(e.size());
	for (size_t i = 0; i < e.size(); i++) {
		size_t j = 0;
		for (size_t v = 0; v < ix.size(); v++) if (i >> ord[v] & 1) j |= size_t(1) << v;
		ai.args[j] = e[i];
	}
	for (size_t v = 0; v < ix.size(); v++) ai.args.push_back(ix[ord[v]]);
	std::string key = "M"; put(key, ai.nidx); for (Poly p : ai.args) put(key, p);
	return single(makeAtom(key, std::move(ai)));
}

bool containsKind(Poly p, AtomKind k, std::string *note) {
	if (!(kindsOf(p) & (1 << k))) return false;
	if (!note) return true;
	std::vector<Poly> st{p}; std::unordered_set<Poly> seen;
	while (!st.empty()) {
		Poly q = st.back(); st.pop_back();
		if (!seen.insert(q).second) continue;
		std::vector<Atom> as; atomsOf(q, as);
		for (Atom at : as) {
			if (atoms[at].kind == k) { *note = atoms[at].note; return true; }
			if (atoms[at].kinds & (1 << k)) for (Poly r : atoms[at].args) st.push_back(r);
		}
	}
	return true;
}

static uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }

static uint64_t evalWork = 0;
static bool evalAtom(Atom at, Point &pt) {
	auto it = pt.memo.find(at);
	if (it != pt.memo.end()) return it->second;
	evalWork++;
	const AtomInfo ai = atoms[at];
	bool r = false;
	switch (ai.kind) {
	case A_IN: case A_UNDEF: case A_HAVOC: {
		auto f = pt.forced.find(at);
		if (f != pt.forced.end()) r = f->second;
		else if (pt.mode == 1) r = false;
		else if (pt.mode == 2) r = true;
		else if (pt.mode == 3) r = (mix(pt.seed * 77 + at) & 15) == 0;
		else r = mix(pt.seed * 1000003 + at) & 1;
		break;
	}
	case A_UF: {
		std::string key; put(key, ai.id); put(key, ai.bit);
		for (Poly p : ai.args) key.push_back(eval(p, pt) ? '1' : '0');
		auto t = pt.ufTable.find(key);
		if (t != pt.ufTable.end()) r = t->second;
		else {
			auto f = pt.forced.find(at);
			if (f != pt.forced.end()) r = f->second;
			else { uint64_t h = pt.seed; for (char ch : key) h = mix(h * 31 + (unsigned char)ch); r = h & 1; }
			pt.ufTable[key] = r;
		}
		break;
	}
	case A_FN: {
		uint32_t ix = 0;
		for (size_t i = 0; i < ai.args.size(); i++) ix |= uint32_t(eval(ai.args[i], pt)) << i;
		r = ai.tt[ix >> 6] >> (ix & 63) & 1; break;
	}
	case A_ANDN:
		r = true; for (Poly p : ai.args) if (!eval(p, pt)) { r = false; break; }
		break;
	case A_MUX: {
		size_t ne = ai.args.size() - ai.nidx; uint32_t ix = 0;
		for (size_t i = 0; i < ai.nidx; i++) ix |= uint32_t(eval(ai.args[ne + i], pt)) << i;
		r = eval(ai.args[ix], pt); break;
	}
	}
	pt.memo[at] = r;
	return r;
}
bool eval(Poly p, Point &pt) {
	uint32_t n; const uint32_t *m0 = P.get(p, n); bool r = false;
	std::vector<uint32_t> m(m0, m0 + n);
	for (uint32_t mi : m) {
		uint32_t k; const uint32_t *q0 = M.get(mi, k); bool t = true;
		std::vector<uint32_t> q(q0, q0 + k);
		for (uint32_t at : q) if (!evalAtom(at, pt)) { t = false; break; }
		r ^= t;
	}
	return r;
}
// truth tables over at most 14 leaves, all points at once
typedef std::vector<uint64_t> TT;
struct Tables {
	const std::vector<Atom> &lv; size_t words;
	std::unordered_map<Atom, TT> am; std::unordered_map<Poly, TT> pm;
	explicit Tables(const std::vector<Atom> &lv) : lv(lv), words(std::max<size_t>(1, (size_t(1) << lv.size()) / 64)) {}
	const TT &ofA(Atom at) {
		auto it = am.find(at);
		if (it != am.end()) return it->second;
		TT r(words, 0);
		size_t i = std::find(lv.begin(), lv.end(), at) - lv.begin();
		if (i < lv.size()) {
			static const uint64_t pat[6] = {0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull};
			for (size_t w = 0; w < words; w++) r[w] = i < 6 ? pat[i] : (w >> (i - 6) & 1) ? ~0ull : 0;
		} else {
			const AtomInfo ai = atoms[at];
			if (ai.kind == A_ANDN) {
				r.assign(words, ~0ull);
				for (Poly q : ai.args) { const TT &t = ofP(q); for (size_t w = 0; w < words; w++) r[w] &= t[w]; }
			} else {
				size_t ne = ai.kind == A_MUX ? ai.args.size() - ai.nidx : 0, nb = ai.args.size() - ne;
				std::vector<TT> a; for (size_t v = 0; v < nb; v++) a.push_back(ofP(ai.args[ne + v]));
				std::vector<TT> e; for (size_t v = 0; v < ne; v++) e.push_back(ofP(ai.args[v]));
				for (size_t w = 0; w < words; w++) {
					uint64_t o = 0;
					for (unsigned b = 0; b < 64; b++) {
						uint32_t ix = 0; for (size_t v = 0; v < nb; v++) ix |= uint32_t(a[v][w] >> b & 1) << v;
						o |= (ne ? e[ix][w] >> b & 1 : ai.tt[ix >> 6] >> (ix & 63) & 1) << b;
					}
					r[w] = o;
				}
			}
		}
		return am[at] = r;
	}
	const TT &ofP(Poly p) {
		auto it = pm.find(p);
		if (it != pm.end()) return it->second;
		TT r(words, 0); uint32_t n; const uint32_t *m0 = P.get(p, n); std::vector<uint32_t> m(m0, m0 + n);
		for (uint32_t mi : m) {
			TT t(words, ~0ull); uint32_t k; const uint32_t *q0 = M.get(mi, k); std::vector<uint32_t> q(q0, q0 + k);
			for (uint32_t at : q) { const TT &a = ofA(at); for (size_t w = 0; w < words; w++) t[w] &= a[w]; }
			for (size_t w = 0; w < words; w++) r[w] ^= t[w];
		}
		return pm[p] = r;
	}
};
bool refuted(Poly p, const std::vector<Poly> &conj) {
	std::vector<Atom> lv;
	if (!leavesOf(p, lv, 12)) return false;
	std::vector<Poly> use{p};
	for (Poly q : conj) {
		if (q <= ONE) continue;
		std::vector<Atom> l2; size_t before = lv.size();
		if (!leavesOf(q, l2, 12)) continue;
		bool shares = false; for (Atom l : l2) if (std::find(lv.begin(), lv.begin() + before, l) != lv.begin() + before) { shares = true; break; }
		if (!shares) continue;
		std::vector<Atom> l3 = lv; bool ok = true;
		for (Atom l : l2) if (std::find(l3.begin(), l3.end(), l) == l3.end()) { if (l3.size() >= 12) { ok = false; break; } l3.push_back(l); }
		if (!ok) continue;
		lv = l3; use.push_back(q);
	}
	Tables T(lv); TT all(T.words, ~0ull);
	if (lv.size() < 6) all[0] = (1ull << (1u << lv.size())) - 1;
	for (Poly q : use) { const TT &t = T.ofP(q); for (size_t w = 0; w < T.words; w++) all[w] &= t[w]; }
	for (uint64_t w : all) if (w) return false;
	return true;
}
// ---- goal-directed choice of a point ------------------------------------
// Random points do not meet rare conditions (a word being zero, two words being
// equal).  Starting from the rare nodes of a form, requirements are pushed down
// to the leaves and collected as linear equations; the point that results is
// evaluated like any other.
static uint64_t guidedLeft = 60000000;
struct Lin {
	std::vector<std::pair<std::vector<Atom>, bool>> rows; std::unordered_map<Atom, size_t> pivot;
	static void xorTo(std::vector<Atom> &a, const std::vector<Atom> &b) { std::vector<Atom> r; std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); a.swap(r); }
	bool add(std::vector<Atom> v, bool rhs) {
		while (!v.empty()) {
			auto it = pivot.find(v.back());
			if (it == pivot.end()) { pivot[v.back()] = rows.size(); rows.push_back({v, rhs}); return true; }
			rhs ^= rows[it->second].second; xorTo(v, rows[it->second].first);
		}
		return !rhs;
	}
	void solve(Point &q, uint64_t seed) {
		std::vector<Atom> all; for (auto &r : rows) all.insert(all.end(), r.first.begin(), r.first.end());
		std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
		for (Atom a : all) {
			auto it = pivot.find(a);
			if (it == pivot.end()) { q.forced[a] = mix(seed * 911 + a) & 1; continue; }
			bool v = rows[it->second].second;
			for (Atom b : rows[it->second].first) if (b != a) v ^= q.forced[b];
			q.forced[a] = v;
		}
	}
};
static bool isLeaf(const AtomInfo &a) { return a.kind == A_IN || a.kind == A_UF || a.kind == A_UNDEF || a.kind == A_HAVOC; }
// false: contradictory with what was chosen before
static bool justify(std::vector<std::pair<Poly, bool>> goals, Lin &L, uint64_t seed) {
	unsigned steps = 0; uint64_t h = mix(seed);
	auto rnd = [&](uint64_t n) { h = mix(h + 0x9e3779b97f4a7c15ull); return h % n; };
	std::vector<std::pair<Atom, bool>> at;
	while (!goals.empty() || !at.empty()) {
		if (++steps > 3000) return true;      // the rest is left to luck
		if (!at.empty()) {
			Atom a = at.back().first; bool v = at.back().second; at.pop_back();
			const AtomInfo &ai = atoms[a];
			if (isLeaf(ai)) { if (!L.add({a}, v)) return false; continue; }
			if (ai.kind == A_ANDN) {
				if (v) for (Poly p : ai.args) goals.push_back({p, true});
				else goals.push_back({ai.args[rnd(ai.args.size())], false});
			} else if (ai.kind == A_FN) {
				uint32_t n = 1u << ai.args.size(), i = rnd(n), k = 0;
				for (; k < n; k++, i = (i + 1) & (n - 1)) if (bool(ai.tt[i >> 6] >> (i & 63) & 1) == v) break;
				if (k == n) return false;
				for (size_t b = 0; b < ai.args.size(); b++) goals.push_back({ai.args[b], i >> b & 1});
			} else {
				size_t ne = ai.args.size() - ai.nidx; uint32_t i = rnd(ne), k = 0;
				for (; k < ne; k++, i = (i + 1) % ne) if (ai.args[i] == (v ? ONE : ZERO) || ai.args[i] > ONE) break;
				if (k == ne) return false;
				for (size_t b = 0; b < ai.nidx; b++) goals.push_back({ai.args[ne + b], i >> b & 1});
				goals.push_back({ai.args[i], v});
			}
			continue;
		}
		Poly p = goals.back().first; bool v = goals.back().second; goals.pop_back();
		if (p <= ONE) { if ((p == ONE) != v) return false; continue; }
		uint32_t n; const uint32_t *m = P.get(p, n);
		std::vector<Atom> lin; std::vector<uint32_t> rest; bool rhs = v;
		for (uint32_t i = 0; i < n; i++) {
			uint32_t k; const uint32_t *q = M.get(m[i], k);
			if (k == 0) rhs = !rhs;
			else if (k == 1 && isLeaf(atoms[q[0]])) lin.push_back(q[0]);
			else rest.push_back(m[i]);
		}
		if (rest.size() >= 4 && n <= 20000 && (rest.size() > 40 || rnd(2))) {
			// one smallest product set, every other variable of the form clear
			std::set<Atom> zero, one; uint32_t best = 0, bd = ~0u; bool c0 = hasOne(p);
			uint32_t from = rnd(n);
			for (uint32_t j = 0; j < n; j++) {
				uint32_t i = (from + j) % n, k; const uint32_t *q = M.get(m[i], k);
				zero.insert(q, q + k);
				if (k && k < bd) { bd = k; best = m[i]; }
			}
			if (c0 != v) { uint32_t k; const uint32_t *q = M.get(best, k); one.insert(q, q + k); }
			for (Atom a : zero) at.push_back({a, one.count(a) > 0});
			continue;
		}
		if (rest.size() > 40) continue;        // left to luck
		std::sort(lin.begin(), lin.end());
		bool ones = false;
		for (size_t i = 0; i < rest.size(); i++) {
			bool one = !lin.empty() ? rnd(4) == 0 : false;
			if (lin.empty() && !ones && rhs && rnd(rest.size() - i) == 0) one = ones = true;
			if (!lin.empty()) rhs ^= one;
			uint32_t k; const uint32_t *q = M.get(rest[i], k);
			if (one) for (uint32_t j = 0; j < k; j++) at.push_back({q[j], true});
			else at.push_back({q[rnd(k)], false});
		}
		if (!lin.empty()) { if (!L.add(lin, rhs)) return false; }
		else if (rest.empty() && rhs) return false;
	}
	return true;
}
struct Rare { Poly p; uint32_t mono; bool isMono, v; };
static void rareNodes(const std::vector<Poly> &conj, std::vector<Rare> &out) {
	std::vector<Poly> q(conj.rbegin(), conj.rend()); std::unordered_set<Poly> seen(q.begin(), q.end()); std::unordered_set<uint32_t> ms; std::unordered_set<Atom> as;
	for (size_t i = 0; i < q.size() && as.size() < 20000 && out.size() < 150; i++) {
		uint32_t n; const uint32_t *m = P.get(q[i], n);
		for (uint32_t j = 0; j < n && j < 512; j++) {
			uint32_t k; const uint32_t *a = M.get(m[j], k);
			if (k >= 5 && ms.insert(m[j]).second) out.push_back({0, m[j], true, true});
			for (uint32_t l = 0; l < k; l++) {
				if (!as.insert(a[l]).second) continue;
				const AtomInfo &ai = atoms[a[l]];
				if (ai.kind == A_ANDN) out.push_back({single(a[l]), 0, false, true});
				else if (ai.kind == A_FN && ai.args.size() >= 5) {
					unsigned c = 0; for (uint64_t w : ai.tt) c += __builtin_popcountll(w);
					unsigned all = 1u << ai.args.size();
					if (c <= 2) out.push_back({single(a[l]), 0, false, true}); else if (c + 2 >= all) out.push_back({single(a[l]), 0, false, false});
				}
				if (ai.kind != A_UF) for (Poly r : ai.args) if (r > ONE && seen.insert(r).second) q.push_back(r);
				if (ai.kind == A_UF) for (Poly r : ai.args) if (r > ONE && seen.insert(r).second) q.push_back(r);
			}
			m = P.get(q[i], n);
		}
	}
}
static int guided(const std::vector<Poly> &conj, Point &pt, unsigned tries) {
	std::vector<Rare> rare; rareNodes(conj, rare);
	uint64_t start = evalWork;
	auto ok = [&](Point &q) { for (Poly p : conj) if (!eval(p, q)) return false; return true; };
	unsigned total = tries / 2 + std::min<size_t>(rare.size() * 6, tries * 8);
	for (unsigned t = 0; t < total && evalWork - start < guidedLeft; t++) {
		Lin L; uint64_t seed = pt.seed * 31 + t * 104729 + 5; bool good = true;
		std::vector<std::pair<Poly, bool>> g;
		// the path first, the last of conj is the question itself
		for (size_t i = 0; i + 1 < conj.size(); i++) g.push_back({conj[i], true});
		bool plain = rare.empty() || t < tries / 2;
		if (plain) g.push_back({conj.back(), true});
		else {
			for (int k = 0; k < 1 + int(t / std::max<size_t>(1, rare.size()) % 3 == 2); k++) {
				const Rare &r = rare[k == 0 ? t % rare.size() : mix(seed) % rare.size()];
				if (!r.isMono) g.push_back({r.p, r.v});
				else { uint32_t n; const uint32_t *a = M.get(r.mono, n); std::vector<uint32_t> at(a, a + n); for (uint32_t x : at) g.push_back({single(x), true}); }
			}
		}
		good = justify(g, L, seed);
		if (!good) continue;
		Point q; q.seed = seed; L.solve(q, seed);
		if (ok(q)) { guidedLeft -= std::min(guidedLeft, evalWork - start); pt = q; return 1; }
	}
	guidedLeft -= std::min(guidedLeft, evalWork - start);
	return -1;
}
int satisfiable(const std::vector<Poly> &conj0, Point &pt, unsigned tries) {
	std::vector<Poly> conj;
	for (Poly p : conj0) { if (p == ZERO) return 0; if (p != ONE) conj.push_back(p); }
	if (conj.empty()) return 1;
	auto ok = [&](Point &q) { for (Poly p : conj) if (!eval(p, q)) return false; return true; };
	// small support: exhaustive over leaves (UF args ignored: leaves are free there)
	std::vector<Atom> lv; bool small = true;
	for (Poly p : conj) if (!leavesOf(p, lv, 14)) { small = false; break; }
	bool ufleaf = false;
	for (Atom l : lv) if (atoms[l].kind == A_UF) ufleaf = true;
	if (small) {
		Tables T(lv); TT all(T.words, ~0ull);
		for (Poly p : conj) { const TT &t = T.ofP(p); for (size_t w = 0; w < T.words; w++) all[w] &= t[w]; }
		unsigned cand = 0;
		for (uint32_t b = 0; b < (1u << lv.size()) && cand < 256; b++) {
			if (!(all[b >> 6] >> (b & 63) & 1)) continue;
			cand++;
			Point q; q.seed = pt.seed;
			for (size_t i = 0; i < lv.size(); i++) q.forced[lv[i]] = b >> i & 1;
			if (!ufleaf || ok(q)) { pt = q; return 1; }
		}
		if (!cand) return 0;
		if (!ufleaf) return 0;
	}
	// guided: force a monomial of each conjunct
	for (unsigned t = 0; t < tries; t++) {
		Point q; q.seed = pt.seed + t * 7919 + 1; q.mode = t % 7 == 1 ? 1 : t % 7 == 2 ? 2 : t % 7 == 3 ? 3 : 0;
		if (t % 2 == 0) {
			bool zeroOthers = t % 4 == 0;
			for (Poly p : conj) {
				uint32_t n; const uint32_t *m = P.get(p, n);
				// pick a low-degree monomial
				uint32_t best = 0, bd = 1u << 30; uint64_t h = mix(q.seed);
				for (uint32_t i = 0; i < n; i++) {
					uint32_t j = (i + h) % n, k; M.get(m[j], k);
					if (k < bd || (t % 8 >= 4 && mix(q.seed + i) % n == 0)) { bd = k; best = m[j]; }
				}
				if (zeroOthers) {
					std::vector<Atom> as; atomsOf(p, as);
					for (Atom at : as) if (!q.forced.count(at)) q.forced[at] = false;
				}
				uint32_t k; const uint32_t *at = M.get(best, k);
				for (uint32_t i = 0; i < k; i++) q.forced[at[i]] = true;
			}
		}
		if (ok(q)) { pt = q; return 1; }
	}
	return tries >= 16 && guidedLeft ? guided(conj, pt, tries) : -1;
}
std::string show(Poly p, unsigned max) {
	if (p == ZERO) return "0";
	if (p == ONE) return "1";
	uint32_t n; const uint32_t *m = P.get(p, n); std::string s;
	for (uint32_t i = 0; i < n; i++) {
		if (i >= max) { s += " ^ ...(" + std::to_string(n) + " terms)"; break; }
		if (i) s += " ^ ";
		if (m[i] == 0) { s += "1"; continue; }
		uint32_t k; const uint32_t *q = M.get(m[i], k);
		for (uint32_t j = 0; j < k; j++) {
			if (j > 6) { s += "&..."; break; }
			if (j) s += "&";
			const AtomInfo &ai = atoms[q[j]];
			switch (ai.kind) {
			case A_IN: s += "in" + std::to_string(ai.id) + "[" + std::to_string(ai.bit) + "]"; break;
			case A_UF: s += "uf" + std::to_string(ai.id) + "(..)[" + std::to_string(ai.bit) + "]#" + std::to_string(q[j]); break;
			case A_FN: s += "fn#" + std::to_string(q[j]); break;
			case A_ANDN: s += "and#" + std::to_string(q[j]); break;
			case A_MUX: s += "mux#" + std::to_string(q[j]); break;
			case A_UNDEF: s += "UNINIT(" + ai.note + ")"; break;
			case A_HAVOC: s += "UNKNOWN(" + ai.note + ")"; break;
			}
		}
	}
	return s;
}
}  // namespace dom
