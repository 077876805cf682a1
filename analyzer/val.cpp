#include "val.h"
#include <algorithm>

Val mkBits(std::vector<Poly> bits) {
	uint32_t w = bits.size();
	if (w <= 64) {
		uint64_t c = 0; bool all = true;
		for (uint32_t i = 0; i < w; i++) {
			if (bits[i] == ONE) c |= 1ull << i;
			else if (bits[i] != ZERO) { all = false; break; }
		}
		if (all) return mk(w, c);
	}
	Val v; v.w = w; v.k = 1; v.n = Ref<Node>(new Node); v.n->bits = std::move(bits);
	return v;
}
Val mkAgg(std::vector<Val> el) {
	Val v; v.k = 2; v.n = Ref<Node>(new Node); v.n->el = std::move(el);
	return v;
}
void bitsOf(const Val &v, std::vector<Poly> &out) {
	if (v.k == 2) { for (auto &e : v.n->el) bitsOf(e, out); return; }
	if (v.k == 1) { out.insert(out.end(), v.n->bits.begin(), v.n->bits.end()); return; }
	for (uint32_t i = 0; i < v.w; i++) out.push_back((v.c >> i) & 1 ? ONE : ZERO);
}
bool same(const Val &a, const Val &b) {
	if (a.k != b.k || a.w != b.w) return false;
	if (a.k == 0) return a.c == b.c;
	if (a.n == b.n) return true;
	if (a.k == 1) return a.n->bits == b.n->bits;
	if (a.n->el.size() != b.n->el.size()) return false;
	for (size_t i = 0; i < a.n->el.size(); i++) if (!same(a.n->el[i], b.n->el[i])) return false;
	return true;
}
Val mergeVal(Poly c, const Val &t, const Val &f) {
	if (!t.set()) return f;
	if (!f.set()) return t;
	if (same(t, f)) return t;
	if (t.k == 2) {
		if (f.k != 2 || t.n->el.size() != f.n->el.size()) return t;
		std::vector<Val> el;
		for (size_t i = 0; i < t.n->el.size(); i++) el.push_back(mergeVal(c, t.n->el[i], f.n->el[i]));
		return mkAgg(std::move(el));
	}
	assert(t.w == f.w);
	std::vector<Poly> b(t.w);
	for (uint32_t i = 0; i < t.w; i++) b[i] = dom::ite(c, bitOf(t, i), bitOf(f, i));
	return mkBits(std::move(b));
}

namespace ops {
static inline bool cc(const Val &a, const Val &b) { return a.k == 0 && b.k == 0; }
static Val addc(const Val &a, const Val &b, bool inv, Poly carry) {
	std::vector<Poly> r(a.w);
	for (uint32_t i = 0; i < a.w; i++) {
		Poly p = bitOf(a, i), q = bitOf(b, i);
		if (inv) q = dom::n(q);
		r[i] = dom::x(dom::x(p, q), carry);
		if (i + 1 < a.w) carry = dom::maj(p, q, carry);
	}
	return mkBits(std::move(r));
}
Val add(const Val &a, const Val &b) { return cc(a, b) ? mk(a.w, a.c + b.c) : addc(a, b, false, ZERO); }
Val sub(const Val &a, const Val &b) { return cc(a, b) ? mk(a.w, a.c - b.c) : addc(a, b, true, ONE); }
Val neg(const Val &a) { return sub(mk(a.w, 0), a); }
#define BITWISE(name, op, f) Val name(const Val &a, const Val &b) { \
	if (cc(a, b)) return mk(a.w, a.c op b.c); \
	std::vector<Poly> r(a.w); \
	for (uint32_t i = 0; i < a.w; i++) r[i] = f(bitOf(a, i), bitOf(b, i)); \
	return mkBits(std::move(r)); }
BITWISE(bitAnd, &, dom::a)
BITWISE(bitOr, |, dom::o)
BITWISE(bitXor, ^, dom::x)

static Val shiftConst(const Val &a, int kind, uint64_t n) {
	std::vector<Poly> r(a.w);
	for (uint32_t i = 0; i < a.w; i++) {
		if (kind == 0) r[i] = i >= n ? bitOf(a, i - n) : ZERO;
		else if (i + n < a.w) r[i] = bitOf(a, i + n);
		else r[i] = kind == 2 ? bitOf(a, a.w - 1) : ZERO;
	}
	return mkBits(std::move(r));
}
static Val shift(const Val &a, const Val &n, int kind) {
	if (n.k == 0) return shiftConst(a, kind, n.c);
	Val r = a;
	for (uint32_t i = 0; i < n.w && (1ull << i) < 2 * (uint64_t)a.w; i++) {
		Poly b = bitOf(n, i);
		if (b == ZERO) continue;
		r = mergeVal(b, shiftConst(r, kind, 1ull << i), r);
	}
	return r;
}
Val shl(const Val &a, const Val &n) { return shift(a, n, 0); }
Val lshr(const Val &a, const Val &n) { return shift(a, n, 1); }
Val ashr(const Val &a, const Val &n) { return shift(a, n, 2); }
Val mul(const Val &a, const Val &b) {
	if (cc(a, b)) return mk(a.w, a.c * b.c);
	if (a.k == 0) return mul(b, a);
	Val t;
	if (a.w <= 64 && tabulate(a, b, a.w, [](uint64_t x, uint64_t y) { return x * y; }, t)) return t;
	Val r = mk(a.w <= 64 ? a.w : 64, 0);
	if (a.w > 64) r = zext(r, a.w);
	for (uint32_t i = 0; i < b.w; i++) {
		Poly q = bitOf(b, i);
		if (q == ZERO) continue;
		std::vector<Poly> p(a.w, ZERO);
		for (uint32_t j = i; j < a.w; j++) p[j] = dom::a(bitOf(a, j - i), q);
		r = add(r, mkBits(std::move(p)));
	}
	return r;
}
Poly eq(const Val &a, const Val &b) {
	if (cc(a, b)) return a.c == b.c ? ONE : ZERO;
	std::vector<Poly> f;
	for (uint32_t i = 0; i < a.w; i++) f.push_back(dom::n(dom::x(bitOf(a, i), bitOf(b, i))));
	return dom::all(f);
}
Poly ult(const Val &a, const Val &b) {
	if (cc(a, b)) return a.c < b.c ? ONE : ZERO;
	Poly borrow = ZERO;
	for (uint32_t i = 0; i < a.w; i++) borrow = dom::maj(dom::n(bitOf(a, i)), bitOf(b, i), borrow);
	return borrow;
}
Poly slt(const Val &a, const Val &b) {
	Poly borrow = ZERO;
	for (uint32_t i = 0; i < a.w; i++) {
		Poly p = bitOf(a, i), q = bitOf(b, i);
		if (i + 1 == a.w) std::swap(p, q);
		borrow = dom::maj(dom::n(p), q, borrow);
	}
	return borrow;
}
Val trunc(const Val &a, uint32_t w) {
	if (a.k == 0) return mk(w, a.c);
	return mkBits(std::vector<Poly>(a.n->bits.begin(), a.n->bits.begin() + w));
}
Val zext(const Val &a, uint32_t w) {
	if (a.k == 0 && w <= 64) return mk(w, a.c);
	std::vector<Poly> r; bitsOf(a, r); r.resize(w, ZERO);
	return mkBits(std::move(r));
}
Val sext(const Val &a, uint32_t w) {
	std::vector<Poly> r; bitsOf(a, r); Poly s = r.back(); r.resize(w, s);
	return mkBits(std::move(r));
}
Val concat(const std::vector<Val> &v) {
	std::vector<Poly> r; for (auto &x : v) bitsOf(x, r);
	return mkBits(std::move(r));
}
Val slice(const Val &a, uint32_t lo, uint32_t w) {
	if (a.k == 0) return mk(w, lo >= 64 ? 0 : a.c >> lo);
	return mkBits(std::vector<Poly>(a.n->bits.begin() + lo, a.n->bits.begin() + lo + w));
}

static bool evalOver(Poly p, const std::vector<Atom> &at, uint32_t asg) {
	uint32_t n; const uint32_t *m = dom::monos(p, n); bool r = false;
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k; const uint32_t *q = dom::monoAtoms(m[i], k); bool t = true;
		for (uint32_t j = 0; j < k && t; j++) {
			size_t x = std::lower_bound(at.begin(), at.end(), q[j]) - at.begin();
			t = asg >> x & 1;
		}
		r ^= t;
	}
	return r;
}
bool basis(const std::vector<Poly> &bits, unsigned lim, std::vector<Poly> &bases, std::vector<std::vector<bool>> &tables) {
	// distinct non-constant polynomials, up to complement
	std::vector<Poly> d;
	for (Poly p : bits) if (p > ONE) {
		Poly q = std::min(p, dom::n(p));
		if (std::find(d.begin(), d.end(), q) == d.end()) d.push_back(q);
	}
	std::vector<Atom> at; bool few = true;
	for (Poly p : d) {
		std::vector<Atom> t; dom::atomsOf(p, t);
		at.insert(at.end(), t.begin(), t.end());
		std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end());
		if (at.size() > lim) { few = false; break; }
	}
	bases.clear(); tables.clear();
	if (few && (at.size() <= d.size() || d.size() > lim)) {
		std::vector<Poly> ab;
		for (Atom a : at) {
			// the polynomial consisting of this atom alone
			const AtomInfo &ai = dom::atom(a); (void)ai;
			ab.push_back(dom::ofAtom(a));
		}
		bases = ab;
		for (Poly p : bits) {
			std::vector<bool> t(size_t(1) << at.size());
			for (uint32_t s = 0; s < t.size(); s++) t[s] = evalOver(p, at, s);
			tables.push_back(t);
		}
		return true;
	}
	if (d.size() > lim) return false;
	bases = d;
	for (Poly p : bits) {
		std::vector<bool> t(size_t(1) << d.size());
		if (p <= ONE) { std::fill(t.begin(), t.end(), p == ONE); tables.push_back(t); continue; }
		Poly q = std::min(p, dom::n(p)); bool inv = q != p;
		size_t ix = std::find(d.begin(), d.end(), q) - d.begin();
		for (uint32_t s = 0; s < t.size(); s++) t[s] = bool(s >> ix & 1) ^ inv;
		tables.push_back(t);
	}
	return true;
}
bool tabulate(const Val &a, const Val &b, uint32_t w, uint64_t (*f)(uint64_t, uint64_t), Val &out) {
	std::vector<Poly> bits; bitsOf(a, bits); bitsOf(b, bits);
	std::vector<Poly> bases; std::vector<std::vector<bool>> tb;
	if (!basis(bits, 10, bases, tb)) return false;
	size_t N = size_t(1) << bases.size();
	std::vector<uint64_t> res(N);
	for (size_t s = 0; s < N; s++) {
		uint64_t x = 0, y = 0;
		for (uint32_t i = 0; i < a.w; i++) x |= uint64_t(tb[i][s]) << i;
		for (uint32_t i = 0; i < b.w; i++) y |= uint64_t(tb[a.w + i][s]) << i;
		res[s] = f(x, y);
	}
	std::vector<Poly> r(w);
	for (uint32_t i = 0; i < w; i++) {
		std::vector<uint64_t> tt(std::max<size_t>(1, N / 64), 0);
		for (size_t s = 0; s < N; s++) if (res[s] >> i & 1) tt[s >> 6] |= 1ull << (s & 63);
		r[i] = dom::fn(tt, bases);
	}
	out = mkBits(std::move(r));
	return true;
}
}
