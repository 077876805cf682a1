// Abstract values: machine words whose bits are domain polynomials, with a
// fast path for words that are constant.
#pragma once
#include "dom.h"
#include <cassert>
#include <utility>
#include <vector>

template <class T> struct Ref {
	T *p = nullptr;
	Ref() {}
	Ref(T *q) : p(q) { if (p) p->rc++; }
	Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
	Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
	Ref &operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
	~Ref() { if (p && --p->rc == 0) delete p; }
	T *operator->() const { return p; }
	T &operator*() const { return *p; }
	explicit operator bool() const { return p; }
	bool operator==(const Ref &o) const { return p == o.p; }
	bool operator!=(const Ref &o) const { return p != o.p; }
};

struct Node;
struct Val {
	uint32_t w = 0;       // bits; 0: absent / void
	uint8_t k = 0;        // 0 constant, 1 symbolic, 2 aggregate
	uint64_t c = 0;
	Ref<Node> n;
	bool conc() const { return k == 0 && w; }
	bool set() const { return w || k == 2; }
};
struct Node {
	int rc = 0;
	std::vector<Poly> bits;
	std::vector<Val> el;
	bool hasP = false;    // pointer made from a constant base and an unknown index
	uint64_t pbase = 0;
	std::vector<Poly> pidx;
};
inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
inline Val mk(uint32_t w, uint64_t c) { Val v; v.w = w; v.c = c & maskw(w); return v; }
Val mkBits(std::vector<Poly> bits);              // folds to a constant when possible
Val mkAgg(std::vector<Val> el);
void bitsOf(const Val &v, std::vector<Poly> &out);
inline Poly bitOf(const Val &v, uint32_t i) { return v.k == 0 ? ((v.c >> i) & 1 ? ONE : ZERO) : v.n->bits[i]; }
bool same(const Val &a, const Val &b);
Val mergeVal(Poly c, const Val &t, const Val &f);

namespace ops {
Val add(const Val &a, const Val &b);
Val sub(const Val &a, const Val &b);
Val neg(const Val &a);
Val bitAnd(const Val &a, const Val &b);
Val bitOr(const Val &a, const Val &b);
Val bitXor(const Val &a, const Val &b);
Val shl(const Val &a, const Val &n);
Val lshr(const Val &a, const Val &n);
Val ashr(const Val &a, const Val &n);
Val mul(const Val &a, const Val &b);
Poly eq(const Val &a, const Val &b);
Poly ult(const Val &a, const Val &b);
Poly slt(const Val &a, const Val &b);
Val trunc(const Val &a, uint32_t w);
Val zext(const Val &a, uint32_t w);
Val sext(const Val &a, uint32_t w);
Val concat(const std::vector<Val> &lowFirst);
Val slice(const Val &a, uint32_t lo, uint32_t w);
// A small set of polynomials ("bases") that determine all the given bits; the
// truth table of each bit over the bases.  False when more than lim are needed.
bool basis(const std::vector<Poly> &bits, unsigned lim, std::vector<Poly> &bases,
	std::vector<std::vector<bool>> &tables);
// any binary operation on few unknown bits by tabulation
bool tabulate(const Val &a, const Val &b, uint32_t w, uint64_t (*f)(uint64_t, uint64_t), Val &out);
}
