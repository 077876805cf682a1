// Bit-level value domain.
//
// Every bit of every analysed value is a polynomial over GF(2) (Zhegalkin /
// algebraic normal form) whose variables ("atoms") are input bits, outputs of
// uninterpreted collaborators, or hash-consed nonlinear functions that were
// too big to expand.  Two equal polynomials denote equal bits for all inputs.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>

typedef uint32_t Poly;   // interned polynomial
typedef uint32_t Atom;
static const Poly ZERO = 0, ONE = 1;

enum AtomKind : uint8_t { A_IN, A_UF, A_FN, A_ANDN, A_MUX, A_UNDEF, A_HAVOC };

struct AtomInfo {
	AtomKind kind;
	uint32_t id;                  // IN: input id; UF: function id; UNDEF/HAVOC: serial
	uint32_t bit;                 // IN/UF: bit number
	std::vector<Poly> args;       // UF args, FN bases, ANDN factors, MUX elems then idx
	std::vector<uint64_t> tt;     // FN truth table
	uint32_t nidx = 0;            // MUX: number of index polys
	std::string note;             // UNDEF/HAVOC: where it came from
	std::vector<Atom> leaves;     // leaf support if small
	bool bigSupport = false;
	uint8_t kinds = 0;            // kinds of atoms reachable through arguments, itself included
};

namespace dom {
const AtomInfo &atom(Atom a);
size_t atomCount();
size_t polyCount();
const uint32_t *monos(Poly p, uint32_t &n);
const uint32_t *monoAtoms(uint32_t m, uint32_t &n);
void reset();

Poly input(uint32_t id, uint32_t bit);
Poly ofAtom(Atom a);
Poly uf(uint32_t fn, const std::vector<Poly> &args, uint32_t bit);
Poly undefBit(const std::string &note);
Poly havocBit(const std::string &note);
Poly x(Poly a, Poly b);                // xor
Poly n(Poly a);                        // not
Poly a(Poly p, Poly q);                // and
Poly o(Poly p, Poly q);                // or
Poly all(const std::vector<Poly> &f);  // and of all
Poly ite(Poly c, Poly t, Poly f);
Poly maj(Poly p, Poly q, Poly r);
Poly fn(const std::vector<uint64_t> &tt, const std::vector<Poly> &bases);
Poly mux(const std::vector<Poly> &elems, const std::vector<Poly> &idx);  // elems.size()==1<<idx.size()
inline bool isConst(Poly p) { return p <= 1; }

// all atoms occurring directly
void atomsOf(Poly p, std::vector<Atom> &out);
// leaves (IN/UF/UNDEF/HAVOC) if at most lim of them, else false
bool leavesOf(Poly p, std::vector<Atom> &out, unsigned lim);
// any atom of this kind reachable (through nonlinear nodes and UF args)?
bool containsKind(Poly p, AtomKind k, std::string *note = nullptr);

// Evaluation of the abstract forms at a point of the input space, used only to
// confirm that two different normal forms really denote different functions.
struct Point {
	std::unordered_map<Atom, bool> forced;   // preset leaves
	uint64_t seed = 1;
	int mode = 0;                            // 0 random, 1 all zero, 2 all ones, 3 sparse
	std::unordered_map<Atom, bool> memo;
	std::unordered_map<std::string, uint64_t> ufTable;
};
bool eval(Poly p, Point &pt);
std::string show(Poly p, unsigned max = 6);
// Is the conjunction of `guards` together with d satisfiable?  1: yes (point in pt),
// 0: no (proved by exhausting a small support), -1: unknown.
// p together with those of conj that share its (few) leaves: proved contradictory?
bool refuted(Poly p, const std::vector<Poly> &conj);
int satisfiable(const std::vector<Poly> &conj, Point &pt, unsigned tries);
}
