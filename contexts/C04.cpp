// Kuznyechik: every transformation and the whole cipher against GOST R 34.12-2015.
#include "ctx.h"
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkXored.h>
inline namespace in_C04 {
using namespace std;

CTX C04_S() { const auto b = anyBlk128("block"); const k::BlkS s(b); eq64("S", s.value(), stdS(b->value())); eq64("S again", s.value(), stdS(b->value())); }
CTX C04_R() { const auto b = anyBlk128("block"); const k::BlkR s(b); eq64("R", s.value(), stdR(b->value())); eq64("R again", s.value(), stdR(b->value())); }
CTX C04_L() { const auto b = anyBlk128("block"); const k::BlkL s(b); eq64("L = R^16", s.value(), stdL(b->value())); eq64("L again", s.value(), stdL(b->value())); }
CTX C04_X() { const auto b = anyBlk128("block"), c = anyBlk128("other"); eq64("X", k::BlkXored(b, c).value(), xor128(b->value(), c->value())); }
CTX C04_cached() { const auto b = anyBlk128("block"); const k::BlkCached c(b); eq64("cached block, first", c.value(), b->value()); eq64("cached block, again", c.value(), b->value()); }
CTX C04_constants(int i)
{
	eq64("schedule constant L(i)", k::BlkL(make_shared<k::BlkRaw>(uint64_t(i + 1))).value(), stdL({uint64_t(i + 1), 0}));
}
CASES(C04_constants, 32)
// one schedule key from two arbitrary keys
static U64 schedule(U64 ka, U64 kb, int c1, int c2)
{
	U64 a1 = ka, a0 = kb;
	for (int i = c1; i <= c2; i++) { const U64 t = xor128(stdL(stdS(xor128(a1, stdL({uint64_t(i), 0})))), a0); a0 = a1; a1 = t; }
	return a1;
}
CTX C04_step(int i)
{
	const auto a = anyBlk128("ka"), b = anyBlk128("kb");
	eq64("one schedule step", k::BlkIterKey(a, b, i + 1, i + 1).value(), schedule(a->value(), b->value(), i + 1, i + 1));
}
CASES(C04_step, 32)
CTX C04_schedule(int i)
{
	static const int c[8][2] = {{1, 8}, {1, 7}, {9, 16}, {9, 15}, {17, 24}, {17, 23}, {25, 32}, {25, 31}};
	const auto a = anyBlk128("ka"), b = anyBlk128("kb");
	eq64("schedule key", k::BlkIterKey(a, b, c[i][0], c[i][1]).value(), schedule(a->value(), b->value(), c[i][0], c[i][1]));
}
CASES(C04_schedule, 8)
CTX C04_block()
{
	// a fixed key, every block
	const U64 hi{0x0123456789abcdefull, 0xfedcba9876543210ull}, lo{0x8899aabbccddeeffull, 0x0011223344556677ull};
	const auto key = make_shared<k::Key>(make_shared<KeyHalves>(hi, lo));
	const auto b = anyBlk128("block");
	eq64("encryption of every block", k::BlkEncrypted(b, key).value(), StdKey(hi, lo).encrypt(b->value()));
}
CTX C04_key()
{
	// every key, every block
	const U64 hi = in128("khigh"), lo = in128("klow");
	const k::Key key(make_shared<KeyHalves>(hi, lo));
	const auto b = anyBlk128("block");
	eq64("encryption under every key", key.encrypt(b)->value(), StdKey(hi, lo).encrypt(b->value()));
}
CTX C04_string()
{
	const string s = "8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef";
	const auto key = make_shared<k::Key>(s);
	const StdKey ref({0x0011223344556677ull, 0x8899aabbccddeeffull}, {0x0123456789abcdefull, 0xfedcba9876543210ull});
	const auto b = anyBlk128("block"), c = anyBlk128("other");
	eq64("string key, every block", k::BlkEncrypted(b, key).value(), ref.encrypt(b->value()));
	eq64("string key, another block", k::BlkEncrypted(c, key).value(), ref.encrypt(c->value()));
	eq64("string key, first block again", k::BlkEncrypted(b, key).value(), ref.encrypt(b->value()));
}
CTX C04_keys()
{
	const U64 h1{1, 2}, l1{3, 4}, h2{5, 6}, l2{7, 8};
	const auto k1 = make_shared<k::Key>(make_shared<KeyHalves>(h1, l1)), k2 = make_shared<k::Key>(make_shared<KeyHalves>(h2, l2));
	const auto b = anyBlk128("block");
	eq64("first key", k::BlkEncrypted(b, k1).value(), StdKey(h1, l1).encrypt(b->value()));
	eq64("second key", k::BlkEncrypted(b, k2).value(), StdKey(h2, l2).encrypt(b->value()));
	eq64("first key again", k::BlkEncrypted(b, k1).value(), StdKey(h1, l1).encrypt(b->value()));
}
}
