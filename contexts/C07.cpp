// Block values: constructors and operations against the full-width integer.
#include "ctx.h"
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
inline namespace in_C07 {
using namespace std;
typedef unsigned __int128 u128;

CTX C07_magma_raw()
{
	const uint32_t a = in32("low"), b = in32("high"); const U32 w{a, b};
	eq32("two words", m::BlkRaw(a, b).value(), w);
	eq32("pair", m::BlkRaw(w).value(), w);
	eq32("integer", m::BlkRaw(uint64_t(b) << 32 | a).value(), w);
	eq32("block", m::BlkRaw(shared_ptr<const m::Block>(make_shared<AnyBlk>(a, b))).value(), w);
	uint8_t raw[8]; memcpy(raw, &a, 4); memcpy(raw + 4, &b, 4);
	eq32("memory", m::BlkRaw(static_cast<const void *>(raw)).value(), w);
	eq32("bytes", m::BlkRaw(vector<uint8_t>(raw, raw + 8)).value(), w);
	eq32("default", m::BlkRaw().value(), {0, 0});
	const m::BlkRaw x(a, b); const m::BlkRaw y(x);
	eq32("copy", y.value(), w);
	eq32("original of the copy", x.value(), w);
}
CTX C07_magma_raw_memory(int off)
{
	// raw bytes anywhere in memory
	alignas(8) uint8_t raw[24]; ctx_in("raw", raw, 24);
	uint32_t a = 0, b = 0;
	for (int i = 0; i < 4; i++) { a |= uint32_t(raw[off + i]) << (8 * i); b |= uint32_t(raw[off + 4 + i]) << (8 * i); }
	eq32("memory at any address", m::BlkRaw(static_cast<const void *>(raw + off)).value(), {a, b});
}
CASES(C07_magma_raw_memory, 9)
CTX C07_magma_ops()
{
	const auto a = anyBlk("a0", "a1"), b = anyBlk("b0", "b1"), c = anyBlk("c0", "c1"), d = anyBlk("d0", "d1"), e = anyBlk("e0", "e1");
	const auto x = [](U32 p, U32 q) { return U32{p.first ^ q.first, p.second ^ q.second}; };
	const auto av = a->value(), bv = b->value(), cv = c->value(), dv = d->value(), ev = e->value();
	eq32("xor of two", m::BlkXored(a, b).value(), x(av, bv));
	eq32("xor of three", m::BlkXored(a, b, c).value(), x(x(av, bv), cv));
	eq32("xor of four", m::BlkXored(a, b, c, d).value(), x(x(av, bv), x(cv, dv)));
	eq32("xor of five", m::BlkXored(a, b, c, d, e).value(), x(x(x(av, bv), x(cv, dv)), ev));
	eq32("xor with itself", m::BlkXored(a, a).value(), {0, 0});
	const m::BlkSwapped s(a);
	eq32("swap", s.value(), {av.second, av.first});
	eq32("swap again", s.value(), {av.second, av.first});
	eq32("double swap", m::BlkSwapped(make_shared<m::BlkSwapped>(a)).value(), av);
}
CTX C07_magma_shift(int n)
{
	const auto a = anyBlk("a0", "a1"); const auto v = a->value();
	const uint64_t x = (uint64_t(v.second) << 32 | v.first) << n;
	const m::BlkShifted s(a, n);
	eq32("shift of the whole block", s.value(), {uint32_t(x), uint32_t(x >> 32)});
	eq32("shift again", s.value(), {uint32_t(x), uint32_t(x >> 32)});
}
CASES(C07_magma_shift, 32)
CTX C07_kuz_raw()
{
	const U64 w = in128("block");
	eq64("two words", k::BlkRaw(w.first, w.second).value(), w);
	eq64("pair", k::BlkRaw(w).value(), w);
	eq64("block", k::BlkRaw(shared_ptr<const k::Block>(make_shared<AnyBlk128>(w.first, w.second))).value(), w);
	eq64("integer", k::BlkRaw(w.first).value(), {w.first, 0});
	uint8_t raw[16]; memcpy(raw, &w.first, 8); memcpy(raw + 8, &w.second, 8);
	eq64("memory", k::BlkRaw(static_cast<const void *>(raw)).value(), w);
	eq64("default", k::BlkRaw().value(), {0, 0});
	const k::BlkRaw x(w); const k::BlkRaw y(x);
	eq64("copy", y.value(), w);
	const k::BlkCached c(make_shared<AnyBlk128>(w.first, w.second));
	eq64("cached", c.value(), w);
	eq64("cached, again", c.value(), w);
}
CTX C07_kuz_raw_memory(int off)
{
	alignas(16) uint8_t raw[40]; ctx_in("raw", raw, 40);
	uint64_t a = 0, b = 0;
	for (int i = 0; i < 8; i++) { a |= uint64_t(raw[off + i]) << (8 * i); b |= uint64_t(raw[off + 8 + i]) << (8 * i); }
	eq64("memory at any address", k::BlkRaw(static_cast<const void *>(raw + off)).value(), {a, b});
}
CASES(C07_kuz_raw_memory, 17)
CTX C07_kuz_ops()
{
	const auto a = anyBlk128("a"), b = anyBlk128("b"), c = anyBlk128("c"), d = anyBlk128("d"), e = anyBlk128("e");
	const auto av = a->value(), bv = b->value(), cv = c->value(), dv = d->value(), ev = e->value();
	eq64("xor of two", k::BlkXored(a, b).value(), xor128(av, bv));
	eq64("xor of three", k::BlkXored(a, b, c).value(), xor128(xor128(av, bv), cv));
	eq64("xor of four", k::BlkXored(a, b, c, d).value(), xor128(xor128(av, bv), xor128(cv, dv)));
	eq64("xor of five", k::BlkXored(a, b, c, d, e).value(), xor128(xor128(xor128(av, bv), xor128(cv, dv)), ev));
	eq64("xor with itself", k::BlkXored(a, a).value(), {0, 0});
}
CTX C07_kuz_shift(int n)
{
	const auto a = anyBlk128("a"); const auto v = a->value();
	const u128 x = (u128(v.second) << 64 | v.first) << n;
	const k::BlkShifted s(a, n);
	eq64("shift of the whole block", s.value(), {uint64_t(x), uint64_t(x >> 64)});
	eq64("shift again", s.value(), {uint64_t(x), uint64_t(x >> 64)});
}
CASES(C07_kuz_shift, 64)
static void increment(U64 v)
{
	const u128 x = (u128(v.second) << 64 | v.first) + 1;
	const k::BlkIncremented i(make_shared<AnyBlk128>(v.first, v.second));
	eq64("increment of the whole block", i.value(), {uint64_t(x), uint64_t(x >> 64)});
	eq64("increment again", i.value(), {uint64_t(x), uint64_t(x >> 64)});
}
CTX C07_kuz_increment() { increment(in128("counter")); }
CTX C07_kuz_carry(int n)
{
	// the low n bits are ones: the carry runs through them, everything above is unknown
	U64 v = in128("counter");
	if (n < 64) v.first |= (uint64_t(1) << n) - 1;
	else { v.first = ~uint64_t(0); if (n < 128) v.second |= (uint64_t(1) << (n - 64)) - 1; else v.second = ~uint64_t(0); }
	increment(v);
}
CASES(C07_kuz_carry, 129)
// big-endian hexadecimal, shorter strings zero-extended on the left
template <int N> struct Hex {
	string s; uint8_t nib[N];
	explicit Hex(size_t n)
	{
		uint8_t d[N], c[N]; ctx_in("digit", d, N); ctx_in("upper", c, N);
		static const char both[33] = "0123456789abcdef0123456789ABCDEF";
		for (size_t i = 0; i < N; i++) nib[i] = 0;
		for (size_t i = 0; i < n; i++) {
			nib[N - n + i] = d[i] & 15;
			s.push_back(both[(d[i] & 15) | (c[i] & 1) << 4]);
		}
	}
	uint64_t get(size_t from, size_t n) const { uint64_t r = 0; for (size_t i = from; i < from + n; i++) r = r << 4 | nib[i]; return r; }
};
CTX C07_magma_string(int n)
{
	const Hex<16> h(n);
	const m::BlkString b(h.s);
	eq32("hexadecimal block", b.value(), {uint32_t(h.get(8, 8)), uint32_t(h.get(0, 8))});
	eq32("hexadecimal block, again", b.value(), {uint32_t(h.get(8, 8)), uint32_t(h.get(0, 8))});
}
CASES(C07_magma_string, 17)
CTX C07_kuz_string(int n)
{
	const Hex<32> h(n);
	const k::BlkString b(h.s);
	eq64("hexadecimal block", b.value(), {h.get(16, 16), h.get(0, 16)});
	eq64("hexadecimal block, again", b.value(), {h.get(16, 16), h.get(0, 16)});
}
CASES(C07_kuz_string, 33)
}
