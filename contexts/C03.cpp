// The keyed round function of Magma and the representations of its tables.
#include "ctx.h"
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxByte64Tab.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
inline namespace in_C03 {
using namespace std;

static uint32_t rol11(uint32_t r) { return (r << 11) | (r >> 21); }
CTX C03_standard()
{
	const uint32_t v = in32("value");
	const m::SboxR3412 s;
	eqw("the built-in substitution is the standard's", s.transform(v), stdG(v));
	eqw("evaluated again", s.transform(v), stdG(v));
}
CTX C03_rotation()
{
	const uint32_t v = in32("value");
	uint32_t s; ctx_uf("sbox", &v, 4, &s, 4);
	eqw("substitution followed by rotation by 11", m::SboxTwisted(make_unique<AnySbox>()).transform(v), rol11(s));
}
CTX C03_addition()
{
	// the selected word is added modulo 2^32, for any key words and any substitution
	uint32_t k[8]; ctx_in("key", k, sizeof k);
	const uint32_t v = in32("value");
	const m::LazyKey key(vector<uint32_t>(k, k + 8), make_shared<AnySbox>());
	for (int i = 0; i < 8; i++) {
		const uint32_t sum = k[i] + v; uint32_t w; ctx_uf("sbox", &sum, 4, &w, 4);
		eqw("key addition, then substitution (native key)", key.transform(v, i), w);
	}
	const m::LazyKey any(make_unique<AnyKeyData>(), make_shared<AnySbox>());
	for (int i = 7; i >= 0; i--) {
		const uint32_t sum = k[i] + v; uint32_t w; ctx_uf("sbox", &sum, 4, &w, 4);
		eqw("key addition, then substitution (any key data)", any.transform(v, i), w);
	}
}
CTX C03_round(int i)
{
	// the complete round function of the library's key class over the built-in table
	uint32_t k[8]; ctx_in("key", k, sizeof k);
	const uint32_t v = in32("value");
	eqw("round function", m::LazyKey(vector<uint32_t>(k, k + 8), make_shared<m::SboxR3412>()).transform(v, i), stdG(k[i] + v));
	eqw("round function, caching key data", m::LazyKey(make_unique<m::KeyCachedData>(make_unique<AnyKeyData>()), make_shared<m::SboxR3412>()).transform(v, i), stdG(k[i] + v));
}
CASES(C03_round, 8)
CTX C03_string()
{
	// the constructor from a string alone uses the standard's table
	const uint32_t v = in32("value");
	const m::LazyKey key("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff");
	static const uint32_t w[8] = {0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff};
	for (int i = 0; i < 8; i++) eqw("round function of a string key", key.transform(v, i), stdG(w[i] + v));
	const m::LazyKey two("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff", make_shared<AnySbox>());
	for (int i = 0; i < 8; i++) {
		const uint32_t sum = w[i] + v; uint32_t r; ctx_uf("sbox", &sum, 4, &r, 4);
		eqw("string key with a given substitution", two.transform(v, i), r);
	}
}
// unknown tables, as nibble tables and packed
struct Tables {
	uint8_t t[8][16];
	Tables()
	{
		for (int i = 0; i < 8; i++) { static const char *names[8] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"}; ctx_in(names[i], t[i], 16); for (auto &x : t[i]) x &= 15; }
	}
	vector<int> nibble(int i) const { return vector<int>(t[i], t[i] + 16); }
	vector<uint8_t> packed() const
	{
		vector<uint8_t> u(64);
		for (int n = 0; n < 16; n++) for (int o = 0; o < 4; o++) u[n * 4 + o] = t[2 * o][n] | t[2 * o + 1][n] << 4;
		return u;
	}
	uint32_t apply(uint32_t v) const { uint32_t r = 0; for (int i = 0; i < 8; i++) r |= uint32_t(t[i][(v >> (4 * i)) & 15]) << (4 * i); return r; }
};
CTX C03_nibble()
{
	const Tables t; const uint32_t v = in32("value");
	const m::SboxNibble s(t.nibble(0), t.nibble(1), t.nibble(2), t.nibble(3), t.nibble(4), t.nibble(5), t.nibble(6), t.nibble(7));
	eqw("nibble tables", s.transform(v), t.apply(v));
}
CTX C03_packed()
{
	const Tables t; const uint32_t v = in32("value");
	eqw("packed table", m::SboxByte(t.packed()).transform(v), t.apply(v));
}
CTX C03_agree()
{
	const Tables t; const uint32_t v = in32("value");
	const m::SboxNibble s(t.nibble(0), t.nibble(1), t.nibble(2), t.nibble(3), t.nibble(4), t.nibble(5), t.nibble(6), t.nibble(7));
	eqw("nibble and packed representation agree", m::SboxByte(t.packed()).transform(v), s.transform(v));
}
CTX C03_bytes()
{
	// arbitrary packed bytes, through the table objects
	vector<uint8_t> u(64); ctx_in("uz", u.data(), 64);
	const uint32_t v = in32("value");
	for (int o = 0; o < 4; o++) {
		const uint32_t x = (v >> (8 * o)) & 255;
		eqw("packed byte table", m::SboxByte64Tab(u, o).translate(int(x)), (u[(x >> 4) * 4 + o] & 0xf0) | (u[(x & 15) * 4 + o] & 0x0f));
	}
}
struct UfTab final : m::SboxByte::Tab {
	uint32_t n; explicit UfTab(uint32_t n) : n(n) {}
	uint32_t translate(int i) const override { struct { uint32_t n, v; } a{n, uint32_t(i) & 255}; uint8_t r; ctx_uf("tab", &a, 8, &r, 1); return r; }
};
CTX C03_tabs()
{
	const uint32_t v = in32("value");
	const m::SboxByte s(make_unique<UfTab>(1), make_unique<UfTab>(2), make_unique<UfTab>(3), make_unique<UfTab>(4));
	uint32_t w = 0;
	for (int o = 0; o < 4; o++) w |= UfTab(o + 1).translate(int(v >> (8 * o))) << (8 * o);
	eqw("four byte tables, one per byte", s.transform(v), w);
}
CTX C03_full()
{
	// packed table, rotation, key addition together
	const Tables t; uint32_t k[8]; ctx_in("key", k, sizeof k);
	const uint32_t v = ctx_bits("value", 32) & 0xf00f;      // two active nibbles keep the carry chain short
	for (int i = 0; i < 8; i++) k[i] &= 0x7007;
	const m::LazyKey key(vector<uint32_t>(k, k + 8), make_shared<m::SboxTwisted>(make_unique<m::SboxByte>(t.packed())));
	for (int i = 0; i < 8; i++) eqw("round function over a packed table", key.transform(v, i), rol11(t.apply(k[i] + v)));
}
}
