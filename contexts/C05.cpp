// Key material: every key string, native key and container.
#include "ctx.h"
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
inline namespace in_C05 {
using namespace std;

// 64 hexadecimal digits, each of any value and of either case
struct AnyDigits {
	string s; uint8_t nib[64];
	explicit AnyDigits(size_t from = 0, size_t to = 64, bool fold = true)
	{
		uint8_t d[64], c[64]; ctx_in("digit", d, 64); ctx_in("upper", c, 64);
		const char *lower = "0123456789abcdef", *upper = "0123456789ABCDEF";
		for (size_t i = 0; i < 64; i++) {
			const bool any = i >= from && i < to;
			nib[i] = any ? d[i] & 15 : (i * 7 + 3) & 15;
			const unsigned ix = nib[i] | (any && fold ? (c[i] & 1) << 4 : 0);
			static const char both[33] = "0123456789abcdef0123456789ABCDEF";
			s.push_back(both[ix]);
		}
		(void)lower; (void)upper;
	}
	uint32_t word(int i) const { uint32_t r = 0; for (int j = 0; j < 8; j++) r = r << 4 | nib[8 * i + j]; return r; }
	uint64_t quad(int i) const { uint64_t r = 0; for (int j = 0; j < 16; j++) r = r << 4 | nib[16 * i + j]; return r; }
	U64 high() const { return {quad(1), quad(0)}; }
	U64 low() const { return {quad(3), quad(2)}; }
};
CTX C05_magma_string(int i)
{
	// one word's digits unknown at a time, then the whole string
	const AnyDigits d(i < 8 ? i * 8 : 0, i < 8 ? i * 8 + 8 : 64);
	const m::KeyDataString k(d.s);
	for (int j = 0; j < 8; j++) eqw("word j is the j-th group of eight digits", k.key(j), d.word(j));
	eqw("asked again", k.key(0), d.word(0));
}
CASES(C05_magma_string, 9)
CTX C05_magma_cached()
{
	const AnyDigits d(0, 64, false);
	const m::KeyCachedData k(make_unique<m::KeyDataString>(d.s));
	for (int j = 7; j >= 0; j--) eqw("the cache returns what it wraps (string)", k.key(j), d.word(j));
	for (int j = 0; j < 8; j++) eqw("the cache returns what it wraps, asked again", k.key(j), d.word(j));
}
struct FreeData final : m::KeyData {
	uint32_t key(int i) const override { uint32_t a = i, r; ctx_uf("keydata", &a, 4, &r, 4); return r; }
};
CTX C05_cache_any(int first)
{
	const m::KeyCachedData k(make_unique<FreeData>());
	const FreeData ref;
	eqw("first word asked", k.key(first), ref.key(first));
	for (int j = 0; j < 8; j++) eqw("the cache returns what it wraps (any key data)", k.key(j), ref.key(j));
	for (int j = 7; j >= 0; j--) eqw("asked again, descending", k.key(j), ref.key(j));
}
CASES(C05_cache_any, 8)
CTX C05_cache_two()
{
	struct Other final : m::KeyData { uint32_t key(int i) const override { uint32_t a = i, r; ctx_uf("keydata2", &a, 4, &r, 4); return r; } };
	const m::KeyCachedData k1(make_unique<FreeData>()), k2(make_unique<Other>());
	for (int j = 0; j < 8; j++) { eqw("first of two caches", k1.key(j), FreeData().key(j)); eqw("second of two caches", k2.key(j), Other().key(j)); }
}
CTX C05_native(int n)
{
	vector<uint32_t> w(8 + n); ctx_in("key", w.data(), w.size() * 4);
	const m::KeyDataNative k(w);
	for (int j = 0; j < 8; j++) eqw("native words in order", k.key(j), w[j]);
	const m::LazyKey l(w, make_shared<AnySbox>());
	const uint32_t v = in32("value");
	for (int j = 0; j < 8; j++) { const uint32_t s = w[j] + v; uint32_t r; ctx_uf("sbox", &s, 4, &r, 4); eqw("native key in the round function", l.transform(v, j), r); }
}
CASES(C05_native, 2)
CTX C05_lazy_string(int i)
{
	const AnyDigits d(i * 8, i * 8 + 8, i & 1);
	const uint32_t v = in32("value");
	const m::LazyKey l(d.s, make_shared<AnySbox>()), s(d.s);
	for (int j = 0; j < 8; j++) {
		const uint32_t t = d.word(j) + v; uint32_t r; ctx_uf("sbox", &t, 4, &r, 4);
		eqw("string key in the round function", l.transform(v, j), r);
		eqw("string key in the round function, built-in table", s.transform(v, j), stdG(t));
	}
}
CASES(C05_lazy_string, 8)
CTX C05_kuz_string(int i)
{
	const AnyDigits d(i < 4 ? i * 16 : 0, i < 4 ? i * 16 + 16 : 64);
	const k::KeyDataString k(d.s);
	eq64("the first 32 digits are the first round key", k.high()->value(), d.high());
	eq64("the last 32 digits are the second round key", k.low()->value(), d.low());
	const auto h = k.high();
	eq64("evaluated again", h->value(), d.high());
	eq64("evaluated again", h->value(), d.high());
}
CASES(C05_kuz_string, 5)
CTX C05_kuz_key(int i)
{
	// through the cipher; quick: known digits, thorough: any digits
	const bool all = ctx_thorough() && i == 2;
	const AnyDigits d(0, all ? 64 : 0);
	string s = d.s;
	if (i == 1) for (auto &c : s) if (c >= 'a') c -= 32;
	const k::Key key(s);
	const auto b = anyBlk128("block");
	eq64("string key in the cipher", key.encrypt(b)->value(), StdKey(d.high(), d.low()).encrypt(b->value()));
}
extern "C" int C05_kuz_key_N() { return ctx_thorough() ? 3 : 2; }
CTX C05_kuz_data()
{
	// key data objects are used for what they are: high half first
	const U64 hi{11, 12}, lo{13, 14};
	const k::Key key(make_shared<KeyHalves>(hi, lo));
	const auto b = anyBlk128("block");
	eq64("key data in the cipher", key.encrypt(b)->value(), StdKey(hi, lo).encrypt(b->value()));
}
// container
struct Box final : m::Container {
	Bytes k, m, s;
	vector<byte> key() const override { return k; }
	vector<byte> mask() const override { return m; }
	vector<byte> sbox() const override { return s; }
};
static uint32_t boxRound(const Box &b, uint32_t v, int i)
{
	uint32_t w = 0;
	for (int j = 0; j < 4; j++) w = w << 8 | uint32_t(b.k[4 * i + j]);
	const uint32_t sum = v + w; uint32_t r = 0;
	for (int o = 0; o < 4; o++) {
		const uint32_t x = (sum >> (8 * o)) & 255;
		r |= ((uint32_t(b.s[(x >> 4) * 4 + o]) & 0xf0) | (uint32_t(b.s[(x & 15) * 4 + o]) & 0x0f)) << (8 * o);
	}
	return r << 11 | r >> 21;
}
CTX C05_container(int i)
{
	const auto box = make_shared<Box>();
	box->k = inBytes("ckey", 32); box->s = inBytes("csbox", 64); box->m = inBytes("cmask", 32);
	// case 0: known key and table, any data; 1: any key; 2: any table
	for (int j = 0; j < 32 && i != 1; j++) box->k[j] = byte(j * 37 + 11);
	for (int j = 0; j < 64 && i != 2; j++) box->s[j] = byte(j * 89 + 5);
	const Bytes c = inBytes("data", 8);
	const auto want = stdDecrypt(load32(c.data()), [&](uint32_t v, int r) { return boxRound(*box, v, r); });
	const auto got = m::ECBSource(make_shared<MemSource>(c), shared_ptr<const m::Container>(box)).read(8).first;
	Bytes w(8); store32(w.data(), want);
	eqBytes("decryption under the key of a container", got, w);
}
CASES(C05_container, 3)
}
