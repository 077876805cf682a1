// The MACs of Magma and GOST 28147-89.
#include "ctx.h"
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/Imit.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxR3412.h>
inline namespace in_C08 {
using namespace std;

template <class F> struct Mac {
	F f; uint64_t k1, k2;
	uint64_t enc(uint64_t x) const { const U32 e = stdEncrypt({uint32_t(x), uint32_t(x >> 32)}, f); return uint64_t(e.second) << 32 | e.first; }
	static uint64_t dbl(uint64_t x) { return (x << 1) ^ (-(x >> 63) & 0x1b); }
	explicit Mac(F f) : f(f) { k1 = dbl(enc(0)); k2 = dbl(k1); }
	static uint64_t block(const Bytes &d, size_t o, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v |= uint64_t(d[o + i]) << (8 * i); return v; }
	// last: the last block as an integer
	uint64_t mac(const Bytes &d, uint64_t last, bool complete) const
	{
		uint64_t c = 0; const size_t n = d.size();
		const size_t full = n == 0 ? 0 : (n - 1) / 8;
		for (size_t i = 0; i < full; i++) c = enc(c ^ block(d, 8 * i, 8));
		return enc(c ^ last ^ (complete ? k1 : k2));
	}
};
// the incomplete last block under the paddings in use
static uint64_t padded(const Bytes &d, int kind)
{
	const size_t n = d.size(), o = n ? (n - 1) / 8 * 8 : 0, k = n - o;
	uint64_t v = 0;
	for (size_t i = 0; i < k; i++) v |= uint64_t(d[o + i]) << (8 * i);
	switch (kind) {
	case 0: return v | uint64_t(0x80) << (8 * k);                                // 1 bit first in the byte
	case 1: return v | uint64_t(0x01) << (8 * k);                                // as an integer
	case 2: return (k ? v << (64 - 8 * k) : 0) | uint64_t(0x80) << (56 - 8 * k); // high end first
	default: return v;                                                           // zeros only
	}
}
template <class F> static void magmaMac(const shared_ptr<const goost::Source> &source, const Bytes &d, const shared_ptr<const m::LazyKey> &key, F f, int again)
{
	const Mac<F> ref(f);
	const m::Imit imit(source, key);
	for (int i = 0; i <= again; i++) {
		const auto v = imit.value();
		const uint64_t got = uint64_t(v.second) << 32 | v.first;
		if (!d.empty() && d.size() % 8 == 0) { eqw("MAC of whole blocks", got, ref.mac(d, Mac<F>::block(d, d.size() - 8, 8), true)); continue; }
		uint64_t want = ref.mac(d, padded(d, 0), false);
		const uint64_t known = ref.mac(d, padded(d, 3), false);
		for (int k = 1; k < 3; k++) { const uint64_t other = ref.mac(d, padded(d, k), false); if (ctx_same(&got, &other, 8)) want = other; }
		ctx_known_eq("F1", "MAC with an incomplete last block, padded injectively", &got, &want, &known, 8);
	}
}
template <class F> static void magmaMac(const Bytes &d, const shared_ptr<const m::LazyKey> &key, F f, int again) { magmaMac(make_shared<MemSource>(d), d, key, f, again); }
static const size_t LENS = 34;
static size_t cap() { return ctx_thorough() ? 5000 : 2100; }
static size_t lengthOf(int i) { return size_t(i) < LENS ? size_t(i) : extraLen(i - LENS, LENS - 1, cap(), 8); }
static int lengths() { return LENS + extraLens(LENS - 1, cap(), 8); }
static shared_ptr<const m::LazyKey> anyKey() { return make_shared<m::LazyKey>(make_unique<AnyKeyData>(), make_shared<AnySbox>()); }

// long messages, one key
static shared_ptr<const m::LazyKey> oneKey() { return make_shared<m::LazyKey>(make_unique<ThinKeyData>(), make_shared<CheapSbox>()); }
CTX C08_mac(int i)
{
	if (lengthOf(i) > 1100) {
		auto d = fill(lengthOf(i));
		ctx_in("data", &d[d.size() - 24], 24);
		magmaMac(d, oneKey(), cheapSum, 0);
		return;
	}
	magmaMac(inBytes("data", lengthOf(i)), anyKey(), anyRound, i < 10);
}
extern "C" int C08_mac_N() { return lengths(); }
CTX C08_native(int i)
{
	// the usual way of making the key
	uint32_t k[8]; ctx_in("key", k, sizeof k);
	magmaMac(inBytes("data", 7 + i), make_shared<m::LazyKey>(vector<uint32_t>(k, k + 8), make_shared<AnySbox>()), anyRound, 0);
}
CASES(C08_native, 3)
CTX C08_standard(int i)
{
	// the built-in substitution and a known key
	static const uint32_t w[8] = {0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff};
	const auto f = [](uint32_t v, int r) { return stdG(w[r] + v); };
	magmaMac(inBytes("data", 8 * (i + 1)), make_shared<m::LazyKey>(string("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff")), f, 0);
}
CASES(C08_standard, 2)
CTX C08_long(int i)
{
	const auto d = make_shared<const Bytes>(fill(longList(cap())[i]));
	magmaMac(make_shared<LongSource>(d), *d, oneKey(), cheapSum, 0);
}
extern "C" int C08_long_N() { return int(longList(cap()).size()); }
CTX C08_shift()
{
	// the doubling's shift
	const auto a = anyBlk("a0", "a1"); const auto v = a->value();
	const uint64_t x = (uint64_t(v.second) << 32 | v.first) << 1;
	eq32("shift by one", m::BlkShifted(a, 1).value(), {uint32_t(x), uint32_t(x >> 32)});
}

// ---------------------------------------------------------------- GOST 28147-89
template <class F> static vector<uint8_t> gost89Mac(const vector<uint8_t> &d, F f)
{
	static const int order[16] = {0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 4, 5, 6, 7};
	vector<uint8_t> p = d;
	while (p.size() < 16 || p.size() % 8) p.push_back(0);
	U32 s{0, 0};
	for (size_t o = 0; o < p.size(); o += 8) {
		const U32 b = load32(reinterpret_cast<const byte *>(&p[o]));
		s = stdRounds(U32{s.first ^ b.first, s.second ^ b.second}, order, 16, f);
	}
	vector<uint8_t> r;
	for (int i = 0; i < 4; i++) r.push_back(uint8_t(s.first >> (8 * i)));
	for (int i = 0; i < 4; i++) r.push_back(uint8_t(s.second >> (8 * i)));
	return r;
}
static vector<uint8_t> data8(size_t n) { vector<uint8_t> d(n); if (n) ctx_in("data", d.data(), n); return d; }
static void eq8(const char *n, const vector<uint8_t> &got, const vector<uint8_t> &want)
{
	ctx_true(n, got.size() == want.size());
	if (got.size() == want.size()) ctx_eq(n, got.data(), want.data(), got.size());
}
CTX C10_mac(int i)
{
	const auto d = data8(lengthOf(i));
	const goost::gost89::DataImit imit(d, anyKey());
	for (int j = 0; j <= (i < 10); j++) eq8("MAC of the zero-padded message", imit.value(), gost89Mac(d, anyRound));
}
extern "C" int C10_mac_N() { return lengths(); }
CTX C10_long(int i)
{
	vector<uint8_t> d; for (auto b : fill(longList(cap())[i])) d.push_back(uint8_t(b));
	eq8("MAC of a long message", goost::gost89::DataImit(d, oneKey()).value(), gost89Mac(d, cheapSum));
}
extern "C" int C10_long_N() { return int(longList(cap()).size()); }
CTX C10_native(int i)
{
	uint32_t k[8]; ctx_in("key", k, sizeof k);
	const auto d = data8(15 + i);
	eq8("MAC under a native key", goost::gost89::DataImit(d, make_shared<m::LazyKey>(vector<uint32_t>(k, k + 8), make_shared<AnySbox>())).value(), gost89Mac(d, anyRound));
}
CASES(C10_native, 3)
CTX C10_standard(int i)
{
	static const uint32_t w[8] = {0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff};
	const auto d = data8(i * 8);
	eq8("MAC under a string key and the built-in table", goost::gost89::DataImit(d, make_shared<m::LazyKey>(string("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff"))).value(),
		gost89Mac(d, [](uint32_t v, int r) { return stdG(w[r] + v); }));
}
CASES(C10_standard, 3)
CTX C10_step()
{
	static const int order[16] = {0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 4, 5, 6, 7};
	const uint32_t a = in32("low"), b = in32("high");
	const goost::gost89::ImitedBlock s(m::BlkRaw(a, b), anyKey());
	eq32("one step is sixteen rounds", s.value().value(), stdRounds(U32{a, b}, order, 16, anyRound));
	eq32("one step, again", s.value().value(), stdRounds(U32{a, b}, order, 16, anyRound));
}
}
