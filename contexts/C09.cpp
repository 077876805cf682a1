// Kuznyechik MAC, in-memory streams and the counter mode.
#include "ctx.h"
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
inline namespace in_C09 {
using namespace std;

typedef vector<uint64_t> Words;
static Words words(size_t n) { Words w(n); if (n) ctx_in("data", w.data(), 8 * n); return w; }
// a long message: all but the last words are known
static Words longWords(size_t n)
{
	if (n < 12) return words(n);
	Words w(n); uint64_t x = 1;
	for (auto &v : w) v = x = x * 6364136223846793005ull + 1442695040888963407ull;
	ctx_in("data", &w[n - 2], 16);
	return w;
}
// any stream: n blocks, the last of any size
struct AnyIter final : k::Iterator {
	vector<U64> b; size_t pos, lastSize;
	AnyIter(const vector<U64> &b, size_t pos, size_t lastSize) : b(b), pos(pos), lastSize(lastSize) {}
	U64 value() const override { return b[pos]; }
	bool last() const override { return pos + 1 == b.size(); }
	size_t size() const override { return last() ? lastSize : 16; }
	shared_ptr<const Iterator> next() const override { if (last()) return {}; return make_shared<AnyIter>(b, pos + 1, lastSize); }
};
struct AnyStream final : k::Stream {
	vector<U64> b; size_t lastSize;
	AnyStream(const vector<U64> &b, size_t lastSize) : b(b), lastSize(lastSize) {}
	shared_ptr<const k::Iterator> iter() const override { return make_shared<AnyIter>(b, 0, lastSize); }
};
static vector<U64> blocks(const Words &w)
{
	vector<U64> r;
	for (size_t i = 0; i < w.size(); i += 2) r.push_back({w[i], i + 1 < w.size() ? w[i + 1] : 0});
	if (r.empty()) r.push_back({0, 0});
	return r;
}
static size_t lastSize(const Words &w) { return w.empty() ? 0 : w.size() % 2 ? 8 : 16; }

static U64 dbl(U64 x)
{
	const uint64_t m = -(x.second >> 63);
	return {(x.first << 1) ^ (m & 0x87), (x.second << 1) | (x.first >> 63)};
}
template <class K> static U64 stdMac(const vector<U64> &b, size_t lastSize, const K &key)
{
	U64 c{0, 0};
	for (size_t i = 0; i + 1 < b.size(); i++) c = key.encrypt(xor128(c, b[i]));
	U64 sub = dbl(key.encrypt({0, 0}));
	if (lastSize != 16) sub = dbl(sub);
	return key.encrypt(xor128(xor128(c, b.back()), sub));
}
// fixed keys; E(0) and its double start with either bit
static U64 keyHi(int i) { return {0x0123456789abcdefull * (i + 1), 0xfedcba9876543210ull + i}; }
static U64 keyLo(int i) { return {0x8899aabbccddeeffull ^ i, 0x0011223344556677ull * (2 * i + 1)}; }
static shared_ptr<const k::Key> fixedKey(int i) { return make_shared<k::Key>(make_shared<KeyHalves>(keyHi(i), keyLo(i))); }
static StdKey fixedRef(int i) { return StdKey(keyHi(i), keyLo(i)); }

static const int LENS = 12;
static size_t cap() { return ctx_thorough() ? 1200 : 520; }
static size_t lengthOf(int i) { return i < LENS ? size_t(i) : extraLen(i - LENS, LENS - 1, cap(), 2); }
static int lengths() { return LENS + extraLens(LENS - 1, cap(), 2); }

// ---------------------------------------------------------------- C09
CTX C09_key(int i)
{
	// every key
	const U64 hi = in128("khigh"), lo = in128("klow");
	const auto w = words(size_t(i));
	eq64("MAC under every key", k::Imit(make_shared<k::StMemory>(w), make_shared<k::Key>(make_shared<KeyHalves>(hi, lo))).value(), stdMac(blocks(w), lastSize(w), StdKey(hi, lo)));
}
extern "C" int C09_key_N() { return ctx_thorough() ? 4 : 0; }
CTX C09_memory(int i)
{
	const auto w = words(lengthOf(i));
	const auto want = blocks(w);
	const auto st = make_shared<k::StMemory>(w);
	for (int again = 0; again < 2; again++) {
		auto it = st->iter();
		for (size_t j = 0; j < want.size(); j++) {
			ctx_true("there is an iterator for every block", !!it);
			if (!it) return;
			eq64("words pairwise, first word low", it->value(), want[j]);
			const bool last = j + 1 == want.size();
			ctx_true("only the last block is the last", it->last() == last);
			ctx_true("byte count of the block", it->size() == (last ? lastSize(w) : 16));
			eq64("value again", it->value(), want[j]);
			it = it->next();
		}
		ctx_true("nothing after the last block", !it);
	}
}
extern "C" int C09_memory_N() { return lengths(); }
CTX C09_mac(int i)
{
	const auto w = longWords(lengthOf(i));
	const k::Imit imit(make_shared<k::StMemory>(w), fixedKey(i % 4));
	const auto want = stdMac(blocks(w), lastSize(w), fixedRef(i % 4));
	eq64("MAC of the words", imit.value(), want);
	if (i < 6) eq64("MAC again", imit.value(), want);
}
extern "C" int C09_mac_N() { return lengths(); }
CTX C09_keys(int i)
{
	// every combination of the bits that decide the doublings, both kinds of last block
	static const int pick[4] = {0, 1, 3, 5};
	const auto ref = fixedRef(pick[i]);
	const auto key = fixedKey(pick[i]);
	const U64 e = ref.encrypt({0, 0});
	ctx_note("top bits of E(0)", int64_t(e.second >> 62));
	for (size_t n = 0; n < 4; n++) {
		const auto w = words(n);
		eq64("MAC under several keys", k::Imit(make_shared<k::StMemory>(w), key).value(), stdMac(blocks(w), lastSize(w), ref));
	}
}
CASES(C09_keys, 4)
CTX C09_stream(int i)
{
	// any stream: 1 to 3 blocks, every size of the last one
	const size_t n = 1 + i;
	const auto key = fixedKey(1); const auto ref = fixedRef(1);
	vector<U64> b; const auto w = words(2 * n);
	for (size_t j = 0; j < n; j++) b.push_back({w[2 * j], w[2 * j + 1]});
	for (size_t last = 0; last <= 16; last++) eq64("MAC of any stream", k::Imit(make_shared<AnyStream>(b, last), key).value(), stdMac(b, last, ref));
}
CASES(C09_stream, 3)
CTX C09_string()
{
	const auto w = words(3);
	const StdKey ref({0x0011223344556677ull, 0x8899aabbccddeeffull}, {0x0123456789abcdefull, 0xfedcba9876543210ull});
	const auto key = make_shared<k::Key>(string("8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef"));
	eq64("MAC under a string key", k::Imit(make_shared<k::StMemory>(w), key).value(), stdMac(blocks(w), 8, ref));
}
CTX C09_shift()
{
	const auto a = anyBlk128("a"); const auto v = a->value();
	eq64("the doubling's shift", k::BlkShifted(a, 1).value(), {v.first << 1, v.second << 1 | v.first >> 63});
}
CTX C09_ctr(int i)
{
	// MAC of an encrypted stream
	const auto w = words(size_t(i)); const uint64_t iv = 77;
	auto b = blocks(w); const auto ref = fixedRef(2);
	for (size_t j = 0; j < b.size(); j++) b[j] = xor128(b[j], ref.encrypt({j, iv}));
	eq64("MAC of a CTR stream", k::Imit(make_shared<k::StCTREncrypted>(make_shared<k::StMemory>(w), fixedKey(2), iv), fixedKey(1)).value(), stdMac(b, lastSize(w), fixedRef(1)));
}
CASES(C09_ctr, 6)

CTX C09_memory_long(int i)
{
	// many words
	const size_t n = 131080 + i;
	Words w(n);
	for (size_t j = 0; j < n; j++) w[j] = j * 0x9e3779b97f4a7c15ull;
	auto it = make_shared<k::StMemory>(w)->iter();
	for (size_t j = 0; j < n; j += 2) {
		if (!it) { ctx_fail("there is an iterator for every block"); return; }
		if (j % 256 < 4 || j > 131060) {
			eq64("words pairwise", it->value(), {w[j], j + 1 < n ? w[j + 1] : 0});
			ctx_true("byte count of the block", it->size() == (j + 1 < n ? 16 : 8));
			ctx_true("only the last block is the last", it->last() == (j + 2 >= n));
		}
		it = it->next();
	}
	ctx_true("nothing after the last block", !it);
}
CASES(C09_memory_long, 2)

// ---------------------------------------------------------------- C14
template <class K> static void ctr(const shared_ptr<const k::Stream> &under, const vector<U64> &b, size_t lastSize, const shared_ptr<const k::Key> &key, const K &ref, uint64_t iv, int again, bool twice)
{
	shared_ptr<const k::Stream> st = make_shared<k::StCTREncrypted>(under, key, iv);
	if (twice) st = make_shared<k::StCTREncrypted>(st, key, iv);
	vector<U64> want;
	for (size_t j = 0; j < b.size(); j++) want.push_back(twice ? b[j] : xor128(b[j], ref.encrypt({j, iv})));
	const char *name = twice ? "CTR twice is the original stream" : "block n xored with E(IV||n)";
	for (int a = 0; a <= again; a++) {
		auto it = st->iter();
		for (size_t j = 0; j < b.size(); j++) {
			ctx_true("there is an iterator for every block", !!it);
			if (!it) return;
			const bool last = j + 1 == b.size();
			eq64(name, it->value(), want[j]);
			ctx_true("the end is that of the underlying stream", it->last() == last);
			ctx_true("sizes are those of the underlying stream", it->size() == (last ? lastSize : 16));
			if (last) { ctx_true("nothing after the last block", !it->next()); break; }
			if (again) {
				// advance twice from the same iterator, look at it again
				const auto n1 = it->next(), n2 = it->next();
				eq64("advanced once", n1->value(), want[j + 1]);
				eq64("advanced again", n2->value(), want[j + 1]);
				eq64("re-evaluated after advancing", it->value(), want[j]);
				it = j % 2 ? n2 : n1;
			} else it = it->next();
		}
	}
}
CTX C14_blocks(int i)
{
	const auto w = longWords(lengthOf(i));
	ctr(make_shared<k::StMemory>(w), blocks(w), lastSize(w), fixedKey(i % 4), fixedRef(i % 4), 0x1234567890abcef0ull, i < 8, false);
}
extern "C" int C14_blocks_N() { return lengths(); }
CTX C14_iv(int i)
{
	// every initial value
	const auto w = words(size_t(2 * i + 1));
	ctr(make_shared<k::StMemory>(w), blocks(w), 8, fixedKey(0), fixedRef(0), in64("iv"), 0, false);
}
CASES(C14_iv, 4)
CTX C14_ivs()
{
	static const uint64_t iv[] = {0, 1, ~0ull, 1ull << 63, 0xffffffffull, 1ull << 32, 0x7fffffffffffffffull};
	const auto w = words(4); const auto key = fixedKey(3); const auto ref = fixedRef(3);
	for (uint64_t v : iv) ctr(make_shared<k::StMemory>(w), blocks(w), 16, key, ref, v, 0, false);
}
CTX C14_key(int i)
{
	const U64 hi = in128("khigh"), lo = in128("klow");
	const auto w = words(size_t(2 * i + 1));
	ctr(make_shared<k::StMemory>(w), blocks(w), 8, make_shared<k::Key>(make_shared<KeyHalves>(hi, lo)), StdKey(hi, lo), in64("iv"), 0, false);
}
CASES(C14_key, 2)
CTX C14_twice(int i)
{
	const auto w = words(lengthOf(i));
	ctr(make_shared<k::StMemory>(w), blocks(w), lastSize(w), fixedKey(1), fixedRef(1), in64("iv"), 0, true);
}
CASES(C14_twice, 10)
CTX C14_stream(int i)
{
	const size_t n = 1 + i;
	const auto key = fixedKey(1); const auto ref = fixedRef(1);
	vector<U64> b; const auto w = words(2 * n);
	for (size_t j = 0; j < n; j++) b.push_back({w[2 * j], w[2 * j + 1]});
	for (size_t last = 0; last <= 16; last++) ctr(make_shared<AnyStream>(b, last), b, last, key, ref, 99, last > 14, false);
}
CASES(C14_stream, 3)
CTX C14_counter()
{
	// one step of the counter, every value; and every position of the carry
	const U64 v = in128("counter");
	eq64("counter step", k::BlkIncremented(make_shared<AnyBlk128>(v.first, v.second)).value(), {v.first + 1, v.second + (v.first + 1 == 0)});
	for (int bit = 0; bit <= 128; bit++) {
		const uint64_t lo = bit >= 64 ? ~0ull : (1ull << bit) - 1, hi = bit < 64 ? v.second : bit == 128 ? ~0ull : (1ull << (bit - 64)) - 1;
		eq64("carry chain", k::BlkIncremented(make_shared<AnyBlk128>(lo, hi)).value(), {lo + 1, hi + (lo + 1 == 0)});
	}
}
// a stream without end: block n is any function of n
static U64 endless(uint64_t n) { uint64_t v[2]; ctx_uf("stream", &n, 8, v, 16); return {v[0], v[1]}; }
struct EndlessIter final : k::Iterator {
	uint64_t n;
	explicit EndlessIter(uint64_t n) : n(n) {}
	U64 value() const override { return endless(n); }
	bool last() const override { return false; }
	size_t size() const override { return 16; }
	shared_ptr<const Iterator> next() const override { return make_shared<EndlessIter>(n + 1); }
};
struct EndlessStream final : k::Stream {
	shared_ptr<const k::Iterator> iter() const override { return make_shared<EndlessIter>(0); }
};
// Block n of a stream for an unknown n of the given number of bits: the states of
// four successive iterators are generalised to that of block n, and the state
// that follows must be that of block n + 1.  Both blocks are looked at.  When n + 1
// does not fit, only the smaller n are: then block 2^bits follows as a special case.
static bool induction(size_t from, size_t bits, bool all)
{
	const uint64_t iv = in64("iv"), n = ctx_bits("n", bits), end = uint64_t(1) << bits;
	const auto ref = fixedRef(0);
	const auto st = make_shared<k::StCTREncrypted>(make_shared<EndlessStream>(), fixedKey(0), iv);
	vector<shared_ptr<const k::Iterator>> it(1, st->iter());
	for (size_t i = 0; i < from; i++) it[0] = it[0]->next();
	while (it.size() < 6) it.push_back(it.back()->next());
	if (all) for (uint64_t i = 0; i < 5; i++) eq64("block of the start", it[i]->value(), xor128(endless(from + i), ref.encrypt({from + i, iv})));
	const void *const samples[4] = {it[0].get(), it[1].get(), it[2].get(), it[3].get()};
	if (!ctx_generalise(samples, from, it[4].get(), n)) return false;
	if (all) eq64("block n xored with E(IV||n), every n", it[4]->value(), xor128(endless(n), ref.encrypt({n, iv})));
	if (!all && n + 1 == end) return true;
	const auto next = it[4]->next();
	ctx_true("there is a next block", !!next);
	if (!next || !ctx_inductive(samples, from, next.get(), n + 1)) return false;
	ctx_pass("induction over the blocks");
	if (all) { eq64("block n + 1 xored with E(IV||n + 1), every n", next->value(), xor128(endless(n + 1), ref.encrypt({n + 1, iv}))); return true; }
	return true;
}
// the last n of so many bits, which induction has reached, and the block after it
static void carry(size_t from, size_t bits)
{
	const uint64_t iv = 12345, n = (uint64_t(1) << bits) - 1;
	const auto ref = fixedRef(0);
	const auto st = make_shared<k::StCTREncrypted>(make_shared<EndlessStream>(), fixedKey(0), iv);
	vector<shared_ptr<const k::Iterator>> it(1, st->iter());
	for (size_t i = 0; i < from; i++) it[0] = it[0]->next();
	while (it.size() < 5) it.push_back(it.back()->next());
	const void *const samples[4] = {it[0].get(), it[1].get(), it[2].get(), it[3].get()};
	if (!ctx_generalise(samples, from, it[4].get(), n)) return;
	auto x = it[4];
	for (uint64_t i = n; i < n + 3; i++) {
		eq64("block where the counter carries", x->value(), xor128(endless(i), ref.encrypt({i, iv})));
		x = x->next();
		ctx_true("there is a next block", !!x);
		if (!x) return;
	}
}
CTX C14_induction(int c)
{
	ctx_track();
	// (the first iterator is made by other code than the later ones)
	const size_t bits = 8 * (1 + size_t(c));
	if (bits == 48) { induction(1, bits, true); return; }
	const int done = induction(1, bits, false), yes = 1;
	if (ctx_same(&done, &yes, sizeof yes)) carry(1, bits);
}
CASES(C14_induction, 6)
CTX C14_far()
{
	// a long way from the start, every advance followed
	const auto ref = fixedRef(0);
	auto it = k::StCTREncrypted(make_shared<EndlessStream>(), fixedKey(0), 5).iter();
	for (uint64_t n = 0; n < 65540; n++) {
		if ((n & 255) < 2 && (n < 1026 || n > 65530)) eq64("block far from the start", it->value(), xor128(endless(n), ref.encrypt({n, 5})));
		it = it->next();
		if (!it) { ctx_fail("there is a next block"); return; }
	}
}
}
