// Cipher feedback and simple substitution modes, over any key implementation.
#include "ctx.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxR3412.h>
inline namespace in_C11 {
using namespace std;
namespace g = goost::gost89;
using goost::Sink; using goost::Source;
using goost::magma::Key;

// writes appear in a log as they happen
struct LogSink final : Sink {
	shared_ptr<Bytes> log;
	explicit LogSink(const shared_ptr<Bytes> &log) : log(log) {}
	shared_ptr<const Sink> write(const Bytes &d) const override { for (auto b : d) log->push_back(b); return make_shared<LogSink>(log); }
	shared_ptr<const Sink> finalize() const override { return make_shared<LogSink>(log); }
};
enum Mode { MAGMA, GOST89 };
static int depth(Mode m) { return m == MAGMA ? 2 : 1; }
static shared_ptr<const Sink> cfbSink(Mode m, const shared_ptr<const Sink> &s, const shared_ptr<const Key> &k, uint64_t r0, uint64_t r1, const Bytes *plain = nullptr)
{
	if (m == MAGMA) return plain ? make_shared<const m::CFBSink>(s, k, r0, r1, *plain) : make_shared<const m::CFBSink>(s, k, r0, r1);
	return plain ? make_shared<const g::CFBSink>(s, k, r0, *plain) : make_shared<const g::CFBSink>(s, k, r0);
}
static shared_ptr<const Source> cfbSource(Mode m, const shared_ptr<const Source> &s, const shared_ptr<const Key> &k, uint64_t r0, uint64_t r1, const Bytes *plain = nullptr)
{
	if (m == MAGMA) return plain ? make_shared<const m::CFBSource>(s, k, r0, r1, *plain) : make_shared<const m::CFBSource>(s, k, r0, r1);
	return plain ? make_shared<const g::CFBSource>(s, k, r0, *plain) : make_shared<const g::CFBSource>(s, k, r0);
}
static Bytes part(const Bytes &d, size_t a, size_t b) { return Bytes(d.begin() + a, d.begin() + b); }
static void prefix(const char *n, const Bytes &got, const Bytes &want)
{
	ctx_true(n, got.size() <= want.size());
	if (got.size() <= want.size() && !got.empty()) ctx_eq(n, got.data(), want.data(), got.size());
}

// ---------------------------------------------------------------- C11
// write the pieces, finalize; compare everything that was forwarded
static void cfbWrite(Mode m, const shared_ptr<const Key> &key, const Bytes *plain, const Bytes &d, const vector<size_t> &cuts, const Bytes &want)
{
	const auto log = make_shared<Bytes>();
	shared_ptr<const Sink> s = cfbSink(m, make_shared<LogSink>(log), key, in64("r0"), in64("r1"), plain);
	size_t from = 0;
	for (size_t i = 0; i <= cuts.size(); i++) {
		const size_t to = i < cuts.size() ? cuts[i] : d.size();
		s = s->write(part(d, from, to));
		prefix("only ciphertext is forwarded", *log, want);
		from = to;
	}
	s = s->finalize();
	ctx_true("the underlying sink comes back", !!dynamic_pointer_cast<const LogSink>(s));
	eqBytes("message xored with the keystream", *log, want);
}
static Bytes wantEnc(Mode m, const Bytes &d) { return stdCfb(d, in64("r0"), in64("r1"), depth(m), false); }
static const int N = 26;
static size_t cap() { return ctx_thorough() ? 5000 : 2100; }
static size_t lengthOf(int i) { return i < N ? size_t(i) : extraLen(i - N, N - 1, cap(), 8); }
static int lengths() { return N + extraLens(N - 1, cap(), 8); }

static void split(Mode m, int i)
{
	const auto d = inBytes("data", lengthOf(i));
	const auto key = make_shared<AnyKey>();
	const auto want = wantEnc(m, d);
	if (i >= N) {
		cfbWrite(m, key, nullptr, d, {}, want);
		cfbWrite(m, key, nullptr, d, {5}, want);
		cfbWrite(m, key, nullptr, d, {d.size() - 8}, want);
		return;
	}
	for (size_t k = 0; k <= d.size(); k++) cfbWrite(m, key, nullptr, d, {k}, want);
	vector<size_t> each; for (size_t k = 0; k < d.size(); k++) each.push_back(k);
	cfbWrite(m, key, nullptr, d, each, want);
	cfbWrite(m, key, nullptr, d, {}, want);
}
CTX C11_magma_split(int i) { split(MAGMA, i); }
CTX C11_gost89_split(int i) { split(GOST89, i); }
extern "C" int C11_magma_split_N() { return lengths(); }
extern "C" int C11_gost89_split_N() { return lengths(); }

static void triple(Mode m, int i)
{
	// every split of 8+i bytes in three
	const auto d = inBytes("data", 8 + i);
	const auto key = make_shared<AnyKey>();
	const auto want = wantEnc(m, d);
	for (size_t a = 0; a <= d.size(); a++) for (size_t b = a; b <= d.size(); b++) cfbWrite(m, key, nullptr, d, {a, b}, want);
}
CTX C11_magma_triple(int i) { triple(MAGMA, i); }
CTX C11_gost89_triple(int i) { triple(GOST89, i); }
CASES(C11_magma_triple, 10)
CASES(C11_gost89_triple, 10)

static void state(Mode m, int i)
{
	// every buffered state: i bytes wait, any register; one write of any size, one more
	const auto p = inBytes("plain", size_t(i));
	const auto key = make_shared<AnyKey>();
	for (size_t n = 0; n <= 19; n++) {
		const auto d = inBytes("data", n);
		Bytes all = p; for (auto b : d) all.push_back(b);
		const auto want = wantEnc(m, all);
		cfbWrite(m, key, &p, d, {}, want);
		cfbWrite(m, key, &p, d, {n / 2}, want);
	}
	// no write at all
	const auto log = make_shared<Bytes>();
	cfbSink(m, make_shared<LogSink>(log), key, in64("r0"), in64("r1"), &p)->finalize();
	eqBytes("buffered bytes are finalized", *log, wantEnc(m, p));
}
CTX C11_magma_state(int i) { state(MAGMA, i); }
CTX C11_gost89_state(int i) { state(GOST89, i); }
CASES(C11_magma_state, 8)
CASES(C11_gost89_state, 8)

static void plain(Mode m)
{
	// a sink without a past, not written
	const auto log = make_shared<Bytes>();
	const auto s = cfbSink(m, make_shared<LogSink>(log), make_shared<AnyKey>(), 1, 2)->finalize();
	ctx_true("nothing is forwarded for an empty message", log->empty());
	ctx_true("the underlying sink comes back", !!dynamic_pointer_cast<const LogSink>(s));
}
CTX C11_magma_plain() { plain(MAGMA); }
CTX C11_gost89_plain() { plain(GOST89); }
static void chained(Mode m)
{
	// a cipher sink over a cipher sink
	const auto d = inBytes("data", 21);
	const auto key = make_shared<AnyKey>(), other = make_shared<AnyKey>();
	auto s = cfbSink(m, cfbSink(MAGMA, make_shared<RecSink>(), key, 3, 4), other, in64("r0"), in64("r1"));
	s = s->write(part(d, 0, 13))->write(part(d, 13, 21))->finalize();
	eqBytes("both layers", recorded(s->finalize()), stdCfb(wantEnc(m, d), 3, 4, 2, false));
}
CTX C11_magma_chained() { chained(MAGMA); }
CTX C11_gost89_chained() { chained(GOST89); }
static void usual(Mode m)
{
	// a native key and the built-in table
	const auto d = inBytes("data", 11);
	static const uint32_t w[8] = {0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff};
	const auto key = make_shared<m::LazyKey>(vector<uint32_t>(w, w + 8), make_shared<m::SboxR3412>());
	const auto log = make_shared<Bytes>();
	auto s = cfbSink(m, make_shared<LogSink>(log), key, 5, 6);
	s->write(part(d, 0, 3))->write(part(d, 3, 11))->finalize();
	Bytes want; uint64_t reg[2] = {5, 6};
	for (size_t o = 0; o < d.size(); o += 8) {
		const U32 e = stdEncrypt({uint32_t(reg[0]), uint32_t(reg[0] >> 32)}, [](uint32_t v, int r) { return stdG(w[r] + v); });
		byte kk[8]; store32(kk, e); uint64_t c = 0;
		for (size_t i = 0; i < 8 && o + i < d.size(); i++) { want.push_back(d[o + i] ^ kk[i]); c |= uint64_t(want.back()) << (8 * i); }
		if (m == MAGMA) { reg[0] = reg[1]; reg[1] = c; } else reg[0] = c;
	}
	eqBytes("native key and the built-in table", *log, want);
}
CTX C11_magma_usual() { usual(MAGMA); }
CTX C11_gost89_usual() { usual(GOST89); }

// long messages, one key
static size_t longLen(int i) { return longList(cap())[i]; }
static int longs() { return int(longList(cap()).size()); }
static void longWrite(Mode m, int i)
{
	// in one piece or in many
	const auto d = fill(longLen(i));
	const auto key = make_shared<CheapKey>();
	const auto log = make_shared<Bytes>();
	shared_ptr<const Sink> s = cfbSink(m, make_shared<LogSink>(log), key, 1, 2);
	const size_t step = d.size() % 8 ? d.size() : 1023;
	for (size_t o = 0; o < d.size(); o += step) s = s->write(part(d, o, min(d.size(), o + step)));
	s->finalize();
	eqBytes("a long message xored with the keystream", *log, stdCfbOf(d, 1, 2, depth(m), false, cheapRound));
}
CTX C11_magma_long(int i) { longWrite(MAGMA, i); }
CTX C11_gost89_long(int i) { longWrite(GOST89, i); }
extern "C" int C11_magma_long_N() { return longs(); }
extern "C" int C11_gost89_long_N() { return longs(); }

// ---------------------------------------------------------------- C12
static Bytes wantDec(Mode m, const Bytes &d) { return stdCfb(d, in64("r0"), in64("r1"), depth(m), true); }
// read with the given sizes (the last one is repeated) until the end
static void cfbRead(shared_ptr<const Source> s, const vector<size_t> &sizes, const Bytes &want)
{
	size_t pos = 0;
	for (size_t i = 0; i <= want.size() + sizes.size() + 2; i++) {
		const size_t n = sizes[i < sizes.size() ? i : sizes.size() - 1];
		const auto r = s->read(n);
		const size_t expect = want.size() - pos < n ? want.size() - pos : n;
		ctx_true("exactly as many bytes as asked until the data ends", r.first.size() == expect);
		if (r.first.size() != expect) return;
		if (expect) ctx_eq("the plaintext in order", r.first.data(), &want[pos], expect);
		pos += expect;
		s = r.second;
		ctx_true("the continuation is there", !!s);
		if (!s) return;
		if (n && !expect && i + 1 >= sizes.size()) return;
	}
}
static const size_t MAX = size_t(-1);
static void pattern(Mode m, int i)
{
	const auto d = inBytes("data", lengthOf(i));
	const auto key = make_shared<AnyKey>();
	const auto want = wantDec(m, d);
	const auto src = cfbSource(m, make_shared<MemSource>(d), key, in64("r0"), in64("r1"));
	cfbRead(src, {MAX}, want);
	cfbRead(src, {d.size(), 1}, want);
	if (i >= N) { cfbRead(src, {13}, want); cfbRead(src, {8}, want); cfbRead(src, {3, MAX}, want); return; }
	for (size_t n = 1; n <= d.size() + 2; n++) cfbRead(src, {n}, want);
	for (size_t n = 0; n <= d.size(); n++) { cfbRead(src, {n, MAX}, want); cfbRead(src, {n, 0, 1, 0, 3, 8}, want); }
}
CTX C12_magma_pattern(int i) { pattern(MAGMA, i); }
CTX C12_gost89_pattern(int i) { pattern(GOST89, i); }
extern "C" int C12_magma_pattern_N() { return lengths(); }
extern "C" int C12_gost89_pattern_N() { return lengths(); }
static void pairs(Mode m, int i)
{
	// every pair of sizes, then single bytes
	const auto d = inBytes("data", 8 + i);
	const auto want = wantDec(m, d);
	const auto src = cfbSource(m, make_shared<MemSource>(d), make_shared<AnyKey>(), in64("r0"), in64("r1"));
	for (size_t a = 0; a <= d.size(); a++) for (size_t b = 0; a + b <= d.size() + 1; b++) cfbRead(src, {a, b, 1}, want);
}
CTX C12_magma_pairs(int i) { pairs(MAGMA, i); }
CTX C12_gost89_pairs(int i) { pairs(GOST89, i); }
CASES(C12_magma_pairs, 10)
CASES(C12_gost89_pairs, 10)
static void readState(Mode m, int i)
{
	// every state: i decrypted bytes wait, any register, any rest
	const auto p = inBytes("plain", size_t(i));
	const auto key = make_shared<AnyKey>();
	for (size_t n = 0; n <= 17; n++) {
		const auto d = inBytes("data", n);
		Bytes want = p; for (auto b : wantDec(m, d)) want.push_back(b);
		const auto src = cfbSource(m, make_shared<MemSource>(d), key, in64("r0"), in64("r1"), &p);
		cfbRead(src, {MAX}, want); cfbRead(src, {1}, want); cfbRead(src, {7}, want); cfbRead(src, {0, 9}, want);
	}
}
CTX C12_magma_state(int i) { readState(MAGMA, i); }
CTX C12_gost89_state(int i) { readState(GOST89, i); }
CASES(C12_magma_state, 9)
CASES(C12_gost89_state, 9)
static void roundTrip(Mode m, int i)
{
	const auto d = inBytes("data", size_t(i));
	const auto key = make_shared<AnyKey>();
	const auto c = recorded(cfbSink(m, make_shared<RecSink>(), key, in64("r0"), in64("r1"))->write(part(d, 0, i / 3))->write(part(d, i / 3, i))->finalize());
	cfbRead(cfbSource(m, make_shared<MemSource>(c), key, in64("r0"), in64("r1")), {3, 5, 11}, d);
}
CTX C12_magma_roundtrip(int i) { roundTrip(MAGMA, i); }
CTX C12_gost89_roundtrip(int i) { roundTrip(GOST89, i); }
CASES(C12_magma_roundtrip, 26)
CASES(C12_gost89_roundtrip, 26)
static void layered(Mode m)
{
	// a cipher source over a cipher source
	const auto d = inBytes("data", 21);
	const auto key = make_shared<AnyKey>();
	const auto s = cfbSource(m, cfbSource(MAGMA, make_shared<MemSource>(d), key, 3, 4), key, in64("r0"), in64("r1"));
	const auto want = wantDec(m, stdCfb(d, 3, 4, 2, true));
	cfbRead(s, {MAX}, want); cfbRead(s, {5}, want);
}
CTX C12_magma_layered() { layered(MAGMA); }
CTX C12_gost89_layered() { layered(GOST89); }

static void longRead(Mode m, int i)
{
	// in one piece or in many
	const auto d = make_shared<const Bytes>(fill(longLen(i)));
	const auto want = stdCfbOf(*d, 1, 2, depth(m), true, cheapRound);
	cfbRead(cfbSource(m, make_shared<LongSource>(d), make_shared<CheapKey>(), 1, 2), {d->size() % 8 ? MAX : size_t(1023)}, want);
}
CTX C12_magma_long(int i) { longRead(MAGMA, i); }
CTX C12_gost89_long(int i) { longRead(GOST89, i); }
extern "C" int C12_magma_long_N() { return longs(); }
extern "C" int C12_gost89_long_N() { return longs(); }

// ---------------------------------------------------------------- C13
template <class F> static Bytes eachBlock(const Bytes &d, F f) { Bytes r; for (size_t o = 0; o + 8 <= d.size(); o += 8) { byte b[8]; store32(b, f(load32(&d[o]))); for (auto x : b) r.push_back(x); } return r; }
static void ecbWrite(const shared_ptr<const Key> &key, const Bytes &d, const vector<size_t> &cuts, const Bytes &want)
{
	const auto log = make_shared<Bytes>();
	shared_ptr<const Sink> s = make_shared<m::ECBSink>(make_shared<LogSink>(log), key);
	size_t from = 0;
	for (size_t i = 0; i <= cuts.size(); i++) {
		const size_t to = i < cuts.size() ? cuts[i] : d.size();
		s = s->write(part(d, from, to));
		prefix("only ciphertext is forwarded", *log, want);
		from = to;
	}
	s = s->finalize();
	ctx_true("the underlying sink comes back", !!dynamic_pointer_cast<const LogSink>(s));
	eqBytes("encryption of each block in order", *log, want);
}
static size_t ecbLen(int i) { return i < 34 ? size_t(i) : extraLen(i - 34, 33, cap(), 8); }
CTX C13_encrypt(int i)
{
	const auto d = inBytes("data", ecbLen(i));
	const auto key = make_shared<AnyKey>();
	if (d.size() % 8 == 0) {
		const auto want = eachBlock(d, uEncrypt);
		for (size_t k = 0; k <= d.size() && k <= 32; k += 8) ecbWrite(key, d, {k}, want);
		ecbWrite(key, d, {}, want);
		vector<size_t> each; for (size_t k = 8; k < d.size(); k += 8) each.push_back(k);
		ecbWrite(key, d, each, want);
		return;
	}
	const auto log = make_shared<Bytes>();
	const auto want = eachBlock(d, uEncrypt);
	bool thrown = false;
	try { make_shared<m::ECBSink>(make_shared<LogSink>(log), key)->write(d); } catch (...) { thrown = true; }
	ctx_true("an unaligned write is refused", thrown);
	prefix("only ciphertext is forwarded before the refusal", *log, want);
	// also after aligned writes
	thrown = false;
	shared_ptr<const Sink> s = make_shared<m::ECBSink>(make_shared<LogSink>(log), key);
	s = s->write(Bytes(8));
	try { s->write(d); } catch (...) { thrown = true; }
	ctx_true("an unaligned write is refused after an aligned one", thrown);
}
extern "C" int C13_encrypt_N() { return 34 + extraLens(33, cap(), 8); }
CTX C13_decrypt(int i)
{
	const auto d = inBytes("data", ecbLen(i));
	const auto key = make_shared<AnyKey>();
	const auto want = eachBlock(d, uDecrypt);
	static const size_t sizes[] = {8, 9, 15, 16, 17, 100, MAX};
	for (size_t size : sizes) {
		shared_ptr<const Source> s = make_shared<m::ECBSource>(make_shared<MemSource>(d), key);
		Bytes got; bool thrown = false, end = false;
		try {
			for (size_t j = 0; j <= d.size() / 8 + 1 && !end; j++) {
				const auto r = s->read(size);
				ctx_true("whole blocks, not more than asked", r.first.size() % 8 == 0 && r.first.size() <= size);
				for (auto b : r.first) got.push_back(b);
				end = r.first.empty();
				s = r.second;
			}
		} catch (...) { thrown = true; }
		if (d.size() % 8) {
			ctx_true("an incomplete last block is refused", thrown && !end);
			prefix("decryption of each whole block", got, want);
		} else {
			ctx_true("whole blocks are not refused", !thrown);
			ctx_true("an empty result at the end", end);
			eqBytes("decryption of each block in order", got, want);
		}
		if (i > 20) break;
	}
}
extern "C" int C13_decrypt_N() { return 34 + extraLens(33, cap(), 8); }
static U32 cheapEncrypt(U32 x) { return stdEncrypt(x, cheapRound); }
static U32 cheapDecrypt(U32 x) { return stdDecrypt(x, cheapRound); }
CTX C13_long_encrypt(int i)
{
	auto d = fill(longLen(i));
	const size_t step = d.size() % 8 ? d.size() : 1024;
	d.resize(d.size() / 8 * 8);
	const auto log = make_shared<Bytes>();
	shared_ptr<const Sink> s = make_shared<m::ECBSink>(make_shared<LogSink>(log), make_shared<CheapKey>());
	for (size_t o = 0; o < d.size(); o += step) s = s->write(part(d, o, min(d.size(), o + step)));
	s->finalize();
	eqBytes("encryption of each block of a long message", *log, eachBlock(d, cheapEncrypt));
}
CTX C13_long_decrypt(int i)
{
	auto d = fill(longLen(i));
	const size_t step = d.size() % 8 ? MAX : 1024;
	d.resize(d.size() / 8 * 8);
	shared_ptr<const Source> s = make_shared<m::ECBSource>(make_shared<LongSource>(make_shared<const Bytes>(d)), make_shared<CheapKey>());
	Bytes got;
	for (size_t j = 0; j <= d.size() / 8 + 1; j++) {
		const auto r = s->read(step);
		if (r.first.empty()) break;
		for (auto b : r.first) got.push_back(b);
		s = r.second;
	}
	eqBytes("decryption of each block of a long message", got, eachBlock(d, cheapDecrypt));
}
extern "C" int C13_long_encrypt_N() { return longs(); }
extern "C" int C13_long_decrypt_N() { return longs(); }
CTX C13_small(int i)
{
	// requests below a block, at the start, between blocks and at the end
	const auto d = inBytes("data", 16);
	const auto s0 = make_shared<m::ECBSource>(make_shared<MemSource>(d), make_shared<AnyKey>());
	const auto refused = [i](const shared_ptr<const Source> &s) { try { s->read(size_t(i)); } catch (...) { return true; } return false; };
	ctx_true("a small request is refused at the start", refused(s0));
	const auto r = s0->read(8);
	ctx_true("a small request is refused in the middle", refused(r.second));
	ctx_true("a small request is refused on an empty source", refused(make_shared<m::ECBSource>(make_shared<MemSource>(Bytes()), make_shared<AnyKey>())));
	eqBytes("reading goes on after the refusal", r.second->read(8).first, eachBlock(part(d, 8, 16), uDecrypt));
}
CASES(C13_small, 8)
CTX C13_roundtrip(int i)
{
	const auto d = inBytes("data", size_t(8 * i));
	const auto key = make_shared<AnyKey>();
	const auto c = recorded(make_shared<m::ECBSink>(make_shared<RecSink>(), key)->write(d)->finalize());
	shared_ptr<const Source> s = make_shared<m::ECBSource>(make_shared<MemSource>(c), key);
	Bytes got;
	for (int j = 0; j <= i; j++) { const auto r = s->read(8); for (auto b : r.first) got.push_back(b); s = r.second; }
	eqBytes("decryption inverts encryption", got, d);
}
CASES(C13_roundtrip, 6)
struct FixedContainer final : m::Container {
	Bytes k, s;
	FixedContainer(const Bytes &k, const Bytes &s) : k(k), s(s) {}
	Bytes key() const override { return k; }
	Bytes mask() const override { return Bytes(32); }
	Bytes sbox() const override { return s; }
};
CTX C13_container()
{
	// key from a container: big-endian words, packed table
	Bytes kb, sb; uint32_t w[8];
	for (int i = 0; i < 32; i++) kb.push_back(byte(i * 7 + 3));
	for (int i = 0; i < 8; i++) w[i] = uint32_t(kb[4 * i]) << 24 | uint32_t(kb[4 * i + 1]) << 16 | uint32_t(kb[4 * i + 2]) << 8 | uint32_t(kb[4 * i + 3]);
	for (int row = 0; row < 16; row++) for (int j = 0; j < 4; j++) sb.push_back(byte(stdPi[2 * j][row] | stdPi[2 * j + 1][row] << 4));
	const auto d = inBytes("data", 8);
	shared_ptr<const Source> s = make_shared<m::ECBSource>(make_shared<MemSource>(d), make_shared<FixedContainer>(kb, sb));
	const auto f = [&w](uint32_t v, int r) { return stdG(w[r] + v); };
	// compared through the encryption of the result
	const auto got = s->read(8).first;
	ctx_true("one block", got.size() == 8);
	if (got.size() == 8) eqBytes("container key", got, eachBlock(d, [&](U32 x) { return stdDecrypt(x, f); }));
}
CTX C13_usual()
{
	static const uint32_t w[8] = {0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff};
	const auto key = make_shared<m::LazyKey>(string("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff"));
	const auto d = inBytes("data", 8);
	const auto f = [](uint32_t v, int r) { return stdG(w[r] + v); };
	eqBytes("string key and the built-in table", recorded(make_shared<m::ECBSink>(make_shared<RecSink>(), key)->write(d)->finalize()), eachBlock(d, [&](U32 x) { return stdEncrypt(x, f); }));
}

// ---------------------------------------------------------------- C21
// a key written by a user: no data, another shape
struct WrapKey final : Key {
	char pad[40]; shared_ptr<const Key> inner;
	explicit WrapKey(const shared_ptr<const Key> &k) : pad(), inner(k) {}
	uint32_t transform(uint32_t v, int i) const override { return inner->transform(v, i); }
};
struct EmptyKey final : Key { uint32_t transform(uint32_t v, int i) const override { return roundFn(v, i, 0); } };
static shared_ptr<const Key> userKey(int i)
{
	if (i == 0) return make_shared<AnyKey>();
	if (i == 1) return make_shared<EmptyKey>();
	return make_shared<WrapKey>(make_shared<EmptyKey>());
}
CTX C21_block(int i)
{
	const auto key = userKey(i); const auto b = anyBlk("a", "b"); const U32 x = b->value();
	eq32("encrypted", m::BlkEncrypted(b, key).value(), uEncrypt(x));
	eq32("decrypted", m::BlkDecrypted(b, key).value(), uDecrypt(x));
	static const int up[8] = {0, 1, 2, 3, 4, 5, 6, 7}, down[8] = {7, 6, 5, 4, 3, 2, 1, 0};
	eq32("forwarded", m::BlkForwarded(b, key).value(), stdRounds(x, up, 8, uround));
	eq32("backwarded", m::BlkBackwarded(b, key).value(), stdRounds(x, down, 8, uround));
	const uint64_t v = uint64_t(x.second) << 32 | x.first; const U32 e = uEncrypt(x);
	eqw("integer", m::EncryptionBase(key).transform(v), uint64_t(e.second) << 32 | e.first);
}
CASES(C21_block, 3)
CTX C21_ecb(int i)
{
	const auto d = inBytes("data", 16); const auto key = userKey(i);
	eqBytes("ECB encryption", recorded(make_shared<m::ECBSink>(make_shared<RecSink>(), key)->write(d)->finalize()), eachBlock(d, uEncrypt));
	const auto r = m::ECBSource(make_shared<MemSource>(d), key).read(8), q = r.second->read(8);
	Bytes got = r.first; for (auto b : q.first) got.push_back(b);
	eqBytes("ECB decryption", got, eachBlock(d, uDecrypt));
}
CASES(C21_ecb, 3)
CTX C21_cfb(int i)
{
	const auto d = inBytes("data", 19); const auto key = userKey(i % 3); const Mode m = i < 3 ? MAGMA : GOST89;
	for (size_t k = 0; k <= d.size(); k++) eqBytes("CFB encryption", recorded(cfbSink(m, make_shared<RecSink>(), key, in64("r0"), in64("r1"))->write(part(d, 0, k))->write(part(d, k, d.size()))->finalize()), wantEnc(m, d));
	const auto src = cfbSource(m, make_shared<MemSource>(d), key, in64("r0"), in64("r1"));
	for (size_t n = 1; n <= 20; n++) cfbRead(src, {n}, wantDec(m, d));
}
CASES(C21_cfb, 6)
CTX C21_two()
{
	// two keys at once do not get mixed up
	const auto d = inBytes("data", 16);
	shared_ptr<const Key> a = make_shared<AnyKey>(0u), b = make_shared<AnyKey>(1u);
	const auto other = [](U32 x) { return stdEncrypt(x, [](uint32_t v, int i) { return roundFn(v, i, 1); }); };
	eqBytes("first key", recorded(make_shared<m::ECBSink>(make_shared<RecSink>(), a)->write(d)->finalize()), eachBlock(d, uEncrypt));
	eqBytes("second key", recorded(make_shared<m::ECBSink>(make_shared<RecSink>(), b)->write(d)->finalize()), eachBlock(d, other));
	eqBytes("first key again", recorded(make_shared<m::ECBSink>(make_shared<RecSink>(), a)->write(d)->finalize()), eachBlock(d, uEncrypt));
	const auto blk = anyBlk("a", "b");
	eq32("block, first key", m::BlkEncrypted(blk, a).value(), uEncrypt(blk->value()));
	eq32("block, second key", m::BlkEncrypted(blk, b).value(), other(blk->value()));
}
}
