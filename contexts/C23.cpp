// What an operation costs and holds, and when it happens, as functions of the
// number of blocks.
#include "flat.h"
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxByte64Tab.h>
#include <goost/magma/SboxTwisted.h>
inline namespace in_C23 {
using namespace std;
namespace g = goost::gost89;
using goost::Sink; using goost::Source;

// ---------------------------------------------------------------- C23
// Twice the blocks may cost little more than twice as much: instructions
// interpreted and words copied.  One-time work happens before.
template <class F> static void linear(size_t n, F f)
{
	if (ctx_thorough()) n *= 2;
	f(size_t(2));
	uint64_t t = ctx_cost(); f(n); const uint64_t a = ctx_cost() - t;
	t = ctx_cost(); f(2 * n); const uint64_t b = ctx_cost() - t;
	ctx_note("cost for n blocks", int64_t(a)); ctx_note("cost for 2n blocks", int64_t(b));
	ctx_true("work grows linearly with the number of blocks", b <= a * 9 / 4 + 2000);
}
CTX C23_magma_imit(int i)
{
	const auto key = magmaKey();
	linear(256, [&](size_t n) { m::Imit(make_shared<ZeroSource>(8 * n + (i ? 3 : 0)), key).value(); });
}
CASES(C23_magma_imit, 2)
CTX C23_gost89_imit(int i)
{
	const auto key = magmaKey();
	linear(512, [&](size_t n) { g::DataImit(vector<uint8_t>(8 * n + (i ? 3 : 0)), key).value(); });
}
CASES(C23_gost89_imit, 2)
CTX C23_sink_once(int kind)
{
	linear(512, [&](size_t n) { sink(kind)->write(Bytes(8 * n))->finalize(); });
}
CASES(C23_sink_once, 3)
CTX C23_sink_writes(int kind)
{
	linear(256, [&](size_t n) { auto s = sink(kind); for (size_t i = 0; i < n; i++) s = s->write(Bytes(8)); s->finalize(); });
}
CASES(C23_sink_writes, 3)
CTX C23_sink_pieces(int kind)
{
	linear(512, [&](size_t n) { auto s = sink(kind); for (size_t i = 0; i < n; i++) s = s->write(Bytes(3)); s->finalize(); });
}
CASES(C23_sink_pieces, 2)
CTX C23_source_once(int kind)
{
	linear(512, [&](size_t n) { source(kind, 8 * n)->read(8 * n); });
}
CASES(C23_source_once, 3)
CTX C23_source_reads(int kind)
{
	linear(256, [&](size_t n) { auto s = source(kind, 8 * n); for (size_t i = 0; i < n; i++) s = s->read(8).second; });
}
CASES(C23_source_reads, 3)
CTX C23_source_pieces(int kind)
{
	linear(512, [&](size_t n) { auto s = source(kind, 8 * n); for (size_t i = 0; i < n; i++) s = s->read(3).second; });
}
CASES(C23_source_pieces, 2)
CTX C23_kuz_imit(int i)
{
	const auto key = kuzKey();
	linear(8, [&](size_t n) {
		if (i == 0) k::Imit(make_shared<ZeroStream>(n), key).value();
		else if (i == 1) k::Imit(make_shared<k::StMemory>(vector<uint64_t>(2 * n)), key).value();
		else k::Imit(make_shared<k::StCTREncrypted>(make_shared<ZeroStream>(n), key, 7), key).value();
	});
}
CASES(C23_kuz_imit, 3)
CTX C23_stream_all(int kind)
{
	// every value of an encrypted stream
	const auto key = kuzKey();
	linear(8, [&](size_t n) { for (auto it = stream(kind, n, key)->iter(); it; it = it->next()) { it->value(); it->last(); it->size(); } });
}
CASES(C23_stream_all, 3)
CTX C23_memory_all()
{
	linear(512, [&](size_t n) { for (auto it = make_shared<k::StMemory>(vector<uint64_t>(2 * n))->iter(); it; it = it->next()) { it->value(); it->last(); it->size(); } });
}
CTX C23_stream_walk(int kind)
{
	// no values
	const auto key = kuzKey();
	linear(512, [&](size_t n) { auto it = stream(kind, n, key)->iter(); for (size_t i = 0; i + 1 < n; i++) it = it->next(); });
}
CASES(C23_stream_walk, 3)

// key material is derived once
struct CountHalves final : k::Key::Data {
	shared_ptr<int> asked;
	explicit CountHalves(const shared_ptr<int> &asked) : asked(asked) {}
	shared_ptr<const k::Block> low() const override { ++*asked; return make_shared<AnyBlk128>(3, 4); }
	shared_ptr<const k::Block> high() const override { ++*asked; return make_shared<AnyBlk128>(1, 2); }
};
struct CountKeyData final : m::KeyData {
	shared_ptr<int> asked;
	explicit CountKeyData(const shared_ptr<int> &asked) : asked(asked) {}
	uint32_t key(int i) const override { ++*asked; if (i < 0 || i > 7) throw out_of_range("key index"); return thinWord(i); }
};
CTX C23_kuz_key()
{
	const auto asked = make_shared<int>(0);
	uint64_t t = ctx_cost();
	const k::Key key(make_shared<CountHalves>(asked));
	key.encrypt(make_shared<AnyBlk128>(5, 6))->value();
	const uint64_t first = ctx_cost() - t; const int once = *asked;
	t = ctx_cost();
	key.encrypt(make_shared<AnyBlk128>(7, 8))->value();
	const uint64_t second = ctx_cost() - t;
	ctx_note("cost of the first block", int64_t(first)); ctx_note("cost of the second block", int64_t(second));
	ctx_true("the key data is asked once", *asked == once && once <= 4);
	ctx_true("the schedule is computed once", second * 2 < first);
}
CTX C23_magma_key()
{
	const auto asked = make_shared<int>(0);
	const auto key = make_shared<m::LazyKey>(make_unique<m::KeyCachedData>(make_unique<CountKeyData>(asked)), make_shared<FlatSbox>());
	m::BlkEncrypted(make_shared<AnyBlk>(5, 6), key).value();
	ctx_true("the key data is asked once for a word", *asked <= 8);
	m::BlkDecrypted(make_shared<AnyBlk>(7, 8), key).value();
	ctx_true("the key data is asked once", *asked <= 8);
}

// ---------------------------------------------------------------- C24
// What the underlying sink has got when a write returns.
struct CountSink final : Sink {
	shared_ptr<size_t> got;
	explicit CountSink(const shared_ptr<size_t> &got) : got(got) {}
	shared_ptr<const Sink> write(const Bytes &d) const override { *got += d.size(); return make_shared<CountSink>(got); }
	shared_ptr<const Sink> finalize() const override { return make_shared<CountSink>(got); }
};
static shared_ptr<const Sink> countSink(int kind, const shared_ptr<size_t> &got)
{
	const auto key = make_shared<CheapKey>(); const auto s = make_shared<CountSink>(got);
	if (kind == 0) return make_shared<m::CFBSink>(s, key, 1, 2);
	if (kind == 1) return make_shared<g::CFBSink>(s, key, 1);
	return make_shared<m::ECBSink>(s, key);
}
CTX C24_forward(int kind)
{
	const size_t unit = kind == 2 ? 8 : 1;
	for (size_t a = 0; a <= 32; a += unit) for (size_t b = 0; b <= 24; b += unit) {
		const auto got = make_shared<size_t>(0);
		auto s = countSink(kind, got);
		s = s->write(Bytes(a));
		ctx_true("every complete block is forwarded by the time the write returns", *got >= a / 8 * 8 && *got <= a);
		s = s->write(Bytes(b));
		ctx_true("every complete block is forwarded by the time the next write returns", *got >= (a + b) / 8 * 8 && *got <= a + b);
		s->finalize();
		ctx_true("finalize forwards the rest", *got == a + b);
	}
}
CASES(C24_forward, 3)
// What has been taken from the underlying source when a read returns.
struct CountSource final : Source {
	shared_ptr<size_t> taken; size_t left;
	CountSource(const shared_ptr<size_t> &taken, size_t left) : taken(taken), left(left) {}
	pair<Bytes, shared_ptr<const Source>> read(size_t n) const override
	{
		const size_t k = left < n ? left : n;
		*taken += k;
		return {Bytes(k), make_shared<CountSource>(taken, left - k)};
	}
};
static shared_ptr<const Source> countSource(int kind, const shared_ptr<size_t> &taken, size_t n)
{
	const auto key = make_shared<CheapKey>(); const auto s = make_shared<CountSource>(taken, n);
	if (kind == 0) return make_shared<m::CFBSource>(s, key, 1, 2);
	if (kind == 1) return make_shared<g::CFBSource>(s, key, 1);
	return make_shared<m::ECBSource>(s, key);
}
CTX C24_ahead(int kind)
{
	for (size_t a = kind == 2 ? 8 : 0; a <= 40; a++) for (size_t b = kind == 2 ? 8 : 0; b <= 24; b++) {
		const auto taken = make_shared<size_t>(0);
		const auto r = countSource(kind, taken, 400)->read(a);
		size_t out = r.first.size();
		ctx_true("no more than a block is taken ahead", *taken <= out + 8);
		out += r.second->read(b).first.size();
		ctx_true("no more than a block is taken ahead by the next read", *taken <= out + 8);
	}
}
CASES(C24_ahead, 3)
// The heap an object holds does not grow with what passed through it.
template <class F> static void constant(size_t n, F f)
{
	f(size_t(3));
	const auto held = [&](size_t k, uint64_t &live, uint64_t &peak) {
		const uint64_t before = ctx_held();
		ctx_peak_reset();
		const auto keep = f(k);
		live = ctx_held() - before; peak = ctx_peak() - before;
	};
	uint64_t l1, p1, l2, p2;
	held(n, l1, p1); held(2 * n, l2, p2);
	ctx_note("bytes held after n blocks", int64_t(l1)); ctx_note("bytes held after 2n blocks", int64_t(l2));
	ctx_note("most bytes held during n blocks", int64_t(p1)); ctx_note("most bytes held during 2n blocks", int64_t(p2));
	ctx_true("the memory held does not grow with the number of blocks passed", l2 <= l1 + 128);
	ctx_true("the memory used does not grow with the number of blocks passed", p2 <= p1 + 128);
}
CTX C24_sink(int kind)
{
	constant(64, [&](size_t n) { auto s = sink(kind); for (size_t i = 0; i < n; i++) s = s->write(Bytes(8)); return s; });
	if (kind < 2) constant(64, [&](size_t n) { auto s = sink(kind); for (size_t i = 0; i < n; i++) s = s->write(Bytes(5)); return s; });
}
CASES(C24_sink, 3)
CTX C24_source(int kind)
{
	constant(64, [&](size_t n) { auto s = source(kind, 8 * n + 8); for (size_t i = 0; i < n; i++) s = s->read(8).second; return s; });
	if (kind < 2) constant(64, [&](size_t n) { auto s = source(kind, 8 * n + 8); for (size_t i = 0; i < n; i++) s = s->read(5).second; return s; });
}
CASES(C24_source, 3)
CTX C24_magma_imit(int i)
{
	const auto key = magmaKey();
	constant(64, [&](size_t n) { const auto r = make_shared<m::Imit>(make_shared<ZeroSource>(8 * n + (i ? 3 : 0)), key); r->value(); return r; });
}
CASES(C24_magma_imit, 2)
CTX C24_kuz_imit(int i)
{
	const auto key = kuzKey();
	constant(16, [&](size_t n) {
		const shared_ptr<const k::Stream> zero = make_shared<ZeroStream>(n);
		const auto r = make_shared<k::Imit>(i ? make_shared<k::StCTREncrypted>(zero, key, 7) : zero, key);
		r->value(); return r;
	});
}
CASES(C24_kuz_imit, 2)
CTX C24_stream(int values)
{
	const auto key = kuzKey();
	constant(values ? 16 : 128, [&](size_t n) { auto it = make_shared<k::StCTREncrypted>(make_shared<ZeroStream>(n + 1), key, 7)->iter(); for (size_t i = 0; i < n; i++) { if (values) it->value(); it = it->next(); } return it; });
}
CASES(C24_stream, 2)

// ---------------------------------------------------------------- C25
// Collaborators that must not be touched before the first operation.
static bool armed = false;
static void touched(const char *what) { if (armed) ctx_fail(what); }
struct IdleKeyData final : m::KeyData { uint32_t key(int i) const override { touched("key data is asked while an object is built"); return thinWord(i); } };
struct IdleKey final : m::Key { uint32_t transform(uint32_t v, int i) const override { touched("a key is used while an object is built"); return cheapRound(v, i); } };
struct IdleSbox final : m::Sbox { uint32_t transform(uint32_t v) const override { touched("a substitution is used while an object is built"); return cheapRound(v, 0); } };
struct IdleBlk final : m::Block { U32 value() const override { touched("a block is evaluated while an object is built"); return {1, 2}; } };
struct IdleBlk128 final : k::Block { U64 value() const override { touched("a block is evaluated while an object is built"); return {1, 2}; } };
struct IdleSink final : Sink {
	shared_ptr<const Sink> write(const Bytes &) const override { touched("a sink is written while an object is built"); return make_shared<IdleSink>(); }
	shared_ptr<const Sink> finalize() const override { touched("a sink is finalized while an object is built"); return make_shared<IdleSink>(); }
};
struct IdleSource final : Source {
	pair<Bytes, shared_ptr<const Source>> read(size_t) const override { touched("a source is read while an object is built"); return {Bytes(), make_shared<IdleSource>()}; }
};
struct IdleIter final : k::Iterator {
	U64 value() const override { touched("a stream is evaluated while an object is built"); return {1, 2}; }
	bool last() const override { touched("a stream is examined while an object is built"); return true; }
	size_t size() const override { touched("a stream is examined while an object is built"); return 16; }
	shared_ptr<const Iterator> next() const override { touched("a stream is advanced while an object is built"); return {}; }
};
struct IdleStream final : k::Stream { shared_ptr<const k::Iterator> iter() const override { touched("a stream is iterated while an object is built"); return make_shared<IdleIter>(); } };

// build, then use once: the collaborators are reached then
template <class B, class U> static void lazy(const char *what, B build, U use)
{
	armed = true;
	const auto o = build();
	armed = false;
	ctx_pass(what);
	use(*o);
}
CTX C25_magma()
{
	const auto key = make_shared<IdleKey>();
	const auto blk = make_shared<IdleBlk>();
	const auto val = [](const m::Block &b) { b.value(); };
	lazy("encrypted block", [&] { return make_shared<m::BlkEncrypted>(blk, key); }, val);
	lazy("decrypted block", [&] { return make_shared<m::BlkDecrypted>(blk, key); }, val);
	lazy("forward rounds", [&] { return make_shared<m::BlkForwarded>(blk, key); }, val);
	lazy("backward rounds", [&] { return make_shared<m::BlkBackwarded>(blk, key); }, val);
	lazy("swapped block", [&] { return make_shared<m::BlkSwapped>(blk); }, val);
	lazy("shifted block", [&] { return make_shared<m::BlkShifted>(blk, 3); }, val);
	lazy("xored blocks", [&] { return make_shared<m::BlkXored>(blk, blk); }, val);
	lazy("several xored blocks", [&] { return make_shared<m::BlkXored>(blk, blk, blk, blk); }, val);
	lazy("integer route", [&] { return make_shared<m::EncryptionBase>(key); }, [](const m::EncryptionBase &e) { e.transform(7); });
}
CTX C25_keys()
{
	lazy("caching wrapper", [] { return make_shared<m::KeyCachedData>(make_unique<IdleKeyData>()); }, [](const m::KeyData &d) { d.key(1); });
	lazy("key", [] { return make_shared<m::LazyKey>(make_unique<IdleKeyData>(), make_shared<IdleSbox>()); }, [](const m::Key &k) { k.transform(1, 1); });
}
static void sinkUse(const Sink &s) { s.write(Bytes(8))->finalize(); }
static void sourceUse(const Source &s) { s.read(8); }
CTX C25_modes()
{
	const auto key = make_shared<IdleKey>();
	const auto sink = make_shared<IdleSink>(); const auto source = make_shared<IdleSource>();
	const auto lazyKey = make_shared<m::LazyKey>(make_unique<IdleKeyData>(), make_shared<IdleSbox>());
	const Bytes held(3);
	lazy("CFB sink", [&] { return make_shared<m::CFBSink>(sink, key, 1, 2); }, sinkUse);
	lazy("CFB sink with a past", [&] { return make_shared<m::CFBSink>(sink, key, 1, 2, held); }, sinkUse);
	lazy("CFB sink of the old standard", [&] { return make_shared<g::CFBSink>(sink, key, 1); }, sinkUse);
	lazy("CFB sink of the old standard with a past", [&] { return make_shared<g::CFBSink>(sink, key, 1, held); }, sinkUse);
	lazy("CFB source", [&] { return make_shared<m::CFBSource>(source, key, 1, 2); }, sourceUse);
	lazy("CFB source with a past", [&] { return make_shared<m::CFBSource>(source, key, 1, 2, held); }, sourceUse);
	lazy("CFB source of the old standard", [&] { return make_shared<g::CFBSource>(source, key, 1); }, sourceUse);
	lazy("CFB source of the old standard with a past", [&] { return make_shared<g::CFBSource>(source, key, 1, held); }, sourceUse);
	lazy("ECB sink", [&] { return make_shared<m::ECBSink>(sink, key); }, sinkUse);
	lazy("ECB source", [&] { return make_shared<m::ECBSource>(source, key); }, sourceUse);
	lazy("Magma MAC", [&] { return make_shared<m::Imit>(source, lazyKey); }, [](const m::Block &b) { b.value(); });
	lazy("MAC of the old standard", [&] { return make_shared<g::DataImit>(vector<uint8_t>(21), lazyKey); }, [](const g::DataImit &b) { b.value(); });
}
CTX C25_kuznyechik()
{
	const auto blk = make_shared<IdleBlk128>();
	const auto key = kuzKey();
	const auto stream = make_shared<IdleStream>();
	const auto val = [](const k::Block &b) { b.value(); };
	lazy("encrypted block", [&] { return make_shared<k::BlkEncrypted>(blk, key); }, val);
	lazy("result of a key", [&] { return shared_ptr<const k::Block>(key->encrypt(blk)); }, val);
	lazy("cached block", [&] { return make_shared<k::BlkCached>(blk); }, val);
	lazy("incremented block", [&] { return make_shared<k::BlkIncremented>(blk); }, val);
	lazy("linear map", [&] { return make_shared<k::BlkL>(blk); }, val);
	lazy("linear step", [&] { return make_shared<k::BlkR>(blk); }, val);
	lazy("substituted block", [&] { return make_shared<k::BlkS>(blk); }, val);
	lazy("shifted block", [&] { return make_shared<k::BlkShifted>(blk, 9); }, val);
	lazy("xored blocks", [&] { return make_shared<k::BlkXored>(blk, blk); }, val);
	lazy("several xored blocks", [&] { return make_shared<k::BlkXored>(blk, blk, blk, blk); }, val);
	lazy("schedule key", [&] { return make_shared<k::BlkIterKey>(blk, blk, 1, 8); }, val);
	lazy("Kuznyechik MAC", [&] { return make_shared<k::Imit>(stream, key); }, val);
	lazy("CTR stream", [&] { return make_shared<k::StCTREncrypted>(stream, key, 1); }, [](const k::Stream &s) { s.iter()->value(); });
}
}
