// Failures of collaborators: at every call of one, then everything once more.
#include "ctx.h"
#include <functional>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxTwisted.h>
inline namespace in_C19 {
using namespace std;
namespace g = goost::gost89;
using goost::Sink; using goost::Source;

// what a collaborator throws: three unrelated types
struct Failure { int id; };
struct Odd : logic_error { int id; explicit Odd(int id) : logic_error("odd"), id(id) {} };
struct Fault {
	int at = -1, seen = 0, kind = 0; bool fired = false;
	void call()
	{
		if (seen++ != at) return;
		fired = true;
		if (kind == 0) throw Failure{at};
		if (kind == 1) throw Odd(at);
		throw at;
	}
};
typedef function<Bytes()> Op;
static Bytes of(U32 v) { Bytes b(8); memcpy(b.data(), &v, 8); return b; }
static Bytes of(U64 v) { Bytes b(16); memcpy(b.data(), &v, 16); return b; }
static Bytes of(uint64_t v) { Bytes b(8); memcpy(b.data(), &v, 8); return b; }
static Bytes cat(Bytes a, const Bytes &b) { for (auto x : b) a.push_back(x); return a; }

// did f throw what the fault says?
template <class F> static bool thrown(const Fault &fault, F f)
{
	bool same = false, any = true;
	try { f(); any = false; }
	catch (const Failure &e) { same = fault.kind == 0 && e.id == fault.at; }
	catch (const Odd &e) { same = fault.kind == 1 && e.id == fault.at; }
	catch (int e) { same = fault.kind == 2 && e == fault.at; }
	catch (...) {}
	ctx_true("the exception of the collaborator reaches the caller", any == fault.fired);
	if (any) ctx_true("and is the one that was thrown", same);
	return any;
}
// make builds the objects and returns the operation; part is one of parts of the calls
template <class Make> static void faulty(Make make, int part = 0, int parts = 1, int dense = 24)
{
	Bytes want; int total;
	{ Fault f; const Op op = make(f); want = op(); total = f.seen; }
	ctx_note("calls of collaborators", total);
	ctx_true("collaborators are called", total > 0);
	const int step = total > 3 * dense ? total / dense : 1;
	int n = 0;
	for (int k = 0; k < total; k++) {
		// all of few calls; of many the first, the last and some between
		if (step > 1 && k > 8 && k < total - 8 && k % step) continue;
		if (n++ % parts != part) continue;
		const uint64_t mark = ctx_mark();
		{
			Fault f; f.at = k; f.kind = n % 3;
			Op op;
			const bool early = thrown(f, [&] { op = make(f); });
			if (!early) {
				thrown(f, [&] { op(); });
				f.at = -1;
				eqBytes("repeated after the failure", op(), want);
				eqBytes("and again", op(), want);
			} else {
				f.at = -1;
				eqBytes("built and used after the failure", make(f)(), want);
			}
		}
		ctx_no_leak("nothing is left behind", mark);
		// given up after the failure
		{
			Fault f; f.at = k; f.kind = n % 3;
			try { make(f)(); } catch (...) {}
		}
		ctx_no_leak("nothing is left behind when given up", mark);
		// twice in a row, then it works
		{
			Fault f; f.at = k; f.kind = n % 3;
			Op op;
			bool early = false;
			try { op = make(f); } catch (...) { early = true; }
			if (!early) {
				const int before = f.seen;
				try { op(); } catch (...) {}
				f.at = f.seen + (k - before) / 2; f.fired = false;
				thrown(f, [&] { op(); });
				f.at = -1;
				eqBytes("repeated after two failures", op(), want);
			}
		}
		ctx_no_leak("nothing is left behind by two failures", mark);
	}
}

// ---------------------------------------------------------------- Magma
struct BadKey final : m::Key {
	Fault &f; explicit BadKey(Fault &f) : f(f) {}
	uint32_t transform(uint32_t v, int i) const override { f.call(); return (v ^ uint32_t(i)) * 3 + 1; }
};
struct BadKeyData final : m::KeyData {
	Fault &f; explicit BadKeyData(Fault &f) : f(f) {}
	uint32_t key(int i) const override { f.call(); if (i < 0 || i > 7) throw out_of_range("i"); return thinWord(i) + uint32_t(i); }
};
struct BadSbox final : m::Sbox {
	Fault &f; explicit BadSbox(Fault &f) : f(f) {}
	uint32_t transform(uint32_t v) const override { f.call(); return v ^ (v << 7) ^ 0x5a5a5a5au; }
};
struct BadTab final : m::SboxByte::Tab {
	Fault &f; explicit BadTab(Fault &f) : f(f) {}
	uint32_t translate(int i) const override { f.call(); return uint32_t(i ^ 0x55) & 255; }
};
struct BadBlk final : m::Block {
	Fault &f; uint32_t a, b; BadBlk(Fault &f, uint32_t a, uint32_t b) : f(f), a(a), b(b) {}
	U32 value() const override { f.call(); return {a, b}; }
};
struct BadSink final : Sink {
	Fault &f; Bytes data; BadSink(Fault &f, const Bytes &d = {}) : f(f), data(d) {}
	shared_ptr<const Sink> write(const Bytes &d) const override { f.call(); return make_shared<BadSink>(f, cat(data, d)); }
	shared_ptr<const Sink> finalize() const override { f.call(); return make_shared<BadSink>(f, data); }
};
static Bytes received(const shared_ptr<const Sink> &s)
{
	auto r = dynamic_pointer_cast<const BadSink>(s);
	if (!r) { ctx_fail("the underlying sink comes back"); return {}; }
	return r->data;
}
struct BadSource final : Source {
	Fault &f; Bytes data; size_t pos; BadSource(Fault &f, const Bytes &d, size_t pos = 0) : f(f), data(d), pos(pos) {}
	pair<Bytes, shared_ptr<const Source>> read(size_t n) const override
	{
		f.call();
		const size_t k = data.size() - pos < n ? data.size() - pos : n;
		return {Bytes(data.begin() + pos, data.begin() + pos + k), make_shared<BadSource>(f, data, pos + k)};
	}
};
static Bytes numbers(size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = byte(i * 37 + 11); return b; }
CTX C19_magma_block(int i)
{
	faulty([=](Fault &f) -> Op {
		const auto key = make_shared<BadKey>(f); const auto b = make_shared<BadBlk>(f, 1, 2), c = make_shared<BadBlk>(f, 3, 4);
		shared_ptr<const m::Block> x;
		switch (i) {
		case 0: x = make_shared<m::BlkEncrypted>(b, key); break;
		case 1: x = make_shared<m::BlkDecrypted>(b, key); break;
		case 2: x = make_shared<m::BlkForwarded>(b, key); break;
		case 3: x = make_shared<m::BlkBackwarded>(b, key); break;
		case 4: x = make_shared<m::BlkXored>(b, c); break;
		case 5: x = make_shared<m::BlkShifted>(b, 3); break;
		case 6: x = make_shared<m::BlkSwapped>(b); break;
		default: x = make_shared<m::BlkRaw>(b); break;
		}
		return [x] { return of(x->value()); };
	});
}
CASES(C19_magma_block, 8)
CTX C19_magma_keydata(int first)
{
	// a cache over failing key data: filled from any word first
	faulty([=](Fault &f) -> Op {
		const auto d = make_shared<m::KeyCachedData>(make_unique<BadKeyData>(f));
		return [d, first] { Bytes r; for (int i = 0; i < 8; i++) r = cat(r, of(uint64_t(d->key((i + first) % 8)))); return r; };
	});
}
CASES(C19_magma_keydata, 8)
CTX C19_magma_keydata_other()
{
	// a failure while one word is wanted, then another word first
	for (int at = 0; at < 9; at++) for (int i = 0; i < 8; i++) {
		Fault f; f.at = at;
		const m::KeyCachedData d(make_unique<BadKeyData>(f));
		try { d.key(i); } catch (const Failure &) {}
		f.at = -1;
		Fault g; const BadKeyData want(g);
		for (int j = 8; j-- > 0;) eqw("words after a failure", d.key(j), want.key(j));
	}
}
CTX C19_magma_key(int i)
{
	faulty([=](Fault &f) -> Op {
		unique_ptr<const m::KeyData> d = make_unique<BadKeyData>(f);
		if (i) d = make_unique<m::KeyCachedData>(move(d));
		const auto x = make_shared<m::LazyKey>(move(d), make_shared<BadSbox>(f));
		return [x] { Bytes r; for (int j = 0; j < 8; j++) r = cat(r, of(uint64_t(x->transform(uint32_t(5 * j), 7 - j)))); return r; };
	});
}
CASES(C19_magma_key, 2)
CTX C19_magma_sbox(int i)
{
	faulty([=](Fault &f) -> Op {
		shared_ptr<const m::Sbox> x;
		if (i == 0) x = make_shared<m::SboxByte>(make_unique<BadTab>(f), make_unique<BadTab>(f), make_unique<BadTab>(f), make_unique<BadTab>(f));
		else x = make_shared<m::SboxTwisted>(make_unique<BadSbox>(f));
		return [x] { return of(uint64_t(x->transform(0x12345678))); };
	});
}
CASES(C19_magma_sbox, 2)
CTX C19_magma_integer()
{
	faulty([=](Fault &f) -> Op { const auto x = make_shared<m::EncryptionBase>(make_shared<BadKey>(f)); return [x] { return of(x->transform(77)); }; });
}
static shared_ptr<const m::LazyKey> badLazy(Fault &f, bool cached)
{
	unique_ptr<const m::KeyData> d = make_unique<BadKeyData>(f);
	if (cached) d = make_unique<m::KeyCachedData>(move(d));
	return make_shared<m::LazyKey>(move(d), make_shared<BadSbox>(f));
}
CTX C19_magma_mac(int cs)
{
	const int part = cs / 3, i = cs % 3;
	faulty([=](Fault &f) -> Op {
		const auto x = make_shared<m::Imit>(make_shared<BadSource>(f, numbers(i == 0 ? 5 : i == 1 ? 8 : 19)), badLazy(f, i > 1));
		return [x] { return of(x->value()); };
	}, part, 2);
}
CASES(C19_magma_mac, 6)
CTX C19_gost89_mac(int i)
{
	faulty([=](Fault &f) -> Op {
		const auto key = badLazy(f, i % 2);
		if (i < 2) { const auto x = make_shared<g::ImitedBlock>(m::BlkRaw(1u, 2u), key); return [x] { return of(x->value().value()); }; }
		const auto x = make_shared<g::DataImit>(vector<uint8_t>(size_t(5 * i)), key);
		return [x] { const auto v = x->value(); Bytes b(v.size()); memcpy(b.data(), v.data(), v.size()); return b; };
	});
}
CASES(C19_gost89_mac, 4)
CTX C19_sink(int kind)
{
	faulty([=](Fault &f) -> Op {
		const auto under = make_shared<BadSink>(f); const auto key = make_shared<BadKey>(f);
		shared_ptr<const Sink> x;
		switch (kind) {
		case 0: x = make_shared<m::CFBSink>(under, key, 1, 2, numbers(3)); break;
		case 1: x = make_shared<g::CFBSink>(under, key, 1, numbers(3)); break;
		default: x = make_shared<m::ECBSink>(under, key); break;
		}
		return [x, kind] { return received(x->write(numbers(kind < 2 ? 7 : 8))->write(numbers(kind < 2 ? 11 : 16))->finalize()); };
	});
}
CASES(C19_sink, 3)
CTX C19_source(int kind)
{
	faulty([=](Fault &f) -> Op {
		const auto under = make_shared<BadSource>(f, numbers(kind < 2 ? 21 : 24)); const auto key = make_shared<BadKey>(f);
		shared_ptr<const Source> x;
		switch (kind) {
		case 0: x = make_shared<m::CFBSource>(under, key, 1, 2, numbers(3)); break;
		case 1: x = make_shared<g::CFBSource>(under, key, 1, numbers(3)); break;
		default: x = make_shared<m::ECBSource>(under, key); break;
		}
		return [x, kind] { const auto a = x->read(kind < 2 ? 7 : 8); const auto b = a.second->read(kind < 2 ? 9 : 8); return cat(cat(a.first, b.first), b.second->read(50).first); };
	});
}
CASES(C19_source, 3)
struct BadBox final : m::Container {
	Fault &f; explicit BadBox(Fault &f) : f(f) {}
	Bytes key() const override { f.call(); return Bytes(32); }
	Bytes mask() const override { f.call(); return Bytes(32); }
	Bytes sbox() const override { f.call(); Bytes b(64); for (int i = 0; i < 64; i++) b[i] = byte(i * 29 + 3); return b; }
};
CTX C19_container()
{
	faulty([=](Fault &f) -> Op {
		const auto x = make_shared<m::ECBSource>(make_shared<BadSource>(f, numbers(16)), make_shared<BadBox>(f));
		return [x] { const auto a = x->read(8); return cat(a.first, a.second->read(8).first); };
	});
}

// ---------------------------------------------------------------- Kuznyechik
struct BadBlk128 final : k::Block {
	Fault &f; uint64_t a, b; BadBlk128(Fault &f, uint64_t a, uint64_t b) : f(f), a(a), b(b) {}
	U64 value() const override { f.call(); return {a, b}; }
};
struct BadHalves final : k::Key::Data {
	Fault &f; explicit BadHalves(Fault &f) : f(f) {}
	shared_ptr<const k::Block> low() const override { f.call(); return make_shared<BadBlk128>(f, 1, 2); }
	shared_ptr<const k::Block> high() const override { f.call(); return make_shared<BadBlk128>(f, 3, 4); }
};
struct BadIter final : k::Iterator {
	Fault &f; size_t n; BadIter(Fault &f, size_t n) : f(f), n(n) {}
	U64 value() const override { f.call(); return {n, 7}; }
	bool last() const override { f.call(); return n == 1; }
	size_t size() const override { f.call(); return n == 1 ? 5 : 16; }
	shared_ptr<const Iterator> next() const override { f.call(); if (n == 1) return {}; return make_shared<BadIter>(f, n - 1); }
};
struct BadStream final : k::Stream {
	Fault &f; size_t n; BadStream(Fault &f, size_t n) : f(f), n(n) {}
	shared_ptr<const k::Iterator> iter() const override { f.call(); return make_shared<BadIter>(f, n); }
};
CTX C19_kuz_block(int i)
{
	faulty([=](Fault &f) -> Op {
		const auto b = make_shared<BadBlk128>(f, 1, 2), c = make_shared<BadBlk128>(f, 3, 4);
		shared_ptr<const k::Block> x;
		switch (i) {
		case 0: x = make_shared<k::BlkXored>(b, c); break;
		case 1: x = make_shared<k::BlkShifted>(b, 1); break;
		case 2: x = make_shared<k::BlkIncremented>(b); break;
		case 3: x = make_shared<k::BlkS>(b); break;
		case 4: x = make_shared<k::BlkR>(b); break;
		case 5: x = make_shared<k::BlkL>(b); break;
		case 6: x = make_shared<k::BlkCached>(b); break;
		case 7: x = make_shared<k::BlkRaw>(b); break;
		default: x = make_shared<k::BlkIterKey>(b, c, 1, 2); break;
		}
		return [x] { return of(x->value()); };
	}, 0, 1, i == 8 ? 4 : 24);
}
CASES(C19_kuz_block, 9)
CTX C19_kuz_key(int part)
{
	faulty([=](Fault &f) -> Op {
		const auto x = make_shared<k::Key>(make_shared<BadHalves>(f)); const auto b = make_shared<BadBlk128>(f, 5, 6);
		return [x, b] { return of(x->encrypt(b)->value()); };
	}, part, 8, ctx_thorough() ? 24 : 4);
}
CASES(C19_kuz_key, 8)
static shared_ptr<const k::Key> kuzKey()
{
	const auto key = make_shared<k::Key>(make_shared<KeyHalves>(U64{1, 2}, U64{3, 4}));
	key->encrypt(make_shared<AnyBlk128>(0, 0))->value();
	return key;
}
CTX C19_kuz_mac(int part)
{
	const auto key = kuzKey();
	faulty([=](Fault &f) -> Op { const auto x = make_shared<k::Imit>(make_shared<BadStream>(f, 3), key); return [x] { return of(x->value()); }; }, part, 4);
}
CASES(C19_kuz_mac, 4)
CTX C19_kuz_ctr(int part)
{
	const auto key = kuzKey();
	faulty([=](Fault &f) -> Op {
		const auto x = make_shared<k::StCTREncrypted>(make_shared<BadStream>(f, 3), key, 9);
		return [x] { Bytes r; auto it = x->iter(); while (true) { r = cat(r, of(it->value())); r.push_back(byte(it->size())); if (it->last()) break; it = it->next(); } return r; };
	}, part, 4);
}
CASES(C19_kuz_ctr, 4)
CTX C19_kuz_iterator()
{
	// one iterator, everything it can do, its underlying iterator failing
	const auto key = kuzKey();
	faulty([=](Fault &f) -> Op {
		const auto it = make_shared<k::StCTREncrypted>(make_shared<BadStream>(f, 2), key, 9)->iter();
		return [it] { Bytes r = of(it->value()); r.push_back(byte(it->size())); r.push_back(byte(it->last())); return cat(r, of(it->next()->value())); };
	});
}
}
