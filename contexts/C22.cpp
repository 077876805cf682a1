// Objects keep what they need alive, and no longer than needed.
#include "ctx.h"
#include <functional>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxByte64Tab.h>
#include <goost/magma/SboxTwisted.h>
inline namespace in_C22 {
using namespace std;
namespace g = goost::gost89;
using goost::Sink; using goost::Source;

typedef function<Bytes()> Op;
typedef vector<shared_ptr<const void>> Handles;
static Bytes of(U32 v) { Bytes b(8); memcpy(b.data(), &v, 8); return b; }
static Bytes of(U64 v) { Bytes b(16); memcpy(b.data(), &v, 16); return b; }
static Bytes of(uint64_t v) { Bytes b(8); memcpy(b.data(), &v, 8); return b; }
static Bytes cat(Bytes a, const Bytes &b) { for (auto x : b) a.push_back(x); return a; }
template <class T, class... A> static shared_ptr<T> mk(Handles &h, A &&...a) { auto p = make_shared<T>(forward<A>(a)...); h.push_back(p); return p; }

// make puts every handle it creates in a list and returns an operation that holds
// one object only.  The operation is used with all the handles alive; with the
// handles released before, in either order, or one after the other between uses.
// In the end nothing remains.
template <class Make> static void held(Make make)
{
	Bytes want;
	{ Handles h; const Op op = make(h); want = op(); }
	const uint64_t mark = ctx_mark();
	{
		Handles h; const Op op = make(h);
		while (!h.empty()) h.pop_back();
		eqBytes("after releasing the other handles", op(), want);
		eqBytes("again", op(), want);
	}
	ctx_no_leak("everything is released with the last handle", mark);
	{
		Handles h; const Op op = make(h);
		while (!h.empty()) h.erase(h.begin());
		eqBytes("after releasing the other handles from the first", op(), want);
	}
	ctx_no_leak("everything is released with the last handle, first to last", mark);
	{
		Handles h; const Op op = make(h);
		while (!h.empty()) { eqBytes("between releases", op(), want); h.pop_back(); }
		eqBytes("after releasing everything", op(), want);
	}
	ctx_no_leak("everything is released after use", mark);
	{
		Handles h; { const Op op = make(h); }
		// the object goes first, its parts later
		while (!h.empty()) h.pop_back();
	}
	ctx_no_leak("nothing is kept by an object that is gone", mark);
}

// ---------------------------------------------------------------- Magma
static shared_ptr<const m::LazyKey> lazy(Handles &h, int i = 0)
{
	const auto sbox = mk<AnySbox>(h);
	switch (i) {
	case 0: return mk<m::LazyKey>(h, make_unique<ThinKeyData>(), sbox);
	case 1: return mk<m::LazyKey>(h, string("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff"), sbox);
	case 2: return mk<m::LazyKey>(h, vector<uint32_t>{1, 2, 3, 4, 5, 6, 7, 8}, sbox);
	default: return mk<m::LazyKey>(h, make_unique<m::KeyCachedData>(make_unique<m::KeyDataString>("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff")), sbox);
	}
}
CTX C22_magma_block(int i)
{
	held([=](Handles &h) -> Op {
		const auto key = mk<AnyKey>(h);
		const auto b = mk<AnyBlk>(h, in32("a"), in32("b")), c = mk<AnyBlk>(h, in32("c"), in32("d"));
		shared_ptr<const m::Block> x;
		switch (i) {
		case 0: x = make_shared<m::BlkEncrypted>(b, key); break;
		case 1: x = make_shared<m::BlkDecrypted>(b, key); break;
		case 2: x = make_shared<m::BlkForwarded>(b, key); break;
		case 3: x = make_shared<m::BlkBackwarded>(b, key); break;
		case 4: x = make_shared<m::BlkXored>(b, c); break;
		case 5: x = make_shared<m::BlkShifted>(b, 3); break;
		case 6: x = make_shared<m::BlkSwapped>(b); break;
		case 7: x = make_shared<m::BlkRaw>(b); break;
		default: x = make_shared<m::BlkXored>(mk<m::BlkEncrypted>(h, mk<m::BlkSwapped>(h, b), key), mk<m::BlkShifted>(h, mk<m::BlkDecrypted>(h, c, key), 1)); break;
		}
		return [x] { return of(x->value()); };
	});
}
CASES(C22_magma_block, 9)
CTX C22_magma_key(int i)
{
	held([=](Handles &h) -> Op { const shared_ptr<const m::Key> x = lazy(h, i); h.clear(); lazy(h, i); return [x] { return of(uint64_t(x->transform(1, 2))); }; });
	held([=](Handles &h) -> Op { const auto x = make_shared<m::EncryptionBase>(lazy(h, i)); return [x] { return of(x->transform(3)); }; });
}
CASES(C22_magma_key, 4)
CTX C22_magma_sbox()
{
	vector<uint8_t> t(64); ctx_in("table", t.data(), 64);
	held([&](Handles &h) -> Op {
		// tables live as long as the substitution
		auto copy = mk<vector<uint8_t>>(h, t);
		const auto x = make_shared<m::SboxTwisted>(make_unique<m::SboxByte>(*copy));
		return [x] { return of(uint64_t(x->transform(0x12345678))); };
	});
	held([&](Handles &h) -> Op {
		auto copy = mk<vector<uint8_t>>(h, t);
		const auto x = make_shared<m::SboxByte>(make_unique<m::SboxByte64Tab>(*copy, 0), make_unique<m::SboxByte64Tab>(*copy, 1), make_unique<m::SboxByte64Tab>(*copy, 2), make_unique<m::SboxByte64Tab>(*copy, 3));
		return [x] { return of(uint64_t(x->transform(0x12345678))); };
	});
}
CTX C22_magma_mac(int i)
{
	held([=](Handles &h) -> Op { const auto x = make_shared<m::Imit>(mk<MemSource>(h, inBytes("data", size_t(i * 5))), lazy(h, i % 4)); return [x] { return of(x->value()); }; });
	held([=](Handles &h) -> Op {
		auto d = mk<vector<uint8_t>>(h, size_t(i * 5)); if (i) ctx_in("data", d->data(), d->size());
		const auto x = make_shared<g::DataImit>(*d, lazy(h, i % 4)); return [x] { const auto v = x->value(); Bytes b(v.size()); memcpy(b.data(), v.data(), v.size()); return b; };
	});
	held([=](Handles &h) -> Op { const auto x = make_shared<g::ImitedBlock>(*mk<m::BlkRaw>(h, in32("a"), in32("b")), lazy(h, i % 4)); return [x] { return of(x->value().value()); }; });
}
CASES(C22_magma_mac, 5)
struct Box final : m::Container {
	Bytes k, t;
	Box() : k(inBytes("ck", 32)), t(inBytes("ct", 64)) {}
	Bytes key() const override { return k; }
	Bytes mask() const override { return Bytes(32); }
	Bytes sbox() const override { return t; }
};
static shared_ptr<const Sink> sinkOf(Handles &h, int kind)
{
	const auto under = mk<RecSink>(h); const auto key = mk<AnyKey>(h); const auto plain = mk<Bytes>(h, 3);
	switch (kind) {
	case 0: return mk<m::CFBSink>(h, under, key, in64("r0"), in64("r1"));
	case 1: return mk<g::CFBSink>(h, under, key, in64("r0"));
	case 2: return mk<m::CFBSink>(h, under, key, in64("r0"), in64("r1"), *plain);
	case 3: return mk<g::CFBSink>(h, under, key, in64("r0"), *plain);
	default: return mk<m::ECBSink>(h, under, key);
	}
}
static shared_ptr<const Source> sourceOf(Handles &h, int kind)
{
	const auto under = mk<MemSource>(h, inBytes("data", 24)); const auto key = mk<AnyKey>(h); const auto plain = mk<Bytes>(h, 3);
	switch (kind) {
	case 0: return mk<m::CFBSource>(h, under, key, in64("r0"), in64("r1"));
	case 1: return mk<g::CFBSource>(h, under, key, in64("r0"));
	case 2: return mk<m::CFBSource>(h, under, key, in64("r0"), in64("r1"), *plain);
	case 3: return mk<g::CFBSource>(h, under, key, in64("r0"), *plain);
	default: return mk<m::ECBSource>(h, under, key);
	}
}
CTX C22_sink(int kind)
{
	for (int depth = 0; depth < 4; depth++) held([=](Handles &h) -> Op {
		// the state after some writes, all the states before are released
		shared_ptr<const Sink> x = sinkOf(h, kind);
		const size_t n[] = {8, kind < 4 ? 5u : 16u, kind < 4 ? 11u : 8u};
		for (int i = 0; i < depth; i++) { h.push_back(x); x = x->write(*mk<Bytes>(h, inBytes(i == 0 ? "x" : i == 1 ? "y" : "z", n[i]))); }
		// the handle made by sinkOf is one of those to be released
		return [x, kind] { const auto y = x->write(inBytes("last", kind < 4 ? 7 : 8)); return recorded(y->finalize()); };
	});
}
CASES(C22_sink, 5)
CTX C22_source(int kind)
{
	for (int depth = 0; depth < 3; depth++) held([=](Handles &h) -> Op {
		shared_ptr<const Source> x = sourceOf(h, kind);
		for (int i = 0; i < depth; i++) { h.push_back(x); const auto r = x->read(kind < 4 ? 5 : 8); x = r.second; }
		return [x, kind] { const auto r = x->read(8); return cat(r.first, r.second->read(100).first); };
	});
}
CASES(C22_source, 5)
// a substitution known to the analyser: containers with unknown tables are expensive
CTX C22_container(int i)
{
	if (i == 0) held([](Handles &h) -> Op { const auto x = make_shared<m::ECBSource>(mk<MemSource>(h, Bytes(8)), mk<Box>(h)); return [x] { (void)x; return Bytes(1); }; });
	else held([](Handles &h) -> Op {
		struct Fixed final : m::Container {
			Bytes key() const override { return Bytes(32); }
			Bytes mask() const override { return Bytes(32); }
			Bytes sbox() const override { Bytes b(64); for (int i = 0; i < 64; i++) b[i] = byte(i * 29 + 3); return b; }
		};
		const auto x = make_shared<m::ECBSource>(mk<MemSource>(h, Bytes(16)), mk<Fixed>(h)); return [x] { const auto r = x->read(8); return cat(r.first, r.second->read(8).first); };
	});
}
CASES(C22_container, 2)

// ---------------------------------------------------------------- Kuznyechik
static shared_ptr<const k::Key> kuzKey(Handles &h) { return mk<k::Key>(h, mk<KeyHalves>(h, U64{1, 2}, U64{3, 4})); }
CTX C22_kuz_block(int i)
{
	held([=](Handles &h) -> Op {
		const auto b = mk<AnyBlk128>(h, in64("a"), in64("b")), c = mk<AnyBlk128>(h, in64("c"), in64("d"));
		shared_ptr<const k::Block> x;
		switch (i) {
		case 0: x = make_shared<k::BlkXored>(b, c); break;
		case 1: x = make_shared<k::BlkShifted>(b, 1); break;
		case 2: x = make_shared<k::BlkIncremented>(b); break;
		case 3: x = make_shared<k::BlkS>(b); break;
		case 4: x = make_shared<k::BlkR>(b); break;
		case 5: x = make_shared<k::BlkL>(b); break;
		case 6: x = make_shared<k::BlkCached>(b); break;
		case 7: x = make_shared<k::BlkRaw>(b); break;
		case 8: x = make_shared<k::BlkCached>(*mk<k::BlkCached>(h, b)); break;
		case 9: x = make_shared<k::BlkXored>(mk<k::BlkS>(h, mk<k::BlkR>(h, b)), mk<k::BlkCached>(h, mk<k::BlkShifted>(h, c, 1))); break;
		default: x = make_shared<k::BlkIterKey>(mk<AnyBlk128>(h, 1, 2), mk<AnyBlk128>(h, 3, 4), 1, 2); break;
		}
		return [x] { return of(x->value()); };
	});
}
CASES(C22_kuz_block, 11)
CTX C22_kuz_key(int i)
{
	held([=](Handles &h) -> Op {
		const auto b = mk<AnyBlk128>(h, 5, 6);
		if (i == 0) { const auto x = make_shared<k::Key>(mk<KeyHalves>(h, U64{1, 2}, U64{3, 4})); return [x] { return of(x->encrypt(make_shared<AnyBlk128>(5, 6))->value()); }; }
		if (i == 1) { const auto s = mk<string>(h, "8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef"); const auto x = make_shared<k::Key>(*s); return [x] { return of(x->encrypt(make_shared<AnyBlk128>(5, 6))->value()); }; }
		// the encrypted block survives its key and its argument
		if (i == 2) { const shared_ptr<const k::Block> x = kuzKey(h)->encrypt(b); return [x] { return of(x->value()); }; }
		if (i == 3) { const auto x = make_shared<k::BlkEncrypted>(b, kuzKey(h)); return [x] { return of(x->value()); }; }
		const auto s = mk<string>(h, "8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef"); const auto d = mk<k::KeyDataString>(h, *s);
		const auto x = i == 4 ? d->low() : d->high(); return [x] { return of(x->value()); };
	});
}
CASES(C22_kuz_key, 6)
static Bytes walk(shared_ptr<const k::Iterator> it)
{
	Bytes r;
	for (; it; it = it->next()) { r = cat(r, of(it->value())); r.push_back(byte(it->size())); r.push_back(byte(it->last())); }
	return r;
}
static shared_ptr<const k::Stream> streamOf(Handles &h, int kind, int n, const shared_ptr<const k::Key> &key = {})
{
	const auto w = mk<vector<uint64_t>>(h, size_t(n)); if (n) ctx_in("w", w->data(), 8 * w->size());
	const auto st = mk<k::StMemory>(h, *w);
	if (kind == 0) return st;
	return mk<k::StCTREncrypted>(h, st, key ? key : kuzKey(h), 9);
}
CTX C22_kuz_stream(int cs)
{
	const int kind = cs % 2, n = cs / 2;
	// longer streams: a key of which the round keys are known already
	Handles k; shared_ptr<const k::Key> key; if (n > 2 && kind) { key = kuzKey(k); key->encrypt(make_shared<AnyBlk128>(0, 0))->value(); }
	held([=](Handles &h) -> Op { const auto x = streamOf(h, kind, n, key); return [x] { return walk(x->iter()); }; });
	for (int ahead = 0; 2 * ahead < n || !ahead; ahead++) held([=](Handles &h) -> Op {
		shared_ptr<const k::Iterator> x = streamOf(h, kind, n, key)->iter();
		for (int i = 0; i < ahead; i++) { h.push_back(x); x = x->next(); }
		return [x] { return walk(x); };
	});
}
CASES(C22_kuz_stream, 12)
CTX C22_kuz_mac(int i)
{
	Handles k; shared_ptr<const k::Key> key; if (i % 2) { key = kuzKey(k); key->encrypt(make_shared<AnyBlk128>(0, 0))->value(); }
	held([=](Handles &h) -> Op { const auto x = make_shared<k::Imit>(streamOf(h, i % 2, 3 + i / 2, key), i == 1 ? key : kuzKey(h)); return [x] { return of(x->value()); }; });
}
CASES(C22_kuz_mac, 4)
}
