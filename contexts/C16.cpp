// Objects are values: repeated, interleaved and independent operations.
#include "ctx.h"
#include <functional>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxByte64Tab.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
inline namespace in_C16 {
using namespace std;
namespace g = goost::gost89;
using goost::Sink; using goost::Source;

typedef function<Bytes()> Op;
typedef vector<Op> Ops;
static Bytes of(U32 v) { Bytes b(8); memcpy(b.data(), &v, 8); return b; }
static Bytes of(U64 v) { Bytes b(16); memcpy(b.data(), &v, 16); return b; }
static Bytes of(uint64_t v) { Bytes b(8); memcpy(b.data(), &v, 8); return b; }
static Bytes cat(Bytes a, const Bytes &b) { for (auto x : b) a.push_back(x); return a; }
// Every operation has, on shared objects, before and after every other one, the
// outcome it has alone on objects of its own.
template <class Make> static void stable(Make make)
{
	vector<Bytes> want;
	for (size_t i = 0, n = make().size(); i < n; i++) want.push_back(make()[i]());
	const Ops ops = make();
	for (size_t i = 0; i < ops.size(); i++) eqBytes("outcome on shared objects", ops[i](), want[i]);
	for (size_t i = 0; i < ops.size(); i++) for (size_t j = 0; j < ops.size(); j++) {
		const Ops own = make();
		eqBytes("outcome of the first operation", own[i](), want[i]);
		eqBytes("outcome after another operation", own[j](), want[j]);
		eqBytes("outcome when repeated", own[i](), want[i]);
	}
	// the held objects once more after all that
	for (size_t i = ops.size(); i-- > 0;) eqBytes("outcome much later", ops[i](), want[i]);
}

// ---------------------------------------------------------------- Magma
struct OtherKeyData final : m::KeyData { uint32_t key(int i) const override { if (i < 0 || i > 7) throw out_of_range("i"); return ~thinWord(i); } };
static shared_ptr<const m::LazyKey> lazy(int which = 0)
{
	if (which) return make_shared<m::LazyKey>(make_unique<OtherKeyData>(), make_shared<AnySbox>());
	return make_shared<m::LazyKey>(make_unique<ThinKeyData>(), make_shared<AnySbox>());
}
static shared_ptr<const m::Block> magmaBlock(int i, const shared_ptr<const m::Block> &b, const shared_ptr<const m::Block> &c, const shared_ptr<const m::Key> &key)
{
	switch (i) {
	case 0: return make_shared<m::BlkEncrypted>(b, key);
	case 1: return make_shared<m::BlkDecrypted>(b, key);
	case 2: return make_shared<m::BlkForwarded>(b, key);
	case 3: return make_shared<m::BlkBackwarded>(b, key);
	case 4: return make_shared<m::BlkXored>(b, c);
	case 5: return make_shared<m::BlkShifted>(b, 1);
	case 6: return make_shared<m::BlkShifted>(b, 31);
	case 7: return make_shared<m::BlkSwapped>(b);
	case 8: return make_shared<m::BlkRaw>(b);
	case 9: return make_shared<m::BlkString>("0123456789abcdef");
	default: return b;
	}
}
CTX C16_magma_block(int i)
{
	// the same kind of block over two blocks and two keys, and over itself
	stable([&] {
		const auto b = anyBlk("a", "b"), c = anyBlk("c", "d");
		const auto key = make_shared<AnyKey>(1), other = make_shared<AnyKey>(2);
		const auto x = magmaBlock(i, b, c, key), y = magmaBlock(i, c, b, key), z = magmaBlock(i, b, c, other), t = magmaBlock(i, x, y, key);
		return Ops{[=] { return of(x->value()); }, [=] { return of(y->value()); }, [=] { return of(z->value()); }, [=] { return of(t->value()); }};
	});
}
CASES(C16_magma_block, 10)
CTX C16_magma_two(int i)
{
	// two keys, two blocks: what the standard says, in any order
	const auto b = anyBlk("a", "b"), c = anyBlk("c", "d");
	const auto k1 = make_shared<AnyKey>(1), k2 = make_shared<AnyKey>(2);
	const auto f1 = [](uint32_t v, int i) { return roundFn(v, i, 1); }; const auto f2 = [](uint32_t v, int i) { return roundFn(v, i, 2); };
	const shared_ptr<const m::Block> x[4] = {magmaBlock(i, b, c, k1), magmaBlock(i, c, b, k1), magmaBlock(i, b, c, k2), magmaBlock(i, c, b, k2)};
	for (int o = 0; o < 12; o++) {
		const int j = (o * 7 + o / 4) % 4;
		const U32 v = j % 2 ? c->value() : b->value();
		U32 want;
		if (i == 0) want = j < 2 ? stdEncrypt(v, f1) : stdEncrypt(v, f2); else want = j < 2 ? stdDecrypt(v, f1) : stdDecrypt(v, f2);
		eq32("blocks do not influence each other", x[j]->value(), want);
	}
}
CASES(C16_magma_two, 2)
CTX C16_magma_key(int i)
{
	// a key, its words in any order
	stable([&] {
		uint32_t w[8]; ctx_in("key", w, sizeof w);
		const string s = "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff";
		shared_ptr<const m::Key> key;
		switch (i) {
		case 0: key = make_shared<m::LazyKey>(s, make_shared<AnySbox>()); break;
		case 1: key = make_shared<m::LazyKey>(vector<uint32_t>(w, w + 8), make_shared<AnySbox>()); break;
		case 2: key = make_shared<m::LazyKey>(make_unique<m::KeyCachedData>(make_unique<ThinKeyData>()), make_shared<AnySbox>()); break;
		case 3: key = make_shared<m::LazyKey>(make_unique<m::KeyDataString>(s), make_shared<AnySbox>()); break;
		default: key = make_shared<m::LazyKey>(s); break;
		}
		Ops r; const uint32_t v = i == 4 ? 0x01234567u : in32("v") & 0xffu;
		for (int j : {0, 3, 7, 1}) r.push_back([=] { return of(uint64_t(key->transform(v, j))); });
		r.push_back([=] { return of(uint64_t(key->transform(v ^ 1, 3))); });
		return r;
	});
}
CASES(C16_magma_key, 5)
CTX C16_magma_keydata(int i)
{
	stable([&] {
		uint32_t w[8]; ctx_in("key", w, sizeof w);
		const string s = "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff", o = "00000000000000001111111111111111222222222222222233333333333333ab";
		shared_ptr<const m::KeyData> d, e;
		switch (i) {
		case 0: d = make_shared<m::KeyDataString>(s); e = make_shared<m::KeyDataString>(o); break;
		case 1: d = make_shared<m::KeyDataNative>(vector<uint32_t>(w, w + 8)); e = make_shared<m::KeyDataNative>(vector<uint32_t>(w + 4, w + 8)); break;
		case 2: d = make_shared<m::KeyCachedData>(make_unique<m::KeyDataString>(s)); e = make_shared<m::KeyCachedData>(make_unique<m::KeyDataString>(o)); break;
		default: d = make_shared<m::KeyCachedData>(make_unique<m::KeyDataNative>(vector<uint32_t>(w, w + 8))); e = make_shared<m::KeyCachedData>(make_unique<m::KeyDataString>(o)); break;
		}
		Ops r;
		for (int j : {0, 7, 2}) { r.push_back([=] { return of(uint64_t(d->key(j))); }); r.push_back([=] { return of(uint64_t(e->key(j % 4))); }); }
		return r;
	});
}
CASES(C16_magma_keydata, 4)
CTX C16_magma_words(int i)
{
	// two sets of key data side by side: their own words
	uint32_t w[8], u[8]; ctx_in("key", w, sizeof w); ctx_in("other", u, sizeof u);
	unique_ptr<const m::KeyData> d = make_unique<m::KeyDataNative>(vector<uint32_t>(w, w + 8)), e = make_unique<m::KeyDataNative>(vector<uint32_t>(u, u + 8));
	if (i) { d = make_unique<m::KeyCachedData>(move(d)); e = make_unique<m::KeyCachedData>(move(e)); }
	for (int again = 0; again < 2; again++) for (int j = 0; j < 8; j++) {
		eqw("word of one key", d->key(j), w[j]);
		eqw("word of another key", e->key(7 - j), u[7 - j]);
	}
}
CASES(C16_magma_words, 2)
CTX C16_magma_sbox(int i)
{
	stable([&] {
		uint8_t t[64]; ctx_in("table", t, sizeof t);
		const vector<uint8_t> v(t, t + 64);
		shared_ptr<const m::Sbox> s, o;
		vector<int> p, q; for (int j = 0; j < 16; j++) { p.push_back(t[j] & 15); q.push_back(t[j + 16] & 15); }
		switch (i) {
		case 0: s = make_shared<m::SboxR3412>(); o = make_shared<m::SboxR3412>(); break;
		case 1: s = make_shared<m::SboxByte>(v); { vector<uint8_t> x(v); for (auto &y : x) y ^= 0x33; o = make_shared<m::SboxByte>(x); } break;
		case 2: s = make_shared<m::SboxTwisted>(make_unique<m::SboxByte>(v)); o = make_shared<m::SboxTwisted>(make_unique<m::SboxR3412>()); break;
		default: s = make_shared<m::SboxNibble>(p, q, p, q, p, q, q, q); o = make_shared<m::SboxNibble>(q, q, q, q, q, p, p, p); break;
		}
		return Ops{[=] { return of(uint64_t(s->transform(0x12345678))); }, [=] { return of(uint64_t(o->transform(0x12345678))); }, [=] { return of(uint64_t(s->transform(0x9abcdef0))); }};
	});
}
CASES(C16_magma_sbox, 4)
CTX C16_magma_integer()
{
	stable([&] {
		const auto e = make_shared<m::EncryptionBase>(make_shared<AnyKey>(1)), f = make_shared<m::EncryptionBase>(make_shared<AnyKey>(2));
		const uint64_t x = in64("x"), y = in64("y");
		return Ops{[=] { return of(e->transform(x)); }, [=] { return of(e->transform(y)); }, [=] { return of(f->transform(x)); }};
	});
}
CTX C16_magma_mac(int i)
{
	stable([&] {
		const size_t n[] = {0, 3, 8, 17};
		const auto d = inBytes("data", n[i]);
		vector<uint8_t> u(d.size()); if (!d.empty()) memcpy(u.data(), d.data(), d.size());
		const auto key = lazy(), other = lazy(1);
		const auto src = make_shared<MemSource>(d);
		const auto a = make_shared<m::Imit>(src, key), b = make_shared<m::Imit>(src, other), a2 = make_shared<m::Imit>(make_shared<MemSource>(inBytes("more", 11)), key);
		const auto c = make_shared<g::DataImit>(u, key), d2 = make_shared<g::DataImit>(u, other);
		const auto e = make_shared<g::ImitedBlock>(m::BlkRaw(in32("a"), in32("b")), key);
		const auto out = [](const vector<uint8_t> &v) { Bytes b(v.size()); if (!v.empty()) memcpy(b.data(), v.data(), v.size()); return b; };
		return Ops{[=] { return of(a->value()); }, [=] { return of(b->value()); }, [=] { return of(a2->value()); }, [=] { return out(c->value()); }, [=] { return out(d2->value()); }, [=] { return of(e->value().value()); }};
	});
}
CASES(C16_magma_mac, 4)

// ---------------------------------------------------------------- sinks and sources
static shared_ptr<const Sink> sinkOf(int kind, int which, const Bytes &plain)
{
	const auto key = make_shared<AnyKey>(which);
	const auto r0 = in64(which == 1 ? "r0" : "q0"), r1 = in64(which == 1 ? "r1" : "q1");
	if (kind == 0) return make_shared<m::CFBSink>(make_shared<RecSink>(), key, r0, r1, plain);
	if (kind == 1) return make_shared<g::CFBSink>(make_shared<RecSink>(), key, r0, plain);
	return make_shared<m::ECBSink>(make_shared<RecSink>(), key);
}
static shared_ptr<const Source> sourceOf(int kind, int which, const Bytes &plain, const Bytes &data)
{
	const auto key = make_shared<AnyKey>(which);
	const auto r0 = in64(which == 1 ? "r0" : "q0"), r1 = in64(which == 1 ? "r1" : "q1");
	if (kind == 0) return make_shared<m::CFBSource>(make_shared<MemSource>(data), key, r0, r1, plain);
	if (kind == 1) return make_shared<g::CFBSource>(make_shared<MemSource>(data), key, r0, plain);
	return make_shared<m::ECBSource>(make_shared<MemSource>(data), key);
}
static Bytes done(const shared_ptr<const Sink> &s) { return recorded(s->finalize()); }
CTX C16_sink(int cs)
{
	const int kind = cs / 3, v = cs % 3;
	stable([&] {
		const bool ecb = kind == 2;
		const auto x = inBytes("x", ecb ? 8 : v == 0 ? 8 : v == 1 ? 3 : 11), y = inBytes("y", ecb ? 16 : v == 2 ? 16 : 5);
		const auto s = sinkOf(kind, 1, inBytes("plain", ecb ? 0 : size_t(3 * v))), o = sinkOf(kind, 2, {});
		const auto s1 = s->write(x), s2 = s1->write(y);
		return Ops{
			[=] { return done(s); },
			[=] { return done(s->write(x)); },
			[=] { return done(s->write(y)->write(x)); },
			[=] { return done(s1); },
			[=] { return done(s1->write(x)); },
			[=] { return done(s2); },
			[=] { return done(s2->write(y)); },
			[=] { return done(o->write(x)->write(y)); },
		};
	});
}
CASES(C16_sink, 9)
CTX C16_source(int cs)
{
	const int kind = cs / 3, v = cs % 3;
	stable([&] {
		const bool ecb = kind == 2;
		const auto s = sourceOf(kind, 1, inBytes("plain", ecb ? 0 : size_t(3 * v)), inBytes("x", ecb ? 24 : 13 + v)), o = sourceOf(kind, 2, {}, inBytes("y", 16));
		const auto s1 = s->read(ecb ? 8 : 1 + 3 * v).second, s2 = s1->read(ecb ? 8 : 5).second;
		return Ops{
			[=] { return s->read(8).first; },
			[=] { return s->read(ecb ? 16 : 3).first; },
			[=] { const auto a = s->read(8); return cat(a.first, a.second->read(100).first); },
			[=] { return s1->read(100).first; },
			[=] { const auto a = s1->read(ecb ? 8 : 2); return cat(a.first, a.second->read(ecb ? 8 : 9).first); },
			[=] { return s2->read(100).first; },
			[=] { if (ecb) try { s2->read(7); return Bytes(1); } catch (const runtime_error &) { return Bytes(2); } return s2->read(0).first; },
			[=] { return o->read(16).first; },
		};
	});
}
CASES(C16_source, 9)
template <class F> static Bytes orRefused(F f) { try { return f(); } catch (...) { return Bytes(1, byte(0x5a)); } }
CTX C16_refused(int cs)
{
	// an operation that is refused leaves no trace, whatever it had seen by then
	const int kind = cs / 8, n = 1 + cs % 8;
	stable([&] {
		const auto tail = inBytes("tail", size_t(n)), x = inBytes("x", 8);
		Ops r;
		if (kind == 0) {
			const auto s = sinkOf(2, 1, {}), o = sinkOf(2, 2, {}), s1 = s->write(x);
			r.push_back([=] { return orRefused([&] { return done(s->write(tail)); }); });
			r.push_back([=] { return done(s->write(x)); });
			r.push_back([=] { return orRefused([&] { return done(s1->write(cat(x, tail))); }); });
			r.push_back([=] { return done(o->write(cat(x, x))); });
			r.push_back([=] { return done(s1); });
		} else {
			const auto s = sourceOf(2, 1, {}, cat(x, tail)), o = sourceOf(2, 2, {}, cat(x, x)), s1 = s->read(8).second;
			r.push_back([=] { return orRefused([&] { return s->read(100).first; }); });
			r.push_back([=] { return s->read(8).first; });
			r.push_back([=] { return orRefused([&] { return s1->read(8).first; }); });
			r.push_back([=] { return o->read(16).first; });
		}
		return r;
	});
}
CASES(C16_refused, 16)
CTX C16_refused_keys(int i)
{
	// refused strings, words and word numbers leave no trace either
	stable([&] {
		static const char *const bad[] = {"", "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfe", "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff00", "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfexf"};
		const string good = "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff", b = bad[i];
		uint32_t w[8]; ctx_in("key", w, sizeof w);
		const auto few = make_shared<m::KeyDataNative>(vector<uint32_t>(w, w + 2 * i)), all = make_shared<m::KeyDataNative>(vector<uint32_t>(w, w + 8));
		const auto warm = make_shared<m::LazyKey>(make_unique<m::KeyCachedData>(make_unique<m::KeyDataString>(good)), make_shared<AnySbox>());
		Ops r;
		r.push_back([=] { return orRefused([&] { return of(uint64_t(m::KeyDataString(b).key(7))); }); });
		r.push_back([=] { return of(uint64_t(m::KeyDataString(good).key(7))); });
		r.push_back([=] { return orRefused([&] { return of(k::KeyDataString(b).high()->value()); }); });
		r.push_back([=] { return of(k::KeyDataString(good).high()->value()); });
		r.push_back([=] { return orRefused([&] { return of(uint64_t(few->key(7))); }); });
		r.push_back([=] { return of(uint64_t(all->key(7))); });
		r.push_back([=] { return orRefused([&] { return of(uint64_t(warm->transform(1, i % 2 ? 8 : -1))); }); });
		r.push_back([=] { return of(uint64_t(warm->transform(1, 7))); });
		return r;
	});
}
CASES(C16_refused_keys, 4)
CTX C16_cfb_two(int kind)
{
	// two sinks and two sources of different keys and registers, interleaved, against the definition
	const auto d = inBytes("d", 21), e = inBytes("e", 21);
	const int depth = kind ? 1 : 2;
	const auto k = make_shared<AnyKey>();
	for (int order = 0; order < 2; order++) {
		const auto sink = [&](const char *r0, const char *r1) -> shared_ptr<const Sink> { if (kind) return make_shared<g::CFBSink>(make_shared<RecSink>(), k, in64(r0)); return make_shared<m::CFBSink>(make_shared<RecSink>(), k, in64(r0), in64(r1)); };
		const auto source = [&](const Bytes &x, const char *r0, const char *r1) -> shared_ptr<const Source> { if (kind) return make_shared<g::CFBSource>(make_shared<MemSource>(x), k, in64(r0)); return make_shared<m::CFBSource>(make_shared<MemSource>(x), k, in64(r0), in64(r1)); };
		auto s = sink("r0", "r1"), t = sink("q0", "q1");
		auto a = source(d, "r0", "r1"), b = source(e, "q0", "q1");
		Bytes ra, rb;
		for (int i = 0; i < 21; i += 3) {
			const Bytes x(d.begin() + i, d.begin() + i + 3), y(e.begin() + i, e.begin() + i + 3);
			if (order) { t = t->write(y); s = s->write(x); } else { s = s->write(x); t = t->write(y); }
			const auto u = a->read(3), v = b->read(3);
			ra = cat(ra, u.first); rb = cat(rb, v.first); a = u.second; b = v.second;
		}
		eqBytes("one sink", done(s), stdCfb(d, in64("r0"), in64("r1"), depth, false));
		eqBytes("the other sink", done(t), stdCfb(e, in64("q0"), in64("q1"), depth, false));
		eqBytes("one source", ra, stdCfb(d, in64("r0"), in64("r1"), depth, true));
		eqBytes("the other source", rb, stdCfb(e, in64("q0"), in64("q1"), depth, true));
	}
}
CASES(C16_cfb_two, 2)

// ---------------------------------------------------------------- what the caller does with its own objects afterwards
CTX C16_copies_magma(int i)
{
	const auto all = [](auto &v) { for (auto &x : v) x = 0; };
	switch (i) {
	case 0: {
		uint32_t w[8]; ctx_in("key", w, sizeof w); vector<uint32_t> v(w, w + 8);
		const m::KeyDataNative d(v); const m::LazyKey k(v, make_shared<AnySbox>()); const m::LazyKey k2(vector<uint32_t>(w, w + 8), make_shared<AnySbox>());
		all(v);
		for (int j = 0; j < 8; j++) { eqw("native key", d.key(j), w[j]); eqw("key of words", k.transform(1, j), k2.transform(1, j)); }
		break;
	}
	case 1: {
		string s = "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff"; const string o = s;
		const m::KeyDataString d(s), e(o); const m::LazyKey k(s, make_shared<AnySbox>()), k2(o, make_shared<AnySbox>());
		for (auto &c : s) c = '0';
		for (int j = 0; j < 8; j++) { eqw("string key", d.key(j), e.key(j)); eqw("key of a string", k.transform(1, j), k2.transform(1, j)); }
		break;
	}
	case 2: {
		uint8_t t[64]; ctx_in("table", t, sizeof t); vector<uint8_t> v(t, t + 64); const vector<uint8_t> o = v;
		const m::SboxByte s(v), s2(o); const m::SboxByte64Tab tab(v, 0), tab2(o, 0);
		all(v);
		eqw("byte table", tab.translate(5), tab2.translate(5)); eqw("substitution", s.transform(0x12345678), s2.transform(0x12345678));
		vector<int> p; for (int j = 0; j < 16; j++) p.push_back(15 - j); const vector<int> q = p;
		const m::SboxNibble n(p, p, p, p, p, p, p, p), n2(q, q, q, q, q, q, q, q);
		all(p);
		eqw("nibble substitution", n.transform(0x12345678), n2.transform(0x12345678));
		break;
	}
	case 3: {
		const auto d = inBytes("data", 19); Bytes v = d, p = inBytes("plain", 5); const Bytes pp = p;
		const auto key = make_shared<AnyKey>();
		auto s = make_shared<m::CFBSink>(make_shared<RecSink>(), key, 1, 2, p)->write(v); auto t = make_shared<g::CFBSink>(make_shared<RecSink>(), key, 1, p)->write(v);
		const auto a = make_shared<m::CFBSource>(make_shared<MemSource>(d), key, 1, 2, p); const auto b = make_shared<g::CFBSource>(make_shared<MemSource>(d), key, 1, p);
		for (auto &x : v) x = byte(0);
		for (auto &x : p) x = byte(0);
		Bytes whole = pp; for (auto x : d) whole.push_back(x);
		eqBytes("written bytes", recorded(s->finalize()), stdCfb(whole, 1, 2, 2, false));
		eqBytes("written bytes, one register", recorded(t->finalize()), stdCfb(whole, 1, 0, 1, false));
		const auto ra = a->read(100), rb = b->read(100), rc = a->read(100), rd = b->read(100);
		eqBytes("plain of a source", Bytes(ra.first.begin(), ra.first.begin() + 5), pp);
		eqBytes("plain of a source, one register", Bytes(rb.first.begin(), rb.first.begin() + 5), pp);
		eqBytes("read again", rc.first, ra.first); eqBytes("read again, one register", rd.first, rb.first);
		break;
	}
	case 4: {
		const auto d = inBytes("data", 16); vector<uint8_t> v(16), w(16); memcpy(v.data(), d.data(), 16); memcpy(w.data(), d.data(), 16);
		const g::DataImit x(v, lazy()), y(w, lazy());
		all(v);
		const auto a = x.value(), b = y.value();
		ctx_true("sizes", a.size() == b.size()); ctx_eq("data of a MAC", a.data(), b.data(), b.size());
		break;
	}
	case 5: {
		uint32_t w[2] = {in32("a"), in32("b")}; vector<uint8_t> v(8); memcpy(v.data(), w, 8); string s = "0123456789abcdef";
		const m::BlkRaw a(static_cast<const void *>(w)), b(v); const m::BlkString c(s), d(string("0123456789abcdef"));
		const U32 want{w[0], w[1]};
		w[0] = w[1] = 0; all(v); for (auto &x : s) x = '0';
		eq32("block from memory", a.value(), want); eq32("block from bytes", b.value(), want); eq32("block from text", c.value(), d.value());
		break;
	}
	default: {
		// the vectors handed out are the caller's
		const auto key = make_shared<AnyKey>(); const auto d = inBytes("data", 19);
		const auto s = make_shared<m::CFBSource>(make_shared<MemSource>(d), key, 1, 2);
		auto r = s->read(11); auto q = s->read(11);
		for (auto &x : r.first) x = byte(0);
		const auto rest = r.second->read(100), rest2 = q.second->read(100);
		eqBytes("the continuation does not depend on what was handed out", rest.first, rest2.first);
		break;
	}
	}
}
CASES(C16_copies_magma, 7)

// ---------------------------------------------------------------- Kuznyechik
static shared_ptr<const k::Key> kuzKey(int i) { return make_shared<k::Key>(make_shared<KeyHalves>(U64{uint64_t(i) * 77 + 1, 2}, U64{3, uint64_t(i) * 55 + 4})); }
static StdKey kuzRef(int i) { return StdKey(U64{uint64_t(i) * 77 + 1, 2}, U64{3, uint64_t(i) * 55 + 4}); }
CTX C16_kuz_block(int i)
{
	stable([&] {
		const auto b = anyBlk128("a"), c = anyBlk128("c");
		const auto of1 = [&](const shared_ptr<const k::Block> &b, const shared_ptr<const k::Block> &c) -> shared_ptr<const k::Block> {
			switch (i) {
			case 0: return make_shared<k::BlkXored>(b, c);
			case 1: return make_shared<k::BlkShifted>(b, 1);
			case 2: return make_shared<k::BlkShifted>(b, 63);
			case 3: return make_shared<k::BlkIncremented>(b);
			case 4: return make_shared<k::BlkS>(b);
			case 5: return make_shared<k::BlkR>(b);
			case 6: return make_shared<k::BlkL>(b);
			case 7: return make_shared<k::BlkCached>(b);
			case 8: return make_shared<k::BlkRaw>(b);
			default: return make_shared<k::BlkString>("0123456789abcdef0123456789abcdef");
			}
		};
		const auto x = of1(b, c), y = of1(c, b), z = of1(x, y);
		return Ops{[=] { return of(x->value()); }, [=] { return of(y->value()); }, [=] { return of(z->value()); }};
	});
}
CASES(C16_kuz_block, 10)
CTX C16_kuz_cached()
{
	// the caches of different objects are different; copies and order do not matter
	const auto a = anyBlk128("a"), b = anyBlk128("b");
	const k::BlkCached x(a), y(b), x2(x), x3(a);
	for (int i = 0; i < 2; i++) {
		eq64("one", x.value(), a->value()); eq64("another", y.value(), b->value());
		eq64("a copy", x2.value(), a->value()); eq64("a second one", x3.value(), a->value());
	}
}
CTX C16_kuz_key(int i)
{
	// two keys, two blocks, against the standard; lazily computed round keys in any order
	const auto k1 = kuzKey(0), k2 = kuzKey(1); const auto r1 = kuzRef(0), r2 = kuzRef(1);
	const auto a = anyBlk128("a"); const auto b = make_shared<AnyBlk128>(5, 6);
	shared_ptr<const k::Block> e[4] = {k1->encrypt(a), k2->encrypt(b), k1->encrypt(b), k2->encrypt(a)};
	const U64 want[4] = {r1.encrypt(a->value()), r2.encrypt({5, 6}), r1.encrypt({5, 6}), r2.encrypt(a->value())};
	static const int order[6][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}, {2, 0, 3, 1}, {0, 2, 1, 3}, {3, 1, 2, 0}};
	for (int o = 0; o < 8; o++) eq64("encryptions do not influence each other", e[order[i][o % 4]]->value(), want[order[i][o % 4]]);
}
CASES(C16_kuz_key, 6)
CTX C16_kuz_iterkey()
{
	stable([&] {
		const shared_ptr<const k::Block> a = anyBlk128("a"), b = make_shared<AnyBlk128>(5, 6);
		const auto x = make_shared<k::BlkIterKey>(a, b, 1, 2), y = make_shared<k::BlkIterKey>(b, b, 1, 8), z = make_shared<k::BlkIterKey>(b, make_shared<AnyBlk128>(7, 8), 9, 16);
		return Ops{[=] { return of(x->value()); }, [=] { return of(y->value()); }, [=] { return of(z->value()); }};
	});
}
static Bytes walk(shared_ptr<const k::Iterator> it)
{
	Bytes r;
	for (; it; it = it->next()) { r = cat(r, of(it->value())); r.push_back(byte(it->size())); r.push_back(byte(it->last())); }
	return r;
}
CTX C16_kuz_stream(int cs)
{
	const int kind = cs / 3, n = 3 + cs % 3;
	const auto key = kuzKey(0);
	stable([&] {
		vector<uint64_t> w(size_t(n), 0), u(4); ctx_in("w", w.data(), 8 * w.size()); ctx_in("u", u.data(), 32);
		shared_ptr<const k::Stream> s = make_shared<k::StMemory>(w), o = make_shared<k::StMemory>(u);
		if (kind) { s = make_shared<k::StCTREncrypted>(s, key, 9); o = make_shared<k::StCTREncrypted>(o, key, 10); }
		const auto it = s->iter(), i1 = it->next();
		return Ops{
			[=] { return walk(s->iter()); }, [=] { return of(it->value()); }, [=] { return walk(it->next()); }, [=] { return walk(i1); },
			[=] { return walk(o->iter()); }, [=] { return of(i1->value()); },
		};
	});
}
CASES(C16_kuz_stream, 6)
CTX C16_kuz_mac(int i)
{
	// two keys, two streams, MACs against each other
	vector<uint64_t> w(size_t(2 + i)), u(2); ctx_in("w", w.data(), 8 * w.size()); ctx_in("u", u.data(), 16);
	const auto k1 = kuzKey(0), k2 = kuzKey(1);
	stable([&] {
		const auto s = make_shared<k::StMemory>(w), t = make_shared<k::StMemory>(u);
		const auto a = make_shared<k::Imit>(s, k1), b = make_shared<k::Imit>(s, k2), c = make_shared<k::Imit>(t, k1);
		return Ops{[=] { return of(a->value()); }, [=] { return of(b->value()); }, [=] { return of(c->value()); }};
	});
}
CASES(C16_kuz_mac, 3)
CTX C16_copies_kuz(int i)
{
	if (i == 0) {
		vector<uint64_t> v(5); ctx_in("w", v.data(), 40); const auto o = v;
		const auto s = make_shared<k::StMemory>(v), t = make_shared<k::StMemory>(o);
		const auto it = s->iter();
		for (auto &x : v) x = 0;
		eqBytes("words of a stream", walk(s->iter()), walk(t->iter())); eqBytes("of an iterator", walk(it), walk(t->iter()));
		const auto key = kuzKey(0); uint64_t iv = 7;
		const auto c = make_shared<k::StCTREncrypted>(s, key, iv); iv = 8;
		eqBytes("initial value", walk(c->iter()), walk(make_shared<k::StCTREncrypted>(t, key, 7)->iter()));
	} else if (i == 1) {
		string s = "8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef"; const string o = s;
		const k::KeyDataString d(s), e(o); const k::Key a(s), b(o);
		for (auto &x : s) x = '0';
		eq64("low half", d.low()->value(), e.low()->value()); eq64("high half", d.high()->value(), e.high()->value());
		eq64("key of a string", a.encrypt(make_shared<AnyBlk128>(1, 2))->value(), b.encrypt(make_shared<AnyBlk128>(1, 2))->value());
	} else {
		uint64_t w[2]; ctx_in("w", w, 16); const U64 want{w[0], w[1]}; string s = "0123456789abcdef0123456789abcdef";
		const k::BlkRaw a(static_cast<const void *>(w)); const k::BlkString c(s), d(string("0123456789abcdef0123456789abcdef"));
		w[0] = w[1] = 0; for (auto &x : s) x = '0';
		eq64("block from memory", a.value(), want); eq64("block from text", c.value(), d.value());
	}
}
CASES(C16_copies_kuz, 3)
}
