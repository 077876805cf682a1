// Objects shared by threads: every public operation against every other.
#include "ctx.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxByte64Tab.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
inline namespace in_C17 {
using namespace std;
namespace g = goost::gost89;

// run the operations in turn on the same objects, first cold and then warm; any
// two of the runs, a run and itself included, may be those of two threads;
// each operation is the first one once
template <class... F> static void threads(int first, F... op)
{
	const int n = sizeof...(F);
	ctx_share(n);
	for (int i = 0; i < 2 * n; i++) {
		int k = 0; const int run = (i + first) % n;
		((k++ == run ? (ctx_run(), (void)op(), ctx_stop()) : void()), ...);
	}
	ctx_races("unordered accesses of threads");
	ctx_true("shared memory was looked at", ctx_accesses() > 0);
}
static const char *const HEX = "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff";
static shared_ptr<const m::LazyKey> magmaKey(int i)
{
	uint32_t k[8]; ctx_in("key", k, sizeof k);
	switch (i) {
	case 0: return make_shared<m::LazyKey>(string(HEX));
	case 1: return make_shared<m::LazyKey>(string(HEX), make_shared<AnySbox>());
	case 2: return make_shared<m::LazyKey>(vector<uint32_t>(k, k + 8), make_shared<AnySbox>());
	case 3: return make_shared<m::LazyKey>(make_unique<m::KeyCachedData>(make_unique<AnyKeyData>()), make_shared<AnySbox>());
	default: return make_shared<m::LazyKey>(make_unique<AnyKeyData>(), make_shared<AnySbox>());
	}
}
CTX C17_magma_key(int c)
{
	const int i = c / 3, first = c % 3;
	const auto key = magmaKey(i);
	threads(first, [&] { key->transform(1, 0); }, [&] { key->transform(2, 7); }, [&] { key->transform(3, 3); });
}
CASES(C17_magma_key, 15)
CTX C17_magma_key_same(int i)
{
	// the same operation everywhere, the object fresh
	const auto key = magmaKey(i);
	threads(0, [&] { key->transform(1, 0); });
}
CASES(C17_magma_key_same, 5)
CTX C17_magma_data(int c)
{
	const int i = c / 2, first = c % 2;
	uint32_t k[8]; ctx_in("key", k, sizeof k);
	unique_ptr<const m::KeyData> d;
	switch (i) {
	case 0: d = make_unique<m::KeyDataString>(HEX); break;
	case 1: d = make_unique<m::KeyDataNative>(vector<uint32_t>(k, k + 8)); break;
	default: d = make_unique<m::KeyCachedData>(make_unique<m::KeyDataString>(HEX)); break;
	}
	threads(first, [&] { d->key(0); }, [&] { d->key(7); });
}
CASES(C17_magma_data, 6)
CTX C17_magma_sbox(int c)
{
	const int i = c / 2, first = c % 2;
	uint8_t t[128]; ctx_in("table", t, sizeof t);
	vector<uint8_t> v(t, t + 64);
	shared_ptr<const m::Sbox> s;
	switch (i) {
	case 0: s = make_shared<m::SboxR3412>(); break;
	case 1: s = make_shared<m::SboxByte>(v); break;
	default: s = make_shared<m::SboxTwisted>(make_unique<m::SboxByte>(v)); break;
	}
	threads(first, [&] { s->transform(0x12345678); }, [&] { s->transform(0x9abcdef0); });
}
CASES(C17_magma_sbox, 6)
CTX C17_magma_block(int i)
{
	const auto key = magmaKey(3); const auto b = make_shared<m::BlkRaw>(1u, 2u);
	shared_ptr<const m::Block> x;
	switch (i) {
	case 0: x = make_shared<m::BlkEncrypted>(b, key); break;
	case 1: x = make_shared<m::BlkDecrypted>(b, key); break;
	case 2: x = make_shared<m::BlkForwarded>(b, key); break;
	case 3: x = make_shared<m::BlkBackwarded>(b, key); break;
	case 4: x = make_shared<m::BlkXored>(b, make_shared<m::BlkSwapped>(b)); break;
	case 5: x = make_shared<m::BlkShifted>(b, 1); break;
	case 6: x = make_shared<m::BlkString>("0123456789abcdef"); break;
	case 7: x = make_shared<m::BlkSwapped>(b); break;
	default: x = b; break;
	}
	threads(0, [&] { x->value(); });
}
CASES(C17_magma_block, 9)
CTX C17_magma_integer(int first)
{
	const m::EncryptionBase e(magmaKey(3));
	threads(first, [&] { e.transform(5); }, [&] { e.transform(6); });
}
CASES(C17_magma_integer, 2)
CTX C17_magma_cfb(int c)
{
	const int i = c / 4, first = c % 4;
	const auto key = magmaKey(3); const Bytes d(i % 2 ? 8 : 13), p(i / 2 % 2 ? 3 : 0);
	if (i < 4) {
		const m::CFBSink s(make_shared<RecSink>(), key, 1, 2, p); const m::CFBSource r(make_shared<MemSource>(d), key, 1, 2, p);
		threads(first, [&] { s.write(d); }, [&] { s.finalize(); }, [&] { r.read(5); }, [&] { r.read(100); });
	} else {
		const g::CFBSink s(make_shared<RecSink>(), key, 1, p); const g::CFBSource r(make_shared<MemSource>(d), key, 1, p);
		threads(first, [&] { s.write(d); }, [&] { s.finalize(); }, [&] { r.read(5); }, [&] { r.read(100); });
	}
}
CASES(C17_magma_cfb, 32)
CTX C17_magma_ecb(int c)
{
	const int i = c / 4, first = c % 4;
	const auto key = magmaKey(i); const Bytes d(16);
	const m::ECBSink s(make_shared<RecSink>(), key); const m::ECBSource r(make_shared<MemSource>(d), key);
	threads(first, [&] { s.write(d); }, [&] { s.finalize(); }, [&] { r.read(8); }, [&] { r.read(100); });
}
CASES(C17_magma_ecb, 20)
CTX C17_magma_imit(int cs)
{
	const int i = cs / 3, first = cs % 3;
	const auto key = magmaKey(i % 5);
	const m::Imit a(make_shared<MemSource>(Bytes(i < 5 ? 16 : 11)), key);
	const g::DataImit b(vector<uint8_t>(i < 5 ? 16 : 11), key);
	const g::ImitedBlock c(m::BlkRaw(1u, 2u), key);
	threads(first, [&] { a.value(); }, [&] { b.value(); }, [&] { c.value(); });
}
CASES(C17_magma_imit, 30)

// ---------------------------------------------------------------- Kuznyechik
static shared_ptr<const k::Key> kuzKey(int i)
{
	if (i == 0) return make_shared<k::Key>(string(HEX));
	return make_shared<k::Key>(make_shared<KeyHalves>(U64{1, 2}, U64{3, 4}));
}
CTX C17_kuz_cached()
{
	const k::BlkCached c(make_shared<k::BlkRaw>(1, 2));
	threads(0, [&] { c.value(); });
}
CTX C17_kuz_cached_copy(int first)
{
	// copies share the cache
	const k::BlkCached c(make_shared<k::BlkRaw>(1, 2)); const k::BlkCached d(c);
	threads(first, [&] { c.value(); }, [&] { d.value(); });
}
CASES(C17_kuz_cached_copy, 2)
CTX C17_kuz_block(int i)
{
	const auto b = make_shared<k::BlkRaw>(1, 2);
	shared_ptr<const k::Block> x;
	switch (i) {
	case 0: x = make_shared<k::BlkXored>(b, b); break;
	case 1: x = make_shared<k::BlkShifted>(b, 1); break;
	case 2: x = make_shared<k::BlkString>("0123456789abcdef0123456789abcdef"); break;
	case 3: x = make_shared<k::BlkIncremented>(b); break;
	case 4: x = make_shared<k::BlkS>(b); break;
	case 5: x = make_shared<k::BlkR>(b); break;
	case 6: x = make_shared<k::BlkL>(b); break;
	case 7: x = make_shared<k::BlkIterKey>(b, b, 1, 2); break;
	default: x = b; break;
	}
	threads(0, [&] { x->value(); });
}
CASES(C17_kuz_block, 9)
CTX C17_kuz_data(int first)
{
	const k::KeyDataString d(HEX);
	threads(first, [&] { d.low()->value(); }, [&] { d.high()->value(); });
}
CASES(C17_kuz_data, 2)
CTX C17_kuz_key(int cs)
{
	const int i = cs / 2, first = cs % 2;
	const auto key = kuzKey(i); const auto b = make_shared<k::BlkRaw>(1, 2), c = make_shared<k::BlkRaw>(3, 4);
	threads(first, [&] { key->encrypt(b)->value(); }, [&] { key->encrypt(c)->value(); });
}
CASES(C17_kuz_key, 4)
CTX C17_kuz_stream(int c)
{
	const int i = c / 4, first = c % 4;
	const auto key = kuzKey(1);
	const auto st = make_shared<k::StMemory>(vector<uint64_t>(size_t(3 + i)));
	const k::StCTREncrypted ctr(st, key, 5);
	const auto it = st->iter(), ci = ctr.iter();
	threads(first, [&] { st->iter()->next(); }, [&] { it->value(); it->last(); it->size(); it->next(); }, [&] { ctr.iter()->value(); }, [&] { ci->value(); ci->last(); ci->size(); ci->next(); });
}
CASES(C17_kuz_stream, 8)
CTX C17_kuz_imit(int c)
{
	const int i = c / 2, first = c % 2;
	const auto key = kuzKey(i % 2);
	const k::Imit a(make_shared<k::StMemory>(vector<uint64_t>(size_t(2 + i / 2))), key);
	const k::BlkEncrypted e(make_shared<k::BlkRaw>(1, 2), key);
	threads(first, [&] { a.value(); }, [&] { e.value(); });
}
CASES(C17_kuz_imit, 8)
}
