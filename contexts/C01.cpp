// Magma block encryption and decryption, with the round function uninterpreted.
#include "ctx.h"
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/LazyKey.h>
inline namespace in_C01 {
using namespace std;

CTX C01_block()
{
	const auto key = make_shared<AnyKey>();
	const auto b = anyBlk("low", "high");
	const m::BlkEncrypted e(b, key);
	eq32("BlkEncrypted is the 32-round network", e.value(), uEncrypt(b->value()));
	eq32("BlkEncrypted evaluated again", e.value(), uEncrypt(b->value()));
}
CTX C01_integer()
{
	const uint64_t x = in64("block");
	const auto e = uEncrypt({uint32_t(x), uint32_t(x >> 32)});
	eqw("EncryptionBase::transform is the 32-round network", m::EncryptionBase(make_shared<AnyKey>()).transform(x), uint64_t(e.second) << 32 | e.first);
}
CTX C01_passes()
{
	const auto key = make_shared<AnyKey>();
	const auto b = anyBlk("low", "high");
	eq32("forward pass is 8 rounds ascending", m::BlkForwarded(b, key).value(), stdRounds(b->value(), encOrder(), 8, uround));
	eq32("backward pass is 8 rounds descending", m::BlkBackwarded(b, key).value(), stdRounds(b->value(), encOrder() + 24, 8, uround));
}
CTX C01_keys()
{
	// two keys in turn: nothing carries over from one key or block to another
	const auto k1 = make_shared<AnyKey>(1), k2 = make_shared<AnyKey>(2);
	const auto b = anyBlk("low", "high"), c = anyBlk("low2", "high2");
	const auto f1 = [](uint32_t v, int i) { return roundFn(v, i, 1); };
	const auto f2 = [](uint32_t v, int i) { return roundFn(v, i, 2); };
	const m::BlkEncrypted e1(b, k1), e2(b, k2), e3(c, k1);
	eq32("first key", e1.value(), stdEncrypt(b->value(), f1));
	eq32("second key", e2.value(), stdEncrypt(b->value(), f2));
	eq32("first key, other block", e3.value(), stdEncrypt(c->value(), f1));
	const m::EncryptionBase t1(k1), t2(k2);
	const uint64_t x = in64("block");
	const U32 p{uint32_t(x), uint32_t(x >> 32)};
	const auto w = [](U32 v) { return uint64_t(v.second) << 32 | v.first; };
	eqw("integer route, first key", t1.transform(x), w(stdEncrypt(p, f1)));
	eqw("integer route, second key", t2.transform(x), w(stdEncrypt(p, f2)));
	eqw("integer route, first key again", t1.transform(x), w(stdEncrypt(p, f1)));
}
CTX C01_lazy()
{
	// the library's own key class, substitution uninterpreted
	const auto key = make_shared<m::LazyKey>(make_unique<ThinKeyData>(), make_shared<AnySbox>());
	const auto b = anyBlk("low", "high");
	eq32("BlkEncrypted under LazyKey", m::BlkEncrypted(b, key).value(), stdEncrypt(b->value(), thinRound));
	const auto v = b->value();
	const auto e = stdEncrypt(v, thinRound);
	eqw("EncryptionBase under LazyKey", m::EncryptionBase(key).transform(uint64_t(v.second) << 32 | v.first), uint64_t(e.second) << 32 | e.first);
}
CTX C02_roundtrip()
{
	const auto key = make_shared<AnyKey>();
	const auto b = anyBlk("low", "high");
	eq32("decrypt(encrypt(x)) == x", m::BlkDecrypted(make_shared<m::BlkEncrypted>(b, key), key).value(), b->value());
	eq32("encrypt(decrypt(x)) == x", m::BlkEncrypted(make_shared<m::BlkDecrypted>(b, key), key).value(), b->value());
	eq32("decryption is the reverse network", m::BlkDecrypted(b, key).value(), uDecrypt(b->value()));
}
CTX C02_passes()
{
	const auto key = make_shared<AnyKey>();
	const auto b = anyBlk("low", "high");
	const auto f = m::BlkForwarded(b, key).value();
	eq32("a backward pass undoes a forward pass", m::BlkBackwarded(make_shared<AnyBlk>(f.second, f.first), key).value(), {b->value().second, b->value().first});
}
CTX C02_integer()
{
	const auto key = make_shared<AnyKey>();
	const uint64_t x = in64("block");
	const uint64_t e = m::EncryptionBase(key).transform(x);
	eq32("the integer route is inverted too", m::BlkDecrypted(make_shared<AnyBlk>(uint32_t(e), uint32_t(e >> 32)), key).value(), {uint32_t(x), uint32_t(x >> 32)});
}
CTX C02_lazy()
{
	const auto key = make_shared<m::LazyKey>(make_unique<ThinKeyData>(), make_shared<AnySbox>());
	const auto b = anyBlk("low", "high");
	eq32("decrypt(encrypt(x)) == x under LazyKey", m::BlkDecrypted(make_shared<m::BlkEncrypted>(b, key), key).value(), b->value());
	eq32("encrypt(decrypt(x)) == x under LazyKey", m::BlkEncrypted(make_shared<m::BlkDecrypted>(b, key), key).value(), b->value());
}
CTX C02_keys()
{
	const auto k1 = make_shared<AnyKey>(1), k2 = make_shared<AnyKey>(2);
	const auto b = anyBlk("low", "high");
	const auto e1 = make_shared<m::BlkEncrypted>(b, k1), e2 = make_shared<m::BlkEncrypted>(b, k2);
	const m::BlkDecrypted d1(e1, k1), d2(e2, k2);
	eq32("first key", d1.value(), b->value());
	eq32("second key", d2.value(), b->value());
	eq32("first key again", d1.value(), b->value());
}
}
