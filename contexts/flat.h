// Long messages over trivial collaborators.
#pragma once
#include "ctx.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
#include <goost/magma/LazyKey.h>

struct FlatSbox final : m::Sbox { uint32_t transform(uint32_t v) const override { return v ^ 0x5a5a5a5au; } };
inline std::shared_ptr<const m::LazyKey> magmaKey() { return std::make_shared<m::LazyKey>(std::make_unique<ThinKeyData>(), std::make_shared<FlatSbox>()); }
struct NullSink final : goost::Sink {
	size_t got;
	explicit NullSink(size_t got = 0) : got(got) {}
	std::shared_ptr<const Sink> write(const Bytes &d) const override { return std::make_shared<NullSink>(got + d.size()); }
	std::shared_ptr<const Sink> finalize() const override { return std::make_shared<NullSink>(got); }
};
// endless up to a number of bytes, no memory of its own
struct ZeroSource final : goost::Source {
	size_t left;
	explicit ZeroSource(size_t left) : left(left) {}
	std::pair<Bytes, std::shared_ptr<const Source>> read(size_t n) const override { const size_t k = left < n ? left : n; return {Bytes(k), std::make_shared<ZeroSource>(left - k)}; }
};

inline std::shared_ptr<const goost::Sink> sink(int kind)
{
	const auto key = magmaKey(); const auto s = std::make_shared<NullSink>();
	if (kind == 0) return std::make_shared<m::CFBSink>(s, key, 1, 2);
	if (kind == 1) return std::make_shared<goost::gost89::CFBSink>(s, key, 1);
	return std::make_shared<m::ECBSink>(s, key);
}
inline std::shared_ptr<const goost::Source> source(int kind, size_t n)
{
	const auto key = magmaKey(); const auto s = std::make_shared<ZeroSource>(n);
	if (kind == 0) return std::make_shared<m::CFBSource>(s, key, 1, 2);
	if (kind == 1) return std::make_shared<goost::gost89::CFBSource>(s, key, 1);
	return std::make_shared<m::ECBSource>(s, key);
}
inline std::shared_ptr<const k::Key> kuzKey()
{
	const auto key = std::make_shared<k::Key>(std::make_shared<KeyHalves>(U64{1, 2}, U64{3, 4}));
	key->encrypt(std::make_shared<AnyBlk128>(0, 0))->value();
	return key;
}
// a stream of zeroes
struct ZeroIter final : k::Iterator {
	size_t n;
	explicit ZeroIter(size_t n) : n(n) {}
	U64 value() const override { return {n, 0}; }
	bool last() const override { return n == 1; }
	size_t size() const override { return 16; }
	std::shared_ptr<const Iterator> next() const override { if (last()) return {}; return std::make_shared<ZeroIter>(n - 1); }
};
struct ZeroStream final : k::Stream {
	size_t n;
	explicit ZeroStream(size_t n) : n(n) {}
	std::shared_ptr<const k::Iterator> iter() const override { return std::make_shared<ZeroIter>(n); }
};
inline std::shared_ptr<const k::Stream> stream(int kind, size_t n, const std::shared_ptr<const k::Key> &key)
{
	if (kind == 0) return std::make_shared<k::StMemory>(std::vector<uint64_t>(2 * n));
	if (kind == 1) return std::make_shared<k::StCTREncrypted>(std::make_shared<ZeroStream>(n), key, 7);
	return std::make_shared<k::StCTREncrypted>(std::make_shared<k::StMemory>(std::vector<uint64_t>(2 * n)), key, 7);
}
