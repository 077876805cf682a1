// Client contexts: the most general clients of the library, one group per
// property.  They are never executed; the analyzer interprets their IR together
// with the IR of the library.  The ctx_* functions are intrinsics of the
// analyzer.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <goost/Sink.h>
#include <goost/Source.h>
#include <goost/magma/Block.h>
#include <goost/magma/Container.h>
#include <goost/magma/Key.h>
#include <goost/magma/KeyData.h>
#include <goost/magma/Sbox.h>
#include <goost/kuznyechik/Block.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/Stream.h>

extern "C" {
void ctx_in(const char *name, void *p, size_t n);            // unknown bytes
uint64_t ctx_bits(const char *name, size_t bits);            // unknown number
void ctx_uf(const char *fn, const void *args, size_t nargs, void *out, size_t nout);  // uninterpreted function
void ctx_eq(const char *name, const void *got, const void *want, size_t n);
void ctx_known_eq(const char *finding, const char *name, const void *got, const void *want, const void *known, size_t n);
int ctx_same(const void *a, const void *b, size_t n);         // the same normal form?
void ctx_true(const char *name, int cond);
void ctx_fail(const char *name);
void ctx_pass(const char *name);
void ctx_scope();
int ctx_thorough();
int ctx_thresholds();
uint64_t ctx_threshold(int i);
void ctx_depth_reset();
int ctx_depth_max();
uint64_t ctx_cost();      // instructions interpreted and words copied
uint64_t ctx_held();      // heap bytes held
void ctx_peak_reset();
uint64_t ctx_peak();
uint64_t ctx_mark();
void ctx_no_leak(const char *name, uint64_t mark);
void ctx_track();
int ctx_generalise(const void *const samples[4], uint64_t first, const void *member, uint64_t n);
int ctx_inductive(const void *const samples[4], uint64_t first, const void *next, uint64_t n);
void ctx_share(size_t operations);
void ctx_run();
void ctx_stop();
void ctx_races(const char *name);
uint64_t ctx_accesses();
void ctx_note(const char *text, int64_t v);
void ctx_dump(const void *p, size_t n);
}
#define CTX extern "C" void
#define CASES(name, n) extern "C" int name##_N() { return n; }

using Bytes = std::vector<std::byte>;
using U32 = std::pair<uint32_t, uint32_t>;
using U64 = std::pair<uint64_t, uint64_t>;

inline uint32_t in32(const char *n) { return uint32_t(ctx_bits(n, 32)); }
inline uint64_t in64(const char *n) { return ctx_bits(n, 64); }
inline Bytes inBytes(const char *name, size_t n) { Bytes b(n); if (n) ctx_in(name, b.data(), n); return b; }
inline void eq32(const char *n, U32 got, U32 want) { ctx_eq(n, &got, &want, 8); }
inline void eq64(const char *n, U64 got, U64 want) { ctx_eq(n, &got, &want, 16); }
inline void eqw(const char *n, uint64_t got, uint64_t want) { ctx_eq(n, &got, &want, 8); }
inline void eqBytes(const char *n, const Bytes &got, const Bytes &want)
{
	ctx_true(n, got.size() == want.size());
	if (got.size() == want.size() && !got.empty()) ctx_eq(n, got.data(), want.data(), got.size());
}

// lengths to analyse beyond 0..bound: around every constant the library compares with,
// taken as a length and as a number of blocks
inline std::vector<size_t> extraList(size_t bound, size_t cap, size_t unit = 1)
{
	std::vector<size_t> r;
	const auto add = [&](uint64_t v) {
		if (v <= bound || v > cap) return;
		for (auto x : r) if (x == v) return;
		r.push_back(size_t(v));
	};
	for (int t = 0; t < ctx_thresholds(); t++) {
		const uint64_t v = ctx_threshold(t);
		if (v > cap) continue;
		for (int d = -1; d <= 1; d++) { add(v + d); add(v * unit + d); }
		if (unit > 1) { add(v + 2 * unit + unit / 2 - 1); add((v + 2) * unit + unit / 2 - 1); }
	}
	return r;
}
inline size_t extraLen(int i, size_t bound, size_t cap, size_t unit = 1) { return extraList(bound, cap, unit)[size_t(i)]; }
inline int extraLens(size_t bound, size_t cap, size_t unit = 1) { return int(extraList(bound, cap, unit).size()); }
// long messages: beyond 2^16 bytes, and around the larger constants
inline std::vector<size_t> longList(size_t cap)
{
	auto r = extraList(cap, 600000, 8);
	r.push_back(65541); r.push_back(65544);
	return r;
}
inline Bytes fill(size_t n) { Bytes d(n); uint32_t x = 1; for (auto &b : d) { x = x * 1664525u + 1013904223u; b = std::byte(x >> 24); } return d; }

// ---------------------------------------------------------------- Magma
namespace m = goost::magma;
// the round function of a key: any function of word and index
inline uint32_t roundFn(uint32_t v, int index, uint32_t which = 0)
{
	struct { uint32_t v, i, k; } a = {v, uint32_t(index), which};
	uint32_t r;
	ctx_uf("round", &a, sizeof a, &r, sizeof r);
	return r;
}
struct AnyKey final : m::Key {
	uint32_t which;
	explicit AnyKey(uint32_t which = 0) : which(which) {}
	uint32_t transform(uint32_t v, int index) const override { return roundFn(v, index, which); }
};
// one key for long messages
inline uint32_t cheapRound(uint32_t v, int index) { return (v ^ (v >> 15)) * 0x9e3779b1u + uint32_t(index) * 0x85ebca77u; }
struct CheapKey final : m::Key { uint32_t transform(uint32_t v, int index) const override { return cheapRound(v, index); } };
struct CheapSbox final : m::Sbox { uint32_t transform(uint32_t v) const override { return cheapRound(v, 0); } };
struct AnySbox final : m::Sbox {
	uint32_t transform(uint32_t v) const override { uint32_t r; ctx_uf("sbox", &v, 4, &r, 4); return r; }
};
struct AnyBlk final : m::Block {
	uint32_t a, b;
	AnyBlk(uint32_t a, uint32_t b) : a(a), b(b) {}
	U32 value() const override { return {a, b}; }
};
inline std::shared_ptr<const m::Block> anyBlk(const char *a, const char *b) { return std::make_shared<AnyBlk>(in32(a), in32(b)); }

// GOST R 34.12-2015, 5.2-5.4; f(word, index) is g[K_{index+1}]
template <class F> U32 stdRounds(U32 x, const int *order, int n, F f)
{
	uint32_t a1 = x.second, a0 = x.first;
	for (int i = 0; i < n; i++) { const uint32_t t = a1 ^ f(a0, order[i]); a1 = a0; a0 = t; }
	return {a0, a1};
}
inline const int *encOrder() { static const int o[32] = {0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 4, 5, 6, 7, 7, 6, 5, 4, 3, 2, 1, 0}; return o; }
inline const int *decOrder() { static const int o[32] = {0, 1, 2, 3, 4, 5, 6, 7, 7, 6, 5, 4, 3, 2, 1, 0, 7, 6, 5, 4, 3, 2, 1, 0, 7, 6, 5, 4, 3, 2, 1, 0}; return o; }
template <class F> U32 stdEncrypt(U32 x, F f) { U32 r = stdRounds(x, encOrder(), 32, f); return {r.second, r.first}; }
template <class F> U32 stdDecrypt(U32 x, F f) { U32 r = stdRounds(x, decOrder(), 32, f); return {r.second, r.first}; }
inline uint32_t uround(uint32_t v, int i) { return roundFn(v, i); }
inline U32 uEncrypt(U32 x) { return stdEncrypt(x, uround); }
inline U32 uDecrypt(U32 x) { return stdDecrypt(x, uround); }
inline U32 load32(const std::byte *p) { U32 r; memcpy(&r.first, p, 4); memcpy(&r.second, p + 4, 4); return r; }
inline void store32(std::byte *p, U32 v) { memcpy(p, &v.first, 4); memcpy(p + 4, &v.second, 4); }

extern const int stdPi[8][16];
inline uint32_t stdG(uint32_t sum)
{
	uint32_t r = 0;
	for (int i = 0; i < 8; i++) r |= uint32_t(stdPi[i][(sum >> (4 * i)) & 15]) << (4 * i);
	return (r << 11) | (r >> 21);
}

// sinks and sources
struct RecSink final : goost::Sink {
	Bytes data;
	RecSink() {}
	explicit RecSink(const Bytes &d) : data(d) {}
	std::shared_ptr<const Sink> write(const Bytes &d) const override { Bytes n = data; for (auto x : d) n.push_back(x); return std::make_shared<RecSink>(n); }
	std::shared_ptr<const Sink> finalize() const override { return std::make_shared<RecSink>(data); }
};
inline Bytes recorded(const std::shared_ptr<const goost::Sink> &s)
{
	auto r = std::dynamic_pointer_cast<const RecSink>(s);
	if (!r) { ctx_fail("the underlying sink comes back"); return {}; }
	return r->data;
}
struct MemSource final : goost::Source {
	Bytes data; size_t pos;
	explicit MemSource(const Bytes &d, size_t pos = 0) : data(d), pos(pos) {}
	std::pair<Bytes, std::shared_ptr<const Source>> read(size_t n) const override
	{
		const size_t k = data.size() - pos < n ? data.size() - pos : n;
		return {Bytes(data.begin() + pos, data.begin() + pos + k), std::make_shared<MemSource>(data, pos + k)};
	}
};
struct LongSource final : goost::Source {
	std::shared_ptr<const Bytes> data; size_t pos;
	explicit LongSource(const std::shared_ptr<const Bytes> &d, size_t pos = 0) : data(d), pos(pos) {}
	std::pair<Bytes, std::shared_ptr<const Source>> read(size_t n) const override
	{
		const size_t k = data->size() - pos < n ? data->size() - pos : n;
		return {Bytes(data->begin() + pos, data->begin() + pos + k), std::make_shared<LongSource>(data, pos + k)};
	}
};
// cipher feedback over an arbitrary round function; blocks==2: Magma, 1: GOST 28147-89
template <class F> Bytes stdCfbOf(const Bytes &in, uint64_t r0, uint64_t r1, int depth, bool decrypt, F f)
{
	Bytes out;
	uint64_t reg[2] = {r0, r1};
	for (size_t o = 0; o < in.size(); o += 8) {
		const U32 g = stdEncrypt({uint32_t(reg[0]), uint32_t(reg[0] >> 32)}, f);
		std::byte k[8]; store32(k, g);
		uint64_t c = 0;
		for (size_t i = 0; i < 8 && o + i < in.size(); i++) {
			const std::byte x = in[o + i] ^ k[i];
			out.push_back(x);
			c |= uint64_t(decrypt ? in[o + i] : x) << (8 * i);
		}
		if (depth == 2) { reg[0] = reg[1]; reg[1] = c; } else reg[0] = c;
	}
	return out;
}
inline Bytes stdCfb(const Bytes &in, uint64_t r0, uint64_t r1, int depth, bool decrypt) { return stdCfbOf(in, r0, r1, depth, decrypt, uround); }
// key data
struct AnyKeyData final : m::KeyData {
	uint32_t key(int index) const override { uint32_t k[8]; ctx_in("key", k, sizeof k); if (index < 0 || index > 7) throw std::out_of_range("key index"); return k[index]; }
};
// eight different words whose sums with anything have a small normal form
inline uint32_t thinWord(int i) { return uint32_t((i * 3 + 5) & 7) << 29; }
struct ThinKeyData final : m::KeyData {
	uint32_t key(int index) const override { if (index < 0 || index > 7) throw std::out_of_range("key index"); return thinWord(index); }
};
inline uint32_t cheapSum(uint32_t v, int i) { return cheapRound(v + thinWord(i), 0); }
// any eight words, any substitution
inline uint32_t anyRound(uint32_t v, int i) { uint32_t k[8]; ctx_in("key", k, sizeof k); uint32_t s = v + k[i], r; ctx_uf("sbox", &s, 4, &r, 4); return r; }
inline uint32_t thinRound(uint32_t v, int i) { uint32_t s = v + thinWord(i), r; ctx_uf("sbox", &s, 4, &r, 4); return r; }

// ---------------------------------------------------------------- Kuznyechik
namespace k = goost::kuznyechik;
struct AnyBlk128 final : k::Block {
	uint64_t a, b;
	AnyBlk128(uint64_t a, uint64_t b) : a(a), b(b) {}
	U64 value() const override { return {a, b}; }
};
inline std::shared_ptr<const k::Block> anyBlk128(const char *n) { uint64_t v[2]; ctx_in(n, v, 16); return std::make_shared<AnyBlk128>(v[0], v[1]); }
inline U64 in128(const char *n) { uint64_t v[2]; ctx_in(n, v, 16); return {v[0], v[1]}; }
struct KeyHalves final : k::Key::Data {
	U64 hi, lo;
	KeyHalves(U64 hi, U64 lo) : hi(hi), lo(lo) {}
	std::shared_ptr<const k::Block> low() const override { return std::make_shared<AnyBlk128>(lo.first, lo.second); }
	std::shared_ptr<const k::Block> high() const override { return std::make_shared<AnyBlk128>(hi.first, hi.second); }
};
U64 stdS(U64 x);
U64 stdR(U64 x);
U64 stdL(U64 x);
inline U64 xor128(U64 a, U64 b) { return {a.first ^ b.first, a.second ^ b.second}; }
struct StdKey {
	U64 k[10];
	StdKey(U64 hi, U64 lo);
	U64 encrypt(U64 x) const;
};
