// Call depth as a function of the number of blocks.
#include "flat.h"
inline namespace in_C18 {
using namespace std;
namespace g = goost::gost89;

// The depth for twice the number of blocks may exceed the depth for one by a few
// frames (tree-like recursion), not by a number of the order of the blocks.
// The operation runs once before, so that one-time work is not counted.
template <class F> static void bounded(F f)
{
	const int n = ctx_thorough() ? 96 : 32, slack = 7;
	f(size_t(2));
	ctx_depth_reset(); f(size_t(n)); const int a = ctx_depth_max();
	ctx_depth_reset(); f(size_t(2 * n)); const int b = ctx_depth_max();
	ctx_note("depth for n blocks", a); ctx_note("depth for 2n blocks", b);
	ctx_true("call depth does not grow with the number of blocks", b - a <= slack);
}
CTX C18_magma_imit(int i)
{
	const auto key = magmaKey();
	bounded([&](size_t n) { m::Imit(make_shared<ZeroSource>(8 * n + (i ? 3 : 0)), key).value(); });
}
CASES(C18_magma_imit, 2)
CTX C18_gost89_imit(int i)
{
	const auto key = magmaKey();
	bounded([&](size_t n) { g::DataImit(vector<uint8_t>(8 * n + (i ? 3 : 0)), key).value(); });
}
CASES(C18_gost89_imit, 2)
CTX C18_sink_once(int kind)
{
	// everything in one write
	bounded([&](size_t n) { sink(kind)->write(Bytes(8 * n))->finalize(); });
}
CASES(C18_sink_once, 3)
CTX C18_sink_tail(int kind)
{
	bounded([&](size_t n) { sink(kind)->write(Bytes(8 * n + 5))->finalize(); });
}
CASES(C18_sink_tail, 2)
CTX C18_sink_writes(int kind)
{
	// one block a write
	bounded([&](size_t n) { auto s = sink(kind); for (size_t i = 0; i < n; i++) s = s->write(Bytes(8)); s->finalize(); });
}
CASES(C18_sink_writes, 3)
CTX C18_sink_pieces(int kind)
{
	// three bytes a write
	bounded([&](size_t n) { auto s = sink(kind); for (size_t i = 0; i < n; i++) s = s->write(Bytes(3)); s->finalize(); });
}
CASES(C18_sink_pieces, 2)
CTX C18_sink_kept(int kind)
{
	// every state is kept and released afterwards
	bounded([&](size_t n) { vector<shared_ptr<const goost::Sink>> all(1, sink(kind)); for (size_t i = 0; i < n; i++) all.push_back(all.back()->write(Bytes(8))); while (all.size() > 1) all.erase(all.begin()); });
}
CASES(C18_sink_kept, 3)
CTX C18_source_once(int kind)
{
	bounded([&](size_t n) { source(kind, 8 * n)->read(8 * n); });
}
CASES(C18_source_once, 3)
CTX C18_source_more(int kind)
{
	// asks for more than there is
	bounded([&](size_t n) { source(kind, 8 * n + (kind < 2 ? 5 : 0))->read(8 * n + 100); });
}
CASES(C18_source_more, 3)
CTX C18_source_reads(int kind)
{
	bounded([&](size_t n) { auto s = source(kind, 8 * n); for (size_t i = 0; i < n; i++) s = s->read(8).second; });
}
CASES(C18_source_reads, 3)
CTX C18_source_pieces(int kind)
{
	bounded([&](size_t n) { auto s = source(kind, 8 * n); for (size_t i = 0; i < n; i++) s = s->read(3).second; });
}
CASES(C18_source_pieces, 2)
CTX C18_source_kept(int kind)
{
	bounded([&](size_t n) { vector<shared_ptr<const goost::Source>> all(1, source(kind, 8 * n)); for (size_t i = 0; i < n; i++) all.push_back(all.back()->read(8).second); while (all.size() > 1) all.erase(all.begin()); });
}
CASES(C18_source_kept, 3)

// ---------------------------------------------------------------- Kuznyechik
CTX C18_kuz_imit(int i)
{
	const auto key = kuzKey();
	bounded([&](size_t n) {
		if (i == 0) k::Imit(make_shared<ZeroStream>(n), key).value();
		else if (i == 1) k::Imit(make_shared<k::StMemory>(vector<uint64_t>(2 * n)), key).value();
		else if (i == 2) k::Imit(make_shared<k::StMemory>(vector<uint64_t>(2 * n - 1)), key).value();
		else k::Imit(make_shared<k::StCTREncrypted>(make_shared<ZeroStream>(n), key, 7), key).value();
	});
}
CASES(C18_kuz_imit, 4)
CTX C18_stream_all(int kind)
{
	// every value
	const auto key = kuzKey();
	bounded([&](size_t n) { for (auto it = stream(kind, n, key)->iter(); it; it = it->next()) { it->value(); it->last(); it->size(); } });
}
CASES(C18_stream_all, 3)
CTX C18_stream_last(int kind)
{
	// only the last value
	const auto key = kuzKey();
	bounded([&](size_t n) { auto it = stream(kind, n, key)->iter(); while (!it->last()) it = it->next(); it->value(); it->size(); });
}
CASES(C18_stream_last, 3)
CTX C18_stream_walk(int kind)
{
	// no value at all: the chain is only destroyed
	const auto key = kuzKey();
	bounded([&](size_t n) { auto it = stream(kind, n, key)->iter(); for (size_t i = 0; i + 1 < n; i++) it = it->next(); });
}
CASES(C18_stream_walk, 3)
CTX C18_stream_kept(int kind)
{
	// every iterator is kept, the values are asked for from the end, released from the start
	const auto key = kuzKey();
	bounded([&](size_t n) {
		vector<shared_ptr<const k::Iterator>> all; for (auto it = stream(kind, n, key)->iter(); it; it = it->next()) all.push_back(it);
		for (size_t i = all.size(); i-- > 0;) all[i]->value();
		while (all.size() > 1) all.erase(all.begin());
	});
}
CASES(C18_stream_kept, 3)
CTX C18_key_blocks()
{
	// a key used for many blocks
	bounded([&](size_t n) { const auto key = kuzKey(); for (size_t i = 0; i < n; i++) key->encrypt(make_shared<AnyBlk128>(i, 0))->value(); });
}
}
