// Source-level models of the parts of the C++ run-time library that exist only
// as machine code here.  They are analysed together with the library.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <istream>
#include <list>
#include <map>
#include <mutex>
#include <sstream>
#include <string>

template class std::basic_string<char>;

extern "C" { __thread int ctx_errno; }

// ---- std::call_once
namespace std {
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}

// ---- number parsing
namespace {
constexpr signed char N = 99;
const signed char digitValue[256] = {
#define R16 N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N
	R16, R16, R16, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, N, N, N, N, N, N,
	N, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, N, N, N, N, N,
	N, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, N, N, N, N, N,
	R16, R16, R16, R16, R16, R16, R16, R16
};
bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
struct Num { unsigned long long v; bool neg, ovf, any; size_t end; };
Num parse(const char *s, size_t n, size_t pos, unsigned base, bool skip)
{
	Num r{0, false, false, false, pos};
	if (skip) while (pos < n && space(s[pos])) pos++;
	if (pos < n && (s[pos] == '-' || s[pos] == '+')) { r.neg = s[pos] == '-'; pos++; }
	if ((base == 16 || base == 0) && pos + 1 < n && s[pos] == '0' && (s[pos + 1] == 'x' || s[pos + 1] == 'X')
		&& pos + 2 < n && digitValue[(unsigned char)s[pos + 2]] < 16) { pos += 2; base = 16; }
	if (base == 0) base = pos < n && s[pos] == '0' ? 8 : 10;
	while (pos < n) {
		const unsigned d = digitValue[(unsigned char)s[pos]];
		if (d >= base) break;
		if (base == 16) { if (r.v >> 60) r.ovf = true; r.v = (r.v << 4) | d; }
		else {
			const unsigned __int128 w = (unsigned __int128)r.v * base + d;
			if (uint64_t(w >> 64)) r.ovf = true;
			r.v = uint64_t(w);
		}
		r.any = true; pos++;
		r.end = pos;
	}
	return r;
}
size_t len(const char *s) { return std::strlen(s); }
unsigned long long stou(const char *s, char **e, int base)
{
	const Num r = parse(s, len(s), 0, base, true);
	if (e) *e = const_cast<char *>(s + (r.any ? r.end : 0));
	if (r.ovf) { ctx_errno = 34; return ~0ull; }
	return r.neg ? -r.v : r.v;
}
long long stos(const char *s, char **e, int base)
{
	const Num r = parse(s, len(s), 0, base, true);
	if (e) *e = const_cast<char *>(s + (r.any ? r.end : 0));
	if (r.ovf || (r.v >> 63 && !(r.neg && r.v == 1ull << 63))) { ctx_errno = 34; return r.neg ? (long long)(1ull << 63) : (long long)(~0ull >> 1); }
	return r.neg ? -(long long)r.v : (long long)r.v;
}
}
#define STO(name, ret, fn) extern "C" ret ctx_##name(const char *s, char **e, int b) __asm__(#name); ret ctx_##name(const char *s, char **e, int b) { return fn(s, e, b); }
STO(strtoull, unsigned long long, stou)
STO(strtoul, unsigned long, stou)
STO(strtoll, long long, stos)
STO(strtol, long, stos)
STO(__isoc23_strtoull, unsigned long long, stou)
STO(__isoc23_strtoul, unsigned long, stou)
STO(__isoc23_strtoll, long long, stos)
STO(__isoc23_strtol, long, stos)

// ---- istringstream: only numbers, characters and state are modelled
namespace {
struct Iss {
	const void *vptr; long gcount;
	char *buf; size_t size, pos; char pad[120 - 40];
	struct Ios { const void *vptr; long prec, width; int flags; int exc; int state; } ios;
};
static_assert(offsetof(Iss, ios) == 120, "layout");
const long vbase[4] = {120, 0, 0, 0};
template <class T> void extract(Iss *s, T &out)
{
	if (s->ios.state) { s->ios.state |= std::ios_base::failbit; return; }
	const int b = s->ios.flags & std::ios_base::basefield;
	const Num r = parse(s->buf, s->size, s->pos, b == std::ios_base::hex ? 16 : b == std::ios_base::oct ? 8 : b == 0 ? 0 : 10, s->ios.flags & std::ios_base::skipws);
	T v = T(r.neg ? -r.v : r.v); bool ok = r.any;
	if (r.any) {
		s->pos = r.end;
		const T mx = T(~T(0)) > T(0) ? T(~T(0)) : T((~0ull >> 1) >> (8 * (8 - sizeof(T))));
		if (r.ovf || r.v > (unsigned long long)mx) { v = mx; ok = false; }
	} else v = 0;
	out = v;
	if (!ok) s->ios.state |= std::ios_base::failbit;
	if (s->pos >= s->size) s->ios.state |= std::ios_base::eofbit;
}
void init(Iss *s, const char *p, size_t n)
{
	s->vptr = &vbase[3]; s->gcount = 0;
	s->buf = new char[n + 1]; memcpy(s->buf, p, n); s->buf[n] = 0; s->size = n; s->pos = 0;
	s->ios.vptr = &vbase[3]; s->ios.prec = 6; s->ios.width = 0;
	s->ios.flags = std::ios_base::skipws | std::ios_base::dec; s->ios.exc = 0; s->ios.state = 0;
}
}
extern "C" {
void ctx_iss_c1(Iss *, const std::string &, int) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
void ctx_iss_c1(Iss *s, const std::string &t, int) { init(s, t.data(), t.size()); }
void ctx_ss_c1(Iss *, const std::string &, int) __asm__("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
void ctx_ss_c1(Iss *s, const std::string &t, int) { init(s, t.data(), t.size()); }
void ctx_iss_d1(Iss *) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev");
void ctx_iss_d1(Iss *s) { delete[] s->buf; }
void ctx_iss_manip(Iss *, Iss::Ios &(*)(Iss::Ios &)) __asm__("_ZNSirsEPFRSt8ios_baseS0_E_");
Iss *ctx_iss_ios(Iss *, std::ios_base &(*)(std::ios_base &)) __asm__("_ZNSirsEPFRSt8ios_baseS0_E");
Iss *ctx_iss_ios(Iss *s, std::ios_base &(*f)(std::ios_base &)) { f(*reinterpret_cast<std::ios_base *>(&s->ios)); return s; }
#define EXTR(sym, T, id) Iss *ctx_ex_##id(Iss *, T &) __asm__(sym); Iss *ctx_ex_##id(Iss *s, T &v) { extract(s, v); return s; }
EXTR("_ZNSirsERj", unsigned, uint)
EXTR("_ZNSirsERm", unsigned long, ulong)
EXTR("_ZNSirsERy", unsigned long long, ull)
EXTR("_ZNSirsERi", int, int)
EXTR("_ZNSirsERl", long, long)
EXTR("_ZNSirsERx", long long, ll)
EXTR("_ZNSirsERt", unsigned short, ushort)
int ctx_iss_get(Iss *) __asm__("_ZNSi3getEv");
int ctx_iss_get(Iss *s) { if (s->pos >= s->size) { s->ios.state |= std::ios_base::eofbit | std::ios_base::failbit; return -1; } return (unsigned char)s->buf[s->pos++]; }
int ctx_iss_peek(Iss *) __asm__("_ZNSi4peekEv");
int ctx_iss_peek(Iss *s) { if (s->pos >= s->size) { s->ios.state |= std::ios_base::eofbit; return -1; } return (unsigned char)s->buf[s->pos]; }
bool ctx_ios_fail(const Iss::Ios *) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv");
bool ctx_ios_fail(const Iss::Ios *i) { return (i->state & (std::ios_base::failbit | std::ios_base::badbit)) != 0; }
bool ctx_ios_eof(const Iss::Ios *) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv");
bool ctx_ios_eof(const Iss::Ios *i) { return (i->state & std::ios_base::eofbit) != 0; }
bool ctx_ios_good(const Iss::Ios *) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv");
bool ctx_ios_good(const Iss::Ios *i) { return i->state == 0; }
bool ctx_ios_bool(const Iss::Ios *) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool ctx_ios_bool(const Iss::Ios *i) { return !ctx_ios_fail(i); }
bool ctx_ios_not(const Iss::Ios *) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool ctx_ios_not(const Iss::Ios *i) { return ctx_ios_fail(i); }
}

// ---- node containers (shape only; balance does not matter here)
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
	x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
	if (left) {
		p->_M_left = x;
		if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
	} else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
	if (h._M_parent) h._M_parent->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base *y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
	_Rb_tree_node_base *y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
}
