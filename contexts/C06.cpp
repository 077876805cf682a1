// Malformed key material.
#include "ctx.h"
#include <climits>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
inline namespace in_C06 {
using namespace std;

static string digits(size_t n, char fill = 0)
{
	string s;
	for (size_t i = 0; i < n; i++) s.push_back(fill ? fill : "123456789abcdef0"[i % 16]);
	return s;
}
// every use of the key that the cipher makes
static bool magmaRefuses(const string &s)
{
	try {
		const m::KeyDataString k(s);
		for (int i = 0; i < 8; i++) k.key(i);
	} catch (...) { return true; }
	return false;
}
static bool magmaKeyRefuses(const string &s)
{
	try {
		const m::LazyKey k(s, make_shared<AnySbox>());
		for (int i = 0; i < 8; i++) k.transform(1, i);
	} catch (...) { return true; }
	return false;
}
static bool kuzRefuses(const string &s)
{
	try {
		const k::KeyDataString k(s);
		k.high()->value();
		k.low()->value();
	} catch (...) { return true; }
	return false;
}
static bool kuzKeyRefuses(const string &s)
{
	try { k::Key(s).encrypt(make_shared<AnyBlk128>(1, 2))->value(); } catch (...) { return true; }
	return false;
}
static const int LENS = 96;
static size_t lengthOf(int i) { return i < LENS ? size_t(i) : extraLen(i - LENS, LENS - 1, 5000); }
CTX C06_length(int i)
{
	const size_t n = lengthOf(i);
	if (n == 64) {
		ctx_true("64 digits are accepted (Magma)", !magmaRefuses(digits(n)));
		ctx_true("64 digits are accepted (Magma key)", !magmaKeyRefuses(digits(n)));
		ctx_true("64 digits are accepted (Kuznyechik)", !kuzRefuses(digits(n)));
		return;
	}
	for (char fill : {'\0', '0', 'F'}) {
		ctx_true("a string of the wrong length is refused (Magma)", magmaRefuses(digits(n, fill)));
		ctx_true("a string of the wrong length is refused (Magma key)", magmaKeyRefuses(digits(n, fill)));
		ctx_true("a string of the wrong length is refused (Kuznyechik)", kuzRefuses(digits(n, fill)));
	}
}
extern "C" int C06_length_N() { return LENS + extraLens(LENS - 1, 5000); }
CTX C06_kuz_cipher(int i)
{
	static const size_t n[] = {0, 1, 16, 31, 32, 33, 63, 65, 66, 80, 96, 128};
	ctx_true("the cipher refuses a string of the wrong length", kuzKeyRefuses(digits(n[i])));
}
CASES(C06_kuz_cipher, 12)
static bool hexDigit(unsigned char c)
{
	static const unsigned char t[256] = {
		0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
		0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0,
		0, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
		0, 1, 1, 1, 1, 1, 1};
	return t[c];
}
CTX C06_digit(int i)
{
	// any of the 256 characters at position i
	char c; ctx_in("char", &c, 1);
	string s = digits(64, i & 64 ? '0' : 0);
	s[i & 63] = c;
	const bool ok = hexDigit(c);
	ctx_true("a character that is no hexadecimal digit is refused (Magma)", ok | magmaRefuses(s));
	ctx_true("a character that is no hexadecimal digit is refused (Kuznyechik)", ok | kuzRefuses(s));
}
CASES(C06_digit, 128)
CTX C06_pair(int i)
{
	// a digit, a sign or a blank at the start of a group, then any character
	string s = digits(64, i & 1 ? '0' : 0);
	char c; ctx_in("char", &c, 1);
	const char first = "0 +-\n"[i / 16];
	const size_t at = size_t(i / 2 % 8) * 8;
	s[at] = first; s[at + 1] = c;
	const bool ok = hexDigit(first) & hexDigit(c);
	ctx_true("two characters that are not both hexadecimal digits are refused (Magma)", ok | magmaRefuses(s));
	ctx_true("two characters that are not both hexadecimal digits are refused (Kuznyechik)", ok | kuzRefuses(s));
}
CASES(C06_pair, 80)
CTX C06_decorated(int i)
{
	// 64 digits with something before, after, around or between them, whatever the characters are
	char c[3]; ctx_in("char", c, 3);
	const string d = digits(64, i & 16 ? '0' : 0), a(1, c[0]), b(c, 2), t(c, 3);
	string s;
	switch (i & 15) {
	case 0: s = a + d; break;
	case 1: s = d + a; break;
	case 2: s = b + d; break;
	case 3: s = d + b; break;
	case 4: s = a + d + string(1, c[1]); break;
	case 5: s = t + d; break;
	case 6: s = d + t; break;
	case 7: s = string("0x") + d; break;
	case 8: s = d + string(1, '\0'); break;
	case 9: s = d.substr(0, 32) + a + d.substr(32); break;
	default: {
		// groups of 2, 4, 8, 16 digits, or of 8 with a separator after the last
		static const size_t group[] = {2, 4, 8, 16, 8, 4};
		const size_t n = group[(i & 15) - 10];
		for (size_t k = 0; k < 64; k += n) { if (k) s.push_back(c[0]); s += d.substr(k, n); }
		if ((i & 15) >= 14) s.push_back(c[0]);
	}
	}
	ctx_true("decorated digits are refused (Magma)", magmaRefuses(s));
	ctx_true("decorated digits are refused (Kuznyechik)", kuzRefuses(s));
	ctx_true("decorated digits are refused (Magma key)", magmaKeyRefuses(s));
}
CASES(C06_decorated, 32)
CTX C06_filled(int i)
{
	// too few digits, filled up to 64 or not with whatever characters
	char c; ctx_in("char", &c, 1);
	static const size_t n[] = {0, 8, 16, 32, 48, 56, 60, 62, 63};
	const size_t k = n[i % 9];
	string s = digits(k); s.resize(i < 9 ? 64 : k + 1, c);
	const bool ok = i < 9 ? hexDigit(c) : s.size() == 64 && hexDigit(c);
	ctx_true("too few digits are refused (Magma)", ok | magmaRefuses(s));
	ctx_true("too few digits are refused (Kuznyechik)", ok | kuzRefuses(s));
}
CASES(C06_filled, 18)
CTX C06_digit_key(int i)
{
	// the same through the key classes, at the borders of the groups
	static const int at[] = {0, 1, 7, 8, 15, 16, 31, 32, 47, 48, 56, 62, 63};
	char c; ctx_in("char", &c, 1);
	string s = digits(64);
	s[at[i]] = c;
	ctx_true("a character that is no hexadecimal digit is refused (Magma key)", hexDigit(c) | magmaKeyRefuses(s));
}
CASES(C06_digit_key, 13)
CTX C06_odd(int i)
{
	// things number parsers tend to swallow
	static const char *const odd[] = {" ", "  ", "\t", "+", "-", "0x", "0X", "\n", "g", "x", ".", "#", "z1", "-1", " 1", "+0x", "\v", "\f", "\r"};
	static const int at[] = {0, 6, 8, 14, 16, 24, 30, 32, 40, 46, 48, 56, 62};
	for (int p : at) {
		string s = digits(64, '0'); s.replace(p, strlen(odd[i]) > 2 ? 2 : strlen(odd[i]), odd[i], strlen(odd[i]) > 2 ? 2 : strlen(odd[i]));
		ctx_true("what is no digit is refused (Magma)", magmaRefuses(s));
		ctx_true("what is no digit is refused (Kuznyechik)", kuzRefuses(s));
	}
}
CASES(C06_odd, 19)
static int badIndex(int i)
{
	static const int b[] = {-1, 8, 9, -8, 100, INT_MIN, INT_MAX, -2, 16, 255, 256, 65536, 63, 64};
	if (i < 14) return b[i];
	const int k = i - 14;                  // a valid index with one high bit set
	return int(unsigned(k % 8) | 1u << (3 + k / 8));
}
struct FreeData final : m::KeyData {
	uint32_t key(int i) const override { uint32_t a = i, r; ctx_uf("keydata", &a, 4, &r, 4); return r; }
};
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
CTX C06_index(int i)
{
	const int x = badIndex(i);
	const m::KeyDataString s(digits(64));
	ctx_true("string key data", throws([&] { s.key(x); }));
	const m::KeyCachedData c(make_unique<FreeData>());
	ctx_true("caching key data, cold", throws([&] { c.key(x); }));
	c.key(0);
	ctx_true("caching key data, warm", throws([&] { c.key(x); }));
	const m::KeyDataNative n(vector<uint32_t>(8, 1));
	ctx_true("native key data", throws([&] { n.key(x); }));
	const m::LazyKey k(vector<uint32_t>(8, 1), make_shared<AnySbox>()), l(digits(64), make_shared<AnySbox>());
	ctx_true("key from words", throws([&] { k.transform(1, x); }));
	ctx_true("key from a string", throws([&] { l.transform(1, x); }));
}
CASES(C06_index, 14 + 8 * 29)
CTX C06_short(int n)
{
	vector<uint32_t> w(n); if (n) ctx_in("key", w.data(), n * 4);
	const m::KeyDataNative d(w);
	for (int j = 0; j < 8; j++) ctx_true("a missing word of a native key", j < n || throws([&] { d.key(j); }));
	const m::LazyKey k(w, make_shared<AnySbox>());
	ctx_true("encryption under a native key with missing words", throws([&] { m::BlkEncrypted(make_shared<AnyBlk>(1, 2), make_shared<m::LazyKey>(w, make_shared<AnySbox>())).value(); }));
	for (int j = n; j < 8; j++) ctx_true("round with a missing word", throws([&] { k.transform(1, j); }));
}
CASES(C06_short, 8)
}
