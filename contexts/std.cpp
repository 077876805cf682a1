// Reference definitions written down from GOST R 34.12-2015.
#include "ctx.h"

// 5.1.1: pi'_i, i = 0..7
const int stdPi[8][16] = {
	{12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1},
	{6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15},
	{11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0},
	{12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11},
	{7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12},
	{5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0},
	{8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7},
	{1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2},
};
// 4.1.1: pi'
static const uint8_t pi128[256] = {
	252, 238, 221, 17, 207, 110, 49, 22, 251, 196, 250, 218, 35, 197, 4, 77,
	233, 119, 240, 219, 147, 46, 153, 186, 23, 54, 241, 187, 20, 205, 95, 193,
	249, 24, 101, 90, 226, 92, 239, 33, 129, 28, 60, 66, 139, 1, 142, 79,
	5, 132, 2, 174, 227, 106, 143, 160, 6, 11, 237, 152, 127, 212, 211, 31,
	235, 52, 44, 81, 234, 200, 72, 171, 242, 42, 104, 162, 253, 58, 206, 204,
	181, 112, 14, 86, 8, 12, 118, 18, 191, 114, 19, 71, 156, 183, 93, 135,
	21, 161, 150, 41, 16, 123, 154, 199, 243, 145, 120, 111, 157, 158, 178, 177,
	50, 117, 25, 61, 255, 53, 138, 126, 109, 84, 198, 128, 195, 189, 13, 87,
	223, 245, 36, 169, 62, 168, 67, 201, 215, 121, 214, 246, 124, 34, 185, 3,
	224, 15, 236, 222, 122, 148, 176, 188, 220, 232, 40, 80, 78, 51, 10, 74,
	167, 151, 96, 115, 30, 0, 98, 68, 26, 184, 56, 130, 100, 159, 38, 65,
	173, 69, 70, 146, 39, 94, 85, 47, 140, 163, 165, 125, 105, 213, 149, 59,
	7, 88, 179, 64, 134, 172, 29, 247, 48, 55, 107, 228, 136, 217, 231, 137,
	225, 27, 131, 73, 76, 63, 248, 254, 141, 83, 170, 144, 202, 216, 133, 97,
	32, 113, 103, 164, 45, 43, 9, 91, 203, 155, 37, 208, 190, 229, 108, 82,
	89, 166, 116, 210, 230, 244, 180, 192, 209, 102, 175, 194, 57, 75, 99, 182,
};
// multiplication by a constant in GF(2)[x]/(x^8+x^7+x^6+x+1), without branches on a
static uint8_t mul(uint8_t a, uint8_t c)
{
	uint8_t r = 0;
	for (int i = 0; i < 8; i++) {
		if (c >> i & 1) r ^= a;
		a = uint8_t(a << 1) ^ uint8_t(-(a >> 7) & 0xc3);
	}
	return r;
}
// 4.1.2: l(a15..a0); byte i of the value is a_i
static const uint8_t lin[16] = {1, 148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148};
static void bytes(U64 x, uint8_t *b) { memcpy(b, &x.first, 8); memcpy(b + 8, &x.second, 8); }
static U64 value(const uint8_t *b) { U64 r; memcpy(&r.first, b, 8); memcpy(&r.second, b + 8, 8); return r; }
U64 stdS(U64 x) { uint8_t b[16]; bytes(x, b); for (auto &v : b) v = pi128[v]; return value(b); }
static void step(uint8_t *b)
{
	uint8_t s = 0;
	for (int i = 0; i < 16; i++) s ^= mul(b[i], lin[i]);
	for (int i = 0; i < 15; i++) b[i] = b[i + 1];
	b[15] = s;
}
U64 stdR(U64 x) { uint8_t b[16]; bytes(x, b); step(b); return value(b); }
U64 stdL(U64 x) { uint8_t b[16]; bytes(x, b); for (int i = 0; i < 16; i++) step(b); return value(b); }
StdKey::StdKey(U64 hi, U64 lo)
{
	U64 a1 = hi, a0 = lo;
	k[0] = hi; k[1] = lo;
	for (int j = 0; j < 4; j++) {
		for (int i = 1; i <= 8; i++) {
			const U64 c = stdL({uint64_t(8 * j + i), 0});
			const U64 t = xor128(stdL(stdS(xor128(a1, c))), a0);
			a0 = a1; a1 = t;
		}
		k[2 * j + 2] = a1; k[2 * j + 3] = a0;
	}
}
U64 StdKey::encrypt(U64 x) const
{
	for (int i = 0; i < 9; i++) x = stdL(stdS(xor128(x, k[i])));
	return xor128(x, k[9]);
}
