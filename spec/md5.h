// RFC 1321
#include "common.h"
struct S { u32 h[4]; };
static void s_init_(S &s, const u8 *) { s.h[0] = 0x67452301u; s.h[1] = 0xefcdab89u; s.h[2] = 0x98badcfeu; s.h[3] = 0x10325476u; }
static void s_block_(S &s, const u8 *m, u64)
{
	static const u8 sh[16] = {7,12,17,22, 5,9,14,20, 4,11,16,23, 6,10,15,21};
	u32 a = s.h[0], b = s.h[1], c = s.h[2], d = s.h[3];
	for (int i = 0; i < 64; ++i)
	{
		u32 f; int g;
		if (i < 16) { f = (b & c) | (~b & d); g = i; }
		else if (i < 32) { f = (b & d) | (c & ~d); g = (5 * i + 1) & 15; }
		else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) & 15; }
		else { f = c ^ (b | ~d); g = (7 * i) & 15; }
		u32 r = b + rol32(a + f + KMD5[i] + le32(m + 4 * g), sh[i / 16 * 4 + i % 4]);
		a = d; d = c; c = b; b = r;
	}
	s.h[0] += a; s.h[1] += b; s.h[2] += c; s.h[3] += d;
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 64, 8, false); for (int i = 0; i < 4; ++i) put_le32(o + 4 * i, s.h[i]); }
#include "entry.h"
