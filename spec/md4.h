// RFC 1320
#include "common.h"
struct S { u32 h[4]; };
static void s_init_(S &s, const u8 *) { s.h[0] = 0x67452301u; s.h[1] = 0xefcdab89u; s.h[2] = 0x98badcfeu; s.h[3] = 0x10325476u; }
static void s_block_(S &s, const u8 *m, u64)
{
	static const u8 ord[48] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 0,4,8,12,1,5,9,13,2,6,10,14,3,7,11,15, 0,8,4,12,2,10,6,14,1,9,5,13,3,11,7,15};
	static const u8 sh[12] = {3,7,11,19, 3,5,9,13, 3,9,11,15};
	u32 a = s.h[0], b = s.h[1], c = s.h[2], d = s.h[3];
	for (int t = 0; t < 48; ++t)
	{
		u32 f, k;
		if (t < 16) { f = (b & c) | (~b & d); k = 0; } else if (t < 32) { f = (b & c) | (b & d) | (c & d); k = 0x5a827999u; } else { f = b ^ c ^ d; k = 0x6ed9eba1u; }
		u32 r = rol32(a + f + le32(m + 4 * ord[t]) + k, sh[t / 16 * 4 + t % 4]);
		a = d; d = c; c = b; b = r;
	}
	s.h[0] += a; s.h[1] += b; s.h[2] += c; s.h[3] += d;
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 64, 8, false); for (int i = 0; i < 4; ++i) put_le32(o + 4 * i, s.h[i]); }
#include "entry.h"
