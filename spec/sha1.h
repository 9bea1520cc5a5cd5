// FIPS 180-4 SHA-1, written from the definition.
#include "common.h"
struct S { u32 h[5]; };
static void s_init_(S &s, const u8 *) { const u32 iv[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u}; for (int i = 0; i < 5; ++i) s.h[i] = iv[i]; }
static void s_block_(S &s, const u8 *m, u64)
{
	u32 w[80];
	for (int t = 0; t < 16; ++t) w[t] = be32(m + 4 * t);
	for (int t = 16; t < 80; ++t) w[t] = rol32(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
	u32 a = s.h[0], b = s.h[1], c = s.h[2], d = s.h[3], e = s.h[4];
	for (int t = 0; t < 80; ++t)
	{
		u32 f, k;
		if (t < 20) { f = (b & c) ^ (~b & d); k = 0x5a827999u; }
		else if (t < 40) { f = b ^ c ^ d; k = 0x6ed9eba1u; }
		else if (t < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdcu; }
		else { f = b ^ c ^ d; k = 0xca62c1d6u; }
		u32 T = rol32(a, 5) + f + e + k + w[t];
		e = d; d = c; c = rol32(b, 30); b = a; a = T;
	}
	s.h[0] += a; s.h[1] += b; s.h[2] += c; s.h[3] += d; s.h[4] += e;
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o)
{
	md_pad(s, t, n, k, 64, 8, true);
	for (int i = 0; i < 5; ++i) put_be32(o + 4 * i, s.h[i]);
}
#include "entry.h"
