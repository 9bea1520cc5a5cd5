// TTAS.KO-12.0011/R1
#include "common.h"
struct S { u32 h[5]; };
static void s_init_(S &s, const u8 *) { static const u32 iv[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u}; for (int i = 0; i < 5; ++i) s.h[i] = iv[i]; }
static void s_block_(S &s, const u8 *m, u64)
{
	// message index for each step; 16..19 are the round-dependent xors
	static const u8 l[80] = {18,0,1,2,3,19,4,5,6,7,16,8,9,10,11,17,12,13,14,15, 18,3,6,9,12,19,15,2,5,8,16,11,14,1,4,17,7,10,13,0, 18,12,5,14,7,19,0,9,2,11,16,4,13,6,15,17,8,1,10,3, 18,7,2,13,8,19,3,14,9,4,16,15,10,5,0,17,11,6,1,12};
	static const u8 xs[4][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {3,6,9,12,15,2,5,8,11,14,1,4,7,10,13,0}, {12,5,14,7,0,9,2,11,4,13,6,15,8,1,10,3}, {7,2,13,8,3,14,9,4,15,10,5,0,11,6,1,12}};
	static const u8 s1[20] = {5,11,7,15,6,13,8,14,7,12,9,11,8,15,6,12,9,14,5,13};
	static const u8 s2[4] = {10, 17, 25, 30};
	static const u32 K[4] = {0, 0x5a827999u, 0x6ed9eba1u, 0x8f1bbcdcu};
	u32 x[20];
	u32 a = s.h[0], b = s.h[1], c = s.h[2], d = s.h[3], e = s.h[4];
	for (int i = 0; i < 16; ++i) x[i] = le32(m + 4 * i);
	for (int t = 0; t < 80; ++t)
	{
		int r = t / 20;
		if (t % 20 == 0) for (int i = 0; i < 4; ++i) x[16 + i] = x[xs[r][4 * i]] ^ x[xs[r][4 * i + 1]] ^ x[xs[r][4 * i + 2]] ^ x[xs[r][4 * i + 3]];
		u32 f = r == 0 ? (b & c) | (~b & d) : r == 2 ? c ^ (b | ~d) : b ^ c ^ d;
		u32 q = rol32(a, s1[t % 20]) + f + e + x[l[t]] + K[r];
		e = d; d = c; c = rol32(b, s2[r]); b = a; a = q;
	}
	s.h[0] += a; s.h[1] += b; s.h[2] += c; s.h[3] += d; s.h[4] += e;
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 64, 8, false); for (int i = 0; i < 5; ++i) put_le32(o + 4 * i, s.h[i]); }
#include "entry.h"
