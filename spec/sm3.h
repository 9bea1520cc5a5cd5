// GB/T 32905-2016
#include "common.h"
struct S { u32 h[8]; };
static void s_init_(S &s, const u8 *) { static const u32 iv[8] = {0x7380166fu, 0x4914b2b9u, 0x172442d7u, 0xda8a0600u, 0xa96f30bcu, 0x163138aau, 0xe38dee4du, 0xb0fb0e4eu}; for (int i = 0; i < 8; ++i) s.h[i] = iv[i]; }
static u32 P0(u32 x) { return x ^ rol32(x, 9) ^ rol32(x, 17); }
static u32 P1(u32 x) { return x ^ rol32(x, 15) ^ rol32(x, 23); }
static void s_block_(S &s, const u8 *m, u64)
{
	u32 w[68];
	for (int j = 0; j < 16; ++j) w[j] = be32(m + 4 * j);
	for (int j = 16; j < 68; ++j) w[j] = P1(w[j - 16] ^ w[j - 9] ^ rol32(w[j - 3], 15)) ^ rol32(w[j - 13], 7) ^ w[j - 6];
	u32 a = s.h[0], b = s.h[1], c = s.h[2], d = s.h[3], e = s.h[4], f = s.h[5], g = s.h[6], h = s.h[7];
	for (int j = 0; j < 64; ++j)
	{
		u32 T = j < 16 ? 0x79cc4519u : 0x7a879d8au;
		u32 ss1 = rol32(rol32(a, 12) + e + rol32(T, j % 32), 7), ss2 = ss1 ^ rol32(a, 12);
		u32 ff = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c), gg = j < 16 ? e ^ f ^ g : (e & f) | (~e & g);
		u32 t1 = ff + d + ss2 + (w[j] ^ w[j + 4]), t2 = gg + h + ss1 + w[j];
		d = c; c = rol32(b, 9); b = a; a = t1; h = g; g = rol32(f, 19); f = e; e = P0(t2);
	}
	s.h[0] ^= a; s.h[1] ^= b; s.h[2] ^= c; s.h[3] ^= d; s.h[4] ^= e; s.h[5] ^= f; s.h[6] ^= g; s.h[7] ^= h;
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 64, 8, true); for (int i = 0; i < 8; ++i) put_be32(o + 4 * i, s.h[i]); }
#include "entry.h"
