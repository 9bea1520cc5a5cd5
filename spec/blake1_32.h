// BLAKE-224/256 (SHA-3 finalist version, 14 rounds)
#include "common.h"
struct S { u32 h[8]; };
static const u8 SG[10][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static void s_init_(S &s, const u8 *) { for (int i = 0; i < 8; ++i) s.h[i] = IV[i]; }
static void comp(S &s, const u8 *p, u64 t)
{
	u32 v[16], m[16];
	for (int i = 0; i < 16; ++i) m[i] = be32(p + 4 * i);
	for (int i = 0; i < 8; ++i) { v[i] = s.h[i]; v[8 + i] = CB256[i]; }
	v[12] ^= (u32)t; v[13] ^= (u32)t; v[14] ^= (u32)(t >> 32); v[15] ^= (u32)(t >> 32);
	static const u8 q[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
	for (int r = 0; r < 14; ++r) for (int i = 0; i < 8; ++i)
	{
		const u8 *g = SG[r % 10]; u32 &a = v[q[i][0]], &b = v[q[i][1]], &c = v[q[i][2]], &d = v[q[i][3]];
		int x = g[2 * i], y = g[2 * i + 1];
		a += b + (m[x] ^ CB256[y]); d = ror32(d ^ a, 16); c += d; b = ror32(b ^ c, 12);
		a += b + (m[y] ^ CB256[x]); d = ror32(d ^ a, 8); c += d; b = ror32(b ^ c, 7);
	}
	for (int i = 0; i < 8; ++i) s.h[i] ^= v[i] ^ v[8 + i];
}
static void s_block_(S &s, const u8 *m, u64 idx) { comp(s, m, (idx + 1) * 512); }
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o)
{
	u8 b[128]; u64 bits = n * 512 + k * 8;
	for (int i = 0; i < 128; ++i) b[i] = 0;
	for (u64 i = 0; i < k; ++i) b[i] = t[i];
	int tot = k + 9 <= 64 ? 64 : 128;
	b[k] = 0x80; if (DLEN == 32) b[tot - 9] |= 1;
	put_be64(b + tot - 8, bits);
	if (tot == 64) comp(s, b, k ? bits : 0);
	else { comp(s, b, bits); comp(s, b + 64, 0); }
	for (int i = 0; i < DLEN; ++i) o[i] = (u8)(s.h[i / 4] >> (24 - 8 * (i % 4)));
}
#include "entry.h"
