// BLAKE-384/512 (SHA-3 finalist version, 16 rounds)
#include "common.h"
struct S { u64 h[8]; };
static const u8 SG[10][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static void s_init_(S &s, const u8 *) { for (int i = 0; i < 8; ++i) s.h[i] = IV[i]; }
static void comp(S &s, const u8 *p, u64 t0, u64 t1)
{
	u64 v[16], m[16];
	for (int i = 0; i < 16; ++i) m[i] = be64(p + 8 * i);
	for (int i = 0; i < 8; ++i) { v[i] = s.h[i]; v[8 + i] = CB512[i]; }
	v[12] ^= t0; v[13] ^= t0; v[14] ^= t1; v[15] ^= t1;
	static const u8 q[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
	for (int r = 0; r < 16; ++r) for (int i = 0; i < 8; ++i)
	{
		const u8 *g = SG[r % 10]; u64 &a = v[q[i][0]], &b = v[q[i][1]], &c = v[q[i][2]], &d = v[q[i][3]];
		int x = g[2 * i], y = g[2 * i + 1];
		a += b + (m[x] ^ CB512[y]); d = ror64(d ^ a, 32); c += d; b = ror64(b ^ c, 25);
		a += b + (m[y] ^ CB512[x]); d = ror64(d ^ a, 16); c += d; b = ror64(b ^ c, 11);
	}
	for (int i = 0; i < 8; ++i) s.h[i] ^= v[i] ^ v[8 + i];
}
static void s_block_(S &s, const u8 *m, u64 idx) { comp(s, m, (idx + 1) << 10, (idx + 1) >> 54); }
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o)
{
	u8 b[256]; u64 len = n * 128 + k, lo = len << 3, hi = len >> 61;
	for (int i = 0; i < 256; ++i) b[i] = 0;
	for (u64 i = 0; i < k; ++i) b[i] = t[i];
	int tot = k + 17 <= 128 ? 128 : 256;
	b[k] = 0x80; if (DLEN == 64) b[tot - 17] |= 1;
	put_be64(b + tot - 16, hi); put_be64(b + tot - 8, lo);
	if (tot == 128) comp(s, b, k ? lo : 0, k ? hi : 0);
	else { comp(s, b, lo, hi); comp(s, b + 128, 0, 0); }
	for (int i = 0; i < DLEN; ++i) o[i] = (u8)(s.h[i / 8] >> (56 - 8 * (i % 8)));
}
#include "entry.h"
