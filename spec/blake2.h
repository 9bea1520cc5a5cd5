// RFC 7693, unkeyed, DLEN output bytes; BITS = 64 (BLAKE2b) or 32 (BLAKE2s)
#include "common.h"
#if BITS == 64
typedef u64 wd;
#define RORW ror64
#define NR 12
#define IVW IV512
static const int RT[4] = {32, 24, 16, 63};
#else
typedef u32 wd;
#define RORW ror32
#define NR 10
#define IVW IV256
static const int RT[4] = {16, 12, 8, 7};
#endif
#define BB (BITS * 2)
struct S { wd h[8]; };
static const u8 SG[10][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static void s_init_(S &s, const u8 *) { for (int i = 0; i < 8; ++i) s.h[i] = IVW[i]; s.h[0] ^= (wd)(0x01010000u ^ DLEN); }
static void comp(S &s, const u8 *p, wd t0, wd t1, bool last)
{
	wd v[16], m[16];
	for (int i = 0; i < 16; ++i) { m[i] = 0; for (int j = 0; j < BITS / 8; ++j) m[i] |= (wd)p[i * (BITS / 8) + j] << (8 * j); }
	for (int i = 0; i < 8; ++i) { v[i] = s.h[i]; v[8 + i] = IVW[i]; }
	v[12] ^= t0; v[13] ^= t1; if (last) v[14] = ~v[14];
	static const u8 q[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
	for (int r = 0; r < NR; ++r) for (int i = 0; i < 8; ++i)
	{
		const u8 *g = SG[r % 10]; wd &a = v[q[i][0]], &b = v[q[i][1]], &c = v[q[i][2]], &d = v[q[i][3]];
		a = a + b + m[g[2 * i]]; d = RORW(d ^ a, RT[0]); c = c + d; b = RORW(b ^ c, RT[1]);
		a = a + b + m[g[2 * i + 1]]; d = RORW(d ^ a, RT[2]); c = c + d; b = RORW(b ^ c, RT[3]);
	}
	for (int i = 0; i < 8; ++i) s.h[i] ^= v[i] ^ v[8 + i];
}
static void count(u64 len, wd &t0, wd &t1) { t0 = (wd)len; t1 = BITS == 64 ? (wd)0 : (wd)(len >> 32); }
static void s_block_(S &s, const u8 *m, u64 idx) { wd a, b; count((idx + 1) * BB, a, b); comp(s, m, a, b, false); }
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o)
{
	u8 b[BB]; wd t0, t1;
	for (u64 i = 0; i < BB; ++i) b[i] = i < k ? t[i] : 0;
	count(n * BB + k, t0, t1); comp(s, b, t0, t1, true);
	for (int i = 0; i < DLEN; ++i) o[i] = (u8)(s.h[i / (BITS / 8)] >> (8 * (i % (BITS / 8))));
}
#include "entry.h"
