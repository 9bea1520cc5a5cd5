// RIPEMD-128/160/256/320 (Dobbertin, Bosselaers, Preneel). WIDTH selects the member.
#include "common.h"
#if WIDTH == 128
#define NW 4
#define LINES 1
#define RND 4
#elif WIDTH == 160
#define NW 5
#define LINES 1
#define RND 5
#elif WIDTH == 256
#define NW 4
#define LINES 2
#define RND 4
#else
#define NW 5
#define LINES 2
#define RND 5
#endif
struct S { u32 h[NW * LINES]; };
static const u8 RL[80] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
static const u8 RR[80] = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
static const u8 SL[80] = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
static const u8 SR[80] = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
static u32 RF(int j, u32 x, u32 y, u32 z) { return j == 0 ? x ^ y ^ z : j == 1 ? (x & y) | (~x & z) : j == 2 ? (x | ~y) ^ z : j == 3 ? (x & z) | (y & ~z) : x ^ (y | ~z); }
static void s_init_(S &s, const u8 *)
{
	static const u32 a[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
	static const u32 b[5] = {0x76543210u, 0xfedcba98u, 0x89abcdefu, 0x01234567u, 0x3c2d1e0fu};
	for (int i = 0; i < NW; ++i) { s.h[i] = a[i]; if (LINES == 2) s.h[NW + i < NW * LINES ? NW + i : 0] = b[i]; }
}
static void s_block_(S &s, const u8 *m, u64)
{
	static const u32 K1[5] = {0, 0x5a827999u, 0x6ed9eba1u, 0x8f1bbcdcu, 0xa953fd4eu};
	static const u32 K25[5] = {0x50a28be6u, 0x5c4dd124u, 0x6d703ef3u, 0x7a6d76e9u, 0};
	static const u32 K24[4] = {0x50a28be6u, 0x5c4dd124u, 0x6d703ef3u, 0};
	u32 x[16], L[NW], R[NW];
	for (int i = 0; i < 16; ++i) x[i] = le32(m + 4 * i);
	for (int i = 0; i < NW; ++i) { L[i] = s.h[i]; R[i] = s.h[LINES == 2 ? NW + i : i]; }
	for (int t = 0; t < RND * 16; ++t)
	{
		int r = t / 16;
		for (int side = 0; side < 2; ++side)
		{
			u32 *v = side ? R : L;
			u32 f = RF(side ? RND - 1 - r : r, v[1], v[2], v[3]);
			u32 k = side ? (RND == 4 ? K24[r < 4 ? r : 0] : K25[r]) : K1[r];
			u32 q = rol32(v[0] + f + x[side ? RR[t] : RL[t]] + k, side ? SR[t] : SL[t]);
			if (NW == 4) { v[0] = v[3]; v[3] = v[2]; v[2] = v[1]; v[1] = q; }
			else { q += v[NW - 1]; v[0] = v[NW - 1]; v[NW - 1] = v[3]; v[3] = rol32(v[2], 10); v[2] = v[1]; v[1] = q; }
		}
		if (LINES == 2 && t % 16 == 15)
		{
			// exchange one chaining variable between the lines after each round
			int w = NW == 4 ? r : (r == 0 ? 1 : r == 1 ? 3 : r == 2 ? 0 : r == 3 ? 2 : 4);
			u32 q = L[w]; L[w] = R[w]; R[w] = q;
		}
	}
	if (LINES == 2) { for (int i = 0; i < NW; ++i) { s.h[i] += L[i]; s.h[NW + i < NW * LINES ? NW + i : 0] += R[i]; } }
	else
	{
		u32 o[NW];
		for (int i = 0; i < NW; ++i) o[i] = s.h[(i + 1) % NW] + L[(i + 2) % NW] + R[(i + 3) % NW];
		for (int i = 0; i < NW; ++i) s.h[i] = o[i];
	}
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 64, 8, false); for (int i = 0; i < NW * LINES; ++i) put_le32(o + 4 * i, s.h[i]); }
#include "entry.h"
