// ISO/IEC 10118-3 WHIRLPOOL
#include "common.h"
struct S { u64 h[8]; };
static void s_init_(S &s, const u8 *) { for (int i = 0; i < 8; ++i) s.h[i] = 0; }
static u64 row(int q, u8 x) { switch (q) { case 0: return WROW0[x]; case 1: return WROW1[x]; case 2: return WROW2[x]; case 3: return WROW3[x]; case 4: return WROW4[x]; case 5: return WROW5[x]; case 6: return WROW6[x]; default: return WROW7[x]; } }
// SubBytes, ShiftColumns (column q moves down by q), MixRows; rows are 64-bit, column 0 most significant
static void rho(u64 *a, const u64 *k)
{
	u64 r[8];
	for (int i = 0; i < 8; ++i)
	{
		r[i] = k[i];
		for (int q = 0; q < 8; ++q) r[i] ^= row(q, (u8)(a[(i - q + 8) % 8] >> (56 - 8 * q)));
	}
	for (int i = 0; i < 8; ++i) a[i] = r[i];
}
static void s_block_(S &s, const u8 *m, u64)
{
	u64 K[8], st[8];
	for (int i = 0; i < 8; ++i) { K[i] = s.h[i]; st[i] = be64(m + 8 * i) ^ s.h[i]; }
	for (int r = 0; r < 10; ++r)
	{
		u64 rc[8] = {};
		for (int i = 0; i < 8; ++i) rc[0] = (rc[0] << 8) | SWP[8 * r + i];
		rho(K, rc); rho(st, K);
	}
	for (int i = 0; i < 8; ++i) s.h[i] ^= st[i] ^ be64(m + 8 * i);
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 64, 32, true); for (int i = 0; i < 8; ++i) put_be64(o + 8 * i, s.h[i]); }
#include "entry.h"
