// FIPS 202 / SP 800-185 sponge: RATE bytes, SUF domain byte, DLEN output bytes; optional cSHAKE prefix (NLEN name bytes, CLEN customization bytes taken from the key)
#include "common.h"
#ifndef NLEN
#define NLEN 0
#define CLEN 0
#endif
struct S { u64 a[25]; };
static void keccakf(u64 *A)
{
	u8 lfsr = 1;
	for (int r = 0; r < 24; ++r)
	{
		u64 C[5], B[25];
		for (int x = 0; x < 5; ++x) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
		for (int x = 0; x < 5; ++x) { u64 D = C[(x + 4) % 5] ^ rol64(C[(x + 1) % 5], 1); for (int y = 0; y < 5; ++y) A[x + 5 * y] ^= D; }
		int x = 1, y = 0;
		B[0] = A[0];
		for (int t = 0; t < 24; ++t) { int nx = y, ny = (2 * x + 3 * y) % 5; B[nx + 5 * ny] = rol64(A[x + 5 * y], ((t + 1) * (t + 2) / 2) % 64); x = nx; y = ny; }
		for (int yy = 0; yy < 5; ++yy) for (int xx = 0; xx < 5; ++xx) A[xx + 5 * yy] = B[xx + 5 * yy] ^ (~B[(xx + 1) % 5 + 5 * yy] & B[(xx + 2) % 5 + 5 * yy]);
		for (int j = 0; j < 7; ++j)
		{
			if (lfsr & 1) A[0] ^= (u64)1 << ((1 << j) - 1);
			lfsr = (u8)((lfsr << 1) ^ ((lfsr >> 7) * 0x71));
		}
	}
}
static void s_block_(S &s, const u8 *m, u64) { for (int i = 0; i < RATE; ++i) s.a[i / 8] ^= (u64)m[i] << (8 * (i % 8)); keccakf(s.a); }
static int left_encode(u8 *o, u64 v) { int n = 1; while (n < 8 && (v >> (8 * n))) ++n; o[0] = (u8)n; for (int i = 0; i < n; ++i) o[1 + i] = (u8)(v >> (8 * (n - 1 - i))); return n + 1; }
static int right_encode(u8 *o, u64 v) { int n = 1; while (n < 8 && (v >> (8 * n))) ++n; for (int i = 0; i < n; ++i) o[i] = (u8)(v >> (8 * (n - 1 - i))); o[n] = (u8)n; return n + 1; }
static void s_init_(S &s, const u8 *key)
{
	for (int i = 0; i < 25; ++i) s.a[i] = 0;
	if (NLEN + CLEN > 0)
	{
		u8 z[((NLEN + CLEN + 32) / RATE + 1) * RATE];
		int p = left_encode(z, RATE);
		p += left_encode(z + p, (u64)NLEN * 8); for (int i = 0; i < NLEN; ++i) z[p++] = key[i];
		p += left_encode(z + p, (u64)CLEN * 8); for (int i = 0; i < CLEN; ++i) z[p++] = key[NLEN + i];
		while (p % RATE) z[p++] = 0;
		for (int i = 0; i < p; i += RATE) s_block_(s, z + i, 0);
	}
}
static void s_final_(S s, const u8 *t, u64, u64 k, u8 *o)
{
	u8 b[RATE];
	for (u64 i = 0; i < RATE; ++i) b[i] = i < k ? t[i] : 0;
	b[k] = SUF; b[RATE - 1] = (u8)(b[RATE - 1] ^ 0x80);
	s_block_(s, b, 0);
	for (int i = 0; i < DLEN; ++i) { if (i && i % RATE == 0) keccakf(s.a); o[i] = (u8)(s.a[i % RATE / 8] >> (8 * (i % 8))); }
}
#ifndef NO_ENTRY
#include "entry.h"
#endif
