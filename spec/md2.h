// RFC 1319
#include "common.h"
struct S { u8 x[16], c[16]; };
static void s_init_(S &s, const u8 *) { for (int i = 0; i < 16; ++i) s.x[i] = s.c[i] = 0; }
static void s_block_(S &s, const u8 *m, u64)
{
	u8 L = s.c[15];
	for (int j = 0; j < 16; ++j) L = s.c[j] = (u8)(s.c[j] ^ SMD2[m[j] ^ L]);
	u8 X[48];
	for (int j = 0; j < 16; ++j) { X[j] = s.x[j]; X[16 + j] = m[j]; X[32 + j] = (u8)(m[j] ^ s.x[j]); }
	u8 t = 0;
	for (int j = 0; j < 18; ++j) { for (int k = 0; k < 48; ++k) t = X[k] = (u8)(X[k] ^ SMD2[t]); t = (u8)(t + j); }
	for (int j = 0; j < 16; ++j) s.x[j] = X[j];
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o)
{
	u8 b[16];
	for (u64 i = 0; i < 16; ++i) b[i] = i < k ? t[i] : (u8)(16 - k);
	s_block_(s, b, n);
	for (int i = 0; i < 16; ++i) b[i] = s.c[i];
	s_block_(s, b, n + 1);
	for (int i = 0; i < 16; ++i) o[i] = s.x[i];
}
#include "entry.h"
