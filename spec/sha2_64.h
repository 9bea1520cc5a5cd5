// FIPS 180-4 SHA-384/512/512t
#include "common.h"
struct S { u64 h[8]; };
static void s_init_(S &s, const u8 *) { for (int i = 0; i < 8; ++i) s.h[i] = IV[i]; }
static void s_block_(S &s, const u8 *m, u64)
{
	u64 w[80], v[8];
	for (int t = 0; t < 16; ++t) w[t] = be64(m + 8 * t);
	for (int t = 16; t < 80; ++t) w[t] = (ror64(w[t - 2], 19) ^ ror64(w[t - 2], 61) ^ (w[t - 2] >> 6)) + w[t - 7] + (ror64(w[t - 15], 1) ^ ror64(w[t - 15], 8) ^ (w[t - 15] >> 7)) + w[t - 16];
	for (int i = 0; i < 8; ++i) v[i] = s.h[i];
	for (int t = 0; t < 80; ++t)
	{
		u64 t1 = v[7] + (ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K512[t] + w[t];
		u64 t2 = (ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
		for (int i = 7; i > 0; --i) v[i] = v[i - 1];
		v[4] += t1; v[0] = t1 + t2;
	}
	for (int i = 0; i < 8; ++i) s.h[i] += v[i];
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 128, 16, true); for (int i = 0; i < DLEN; ++i) o[i] = (u8)(s.h[i / 8] >> (56 - 8 * (i % 8))); }
#include "entry.h"
