// FIPS 180-4 SHA-224/256
#include "common.h"
struct S { u32 h[8]; };
static void s_init_(S &s, const u8 *) { for (int i = 0; i < 8; ++i) s.h[i] = IV[i]; }
static void s_block_(S &s, const u8 *m, u64)
{
	u32 w[64], v[8];
	for (int t = 0; t < 16; ++t) w[t] = be32(m + 4 * t);
	for (int t = 16; t < 64; ++t) w[t] = (ror32(w[t - 2], 17) ^ ror32(w[t - 2], 19) ^ (w[t - 2] >> 10)) + w[t - 7] + (ror32(w[t - 15], 7) ^ ror32(w[t - 15], 18) ^ (w[t - 15] >> 3)) + w[t - 16];
	for (int i = 0; i < 8; ++i) v[i] = s.h[i];
	for (int t = 0; t < 64; ++t)
	{
		u32 t1 = v[7] + (ror32(v[4], 6) ^ ror32(v[4], 11) ^ ror32(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K256[t] + w[t];
		u32 t2 = (ror32(v[0], 2) ^ ror32(v[0], 13) ^ ror32(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
		for (int i = 7; i > 0; --i) v[i] = v[i - 1];
		v[4] += t1; v[0] = t1 + t2;
	}
	for (int i = 0; i < 8; ++i) s.h[i] += v[i];
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 64, 8, true); for (int i = 0; i < DLEN; ++i) o[i] = (u8)(s.h[i / 4] >> (24 - 8 * (i % 4))); }
#include "entry.h"
