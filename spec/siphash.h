// SipHash-2-4 (Aumasson, Bernstein), 128-bit key; 64-bit tag, most significant byte first
#include "common.h"
struct S { u64 v[4]; };
static void s_init_(S &s, const u8 *k)
{
	u64 k0 = le64(k), k1 = le64(k + 8);
	s.v[0] = k0 ^ 0x736f6d6570736575ull; s.v[1] = k1 ^ 0x646f72616e646f6dull; s.v[2] = k0 ^ 0x6c7967656e657261ull; s.v[3] = k1 ^ 0x7465646279746573ull;
}
static void rounds(u64 *v, int n)
{
	for (int i = 0; i < n; ++i)
	{
		v[0] += v[1]; v[2] += v[3]; v[1] = rol64(v[1], 13); v[3] = rol64(v[3], 16); v[1] ^= v[0]; v[3] ^= v[2]; v[0] = rol64(v[0], 32);
		v[2] += v[1]; v[0] += v[3]; v[1] = rol64(v[1], 17); v[3] = rol64(v[3], 21); v[1] ^= v[2]; v[3] ^= v[0]; v[2] = rol64(v[2], 32);
	}
}
static void s_block_(S &s, const u8 *m, u64) { u64 w = le64(m); s.v[3] ^= w; rounds(s.v, 2); s.v[0] ^= w; }
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o)
{
	u8 b[8]; u64 len = n * 8 + k;
	for (u64 i = 0; i < 7; ++i) b[i] = i < k ? t[i] : 0;
	b[7] = (u8)len;
	s_block_(s, b, n);
	s.v[2] ^= 0xff; rounds(s.v, 4);
	put_be64(o, s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3]);
}
#include "entry.h"
