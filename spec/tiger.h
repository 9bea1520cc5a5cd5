// Tiger (Anderson, Biham) and Tiger2: FIRST padding byte 0x01 / 0x80, DLEN output bytes
#include "common.h"
struct S { u64 h[3]; };
static void s_init_(S &s, const u8 *) { s.h[0] = 0x0123456789abcdefull; s.h[1] = 0xfedcba9876543210ull; s.h[2] = 0xf096a5b4c3b2e187ull; }
static void rnd(u64 &a, u64 &b, u64 &c, u64 x, u64 mul)
{
	c ^= x;
	a -= TIG1[c & 255] ^ TIG2[(c >> 16) & 255] ^ TIG3[(c >> 32) & 255] ^ TIG4[(c >> 48) & 255];
	b += TIG4[(c >> 8) & 255] ^ TIG3[(c >> 24) & 255] ^ TIG2[(c >> 40) & 255] ^ TIG1[(c >> 56) & 255];
	b *= mul;
}
static void pass(u64 &a, u64 &b, u64 &c, const u64 *x, u64 mul)
{
	rnd(a, b, c, x[0], mul); rnd(b, c, a, x[1], mul); rnd(c, a, b, x[2], mul); rnd(a, b, c, x[3], mul);
	rnd(b, c, a, x[4], mul); rnd(c, a, b, x[5], mul); rnd(a, b, c, x[6], mul); rnd(b, c, a, x[7], mul);
}
static void sched(u64 *x)
{
	x[0] -= x[7] ^ 0xa5a5a5a5a5a5a5a5ull; x[1] ^= x[0]; x[2] += x[1]; x[3] -= x[2] ^ (~x[1] << 19);
	x[4] ^= x[3]; x[5] += x[4]; x[6] -= x[5] ^ (~x[4] >> 23); x[7] ^= x[6];
	x[0] += x[7]; x[1] -= x[0] ^ (~x[7] << 19); x[2] ^= x[1]; x[3] += x[2];
	x[4] -= x[3] ^ (~x[2] >> 23); x[5] ^= x[4]; x[6] += x[5]; x[7] -= x[6] ^ 0x0123456789abcdefull;
}
static void s_block_(S &s, const u8 *m, u64)
{
	u64 x[8], a = s.h[0], b = s.h[1], c = s.h[2];
	for (int i = 0; i < 8; ++i) x[i] = le64(m + 8 * i);
	pass(a, b, c, x, 5); sched(x); pass(c, a, b, x, 7); sched(x); pass(b, c, a, x, 9);
	s.h[0] ^= a; s.h[1] = b - s.h[1]; s.h[2] += c;
}
static void s_final_(S s, const u8 *t, u64 n, u64 k, u8 *o) { md_pad(s, t, n, k, 64, 8, false, FIRST); for (int i = 0; i < DLEN; ++i) o[i] = (u8)(s.h[i / 8] >> (8 * (i % 8))); }
#include "entry.h"
