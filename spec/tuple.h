// SP 800-185 TupleHash: RATE bytes, DLEN output bytes, CLEN customization bytes taken from the key; the tuple's elements are consecutive pieces of the input
#define NO_ENTRY
#define SUF 0x04
#define NLEN 0
#include "keccak.h"
#undef NLEN
struct Sponge
{
	S s; u8 b[RATE]; int n;
	void put(u8 x) { b[n++] = x; if (n == RATE) { s_block_(s, b, 0); n = 0; } }
	void put(const u8 *p, u64 k) { for (u64 i = 0; i < k; ++i) put(p[i]); }
	void left(u64 v) { u8 t[9]; int k = left_encode(t, v); put(t, k); }
	void right(u64 v) { u8 t[9]; int k = right_encode(t, v); put(t, k); }
};
static void tuple_hash(const u8 *key, const u8 *m, const u64 *lens, int count, u8 *o)
{
	static const u8 name[] = {'T', 'u', 'p', 'l', 'e', 'H', 'a', 's', 'h'};
	Sponge z; z.n = 0; for (int i = 0; i < 25; ++i) z.s.a[i] = 0;
	z.left(RATE); z.left(72); z.put(name, 9); z.left((u64)CLEN * 8); z.put(key, CLEN); while (z.n) z.put((u8)0);
	for (int i = 0; i < count; ++i) { z.left(lens[i] * 8); z.put(m, lens[i]); m += lens[i]; }
	z.right((u64)DLEN * 8);
	s_final_(z.s, z.b, 0, z.n, o);
}
