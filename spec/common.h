// Helpers shared by the reference definitions. Plain byte-order independent C++.
#pragma once
typedef unsigned char u8; typedef unsigned int u32; typedef unsigned long long u64;
#include "tables.h"
static inline u32 rol32(u32 x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static inline u32 ror32(u32 x, int n) { return rol32(x, 32 - n); }
static inline u64 rol64(u64 x, int n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
static inline u64 ror64(u64 x, int n) { return rol64(x, 64 - n); }
static inline u32 be32(const u8 *p) { return ((u32)p[0] << 24) | ((u32)p[1] << 16) | ((u32)p[2] << 8) | p[3]; }
static inline u32 le32(const u8 *p) { return ((u32)p[3] << 24) | ((u32)p[2] << 16) | ((u32)p[1] << 8) | p[0]; }
static inline u64 be64(const u8 *p) { return ((u64)be32(p) << 32) | be32(p + 4); }
static inline u64 le64(const u8 *p) { return ((u64)le32(p + 4) << 32) | le32(p); }
static inline void put_be32(u8 *p, u32 x) { for (int i = 0; i < 4; ++i) p[i] = (u8)(x >> (24 - 8 * i)); }
static inline void put_le32(u8 *p, u32 x) { for (int i = 0; i < 4; ++i) p[i] = (u8)(x >> (8 * i)); }
static inline void put_be64(u8 *p, u64 x) { for (int i = 0; i < 8; ++i) p[i] = (u8)(x >> (56 - 8 * i)); }
static inline void put_le64(u8 *p, u64 x) { for (int i = 0; i < 8; ++i) p[i] = (u8)(x >> (8 * i)); }
struct S;
static void s_block_(S &s, const u8 *m, u64 idx);
// Merkle-Damgard strengthening: first pad byte, zeros, bit length in lenBytes bytes
template <class St>
static void md_pad(St &s, const u8 *t, u64 n, u64 k, int B, int lenBytes, bool be, u8 first = 0x80)
{
	u8 buf[256];
	for (int i = 0; i < 2 * B; ++i) buf[i] = 0;
	for (u64 i = 0; i < k; ++i) buf[i] = t[i];
	buf[k] = first;
	int total = (int)k + 1 + lenBytes <= B ? B : 2 * B;
	u64 len = n * (u64)B + k, lo = len << 3, hi = len >> 61;
	for (int i = 0; i < lenBytes && i < 16; ++i)
	{
		u8 v = i < 8 ? (u8)(lo >> (8 * i)) : (u8)(hi >> (8 * (i - 8)));
		buf[be ? total - 1 - i : total - lenBytes + i] = v;
	}
	s_block_(s, buf, n);
	if (total > B) s_block_(s, buf + B, n + 1);
}
