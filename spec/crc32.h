// CRC-32 (IEEE 802.3): reflected polynomial 0xEDB88320, initial value and final xor all ones; most significant byte first
#include "common.h"
struct S { u32 c; };
static void s_init_(S &s, const u8 *) { s.c = 0xffffffffu; }
static void s_block_(S &s, const u8 *m, u64) { s.c = (s.c >> 8) ^ TCRC[(s.c ^ m[0]) & 255]; }
static void s_final_(S s, const u8 *, u64, u64, u8 *o) { put_be32(o, ~s.c); }
#include "entry.h"
