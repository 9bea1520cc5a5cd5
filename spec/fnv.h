// draft-eastlake-fnv: BITS 32/64, VAR 0 (FNV-0), 1 (FNV-1), 2 (FNV-1a); most significant byte first
#include "common.h"
#if BITS == 32
typedef u32 wd;
#define PRM 0x01000193u
#define BASIS 0x811c9dc5u
#else
typedef u64 wd;
#define PRM 0x00000100000001b3ull
#define BASIS 0xcbf29ce484222325ull
#endif
struct S { wd h; };
static void s_init_(S &s, const u8 *) { s.h = VAR ? BASIS : 0; }
static void s_block_(S &s, const u8 *m, u64) { if (VAR == 2) s.h = (s.h ^ m[0]) * PRM; else s.h = (s.h * PRM) ^ m[0]; }
static void s_final_(S s, const u8 *, u64, u64, u8 *o) { for (int i = 0; i < BITS / 8; ++i) o[i] = (u8)(s.h >> (BITS - 8 - 8 * i)); }
#include "entry.h"
