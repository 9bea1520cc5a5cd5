extern "C" {
unsigned long s_size() { return sizeof(S); }
void s_init(S *s, const u8 *key) { s_init_(*s, key); }
void s_block(S *s, const u8 *m, u64 idx) { s_block_(*s, m, idx); }
void s_final(const S *s, const u8 *t, u64 n, u64 k, u8 *o) { s_final_(*s, t, n, k, o); }
}
