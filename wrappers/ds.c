/* Instantiates macros of the small data structures. */
#include "libcork/core.h"
#include "libcork/ds.h"
int w_bitset_get(struct cork_bitset *s, size_t i) { return cork_bitset_get(s, i); }
void w_bitset_set(struct cork_bitset *s, size_t i, int v) { cork_bitset_set(s, i, v); }
int w_rb_is_empty(struct cork_ring_buffer *b) { return cork_ring_buffer_is_empty(b); }
int w_rb_is_full(struct cork_ring_buffer *b) { return cork_ring_buffer_is_full(b); }
/* timestamps: composed uses of the inline conversions */
#define TS(u) \
  void w_init_##u(cork_timestamp *t, uint64_t sec, uint64_t x) { cork_timestamp_init_##u(t, sec, x); } \
  uint64_t w_get_##u(cork_timestamp t) { return cork_timestamp_##u(t); } \
  uint64_t w_rt_##u(uint64_t sec, uint64_t x) { cork_timestamp t; cork_timestamp_init_##u(&t, sec, x); return cork_timestamp_##u(t); } \
  int w_mono_##u(cork_timestamp a, cork_timestamp b) { return cork_timestamp_##u(a) <= cork_timestamp_##u(b); }
TS(msec) TS(usec) TS(nsec) TS(gsec)
void w_init_sec(cork_timestamp *t, uint64_t sec) { cork_timestamp_init_sec(t, sec); }
uint32_t w_get_sec(cork_timestamp t) { return cork_timestamp_sec(t); }
