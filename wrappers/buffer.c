/* Instantiates the header-only parts of buffers and slices. */
#include "libcork/core.h"
#include "libcork/ds.h"
void w_buffer_copy(struct cork_buffer *d, const struct cork_buffer *s) { cork_buffer_copy(d, s); }
void w_buffer_append_copy(struct cork_buffer *d, const struct cork_buffer *s) { cork_buffer_append_copy(d, s); }
void w_buffer_set_literal(struct cork_buffer *d) { cork_buffer_set_literal(d, "lit\0eral"); }
void w_buffer_append_literal(struct cork_buffer *d) { cork_buffer_append_literal(d, "lit\0eral"); }
uint8_t w_buffer_byte(struct cork_buffer *b, size_t i) { return cork_buffer_byte(b, i); }
char w_buffer_char(struct cork_buffer *b, size_t i) { return cork_buffer_char(b, i); }
