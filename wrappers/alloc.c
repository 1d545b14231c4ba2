/* Client code over allocators that supply only some methods. */
#include "libcork/core.h"
#define NEW struct cork_alloc *a = cork_alloc_new_alloc(parent); cork_alloc_set_xmalloc(a, xm); cork_alloc_set_free(a, fr)
#define A const struct cork_alloc *parent, cork_alloc_malloc_f xm, cork_alloc_free_f fr
void *w_def_malloc(A, size_t n) { NEW; return cork_alloc_malloc(a, n); }
void *w_def_xmalloc(A, size_t n) { NEW; return cork_alloc_xmalloc(a, n); }
void *w_def_calloc(A, size_t c, size_t n) { NEW; return cork_alloc_calloc(a, c, n); }
void *w_def_xcalloc(A, size_t c, size_t n) { NEW; return cork_alloc_xcalloc(a, c, n); }
void *w_def_realloc(A, void *p, size_t o, size_t n) { NEW; return cork_alloc_realloc(a, p, o, n); }
void *w_def_xrealloc(A, void *p, size_t o, size_t n) { NEW; return cork_alloc_xrealloc(a, p, o, n); }
void *w_def_xreallocf(A, void *p, size_t o, size_t n) { NEW; return cork_alloc_xreallocf(a, p, o, n); }
void w_def_free(A, void *p, size_t n) { NEW; cork_alloc_free(a, p, n); }
void w_def_cfree(A, void *p, size_t c, size_t n) { NEW; cork_alloc_cfree(a, p, c, n); }
const char *w_def_strdup(A, const char *s) { NEW; return cork_alloc_strdup(a, s); }
const char *w_def_strndup(A, const char *s, size_t n) { NEW; return cork_alloc_strndup(a, s, n); }
const char *w_def_xstrdup(A, const char *s) { NEW; return cork_alloc_xstrdup(a, s); }
const char *w_def_xstrndup(A, const char *s, size_t n) { NEW; return cork_alloc_xstrndup(a, s, n); }
size_t w_def_strlife(A, const char *s, size_t n) { const char *t; size_t l; NEW; t = cork_alloc_strndup(a, s, n); l = cork_strlen(t); cork_alloc_strfree(a, t); return l; }
/* one method overridden: the guaranteed form builds on it */
void *w_over_calloc(const struct cork_alloc *parent, cork_alloc_calloc_f xc, size_t c, size_t n) { struct cork_alloc *a = cork_alloc_new_alloc(parent); cork_alloc_set_xcalloc(a, xc); return cork_alloc_calloc(a, c, n); }
void *w_over_realloc(const struct cork_alloc *parent, cork_alloc_realloc_f xr, void *p, size_t o, size_t n) { struct cork_alloc *a = cork_alloc_new_alloc(parent); cork_alloc_set_xrealloc(a, xr); return cork_alloc_realloc(a, p, o, n); }
void *w_over_xreallocf(const struct cork_alloc *parent, cork_alloc_realloc_f xr, cork_alloc_free_f fr, void *p, size_t o, size_t n) { struct cork_alloc *a = cork_alloc_new_alloc(parent); cork_alloc_set_xrealloc(a, xr); cork_alloc_set_free(a, fr); return cork_alloc_xreallocf(a, p, o, n); }
/* the debugging allocator */
void *w_debug_xmalloc(const struct cork_alloc *parent, size_t n) { return cork_alloc_xmalloc(cork_debug_alloc_new(parent), n); }
void w_debug_life(const struct cork_alloc *parent, size_t n, size_t m) { struct cork_alloc *d = cork_debug_alloc_new(parent); cork_alloc_free(d, cork_alloc_malloc(d, n), m); }
