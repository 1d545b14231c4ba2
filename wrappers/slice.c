/* Client code over slices and managed buffers, so that the method tables are the ones the library installs. */
#include "libcork/core.h"
#include "libcork/ds.h"
typedef struct cork_slice S;
int w_static_copy(S *d, S *s, const void *buf, size_t n, size_t o, size_t l) { cork_slice_init_static(s, buf, n); return cork_slice_copy(d, s, o, l); }
int w_static_light_copy(S *d, S *s, const void *buf, size_t n, size_t o, size_t l) { cork_slice_init_static(s, buf, n); return cork_slice_light_copy(d, s, o, l); }
int w_static_slice(S *s, const void *buf, size_t n, size_t o, size_t l) { cork_slice_init_static(s, buf, n); return cork_slice_slice(s, o, l); }
void w_static_finish(S *s, const void *buf, size_t n) { cork_slice_init_static(s, buf, n); cork_slice_finish(s); }
int w_once_copy(S *d, S *s, const void *buf, size_t n, size_t o, size_t l) { cork_slice_init_copy_once(s, buf, n); return cork_slice_copy(d, s, o, l); }
int w_once_light_copy(S *d, S *s, const void *buf, size_t n, size_t o, size_t l) { cork_slice_init_copy_once(s, buf, n); return cork_slice_light_copy(d, s, o, l); }
int w_once_slice(S *s, const void *buf, size_t n, size_t o, size_t l) { cork_slice_init_copy_once(s, buf, n); return cork_slice_slice(s, o, l); }
void w_once_finish(S *s, const void *buf, size_t n) { cork_slice_init_copy_once(s, buf, n); cork_slice_finish(s); }
/* copy, then finish both in either order */
void w_once_life(S *d, S *s, const void *buf, size_t n, size_t o, size_t l, int order) {
    cork_slice_init_copy_once(s, buf, n);
    cork_slice_copy(d, s, o, l);
    if (order) { cork_slice_finish(d); cork_slice_finish(s); } else { cork_slice_finish(s); cork_slice_finish(d); }
}
/* a copy-once slice that was already copied is a managed slice: copying again shares the same buffer */
int w_once_copy_twice(S *d, S *e, S *s, const void *buf, size_t n, size_t o, size_t l) {
    cork_slice_init_copy_once(s, buf, n);
    cork_slice_copy(d, s, 0, n);
    return cork_slice_copy(e, s, o, l);
}
typedef struct cork_managed_buffer M;
int w_managed_copy(S *d, S *s, M *m, size_t o, size_t l, size_t o2, size_t l2) { int rc = cork_managed_buffer_slice(s, m, o, l); return rc ? rc : cork_slice_copy(d, s, o2, l2); }
int w_managed_light_copy(S *d, S *s, M *m, size_t o, size_t l, size_t o2, size_t l2) { int rc = cork_managed_buffer_slice(s, m, o, l); return rc ? rc : cork_slice_light_copy(d, s, o2, l2); }
int w_managed_narrow(S *s, M *m, size_t o, size_t l, size_t o2, size_t l2) { int rc = cork_managed_buffer_slice(s, m, o, l); return rc ? rc : cork_slice_slice(s, o2, l2); }
void w_managed_finish(S *s, M *m, size_t o, size_t l) { cork_managed_buffer_slice(s, m, o, l); cork_slice_finish(s); }
/* the slice outlives the caller's reference */
void w_managed_hand_over(S *s, M *m, size_t o, size_t l) { cork_managed_buffer_slice(s, m, o, l); cork_managed_buffer_unref(m); cork_slice_finish(s); }
void w_new_life(const void *buf, size_t n, cork_managed_buffer_freer f, int refs) {
    M *m = cork_managed_buffer_new(buf, n, f);
    if (refs) { cork_managed_buffer_ref(m); cork_managed_buffer_unref(m); }
    cork_managed_buffer_unref(m);
}
void w_copied_life(const void *buf, size_t n) { M *m = cork_managed_buffer_new_copy(buf, n); cork_managed_buffer_unref(m); }
void w_buffer_managed_life(struct cork_buffer *b) { M *m = cork_buffer_to_managed_buffer(b); cork_managed_buffer_unref(m); }
void w_buffer_slice_life(struct cork_buffer *b, S *s) { cork_buffer_to_slice(b, s); cork_slice_finish(s); }
