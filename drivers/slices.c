#include "libcork/core.h"
#include "libcork/ds.h"
#include "drv.h"
#define N 8
/* model */
struct mb { struct cork_managed_buffer *m; uint8_t bytes[64]; size_t n; int kind, own, held, freed; void *raw; };
static struct mb B[N]; static int nb;
struct sl { struct cork_slice s; int live, cleared; uint8_t want[64]; size_t n; int src; /* buffer index, -1 static, -2 copy-once */ const void *orig; int parent; };
static struct sl L[N];
static int freed_of(const void *p) { for (int i = 0; i < nb; i++) if (B[i].raw == p) return i; return -1; }
static void freer(void *p, size_t n) { int i = freed_of(p); CHECK(i >= 0, "freer called on a strange pointer"); B[i].freed++; CHECK(n == B[i].n, "freer got size %zu, expected %zu", n, B[i].n); memset(p, 0xdd, n); }
static int mcalls; static int mrc;
static int my_slice(struct cork_slice *s, size_t o, size_t l) { mcalls++; if (mrc) return mrc; s->buf = (char *) s->buf + o; s->size = l; return 0; }
static int my_copy(struct cork_slice *d, const struct cork_slice *s, size_t o, size_t l) { mcalls++; *d = *s; d->buf = (char *) s->buf + o; d->size = l; return mrc; }
static int my_light(struct cork_slice *d, const struct cork_slice *s, size_t o, size_t l) { mcalls += 100; *d = *s; d->buf = (char *) s->buf + o; d->size = l; return mrc; }
static void my_free(struct cork_slice *s) { mcalls += 10000; }
static struct cork_slice_iface MY = { my_free, my_copy, my_light, my_slice };
static void check(const char *op) {
    for (int i = 0; i < nb; i++) if (B[i].m || B[i].freed) {
        int refs = B[i].own + B[i].held;
        if (B[i].kind == 0) CHECK(B[i].freed == (refs == 0), "%s: %d references held but freed %d times", op, refs, B[i].freed);
        if (refs) { CHECK(B[i].m->ref_count == refs, "%s: count %d, references held %d", op, B[i].m->ref_count, refs); CHECK(B[i].m->size == B[i].n && !memcmp(B[i].m->buf, B[i].bytes, B[i].n), "%s: bytes changed", op); }
    }
    for (int i = 0; i < N; i++) if (L[i].live) {
        struct sl *x = &L[i];
        if (x->cleared) { CHECK(!x->s.buf && !x->s.size && !x->s.iface && !x->s.user_data && cork_slice_is_empty(&x->s), "%s: slice not cleared", op); continue; }
        CHECK(x->s.size == x->n, "%s: slice %d has size %zu, expected %zu", op, i, x->s.size, x->n);
        CHECK(!memcmp(x->s.buf, x->want, x->n), "%s: slice %d is %s, expected %s", op, i, hexs(x->s.buf, x->n), hexs(x->want, x->n));
        if (x->orig && x->n) CHECK(x->s.buf == x->orig, "%s: slice %d is elsewhere", op, i);
    }
}
static void err(int rc, bool ok, const char *op) {
    CHECK((rc == 0) == ok && (ok || rc == -1), "%s returned %d, expected %s", op, rc, ok ? "success" : "failure");
    CHECK((cork_error_occurred() != 0) == !ok, "%s: error %s", op, ok ? "reported" : "not reported");
    if (!ok) CHECK(cork_error_code() == (cork_error) (CORK_SLICE_ERROR + CORK_SLICE_INVALID_SLICE), "%s: error %x", op, (unsigned) cork_error_code());
    cork_error_clear();
}
static size_t bound(size_t n) { switch (rnd(7)) { case 0: return 0; case 1: return n; case 2: return n + 1; case 3: return rnd_edge64(); case 4: return n ? rnd(n) : 0; case 5: return SIZE_MAX - rnd(3); default: return rnd(n + 1); } }
static void finish(int i) {
    struct sl *x = &L[i];
    if (!x->live) return;
    for (int j = 0; j < N; j++) if (L[j].live && L[j].parent == i && j != i) { if (L[j].src == -2) finish(j); else L[j].parent = -1; }
    cork_slice_finish(&x->s); if (!x->cleared && x->src >= 0) B[x->src].held--;
    x->cleared = 1; check("finish"); x->live = 0;
}
static void set(struct sl *d, struct sl *s, size_t o, size_t l, int src, int parent) { d->live = 1; d->cleared = 0; d->n = l; memmove(d->want, s->want + o, l); d->orig = s->orig ? (char *) s->orig + o : NULL; d->src = src; d->parent = parent; if (src >= 0) B[src].held++; }
static int newb(void) { for (int i = 0; i < nb; i++) if (!B[i].m && !B[i].raw) return i; return nb < N ? nb++ : -1; }
static void generic(void) {
    static uint8_t d[32]; struct cork_slice_iface f = MY; if (rnd(2)) f.slice = NULL; if (rnd(2)) f.free = NULL;
    struct cork_slice s = { d, rnd(32), &f, d }, t, s0 = s; memset(&t, 0xa5, sizeof t); size_t o = bound(s.size), l = bound(s.size); int op = rnd(8); mcalls = 0; mrc = rnd(3) ? 0 : 7; int rc; bool oo = rnd(2), fast = rnd(3) == 0;
    if (oo) l = s.size - o;
    bool ok = o <= s.size && l <= s.size - o; if (fast && !ok) return;
    drv_case("generic slice of %zu bytes, op %d, offset %zu, length %zu, fast %d offset-only %d, rc %d", s.size, op, o, l, fast, oo, mrc);
    switch (op) {
    case 0: case 1: rc = oo ? fast ? cork_slice_copy_offset_fast(&t, &s, o) : cork_slice_copy_offset(&t, &s, o) : fast ? cork_slice_copy_fast(&t, &s, o, l) : cork_slice_copy(&t, &s, o, l); goto copied;
    case 2: case 3: rc = oo ? fast ? cork_slice_light_copy_offset_fast(&t, &s, o) : cork_slice_light_copy_offset(&t, &s, o) : fast ? cork_slice_light_copy_fast(&t, &s, o, l) : cork_slice_light_copy(&t, &s, o, l);
    copied: CHECK(mcalls == (ok ? op < 2 ? 1 : 100 : 0), "implementation called %d", mcalls); if (ok) CHECK(rc == mrc, "result %d", rc); else { err(rc, false, "copy"); CHECK(!t.buf && !t.size && !t.iface && !t.user_data, "not cleared"); }
        CHECK(!memcmp(&s, &s0, sizeof s), "source changed"); if (ok) CHECK(t.buf == d + o && t.size == l, "wrong range"); break;
    case 4: case 5: rc = oo ? fast ? cork_slice_slice_offset_fast(&s, o) : cork_slice_slice_offset(&s, o) : fast ? cork_slice_slice_fast(&s, o, l) : cork_slice_slice(&s, o, l);
        CHECK(mcalls == (ok && f.slice ? 1 : 0), "implementation called %d", mcalls); if (!ok) { err(rc, false, "slice"); CHECK(!memcmp(&s, &s0, sizeof s), "changed by a failing slice"); } else if (f.slice) CHECK(rc == mrc, "result %d", rc); else { err(rc, true, "slice"); CHECK(s.buf == d + o && s.size == l && s.iface == &f && s.user_data == d, "wrong range"); } break;
    case 6: { if (!fast) { l = s.size - o; ok = o <= s.size; } else { if (o > s.size) return; l = s.size - o; ok = true; } const void *r = fast ? cork_slice_advance(&s, o) : cork_slice_advance_checked(&s, o);
        if (!ok) { CHECK(r == NULL && cork_error_occurred(), "advance"); cork_error_clear(); CHECK(!memcmp(&s, &s0, sizeof s), "changed by a failing advance"); } else if (f.slice && mrc) CHECK(r == NULL, "advance of a failing slice"); else { CHECK(r == d, "advance returns %p", r); CHECK(s.buf == d + o && s.size == l, "wrong range"); } break; }
    default: cork_slice_finish(&s); CHECK(mcalls == (f.free ? 10000 : 0), "free called %d", mcalls); CHECK(!s.buf && !s.size && !s.iface && !s.user_data, "not cleared"); break;
    }
    if (rnd(8) == 0) { memset(&t, 0xa5, sizeof t); o = bound(0); l = bound(0); drv_add(" then NULL slice"); err(cork_slice_copy(&t, NULL, o, l), false, "copy of NULL"); CHECK(!t.buf && !t.iface, "not cleared"); err(cork_slice_copy_offset(&t, NULL, o), false, "copy_offset of NULL"); err(cork_slice_light_copy(&t, NULL, o, l), false, "light_copy of NULL"); err(cork_slice_light_copy_offset(&t, NULL, o), false, "light_copy_offset of NULL"); err(cork_slice_slice(NULL, o, l), false, "slice of NULL"); err(cork_slice_slice_offset(NULL, o), false, "slice_offset of NULL"); CHECK(!cork_slice_advance_checked(NULL, o), "advance of NULL"); CHECK(cork_error_occurred(), "no error"); cork_error_clear(); memset(&t, 0xa5, sizeof t); err(cork_managed_buffer_slice(&t, NULL, o, l), false, "slice of no buffer"); CHECK(!t.buf && !t.size && !t.iface && !t.user_data, "not cleared"); memset(&t, 0xa5, sizeof t); err(cork_managed_buffer_slice_offset(&t, NULL, o), false, "slice of no buffer"); CHECK(!t.buf && !t.size && !t.iface && !t.user_data, "not cleared"); }
}
static void drv_run(void) {
    while (drv_more()) {
        if (rnd(2)) { generic(); continue; }
        memset(B, 0, sizeof B); memset(L, 0, sizeof L); nb = 0; static uint8_t stat[48]; for (size_t i = 0; i < sizeof stat; i++) stat[i] = rnd(256);
        drv_case("ops:");
        for (int k = rnd(40); k >= 0; k--) {
            int i = rnd(N), j = rnd(N), b; struct sl *d = &L[i], *s = &L[j]; size_t o, l; bool ok;
            switch (rnd(12)) {
            case 0: case 1: { if ((b = newb()) < 0) break; struct mb *m = &B[b]; m->n = rnd(40); for (size_t x = 0; x < m->n; x++) m->bytes[x] = rnd(256); m->kind = rnd(3); m->freed = 0; m->own = 1; m->held = 0; drv_add(" b%d=new%d(%zu)", b, m->kind, m->n);
                m->raw = malloc(m->n ? m->n : 1); memcpy(m->raw, m->bytes, m->n);
                if (m->kind == 0) m->m = cork_managed_buffer_new(m->raw, m->n, freer); else if (m->kind == 1) { m->m = cork_managed_buffer_new_copy(m->raw, m->n); memset(m->raw, 0, m->n); } else { struct cork_buffer *bf = cork_buffer_new(); cork_buffer_set(bf, m->raw, m->n); m->m = cork_buffer_to_managed_buffer(bf); }
                break; }
            case 2: b = rnd(N); if (b >= nb || !B[b].m || B[b].own + B[b].held == 0) break; drv_add(" ref(b%d)", b); l = rnd(20) ? 1 : 1 + rnd(rnd(20) ? 600 : 70000); drv_add("*%zu", l); while (l--) { CHECK(cork_managed_buffer_ref(B[b].m) == B[b].m, "ref"); B[b].own++; } break;
            case 3: case 4: b = rnd(N); if (b >= nb || !B[b].m || !B[b].own) break; drv_add(" unref(b%d)", b); do { B[b].own--; cork_managed_buffer_unref(B[b].m); } while (B[b].own > 40 && B[b].freed == 0); break;
            case 5: case 6: b = rnd(N); if (b >= nb || !B[b].m || B[b].own + B[b].held == 0 || d->live) break; o = bound(B[b].n); l = bound(B[b].n); bool oo = rnd(3) == 0; if (oo) l = B[b].n - o; ok = o <= B[b].n && l <= B[b].n - o; drv_add(" s%d=b%d[%zu:%zu]%s", i, b, o, l, oo ? "offset" : "");
                memset(&d->s, 0xa5, sizeof d->s); err(oo ? cork_managed_buffer_slice_offset(&d->s, B[b].m, o) : cork_managed_buffer_slice(&d->s, B[b].m, o, l), ok, "managed slice");
                if (ok) { struct sl t; memcpy(t.want, B[b].bytes, B[b].n); t.orig = B[b].m->buf; set(d, &t, o, l, b, -1); } else { d->live = 1; d->cleared = 1; d->parent = -1; } break;
            case 7: if (d->live) break; { struct sl t; bool once = rnd(2); o = rnd(20); l = rnd(20); memcpy(t.want, stat, sizeof stat); t.orig = stat; drv_add(" s%d=%s(%zu,%zu)", i, once ? "once" : "static", o, l); set(d, &t, o, l, once ? -2 : -1, -1); memset(&d->s, 0xa5, sizeof d->s); if (once) cork_slice_init_copy_once(&d->s, stat + o, l); else cork_slice_init_static(&d->s, stat + o, l); } break;
            case 8: case 9: { if (!s->live || s->cleared || d->live || i == j) break; bool light = rnd(2); o = bound(s->n); l = bound(s->n); bool of = rnd(3) == 0; if (of) l = s->n - o; ok = o <= s->n && l <= s->n - o; drv_add(" s%d=%s%s(s%d,%zu,%zu)", i, light ? "light_copy" : "copy", of ? "_offset" : "", j, o, l);
                memset(&d->s, 0xa5, sizeof d->s); int rc = light ? of ? cork_slice_light_copy_offset(&d->s, &s->s, o) : cork_slice_light_copy(&d->s, &s->s, o, l) : of ? cork_slice_copy_offset(&d->s, &s->s, o) : cork_slice_copy(&d->s, &s->s, o, l);
                err(rc, ok, "copy"); if (!ok) { d->live = 1; d->cleared = 1; d->parent = -1; break; }
                if (s->src == -2 && !light) { b = newb(); if (b < 0) { /* untracked shared copy */ cork_slice_finish(&d->s); cork_slice_finish(&s->s); s->live = 0; for (int q = 0; q < N; q++) if (L[q].live && L[q].parent == j) L[q].parent = -1; break; }
                    struct mb *m = &B[b]; m->m = s->s.user_data; m->n = s->n; memcpy(m->bytes, s->want, s->n); m->kind = 1; m->freed = 0; m->own = 0; m->held = 1; m->raw = malloc(1); s->src = b; s->orig = m->m->buf; set(d, s, o, l, b, -1); CHECK(m->m->buf != (void *) stat && d->s.user_data == m->m, "copy does not share a managed copy");
                } else set(d, s, o, l, s->src, s->src == -2 ? j : -1);
                break; }
            case 10: if (!d->live || d->cleared) break; o = bound(d->n); l = bound(d->n); ok = o <= d->n && l <= d->n - o; drv_add(" slice(s%d,%zu,%zu)", i, o, l); err(cork_slice_slice(&d->s, o, l), ok, "slice"); if (ok) { memmove(d->want, d->want + o, l); d->n = l; if (d->orig) d->orig = (char *) d->orig + o; } break;
            default: drv_add(" finish(s%d)", i); finish(i); break;
            }
            check("afterwards");
            if (L[i].live && L[j].live && !L[i].cleared && !L[j].cleared) { bool eq = L[i].n == L[j].n && !memcmp(L[i].want, L[j].want, L[i].n); CHECK(cork_slice_equal(&L[i].s, &L[j].s) == eq, "slices %d and %d: equal is %d", i, j, !eq); }
            for (b = 0; b < nb; b++) if (B[b].m && B[b].own + B[b].held == 0) { free(B[b].raw); memset(&B[b], 0, sizeof B[b]); }
        }
        drv_add(" end");
        for (int i = 0; i < N; i++) finish(i);
        for (int b = 0; b < nb; b++) { while (B[b].m && B[b].own) { B[b].own--; cork_managed_buffer_unref(B[b].m); } if (B[b].m) check("end"); free(B[b].raw); }
    }
}
