#include "libcork/core.h"
#include "libcork/ds.h"
#include "drv.h"
/* model: entries in insertion order */
struct key { int id, copy; };
struct ent { struct key *k; void *v; };
#define MAXE 600
static struct ent m[MAXE]; static int n;
static unsigned hmode; static int ud;
static cork_hash hf(void *u, const void *vk) { const struct key *k = vk; CHECK(u == &ud, "hash callback gets other user data"); switch (hmode) { case 0: return k->id * 2654435761u; case 1: return 7; case 2: return k->id << 28; case 3: return k->id; default: return k->id & 3; } }
static bool eq(void *u, const void *a, const void *b) { CHECK(u == &ud, "equality callback gets other user data"); return ((const struct key *) a)->id == ((const struct key *) b)->id; }
static int nfk, nfv, nfu; static void *fk[8 * MAXE], *fv[8 * MAXE];
static void free_k(void *k) { CHECK(nfk < 8 * MAXE, "too many"); fk[nfk++] = k; }
static void free_v(void *v) { fv[nfv++] = v; }
static void free_u(void *u) { CHECK(u == &ud, "other user data freed"); nfu++; }
static int find(int id) { for (int i = 0; i < n; i++) if (m[i].k->id == id) return i; return -1; }
static struct key pool[MAXE][4];
static struct key *mk(int id) { struct key *k = &pool[id][rnd(4)]; k->id = id; return k; }
static void rem(int i) { memmove(m + i, m + i + 1, (n - i - 1) * sizeof m[0]); n--; }
static void all(struct cork_hash_table *t) {
    struct cork_hash_table_iterator it; struct cork_hash_table_entry *e; int i = 0; cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it))) { CHECK(i < n, "iteration yields more than %d entries", n); CHECK(e->key == m[i].k && e->value == m[i].v, "iteration: entry %d has key %d/%p value %p, expected %d/%p value %p", i, ((struct key *) e->key)->id, e->key, e->value, m[i].k->id, (void *) m[i].k, m[i].v); CHECK(e->hash == hf(&ud, e->key), "entry has another hash"); i++; }
    CHECK(i == n, "iteration yields %d of %d entries", i, n); CHECK(cork_hash_table_iterator_next(&it) == NULL, "iteration goes on after its end");
}
struct mp { int i, abort_at, calls; bool del[MAXE]; };
static enum cork_hash_table_map_result mapf(void *u, struct cork_hash_table_entry *e) {
    struct mp *p = u; int i = p->i++; CHECK(i < n, "map goes past the last entry"); CHECK(e->key == m[i].k && e->value == m[i].v, "map: entry %d", i); p->calls++;
    if (i == p->abort_at) return CORK_HASH_TABLE_MAP_ABORT;
    return p->del[i] ? CORK_HASH_TABLE_MAP_DELETE : CORK_HASH_TABLE_MAP_CONTINUE;
}
static bool fks, fvs; static int ek, ev; static void *wk[8 * MAXE], *wv[8 * MAXE];
static void gone(struct ent *e) { if (fks) wk[ek++] = e->k; if (fvs) wv[ev++] = e->v; }
static int cmp(const void *a, const void *b) { void *x = *(void **) a, *y = *(void **) b; return x < y ? -1 : x > y; }
static void freed(const char *op) { CHECK(nfk == ek && nfv == ev, "%s: %d keys and %d values freed instead of %d and %d", op, nfk, nfv, ek, ev); qsort(fk, nfk, sizeof *fk, cmp); qsort(wk, ek, sizeof *wk, cmp); qsort(fv, nfv, sizeof *fv, cmp); qsort(wv, ev, sizeof *wv, cmp); CHECK(!memcmp(fk, wk, nfk * sizeof *fk) && !memcmp(fv, wv, nfv * sizeof *fv), "%s: another key or value freed", op); nfk = nfv = ek = ev = 0; }
static void builtin(void) {
    if (rnd(2)) {
        drv_case("string table:"); struct cork_hash_table *t = cork_string_hash_table_new(rnd(20), 0); static char b[40][16]; int v[40]; memset(v, 0, sizeof v); int have = 0;
        for (int i = 0; i < 40; i++) { int len = i % 12; for (int j = 0; j < len; j++) b[i][j] = 'a' + (i / 12 + (j == len - 1 ? i : 0)) % 26; b[i][len] = 0; }
        for (int i = 0; i < 120; i++) { int k = rnd(40), same; char q[16]; strcpy(q, b[k]); for (same = 0; strcmp(b[same], b[k]); same++); drv_add(" %s", q); if (rnd(3)) { v[same] ? 0 : have++; v[same] = 1 + i; cork_hash_table_put(t, b[same], (void *) (intptr_t) v[same], NULL, NULL, NULL); } else { bool r = cork_hash_table_delete(t, q, NULL, NULL); CHECK(r == !!v[same], "delete %s", q); if (v[same]) have--; v[same] = 0; }
            CHECK((intptr_t) cork_hash_table_get(t, q) == v[same], "get %s", q); CHECK((int) cork_hash_table_size(t) == have, "size"); }
        cork_hash_table_free(t);
    } else {
        drv_case("pointer table:"); struct cork_hash_table *t = rnd(2) ? cork_pointer_hash_table_new(rnd(20), 0) : cork_hash_table_new(rnd(20), 0); int v[40] = { 0 }; static char p[40][64];
        for (int i = 0; i < 120; i++) { int k = rnd(40); drv_add(" %d", k); if (rnd(3)) { bool nw; void *ok, *ov; cork_hash_table_put(t, p[k], (void *) (intptr_t) (i + 1), &nw, &ok, &ov); CHECK(nw == !v[k] && (intptr_t) ov == v[k] && ok == (v[k] ? p[k] : NULL), "put"); v[k] = i + 1; } else { bool r = cork_hash_table_delete(t, p[k], NULL, NULL); CHECK(r == !!v[k], "delete"); v[k] = 0; } for (int j = 0; j < 40; j++) CHECK((intptr_t) cork_hash_table_get(t, p[j]) == v[j], "get %d", j); }
        cork_hash_table_free(t);
    }
}
static void drv_run(void) {
    cork_set_allocator(cork_debug_alloc_new(cork_allocator));
    while (drv_more()) {
        if (rnd(6) == 0) { builtin(); continue; }
        hmode = rnd(5); n = 0; nfk = nfv = nfu = ek = ev = 0; fks = rnd(3) == 0; fvs = rnd(3) == 0; int range = rnd(3) ? 1 + rnd(40) : 1 + rnd(MAXE - 1), ops = rnd(4) ? rnd(120) : rnd(1200), bias = rnd(8); size_t init = rnd(3) ? rnd(20) : rnd(200);
        drv_case("hash mode %u, initial size %zu, keys 0..%d, free callbacks %d %d:", hmode, init, range - 1, fks, fvs);
        struct cork_hash_table *t = cork_hash_table_new(init, 0); bool own = rnd(2); int want_u = 0; if (own && rnd(4) == 0) { cork_hash_table_set_user_data(t, &ud, free_u); want_u++; } cork_hash_table_set_user_data(t, &ud, own ? free_u : NULL); CHECK(nfu == want_u, "replaced user data freed %d times instead of %d", nfu, want_u); want_u += own; cork_hash_table_set_hash(t, hf); cork_hash_table_set_equals(t, eq); if (fks) cork_hash_table_set_free_key(t, free_k); if (fvs) cork_hash_table_set_free_value(t, free_v);
        for (int o = 0; o < ops; o++) {
            int id = rnd(range), i = find(id); struct key *k = mk(id); if (i >= 0 && rnd(2)) k = m[i].k; void *v = (void *) (uintptr_t) (rnd(9) ? rnd64() | 1 : 0); bool h = rnd(2), nw = rnd(2), was = nw; void *ok = &ok, *ov = &ov; bool a = rnd(2), b = rnd(2), c = rnd(2);
            struct cork_hash_table_entry *e;
            switch ((int) rnd(16) < 2 + bias ? 0 : rnd(12)) {
            case 0: case 1: drv_add(" put%s %d", h ? "_hash" : "", id); if (h) cork_hash_table_put_hash(t, hf(&ud, k), k, v, a ? &nw : NULL, b ? &ok : NULL, c ? &ov : NULL); else cork_hash_table_put(t, k, v, a ? &nw : NULL, b ? &ok : NULL, c ? &ov : NULL);
                CHECK(nw == (a ? i < 0 : was), "is_new is %d", nw); CHECK(ok == (b ? i < 0 ? NULL : (void *) m[i].k : &ok), "old key %p", ok); CHECK(ov == (c ? i < 0 ? NULL : m[i].v : &ov), "old value %p", ov);
                if (i < 0) { i = n++; } m[i].k = k; m[i].v = v; break;
            case 2: case 3: drv_add(" get_or_create %d", id); e = h ? cork_hash_table_get_or_create_hash(t, hf(&ud, k), k, &nw) : cork_hash_table_get_or_create(t, k, &nw); CHECK(nw == (i < 0), "is_new is %d", nw); if (i < 0) { CHECK(e->key == k && e->value == NULL, "new entry has key %p value %p", e->key, e->value); i = n++; m[i].k = k; e->value = v; m[i].v = v; } else CHECK(e->key == m[i].k && e->value == m[i].v, "get_or_create finds key %p value %p", e->key, e->value); break;
            case 4: case 5: { drv_add(" delete %d", id); struct key q = *k; bool r = h ? cork_hash_table_delete_hash(t, hf(&ud, k), &q, b ? &ok : NULL, c ? &ov : NULL) : cork_hash_table_delete(t, &q, b ? &ok : NULL, c ? &ov : NULL); CHECK(r == (i >= 0), "delete returns %d", r); if (i >= 0) { CHECK(ok == (b ? (void *) m[i].k : &ok) && ov == (c ? m[i].v : &ov), "deleted key %p value %p", ok, ov); gone(&m[i]); rem(i); } else CHECK(ok == &ok && ov == &ov, "outputs set although nothing was deleted"); freed("delete"); break; }
            case 6: drv_add(" delete_entry %d", id); e = cork_hash_table_get_entry(t, k); CHECK(!!e == (i >= 0), "get_entry"); if (e) { gone(&m[i]); rem(i); cork_hash_table_delete_entry(t, e); freed("delete_entry"); } break;
            case 7: { size_t s = rnd(300); drv_add(" ensure_size %zu", s); cork_hash_table_ensure_size(t, s); break; }
            case 8: { if (rnd(4)) break; struct mp p; memset(&p, 0, sizeof p); p.abort_at = rnd(2) ? -1 : (int) rnd(n + 1); int d = rnd(4); for (int j = 0; j < n; j++) p.del[j] = d == 0 ? 0 : d == 1 ? 1 : rnd(2); drv_add(" map (abort at %d, deletes %d)", p.abort_at, d); cork_hash_table_map(t, &p, mapf); int w = p.abort_at < 0 || p.abort_at >= n ? n : p.abort_at + 1; CHECK(p.calls == w, "map makes %d calls instead of %d", p.calls, w); int q = 0, n0 = n; for (int j = 0; j < n0; j++) if (j < w && p.del[j] && j != p.abort_at) { gone(&m[q]); rem(q); } else q++; freed("map"); break; }
            case 9: if (rnd(20)) break; drv_add(" clear"); for (int j = 0; j < n; j++) gone(&m[j]); n = 0; cork_hash_table_clear(t); freed("clear"); break;
            default: break;
            }
            CHECK(nfk == 0 && nfv == 0, "a key or value is freed unasked"); i = find(id); struct key q = { id, 9 };
            e = h ? cork_hash_table_get_entry(t, &q) : cork_hash_table_get_entry_hash(t, hf(&ud, &q), &q); CHECK(!!e == (i >= 0), "entry for %d %s", id, e ? "found" : "not found"); if (e) CHECK(e->key == m[i].k && e->value == m[i].v, "entry for %d has key %p value %p", id, e->key, e->value);
            void *g = h ? cork_hash_table_get_hash(t, hf(&ud, &q), &q) : cork_hash_table_get(t, &q); CHECK(g == (i < 0 ? NULL : m[i].v), "get(%d) = %p", id, g);
            CHECK((int) cork_hash_table_size(t) == n, "size %zu instead of %d", cork_hash_table_size(t), n); if (rnd(8) == 0) all(t);
        }
        all(t); for (int id = 0; id < range; id++) { struct key q = { id, 0 }; int i = find(id); struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, &q); CHECK(!!e == (i >= 0) && (!e || e->value == m[i].v), "at the end: entry for %d", id); }
        drv_add(" free"); for (int j = 0; j < n; j++) gone(&m[j]); n = 0; cork_hash_table_free(t); freed("free"); CHECK(nfu == want_u, "user data freed %d times instead of %d", nfu, want_u);
    }
}
