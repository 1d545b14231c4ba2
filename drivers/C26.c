#include "libcork/core.h"
#include "libcork/os.h"
#include "drv.h"
static char *word(const char *alpha) { int n = rnd(5) ? rnd(8) : rnd(5) ? rnd(40) : rnd(400); char *s = malloc(n + 1); int k = strlen(alpha); for (int i = 0; i < n; i++) s[i] = rnd(20) ? alpha[rnd(k)] : 1 + rnd(255); s[n] = 0; return s; }
static char *cat(const char *a, const char *b, const char *c) { char *r = malloc(strlen(a) + strlen(b) + strlen(c) + 1); strcpy(r, a); strcat(r, b); strcat(r, c); return r; }
static char *part(const char *s, size_t n) { char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
/* oracles */
static char *join(const char *a, const char *b) { if (!b || !*b) return strdup(a); if (*b == '/') return strdup(b); return cat(a, *a && a[strlen(a) - 1] != '/' ? "/" : "", b); }
static char *base(const char *a) { const char *l = strrchr(a, '/'); return strdup(l ? l + 1 : a); }
static char *dir(const char *a) { const char *l = strrchr(a, '/'); return part(a, !l ? 0 : l == a ? 1 : l - a); }
static void is(const struct cork_path *p, const char *want, const char *what) { const char *got = cork_path_get(p); CHECK(got && !strcmp(got, want), "%s: \"%s\" instead of \"%s\"", what, got ? got : "NULL", want); }
static void drv_run(void) {
    cork_set_allocator(cork_debug_alloc_new(cork_allocator));
    while (drv_more()) {
        char *s = word(rnd(2) ? "/ab" : "/ab.-c/"), *t; bool null = rnd(20) == 0; if (null) *s = 0;
        drv_case("path(%s%s%s)", null ? "" : "\"", null ? "NULL" : s, null ? "" : "\"");
        struct cork_path *p = cork_path_new(null ? NULL : s), *q, *r; is(p, s, "new");
        for (int n = rnd(6); n > 0; n--) {
            t = word("/ab"); char *w = NULL; bool isnull = rnd(12) == 0; if (isnull) *t = 0;
            switch (rnd(9)) {
            case 0: drv_add(" append(\"%s\")", t); cork_path_append(p, isnull ? NULL : t); w = join(s, t); is(p, w, "append"); break;
            case 1: drv_add(" join(\"%s\")", t); q = cork_path_join(p, isnull ? NULL : t); is(p, s, "the first path after join"); w = join(s, t); is(q, w, "join"); cork_path_free(p); p = q; break;
            case 2: drv_add(" append_path(\"%s\")", t); q = cork_path_new(t); cork_path_append_path(p, q); is(q, t, "the second path after append_path"); cork_path_free(q); w = join(s, t); is(p, w, "append_path"); break;
            case 3: drv_add(" join_path(\"%s\")", t); r = cork_path_new(t); q = cork_path_join_path(p, r); is(r, t, "the second path after join_path"); is(p, s, "the first path after join_path"); cork_path_free(r); w = join(s, t); is(q, w, "join_path"); cork_path_free(p); p = q; break;
            case 4: { drv_add(" basename"); q = cork_path_basename(p); is(p, s, "the path after basename"); char *b = base(s), *d = dir(s); is(q, b, "basename"); r = cork_path_dirname(p); is(p, s, "the path after dirname"); is(r, d, "dirname");
                cork_path_append_path(r, q); char *x = join(d, b); is(r, x, "the pieces together"); cork_path_free(q); cork_path_free(r); free(x); free(b); free(d); w = strdup(s); break; }
            case 5: drv_add(" set_basename"); cork_path_set_basename(p); w = base(s); is(p, w, "set_basename"); break;
            case 6: drv_add(" set_dirname"); cork_path_set_dirname(p); w = dir(s); is(p, w, "set_dirname"); break;
            case 7: drv_add(" set(\"%s\")", t); cork_path_set(p, isnull ? NULL : t); w = strdup(t); is(p, w, "set"); break;
            case 8: drv_add(" clone"); q = cork_path_clone(p); is(q, s, "clone"); cork_path_free(p); p = q; w = strdup(s); is(p, w, "clone"); break;
            }
            free(t); free(s); s = w;
        }
        cork_path_free(p); free(s);
        s = word("ab/:"); drv_case("path list \"%s\"", s); struct cork_path_list *l = cork_path_list_new(s); const char *x = cork_path_list_to_string(l); CHECK(x && !strcmp(x, s), "prints as \"%s\"", x ? x : "NULL");
        size_t k = 0; const char *c = s; for (;; c = strchr(c, ':') + 1) { const char *e = strchr(c, ':'); size_t n = e ? e - c : strlen(c); char *w = part(c, n); CHECK(k < cork_path_list_size(l), "only %zu components", cork_path_list_size(l)); is(cork_path_list_get(l, k), w, "component"); free(w); k++; if (!e) break; }
        CHECK(cork_path_list_size(l) == k, "%zu components instead of %zu", cork_path_list_size(l), k);
        for (int n = rnd(4); n > 0; n--) { t = word("ab/"); for (char *y = t; *y; y++) if (*y == ':') *y = 'c'; drv_add(" add \"%s\"", t); cork_path_list_add(l, cork_path_new(t)); char *w = cat(s, ":", t); free(s); s = w; k++; is(cork_path_list_get(l, k - 1), t, "added"); x = cork_path_list_to_string(l); CHECK(!strcmp(x, s), "prints as \"%s\" instead of \"%s\"", x, s); free(t); }
        cork_path_list_free(l);
        l = cork_path_list_new_empty(); CHECK(cork_path_list_size(l) == 0, "an empty list has paths"); x = NULL; char *all = strdup("");
        for (int n = rnd(4), i = 0; i < n; i++) { t = word("ab/"); for (char *y = t; *y; y++) if (*y == ':') *y = 'c'; drv_add(" then add \"%s\"", t); cork_path_list_add(l, cork_path_new(t)); char *w = cat(all, i ? ":" : "", t); free(all); all = w; x = cork_path_list_to_string(l); CHECK(!strcmp(x, all), "prints as \"%s\" instead of \"%s\"", x, all); free(t); }
        cork_path_list_free(l); free(all); free(s);
    }
}
