#include "libcork/core.h"
#include "libcork/os.h"
#include "drv.h"
extern char **environ;
/* model */
#define NN 12
static const char *names[NN] = { "A", "B", "AB", "PATH", "HOME", "X_1", "a", "LONG_NAME_OF_A_VARIABLE", "", "Z=", "\xc3\xa9", "Q" };
static char *val[NN], *cur[NN];
static void set(char **m, int i, const char *v) { free(m[i]); m[i] = v ? strdup(v) : NULL; }
static const char *rv(void) { static char b[64]; int n = rnd(4) ? rnd(8) : rnd(60); for (int i = 0; i < n; i++) b[i] = 33 + rnd(90); b[n] = 0; return b; }
static void same(struct cork_env *e, char **m, const char *what) {
    for (int i = 0; i < NN; i++) { if (!e && (i == 8 || i == 9)) continue; char nm[64]; strcpy(nm, names[i]); const char *v = cork_env_get(e, nm); CHECK(!!v == !!m[i] && (!v || !strcmp(v, m[i])), "%s: %s is %s, expected %s", what, names[i], v ? v : "absent", m[i] ? m[i] : "absent"); }
}
static void drv_run(void) {
    cork_set_allocator(cork_debug_alloc_new(cork_allocator)); clearenv();
    while (drv_more()) {
        drv_case("environment:"); clearenv(); for (int i = 0; i < NN; i++) { set(val, i, NULL); set(cur, i, NULL); }
        struct cork_env *e = cork_env_new(); int ops = rnd(60);
        for (int o = 0; o < ops; o++) {
            int i = rnd(NN); const char *v = rv(); char nm[64]; strcpy(nm, names[i]); bool env = rnd(5) == 0 && i != 8 && i != 9; struct cork_env *t = env ? NULL : e; char **m = env ? cur : val;
            switch (rnd(9)) {
            case 0: case 1: case 2: drv_add(" add(%s, %s)%s", nm, v, env ? " to the process" : ""); cork_env_add(t, nm, v); set(m, i, v); break;
            case 3: { int k = rnd(100000); char w[100]; snprintf(w, 100, "%s:%d", v, k); drv_add(" printf(%s, %s)%s", nm, w, env ? " to the process" : ""); cork_env_add_printf(t, nm, "%s:%d", v, k); set(m, i, w); break; }
            case 4: case 5: drv_add(" remove(%s)%s", nm, env ? " from the process" : ""); cork_env_remove(t, nm); set(m, i, NULL); break;
            case 6: if (val[i]) { drv_add(" add(%s, its own value)", nm); cork_env_add(e, nm, cork_env_get(e, nm)); int j = rnd(NN); drv_add(" copy to %s", names[j]); cork_env_add(e, names[j], cork_env_get(e, nm)); char *w = strdup(val[i]); set(val, j, w); free(w); } break;
            case 7: if (rnd(4)) break; drv_add(" clone"); { cork_env_free(e); e = cork_env_clone_current(); for (int j = 0; j < NN; j++) set(val, j, cur[j]); } break;
            case 8: if (rnd(6)) break; drv_add(" replace_current"); cork_env_replace_current(e); for (int j = 0; j < NN; j++) if (j != 8 && j != 9) set(cur, j, val[j]); { int n = 0, w = 0; for (char **p = environ; p && *p; p++) n++; for (int j = 0; j < NN; j++) if (j != 8 && j != 9 && cur[j]) w++; CHECK(n == w, "the environment has %d variables instead of %d", n, w); } break;
            }
            same(e, val, "overlay"); same(NULL, cur, "process");
        }
        if (environ && rnd(3) == 0) { static char *odd[3] = { "NOEQUAL", "K=v=w", NULL }; char **old = environ; environ = odd; drv_add(" clone of {NOEQUAL, K=v=w}"); struct cork_env *c = cork_env_clone_current(); environ = old; const char *x = cork_env_get(c, "K"); CHECK(x && !strcmp(x, "v=w"), "K is %s", x ? x : "absent"); CHECK(!cork_env_get(c, "NOEQUAL"), "malformed entry"); cork_env_free(c); }
        cork_env_free(e);
    }
}
