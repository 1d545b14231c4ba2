#include "libcork/core.h"
#include "libcork/cli.h"
#include "drv.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
/* random command trees and arguments; each case runs in a child process, what ran is recorded in shared memory */
#define MAXN 24
struct shared { int nrun, leaf[8], argc[8]; char *argv0[8]; int nopt, opt[16], oargc[16]; char *oargv[16]; int consumed; int eat[MAXN]; int returned; } *sh;
static struct cork_command cmds[MAXN]; static struct cork_command *sets[MAXN][8]; static int nkids[MAXN], kids[MAXN][8], isset_[MAXN], hasopt[MAXN], ncmd;
static const char *NAMES[] = { "get", "set", "add", "rm", "ge", "gett", "he", "helpx", "h", "x" };
static int r1(int id, int c, char **v) { int k = sh->nrun++; if (k < 8) { sh->leaf[k] = id; sh->argc[k] = c; sh->argv0[k] = (char *) v; } return 0; }
static int o1(int id, int c, char **v) { int k = sh->nopt++; if (k < 16) { sh->opt[k] = id; sh->oargc[k] = c; sh->oargv[k] = (char *) v; } int e = sh->eat[id]; return e > c ? c : e; }
#define C(i) static int run##i(int c, char **v) { return r1(i, c, v); } static int opt##i(int c, char **v) { return o1(i, c, v); }
C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16) C(17) C(18) C(19) C(20) C(21) C(22) C(23)
#define R(i) run##i
#define Q(i) opt##i
#define ALL(m) { m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7), m(8), m(9), m(10), m(11), m(12), m(13), m(14), m(15), m(16), m(17), m(18), m(19), m(20), m(21), m(22), m(23) }
static cork_leaf_command_run runs[MAXN] = ALL(R); static cork_option_parser opts[MAXN] = ALL(Q);
static int build(int depth) {
    int id = ncmd++; struct cork_command *c = &cmds[id]; memset(c, 0, sizeof *c); isset_[id] = depth == 0 || (depth < 4 && rnd(2)); c->name = depth ? NAMES[rnd(10)] : "root"; nkids[id] = 0; hasopt[id] = rnd(3) == 0;
    static char descs[MAXN][40]; sprintf(descs[id], "<desc %d>", id); if (rnd(3)) c->short_desc = descs[id]; c->parse_options = hasopt[id] ? opts[id] : NULL; sh->eat[id] = 1 + rnd(3); if (rnd(8) == 0) sh->eat[id] = 9;
    if (isset_[id]) { c->type = CORK_COMMAND_SET; int n = rnd(5); for (int i = 0; i < n && ncmd < MAXN; i++) { int k = build(depth + 1); kids[id][nkids[id]] = k; sets[id][nkids[id]++] = &cmds[k]; } sets[id][nkids[id]] = NULL; c->set = sets[id]; }
    else { c->type = CORK_LEAF_COMMAND; c->run = runs[id]; static char us[MAXN][40], fh[MAXN][40]; sprintf(us[id], "<usage %d>", id); sprintf(fh[id], "<full %d>\n", id); c->usage_suffix = us[id]; c->full_help = fh[id]; }
    return id;
}
static int find(int id, const char *n) { for (int i = 0; i < nkids[id]; i++) if (!strcmp(cmds[kids[id][i]].name, n)) return kids[id][i]; return -1; }
/* the reference dispatcher */
enum { RAN, HELP, FAILED_ };
static char crumbs[600]; static int wopt[16], woc[16], wov[16], nwo;
static int expect(int id, int c, char **v, int off, int *who, int *oc, int *oo) {
    strcat(crumbs, " "); strcat(crumbs, cmds[id].name);
    if (c >= 2 && (!strcmp(v[1], "--help") || !strcmp(v[1], "-h"))) { *who = id; return HELP; }
    int e = 1; if (hasopt[id]) { e = sh->eat[id] > c ? c : sh->eat[id]; wopt[nwo] = id; woc[nwo] = c; wov[nwo++] = off; }
    c -= e; v += e; off += e;
    if (!isset_[id]) { *who = id; *oc = c; *oo = off; return RAN; }
    if (c == 0) return FAILED_;
    if (!strcmp(v[0], "help")) { int cur = id; c--; v++; while (c > 0 && isset_[cur]) { int s = find(cur, v[0]); if (s < 0) return FAILED_; strcat(crumbs, " "); strcat(crumbs, cmds[s].name); cur = s; c--; v++; } *who = cur; return HELP; }
    int s = find(id, v[0]); if (s < 0) return FAILED_; return expect(s, c, v, off, who, oc, oo);
}
static void drv_run(void) {
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); CHECK(sh != MAP_FAILED, "mmap"); static char out[20000];
    while (drv_more()) {
        memset(sh, 0, sizeof *sh); ncmd = 0; int root = build(0); for (int i = ncmd; i < MAXN; i++) sh->eat[i] = 1;
        char *argv[14]; static char store[14][12]; int c = 0, cur = root, n = 1 + rnd(8); drv_case("argv:");
        strcpy(store[0], "prog"); argv[c++] = store[0];
        while (c < n) { int w = rnd(10); char *s = store[c];
            if (w < 6 && cur >= 0 && nkids[cur]) { int k = kids[cur][rnd(nkids[cur])]; strcpy(s, cmds[k].name); cur = k; } else if (w == 6) strcpy(s, "--help"); else if (w == 7) strcpy(s, rnd(2) ? "-h" : "help"); else if (w == 8) strcpy(s, "help"); else strcpy(s, NAMES[rnd(10)]);
            argv[c++] = s; }
        argv[c] = NULL; for (int i = 0; i < c; i++) drv_add(" %s", argv[i]); for (int i = 0; i < ncmd; i++) { drv_add("; %d=%s%s%s", i, cmds[i].name, isset_[i] ? "{" : "", hasopt[i] ? "(options)" : ""); for (int k = 0; k < nkids[i]; k++) drv_add(" %d", kids[i][k]); if (isset_[i]) drv_add("}"); }
        int pp[2]; CHECK(pipe(pp) == 0, "pipe"); fflush(stdout); pid_t p = fork(); CHECK(p >= 0, "fork");
        if (p == 0) { close(pp[0]); dup2(pp[1], 1); close(pp[1]); int r = cork_command_main(&cmds[root], c, argv); sh->returned = 1; exit(r); }
        close(pp[1]); size_t got = 0; ssize_t k; while ((k = read(pp[0], out + got, sizeof out - 1 - got)) > 0) got += k; close(pp[0]); out[got] = 0; int st; waitpid(p, &st, 0);
        crumbs[0] = 0; nwo = 0; int who = -1, oc = 0, oo = 0, r = expect(root, c, argv, 0, &who, &oc, &oo);
        CHECK(WIFEXITED(st), "killed: %x", st); CHECK(WEXITSTATUS(st) == (r == FAILED_ ? EXIT_FAILURE : 0), "exit status %d, %s expected", WEXITSTATUS(st), r == FAILED_ ? "failure" : "success");
        CHECK(sh->returned == (r != FAILED_), "cork_command_main %s", sh->returned ? "returned" : "did not return");
        CHECK(sh->nrun == (r == RAN), "%d commands ran", sh->nrun); CHECK(sh->nopt == nwo, "%d option parsers were called instead of %d", sh->nopt, nwo);
        for (int i = 0; i < nwo; i++) CHECK(sh->opt[i] == wopt[i] && sh->oargc[i] == woc[i] && sh->oargv[i] == (char *) (argv + wov[i]), "option parser call %d: command %d, argc %d, argv+%d instead of %d, %d, %d", i, sh->opt[i], sh->oargc[i], (int) ((char **) sh->oargv[i] - argv), wopt[i], woc[i], wov[i]);
        if (r == RAN) CHECK(sh->leaf[0] == who && sh->argc[0] == oc && sh->argv0[0] == (char *) (argv + oo), "command %d ran with argc %d, argv+%d instead of %d, %d, %d", sh->leaf[0], sh->argc[0], (int) ((char **) sh->argv0[0] - argv), who, oc, oo);
        if (r == RAN) CHECK(got == 0, "output: %s", out);
        if (r == FAILED_) { CHECK(strstr(out, "ommand") != NULL, "no message: %s", out); char u[640]; snprintf(u, sizeof u, "Usage:%s <command>", crumbs); CHECK(strstr(out, u) != NULL, "usage line: %s", out); }
        if (r == HELP) { char u[640]; snprintf(u, sizeof u, "Usage:%s%s", crumbs, isset_[who] ? " <command>" : ""); CHECK(strncmp(out, u, strlen(u)) == 0 && (isset_[who] || out[strlen(u)] == ' '), "usage line: %s, expected %s", out, u);
            if (isset_[who]) { char *q = out + strlen(u); for (int i = 0; i < nkids[who]; i++) { struct cork_command *s = sets[who][i]; char w[60]; snprintf(w, sizeof w, "  %s", s->name); q = strstr(q, w); CHECK(q != NULL, "command %s is not listed: %s", s->name, out); q += strlen(w);
                    char *e = strchr(q, '\n'); CHECK(e != NULL, "list"); if (s->short_desc) { *e = 0; CHECK(strstr(q, s->short_desc) != NULL, "description of %s is missing: %s", s->name, q); *e = '\n'; } } }
            else { CHECK(strstr(out, cmds[who].usage_suffix) && strstr(out, cmds[who].full_help), "help text: %s", out); } }
    }
}
