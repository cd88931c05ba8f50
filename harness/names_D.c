/* C47: fcrontabs of users whose names resemble each other, or the names the spool uses: installed, replaced and
 * removed in all orders, with the real fcrontab's files and the real daemon told, stopped or killed in between. */
#include "disk.h"

static const char *N[] = { "a", "ab", "b", "a.b", "a.b.c", "b.a", "A", "a-b", "sys", "systab2", "new", "rm", "load", "orig", "tmp", "newa", "rma", "loada", "fcrontab", "x.y.", "u2345678901234567890123456789012", "u234567890123456789012345678901", "systab", "root" };
#define NN (int)(sizeof N / sizeof *N)
static vuser tb[NN + 2]; static vgroup tg[NN + 2];
static void users(void)
{
    int n = 0; tb[n++] = (vuser){ "root", 0, 0, "/root", "/bin/sh", "x" }; tb[n++] = (vuser){ "fcron", 200, 200, "/", "/bin/false", "*" };
    for (int i = 0; i < NN - 2; i++) tb[n++] = (vuser){ N[i], 2000 + i, 2000 + i, "/tmp", "/bin/sh", "x" };
    for (int i = 0; i < n; i++) tg[i] = (vgroup){ tb[i].name, tb[i].gid }; vos_users = tb; vos_nusers = n; vos_groups = tg; vos_ngroups = n;
}
static int who[2]; static ebin bin[2][2];
static int loaded[2], pending[2]; static char hist[40]; static const char *ops; static int opos;      /* loaded: 0 none, 1, 2; pending: -1 nothing, 0 removed, 1, 2 */
static void text_of(int u, int k, char *o) { sprintf(o, "V%d=%d\n& %d 2 3 4 * cmd_%d_%d\n@ 30 same\n", u, k, k, u, k); }
static void install(int u, int k)        /* the files the real fcrontab has made */
{ eng_put_new(N[who[u]], &bin[u][k - 1]); char p[128], t[100]; text_of(u, k, t); snprintf(p, 128, SPOOL "/%s.orig", N[who[u]]); vos_put(p, t, strlen(t), 200, 200, 0640); pending[u] = k; }
static long due[2];        /* when the line both versions have is due: it is kept by a new version of the same user only */
static void take(int u)
{ char p[128]; snprintf(p, 128, SPOOL "/new.%s", N[who[u]]); vos_rmfile(p); snprintf(p, 128, SPOOL "/%s.orig", N[who[u]]); vos_rmfile(p); eng_put_rm(N[who[u]]); pending[u] = 0; due[u] = 0; }
static long due_of(const char *u) { for (cf_t *f = file_base; f; f = f->cf_next) if (!strcmp(f->cf_user, u)) for (cl_t *c = f->cf_line_base; c; c = c->cl_next) if (!strcmp(c->cl_shell, "same")) return c->cl_nextexe; return -1; }
static void check47(const char *when)
{
    mc_eval(1); int nf = 0, want = 0; for (cf_t *f = file_base; f; f = f->cf_next) nf++; for (int u = 0; u < 2; u++) want += loaded[u] > 0;
    char g[300]; 
    for (int u = 0; u < 2; u++) {
        char *s = conf_sig(N[who[u]], 0), cmd[60], as[60], env[40]; snprintf(cmd, 60, "cmd=<cmd_%d_%d>", u, loaded[u]); snprintf(as, 60, "as=<%s>", strcmp(N[who[u]], "systab") ? N[who[u]] : "root"); snprintf(env, 40, "env <V%d=%d>", u, loaded[u]);
        int ok = loaded[u] ? strstr(s, cmd) && strstr(s, as) && strstr(s, env) : !strcmp(s, "(none)");
        if (!ok) { snprintf(g, sizeof g, "%s", !strcmp(s, "(none)") ? "a fcrontab is not loaded" : !loaded[u] ? "a removed fcrontab is loaded" : "another fcrontab is loaded"); mc_violation(g, "%s %s: %s of \"%s\" (the other user is \"%s\"; operations %s): %s instead of %s", g, when, "that", N[who[u]], N[who[!u]], hist, s, loaded[u] ? cmd : "none"); }
        free(s); long d = due_of(N[who[u]]);
        if (ok && loaded[u] && !strcmp(when, "when told") && d != (due[u] ? due[u] : (long)now + 1800)) mc_violation("a line is due at another time", "the line \"@ 30 same\" of \"%s\" is due in %ld s instead of %ld (the other user is \"%s\"; operations %s)", N[who[u]], d - now, (due[u] ? due[u] : (long)now + 1800) - now, N[who[!u]], hist);
        due[u] = loaded[u] ? d : 0;
    }
    if (nf != want) { snprintf(g, sizeof g, "%d fcrontabs are loaded instead of %d", nf, want); mc_violation(g, "%s %s (users \"%s\" and \"%s\"; operations %s)", g, when, N[who[0]], N[who[1]], hist); }
}
static void pend(void) { for (int u = 0; u < 2; u++) if (pending[u] >= 0) { loaded[u] = pending[u]; pending[u] = -1; } }
static void call47(int c)
{
    if (c < 'a' && c != 'K') vos_advance(60);
    switch (c) { case 'A': install(0, 1); break; case 'B': install(0, 2); break; case 'C': take(0); break; case 'D': install(1, 1); break; case 'E': install(1, 2); break; case 'F': take(1); break;
    case 'k': check47("after the start"); break; case 'K': pend(); check47("when told"); break; }
}
static long nseq47;
static void seq47(const char *s)
{
    if (mc_stop()) return; nseq47++;
    eng_init(); vos_set_time(1706000000); memset(loaded, 0, sizeof loaded); due[0] = due[1] = 0; pending[0] = pending[1] = -1; snprintf(hist, sizeof hist, "%s", s); dcall = call47; duser = "root"; dhow = 0;
    /* H: the daemon is told; S: stopped and started; X: killed and started */
    char scr[80]; int n = 0; const char *p = s; int first = 1;
    for (;;) {
        n = 0; if (!first) scr[n++] = 'k'; first = 0;
        for (; *p && *p != 'S' && *p != 'X'; p++) { if (*p == 'H') { scr[n++] = 'h'; scr[n++] = 'K'; } else scr[n++] = *p; }
        if (*p == 'S') scr[n++] = 't'; scr[n] = 0; int end = !*p; drun(scr); pend(); if (end) break; p++;
    }
    drun("k"); mc_state(vos_fs_hash(vos_hash(who[0] * 100 + who[1], s, strlen(s)), 0)); mc_outcome(vos_hash(loaded[0] * 3 + loaded[1], V.ent, 0));
    dcall = NULL;
}
static int depth47;
static void gen47(char *b, int n)
{
    if (mc_stop()) return;
    if (n && strchr("HSX", b[n - 1])) seq47(b);
    if (n == depth47) return;
    for (const char *o = "ABCDEFHSX"; *o; o++) {
        if (n && strchr("HSX", *o) && strchr("HSX", b[n - 1])) continue;
        if (!n && strchr("HSXCF", *o)) continue;
        b[n] = *o; b[n + 1] = 0; gen47(b, n + 1); b[n] = 0;
    }
}
static void item47(long it)
{
    users(); who[0] = it / NN; who[1] = it % NN; if (who[0] >= who[1]) return;
    /* new.orig is both the source of user new and the new fcrontab of user orig: the spool cannot tell them apart */
    for (int u = 0; u < 2; u++) { const char *a = N[who[u]], *b = N[who[!u]]; if ((!strcmp(a, "new") || !strcmp(a, "rm") || !strcmp(a, "load")) && (!strcmp(b, "orig") || !strcmp(b, "tmp"))) return; }
    eng_init(); vos_set_time(1706000000);
    for (int u = 0; u < 2; u++) for (int k = 1; k <= 2; k++) {
        char t[100], p[128]; text_of(u, k, t); bin[u][k - 1] = eng_compile(N[who[u]], t); snprintf(p, 128, SPOOL "/%s.orig", N[who[u]]);
    }
    char b[20] = ""; depth47 = mc_thorough ? 6 : 5; gen47(b, 0);
}
int harness_main(void) { if (!strcmp(mc_arg, "C47")) mc_items(NN * NN, item47); return 0; }
