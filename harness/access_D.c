/* C28: who may use fcrontab, fcrondyn and fcronsighup: the real programs, run for every
 * pair of fcron.allow and fcron.deny files of a bounded family. */
#include "eng.h"

int T_main(int, char **); int S_main(int, char **); int C_main(int, char **);
extern char __start_sdata_S[], __stop_sdata_S[], __start_sbss_S[], __stop_sbss_S[], __start_sdata_C[], __stop_sdata_C[], __start_sbss_C[], __stop_sbss_C[];
static mc_seg sg[4]; static int forked, killed, connected;
static int sfork(void) { forked = 1; return vos_new_pid(-2); }
static int skill(pid_t p, int s) { (void)p; if (s == SIGHUP) killed = 1; return 0; }
static int sconn(int fd) { (void)fd; connected = 1; errno = ECONNREFUSED; return -1; }
/* run a client program as a user; returns its exit code */
static int run_prog(int (*m)(int, char **), int g, const char *name, uid_t uid, uid_t euid, gid_t gid, gid_t egid, char **av)
{
    mc_seg_restore(&sg[g]); mc_seg_restore(&sg[g + 1]); vos_reset_fds(); for (int i = 0; i < (int)(sizeof V.sock / sizeof *V.sock); i++) V.sock[i].used = 0; strcpy(V.cwd, "/"); V.umask_ = 022; optind = 0; mc_arm();
    creds(uid, euid, gid, egid); in_tab = 1; tab_outlen = tab_errlen = 0; tab_out[0] = 0; if (tab_err) tab_err[0] = 0; forked = killed = connected = 0;
    vos_fork_hook = sfork; vos_kill_hook = skill; vos_connect_hook = sconn;
    static char **v; static int n; v = av; for (n = 0; v[n]; n++) ;
    if (!setjmp(exit_jb)) exit_code = m(n, v);
    fflush(vos_stdout); fflush(vos_stderr); in_tab = 0; creds(0, 0, 0, 0); vos_reset_fds(); strcpy(V.cwd, "/"); vos_fork_hook = eng_fork; V.sigmask = V.sigpending = 0; memset(V.handler, 0, sizeof V.handler);
    (void)name; return exit_code;
}
/* ---------------------------------------------------------------- what fcrontab(1) and the files say */
enum { NOFILE, NOTIN, OWN, ALL };
static int status_of(const char *t, size_t n, const char *user)
{
    int r = NOTIN; if (!t) return NOFILE;
    for (size_t i = 0; i < n; ) {
        size_t e = i; while (e < n && t[e] != '\n') e++;
        size_t a = i, b = e; while (a < b && (t[a] == ' ' || t[a] == '\t')) a++; while (b > a && (t[b - 1] == ' ' || t[b - 1] == '\t')) b--;
        if (b > a && t[a] != '#') { if (b - a == strlen(user) && !memcmp(t + a, user, b - a)) return OWN; if (b - a == 3 && !memcmp(t + a, "all", 3)) r = ALL; }
        i = e + 1;
    }
    return r;
}
static int may_use(int al, int de)
{
    if (de == OWN) return 0;                         /* listed in fcron.deny */
    if (al == OWN) return 1;                         /* "all" in fcron.deny: those who are not in fcron.allow */
    if (de == ALL) return 0;
    return al == NOFILE || al == ALL;
}
static char *tx[2]; static size_t tn[2]; static int has[2];
static long nprog;
static char *show(int k) { static char b[2][300]; int n = 0; if (!has[k]) return "no file"; n += snprintf(b[k], 300, "%zu bytes \"", tn[k]); for (size_t i = 0; i < tn[k] && n < 240; i++) { int run = 1; while (i + run < tn[k] && tx[k][i + run] == tx[k][i]) run++; if (run > 8) { n += snprintf(b[k] + n, 300 - n, "%c*%d", tx[k][i], run); i += run - 1; } else n += snprintf(b[k] + n, 300 - n, tx[k][i] == '\n' ? "\\n" : tx[k][i] == '\t' ? "\\t" : tx[k][i] ? "%c" : "\\0", tx[k][i]); } snprintf(b[k] + n, 300 - n, "\""); return b[k]; }
static void try(const char *user, uid_t uid, int progs)
{
    vos_rmfile("/etc/fcron.allow"); vos_rmfile("/etc/fcron.deny");
    if (has[0]) vos_put("/etc/fcron.allow", tx[0], tn[0], 0, 200, 0640);
    if (has[1]) vos_put("/etc/fcron.deny", tx[1], tn[1], 0, 200, 0640);
    memset(V.proc, 0, sizeof V.proc); V.nproc = 0;
    int al = status_of(has[0] ? tx[0] : NULL, tn[0], user), de = status_of(has[1] ? tx[1] : NULL, tn[1], user), want = may_use(al, de); static const char *sn[] = { "no file", "not in it", "in it", "all in it" };
    mc_state(vos_hash(vos_hash(1469598103934665603ULL, has[0] ? tx[0] : "", has[0] ? tn[0] + 1 : 0), has[1] ? tx[1] : "", has[1] ? tn[1] + 1 : 0)); mc_outcome(want * 100 + al * 4 + de);
#define BAD(prog, what) do { char g[200]; snprintf(g, sizeof g, "%s: %s (allow: %s, deny: %s)", prog, what, sn[al], sn[de]); mc_violation(g, "%s; fcron.allow %s; fcron.deny %s: %.200s", g, show(0), show(1), tab_err ? tab_err : ""); } while (0)
    if (progs & 1) {
        int rc = eng_fcrontab(uid, uid, "/tmp/tab", NULL); char p[80]; snprintf(p, 80, SPOOL "/new.%s", user); int got = vos_file(p) != NULL; mc_eval(1); nprog++;
        if (got != want || (rc == 0) != want) BAD("fcrontab", want ? "refused" : "allowed"); vos_rmfile(p); snprintf(p, 80, SPOOL "/%s.orig", user); if (!want && vos_file(p)) BAD("fcrontab", "changed the source of a user who is not allowed"); vos_rmfile(p);
    }
    if (progs & 2) { char *av[] = { "fcronsighup", NULL }; run_prog(S_main, 0, "fcronsighup", uid, 0, uid, 200, av); int got = forked || killed; mc_eval(1); if (got != want) BAD("fcronsighup", want ? "refused" : "allowed"); }
    if (progs & 4) { char *av[] = { "fcrondyn", "-x", "ls", NULL }; run_prog(C_main, 2, "fcrondyn", uid, 200, uid, 200, av); int got = connected; mc_eval(1); if (got != want) BAD("fcrondyn", want ? "refused" : "allowed"); }
}
/* ---------------------------------------------------------------- families of files */
static const char *L[] = { "alice", "all", "bob", "# alice", "", " alice\t", "alicex", "alic", "#all", "\t all ", "Alice", "xalice", "all alice", "all of them", "alice\\", "root" };
#define NL 16
static int nl(void) { return NL; }
/* file number f: 0 none, 1 empty, then sequences of 1, 2, 3 lines; the last line with or without its end */
static int nfiles(int depth) { int n = 2, p = 1; for (int d = 0; d < depth; d++) { p *= nl(); n += 2 * p; } return n; }
static void build(int k, int f)
{
    if (!tx[k]) tx[k] = malloc(20000); tn[k] = 0; has[k] = f > 0; if (f < 2) return; f -= 2; int d = 1, p = nl(); while (f >= 2 * p) { f -= 2 * p; d++; p *= nl(); }
    int end = f & 1; f /= 2; for (int i = 0; i < d; i++) { tn[k] += sprintf(tx[k] + tn[k], "%s", L[f % nl()]); f /= nl(); if (i < d - 1 || end) tx[k][tn[k]++] = '\n'; }
}
static const struct { const char *n; uid_t u; } U[] = { { "alice", 1001 }, { "bob", 1002 }, { "root", 0 } };
static void setup(void)
{
    eng_init(); if (!sg[0].copy) { mc_seg_save(&sg[0], __start_sdata_S, __stop_sdata_S); mc_seg_save(&sg[1], __start_sbss_S, __stop_sbss_S); mc_seg_save(&sg[2], __start_sdata_C, __stop_sdata_C); mc_seg_save(&sg[3], __start_sbss_C, __stop_sbss_C); }
    vos_set_time(1706000000); vos_put("/tmp/tab", "& 1 2 3 4 * x\n", 14, 0, 0, 0644); vos_put("/var/run/fcron.pid", "321\n", 4, 0, 0, 0644);
}
/* one file of up to 3 lines, the other of up to 1 line */
static void item_seq(long it)
{
    setup(); int big = it & 1; it /= 2; long nb = nfiles(3), ns = nfiles(mc_thorough ? 2 : 1);
    for (long f = it; f < nb; f += 32) for (int g = 0; g < ns; g++) { if (mc_stop()) return; build(big, f); build(!big, g); for (int u = 0; u < 3; u++) try(U[u].n, U[u].u, u == 0 ? 7 : 1 << (f + g) % 3); }
}
/* one line of every length, made of one part repeated and one name at its end or its beginning, as an entry, a comment or after blanks */
static void item_len(long it)
{
    setup(); static const char *nm[] = { "alice", "all", " alice", " all", "#", "\0alice", "alice\0x" }; static const int nz[] = { 5, 3, 6, 4, 1, 6, 7 }; static const char fill[] = { 'x', ' ', '#', '\t' };
    int hi = mc_thorough ? 4200 : 2100;
    for (int len = it; len <= hi; len += 32) { if (!mc_thorough && !(len % 1023 < 12 || len % 1023 > 1010 || len % 1024 < 12 || len % 37 == 0)) continue;
        for (int n = 0; n < 7; n++) for (int fi = 0; fi < 4; fi++) for (int pos = 0; pos < 4; pos++) for (int k = 0; k < 2; k++) for (int o = 0; o < 3; o++) {
            if (mc_stop()) return; build(0, 0); build(1, 0); char *t = tx[k]; size_t m = 0; if (pos & 2) t[m++] = '#';
            if (pos & 1) { memcpy(t + m, nm[n], nz[n]); m += nz[n]; } memset(t + m, fill[fi], len); m += len; if (!(pos & 1)) { memcpy(t + m, nm[n], nz[n]); m += nz[n]; }
            if (o == 1) { t[m++] = '\n'; memcpy(t + m, "bob\n", 4); m += 4; } if (o == 2) { memmove(t + 4, t, m); memcpy(t, "bob\n", 4); m += 4; }
            has[k] = 1; tn[k] = m; try("alice", 1001, 1 << (len + n + fi) % 3); if (o) try("bob", 1002, 1); } }
}
/* every call that fails, at each call of each program, for each pair of files of one or two lines: a user who may not use a program must not be able to because of it */
static int fn, fk, fe, fhit; static const int errs[] = { ENOENT, EACCES, EIO, EMFILE, EINTR, ENOMEM };
static int fault28(const char *c, const char *p) { (void)c; (void)p; if (!in_tab || fn++ != fk) return 0; fhit = 1; return errs[fe]; }
static void item_fault(long it)
{
    setup(); int ns = nfiles(1); int quick[] = { 0, 1, 2, 4, 6, 8 }; (void)ns;
    int prog = it % 3, fi = it / 3, a = quick[fi / 6], d = quick[fi % 6];
    for (int u = 0; u < 2; u++) for (fe = 0; fe < 6; fe++) for (fk = 0; fk < 400; fk++) {
        if (mc_stop()) return; build(0, a); build(1, d); const char *user = U[u].n; uid_t uid = U[u].u;
        memset(V.proc, 0, sizeof V.proc); V.nproc = 0; vos_rmfile("/etc/fcron.allow"); vos_rmfile("/etc/fcron.deny"); if (has[0]) vos_put("/etc/fcron.allow", tx[0], tn[0], 0, 200, 0640); if (has[1]) vos_put("/etc/fcron.deny", tx[1], tn[1], 0, 200, 0640);
        int al = status_of(has[0] ? tx[0] : NULL, tn[0], user), de = status_of(has[1] ? tx[1] : NULL, tn[1], user), want = may_use(al, de), got;
        /* a file which cannot be seen is not there */
        fn = fhit = 0; vos_fault_hook = fault28; char p[80];
        if (prog == 0) { eng_fcrontab(uid, uid, "/tmp/tab", NULL); snprintf(p, 80, SPOOL "/new.%s", user); got = vos_file(p) != NULL; vos_rmfile(p); snprintf(p, 80, SPOOL "/%s.orig", user); vos_rmfile(p); }
        else if (prog == 1) { char *av[] = { "fcronsighup", NULL }; run_prog(S_main, 0, "fcronsighup", uid, 0, uid, 200, av); got = forked || killed; }
        else { char *av[] = { "fcrondyn", "-x", "ls", NULL }; run_prog(C_main, 2, "fcrondyn", uid, 200, uid, 200, av); got = connected; }
        vos_fault_hook = eng_fault; mc_eval(1); mc_state(vos_hash((it * 2 + u) * 1000003, &fk, sizeof fk)); mc_outcome((want * 100 + al * 4 + de) * 2 + got);
        if (got && !want && fe != 0) { char g[200]; snprintf(g, sizeof g, "%s: allowed after a failing call", (char *[]){ "fcrontab", "fcronsighup", "fcrondyn" }[prog]); mc_violation(g, "%s; fcron.allow %s; fcron.deny %s: call %d failing with %s: %.200s", g, show(0), show(1), fk, strerror(errs[fe]), tab_err ? tab_err : ""); }
        if (!fhit) break; }
}
int harness_main(void)
{
    if (!strcmp(mc_arg, "C28")) mc_items(64, item_seq);
    else if (!strcmp(mc_arg, "C28:len")) mc_items(32, item_len);
    else if (!strcmp(mc_arg, "C28:fault")) mc_items(108, item_fault);
    return 0;
}
