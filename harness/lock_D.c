/* C45: at most one daemon runs, and fcron.pid names it: several real daemons started, stopped and
 * killed at any time, every order of the system calls which concern what they share. */
#define DAEMON_MAIN main
int main(int, char **);
#include "eng.h"
#include "config.h"

#define P_DATA __start_sdata_D
#define P_DATAE __stop_sdata_D
#define P_BSS __start_sbss_D
#define P_BSSE __stop_sbss_D
#include "procs.h"
#define PIDF "/var/run/fcron.pid"
#define FIFO "/var/run/fcron.fifo"
enum { NOT, RDY, RUN, END };
static struct { int state, locked, shared, busy, told, killed, rmpid, ran, exitcode, errs, n, ino; uint64_t h; } I[NI];
static int ni, budget, switches, last, stops, maxstop, pidkind, bg, nflt, maxflt; static char desc[300], fltname[100];
#define BADL(S, ...) do { char m_[900]; snprintf(m_, 900, __VA_ARGS__); mc_violation(S, "%s%s%s: %s", desc, nflt ? "; fails: " : "", nflt ? fltname : "", m_); } while (0)
static int lflock(int fd, int op)
{
    if (!pcur) return 0; int k = pcur - 1, ino = V.fd[fd].ino, busy = 0; if (op & LOCK_UN) { I[k].locked = -1; return 0; }
    for (int j = 0; j < ni; j++) if (j != k && I[j].state != END && I[j].locked == ino && pholds(j, ino) && !(I[j].shared && (op & LOCK_SH))) busy = 1;
    I[k].h = vos_hash(I[k].h, &busy, sizeof busy); if (busy) { I[k].busy = 1; return EWOULDBLOCK; } I[k].locked = ino; I[k].shared = op & LOCK_SH; return 0;
}
static int lfault(const char *c, const char *p)
{
    if (!pcur) return 0; int k = pcur - 1; int pidf = !strcmp(p, PIDF), shared = pidf || !strcmp(p, FIFO) || strstr(p, SPOOL "/") || !strcmp(c, "flock") || !strcmp(c, "bind") || !strcmp(c, "lockf") || !strncmp(p, "new.", 4) || !strcmp(p, "alice");
    I[k].h = vos_hash(I[k].h, c, strlen(c)); I[k].n++;
    if (getenv("LDBG")) fprintf(stderr, "    [%d] %s %s\n", k, c, p);
    if (shared && (pidf || !strcmp(c, "flock") || !strcmp(c, "lockf") || !strcmp(c, "bind") || !strcmp(c, "unlink") || !strcmp(c, "rename"))) { pswitch(0); }
    if (pidf && !strcmp(c, "unlink")) I[k].rmpid = 1;
    if (nflt < maxflt && (pidf || !strcmp(c, "flock") || !strcmp(c, "lockf")) && mc_choose(2, c)) { nflt++; snprintf(fltname, 100, "%s(%s)", c, p); return EIO; }
    return 0;
}
static int lsel(int n, fd_set *r, struct timeval *tv)
{
    (void)n; (void)tv; if (!pcur) return 0; int k = pcur - 1; FD_ZERO(r); I[k].state = RUN; I[k].ran = 1;
    do pswitch(0); while (!I[k].told);
    if (!I[k].rmpid) vos_raise(SIGTERM); errno = EINTR; return -1;
}
static void llog(int lev, const char *m) { (void)m; if (pcur && lev <= 3) I[pcur - 1].errs++; }
static ssize_t lout(int fd, const void *b, size_t n) { (void)b; if (pcur && fd == 2 && n) I[pcur - 1].errs++; return n; }
static pid_t lfork(void) { if (pcur) V.pid = 999 + pcur; return 0; }
static void start_of(void)
{
    int k = pcur - 1; optind = 0; static char *av[NI][5]; int n = 0; av[k][n++] = "fcron"; av[k][n++] = bg ? "-b" : "-f"; av[k][n++] = "-s"; av[k][n++] = "2000"; av[k][n] = NULL;
    if (!setjmp(exit_jb)) exit_code = DAEMON_MAIN(n, av[k]);
    I[k].exitcode = exit_code; pswitch(0);      /* all done but for the end of the process, which releases the lock */
    I[k].state = END; vos_reset_fds(); pswitch(0); abort();
}
static uint64_t hash45(void)
{
    uint64_t h = vos_fs_hash(45, 0); h = vos_hash(h, &ni, sizeof ni); h = vos_hash(h, &stops, sizeof stops); h = vos_hash(h, &nflt, sizeof nflt);
    for (int k = 0; k < ni; k++) { h = vos_hash(h, &I[k].state, sizeof I[k].state); h = vos_hash(h, &I[k].h, sizeof I[k].h); h = vos_hash(h, &I[k].n, sizeof(int)); h = vos_hash(h, &I[k].locked, sizeof(int)); h = vos_hash(h, &I[k].told, sizeof(int)); int held = 0; for (int f = 0; f < VOS_MAXFD; f++) if (px[k + 1].fd[f].kind == VF_FILE) held = held * 7 + px[k + 1].fd[f].ino + 1; h = vos_hash(h, &held, sizeof held); }
    return vos_hash(h, &last, sizeof last);
}
static void look(void)
{
    int run = 0, who = -1; for (int k = 0; k < ni; k++) if (I[k].state == RUN && !I[k].told) { run++; who = k; }
    if (run > 1) BADL("two daemons run", "at the same time");
    if (run) {
        for (int k = 0; k < ni; k++) if (k != who && I[k].ran && I[k].told && !I[k].rmpid && I[k].state != END && I[k].exitcode == -77) BADL("a daemon runs while another is still saving", "number %d, number %d", who, k);
        char w[20]; sprintf(w, "%d\n", 1000 + who); vinode *n = vos_file(PIDF);
        if (!n) BADL("no pid file while a daemon runs", "number %d", who); else if (nflt ? !n->len || !memchr(n->data, 10, n->len) || atoi((char *)n->data) != 1000 + who : n->len != strlen(w) || memcmp(n->data, w, n->len)) BADL("the pid file names another process", "'%.*s' while %d runs", (int)n->len, n->data, 1000 + who);
        else if ((n->mode & 0444) != 0444) BADL("the pid file cannot be read by the users", "mode %o", n->mode & 0777);
        if (!vos_file(FIFO)) BADL("no socket while a daemon runs", "number %d", who);
        vinode *s = vos_file(SPOOL "/alice"); if (!s) BADL("a fcrontab is lost", "while %d runs", who);
    }
}
static void body45(void *a)
{
    (void)a; static ebin b; static int have; eng_init(); if (!have) { have = 1; vos_set_time(1706000000); b = eng_compile("alice", "& 5 5 5 5 * echo\n@ 3d true\n"); eng_init(); } strcpy(V.cwd, "/");
    mc_seg_restore(&seg[0]); mc_seg_restore(&seg[1]); vos_reset_fds(); creds(0, 0, 0, 0); V.sigmask = V.sigpending = 0; memset(V.handler, 0, sizeof V.handler); for (int i = 0; i < 32; i++) V.sock[i].used = 0;
    vos_set_time(1706000000); V.umask_ = 022; eng_put_new("alice", &b); vos_put(SPOOL "/alice.orig", "x", 1, 1001, 200, 0640);
    static const char *pk[] = { NULL, "99999\n", "", "123456789012\n", "garbage, no number\n" }; if (pk[pidkind]) vos_put(PIDF, pk[pidkind], strlen(pk[pidkind]), 0, 0, 0644);
    static char *stale[] = { "no pid file", "an old pid file", "an empty pid file", "a longer pid file", "a pid file without a number" };
    switches = stops = nflt = 0; last = -1; fltname[0] = 0; memset(I, 0, sizeof I); pcur = 0; snprintf(desc, sizeof desc, "%d daemons%s, %s", ni, bg ? " (background)" : "", stale[pidkind]);
    for (int k = 0; k <= NI; k++) { px[k].d = calloc(1, dlen() + 1); px[k].b = calloc(1, blen() + 1); }
    vos_fault_hook = lfault; vos_log_hook = llog; vos_stdout_hook = lout; vos_flock_hook = lflock; vos_select_hook = lsel; vos_fork_hook = lfork; vos_point_hook = NULL; in_tab = 0;
    psave(&px[0]); for (int k = 0; k < ni; k++) { I[k].locked = -1; I[k].exitcode = -77; pstart(k, 0, 0, 0, 0, (bg ? 2000 : 1000) + k, start_of); }
    int started = 0, nfin = 0;
    for (int steps = 0; steps < 3000; steps++) {
        if (steps) look();
        if (mc_seen(hash45(), (budget - switches) * 8 + maxstop - stops)) mc_done();
        /* options: k go on / start; k + 10: told to stop; k + 20: killed */
        int op[3 * NI], no = 0; if (last >= 0 && (I[last].state == RDY || (I[last].state == RUN && I[last].told))) op[no++] = last; int cont = no;
        if (!cont || switches < budget) {
            for (int k = 0; k < ni; k++) if (k != last || !cont) { if (I[k].state == RDY || (I[k].state == RUN && I[k].told)) op[no++] = k; else if (I[k].state == NOT && k == started) op[no++] = k; }
            if (stops < maxstop) for (int k = 0; k < ni; k++) { if (I[k].state == RUN && !I[k].told) op[no++] = k + 10; if ((I[k].state == RDY && k == last) || I[k].state == RUN) op[no++] = k + 20; }
        }
        if (!no) break; int c = no > 1 ? mc_choose(no, "who") : 0; if (cont && c) switches++; int o = op[c], k = o % 10;
        mc_note(o >= 20 ? "%d killed\n" : o >= 10 ? "%d told to stop\n" : "%d\n", k); nfin++;
        if (o >= 20) { stops++; I[k].killed = 1; I[k].state = END; memset(px[k + 1].fd, 0, sizeof px[k + 1].fd); last = -1; continue; }
        if (o >= 10) { stops++; I[k].told = 1; last = k; continue; }
        last = k; if (I[k].state == NOT) { I[k].state = RDY; started++; }
        /* the cookies of the killed ones are no more */
        pswitch(k + 1); psave(&px[0]); if (I[k].state == RUN && !I[k].told) last = -1; if (I[k].state == END) last = -1;
    }
    vos_fault_hook = eng_fault; vos_log_hook = NULL; vos_flock_hook = NULL; vos_stdout_hook = eng_stdout; vos_other_fd = NULL; vos_cur_proc = 0; mc_eval(1);
    int running = 0, alone = 1; for (int k = 0; k < ni; k++) {
        if (I[k].state == RUN && !I[k].told) running++;
        if (I[k].state == END && !I[k].killed && !I[k].ran) { if (!I[k].exitcode) BADL("refused with success", "number %d", k); if (!I[k].errs) BADL("refused without saying so", "number %d", k); if (!I[k].busy && !nflt) BADL("refused although there is no other", "number %d", k); }
        if (I[k].state == END && !I[k].killed && I[k].ran && I[k].exitcode) BADL("told to stop, but fails", "number %d: exit code %d", k, I[k].exitcode);
        if (I[k].state == RDY) BADL("never ends nor runs", "number %d", k); (void)alone;
    }
    if (!running && vos_file(PIDF)) { int kl = 0; for (int k = 0; k < ni; k++) if (I[k].killed || (nflt && I[k].state == END)) kl = 1; if (!kl && stops) BADL("pid file left", "although all stopped"); }
    mc_outcome(vos_hash(hash45(), desc, strlen(desc)));
}
int harness_main(void)
{
    for (ni = 1; ni <= 3; ni++) for (bg = 0; bg < 2; bg++) for (pidkind = 0; pidkind < 5; pidkind++) for (maxflt = 0; maxflt < (ni < 3 ? 2 : 1); maxflt++) {
        if (mc_stop()) return 0; if (((ni == 2 && bg && pidkind > 1) || (ni == 3 && (bg || pidkind > 1))) && !mc_thorough) continue;
        maxstop = ni; budget = ni == 1 ? 0 : ni == 2 ? mc_thorough ? 8 : maxflt ? 3 : 6 : mc_thorough ? 4 : 3; mc_explore(body45, NULL); }
    return 0;
}
