/* C13: signals delivered before any system call of the real daemon */
extern int main(int, char **);
#define DAEMON_MAIN main
#include "eng.h"

static const int SG[] = { SIGHUP, SIGCHLD, SIGUSR1, SIGTERM, SIGUSR2, SIGCONT }; static const char *SN[] = { "SIGHUP", "SIGCHLD", "SIGUSR1", "SIGTERM", "SIGUSR2", "SIGCONT" };
static ebin ba, bb, bc;
static int npts, inj_at[3], inj_sig[3], inj_how[3], ninj, step_, opens[3], nshort, script, in_call, fired;
static struct { int hup[3], rm, chld, term, usr2[3], usr1[3]; } ob;      /* what is still to be done */
static char where[300];
static const char *USR[] = { "alice", "bob", "carol" };
static int exists(const char *pre, const char *u) { char p[120]; snprintf(p, sizeof p, SPOOL "/%s%s", pre, u); return vos_file(p) != NULL; }
static void finish_one(void) { for (int i = 0; i < V.nproc; i++) if (V.proc[i].state == 1) { vos_exit_proc(V.proc[i].pid, 0); return; } }
static int zombies(void) { int n = 0; for (int i = 0; i < V.nproc; i++) n += V.proc[i].state == 2; return n; }
static void raise_(int k, int how)
{
    switch (k) {
    case 0: if (how == 0) { eng_put_new("alice", &ba); ob.hup[0] = 1; } else if (how == 1) { eng_put_new("carol", &bc); ob.hup[2] = 1; } else { eng_put_rm("bob"); ob.rm = 1; } break;
    case 1: finish_one(); ob.chld = 1; break;
    case 2: for (int u = 0; u < 3; u++) ob.usr1[u] = exists("", USR[u]) ? opens[u] + 1 : 0; break;
    case 3: ob.term = 1; break;
    case 4: for (int u = 0; u < 3; u++) ob.usr2[u] = exists("", USR[u]); break;
    }
    vos_raise(SG[k]);
}
static void point(const char *call)
{
    if (in_child || !V.handler[SIGHUP]) return;
    int n = npts++;
    for (int i = 0; i < ninj; i++) if (inj_at[i] == n) { size_t l = strlen(where); snprintf(where + l, sizeof where - l, " %s before call %d (%s)", SN[inj_sig[i]], n, call); fired++; raise_(inj_sig[i], inj_how[i]); }
}
static int watch(const char *call, const char *path)
{
    if (path && (!strcmp(call, "open") || !strcmp(call, "fopen"))) { const char *b = strrchr(path, '/'); b = b ? b + 1 : path; for (int u = 0; u < 3; u++) if (!strcmp(b, USR[u])) opens[u]++; }
    return 0;
}
static void logh(int l, const char *m) { (void)l; point("syslog"); for (int u = 0; u < 3; u++) if (!strncmp(m, " File ", 6) && strstr(m, USR[u])) ob.usr2[u] = 0; }
static int sfork(void) { int p = vos_new_pid(1), j = p + 500000; vos_pipe_put(V.last_pipe, &j, sizeof j); return p; }
static int waith(int o) { (void)o; for (int i = 0; i < V.nproc; i++) if (V.proc[i].state == 1) return V.proc[i].pid; return -1; }
static void lost(const char *s, const char *what) { char g[80]; snprintf(g, sizeof g, "%s not acted upon", s); mc_violation(g, "script %d,%s: %s when the daemon goes to sleep", script, where, what); }
static void check_done(void)
{
    for (int u = 0; u < 3; u++) if (ob.hup[u]) { if (exists("new.", USR[u])) lost("SIGHUP", "the new fcrontab is not loaded"); ob.hup[u] = 0; }
    if (ob.rm) { if (exists("rm.", "bob")) lost("SIGHUP", "the removed fcrontab is still there"); ob.rm = 0; }
    if (ob.chld) { if (zombies()) lost("SIGCHLD", "a finished job is not reaped"); ob.chld = 0; }
    if (ob.term) { lost("SIGTERM", "it goes on"); ob.term = 0; }
    for (int u = 0; u < 3; u++) {
        if (ob.usr2[u] && exists("", USR[u])) lost("SIGUSR2", "the schedule of a fcrontab is not printed"); ob.usr2[u] = 0;
        if (ob.usr1[u] && exists("", USR[u]) && opens[u] < ob.usr1[u]) lost("SIGUSR1", "a fcrontab is not read again"); ob.usr1[u] = 0; }
}
/* what happens while the daemon sleeps, in the absence of anything else */
static const char *SCRIPT[] = { "2A.hT", "2cU.c", "2.hh.u", "2ALl.T", "2.Ud.c" };
static int sel(int nfds, fd_set *r, struct timeval *tv)
{
    (void)nfds; FD_ZERO(r); mc_arm(); int64_t us = (int64_t)tv->tv_sec * 1000000 + tv->tv_usec;
    if (tv->tv_sec < 1) { if (++nshort > 40) { mc_violation("daemon does not sleep", "script %d,%s: the daemon sleeps less than a second forty times in turn", script, where); eng_kill(); } V.now_us += us; V.mono_us += us; V.boot_us += us; return 0; }
    nshort = 0; check_done();
    char c = SCRIPT[script][step_]; if (!c) eng_kill(); step_++;
    switch (c) {
    case '2': us = 20000000 < us ? 20000000 : us; break;
    case '.': break;                            /* sleep until it is time */
    case 'A': us = us / 2; break;               /* woken for no reason */
    case 'h': if (step_ & 1) { eng_put_new("carol", &bc); ob.hup[2] = 1; } else { eng_put_new("alice", &ba); ob.hup[0] = 1; } vos_raise(SIGHUP); errno = EINTR; return -1;
    case 'c': raise_(1, 0); errno = EINTR; return -1;
    case 'U': raise_(2, 0); errno = EINTR; return -1;
    case 'u': raise_(2, 0); raise_(0, 0); raise_(1, 0); errno = EINTR; return -1;
    case 'd': raise_(4, 0); errno = EINTR; return -1;
    case 'L': vos_client_connect(0); for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == VF_LISTEN) FD_SET(f, r); V.now_us += 1000000; V.mono_us += 1000000; V.boot_us += 1000000; return 1;
    case 'l': { long m[20] = { 101, -1 }; vos_client_send(0, m, 2 * sizeof(long)); int n = 0; for (int s = 0; s < 32; s++) if (V.sock[s].used && V.sock[s].accepted) { V.sock[s].in_off = V.sock[s].in_len = 0; V.sock[s].nmsg = V.sock[s].cmsg = 0; vos_client_send(s, m, 2 * sizeof(long)); } for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == VF_SOCK) { FD_SET(f, r); n++; } return n; }
    case 'T': ob.term = 1; vos_raise(SIGTERM); errno = EINTR; return -1;
    }
    V.now_us += us; V.mono_us += us; V.boot_us += us; return 0;
}
static int rc_;
static void one(void)
{
    where[0] = 0; npts = step_ = nshort = fired = 0; memset(opens, 0, sizeof opens); memset(&ob, 0, sizeof ob); mc_arm(); mc_eval(1);
    eng_init(); memset(V.proc, 0, sizeof V.proc); V.nproc = 0; vos_fork_hook = sfork; vos_fault_hook = watch; vos_log_hook = logh; vos_wait_hook = waith; vos_select_hook = sel; vos_point_hook = point; vos_set_time(1700000000 - 1700000000 % 60 + 5);
    char p[80]; snprintf(p, 80, SPOOL "/alice"); vos_put(p, ba.data, ba.len, 1001, 0, 0600); snprintf(p, 80, SPOOL "/bob"); vos_put(p, bb.data, bb.len, 1002, 0, 0600);
    eng_put_new("alice", &ba); eng_put_new("bob", &bb); vos_put("/var/run/fcron.reboot", "", 0, 0, 0, 0600);
    static char *av[] = { "fcron", "-f", "-s", "2000", NULL }; rc_ = eng_daemon(av); vos_point_hook = NULL;
    if (ob.term && rc_ != 0) mc_violation("SIGTERM: exit code", "script %d,%s: %d", script, where, rc_);
    if (rc_ != -9 && !ob.term) mc_violation("daemon stopped", "script %d,%s: exit code %d without SIGTERM", script, where, rc_);
    static int k; if (k++ % 400000 == 777) mc_sample("script %d:%s: %d points, every obligation met", script, where, npts);
    mc_outcome(vos_hash(1000003ULL * (script + 1), where, strlen(where)));
}
#define WIN 70
static int base[8];
#define NS ((int)(sizeof SCRIPT / sizeof *SCRIPT))
#define NK 8                                        /* SIGHUP in three ways, and the others */
static void kind(int i, int k) { inj_sig[i] = k < 3 ? 0 : k - 2; inj_how[i] = k < 3 ? k : 0; }
static void item(long it)
{
    script = 0; while (it >= base[script]) it -= base[script++];
    for (int k = 0; k < NK; k++) {
        ninj = 1; inj_at[0] = it; kind(0, k); one(); if (mc_stop()) return;
        int tot = npts > 4000 ? 4000 : npts, w = mc_thorough ? tot : it + WIN;
        for (int j = it; j < w && j < tot; j++) for (int q = 0; q < NK; q++) { if (mc_stop()) return; ninj = 2; inj_at[1] = j; kind(1, q); one(); if (npts < j) break;
            if (mc_thorough && j < it + 5) for (int l = j; l < j + 5; l++) for (int r = 0; r < NK; r++) { if (mc_stop()) return; ninj = 3; inj_at[2] = l; kind(2, r); one(); } }
    }
}
int harness_main(void)
{
    eng_init(); vos_set_time(1700000000 - 1700000000 % 60 + 5); ba = eng_compile("alice", "@first(1) 2 a1\n&first,serial(true) * * * * * a2\n"); bb = eng_compile("bob", "@first(1),serial 1 b1\n%hours * * * * * b2\n"); bc = eng_compile("carol", "@ 3 c1\n");
    long n = 0; ninj = 0; for (script = 0; script < NS; script++) { one(); base[script] = npts; n += npts; }
    mc_count("points", n); mc_items(n, item); return 0;
}
