/* C43: the daemon is told about every change, soon, and not too often: several real fcronsighup
 * (what fcrontab runs when a fcrontab has been installed) at the same time, every order of their
 * system calls, arriving at different moments of a minute. */
#include "eng.h"
#include "config.h"

int S_main(int, char **);
extern char __start_sdata_S[], __stop_sdata_S[], __start_sbss_S[], __stop_sbss_S[];
#define P_DATA __start_sdata_S
#define P_DATAE __stop_sdata_S
#define P_BSS __start_sbss_S
#define P_BSSE __stop_sbss_S
#include "procs.h"
static struct { int state; time_t at, wake, announced; uid_t uid; int forked, locked, shared, nyield, errs, ended, exitcode, gone; uint64_t h; } I[NI];
enum { NOT, RDY, SLP, END };
static int ni, order; static struct { time_t t; int who, pid, ev; } hup[20]; static int nhup, evno; static int pidcontent, alive; static int switches, budget, last; static int rst = -1, rstkind, rstdone; static long T0; static char desc[400];
static int nflt, maxflt, soft_flt; static char fltname[80];
#define BADS(S, ...) do { char m_[900]; snprintf(m_, 900, __VA_ARGS__); mc_violation(S, "%s: %s", desc, m_); } while (0)
/* scheduling points: only once the process which waits exists, what comes before concerns nobody else */
static void hpoint(const char *call)
{
    if (!pcur) return; int k = pcur - 1; I[k].h = vos_hash(I[k].h, call, strlen(call)); I[k].nyield++;
    if (I[k].forked || !strcmp(call, "kill")) pswitch(0);
}
static int ino_of(int fd) { return V.fd[fd].ino; }
static int hflock(int fd, int op)
{
    if (!pcur) return 0; int k = pcur - 1, ino = ino_of(fd), busy; if (op & LOCK_UN) { I[k].locked = -1; return 0; }
    for (;;) { busy = 0;
        for (int j = 0; j < ni; j++) if (j != k && I[j].locked == ino && !(I[j].shared && (op & LOCK_SH))) if (pholds(j, ino)) busy = 1;
        I[k].h = vos_hash(I[k].h, &busy, sizeof busy); if (!busy) break; if (op & (LOCK_NB)) return EWOULDBLOCK;
        I[k].wake = V.now_us / 1000000 + 1; I[k].state = SLP; pswitch(0); }
    I[k].locked = ino; I[k].shared = op & LOCK_SH; return 0;
}
static void hsleep(unsigned s) { int k = pcur - 1; I[k].wake = V.now_us / 1000000 + s; I[k].state = SLP; pswitch(0); }
static pid_t hfork(void) { if (pcur) { I[pcur - 1].forked = 1; return 0; } return 1; }
static int hkill(pid_t p, int s)
{
    int k = pcur - 1; if (!pcur) return 0; if (s != SIGHUP) BADS("wrong signal", "signal %d to %d", s, p); if (p != pidcontent) BADS("wrong process signalled", "process %d instead of %d", p, pidcontent);
    if (V.euid) { if (!nflt) BADS("signal without the right to send it", "euid %d", (int)V.euid); return EPERM; }
    if (nhup < 20) { hup[nhup].t = V.now_us / 1000000; hup[nhup].who = k; hup[nhup].pid = p; hup[nhup++].ev = ++evno; } I[k].h = vos_hash(I[k].h, &evno, 0) * 3 + 1; return 0;
}
static int hfault(const char *c, const char *p)
{
    if (!pcur) return 0; if (nflt >= maxflt) return 0; if (strcmp(c, "open") && strcmp(c, "flock") && strcmp(c, "fork") && strcmp(c, "kill") && strcmp(c, "unlink") && strcmp(c, "close") && strcmp(c, "seteuid")) return 0;
    if (!strcmp(c, "open") && !strstr(p, "fcrontab.sig")) return 0;
    if (mc_choose(2, c)) { nflt++; snprintf(fltname, 80, "%s(%s)", c, p); return !strcmp(c, "flock") || !strcmp(c, "open") ? ENOLCK : EIO; } return 0;
}
static void hlog(int lev, const char *m) { if (pcur && lev <= 3) { I[pcur - 1].errs++; } (void)m; }
static ssize_t hout(int fd, const void *b, size_t n)
{ if (pcur && fd == 2) { char t[300]; snprintf(t, 300, "%.*s", n < 299 ? (int)n : 299, (const char *)b); char *q = strstr(t, "account at "); int h, m, s; if (q && sscanf(q + 11, "%d:%d:%d", &h, &m, &s) == 3) { time_t now = V.now_us / 1000000, d = now - now % 86400 + h * 3600 + m * 60 + s; if (d < now - 43200) d += 86400; I[pcur - 1].announced = d; } else if (strstr(t, "right now")) I[pcur - 1].announced = V.now_us / 1000000; else if (strstr(t, "not running") || strstr(t, "next execution")) I[pcur - 1].gone = 1; else I[pcur - 1].errs++; } return n; }
static void start_of(void)
{
    int k = pcur - 1; optind = 0; static char *av[] = { "fcronsighup", NULL }; static char *av1[NI][2]; av1[k][0] = av[0]; av1[k][1] = NULL;
    if (!setjmp(exit_jb)) { int r = S_main(1, av1[k]); exit_code = r; } fflush(vos_stderr);
    I[k].exitcode = exit_code; I[k].state = END; I[k].ended = 1; vos_reset_fds(); pswitch(0); abort();
}
static uint64_t hash43(void)
{
    uint64_t h = vos_fs_hash(43, 0); h = vos_hash(h, &ni, sizeof ni); time_t now = V.now_us / 1000000; h = vos_hash(h, &now, sizeof now);
    for (int k = 0; k < ni; k++) { h = vos_hash(h, &I[k].state, sizeof I[k].state); h = vos_hash(h, &I[k].h, sizeof I[k].h); h = vos_hash(h, &I[k].locked, sizeof I[k].locked); h = vos_hash(h, &I[k].wake, sizeof(time_t)); int held = 0; for (int f = 0; f < VOS_MAXFD; f++) if (px[k + 1].fd[f].kind == VF_FILE) held = held * 7 + px[k + 1].fd[f].ino + 1; h = vos_hash(h, &held, sizeof held); }
    h = vos_hash(h, hup, nhup * sizeof *hup); h = vos_hash(h, &nflt, sizeof nflt); return vos_hash(h, &last, sizeof last);
}
#if MAX_FCRONTAB_RELOAD_DELAY_SECONDS < 10
static const int MOM[] = { 0, 1, 2, 5, 6, 43, 44, 45, 46, 48, 49, 50, 51, 55, 59, 60, 65 };
#else
static const int MOM[] = { 0, 1, 10, 44, 45, 46, 49, 50, 51, 55, 59, 60, 104, 105, 109, 110, 111 };
#endif
#define NM 17
static int arr[NI], uids[NI]; static int daemon_ev;
static void body43(void *a)
{
    (void)a; eng_init(); strcpy(V.cwd, "/"); static char *zd; if (!zd) { zd = malloc(dlen()); memcpy(zd, __start_sdata_S, dlen()); }
    T0 = 1706000040 - 1706000040 % 60; vos_set_time(T0); pidcontent = 321; alive = 1; vos_put("/var/run/fcron.pid", "321\n", 4, 0, 0, 0644); vos_mkdirp(SPOOL, 200, 200, 0770);
    nhup = evno = switches = nflt = rstdone = 0; last = -1; fltname[0] = 0; memset(I, 0, sizeof I); pcur = 0;
    for (int k = 0; k <= NI; k++) { px[k].d = calloc(1, dlen() + 1); px[k].b = calloc(1, blen() + 1); }
    int n = 0; for (int k = 0; k < ni; k++) { I[k].at = T0 + arr[k]; I[k].uid = uids[k]; I[k].locked = -1; n += sprintf(desc + n, "%s%s at second %d", k ? ", " : "", uids[k] ? uids[k] == 1001 ? "alice" : "bob" : "root", arr[k]); }
    if (rst >= 0) sprintf(desc + n, "; the daemon %s at second %d", rstkind ? "is replaced" : "ends", rst);
    in_tab = 1; vos_fork_hook = hfork; vos_kill_hook = hkill; vos_sleep_hook = hsleep; vos_point_hook = hpoint; vos_fault_hook = hfault; vos_log_hook = hlog; vos_stdout_hook = hout; vos_flock_hook = hflock;
    psave(&px[0]); time_t evat[NI]; int startev[NI];
    for (int k = 0; k < ni; k++) pstart(k, uids[k], uids[k], 0, 200, 1000 + k, start_of);
    (void)evat; int pre = 0;
    for (int steps = 0; steps < 3000; steps++) {
        time_t now = V.now_us / 1000000; int en[NI], ne = 0;
        for (int k = 0; k < ni; k++) { if (I[k].state == NOT && I[k].at <= now) { en[ne++] = k; } else if (I[k].state == SLP && I[k].wake <= now) en[ne++] = k; else if (I[k].state == RDY) en[ne++] = k; }
        if (rst >= 0 && !rstdone && now >= T0 + rst) { rstdone = 1; pidcontent = rstkind ? 654 : 0; if (rstkind) vos_put("/var/run/fcron.pid", "654\n", 4, 0, 0, 0644); else vos_rmfile("/var/run/fcron.pid"); }
        if (!ne) { time_t nx = rst >= 0 && !rstdone ? T0 + rst : 0; for (int k = 0; k < ni; k++) { time_t t = I[k].state == NOT ? I[k].at : I[k].state == SLP ? I[k].wake : 0; if (t && (!nx || t < nx)) nx = t; } if (!nx) break; if (nx > now) vos_advance(nx - now); last = -1; continue; }
        /* time passes only when nobody can go on: a step takes no time */
        if (mc_seen(hash43(), budget - switches)) mc_done();
        int c = 0, cand[NI], nc = 0, run = 0; for (int i = 0; i < ne; i++) if (en[i] == last) { cand[nc++] = last; run = 1; } for (int i = 0; i < ne; i++) if (en[i] != last) cand[nc++] = en[i];
        if (run && switches >= budget) nc = 1;
        c = nc > 1 ? mc_choose(nc, "who") : 0; int k = cand[c]; if (run && c) { switches++; pre++; } last = k;
        if (I[k].state == NOT) startev[k] = ++evno; if (I[k].state != END) I[k].state = RDY;
        mc_note("%02ld:%02ld %d\n", (now - T0) / 60, (now - T0) % 60, k); pswitch(k + 1); psave(&px[0]);
    }
    in_tab = 0; vos_point_hook = NULL; vos_fault_hook = eng_fault; vos_log_hook = NULL; vos_sleep_hook = NULL; vos_flock_hook = NULL; vos_stdout_hook = eng_stdout; vos_other_fd = NULL; vos_cur_proc = 0; mc_eval(1); mc_outcome(vos_hash(vos_hash(hash43(), desc, strlen(desc)), hup, sizeof hup));
    char hs[200]; int hn = 0; hs[0] = 0; for (int i = 0; i < nhup; i++) hn += snprintf(hs + hn, sizeof hs - hn, " %ld(by %d)", (long)(hup[i].t - T0), hup[i].who);
    for (int k = 0; k < ni; k++) {
        if (I[k].state != END) { BADS("never ends", "number %d is still there", k); continue; }
        if (!I[k].announced && !nflt && !I[k].gone) BADS("nothing is announced", "number %d says nothing about when", k);
        int ok = 0; for (int i = 0; i < nhup; i++) if (hup[i].ev > startev[k] && hup[i].t <= (I[k].announced ? I[k].announced : I[k].at + 60)) ok = 1;
        if (rst >= 0 && !rstkind) { for (int i = 0; i < nhup; i++) if (hup[i].t >= T0 + rst) BADS("a process which is not there is told", "signals at%s", hs); if ((I[k].announced ? I[k].announced : I[k].at) >= T0 + rst) ok = 1; }
        if (rst >= 0 && rstkind && I[k].at < T0 + rst) ok = 1;     /* the new daemon reads all when it starts */
        if (!ok && !nflt) BADS("the daemon is not told", "number %d announced %ld; signals at%s%s", k, I[k].announced ? (long)(I[k].announced - T0) : -1, hs, nhup ? "" : " no time");
        int e = 0; for (int j = 0; j < ni; j++) e += I[j].errs; if (!ok && nflt && !e) BADS("the daemon is not told, and no error", "%s fails; number %d; signals at%s", fltname, k, hs);
        int mx = MAX_FCRONTAB_RELOAD_DELAY_SECONDS < 60 ? MAX_FCRONTAB_RELOAD_DELAY_SECONDS : 60; if (I[k].uid && mx && I[k].announced == I[k].at) BADS("not even a second later", "number %d", k);
        if (I[k].announced > I[k].at + mx || (I[k].announced && I[k].announced < I[k].at)) BADS("announced too late", "number %d announces %ld", k, (long)(I[k].announced - T0));
        if (I[k].announced && I[k].uid == 0 && I[k].announced != I[k].at) BADS("root has to wait", "number %d", k);
        if (!nflt && !pre && I[k].errs) BADS("error without a reason", "number %d", k);
    }
    if (!nflt && !pre && MAX_FCRONTAB_RELOAD_DELAY_SECONDS > 0) for (int i = 0; i < nhup; i++) for (int j = i + 1; j < nhup; j++) if (I[hup[i].who].uid && I[hup[j].who].uid && hup[i].t == hup[j].t) BADS("told twice at once", "signals at%s", hs);
    if (!nflt && vos_file(SPOOL "/fcrontab.sig")) BADS("lock file left", "signals at%s", hs);
}
static void do43(int thorough)
{
    for (ni = 2; ni <= 3; ni++) { maxflt = 0; budget = thorough ? (ni == 2 ? 99 : 6) : ni == 2 ? 8 : 3;
        for (int a = 0; a < NM; a++) for (int b = a; b < NM; b++) for (int c = ni == 3 ? b : NM - 1; c < NM; c++) for (int u = 0; u < 4; u++) {
            if (mc_stop()) return; if (ni == 3 && (u > 1 || MOM[c] - MOM[a] > 61 || (!thorough && MOM[b] - MOM[a] > 10))) continue;
            if (!thorough && MOM[b] - MOM[a] > 62) continue;
            arr[0] = MOM[a]; arr[1] = MOM[b]; arr[2] = MOM[c]; uids[0] = 1001; uids[1] = u & 1 ? 1002 : 1001; uids[2] = 1001; if (u & 2) uids[1] = 0; mc_explore(body43, NULL); } }
}
static void more43(int thorough)
{
    /* the daemon ends or is replaced in the meantime */
    for (ni = 1; ni <= 2; ni++) { maxflt = 0; budget = ni == 1 ? 0 : thorough ? 6 : 2; for (int a = 0; a < NM; a++) for (int b = a; b < NM; b++) for (int r = a; r <= NM; r++) for (rstkind = 0; rstkind < 2; rstkind++) for (int u = 0; u < 2; u++) {
        if (mc_stop()) return; if ((ni == 1 && b > a) || MOM[b] - MOM[a] > 61) continue; rst = r < NM ? MOM[r] : MOM[b] + 3; if (rst > MOM[b] + 62) continue; arr[0] = MOM[a]; arr[1] = MOM[b]; uids[0] = u ? 0 : 1001; uids[1] = 1002; mc_explore(body43, NULL); } }
    rst = -1;
    /* a failing call */
    for (ni = 1; ni <= 2; ni++) { maxflt = 1; budget = ni == 1 ? 0 : 3; for (int a = 0; a < NM; a += 3) for (int b = a; b < NM; b++) for (int u = 0; u < 2; u++) { if (mc_stop()) return; if (ni == 1 && b > a) continue; if (MOM[b] - MOM[a] > 10) continue; arr[0] = MOM[a]; arr[1] = MOM[b]; uids[0] = u ? 0 : 1001; uids[1] = 1002; mc_explore(body43, NULL); } }
}
int harness_main(void) { if (strstr(mc_arg, "more")) more43(mc_thorough); else do43(mc_thorough); return 0; }
