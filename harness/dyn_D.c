/* fcrondyn's side of the daemon, message by message: what any bytes do (C36), which descriptors are watched (C38),
 * passwords (C42), lines of any length (C37).  The real daemon's main loop runs; the clients are the harness. */
extern int main(int, char **);
#define DAEMON_MAIN main
#include <sys/select.h>
#include "eng.h"
static fd_set sready; static int snready;
static int (*dscript)(void);      /* one step of the harness: 1 = look at the descriptors, 0 = time-out, -1 = stop the daemon */
static int snfds; static fd_set sgiven; static struct timeval stv;
static int yselect(int nfds, fd_set *r, struct timeval *tv)
{
    snfds = nfds; sgiven = *r; stv = *tv; FD_ZERO(&sready); snready = 0; int k = dscript(); if (k < 0) eng_kill();
    FD_ZERO(r); if (k == 2) { errno = EINTR; return -1; } if (!k) return 0; *r = sready; return snready;
}
static void ready(int fd) { if (fd >= 0 && !FD_ISSET(fd, &sready)) { FD_SET(fd, &sready); snready++; } }
static int fd_of(int s) { for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == VF_SOCK && V.fd[f].obj == s) return f; return -1; }
static int fd_kind(int k) { for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == k) return f; return -1; }
static void advance(int s) { V.now_us += s * 1000000LL; V.mono_us += s * 1000000LL; V.boot_us += s * 1000000LL; }
static char shown[400]; static const char *show_bytes(const void *b, int n) { int k = 0; const unsigned char *p = b; for (int i = 0; i < n && i < 24 && k < 380; i += 8) { if (n - i >= 8) { long w; memcpy(&w, p + i, 8); k += snprintf(shown + k, 400 - k, "%ld ", w); } else for (int j = i; j < n; j++) k += snprintf(shown + k, 400 - k, "%02x", p[j]); } snprintf(shown + k, 400 - k, "(%d bytes)", n); return shown; }

/* ================================================================ C36 */
#define NCL 3
static const uid_t kuid[NCL] = { 0, 1001, 1002 }; static const char *const kname[NCL] = { "root", "alice", "bob" };
static int ks[NCL]; static struct { int pid, v, nice; } kev[32]; static int nkev;
static int k_kill(pid_t p, int s) { if (nkev < 32) { kev[nkev].pid = p; kev[nkev].v = s; kev[nkev++].nice = 0; } if (s > 64) { errno = EINVAL; return -1; } return 0; }
static int k_prio(int w, int p, int v) { (void)w; if (nkev < 32) { kev[nkev].pid = p; kev[nkev].v = v; kev[nkev++].nice = 1; } return 0; }
typedef struct { long w[64]; int n; } MSG;       /* n bytes of w */
static const char *const jname[] = { "a0", "a1", "b0" }; static long jid[3]; static const int jowner[] = { 1, 1, 2 };
static int job_of(long id) { for (int j = 0; j < 3; j++) if (jid[j] == id) return j; return -1; }
typedef struct { int start[3], sched[3]; int nkill, kopt; struct { int v, nice, j, opt; } kill[8]; int ans; } EFF;      /* what may happen, summed over the messages */
static int both36;
static void effect(EFF *e, int c, const long *w, int bytes)
{
    int n = bytes / 8; e->ans++; if (n < 1) return; long cmd = w[0];
    int j; if ((cmd == 301 || cmd == 302) && n >= 2 && (j = job_of(w[1])) >= 0 && (c == 0 || jowner[j] == c)) { if (j) e->start[j]++; if (cmd == 301) e->sched[j]++; }
    if ((cmd == 401 || cmd == 402) && n >= 3 && (j = job_of(w[2])) >= 0 && (j == 0 || e->start[j] || both36) && (c == 0 || c == jowner[j])) { int nice = cmd == 402; if (nice ? w[1] >= (c ? 0 : -20) && w[1] <= 20 : w[1] > 0) { e->kill[e->nkill].v = w[1]; e->kill[e->nkill].j = j; e->kopt += e->kill[e->nkill].opt = j && both36; e->kill[e->nkill++].nice = nice; } }
}
static MSG cur[2]; static int cw[2], cv; static const char *const vname[] = { "one after the other", "both at once", "the first disconnects after sending", "answers cannot be sent to the first", "both in one piece", "the first in two pieces" };
static const char *ctx36(void) { static char b[900]; char a[400]; snprintf(a, 400, "%s", show_bytes(cur[0].w, cur[0].n)); snprintf(b, 900, "%s sends %s", kname[cw[0]], a); if (cw[1] >= 0) { int k = strlen(b); snprintf(b + k, 900 - k, ", %s sends %s, %s", kname[cw[1]], show_bytes(cur[1].w, cur[1].n), vname[cv]); } return b; }
#define BAD36(S, ...) do { char m_[700]; snprintf(m_, 700, __VA_ARGS__); mc_violation(S, "%s: %s", ctx36(), m_); } while (0)
static char rows[4][200], rows0[4][200]; static int exe_ok; static int st36, nlist; static long a0pid;
static int cgone[NCL];
static int send_fault_sock = -1; static int sfail;
static int fault36(const char *c, const char *p) { (void)p; if (!in_child && sfail && !strcmp(c, "send")) return EAGAIN; return eng_fault(c, p); }
static void drop_in(int s) { vsock *k = &V.sock[s]; k->in_off = k->in_len = 0; k->nmsg = k->cmsg = 0; k->out_len = 0; }
/* take an answer of root's: lines of text */
static int lines36(int s, char (*ln)[200], int max)
{
    vsock *k = &V.sock[s]; int n = 0; size_t l = k->out_len; if (l < 3 || memcmp(k->out + l - 3, "\0\0\0", 3)) return -1; l -= 3;
    for (size_t i = 0; i < l;) { size_t j = i; while (j < l && k->out[j] && k->out[j] != '\n') j++; if (j > i && n < max) { snprintf(ln[n], 200, "%.*s", (int)(j - i), k->out + i); n++; } i = j + 1; }
    return n;
}
static int parse_rows(int s, const char *what)
{
    char ln[12][200]; int n = lines36(s, ln, 12); if (n < 0) { BAD36("bystander-not-served", "root then asks for %s and gets no complete answer", what); return 0; }
    for (int j = 0; j < 3; j++) rows[j][0] = 0; int extra = 0;
    for (int i = 0; i < n; i++) { if (ln[i][0] < '0' || ln[i][0] > '9') continue; int ok = 0; for (int j = 0; j < 3; j++) { char *q = strrchr(ln[i], '|'); if (q && !strcmp(q + 1, jname[j]) && !rows[j][0]) { snprintf(rows[j], 200, "%s", ln[i]); ok = 1; } } if (!ok) extra = 1; }
    if (extra) BAD36("bystander-wrong-answer", "root then asks for %s and is told %s", what, ln[n - 1]);
    return 1;
}
static EFF want; static int jobs_seen;
static void reap(int all)
{   /* the jobs started end, but for the a0 that runs for ever */
    int any = 0; for (int i = 0; i < neo; i++) if (vos_proc(eo[i].ctrl) && (all || eo[i].job != a0pid)) { vos_exit_proc(eo[i].ctrl, 0); any = 1; }
    neo = 0; if (any) vos_raise(SIGCHLD); (void)jobs_seen;
}
static long (*next36)(void), next_pair(void), item36; static void mk_pairs(void); static int npm;
#define NPM 82
      /* fills cur, cw, cv; -1 at the end */
static void connect36(int c) { ks[c] = vos_client_connect(kuid[c]); ready(fd_kind(VF_LISTEN)); }
static long pid_of(int j) { if (!j) return a0pid; for (int i = 0; i < neo; i++) if (!strcmp(eo[i].cmd, jname[j])) return eo[i].job; return -1; }
static int check_effects(void)
{
    int st[3] = { 0 };
    for (int i = 0; i < neo; i++) { int j; for (j = 0; j < 3; j++) if (!strcmp(eo[i].cmd, jname[j])) break; if (eo[i].type != 'S' || j == 3) { if (eo[i].type == 'S') BAD36("unknown-job-run", "'%s' is run", eo[i].cmd); continue; } st[j]++; }
    for (int j = 0; j < 3; j++) if (st[j] > want.start[j] || (j > 0 && want.start[j] && !st[j])) BAD36(st[j] > want.start[j] ? "job-run" : "job-not-run", "%s is started %d times instead of %d", jname[j], st[j], want.start[j]);
    if (nkev > want.nkill || nkev < want.nkill - want.kopt) BAD36("process-signalled", "%d signals or nice values instead of %d", nkev, want.nkill);
    else for (int i = 0; i < nkev; i++) { int k; for (k = 0; k < want.nkill; k++) if (want.kill[k].v == kev[i].v && want.kill[k].nice == kev[i].nice && kev[i].pid == pid_of(want.kill[k].j)) break; if (k == want.nkill) BAD36("process-signalled", "process %d got %s %d", kev[i].pid, kev[i].nice ? "nice value" : "signal", kev[i].v); else want.kill[k].v = -9999; }
    return 0;
}
static int count_ends(int s) { vsock *k = &V.sock[s]; int n = 0; for (size_t i = 0; i + 2 < k->out_len;) if (!k->out[i] && !k->out[i + 1] && !k->out[i + 2]) { n++; i += 3; } else i++; return n; }
static int pend_ans[NCL], noans[NCL], tries36;
static void check_answers(int c, int n, int sendfail)
{
    vsock *k = &V.sock[ks[c]];
    if (n == 0) { if (k->out_len) BAD36("told-without-asking", "%s is sent %zu bytes", kname[c], k->out_len); return; }
    if (sendfail) return;
    if (!k->out_len) { BAD36("no-answer", "%s gets no answer", kname[c]); return; }
    if (count_ends(ks[c]) != n || memcmp(k->out + k->out_len - 3, "\0\0\0", 3)) BAD36("answer-end", "%s gets %d end markers for %d messages", kname[c], count_ends(ks[c]), n);
}
static void push(int c, const void *b, int n) { vos_client_send(ks[c], b, n); ready(fd_of(ks[c])); }
static int left36(int c) { vsock *k = &V.sock[ks[c]]; return k->in_len - k->in_off; }
/* the chunks one message makes */
static void chunks(int c, const MSG *m) { for (int o = 0; o < m->n; o += 160) { int l = m->n - o < 160 ? m->n - o : 160; effect(&want, c, m->w + o / 8, l); pend_ans[c]++; } }
static int step36(void)
{
    int busy = 0;
    switch (st36) {
    case 0: connect36(0); st36 = 1; return 1;
    case 1: connect36(1); st36 = 2; return 1;
    case 2: connect36(2); st36 = 3; return 1;
    case 3: { long w[2] = { 101, -1 }; push(0, w, 16); } st36 = 31; return 1;
    case 31: if (!parse_rows(ks[0], "all jobs")) return -1; for (int j = 0; j < 3; j++) { jid[j] = atol(rows[j]); if (!rows[j][0]) { BAD36("bystander-wrong-answer", "%s is not listed", jname[j]); return -1; } } drop_in(ks[0]);
        { long w[2] = { 302, jid[0] }; push(1, w, 16); st36 = 4; return 1; }      /* a0 is run, and goes on */
    case 4: a0pid = 0; for (int i = 0; i < neo; i++) if (!strcmp(eo[i].cmd, "a0")) a0pid = eo[i].job; neo = 0; if (!a0pid) { cw[0] = 1; cw[1] = -1; BAD36("job-not-run", "a0 is not started by run: %.*s (%d starts)", (int)V.sock[ks[1]].out_len, V.sock[ks[1]].out ? (char *)V.sock[ks[1]].out : "", neo); return -1; }
        st36 = 5; /* fall through */
    case 5: drop_in(ks[0]); { long w[2] = { 101, -1 }; push(0, w, 16); } st36 = 6; return 1;
    case 6: if (!parse_rows(ks[0], "all jobs")) return -1; memcpy(rows0, rows, sizeof rows); for (int j = 0; j < 3; j++) if (!rows[j][0]) { cw[0] = 0; cw[1] = -1; BAD36("bystander-wrong-answer", "%s is not listed", jname[j]); return -1; }
        if (next36 == next_pair) { mk_pairs(); if (item36 >= npm) return -1; } st36 = 10; /* fall through */
    case 10: /* next case */
        if (mc_stop() || next36() < 0) return -1;
        mc_eval(1); mc_arm(); memset(&want, 0, sizeof want); memset(pend_ans, 0, sizeof pend_ans); nkev = 0; neo = 0; sfail = 0; tries36 = 0; both36 = cw[1] >= 0 && cv == 1; memset(noans, 0, sizeof noans); for (int c = 0; c < NCL; c++) { drop_in(ks[c]); }
        st36 = 11;
        if (cw[1] >= 0 && cv == 1) { push(cw[0], cur[0].w, cur[0].n); chunks(cw[0], &cur[0]); push(cw[1], cur[1].w, cur[1].n); chunks(cw[1], &cur[1]); st36 = 13; return 1; }
        if (cw[1] >= 0 && cv == 4) { MSG m = cur[0]; memcpy((char *)m.w + m.n, cur[1].w, cur[1].n); m.n += cur[1].n; push(cw[0], m.w, m.n); chunks(cw[0], &m); st36 = 13; return 1; }
        if (cw[1] >= 0 && cv == 5) { push(cw[0], cur[0].w, cur[0].n); vos_client_send(ks[cw[0]], cur[1].w, cur[1].n); chunks(cw[0], &cur[0]); chunks(cw[0], &cur[1]); st36 = 13; return 1; }
        push(cw[0], cur[0].w, cur[0].n); chunks(cw[0], &cur[0]); if (cw[1] >= 0 && cv == 2) V.sock[ks[cw[0]]].eof = 1; if (cw[1] >= 0 && cv == 3) sfail = 1;
        if (cw[1] >= 0) st36 = 12; else st36 = 13;
        return 1;
    case 12: /* the first is read; then the second */
        if (left36(cw[0]) && fd_of(ks[cw[0]]) >= 0) { ready(fd_of(ks[cw[0]])); return 1; }
        if (sfail) noans[cw[0]] = 1; sfail = 0;
        push(cw[1], cur[1].w, cur[1].n); chunks(cw[1], &cur[1]); st36 = 13; return 1;
    case 13: for (int c = 0; c < NCL; c++) if (fd_of(ks[c]) >= 0 && (left36(c) || V.sock[ks[c]].eof)) { ready(fd_of(ks[c])); busy = 1; }
        if (busy && tries36++ < 9) return 1;
        if (cw[1] >= 0 && cv == 2 && fd_of(ks[cw[0]]) >= 0) { BAD36("connection-not-closed", "%s has disconnected and the daemon keeps the connection", kname[cw[0]]); return -1; }
        for (int c = 0; c < NCL; c++) { int gone = cw[1] >= 0 && cv == 2 && c == cw[0]; if (fd_of(ks[c]) < 0 && !gone) { BAD36("client-dropped", "the connection of %s is closed", kname[c]); return -1; } if (gone) { if (V.sock[ks[c]].out_len) BAD36("sent-after-close", "bytes"); continue; } if (left36(c)) BAD36("not-read", "what %s sent is not read", kname[c]); if (!noans[c]) check_answers(c, pend_ans[c], 0); }
        check_effects(); reap(0); st36 = V.sigpending ? 14 : 15; if (st36 == 15) goto ask; return 2;
    case 14: st36 = 15; /* fall through */
    case 15: ask:
        if (cw[1] >= 0 && cv == 2) { V.sock[ks[cw[0]]].used = 0; connect36(cw[0]); st36 = 16; cv = -2; return 1; }
        /* fall through */
    case 16: for (int c = 0; c < NCL; c++) drop_in(ks[c]); { long w[2] = { 101, -1 }; push(0, w, 16); } st36 = 17; return 1;
    case 17: if (!parse_rows(ks[0], "all jobs")) return -1;
        for (int j = 0; j < 3; j++) { if (!rows[j][0]) { BAD36("job-lost", "%s is not scheduled any more", jname[j]); return -1; } int ch = strcmp(rows[j], rows0[j]) != 0; if (ch && !want.sched[j]) BAD36("schedule-changed", "'%s' becomes '%s'", rows0[j], rows[j]); if (!ch && want.sched[j]) BAD36("schedule-not-changed", "'%s' is still so", rows0[j]); }
        memcpy(rows0, rows, sizeof rows); drop_in(ks[0]); { long w[2] = { 104, -1 }; push(0, w, 16); } st36 = 18; return 1;
    case 18: if (!parse_rows(ks[0], "the running jobs")) return -1; for (int j = 0; j < 3; j++) if ((rows[j][0] != 0) != (j == 0)) BAD36("running-list", "%s is%s listed as running", jname[j], j ? "" : " not");
        for (int c = 1; c < NCL; c++) if (V.sock[ks[c]].out_len) BAD36("told-without-asking", "%s is sent bytes when root asks", kname[c]);
        for (int f = 0; f < VOS_MAXFD; f++) if ((V.fd[f].kind == VF_SOCK || V.fd[f].kind == VF_LISTEN) && !(V.fd[f].flags & O_NONBLOCK)) { BAD36("may-block", "descriptor %d could block the daemon", f); return -1; }
        /* the years must not run out */
        { int y = 0; for (int j = 0; j < 3; j++) { char *d = strchr(rows0[j], '|'); while (d) { int a; if (sscanf(d, "|%d-", &a) == 1 && a > y) y = a; d = strchr(d + 1, '|'); } } if (y > 8000) return -1; }
        { uint64_t h = vos_hash(7, cur[0].w, cur[0].n); h = vos_hash(h, &cw[0], 8); if (cw[1] >= 0) h = vos_hash(vos_hash(h, cur[1].w, cur[1].n), &cv, 4); mc_state(h); EFF z = want; mc_outcome(vos_hash(13, &z, sizeof z)); }
        st36 = 10; return step36();
    }
    return -1;
}
/* alphabets */
static const long cmds[] = { 101, 102, 103, 104, 105, 301, 302, 401, 402, 0, -1, 201, 100, 106, 300, 303, 400, 403, 1L << 32 | 301, (long)(1UL << 63), 0x7fffffffffffffffL, 1, 2 };
#define NCMD 23
static const int lens[] = { 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 32, 159, 160, 161, 168, 176, 184, 200, 320, 321, 344 };
#define NLEN 21
static const long args1[] = { -1, -100, 0, 1, 2, 3, 1001, 1002, 5, -5, 15, 1234, 99999, 1L << 40 | 1 }; static const long args2[] = { 0, 1, 2, 7, -1 };
#define NA1 14
#define NA2 5
static int mk(MSG *m, long cmd, long a1, long a2, int len, long poison)
{
    if ((cmd == 105 || cmd == 301 || cmd == 302) && a1 >= 0 && a1 <= 2) a1 = jid[a1];
    if ((cmd == 401 || cmd == 402) && a2 >= 0 && a2 <= 2) a2 = jid[a2];
    for (int i = 0; i < 64; i++) m->w[i] = poison; m->w[0] = cmd; m->w[1] = a1; m->w[2] = a2; m->n = len;
    if (len > 160) { m->w[20] = a1; m->w[21] = a2; m->w[22] = 0; }
    return (int)a1 == a1;
}
static long pos36;
static long next_single(void)
{
    for (;;) { long k = pos36++; int li = k % NLEN; k /= NLEN; int a2 = k % NA2; k /= NA2; int a1 = k % NA1; k /= NA1; int c = k % 3; k /= 3; if (k) return -1;
        long cmd = cmds[item36]; if (cmd != 401 && cmd != 402 && lens[li] <= 160 && a2 > 1) continue; if (!mk(&cur[0], cmd, args1[a1], args2[a2], lens[li], 302) && (cmd == 401 || cmd == 402 || cmd < 300)) continue; if ((cmd == 401 || cmd == 402) && args1[a1] > 1L << 31) continue;
        cw[0] = c; cw[1] = -1; cv = 0; return 1; }
}
/* pairs */
static MSG pm[200];
static void mk_pairs(void)
{
    npm = 0; static const struct { long c, a, b; } v[] = { { 302, 1, 0 }, { 302, 2, 0 }, { 301, 1, 0 }, { 301, 2, 0 }, { 401, 9, 0 }, { 402, 4, 0 }, { 402, -4, 0 }, { 101, -1, 0 }, { 104, 1001, 0 }, { 105, 2, 0 }, { 401, 302, 1 }, { 302, 401, 9 }, { 0, 0, 0 } };
    for (int i = 0; i < 13; i++) { static const int ln[] = { 7, 8, 16, 24, 160, 184 }; for (int l = 0; l < 6; l++) { if (!mc_thorough && (l == 5 && i % 3)) continue; mk(&pm[npm], v[i].c, v[i].a, v[i].b, ln[l], i & 1 ? 0 : 2); npm++; } }
    for (int x = 0; x < 4; x++) { static const long f[] = { 0, 1, 2, 302 }; for (int i = 0; i < 64; i++) pm[npm].w[i] = f[x]; pm[npm].n = 160; npm++; }
}
static long next_pair(void)
{
    for (;;) { long k = pos36++; int v = k % 6; k /= 6; int w = k % 9; k /= 9; int j = k; if (j >= npm) return -1;
        cur[0] = pm[item36]; cur[1] = pm[j]; cw[0] = w / 3; cw[1] = w % 3; cv = v; if (cw[0] == 0 && cw[1] == 0 && v < 4) continue; if (!mc_thorough && (cw[0] == 0 || cw[1] == 0) && v > 1) continue;
        if ((v == 1 || v == 2) && cw[0] == cw[1]) continue; if (v >= 4 && cw[0] != cw[1]) continue;
        if (v >= 4 && cur[0].n + cur[1].n > 500) continue; if (v == 4 && cur[0].n % 8) continue;
        return 1; }
}
static void start36(void)
{
    eng_init(); vos_set_time(1706000000); memset(V.proc, 0, sizeof V.proc); V.nproc = 0; vos_kill_hook = k_kill; vos_prio_hook = k_prio; vos_fault_hook = fault36; eng_install("alice", "@ 100d a0\n@ 100d a1\n"); eng_install("bob", "@ 100d b0\n");
}
static void run36(long it, long (*nx)(void))
{
    static char *av[] = { "fcron", "-f", "-y", "-s", "2000", NULL }; item36 = it; pos36 = 0; next36 = nx;
    for (;;) { start36(); st36 = 0; neo = 0; dscript = step36; vos_select_hook = yselect; long p = pos36; cw[0] = 1; cw[1] = -1; cur[0].n = 0; int rc = eng_daemon(av);
        if (rc != -9) { BAD36("daemon-exits", "the daemon exits with %d", rc); }
        if (mc_stop() || pos36 == p || st36 != 18) break; }
}
static void item_single(long it) { run36(it, next_single); }
static void item_pair(long it) { run36(it, next_pair); }
static vuser users36[] = { { "root", 0, 0, "/root", "/bin/sh", "rootpw" }, { "fcron", 200, 200, "/var/spool/fcron", "/bin/false", "*" }, { "alice", 1001, 1001, "/home/alice", "/bin/ash", "alicepw" }, { "bob", 1002, 1002, "/home/bob", "/bin/bsh", "bobpw" }, { "carol", 1003, 1003, "/home/carol", "", "*" } };

static int snready0_;
#define MAX_IDLE_TIME 600
#define MAX_AUTH_TIME 60
#include "dyn38.h"

int harness_main(void)
{
    vos_users = users36; vos_nusers = 5;
    if (!strcmp(mc_arg, "C36")) { mc_items(NCMD, item_single); }
    else if (!strcmp(mc_arg, "C36:pairs")) mc_items(NPM, item_pair);
    else if (!strcmp(mc_arg, "C38")) mc_explore(body38, NULL);
    else if (!strcmp(mc_arg, "C38:many")) mc_items(NMANY, item_many);
    else if (!strcmp(mc_arg, "C38:fault")) mc_items(16, item_fault38);
    else if (!strncmp(mc_arg, "C42", 3)) mc_items(C42_ITEMS, item_42);
    else if (!strcmp(mc_arg, "C37")) mc_items(90, item_37);
    return 0;
}
