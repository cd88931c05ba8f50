/* C44: what fcrondyn sends is what was typed, and what it shows is what it was answered: the real
 * program, given every command of a bounded family, and every way an answer may arrive in pieces. */
#include "eng.h"
#include <limits.h>

int C_main(int, char **);
extern char __start_sdata_C[], __stop_sdata_C[], __start_sbss_C[], __stop_sbss_C[];
static mc_seg sg[2];
static vuser users44[] = { { "root", 0, 0, "/root", "/bin/sh", "*" }, { "fcron", 200, 200, "/var/spool/fcron", "/bin/false", "*" }, { "alice", 1001, 1001, "/home/alice", "/bin/ash", "pw" }, { "alicex", 1002, 77, "/home/alicex", "/bin/ash", "pw" },
    { "joe", 1003, 1003, "/home/joe", "/bin/sh", "pw" }, { "joe.smith", 1004, 1004, "/home/js", "/bin/sh", "pw" }, { "sys-tem_1", 1005, 1005, "/home/s", "/bin/sh", "pw" }, { "UPPER", 2000000000, 1006, "/home/u", "/bin/sh", "pw" } };
/* ---- the connection */
static int cfd, csock, nconn, nsent, hang, interactive, nline, neof; static const char **lines43; static char whatc[300];
static const char *ans; static int anslen, cut[4], ncut, icut, given, eofat;      /* the answer comes in ncut + 1 pieces */
static char sentmsg[600]; static int sentlen, nselect;
static int cconn(int fd) { nconn++; cfd = fd; csock = V.fd[fd].obj; V.fd[fd].kind = VF_SOCK; V.sock[csock].connected = 1; return 0; }
static void deliver(void)
{
    vsock *k = &V.sock[csock]; if (eofat >= 0 && given >= eofat) { k->eof = 1; return; }
    int to = icut < ncut ? cut[icut++] : anslen; if (eofat >= 0 && to > eofat) to = eofat; if (to > anslen) to = anslen; if (to <= given) { if (given >= anslen) return; to = anslen; if (eofat >= 0 && to > eofat) to = eofat; if (to <= given) { k->eof = 1; return; } }
    vos_client_send(csock, ans + given, to - given); k->nmsg = k->cmsg = 0; given = to;
}
static int answers;          /* whether there is an answer at all */
static int csel(int n, fd_set *r, struct timeval *tv)
{
    (void)n; nselect++; if (nselect > 50) { hang = 2; exit_code = 98; longjmp(exit_jb, 1); }
    vsock *k = &V.sock[csock]; if (tv && tv->tv_sec <= 0) { FD_ZERO(r); return 0; }
    if (!answers) { FD_ZERO(r); return 0; }
    if (k->in_off == k->in_len && !k->eof) deliver();
    return k->in_off < k->in_len || k->eof;
}
static void cpoint(const char *call)
{
    if (strcmp(call, "recv") || !in_tab || !nconn) return; vsock *k = &V.sock[csock];
    if (k->in_off == k->in_len && !k->eof) { deliver(); if (k->in_off == k->in_len && !k->eof) { hang = 1; exit_code = 98; longjmp(exit_jb, 1); } }
}
static void (*at_prompt)(int);
static char *crl(const char *p) { (void)p; fflush(vos_stdout); if (at_prompt) at_prompt(nline); const char *l = lines43[nline]; if (!l) { neof++; return NULL; } nline++; given = icut = 0; return strdup(l); }
static int run43(uid_t uid, char **av)
{
    mc_seg_restore(&sg[0]); mc_seg_restore(&sg[1]); vos_reset_fds(); for (int i = 0; i < (int)(sizeof V.sock / sizeof *V.sock); i++) { V.sock[i].used = 0; free(V.sock[i].in); free(V.sock[i].out); V.sock[i].in = V.sock[i].out = NULL; }
    strcpy(V.cwd, "/"); V.umask_ = 022; optind = 0; mc_arm(); creds(uid, 200, uid == 1002 ? 0 : uid, 200); in_tab = 1; tab_outlen = tab_errlen = 0; tab_out[0] = 0; if (tab_err) tab_err[0] = 0;
    nconn = hang = nselect = nline = neof = 0; given = icut = 0; csock = 0; vos_connect_hook = cconn; vos_select_hook = csel; vos_point_hook = cpoint; vos_readline_hook = crl;
    static char **v; static int n; v = av; for (n = 0; v[n]; n++) ;
    if (!setjmp(exit_jb)) exit_code = C_main(n, v);
    fflush(vos_stdout); fflush(vos_stderr); in_tab = 0; creds(0, 0, 0, 0); V.sigmask = V.sigpending = 0; memset(V.handler, 0, sizeof V.handler); vos_point_hook = NULL;
    sentlen = 0; if (nconn) { sentlen = V.sock[csock].out_len; if (sentlen > (int)sizeof sentmsg) sentlen = sizeof sentmsg; if (sentlen) memcpy(sentmsg, V.sock[csock].out, sentlen); }
    return exit_code;
}
static void setup43(void)
{
    static int done; if (done) return; done = 1; vos_users = users44; vos_nusers = 8; eng_init(); mc_seg_save(&sg[0], __start_sdata_C, __stop_sdata_C); mc_seg_save(&sg[1], __start_sbss_C, __stop_sbss_C);
    vos_set_time(1706000000); mc_ctx = whatc;
}
/* ---------------------------------------------------------------- commands */
enum { A_USER, A_ID, A_SIG, A_NICE };
static const struct { const char *n; long code; int na, a[2], opt; } CM[] = {
    { "ls", 101, 1, { A_USER }, 1 }, { "ls_lavgq", 102, 1, { A_USER }, 1 }, { "ls_serialq", 103, 1, { A_USER }, 1 }, { "ls_exeq", 104, 1, { A_USER }, 1 }, { "detail", 105, 1, { A_ID }, 0 },
    { "runnow", 301, 1, { A_ID }, 0 }, { "run", 302, 1, { A_ID }, 0 }, { "kill", 401, 2, { A_SIG, A_ID }, 0 }, { "renice", 402, 2, { A_NICE, A_ID }, 0 } };
#define NCM 9
static const char *W0[] = { "ls", "ls_lavgq", "ls_serialq", "ls_exeq", "detail", "runnow", "run", "kill", "renice", "quit", "q", "exit", "help", "h", "l", "lss", "LS", "ls_", "ls_lavg", "details", "runn", "runnows", "kil", "kills", "renic", "qu", "he", "x", "1", "-x", "ls-x" };
#define NW0 31
static const char *AR[] = { "alice", "alicex", "ali", "joe", "joe.smith", "joe.", "sys-tem_1", "UPPER", "upper", "root", "nobody2", "1001", "systab", "systa", "hup", "int", "quit", "kill", "alrm", "term", "usr1", "usr2", "cont", "stop", "tstp", "TERM", "Usr1", "sigterm", "SIGHUP", "ter", "terms", "term9", "chld", "segv",
    "0", "1", "5", "9", "15", "19", "20", "21", "64", "65", "007", "12345678901", "9223372036854775806", "9223372036854775807", "99999999999999999999", "-1", "-5", "-20", "-21", "-0", "5x", "5.5", "0x10", "x5", "-", "--", "1e3" };
#define NAR ((int)(sizeof AR / sizeof *AR))
static const struct { const char *n; int s; } SG[] = { { "hup", SIGHUP }, { "int", SIGINT }, { "quit", SIGQUIT }, { "kill", SIGKILL }, { "alrm", SIGALRM }, { "term", SIGTERM }, { "usr1", SIGUSR1 }, { "usr2", SIGUSR2 }, { "cont", SIGCONT }, { "stop", SIGSTOP }, { "tstp", SIGTSTP } };
static int number(const char *w, long *v) { const char *p = w; if (*p == '-') p++; if (!*p) return 0; for (const char *q = p; *q; q++) if (*q < '0' || *q > '9') return 0; errno = 0; *v = strtol(w, NULL, 10); if (errno) return 0; return 1; }
/* 1: must be sent with *v, 0: must be refused, 2: may be either */
static int argval(int a, const char *w, uid_t uid, long *v)
{
    if (a == A_USER) { if (!strcmp(w, "systab")) { *v = -100; return 1; } for (int i = 0; i < vos_nusers; i++) if (!strcmp(w, vos_users[i].name)) { *v = vos_users[i].uid; return 1; } return 0; }
    if (a == A_ID) return number(w, v) && *v >= 0 && (*v > 0 || w[0] != '-') && *v < LONG_MAX ? 1 : number(w, v) && *v == 0 ? 2 : 0;
    if (a == A_NICE) { if (!number(w, v)) return 0; if (*v < -20 || *v > 20 || (uid && *v < 0)) return 0; return *v == 20 ? 2 : 1; }
    for (int i = 0; i < 11; i++) if (!strcasecmp(w, SG[i].n)) { *v = SG[i].s; return 1; }
    if (!strcasecmp(w, "chld")) { *v = SIGCHLD; return 2; } if (!strcasecmp(w, "segv")) { *v = SIGSEGV; return 2; } if (!strcasecmp(w, "sigterm")) { *v = SIGTERM; return 2; } if (!strcasecmp(w, "sighup")) { *v = SIGHUP; return 2; }
    if (!number(w, v) || *v <= 0) return 0; return *v > 64 ? 2 : 1;
}
static const char *const SEP[][3] = { { "", " ", "" }, { "", "\t", " " }, { " ", " \t ", "\n" }, { "\t ", "  ", "\t \n" }, { "   ", " ", "  " } };
#define NSEP 5
static void cmd43(uid_t uid, int sep, const char *w0, int na, const char **ar)
{
    char s[300]; int n = sprintf(s, "%s%s", SEP[sep][0], w0); for (int i = 0; i < na; i++) n += sprintf(s + n, "%s%s", SEP[sep][1], ar[i]); sprintf(s + n, "%s", SEP[sep][2]);
    snprintf(whatc, sizeof whatc, "fcrondyn -x '%s' by uid %d", s, uid); mc_ctxlen = strlen(whatc);
    int c; for (c = 0; c < NCM; c++) if (!strcmp(CM[c].n, w0)) break;
    long want[3]; int nw = 0, must = 0;
    if (c < NCM) {
        must = 1; want[nw++] = CM[c].code;
        for (int i = 0; i < CM[c].na; i++) { long v = 0; if (i >= na) { if (!CM[c].opt) must = 0; else v = uid ? (long)uid : -1; } else { int k = argval(CM[c].a[i], ar[i], uid, &v); if (!k) must = 0; else if (k == 2 && must) must = 2; } want[nw++] = v; }
        if (na > CM[c].na && must) must = 2;
    }
    static const char A[] = "some answer\n\0\0\0"; ans = A; anslen = sizeof A; ncut = 0; eofat = -1; answers = 1; interactive = 0; char *av[] = { "fcrondyn", "-x", s, NULL };
    int rc = run43(uid, av); mc_eval(1); mc_outcome(vos_hash(vos_hash(rc, sentmsg, sentlen), &must, sizeof must));
    int info = !strcmp(w0, "help") || !strcmp(w0, "h") || !strcmp(w0, "q") || !strcmp(w0, "quit") || !strcmp(w0, "exit");
    if (hang) { mc_violation("never ends", "%s never ends", whatc); return; }
    if (!must) { if (sentlen || nconn) mc_violation(c < NCM ? "sent although the arguments are wrong" : "sent although there is no such command", "%s sends %ld %ld %ld", whatc, sentlen >= 8 ? ((long *)sentmsg)[0] : 0, sentlen >= 16 ? ((long *)sentmsg)[1] : 0, sentlen >= 24 ? ((long *)sentmsg)[2] : 0);
        else if (!info && rc == 0) mc_violation("refused without saying so", "%s ends with exit code 0", whatc); else if (!info && !tab_errlen) mc_violation("refused without saying so", "%s: nothing is said", whatc); return; }
    if (must == 2 && !sentlen) { if (rc == 0 || !tab_errlen) mc_violation("refused without saying so", "%s: exit code %d", whatc, rc); return; }
    if (!sentlen) { mc_violation("not sent", "%s sends nothing: %.200s", whatc, tab_err ? tab_err : ""); return; }
    int ok = sentlen == nw * (int)sizeof(long); for (int i = 0; i < nw && ok; i++) { long v = ((long *)sentmsg)[i]; if (c < 4 && i == 1 ? (int)v != (int)want[1] : v != want[i]) ok = 0; }
    if (!ok) mc_violation("wrong command sent", "%s sends %d bytes: %ld %ld %ld instead of %ld %ld %ld", whatc, sentlen, sentlen >= 8 ? ((long *)sentmsg)[0] : 0, sentlen >= 16 ? ((long *)sentmsg)[1] : 0, sentlen >= 24 ? ((long *)sentmsg)[2] : 0, want[0], want[1], nw > 2 ? want[2] : 0);
    if (rc) mc_violation("answered but not successful", "%s: exit code %d", whatc, rc);
    if (!strstr(tab_out, "some answer\n")) mc_violation("answer not shown", "%s", whatc);
}
static void item_cmd(long it)
{
    setup43(); int w = it % NW0; uid_t uid = it / NW0 % 3 == 2 ? 1002 : it / NW0 % 3 ? 1001 : 0; const char *a[3];
    for (int sep = 0; sep < NSEP; sep++) {
        cmd43(uid, sep, W0[w], 0, a);
        for (int i = 0; i < NAR; i++) { if (mc_stop()) return; a[0] = AR[i]; cmd43(uid, sep, W0[w], 1, a);
            for (int j = 0; j < NAR; j++) { a[1] = AR[j]; cmd43(uid, sep, W0[w], 2, a); if (mc_thorough || j % 7 == 0) { static const char *x[] = { "5", "alice", "zz", "-1" }; for (int k = 0; k < 4; k++) { a[2] = x[k]; cmd43(uid, sep, W0[w], 3, a); } } } }
    }
}
/* ---------------------------------------------------------------- answers */
static char stream[20000], want43[20000]; static int slen, wlen, strs[100], nstr;
static void s_begin(void) { slen = wlen = nstr = 0; want43[0] = 0; }
static void s_str(const char *t, int n) { strs[nstr++] = slen; memcpy(stream + slen, t, n); slen += n; stream[slen++] = 0; memcpy(want43 + wlen, t, n); wlen += n; if (n && t[n - 1] != '\n') want43[wlen++] = '\n'; want43[wlen] = 0; }
static void s_end(void) { memset(stream + slen, 0, 3); slen += 3; }
/* answer number k; 0 when there is none */
static int build43(int k, int len)
{
    char b[1500]; s_begin();
    switch (k) {
    case 0: s_str("Invalid arguments.\n", 19); break;
    case 1: s_str("no end of line", 14); break;
    case 2: s_str("ID|USER|CMD\n", 12); s_str("1|al|x\n", 7); s_str("22|bo|y z\n", 10); break;
    case 3: break;
    case 4: s_str("ID\n", 3); s_str("a", 1); s_str("\n", 1); s_str("b\n", 2); break;
    case 5: case 6: { int rows = 0; s_str("ID    |USER|SCHEDULE|CMD\n", 25); while (slen + 3 < len - 1 && rows < 60) { int n = len - slen - 4; if (n > 57 + rows % 3) n = 57 + rows % 3; if (n < 1) break; for (int i = 0; i < n; i++) b[i] = 'a' + (i + rows) % 26; if (k == 5) b[n - 1] = '\n'; s_str(b, n); rows++; } break; }
    case 7: memset(b, 'r', sizeof b); s_str(b, len < 1400 ? len : 1400); break;
    }
    s_end(); return 1;
}
static char got43[6][20000]; static int gotn; static void prompt43(int n) { (void)n; if (gotn < 6) { snprintf(got43[gotn], sizeof got43[0], "%s", tab_out); gotn++; } tab_outlen = 0; tab_out[0] = 0; }
static void shown(const char *got, const char *what, int rc)
{
    if (hang) { mc_violation("never ends", "%s: fcrondyn goes on waiting for the end of an answer it has got", whatc); return; }
    if (strcmp(got, want43)) { int i = 0; while (got[i] && got[i] == want43[i]) i++; mc_violation("answer not shown as it is", "%s%s: differs after %d characters: '%.60s' instead of '%.60s'", whatc, what, i, got + i, want43 + i); }
    if (rc) mc_violation("answered but not successful", "%s: exit code %d", whatc, rc);
}
static void show43(int k, int len, int inter)
{
    ans = stream; anslen = slen; eofat = -1; answers = 1; interactive = inter;
    int n = snprintf(whatc, sizeof whatc, "%s, answer %d of %d bytes, received in %d pieces, up to", inter ? "interactive" : "-x ls", k, slen, ncut + 1); for (int i = 0; i < ncut; i++) n += snprintf(whatc + n, sizeof whatc - n, " %d", cut[i]); mc_ctxlen = strlen(whatc); (void)len;
    mc_eval(1); mc_outcome(vos_hash(vos_hash(k, cut, ncut * sizeof *cut), &slen, sizeof slen));
    if (!inter) { char *av[] = { "fcrondyn", "-x", "ls", NULL }; int rc = run43(1001, av); shown(tab_out, "", rc); return; }
    static const char *l1[] = { "ls", "detail 5", NULL }, *l2[] = { "ls", "zz", "kill 5", "", "detail 5", "quit", "ls" }; int last = inter == 2 ? 5 : 2; lines43 = inter == 2 ? l2 : l1; gotn = 0; at_prompt = prompt43; char *av[] = { "fcrondyn", NULL, NULL }; if (inter == 2) av[1] = "-i"; int rc = run43(1001, av); at_prompt = NULL; (void)rc;
    if (hang) { mc_violation("never ends", "%s: fcrondyn goes on waiting for the end of an answer it has got", whatc); return; }
    if (gotn < last + 1) { mc_violation("interactive session ends too early", "%s: %d prompts", whatc, gotn); return; }
    shown(got43[1], " (first command)", 0); shown(got43[last], " (second command)", 0); if (gotn > last + 1) mc_violation("interactive session goes on after quit", "%s", whatc);
    if (sentlen != 32 || ((long *)sentmsg)[0] != 101 || ((long *)sentmsg)[2] != 105 || ((long *)sentmsg)[3] != 5) mc_violation("wrong command sent", "%s: %d bytes", whatc, sentlen);
}
#define NLEN 60
static void item_show(long it)
{
    setup43(); int inter = it % 3; it /= 3;
    if (it < 5) {        /* short answers: every way to cut them into up to 4 pieces */
        build43(it, 0); for (int a = 0; a < slen; a++) for (int b = a; b < slen; b++) for (int c = b; c < slen; c++) { if (mc_stop()) return; ncut = 0; if (a) cut[ncut++] = a; if (b > a) cut[ncut++] = b; if (c > b) cut[ncut++] = c; if (!a && b != a) continue; show43(it, 0, inter); }
        return; }
    it -= 5; int k = 5 + it % 3; it /= 3; int base[] = { 990, 2013, 3036, 4059 }; int len = base[it / NLEN % 4] + it % NLEN;
    if (k == 7) { len = 990 + it % NLEN; if (it / NLEN % 4) return; }
    build43(k, len); ncut = 0; show43(k, len, inter); if (slen > 4000 && !mc_thorough) return;
    for (int a = 1; a < slen; a++) { if (mc_stop()) return; if (!mc_thorough && inter && a < slen - 30 && a > 30) continue; ncut = 1; cut[0] = a; show43(k, len, inter); for (int b = 1; b <= 4 && a + b < slen; b++) if (a > slen - 12) { ncut = 2; cut[1] = a + b; show43(k, len, inter); } }
}
/* ---------------------------------------------------------------- connections that break, and failing calls */
static int fn43, fk43, fe43, fhit43; static const int er43[] = { EIO, EINTR, ECONNRESET, ENOBUFS }; static char fcall[40];
static int fault43(const char *c, const char *p) { (void)p; if (!in_tab) return 0; if (strcmp(c, "recv") && strcmp(c, "send") && strcmp(c, "connect") && strcmp(c, "socket")) return 0; if (fn43++ != fk43) return 0; fhit43 = 1; if (!strcmp(c, "send")) answers = 0; snprintf(fcall, 40, "%s", c); return er43[fe43]; }
static void item_brk(long it)
{
    setup43(); int k = it % 5, inter = it / 5 % 2; build43(k, 0); static const char *ln[] = { "ls", NULL };
    char *av[] = { "fcrondyn", inter ? NULL : "-x", "ls", NULL };
    for (int e = 0; e < slen - 3 + 1; e++) for (int a = 0; a <= e; a++) {     /* closed after e bytes */
        ans = stream; anslen = slen; eofat = e; answers = 1; ncut = 0; if (a) cut[ncut++] = a; lines43 = ln; gotn = 0; at_prompt = NULL; interactive = inter;
        snprintf(whatc, sizeof whatc, "%s, answer %d of %d bytes, connection closed after %d", inter ? "interactive" : "-x ls", k, slen, e); mc_ctxlen = strlen(whatc);
        int rc = run43(1001, av); mc_eval(1); mc_outcome(vos_hash(vos_hash(it, &e, 4), &a, 4));
        if (hang) mc_violation("never ends", "%s", whatc); else if (!inter && rc == 0) mc_violation("a cut answer passes for a whole one", "%s: exit code 0", whatc); else if (!tab_errlen) mc_violation("a cut answer passes for a whole one", "%s: nothing is said", whatc);
    }
    for (fe43 = 0; fe43 < 4; fe43++) for (fk43 = 0; fk43 < 40; fk43++) {
        ans = stream; anslen = slen; eofat = -1; answers = 1; ncut = 1; cut[0] = slen > 5 ? 5 : 1; lines43 = ln; interactive = inter; fn43 = fhit43 = 0; fcall[0] = 0; at_prompt = prompt43; vos_fault_hook = fault43; gotn = 0;
        snprintf(whatc, sizeof whatc, "%s, answer %d, call %d fails with %s", inter ? "interactive" : "-x ls", k, fk43, strerror(er43[fe43])); mc_ctxlen = strlen(whatc);
        int rc = run43(1001, av); vos_fault_hook = eng_fault; mc_eval(1); mc_outcome(vos_hash(vos_hash(it, &fe43, 4), &fk43, 4)); if (!fhit43) break;
        at_prompt = NULL; int whole = !strcmp(inter ? gotn > 1 ? got43[1] : "(none)" : tab_out, want43);
        if (hang) mc_violation("never ends", "%s (%s)", whatc, fcall);
        else if (!strcmp(fcall, "recv") && er43[fe43] == EINTR) { if (!whole || (!inter && rc)) mc_violation("an interrupted recv() is a failure", "%s: exit code %d, shows '%.100s'", whatc, rc, tab_out); }
        else if (!inter && rc == 0 && !whole) mc_violation("a cut answer passes for a whole one", "%s (%s): exit code 0", whatc, fcall);
        else if (!whole && !tab_errlen) mc_violation("a cut answer passes for a whole one", "%s (%s): nothing is said", whatc, fcall);
    }
    /* no answer at all */
    answers = 0; ncut = 0; eofat = -1; lines43 = ln; snprintf(whatc, sizeof whatc, "no answer"); mc_ctxlen = 9; int rc = run43(1001, av); mc_eval(1);
    if (hang) mc_violation("never ends", "no answer"); else if ((!inter && rc == 0) || !tab_errlen) mc_violation("a cut answer passes for a whole one", "no answer: exit code %d", rc);
}
int harness_main(void)
{
    if (!strcmp(mc_arg, "C44")) mc_items(NW0 * 3, item_cmd);
    else if (!strcmp(mc_arg, "C44:show")) mc_items(3 * (5 + 3 * 4 * NLEN), item_show);
    else if (!strcmp(mc_arg, "C44:break")) mc_items(10, item_brk);
    return 0;
}
