/* fcrondyn clients of the daemon: root, the owner of each fcrontab, and somebody without
 * a fcrontab.  In every state the explorer reaches for the first time, each of them asks for
 * everything there is to ask, and what they are told, and what happens, is compared with the
 * model.  Running a job is a move of the explorer. */
static const uid_t dc_uid[] = { 0, 1001, 1002, 1004, 1005 };
static const char *const dc_name[] = { "root", "alice", "bob", "alice2", "root2" };
#define NDC 5
static vuser dyn_users[] = { { "root", 0, 0, "/root", "/bin/sh", "*" }, { "fcron", 200, 200, "/var/spool/fcron", "/bin/false", "*" }, { "alice", 1001, 1001, "/home/alice", "/bin/ash", "pw" },
    { "bob", 1002, 1002, "/home/bob", "/bin/bsh", "pw" }, { "alice2", 1004, 1004, "/home/alice2", "/bin/sh", "pw" }, { "root2", 1005, 1005, "/home/root2", "/bin/sh", "pw" } };
typedef struct { int n; long w[3]; int l; int killfail; } DQ;
static int dc_sock[NDC]; static time_t dc_last[NDC]; static int dq_on, dq_k; static DQ dq[NDC][160]; static int dq_num[NDC]; static uint64_t dq_h; static time_t dq_want;
static struct { int on, c; long cmd; int l; } dcmd;
static long mlid[64];
static struct { int pid, sig, nice, isnice, used; } kev[64]; static int nkev; static int kill_fails;
static const char *hhmm(time_t t);
static int uf_systab(int u) { return !strcmp(sc->uf[u].user, "systab"); }

static int dyn_kill(pid_t pid, int sig)
{ if (nkev < 64) { kev[nkev].pid = pid; kev[nkev].sig = sig; kev[nkev].isnice = 0; kev[nkev++].used = 0; } if (sig > 64) { errno = EINVAL; return -1; } if (kill_fails) { errno = ESRCH; return -1; } return 0; }
static int dyn_prio(int which, int who, int prio)
{ (void)which; if (nkev < 64) { kev[nkev].pid = who; kev[nkev].nice = prio; kev[nkev].isnice = 1; kev[nkev++].used = 0; } if (kill_fails) { errno = ESRCH; return -1; } return 0; }
static int fd_of(int s) { for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == VF_SOCK && V.fd[f].obj == s) return f; return -1; }
static int fd_listen(void) { for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == VF_LISTEN) return f; return -1; }
static int dyn_left;
static void dyn_start(void) { for (int c = 0; c < NDC; c++) dc_sock[c] = -1; dq_on = 0; dcmd.on = 0; nkev = 0; kill_fails = 0; vos_kill_hook = dyn_kill; vos_prio_hook = dyn_prio; }

/* ---- answers */
#define MAXTOK 80
static char tokbuf[16384]; static char *tok[MAXTOK]; static int ntok; static char *col[12]; static int ncol; static char hdr[300];
static char *trim(char *s) { while (*s == ' ') s++; char *e = s + strlen(s); while (e > s && e[-1] == ' ') *--e = 0; return s; }
static const char *qstr(int c, DQ *q) { static char b[200]; snprintf(b, 200, "%s sending %ld %ld %ld at %s", dc_name[c], q->w[0], q->n > 1 ? q->w[1] : 0, q->n > 2 ? q->w[2] : 0, hhmm(mnow)); return b; }
static int take_answer(int c, DQ *q)
{
    vsock *s = &V.sock[dc_sock[c]]; size_t n = s->out_len; ntok = ncol = 0;
    if (s->in_off != s->in_len) BAD("request-not-read", "%s: the request was not read", qstr(c, q));
    s->in_off = s->in_len = 0; s->nmsg = s->cmsg = 0; s->out_len = 0;
    if (!n) { BAD("no-answer", "%s: no answer", qstr(c, q)); return 0; }
    if (n >= sizeof tokbuf) n = sizeof tokbuf - 1; memcpy(tokbuf, s->out, n); tokbuf[n] = 0;
    if (n < 3 || memcmp(tokbuf + n - 3, "\0\0\0", 3)) { BAD("answer-not-ended", "%s: the answer has no end marker: %.*s", qstr(c, q), (int)n, tokbuf); return 0; }
    n -= 3;
    for (size_t i = 0; i + 1 < n; i++) if (!tokbuf[i] && !tokbuf[i + 1]) { BAD("answer-ended-twice", "%s: the end marker is in the middle of the answer (%zu of %zu)", qstr(c, q), i, n); break; }
    for (size_t i = 0; i < n;) { size_t j = i; while (j < n && tokbuf[j] && tokbuf[j] != '\n') j++; if (j > i && ntok < MAXTOK) tok[ntok++] = tokbuf + i; tokbuf[j] = 0; i = j + 1; }
    return 1;
}
static int owner_is(int c, int l) { return !strcmp(dc_name[c], sc->uf[ml[l].user].user); }
static void opt_string(LS *s, char *o) { o[0] = 0; if (is_lavg_(s)) strcpy(o, s->o & O_LSEV ? "L" : "LO"); if (s->o & O_SERIAL) { if (o[0]) strcat(o, ","); strcat(o, s->o & O_SSEV ? "S" : "SO"); } if (s->o & O_EXESEV) { if (o[0]) strcat(o, ","); strcat(o, "ES"); } }
static const char *stamp(time_t t) { static char b[40]; struct tm tm; gmtime_r(&t, &tm); strftime(b, 40, "%Y-%m-%d %H:%M:%S", &tm); return b; }
static int run_pid(int k) { return rq[k].ctrl + 500000; }

static void others_pid(int c, DQ *q, const char *t)
{ for (int i = 0; i < nrq; i++) { char b[20]; snprintf(b, 20, "%d", run_pid(i)); if (c && strstr(t, b) && (rq[i].l < 0 || !owner_is(c, rq[i].l))) BAD("others-job-shown", "%s: '%s'", qstr(c, q), t); } }
/* rows of a list: every expected entry once, nothing else */
static void check_list(int c, DQ *q)
{
    long cmd = q->w[0], a = q->w[1]; int root = c == 0, allowed = 0; const char *user = NULL;
    if (cmd == 105) { for (int i = 0; i < nml; i++) if (ml[i].used && ml[i].sched && mlid[i] == a && (root || owner_is(c, i))) allowed = 1; }
    else if (a == -1) allowed = root;
    else if (a == -100) { allowed = root; user = "systab"; }
    else for (int k = 0; k < vos_nusers; k++) if ((long)vos_users[k].uid == a) { user = vos_users[k].name; allowed = root || !strcmp(user, dc_name[c]); }
    struct { int l; int key; time_t t; int seen; } ex[64]; int n = 0;
#define SEL(L) (cmd == 105 ? mlid[L] == a : (a == -1 || !strcmp(sc->uf[ml[L].user].user, user)))
    if (allowed) {
        if (cmd == 101 || cmd == 105) for (int i = 0; i < nml; i++) if (ml[i].used && ml[i].sched && SEL(i)) { ex[n].l = i; ex[n].key = 0; ex[n].t = ml[i].next; ex[n++].seen = 0; }
        if (cmd == 102) for (int i = 0; i < nlq; i++) if (SEL(lq[i].l)) { ex[n].l = lq[i].l; ex[n].key = 0; ex[n].t = lq[i].until; ex[n++].seen = 0; }
        if (cmd == 103) for (int i = 0; i < nsq; i++) if (SEL(sq[i].l)) { ex[n].l = sq[i].l; ex[n].key = i; ex[n].t = 0; ex[n++].seen = 0; }
        if (cmd == 104) for (int i = 0; i < nrq; i++) if (rq[i].l >= 0 && SEL(rq[i].l)) { ex[n].l = rq[i].l; ex[n].key = run_pid(i); ex[n].t = 0; ex[n++].seen = 0; }
    }
    int nrow = 0, nmsg = 0, gone = 0; time_t last_next = 0; int last_index = -1;
    for (int t = 0; t < ntok; t++) {
        if (!strncmp(tok[t], "ID", 2) && strchr(tok[t], '|')) {
            if (ncol) { BAD("header-twice", "%s: two header lines", qstr(c, q)); continue; }
            snprintf(hdr, sizeof hdr, "%s", tok[t]); char *p = hdr; while (p && ncol < 12) { char *e = strchr(p, '|'); if (e) *e++ = 0; col[ncol++] = trim(p); p = e; } continue; }
        if (!strncmp(tok[t], "Current load average", 20)) { char b[100]; snprintf(b, 100, "%.1f, %.1f, %.1f", V.load[0], V.load[1], V.load[2]); if (cmd != 102 || !strstr(tok[t], b)) BAD("wrong-load", "%s: '%s' instead of %s", qstr(c, q), tok[t], b); continue; }
        if (cmd == 104 && root && strstr(tok[t], "no more in an fcrontab")) { gone++; int ok = 0; for (int i = 0; i < nrq; i++) { char b[20]; snprintf(b, 20, " %d", run_pid(i)); if (rq[i].l < 0 && strstr(tok[t], b)) ok = 1; } if (!ok) BAD("row-unknown", "%s: '%s'", qstr(c, q), tok[t]); continue; }
        if (tok[t][0] < '0' || tok[t][0] > '9') { nmsg++; others_pid(c, q, tok[t]); for (int i = 0; i < nml; i++) if (ml[i].used && !root && !owner_is(c, i) && strstr(tok[t], ml[i].s->cmd)) BAD("others-job-shown", "%s: '%s'", qstr(c, q), tok[t]); continue; }
        /* a row */
        char *f[12]; char row[400]; snprintf(row, sizeof row, "%s", tok[t]); int nf = 0; char *p = row; while (p && nf < ncol) { char *e = nf < ncol - 1 ? strchr(p, '|') : NULL; if (e) *e++ = 0; f[nf++] = trim(p); p = e; }
        if (nf != ncol || !ncol) { BAD("row-malformed", "%s: '%s' does not have the columns of the header", qstr(c, q), tok[t]); continue; }
        nrow++;
        const char *cm = f[nf - 1]; int pid = -1; for (int k = 0; k < ncol; k++) if (!strcmp(col[k], "PID")) pid = atoi(f[k]);
        int idx = -1; for (int k = 0; k < ncol; k++) if (!strcmp(col[k], "INDEX")) idx = atoi(f[k]);
        int m = -1;
        for (int i = 0; i < n; i++) if (!ex[i].seen && !strcmp(ml[ex[i].l].s->cmd, cm) && (pid < 0 || ex[i].key == pid)) { m = i; if (cmd != 102) break; char b[40]; snprintf(b, 40, "%s", ex[i].t ? stamp(ex[i].t) : "no until"); if (strstr(tok[t], b)) break; }
        if (m < 0) {
            int l = -1; for (int i = 0; i < nml; i++) if (ml[i].used && !strcmp(ml[i].s->cmd, cm)) l = i;
            if (l >= 0 && !root && !owner_is(c, l)) BAD("others-job-shown", "%s: told about '%s' of %s", qstr(c, q), cm, sc->uf[ml[l].user].user);
            else BAD("row-unexpected", "%s: '%s' should not be listed (or not again)", qstr(c, q), tok[t]);
            continue; }
        ex[m].seen = 1; ML *M = &ml[ex[m].l]; long id = atol(f[0]);
        if (mlid[ex[m].l] < 0) { mlid[ex[m].l] = id; for (int i = 0; i < nml; i++) if (ml[i].used && i != ex[m].l && mlid[i] == id) BAD("id-not-unique", "%s: %s and %s have the same id %ld", qstr(c, q), ml[i].s->cmd, M->s->cmd, id); }
        else if (mlid[ex[m].l] != id) BAD("id-changed", "%s: the id of %s is %ld instead of %ld", qstr(c, q), M->s->cmd, id, mlid[ex[m].l]);
        for (int k = 1; k < ncol; k++) {
            char w[60]; w[0] = 0;
            if (!strcmp(col[k], "USER")) snprintf(w, 60, "%s", sc->uf[M->user].user);
            else if (!strcmp(col[k], "SCHEDULE")) { if (!M->sched) continue; snprintf(w, 60, "%s", stamp(M->next)); if (cmd == 101) { if (M->next < last_next) BAD("list-order", "%s: %s is listed after a later one", qstr(c, q), cm); last_next = M->next; } }
            else if (!strcmp(col[k], "PID")) snprintf(w, 60, "%d", ex[m].key);
            else if (!strcmp(col[k], "R&Q")) snprintf(w, 60, "%d", M->numexe);
            else if (!strcmp(col[k], "OPTIONS")) { if (!(M->s->o & O_SERIAL)) { int sq_ = 0; for (int i = 0; i < nsq; i++) if (sq[i].l == ex[m].l) sq_ = 1; for (int i = 0; i < nrq; i++) if (rq[i].l == ex[m].l && rq[i].slot == 1) sq_ = 1; if (sq_) continue; } opt_string(M->s, w); }
            else if (!strcmp(col[k], "INDEX")) {
                if (idx <= last_index) BAD("list-order", "%s: index %d is listed after %d", qstr(c, q), idx, last_index); last_index = idx;
                /* entries queued together may be in any order */
                int x = -1; for (int i = 0; i < nsq; i++) if (sq[i].l == ex[m].l && i <= ex[m].key) x = i; (void)x;
                if (idx < 0 || idx >= nsq || (sq[idx].l != ex[m].l && !(sq[idx].it == sq[ex[m].key].it && sq[idx].due == sq[ex[m].key].due))) BAD("wrong-index", "%s: %s has index %d instead of %d", qstr(c, q), cm, idx, ex[m].key);
                continue; }
            else if (!strncmp(col[k], "LAVG", 4)) { char b[100]; int len = snprintf(b, 100, "%.1f,%.1f,%.1f", M->s->l[0], M->s->l[1], M->s->l[2]); if (strncmp(f[k], b, len)) BAD("wrong-field", "%s: %s: '%s' instead of %s", qstr(c, q), cm, f[k], b);
                if (ex[m].t) snprintf(b, 100, "%s %s", stamp(ex[m].t), M->s->o & O_NOSTRICT ? "N" : "Y"); else strcpy(b, "no until");
                if (!strstr(f[k], b)) BAD("wrong-field", "%s: %s: '%s' instead of '%s'", qstr(c, q), cm, f[k], b); continue; }
            else if (!strcmp(col[k], "CMD")) continue;
            else { BAD("header-unknown", "%s: column '%s'", qstr(c, q), col[k]); continue; }
            if (strcmp(f[k], w)) BAD("wrong-field", "%s: %s: %s is '%s' instead of '%s'", qstr(c, q), cm, col[k], f[k], w);
        }
    }
    for (int i = 0; i < n; i++) if (!ex[i].seen) BAD("row-missing", "%s: %s is not listed", qstr(c, q), ml[ex[i].l].s->cmd);
    int wgone = 0; if (cmd == 104 && allowed && root && a == -1) for (int i = 0; i < nrq; i++) if (rq[i].l < 0) wgone++;
    if (cmd == 104 && a == -1 && root && gone != wgone) BAD("row-missing", "%s: %d running jobs which are no more in a fcrontab are listed instead of %d", qstr(c, q), gone, wgone);
    if (!allowed && gone) { int any = 0; for (int i = 0; i < nrq; i++) if (rq[i].l < 0) any++; if (gone > any) BAD("row-unexpected", "%s", qstr(c, q)); }
    if (!nrow && !nmsg && !gone) BAD("no-reason", "%s: an empty list without a word", qstr(c, q));
    if (allowed && n && !ncol) BAD("header-missing", "%s: no header line", qstr(c, q));
    /* columns which make the rows useful */
    if (nrow) { int u = 0, s = 0; for (int k = 0; k < ncol; k++) { if (!strcmp(col[k], "USER")) u = 1; if (!strcmp(col[k], "SCHEDULE")) s = 1; } if (a == -1 && !u) BAD("header-missing", "%s: no USER column", qstr(c, q)); if (cmd != 102 && !s) BAD("header-missing", "%s: no SCHEDULE column", qstr(c, q)); }
}
static void check_message_only(int c, DQ *q)
{
    if (!ntok) BAD("no-reason", "%s: nothing is said", qstr(c, q));
    for (int t = 0; t < ntok; t++) for (int i = 0; i < nml; i++) if (ml[i].used && c && !owner_is(c, i) && strstr(tok[t], ml[i].s->cmd)) BAD("others-job-shown", "%s: '%s'", qstr(c, q), tok[t]);
}
static int said(const char *w) { for (int t = 0; t < ntok; t++) if (strstr(tok[t], w)) return 1; return 0; }
/* kill and renice: exactly the running instances of the named job */
static void check_exeq(int c, DQ *q)
{
    check_message_only(c, q);
    int renice = q->w[0] == 402; long v = q->w[1]; int valid = renice ? v >= -20 && v <= 19 && (c == 0 || v >= 0) : v > 0; int n = 0, bad = q->killfail || (!renice && v > 64);
    for (int i = 0; i < nrq && valid; i++) if (rq[i].l >= 0 && mlid[rq[i].l] == q->w[2] && (c == 0 || owner_is(c, rq[i].l))) {
        int k; for (k = 0; k < nkev; k++) if (!kev[k].used && kev[k].pid == run_pid(i) && kev[k].isnice == renice && (renice ? kev[k].nice : kev[k].sig) == v) break;
        if (k == nkev) BAD("not-signalled", "%s: process %d of %s was not %s", qstr(c, q), run_pid(i), ml[rq[i].l].s->cmd, renice ? "reniced" : "signalled"); else kev[k].used = 1;
        char b[20]; snprintf(b, 20, "%d", run_pid(i)); n++;
        if (!bad && !said(b)) BAD("not-reported", "%s: no word about process %s", qstr(c, q), b);
    }
    int succ = 0; for (int t = 0; t < ntok; t++) if (strstr(tok[t], "success")) succ++;
    if (succ != (bad ? 0 : n)) BAD("wrong-report", "%s: success is reported %d times instead of %d", qstr(c, q), succ, bad ? 0 : n);
}
static void dyn_build(int stage)
{
    for (int c = 0; c < NDC; c++) dq_num[c] = 0;
#define Q(C, N, A, B, D) do { DQ *x = &dq[C][dq_num[C]++]; x->n = N; x->w[0] = A; x->w[1] = B; x->w[2] = D; x->killfail = 0; } while (0)
    if (stage == 1) { for (int c = 0; c < NDC; c++) Q(c, 2, 105, 99999, 0); for (int k = 101; k <= 104; k++) Q(0, 2, k, -1, 0); return; }
    for (int c = 0; c < NDC; c++) {
        for (int k = 101; k <= 104; k++) { for (int o = 0; o < NDC; o++) if (c == 0 || o == c || o == c % 4 + 1 || o == 0 || !strncmp(dc_name[o], dc_name[c], strlen(dc_name[c]))) Q(c, 2, k, (long)dc_uid[o], 0); Q(c, 2, k, -1, 0); Q(c, 2, k, -100, 0); if (k == 101) { Q(c, 2, k, 4242, 0); Q(c, 2, k, -2, 0); } }
        int first = 1;
        for (int l = 0; l < nml; l++) if (ml[l].used && mlid[l] >= 0) {
            Q(c, 2, 105, mlid[l], 0); Q(c, 3, 401, 15, mlid[l]); Q(c, 3, 402, 5, mlid[l]);
            if (c && !owner_is(c, l)) { Q(c, 2, 301, mlid[l], 0); Q(c, 2, 302, mlid[l], 0); }
            if (first && ml[l].numexe > 0 && (c == 0 || owner_is(c, l))) { first = 0; long nv[] = { -21, -20, -1, 0, 19, 21, 1L << 31 }; for (int k = 0; k < 7; k++) Q(c, 3, 402, nv[k], mlid[l]); Q(c, 3, 401, 0, mlid[l]); Q(c, 3, 401, -9, mlid[l]); Q(c, 3, 401, 9, mlid[l]); Q(c, 3, 401, 99, mlid[l]); }
        }
        Q(c, 2, 105, 99999, 0); Q(c, 2, 301, 99999, 0); Q(c, 2, 302, -7, 0); Q(c, 3, 401, 15, 99999); Q(c, 3, 402, 5, -7); Q(c, 3, 401, 1, 0);
    }
}
static void dyn_check_batch(void)
{
    for (int c = 0; c < NDC; c++) if (dq_k < dq_num[c]) { DQ *q = &dq[c][dq_k]; mc_eval(1);
        if (!take_answer(c, q)) continue;
        if (q->w[0] >= 101 && q->w[0] <= 105) check_list(c, q); else if (q->w[0] >= 401) check_exeq(c, q); else check_message_only(c, q); }
    for (int k = 0; k < nkev; k++) if (!kev[k].used) BAD("wrong-process", "at %s process %d was sent %s %d, for none of the requests", hhmm(mnow), kev[k].pid, kev[k].isnice ? "nice value" : "signal", kev[k].isnice ? kev[k].nice : kev[k].sig);
    nkev = 0;
}
/* what the clients do before anything else may happen: 0 nothing more, else the number of ready descriptors */
static int dyn_step(uint64_t h, fd_set *r, time_t want_)
{
    if (dcmd.on) {
        DQ q = { 2, { dcmd.cmd, mlid[dcmd.l], 0 }, dcmd.l, 0 }; dcmd.on = 0;
        if (take_answer(dcmd.c, &q)) { if (!ntok) BAD("no-reason", "%s: nothing is said", qstr(dcmd.c, &q)); for (int t = 0; t < ntok; t++) for (int i = 0; i < nml; i++) if (ml[i].used && dcmd.c && !owner_is(dcmd.c, i) && strstr(tok[t], ml[i].s->cmd)) BAD("others-job-shown", "%s: '%s'", qstr(dcmd.c, &q), tok[t]); }
        if (nkev) BAD("wrong-process", "a run sent a signal");
        nkev = 0;
    }
    for (int c = 0; c < NDC && !dq_on; c++) {
        if (dc_sock[c] >= 0 && fd_of(dc_sock[c]) >= 0) continue;
        if (dc_sock[c] >= 0) { if (mnow - dc_last[c] <= MAX_IDLE_TIME) BAD("client-dropped", "the connection of %s was closed at %s after %ld s", dc_name[c], hhmm(mnow), (long)(mnow - dc_last[c])); V.sock[dc_sock[c]].used = 0; }
        dc_sock[c] = vos_client_connect(dc_uid[c]); dc_last[c] = mnow; int l = fd_listen(); if (l < 0) { BAD("not-listening", "the daemon does not listen"); return 0; } FD_ZERO(r); FD_SET(l, r); return 1; }
    if (!dq_on) { if (mc_seen(mc_hash(mc_hash(h, &rare_left, sizeof rare_left), &dyn_left, sizeof dyn_left), moves_left)) mc_done(); dq_on = 1; dyn_build(1); dq_k = -1; dq_h = h; dq_want = want_; }
    else {
        if (h != dq_h) BAD("listing-changes-state", "answering requests which are not to change anything changed the state at %s", hhmm(mnow));
        dyn_check_batch();
    }
    int max = 0; for (;;) { dq_k++; max = 0; for (int c = 0; c < NDC; c++) if (dq_num[c] > max) max = dq_num[c]; if (dq_k < max) break; if (dq_on == 1) { dq_on = 2; dyn_build(2); dq_k = -1; continue; } dq_on = 0; return 0; }
    int n = 0; FD_ZERO(r); kill_fails = 0;
    for (int c = 0; c < NDC; c++) if (dq_k < dq_num[c]) { DQ *q = &dq[c][dq_k]; int f = fd_of(dc_sock[c]); if (f < 0) { BAD("client-dropped", "the connection of %s was closed at %s", dc_name[c], hhmm(mnow)); continue; } dc_last[c] = mnow; V.sock[dc_sock[c]].out_len = 0; vos_client_send(dc_sock[c], q->w, q->n * sizeof(long)); FD_SET(f, r); n++; }
    if (n > 1 && dq_k % 5 == 2) { kill_fails = 1; for (int c = 0; c < NDC; c++) if (dq_k < dq_num[c]) dq[c][dq_k].killfail = 1; }
    return n;
}
static void dyn_command(int c, long cmd, int l, fd_set *r)
{
    long w[2] = { cmd, mlid[l] }; int f = fd_of(dc_sock[c]); dc_last[c] = mnow; V.sock[dc_sock[c]].out_len = 0; vos_client_send(dc_sock[c], w, sizeof w); if (f >= 0) FD_SET(f, r);
    dcmd.on = 1; dcmd.c = c; dcmd.cmd = cmd; dcmd.l = l;
}
/* the model of run and runnow */
static void m_command(void)
{
    int l = dcmd.l; ML *m = &ml[l]; LS *s = m->s;
    if (!m->used || !m->sched) return;
    if (is_lavg_(s)) m_add_lavg(l); else if (s->o & O_SERIAL) m_add_serial(l, mnow);
    else if (m->numexe <= 0 || (s->o & O_EXESEV)) { m->numexe++; m_start(l, 0, "run by a user"); }
    if (dcmd.cmd == 301) { m->hasrun = 1; if (s->o & O_RUNONCE) m->sched = 0; else m->next = s->kind == '@' ? m->next + s->freq : td_std(s, m->next); }
    m_drain("run by a user, serial slot free");
}
