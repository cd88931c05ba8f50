/* C27: fcrontabs through the real fcrontab and the real daemon, run for a simulated period:
 * the times, commands and users of the jobs that start are those the text means. */
#include "tab.h"
#include "cal.h"

typedef struct { char cmd[40]; char type; int kw; spec s; int runfreq; long freq, first; uid_t uid; int nice; long off; /* local time - UTC */
                 char at;       /* 0: by time, 'b': at boot only, 'r': at resume only */
                 int once, rab, rar; } job;
typedef struct { char head[200], *line[4]; int n; job j[4]; int tz; uid_t me; const char *user; int nenv; const char *env[4]; } fc;
#define K 5
typedef struct { time_t t; char cmd[40]; uid_t uid; char info[600]; } st;
static st seen[200]; static int nseen; static time_t t_end; static int t_phase; static ebin bin_; static fc *cur; static int want_count[4];

/* the child side: what the job gets */
static void ch_exec(const char *path, char **argv, char **envp)
{
    if (!in_child || strstr(path, "sendmail")) { eng_exec(path, argv, envp); return; }
    char b[600]; int n = snprintf(b, sizeof b, "nice=%d", V.nice_); for (char **e = envp; e && *e && n < 560; e++) n += snprintf(b + n, sizeof b - n, "|%s", *e);
    eng_report('S', argv[0] && argv[1] && argv[2] ? argv[2] : "(no command)", b);
}
static void collect_starts(void)
{
    for (int i = 0; i < neo; i++) {
        if (eo[i].type == 'S' && nseen < 200) { st *s = &seen[nseen++]; s->t = V.now_us / 1000000; snprintf(s->cmd, sizeof s->cmd, "%s", eo[i].cmd); s->uid = eo[i].uid; snprintf(s->info, sizeof s->info, "%s", eo[i].mail); }
        if (vos_proc(eo[i].ctrl)) vos_exit_proc(eo[i].ctrl, 0);
    }
}
static int enough(void) { for (int i = 0; i < cur->n; i++) { int c = 0; for (int k = 0; k < nseen; k++) c += !strcmp(seen[k].cmd, cur->j[i].cmd); if (c < K) return 0; } return 1; }
static time_t t_inst;
static int step(int nfds, fd_set *r, struct timeval *tv)
{
    (void)nfds; FD_ZERO(r); mc_arm();
    int had = neo; collect_starts(); neo = 0;
    if (t_phase == 0) { t_phase = 1; vos_advance(37); return 0; }                             /* first_sleep interrupted by nothing */
    if (t_phase == 1) { t_phase = 2; t_inst = V.now_us / 1000000; eng_put_new(cur->user, &bin_); vos_raise(SIGHUP); errno = EINTR; return -1; }
    if (had) { vos_raise(SIGCHLD); errno = EINTR; return -1; }
    if (enough() || V.now_us / 1000000 >= t_end) { vos_raise(SIGTERM); errno = EINTR; return -1; }
    int64_t us = (int64_t)tv->tv_sec * 1000000 + tv->tv_usec; V.now_us += us; V.mono_us += us; V.boot_us += us; return 0;
}
static char tmp_[400];
static void make_text(fc *f, char *t) { int n = sprintf(t, "%s", f->head); for (int i = 0; i < f->n; i++) n += sprintf(t + n, "%s\n", f->line[i]); }
/* the times job j should start, after `from` */
static int want_times(fc *f, job *j, time_t from, time_t to, time_t *o)
{
    int n = 0; long off = j->off - f->tz * 3600L;
    if (j->at) return 0;
    if (j->type == '@') { time_t t = from + (j->first >= 0 ? j->first : j->freq); for (; t <= to && n < K; t += j->freq) { o[n++] = t; if (j->once) break; } return n; }
    time_t u = from + off, nx; int cnt = 0;
    if (j->type == '&') { while ((nx = first_match(&j->s, (u / 60 + 1) * 60, 60)) >= 0 && nx - off <= to && n < K) { u = nx; if (++cnt >= (j->runfreq ? j->runfreq : 1)) { cnt = 0; o[n++] = nx - off; if (j->once) break; } } return n; }
    nx = first_match(&j->s, (u / 60 + 1) * 60, 60);
    while (nx >= 0 && nx - off <= to && n < K) { o[n++] = nx - off; if (j->once) break; nx = want_period(j->kw, &j->s, nx); }
    return n;
}
static void run_fc(fc *f, time_t t0, long days)
{
    char t[1000]; make_text(f, t); cur = f; nseen = 0; t_phase = 0; t_end = t0 + days * 86400;
    mc_ctx = t; mc_ctxlen = strlen(t); mc_arm();
    eng_init(); vos_exec_hook = ch_exec; vos_set_time(t0); vos_put("/var/run/fcron.reboot", "", 0, 0, 0, 0600);
    vos_put("/tmp/tab", t, strlen(t), f->me, f->me, 0644); int rc = f->me ? eng_fcrontab(f->me, f->me, "/tmp/tab", NULL) : eng_fcrontab(0, 0, "-u", f->user, "/tmp/tab", NULL); vos_rmfile("/tmp/tab");
    char p[80]; snprintf(p, sizeof p, SPOOL "/new.%s", f->user); vinode *n = vos_file(p);
    mc_eval(1); mc_outcome(vos_hash(t0, t, strlen(t)));
    if (!n) { mc_violation("valid fcrontab not installed", "%s: exit code %d, %.300s", t, rc, tab_err); return; }
    bin_.data = realloc(bin_.data, n->len + 1); memcpy(bin_.data, n->data, n->len); bin_.len = n->len; bin_.uid = n->uid; bin_.gid = n->gid; bin_.mode = n->mode & 07777; vos_rmfile(p);
    neo = 0; vos_select_hook = step; static char *av[] = { "fcron", "-f", "-y", "-s", "2000", NULL }; eng_daemon(av);
    time_t done = V.now_us / 1000000;
    int extra = 0;
    for (int i = 0; i < f->n; i++) {
        job *j = &f->j[i]; time_t w[K + 1]; int nw = want_times(f, j, t_inst, t_end, w), k = 0; char b1[40], b2[40];
        for (int q = 0; q < nseen; q++) if (!strcmp(seen[q].cmd, j->cmd)) {
            extra++; if (k >= K || seen[q].t > t_end) continue;
            if (k >= nw) { if (nw < K) mc_violation("job started although nothing in the text asks for it", "%s installed at %s: %s starts at %s", t, ts(t_inst, b1), j->cmd, ts(seen[q].t, b2)); k++; continue; }
            if (seen[q].t < w[k] || seen[q].t > w[k] + 1) { mc_violation("job started at another time", "%s installed at %s: start %d of %s is at %s instead of %s", t, ts(t_inst, b1), k + 1, j->cmd, ts(seen[q].t, b2), ts(w[k], tmp_)); k = K; break; }
            if (seen[q].uid != j->uid) mc_violation("job started as another user", "%s: %s starts as uid %d instead of %d", t, j->cmd, seen[q].uid, j->uid);
            char nb[20]; snprintf(nb, sizeof nb, "nice=%d|", j->nice); if (strncmp(seen[q].info, nb, strlen(nb))) mc_violation("job started with another priority", "%s: %s: %.200s", t, j->cmd, seen[q].info);
            for (int e = 0; e < f->nenv; e++) { snprintf(nb, sizeof nb, "|%s", f->env[e]); char *x = strstr(seen[q].info, nb); if (!x || (x[strlen(nb)] && x[strlen(nb)] != '|')) mc_violation("job started without a variable", "%s: %s lacks %s: %.300s", t, j->cmd, f->env[e], seen[q].info); }
            k++;
        }
        if (k < nw && w[k] < done - 1) mc_violation("job not started", "%s installed at %s: start %d of %s, at %s, is missing", t, ts(t_inst, b1), k + 1, j->cmd, ts(w[k], b2));
    }
    if (extra != nseen) mc_violation("a command not in the text", "%s: %d starts", t, nseen - extra);
}

/* ------------------------------------------------------------------ boot, restart, resume: @reboot, @resume and the options they stand for */
static int bstep; static const char *bscript; static char bobs[64][40]; static int nbobs; static char bexp[64][40];
static int bstep_select(int nfds, fd_set *r, struct timeval *tv)
{
    (void)nfds; FD_ZERO(r); mc_arm();
    for (int i = 0; i < neo; i++) { if (eo[i].type == 'S') snprintf(bobs[nbobs++ & 63], 40, "%d:%s", bstep, eo[i].cmd); if (vos_proc(eo[i].ctrl)) vos_exit_proc(eo[i].ctrl, 0); }
    if (neo) { neo = 0; vos_raise(SIGCHLD); errno = EINTR; return -1; }
    char c = bscript[bstep]; static int sub;
    if (c == 'w') { int64_t us = (int64_t)tv->tv_sec * 1000000 + tv->tv_usec; V.now_us += us; V.mono_us += us; V.boot_us += us; if (++sub >= 4) { sub = 0; bstep++; } return 0; }   /* four waits: past first_sleep */
    bstep++;
    switch (c) {
    case 'i': eng_put_new(cur->user, &bin_); vos_raise(SIGHUP); errno = EINTR; return -1;
    case 'Z': /* suspended for an hour, and told of it */
        V.now_us += 3600000000LL; V.boot_us += 3600000000LL; V.timer_fd_fired = 1; int rc = 0; for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == VF_TIMER) { FD_SET(f, r); rc = 1; } return rc;
    default: vos_raise(SIGTERM); errno = EINTR; return -1;      /* 's' stop then start, 'b' stop, reboot, start, '.' end */
    }
}
static void run_boot(fc *f, const char *script, const char *expect)
{
    char t[1000]; make_text(f, t); cur = f; bstep = 0; bscript = script; nbobs = 0; mc_ctx = t; mc_ctxlen = strlen(t); mc_arm();
    eng_init(); vos_set_time(1706000000); vos_put("/tmp/tab", t, strlen(t), f->me, f->me, 0644); int rc = f->me ? eng_fcrontab(f->me, f->me, "/tmp/tab", NULL) : eng_fcrontab(0, 0, "-u", f->user, "/tmp/tab", NULL); vos_rmfile("/tmp/tab");
    char p[80]; snprintf(p, sizeof p, SPOOL "/new.%s", f->user); vinode *n = vos_file(p); mc_eval(1); mc_outcome(vos_hash(vos_hash(5, script, strlen(script)), t, strlen(t)));
    if (!n) { mc_violation("valid fcrontab not installed", "%s: exit code %d, %.300s", t, rc, tab_err); return; }
    bin_.data = realloc(bin_.data, n->len + 1); memcpy(bin_.data, n->data, n->len); bin_.len = n->len; bin_.uid = n->uid; bin_.gid = n->gid; bin_.mode = n->mode & 07777; vos_rmfile(p);
    for (;;) {
        neo = 0; vos_select_hook = bstep_select; static char *av[] = { "fcron", "-f", "-y", "-s", "2000", NULL }; eng_daemon(av);
        char c = bstep > 0 ? script[bstep - 1] : '.'; for (int i = 0; i < V.nproc; i++) V.proc[i].state = 3;
        if (c == '.' || bstep > (int)strlen(script)) break;
        V.now_us += 100000000; V.mono_us = V.boot_us = V.now_us; if (c == 'b') vos_rmfile("/var/run/fcron.reboot");
    }
    /* expect: a string with one character per step of the script: which of the jobs J0.. start during it ('-': none, '0': J0, '1': J1, '*': both) */
    for (int s = 0; script[s]; s++) for (int j = 0; j < f->n; j++) {
        int c = 0; for (int k = 0; k < nbobs; k++) { char b[60]; snprintf(b, sizeof b, "%d:%s", s, f->j[j].cmd); c += !strcmp(bobs[k], b); }
        int w = expect[s] == '*' || expect[s] == '0' + j;
        if (c != w) { char all[600] = ""; for (int k = 0; k < nbobs; k++) { strcat(all, bobs[k]); strcat(all, " "); } mc_violation(c ? "boot or resume job started when it should not" : "boot or resume job not started", "%s, script %s: %s starts %d times in step %d instead of %d (all: %s)", t, script, f->j[j].cmd, c, s, w, all); return; }
    }
}

/* ------------------------------------------------------------------ the family */
static fc base_;
static uint64_t setof(int lo, int hi, int a, int b, int c) { uint64_t s = 0; int n = hi - lo + 1, span = ((b - a) % n + n) % n; for (int k = 0; k <= span; k += c) s |= 1ULL << (lo + (a - lo + k) % n); return s; }
typedef struct { const char *t; uint64_t v; } fld;
static fld fmin_[6], fhr[6], fday[6], fmon[5], fdow[6];
static void mkfields(void)
{
    fmin_[0] = (fld) { "5", 1 << 5 }; fmin_[1] = (fld) { "0,30", 1 | 1 << 30 }; fmin_[2] = (fld) { "*/20", setof(0, 59, 0, 59, 20) }; fmin_[3] = (fld) { "50-10/10", setof(0, 59, 50, 10, 10) }; fmin_[4] = (fld) { "*", ALLMIN }; fmin_[5] = (fld) { "57-59~58", 1ULL << 57 | 1ULL << 59 };
    fhr[0] = (fld) { "*", ALLHR }; fhr[1] = (fld) { "4", 1 << 4 }; fhr[2] = (fld) { "22-2", setof(0, 23, 22, 2, 1) }; fhr[3] = (fld) { "8-18/5", setof(0, 23, 8, 18, 5) }; fhr[4] = (fld) { "0,23", 1 | 1 << 23 };
    fday[0] = (fld) { "*", ALLDAY }; fday[1] = (fld) { "1", 2 }; fday[2] = (fld) { "10-20~15", setof(1, 31, 10, 20, 1) & ~(1u << 15) }; fday[3] = (fld) { "29-2", setof(1, 31, 29, 2, 1) };
    fmon[0] = (fld) { "*", ALLMON }; fmon[1] = (fld) { "feb", 1 << 1 }; fmon[2] = (fld) { "12-2", setof(0, 11, 11, 1, 1) };
    fdow[0] = (fld) { "*", ALLDOW }; fdow[1] = (fld) { "mon-fri", 0x3e }; fdow[2] = (fld) { "7", 1 | 1 << 7 }; fdow[3] = (fld) { "sat-sun", 1 << 6 | 1 | 1 << 7 };
}
static const time_t t0s[] = { 1706142413 /* 2024-01-25 00:26:53 */, 1709164799 /* 02-28 23:59:59 */, 1703980740 /* 2023-12-30 23:59 */, 1711843140 };
static job jb(char type) { job j; memset(&j, 0, sizeof j); j.type = type; j.first = -1; j.uid = 0; strcpy(j.cmd, "J0"); j.s = (spec) { ALLMIN, ALLHR, ALLDAY, ALLMON, ALLDOW, 0 }; return j; }
static long it, ni; static int dry;
static int mine(void) { return it++ == ni; }
static fc fnew(int alice) { fc f; memset(&f, 0, sizeof f); f.user = alice ? "alice" : "root"; f.me = alice ? 1001 : 0; return f; }
static void one(int alice, const char *head, int tz, const char *line, job j, time_t t0, long days)
{ fc f = fnew(alice); strcpy(f.head, head); f.tz = tz; f.n = 1; f.line[0] = (char *)line; f.j[0] = j; if (alice) f.j[0].uid = 1001; run_fc(&f, t0, days); }
static const struct { const char *k; int kw, nf; } kws[] = { { "hourly", P_HOURLY, 1 }, { "midhourly", P_MIDH, 1 }, { "daily", P_DAILY, 2 }, { "middaily", P_MIDD, 2 }, { "nightly", P_MIDD, 2 }, { "weekly", P_WEEKLY, 2 }, { "midweekly", P_MIDW, 2 }, { "monthly", P_MONTHLY, 3 }, { "midmonthly", P_MIDM, 3 }, { "mins", P_MINS, 5 }, { "hours", P_HOURS, 5 }, { "days", P_DAYS, 5 }, { "mons", P_MONS, 5 }, { "dow", P_DOW, 5 } };
static void family(void)
{
    char l[300]; int nt = mc_thorough ? 4 : 2;
    /* &-lines */
    for (int a = 0; a < 6; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 4; c++) {
        if (!mine()) continue;
        for (int d = 0; d < 3; d++) for (int e = 0; e < 4; e++) for (int o = 0; o < 5; o++) {
            static const char *opt[] = { "& ", "", "&3 ", "&dayor ", "&runfreq(2),nice(4) " };
            if (!mc_thorough && (a + b + c + d * 2 + e * 3 + o) % 3) continue;
            snprintf(l, sizeof l, "%s%s %s %s %s %s J0", opt[o], fmin_[a].t, fhr[b].t, fday[c].t, fmon[d].t, fdow[e].t); if (o == 1 && l[0] == '*' ) {}
            job j = jb('&'); j.s = (spec) { fmin_[a].v, fhr[b].v, fday[c].v, fmon[d].v, fdow[e].v, o == 3 }; j.runfreq = o == 2 ? 3 : o == 4 ? 2 : 0; j.nice = o == 4 ? 4 : 0;
            for (int t = 0; t < nt; t++) one((a + e + o) & 1, "", 0, l, j, t0s[(a + c + t) % 4], 35);
        }
    }
    /* %-lines */
    for (unsigned k = 0; k < sizeof kws / sizeof *kws; k++) for (int a = 0; a < 6; a++) {
        if (!mine()) continue;
        for (int b = 0; b < 5; b++) for (int c = 0; c < 4; c++) for (int d = 0; d < 3; d++) for (int e = 0; e < 4; e++) {
            if (kws[k].nf < 2 && b || kws[k].nf < 3 && c || kws[k].nf < 4 && d || kws[k].nf < 5 && e) continue;
            job j = jb('%'); j.kw = kws[k].kw; j.s = (spec) { fmin_[a].v, ALLHR, ALLDAY, ALLMON, ALLDOW, 0 }; if (kws[k].nf > 1) j.s.hr = fhr[b].v; if (kws[k].nf > 2) j.s.day = fday[c].v; if (kws[k].nf > 3) j.s.mon = fmon[d].v, j.s.dow = fdow[e].v;
            if (kws[k].kw >= P_MINS) {     /* a line without interval is refused */
                int i1 = j.s.hr != ALLHR, i2 = j.s.day != ALLDAY, i3 = j.s.mon != ALLMON, i4 = j.s.dow != ALLDOW, i0 = j.s.min != ALLMIN;
                int any = kws[k].kw == P_MINS ? i0 | i1 | i2 | i3 | i4 : kws[k].kw == P_HOURS ? i1 | i2 | i3 | i4 : kws[k].kw == P_DAYS ? i2 | i3 | i4 : kws[k].kw == P_MONS ? i3 | i4 : i4; if (!any) continue;
                if (!mc_thorough && (b + c + d + e) % 3) continue; }
            int n = snprintf(l, sizeof l, "%%%s %s", kws[k].k, fmin_[a].t); if (kws[k].nf > 1) n += snprintf(l + n, sizeof l - n, " %s", fhr[b].t); if (kws[k].nf > 2) n += snprintf(l + n, sizeof l - n, " %s", fday[c].t); if (kws[k].nf > 3) n += snprintf(l + n, sizeof l - n, " %s %s", fmon[d].t, fdow[e].t);
            strcpy(l + n, " J0");
            for (int t = 0; t < nt; t++) one(k & 1, "", 0, l, j, t0s[(a + c + t) % 4], kws[k].kw == P_MONTHLY || kws[k].kw == P_MIDM ? 80 : 35);
        }
    }
    /* @-lines */
    static const struct { const char *t; long v; } tv[] = { { "1", 60 }, { "7", 420 }, { "90s", 90 }, { "1h30", 5400 }, { "1d", 86400 }, { "1w2d", 777600 }, { "10s", 10 } };
    for (int a = 0; a < 7; a++) for (int b = -1; b < 7; b++) for (int c = 0; c < 3; c++) {
        if (!mine()) continue;
        job j = jb('@'); j.freq = tv[a].v; j.first = b < 0 ? -1 : tv[b].v; char o[60] = ""; if (b >= 0) snprintf(o, sizeof o, c == 0 ? "first(%s)" : c == 1 ? "f(%s),nice(3)" : "%s", tv[b].t); if (c == 1 && b >= 0) j.nice = 3;
        snprintf(l, sizeof l, "@%s %s J0", o, tv[a].t); one(a & 1, "", 0, l, j, t0s[0], 35);
        if (b >= 0) { char h[80]; snprintf(h, sizeof h, "!first(%s)\n", tv[b].t); j.nice = 0; snprintf(l, sizeof l, "@ %s J0", tv[a].t); one(a & 1, h, 0, l, j, t0s[1], 35); one(a & 1, h, 0, "!reset\n@ 20m J0" + 0, ({ job q = jb('@'); q.freq = 20L * 28 * 86400; q; }), t0s[1], 3); }
    }
    /* shortcuts */
    static const struct { const char *k; uint64_t mi; uint32_t h, d, m, w; } sc[] = { { "yearly", 1, 1, 2, 1, ALLDOW }, { "annually", 1, 1, 2, 1, ALLDOW }, { "monthly", 1, 1, 2, ALLMON, ALLDOW }, { "weekly", 1, 1, ALLDAY, ALLMON, 1 }, { "daily", 1, 1, ALLDAY, ALLMON, ALLDOW }, { "midnight", 1, 1, ALLDAY, ALLMON, ALLDOW }, { "hourly", 1, ALLHR, ALLDAY, ALLMON, ALLDOW } };
    for (int a = 0; a < 7; a++) { if (!mine()) continue; for (int t = 0; t < 4; t++) { job j = jb('&'); j.s = (spec) { sc[a].mi, sc[a].h, sc[a].d, sc[a].m, sc[a].w, 0 }; snprintf(l, sizeof l, "@%s J0", sc[a].k); one(a & 1, "", 0, l, j, t0s[t], 40); } }
    /* time zones, tzdiff */
    static const struct { const char *h; long off; int tz; } zn[] = { { "!tzdiff(3)\n", 0, 3 }, { "!tzdiff(-11)\n", 0, -11 }, { "!timezone(XXX-3)\n", 10800, 0 }, { "!timezone(YYY8:30)\n", -30600, 0 }, { "!timezone(Asia/Tokyo)\n", 32400, 0 }, { "!timezone(UTC)\n", 0, 0 }, { "!timezone(XXX-3),tzdiff(2)\n", 10800, 2 }, { "TZ=XXX-3\n", 0, 0 } };
    for (int z = 0; z < 8; z++) for (int a = 0; a < 6; a++) { if (!mine()) continue; for (int b = 0; b < 5; b++) for (int ty = 0; ty < 4; ty++) {
        job j = jb(ty == 3 ? '%' : '&'); j.off = zn[z].off; j.s.min = fmin_[a].v; j.s.hr = fhr[b].v; j.kw = P_DAILY; if (ty == 1) j.s.day = 2; if (ty == 2) j.s.dow = 0x3e;
        snprintf(l, sizeof l, ty == 3 ? "%%daily %s %s J0" : ty == 1 ? "& %s %s 1 * * J0" : ty == 2 ? "& %s %s * * 1-5 J0" : "& %s %s * * * J0", fmin_[a].t, fhr[b].t);
        for (int t = 0; t < 2; t++) one(b & 1, zn[z].h, zn[z].tz, l, j, t0s[(a + t) % 4], 35); } }
    /* users, variables, general options, several lines */
    static const struct { const char *l; char type; long v; int nice; uid_t uid; int kw; } ml[] = { { "@ 20 J0", '@', 1200, 0, 0, 0 }, { "@runas(bob),nice(-3) 30 J1", '@', 1800, -3, 1002, 0 }, { "@runas(alice),first(5) 40 J2", '@', 2400, 0, 1001, 0 }, { "& 7 * * * * J3", '&', 7, 0, 0, 0 }, { "11 * * * * bob J4", '&', 11, 0, 1002, 0 }, { "&runas(alice) 13 * * * * J5", '&', 13, 0, 1001, 0 }, { "%daily 17 * J6", '%', 17, 0, 0, P_DAILY }, { "%hourly,runas(bob),nice(7) 19-40 J7", '%', 19, 7, 1002, P_HOURLY }, { "@daily carol J8", 'd', 0, 0, 1003, 0 } };
    static const struct { const char *t; int uid, nice; const char *e; } gl[] = { { "", -1, 99, 0 }, { "!runas(carol)\n", 1003, 99, 0 }, { "!nice(2)\n", -1, 2, 0 }, { "A=b c\n", -1, 99, "A=b c" }, { "!runas(bob),nice(5)\nB='x '\n", 1002, 5, "B=x " }, { "!serial\n!reset\n", -1, 99, 0 }, { "!nice(9)\n!runas(bob)\n!reset\nC=\n", -1, 99, "C=" } };
    for (int g = 0; g < 7; g++) for (int a = 0; a < 9; a++) { if (!mine()) continue; for (int b = -1; b < 9; b++) for (int c = -1; c < (mc_thorough ? 9 : 0); c++) {
        if (a == b || c == a || (c >= 0 && c == b)) continue;
        fc f = fnew(0); strcpy(f.head, gl[g].t); if (gl[g].e) f.env[f.nenv++] = gl[g].e; int ix[3] = { a, b, c };
        for (int k = 0; k < 3; k++) if (ix[k] >= 0) { int m = ix[k]; f.line[f.n] = (char *)ml[m].l; job *j = &f.j[f.n++]; *j = jb(ml[m].type == 'd' ? '&' : ml[m].type); snprintf(j->cmd, 40, "J%d", m); j->kw = ml[m].kw;
            j->uid = ml[m].uid ? ml[m].uid : gl[g].uid >= 0 ? gl[g].uid : 0; j->nice = ml[m].nice ? ml[m].nice : gl[g].nice != 99 ? gl[g].nice : 0;
            if (j->type == '@') { j->freq = ml[m].v; if (m == 2) j->first = 300; } else if (m == 8) { j->s.min = j->s.hr = 1; } else if (m == 7) j->s.min = setof(0, 59, 19, 40, 1); else j->s.min = 1ULL << ml[m].v; }
        run_fc(&f, t0s[(a + g) % 4], 2);
    } }
    /* starts and resumes. steps: i install, w wait, s stop and start, b reboot, Z suspend */
    static const struct { const char *l[2]; const char *scr, *exp; } bt[] = {
        { { "@reboot J0" }, "wiwwbwwswwbw.", "-----0-----0-" }, { { "@reboot J0" }, "wiwZwwbwZw.", "-------0---" }, { { "@resume J0" }, "wiwZwwswwZwbwwZw.", "----0-----0----0-" },
        { { "@reboot J0", "@resume J1" }, "wiwbwZwswZwbw.", "----0-1---1-0-" }, { { "@runatreboot 10d J0" }, "wiwbwswbw.", "----0---0-" }, { { "&runatreboot 3 3 3 3 * J0" }, "wiwbwswbw.", "----0---0-" }, { { "&runatresume 3 3 3 3 * J0" }, "wiwbwZwswZw.", "------0---0-" },
        { { "&runatreboot,runonce 3 3 3 3 * J0" }, "wiwbwswbw.", "----0---0-" }, { { "@ 10d J0" }, "wiwbwswZw.", "----------" }, { { "& 3 3 3 3 * J0", "@reboot J1" }, "wiwbwswZw.", "----1-----" }, { { "%daily,runatreboot 3 3 J0" }, "wiwbwswbw.", "----0---0-" },
    };
    for (unsigned i = 0; i < sizeof bt / sizeof *bt; i++) { if (!mine()) continue; for (int al = 0; al < 2; al++) for (int o = 0; o < 3; o++) { static const char *hd[] = { "", "!serial(false)\n!reset\n", "A=b\n" }; fc f = fnew(al); strcpy(f.head, hd[o]); for (int k = 0; k < 2 && bt[i].l[k]; k++) { f.line[f.n] = (char *)bt[i].l[k]; f.j[f.n] = jb('&'); snprintf(f.j[f.n].cmd, 40, "J%d", k); f.n++; } run_boot(&f, bt[i].scr, bt[i].exp); } }
}
static void item(long i) { it = 0; ni = i; family(); }
int harness_main(void)
{
    mkcal(); mkfields(); it = 0; ni = -1; family(); long n = it; mc_items(n, item); return 0;
}
