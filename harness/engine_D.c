/* The whole daemon, run event by event, against a reference model.
 *
 * Every execution installs fcrontabs with the real fcrontab, starts the real daemon
 * main() and then, each time the daemon sleeps in select(), chooses what happens next:
 * the timer elapses (on time or late), a job ends, a fcrontab is replaced or removed,
 * SIGUSR1, a suspend, a change of load, a failing fork, a stop and restart, a crash.
 * All sequences of such events up to a depth are executed.  The model below is
 * written from fcrontab(5)/fcron(8); after every loop iteration of the daemon it
 * predicts which jobs must have been started, which mails sent, what is in the
 * schedule and when the daemon must wake. */
#include "config.h"
#include "fcron.h"
#include "conf.h"
#include "database.h"
#include "exe_list.h"
#include "lavg_list.h"
#undef debug
#undef error
#undef warn
#undef die
#define DAEMON_MAIN main
int main(int, char **);
#include "eng.h"

/* ------------------------------------------------------------------ specifications of lines */
enum { O_SERIAL = 1, O_BOOTRUN = 2, O_RATREBOOT = 4, O_RATRESUME = 8, O_VOLATILE = 16, O_REBRESET = 32, O_RUNONCE = 64, O_NOTICE = 128,
       O_NOSTRICT = 256, O_EXESEV = 512, O_SSEV = 1024, O_LSEV = 2048, O_LOR = 4096, O_MID = 8192 };
#define EVERY (~0ULL)
typedef struct { const char *cmd; char kind; uint64_t mins; uint32_t hrs; int n; long freq, first; char per; unsigned o; double l[3]; long until; int tz; } LS;
static int is_lavg_(const LS *s) { return s->l[0] > 0 || s->l[1] > 0 || s->l[2] > 0; }
static char *field(char *b, uint64_t m, int max)
{
    uint64_t full = max == 60 ? (1ULL << 60) - 1 : (1ULL << 24) - 1; m &= full; b[0] = 0;
    if (m == full) { strcpy(b, "*"); return b; }
    for (int i = 0; i < max; i++) if (m >> i & 1) { int j = i; while (j + 1 < max && (m >> (j + 1) & 1)) j++; char t[20]; if (j > i) snprintf(t, sizeof t, "%s%d-%d", b[0] ? "," : "", i, j); else snprintf(t, sizeof t, "%s%d", b[0] ? "," : "", i); strcat(b, t); i = j; }
    return b;
}
static void line_text(char *out, const LS *s)
{
    char o[400] = "", m[200], h[100]; unsigned f = s->o; int n = 0;
#define ADD(...) n += snprintf(o + n, sizeof o - n, __VA_ARGS__)
    ADD("mail(false)");
    if (f & O_SERIAL) ADD(",serial(true)"); ADD(",serialonce(%s),lavgonce(%s)", f & O_SSEV ? "false" : "true", f & O_LSEV ? "false" : "true");
    if (f & O_EXESEV) ADD(",exesev(true)"); if (f & O_BOOTRUN) ADD(",bootrun(true)"); if (f & O_RATREBOOT) ADD(",runatreboot(true)"); if (f & O_RATRESUME) ADD(",runatresume(true)");
    if (f & O_VOLATILE) ADD(",volatile(true)"); if (f & O_REBRESET) ADD(",rebootreset(true)"); if (f & O_RUNONCE) ADD(",runonce(true)"); if (f & O_NOTICE) ADD(",noticenotrun(true)");
    if (f & O_NOSTRICT) ADD(",strict(false)");
    if (is_lavg_(s)) { ADD(",lavg(%g,%g,%g),%s", s->l[0], s->l[1], s->l[2], f & O_LOR ? "lavgor" : "lavgand"); }
    if (s->until) ADD(",until(%lds)", s->until);
    if (s->kind == '@') { if (s->first >= 0) ADD(",first(%lds)", s->first); sprintf(out, "@%s %lds %s\n", o, s->freq, s->cmd); }
    else if (s->kind == '&') { if (s->n > 0) ADD(",runfreq(%d)", s->n); sprintf(out, "&%s %s %s * * * %s\n", o, field(m, s->mins, 60), field(h, s->hrs, 24), s->cmd); }
    else if (s->per == 'h') sprintf(out, "%%%shourly,%s %s %s\n", s->o & O_MID ? "mid" : "", o, field(m, s->mins, 60), s->cmd);
    else sprintf(out, "%%%sdaily,%s %s %s %s\n", s->o & O_MID ? "mid" : "", o, field(m, s->mins, 60), field(h, s->hrs, 24), s->cmd);
}

/* ------------------------------------------------------------------ scenarios */
#define M_T 1        /* the timer elapses */
#define M_TL 2       /* ... 2 s late */
#define M_X 4        /* a job ends */
#define M_E 8        /* a fcrontab is replaced or removed */
#define M_U 16       /* SIGUSR1 */
#define M_R 32       /* stop and restart */
#define M_K 64       /* crash and restart */
#define M_L 128      /* load change */
#define M_S 256      /* suspend */
#define M_F 512      /* next fork fails */
#define M_P 1024     /* next pipe fails */
#define M_MULTI 2048 /* several events before the daemon wakes */
#define M_BOOT 4096  /* restarts may be reboots */
#define M_X1 16384   /* only the oldest running job may end */
#define M_D 32768    /* fcrondyn clients */
#define M_DQ 65536   /* ... which run no job */
#define M_TLL 8192   /* the timer elapses 5 s late, still no suspend */
typedef struct { const char *user; int nver; LS *ver[4]; int nl[4]; } UF;
typedef struct { const char *name, *props; long start; int fs, maxs, qlen; long save; unsigned moves; int depth, tdepth; int nuf; UF uf[3];
                 int nload; double load[4][3]; int ndown; long down[4]; int nsus; long sus[4]; int rare; /* budget for rare moves */ int noboot0; } SC;
static SC *sc;

/* ------------------------------------------------------------------ the model */
#define LOAD_US 1000000
typedef struct { int used; LS *s; int user; time_t next; int remain, numexe, hasrun, sched; } ML;
typedef struct { ML l; int saved; } SV;
static ML ml[64]; static int nml;
static struct { int l; int it; time_t due; } sq[64]; static int nsq;
static struct { int l; time_t until; int drop; int it; } lq[64]; static int nlq;
static struct { int l; LS *s; int slot; int ctrl; } rq[64]; static int nrq;     /* running: slot 1 serial, 2 lavg serial */
static struct { int present; time_t t; int n; ML l[16]; } sv[3];                 /* what is on disk */
static int pend_new[3], pend_rm[3];                                           /* spool: version+1, removal */
static int installed[3];                                                      /* loaded by the daemon */
static time_t mnow, save_at, want; static int iter, srun, lrun, first_rest, system_boot;
static time_t want_prev, slept_from;
static int eo_base; static int moves_left, rare_left, loadi;
static int sig_hup_, sig_usr1_, sig_chld_, notified; static long sus_dur; static int64_t asleep_us; /* time suspended since the daemon last asked */ static int phase;
static ebin bins[3][4];

#define BAD(sig, ...) mc_violation(sig, __VA_ARGS__)
static const char *hhmm(time_t t) { static char b[4][32]; static int i; i = (i + 1) & 3; struct tm tm; gmtime_r(&t, &tm); strftime(b[i], 32, "%d %H:%M:%S", &tm); return b[i]; }

/* first minute at or after t that matches (UTC; days, months and weekdays are all *) */
static int match(const LS *s, time_t t) { t -= s->tz * 3600; int m = t / 60 % 60, h = t / 3600 % 24; return (s->mins >> m & 1) && (s->kind == '%' && s->per == 'h' ? 1 : (s->hrs >> h & 1)); }
static time_t first_match(const LS *s, time_t t) { t = (t + 59) / 60 * 60; for (int i = 0; i < 60 * 48; i++, t += 60) if (match(s, t)) return t; return 0; }
static time_t next_period(const LS *s, time_t t)
{
    long p = s->per == 'h' ? 3600 : 86400, off = (s->o & O_MID ? p / 2 : 0) + s->tz * 3600;
    return ((t - off) / p + 1) * p + off;
}
static time_t td_std(const LS *s, time_t t) { return s->kind == '%' ? first_match(s, next_period(s, t)) : first_match(s, t / 60 * 60 + 60); }
static time_t td_nogoto(const LS *s, time_t t) { return first_match(s, t / 60 * 60 + 60); }
static time_t interval_end(const LS *s, time_t t)      /* the last minute of the interval of execution containing t */
{
    time_t m = t / 60 * 60, np = next_period(s, t);
    while (m + 60 < np && match(s, m + 60)) m += 60;
    return m;
}

static eobs *claim(char type, const char *cmd)
{ for (int i = eo_base; i < neo; i++) if (!eo[i].used && eo[i].type == type && (!cmd || !strcmp(eo[i].cmd, cmd))) { eo[i].used = 1; return &eo[i]; } return NULL; }
static int peek(const char *cmd) { for (int i = eo_base; i < neo; i++) if (!eo[i].used && eo[i].type == 'S' && !strcmp(eo[i].cmd, cmd)) return 1; return 0; }
static void events_str(char *b, size_t n) { b[0] = 0; for (int i = eo_base; i < neo; i++) { size_t l = strlen(b); snprintf(b + l, n - l, " %c:%s", eo[i].type, eo[i].cmd); } }
static long mlid[64];
static uid_t uid_of(const char *u) { if (!strcmp(u, "systab")) return 0; for (int i = 0; i < vos_nusers; i++) if (!strcmp(vos_users[i].name, u)) return vos_users[i].uid; return 99999; }

static int m_start(int l, int slot, const char *why)   /* 1: started, 0: the system refused */
{
    ML *m = &ml[l]; eobs *o = claim('S', m->s->cmd);
    if (!o) {
        if (claim('X', NULL)) { mc_note("    failed start of %s\n", m->s->cmd); m->numexe--; return 0; }
        char b[500]; events_str(b, sizeof b);
        BAD("start-missing", "%s should have been started (%s) at %s but was not; the daemon did:%s", m->s->cmd, why, hhmm(mnow), b);
        m->numexe--; return 0;
    }
    if (o->uid != uid_of(sc->uf[m->user].user)) BAD("wrong-user", "%s started as uid %d", m->s->cmd, (int)o->uid);
    rq[nrq].l = l; rq[nrq].s = m->s; rq[nrq].slot = slot; rq[nrq].ctrl = o->ctrl; nrq++;
    if (slot == 1) srun++; if (slot == 2) lrun++;
    return 1;
}
static void m_drain(const char *why)
{
    while (nsq > 0 && srun < sc->maxs) {
        int k = 0;
        for (int i = 0; i < nsq && sq[i].it == sq[0].it && sq[i].due == sq[0].due; i++) if (peek(ml[sq[i].l].s->cmd)) { k = i; break; }
        int l = sq[k].l; memmove(&sq[k], &sq[k + 1], (nsq - k - 1) * sizeof sq[0]); nsq--;
        m_start(l, 1, why);
    }
}
static void m_mail(LS *s, const char *what, time_t since)
{
    eobs *o = NULL;
    for (int i = eo_base; i < neo; i++) if (!eo[i].used && eo[i].type == 'M' && strstr(eo[i].mail, s->cmd) && strstr(eo[i].mail, what)) { o = &eo[i]; o->used = 1; break; }
    if (!o) { char b[500]; events_str(b, sizeof b); BAD("mail-missing", "no noticenotrun mail (%s) for %s at %s; the daemon did:%s", what, s->cmd, hhmm(mnow), b); return; }
    if (since) { char b[80]; struct tm t; gmtime_r(&since, &t); snprintf(b, sizeof b, "since and including %04d-%02d-%02d wday:%d %02d:%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_wday, t.tm_hour, t.tm_min);
        if (!strstr(o->mail, b)) BAD("mail-wrong-date", "the mail about %s should say '%s' but says: %.300s", s->cmd, b, strstr(o->mail, "Line") ? strstr(o->mail, "Line") : o->mail); }
}
static void m_add_serial(int l, time_t due)
{
    ML *m = &ml[l];
    if (!(m->s->o & O_SSEV) && m->numexe > 0) return;
    if (nsq >= sc->qlen) { if (m->s->o & O_NOTICE) m_mail(m->s, "couldn't be added", 0); return; }
    sq[nsq].l = l; sq[nsq].it = iter; sq[nsq].due = due; nsq++; m->numexe++;
}
static void m_add_lavg(int l)
{
    ML *m = &ml[l];
    if (!(m->s->o & O_LSEV) && m->numexe > 0) return;
    if (nlq >= sc->qlen) { if (m->s->o & O_NOTICE) m_mail(m->s, "couldn't be added", 0); return; }
    lq[nlq].l = l; lq[nlq].drop = 0; lq[nlq].it = iter; lq[nlq].until = m->s->until ? mnow + m->s->until : 0;
    if (m->s->kind == '%' && !(m->s->o & O_NOSTRICT)) {
        time_t e = interval_end(m->s, m->next);
        if (!(m->s->until > 0 && m->s->until + mnow < e)) { lq[nlq].until = e; lq[nlq].drop = 1; }
    }
    nlq++; m->numexe++;
}
static void m_std(int l) { ML *m = &ml[l]; m->next = m->s->kind == '@' ? mnow + m->s->freq : td_std(m->s, mnow); }
static int notice_due(ML *m, time_t prev, time_t from, int to_now)
{ (void)from; if (!(m->s->o & O_NOTICE)) return 0; if (m->s->kind != '%') return 1; time_t np = next_period(m->s, prev); time_t n = to_now ? mnow : td_nogoto(m->s, mnow); return n >= np; }

enum { C_DEF, C_BOOT, C_RES };
static void m_sched(int l, int ctx, long dur, int isnew)
{
    ML *m = &ml[l]; LS *s = m->s;
    if (ctx != C_RES && m->numexe > 0) {
        m->numexe = 0;
        if (!(ctx == C_BOOT && (s->o & O_RATREBOOT))) {
            if (is_lavg_(s)) { if (!(s->kind == '%' && !(s->o & O_NOSTRICT))) m_add_lavg(l); }
            else m_add_serial(l, 0);
        }
    }
    if (ctx == C_BOOT || (ctx == C_DEF && (s->o & O_VOLATILE)) || (ctx == C_RES && (s->o & O_RATRESUME))) m->hasrun = 0;
    if ((s->o & O_RUNONCE) && m->hasrun) { m->sched = 0; return; }
    m->sched = 1;
    int force = (ctx == C_BOOT && (s->o & O_RATREBOOT)) || (ctx == C_RES && (s->o & O_RATRESUME));
    if (s->kind != '@') {
        time_t p = m->next;
        if (force) { if (p > 0 && p <= mnow && notice_due(m, p, p, 1)) m_mail(s, "has not run", p); m->next = mnow; }
        else if (p <= mnow) {
            if (p == 0) m->next = td_nogoto(s, mnow);
            else if (s->kind == '&' && (s->o & O_BOOTRUN) && !isnew) {
                if (m->remain > 0 && --m->remain > 0) ;
                else { m->remain = s->n; if (is_lavg_(s)) m_add_lavg(l); else m_add_serial(l, 0); }
                m_std(l);
            }
            else { if (notice_due(m, p, p, 0)) m_mail(s, "has not run", p); m->next = td_nogoto(s, mnow); }
        }
    } else {
        if (force) m->next = mnow;
        else if (isnew || ((s->o & O_VOLATILE) && ctx != C_RES) || (ctx == C_BOOT && (s->o & (O_REBRESET | O_RUNONCE)))) m->next = mnow + (s->first >= 0 ? s->first : s->freq);
        else { m->next += dur; if (m->next < mnow) m->next = ctx == C_RES ? mnow : mnow + s->freq; }
    }
}
static void m_unload(int u)
{
    for (int i = 0; i < nrq; i++) if (rq[i].l >= 0 && ml[rq[i].l].user == u) rq[i].l = -1;
    int k = 0; for (int i = 0; i < nsq; i++) if (ml[sq[i].l].user != u) sq[k++] = sq[i]; nsq = k;
    k = 0; for (int i = 0; i < nlq; i++) if (ml[lq[i].l].user != u) lq[k++] = lq[i]; nlq = k;
    for (int i = 0; i < nml; i++) if (ml[i].used && ml[i].user == u) ml[i].used = 0;
    installed[u] = 0;
}
static void m_save(int u)
{
    sv[u].present = installed[u]; sv[u].t = mnow; sv[u].n = 0;
    for (int i = 0; i < nml; i++) if (ml[i].used && ml[i].user == u) sv[u].l[sv[u].n++] = ml[i];
}
static void m_save_all(void) { for (int u = 0; u < sc->nuf; u++) if (installed[u]) m_save(u); }
static int new_ml(LS *s, int u) { int i; for (i = 0; i < nml; i++) if (!ml[i].used) { int busy = 0; for (int k = 0; k < nrq; k++) if (rq[k].l == i) busy = 1; if (!busy) break; } if (i == nml) nml++; memset(&ml[i], 0, sizeof ml[i]); mlid[i] = -1; ml[i].used = 1; ml[i].s = s; ml[i].user = u; ml[i].remain = s->n; return i; }
static void m_sync(int load_all)
{
    int base_empty = 1; for (int u = 0; u < sc->nuf; u++) if (installed[u]) base_empty = 0;
    (void)load_all;
    for (int u = 0; u < sc->nuf; u++) if (pend_rm[u]) { m_unload(u); sv[u].present = 0; pend_rm[u] = 0; }
    int be2 = base_empty; (void)be2;
    if (base_empty) for (int u = 0; u < sc->nuf; u++) if (sv[u].present) {
        for (int i = 0; i < sv[u].n; i++) { int l = new_ml(sv[u].l[i].s, u); ml[l] = sv[u].l[i]; ml[l].used = 1; m_sched(l, system_boot ? C_BOOT : C_DEF, mnow - sv[u].t, 0); }
        installed[u] = 1; }
    for (int u = 0; u < sc->nuf; u++) if (pend_new[u]) {
        int v = pend_new[u] - 1; ML old[16]; int nold = 0;
        for (int i = 0; i < nml; i++) if (ml[i].used && ml[i].user == u) old[nold++] = ml[i];
        int had = installed[u];
        int idx[16], n = 0;
        for (int i = 0; i < sc->uf[u].nl[v]; i++) { int l = new_ml(&sc->uf[u].ver[v][i], u); idx[n++] = l; ml[l].user = -1; }
        if (had) m_unload(u);
        for (int i = 0; i < n; i++) { ml[idx[i]].user = u; m_sched(idx[i], system_boot ? C_BOOT : C_DEF, mnow, 1);
            if (had) for (int k = 0; k < nold; k++) { LS *a = ml[idx[i]].s, *b = old[k].s;
                if (!strcmp(a->cmd, b->cmd) && a->kind == b->kind && a->per == b->per && a->mins == b->mins && a->hrs == b->hrs && (a->kind != '@' || a->freq == b->freq)) {
                    if (a->n == b->n) ml[idx[i]].remain = old[k].remain;
                    if (a->kind != '@' && a->tz != b->tz) { time_t t = old[k].next + (a->tz - b->tz) * 3600; if (t > mnow) ml[idx[i]].next = t; }
                    else ml[idx[i]].next = old[k].next;
                    if ((a->o & O_RUNONCE) && (b->o & O_RUNONCE) && old[k].hasrun) { ml[idx[i]].hasrun = 1; ml[idx[i]].sched = 0; }
                    break; } } }
        installed[u] = 1; m_save(u); pend_new[u] = 0;
    }
}
static void reaped(int k) { if (rq[k].slot == 1) srun--; if (rq[k].slot == 2) lrun--; if (rq[k].l >= 0) ml[rq[k].l].numexe--; rq[k] = rq[--nrq]; }
static void m_reap(void) { for (int k = 0; k < nrq; k++) { vproc *p = vos_proc(rq[k].ctrl); if (!p || p->state == 3) { reaped(k); k--; } } }

static time_t m_wake(void)
{
    time_t w = save_at; for (int i = 0; i < nml; i++) if (ml[i].used && ml[i].sched && ml[i].next < w) w = ml[i].next;
    return w < mnow ? mnow : w;
}
static void m_lavg(void)
{
    for (int i = 0; i < nlq; i++) if (lq[i].until && lq[i].until < mnow) {
        int l = lq[i].l, drop = lq[i].drop; lq[i] = lq[--nlq]; i--;
        if (drop) { ML *m = &ml[l]; m->numexe--; if (m->s->kind != '@' && notice_due(m, mnow, mnow, 0)) m_mail(m->s, "has not run", 0); m->next = td_nogoto(m->s, mnow); }
        else m_start(l, ml[l].s->o & O_SERIAL ? 2 : 0, "until expired");
    }
    want = m_wake();
    if (!nlq) return;
    int el[64], n = 0;
    for (int i = 0; i < nlq; i++) { LS *s = ml[lq[i].l].s; double *v = V.load; int ok;
        if (s->o & O_LOR) ok = v[0] < s->l[0] || v[1] < s->l[1] || v[2] < s->l[2];
        else ok = (s->l[0] == 0 || v[0] < s->l[0]) && (s->l[1] == 0 || v[1] < s->l[1]) && (s->l[2] == 0 || v[2] < s->l[2]);
        if (ok) el[n++] = i; }
    /* jobs without serial all start; of the serial ones, as many as there are free slots, any of them */
    int done[64] = {0};
    for (int k = 0; k < n; k++) { int i = el[k]; if (!(ml[lq[i].l].s->o & O_SERIAL)) { m_start(lq[i].l, 0, "load is low enough"); done[i] = 1; } }
    for (int pass = 0; pass < 2; pass++) for (int k = 0; k < n; k++) { int i = el[k]; LS *s = ml[lq[i].l].s;
        if (done[i] || !(s->o & O_SERIAL) || lrun >= sc->maxs) continue;
        if (pass == 0 && !peek(s->cmd)) continue;
        m_start(lq[i].l, 2, "load is low enough, a slot is free"); done[i] = 1; }
    int k = 0; for (int i = 0; i < nlq; i++) if (!done[i]) lq[k++] = lq[i]; nlq = k;
    if (nlq && mnow + LAVG_SLEEP < want) want = mnow + LAVG_SLEEP;
}
static void m_usr1(void)
{
    /* every fcrontab: its running jobs end, it is saved, and all is read again */
    for (int u = 0; u < sc->nuf; u++) if (installed[u]) m_save(u);
    for (int u = 0; u < sc->nuf; u++) if (installed[u]) m_unload(u);
    m_sync(1);
}
static void m_test_jobs(void)
{
    for (;;) {
        int b = -1; for (int i = 0; i < nml; i++) if (ml[i].used && ml[i].sched && ml[i].next <= mnow && (b < 0 || ml[i].next < ml[b].next)) b = i;
        if (b < 0) break;
        ML *m = &ml[b]; LS *s = m->s; time_t due = m->next;
        if (m->remain > 0 && --m->remain > 0) ;
        else {
            m->remain = s->kind == '%' ? 1 : s->n;
            if (is_lavg_(s)) m_add_lavg(b);
            else if (s->o & O_SERIAL) m_add_serial(b, due);
            else if (m->numexe <= 0 || (s->o & O_EXESEV)) { m->numexe++; m_start(b, 0, "due"); }
            m->hasrun = 1;
        }
        if ((s->o & O_RUNONCE) && m->hasrun) m->sched = 0; else m_std(b);
    }
}
#include "dyn.h"
static void m_iteration(void)
{
    iter++; mnow = V.now_us / 1000000;
    if (!sig_usr1_) m_reap();
    if (sig_hup_) m_sync(0);
    /* serial jobs whose turn came with a freed slot start now or after test_jobs, in the same order */
    sus_dur = 0; if (notified || mnow - want > 5) { sus_dur = asleep_us / 1000000; asleep_us = 0; }
    if (sus_dur > 0) for (int i = 0; i < nml; i++) if (ml[i].used) m_sched(i, C_RES, sus_dur, 0);
    m_test_jobs();
    if (sig_usr1_) { m_reap(); m_usr1(); }
    m_drain("serial slot free");
    if (save_at <= mnow) { save_at = mnow + sc->save; m_save_all(); }
    if (dcmd.on) m_command();
    m_lavg();
    sig_hup_ = sig_usr1_ = sig_chld_ = notified = 0;
}
static void m_startup(void)
{
    iter++; mnow = V.now_us / 1000000; m_sync(1); system_boot = 0; save_at = mnow + sc->save; want = mnow + sc->fs;
    if (!nsq && !nlq) { time_t w = m_wake(); if (w > want) want = w; }
}
static void m_no_more_events(void)
{
    for (int i = eo_base; i < neo; i++) if (!eo[i].used) {
        if (eo[i].type == 'S') BAD("start-unexpected", "%s was started at %s although it should not be", eo[i].cmd, hhmm(mnow));
        else if (eo[i].type == 'M') BAD("mail-unexpected", "a mail was sent at %s although no line missed a run: %.300s", hhmm(mnow), strstr(eo[i].mail, "Line") ? strstr(eo[i].mail, "Line") : eo[i].mail);
        else if (eo[i].type == 'E') BAD("child-failed", "a child of the daemon ended before running its job: %s", eo[i].cmd);
        else BAD("start-unexpected", "the daemon tried to start a job at %s although none was to be started", hhmm(mnow));
    }
    eo_base = neo = 0;
}

/* ------------------------------------------------------------------ comparing the daemon with the model */
static uint64_t check_state(void)
{
    uint64_t h = 7; int n = 0;
    for (struct job_t *j = queue_base; j; j = j->j_next) {
        if (++n > 100) { BAD("schedule-loop", "the schedule is a loop"); break; }
        if (j->j_next && j->j_next->j_line->cl_nextexe < j->j_line->cl_nextexe) BAD("schedule-order", "the schedule is not in order: %s (%s) before %s (%s)", j->j_line->cl_shell, hhmm(j->j_line->cl_nextexe), j->j_next->j_line->cl_shell, hhmm(j->j_next->j_line->cl_nextexe));
    }
    int want_n = 0, lines = 0;
    for (int i = 0; i < nml; i++) if (ml[i].used) {
        int c = 0; lines++;
        struct cl_t *cl = NULL; for (struct cf_t *f = file_base; f; f = f->cf_next) for (struct cl_t *l = f->cf_line_base; l; l = l->cl_next) if (!strcmp(l->cl_shell, ml[i].s->cmd) && !strcmp(f->cf_user, sc->uf[ml[i].user].user)) { if (cl) BAD("line-duplicated", "%s is loaded twice", l->cl_shell); cl = l; }
        if (!cl) { BAD("line-lost", "%s of %s is not loaded", ml[i].s->cmd, sc->uf[ml[i].user].user); continue; }
        for (struct job_t *j = queue_base; j; j = j->j_next) if (j->j_line == cl) c++;
        if (c != (ml[i].sched ? 1 : 0)) BAD("schedule-membership", "%s is %d times in the schedule instead of %d, at %s", ml[i].s->cmd, c, ml[i].sched, hhmm(mnow));
        if (ml[i].sched) want_n++;
        if (ml[i].sched && cl->cl_nextexe != ml[i].next) BAD("next-execution", "at %s the next execution of %s is set to %s instead of %s", hhmm(mnow), ml[i].s->cmd, hhmm(cl->cl_nextexe), hhmm(ml[i].next));
        if (cl->cl_numexe != ml[i].numexe) BAD("instances", "at %s the daemon counts %d waiting or running instances of %s instead of %d", hhmm(mnow), cl->cl_numexe, ml[i].s->cmd, ml[i].numexe);
        if (ml[i].s->kind == '&' && ml[i].s->n > 0 && cl->cl_remain != ml[i].remain) BAD("remaining-count", "at %s %s has %d matches to wait for instead of %d", hhmm(mnow), ml[i].s->cmd, cl->cl_remain, ml[i].remain);
        h = mc_hash(h, &i, sizeof i); h = mc_hash(h, &ml[i], sizeof ml[i]); h = mc_hash(h, cl->cl_option, OPTION_SIZE); h = mc_hash(h, &cl->cl_remain, sizeof cl->cl_remain); h = mc_hash(h, &cl->cl_nextexe, sizeof cl->cl_nextexe);
    }
    if (n != want_n) BAD("schedule-size", "the schedule holds %d entries instead of %d", n, want_n);
    int dl = 0; for (struct cf_t *f = file_base; f; f = f->cf_next) for (struct cl_t *l = f->cf_line_base; l; l = l->cl_next) dl++;
    if (dl != lines) BAD("line-unknown", "%d lines are loaded instead of %d", dl, lines);
    short in[4] = { serial_array_size, serial_array_index, serial_num, serial_running }; h = mc_hash(h, in, sizeof in); h = mc_hash(h, &lavg_serial_running, sizeof lavg_serial_running);
    h = mc_hash(h, sq, nsq * sizeof sq[0]); h = mc_hash(h, lq, nlq * sizeof lq[0]);
    for (int i = 0; i < nrq; i++) { h = mc_hash(h, &rq[i].l, sizeof(int)); h = mc_hash(h, &rq[i].s, sizeof(void *)); h = mc_hash(h, &rq[i].slot, sizeof(int)); }
    h = mc_hash(h, sv, sizeof sv); h = mc_hash(h, pend_new, sizeof pend_new); h = mc_hash(h, pend_rm, sizeof pend_rm); h = mc_hash(h, &V.now_us, 8); h = mc_hash(h, &save_at, sizeof save_at); h = mc_hash(h, &loadi, sizeof loadi);
    h = mc_hash(h, &fail_fork, sizeof fail_fork); h = mc_hash(h, &fail_pipe, sizeof fail_pipe);
    int64_t d = V.boot_us - V.mono_us; h = mc_hash(h, &d, 8); h = mc_hash(h, &asleep_us, 8);
    for (int i = 0; i < 3; i++) h = mc_hash(h, &installed[i], sizeof(int));
    return h;
}

/* ------------------------------------------------------------------ moves */
static int dyn_left; static int waits; static int mv_type; static long mv_arg; static int reboot_next;
static void adv(int64_t us) { V.now_us += us; V.mono_us += us; V.boot_us += us; }
static int at_select(int nfds, fd_set *r, struct timeval *tv)
{
    /* 1. the iteration that just ended, against the model */
    static int nopen0; int nopen = 0; for (int f = 0; f < VOS_MAXFD; f++) nopen += V.fd[f].kind != VF_FREE && V.fd[f].kind != VF_SOCK && V.fd[f].kind != VF_TIMER && V.fd[f].kind != VF_LISTEN;
    if (first_rest) { nopen0 = nopen; first_rest = 0; m_startup(); } else m_iteration();
    m_no_more_events();
    if (nopen > nopen0) BAD("descriptors", "%d files and pipes are open when the daemon goes to sleep, %d at first", nopen, nopen0);
    int64_t t_us = (int64_t)tv->tv_sec * 1000000 + tv->tv_usec, wake = V.now_us + t_us, w = (int64_t)want * 1000000;
    if (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec > 999999) BAD("bad-timeout", "select called with %ld s %ld us", (long)tv->tv_sec, (long)tv->tv_usec);
    if (w < V.now_us) { if (t_us > 1100000) BAD("sleeps-past-event", "at %s the daemon sleeps %lld us although something is due at %s", hhmm(mnow), (long long)t_us, hhmm(want)); }
    else {
        if (wake > w + 1100000) BAD("sleeps-past-event", "at %s the daemon sleeps until %s although something is due at %s", hhmm(mnow), hhmm(wake / 1000000), hhmm(want));
        if (wake < w - 20000) BAD("wakes-early", "at %s the daemon wakes at %s, before the next event at %s", hhmm(mnow), hhmm(wake / 1000000), hhmm(want));
    }
    if (t_us < 1000) BAD("busy-loop", "the daemon sleeps %lld us only", (long long)t_us);
    uint64_t h = check_state();
    mc_eval(1); mc_outcome(h);
    if (sc->moves & M_D) { int n = dyn_step(h, r, want); if (n) { iter--; return n; } if (moves_left <= 0) mc_done(); }
    else {
    h = mc_hash(h, &rare_left, sizeof rare_left);
    if (moves_left <= 0) mc_done();
    if (mc_seen(h, moves_left)) mc_done();
    }
    /* 2. what happens next */
    int chained = 0, load_done = 0; want_prev = want; slept_from = mnow;
again:;
    struct { int t; long a; } mv[200]; int n = 0;
#define MV(T, A) (mv[n].t = (T), mv[n].a = (A), n++)
    if (!chained || (sc->moves & M_T)) MV(M_T, 0);
    if (sc->moves & M_TL) MV(M_T, 2);
    if (sc->moves & M_TLL) MV(M_T, 5);
    if (sc->moves & M_X) for (int i = 0; i < nrq; i++) if (vos_proc(rq[i].ctrl)->state == 1) { MV(M_X, i); if (sc->moves & M_X1) break; }
    if ((sc->moves & M_D) && !chained && dyn_left > 0) for (int l = 0; l < nml; l++) if (ml[l].used && ml[l].sched && mlid[l] >= 0) for (int cmd = 301; cmd <= 302; cmd++) for (int c = 0; c < NDC; c++) if (c == 0 ? (mc_thorough || ((l ^ cmd) & 1) || uf_systab(ml[l].user)) : owner_is(c, l)) MV(M_D, (c && !fail_fork && ((l ^ cmd) & 2) ? 1000000 : 0) + c * 100000 + l * 1000 + cmd);
    if (chained && (sig_hup_ || sig_chld_)) MV(0, 0);                 /* let the signals wake the daemon */
    if (rare_left > 0) {
        if (sc->moves & M_E) for (int u = 0; u < sc->nuf; u++) { for (int v = 0; v < sc->uf[u].nver; v++) MV(M_E, u * 10 + v); if (installed[u] || pend_new[u]) MV(M_E, u * 10 + 9); }
        if (!chained) {
            if (sc->moves & M_U) { MV(M_U, 0); MV(M_U, 1); }
            if (sc->moves & M_R) for (int d = 0; d < sc->ndown; d++) { MV(M_R, d * 2); if (sc->moves & M_BOOT) MV(M_R, d * 2 + 1); }
            if (sc->moves & M_K) MV(M_K, 0);
            if (sc->moves & M_S) for (int d = 0; d < sc->nsus; d++) { MV(M_S, d * 2); MV(M_S, d * 2 + 1); }
        }
        if ((sc->moves & M_F) && !fail_fork) { MV(M_F, 1); }
        if ((sc->moves & M_P) && !fail_pipe) MV(M_P, 1);
    }
    if ((sc->moves & M_L) && !load_done) for (int k = 0; k < sc->nload; k++) if (k != loadi) MV(M_L, k);
    int c = mc_choose(n, "event"); mv_type = mv[c].t; mv_arg = mv[c].a; moves_left--;
    int ret = 0; FD_ZERO(r); waits = 0;
    switch (mv_type) {
    case 0: mc_note("  the daemon wakes\n"); ret = -1; break;
    case M_T:
        adv(t_us + mv_arg * 1000000); mc_note("%s the timer elapses%s\n", hhmm(V.now_us / 1000000), mv_arg ? " (late)" : ""); break;
    case M_X:
        adv(1000); mc_note("%s %s ends\n", hhmm(V.now_us / 1000000), rq[mv_arg].s->cmd); vos_exit_proc(rq[mv_arg].ctrl, 0); vos_raise(SIGCHLD); sig_chld_ = 1; ret = -1; break;
    case M_D: { int c = mv_arg / 100000 % 10, l = mv_arg / 1000 % 100; long cmd = mv_arg % 1000; dyn_left--; adv(mv_arg >= 1000000 ? t_us : 1000); mc_note("%s %s asks for %s of %s\n", hhmm(V.now_us / 1000000), dc_name[c], cmd == 301 ? "runnow" : "run", ml[l].s->cmd); dyn_command(c, cmd, l, r); ret = 1; break; }
    case M_E: {
        int u = mv_arg / 10, v = mv_arg % 10; rare_left--; adv(1000);
        if (v == 9) { mc_note("%s fcrontab of %s removed\n", hhmm(V.now_us / 1000000), sc->uf[u].user); if (pend_new[u]) { char p[100]; snprintf(p, 100, SPOOL "/new.%s", sc->uf[u].user); vos_rmfile(p); } pend_new[u] = 0; eng_put_rm(sc->uf[u].user); pend_rm[u] = 1; }
        else { mc_note("%s fcrontab %d of %s installed\n", hhmm(V.now_us / 1000000), v, sc->uf[u].user); if (pend_rm[u]) { char p[100]; snprintf(p, 100, SPOOL "/rm.%s", sc->uf[u].user); vos_rmfile(p); pend_rm[u] = 0; } eng_put_new(sc->uf[u].user, &bins[u][v]); pend_new[u] = v + 1; }
        vos_raise(SIGHUP); sig_hup_ = 1; ret = -1; break; }
    case M_U: rare_left--; adv(mv_arg ? t_us : 1000); mc_note("%s SIGUSR1\n", hhmm(V.now_us / 1000000)); vos_raise(SIGUSR1); sig_usr1_ = 1; ret = -1; break;
    case M_R: rare_left--; adv(1000); mc_note("%s SIGTERM\n", hhmm(V.now_us / 1000000)); reboot_next = mv_arg & 1; phase = 1; vos_raise(SIGTERM); ret = -1; break;
    case M_K: rare_left--; mc_note("%s the daemon is killed\n", hhmm(V.now_us / 1000000)); phase = 2; eng_kill(); break;
    case M_L: loadi = mv_arg; memcpy(V.load, sc->load[loadi], sizeof V.load); mc_note("  load is now %g %g %g\n", V.load[0], V.load[1], V.load[2]); chained = load_done = 1; goto again;
    case M_F: rare_left--; fail_fork = 1; mc_note("  the next fork fails\n"); chained = 1; goto again;
    case M_P: rare_left--; fail_pipe = 1; mc_note("  the next pipe fails\n"); chained = 1; goto again;
    case M_S: {
        long d = sc->sus[mv_arg / 2]; rare_left--; int64_t part = t_us / 2; if (part > 10000000) part = 10000000;
        adv(part); V.now_us += d * 1000000LL + 300000; V.boot_us += d * 1000000LL + 300000; asleep_us += d * 1000000LL + 300000;
        if (mv_arg & 1) { mc_note("%s resumed after %ld s, notified\n", hhmm(V.now_us / 1000000), d); V.timer_fd_fired = 1; for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == VF_TIMER) { FD_SET(f, r); ret = 1; } notified = 1; }
        else { adv(t_us - part); mc_note("%s resumed after %ld s, not notified, timer elapsed\n", hhmm(V.now_us / 1000000), d); }
        break; }
    }
    if ((sc->moves & M_MULTI) && (mv_type == M_X || mv_type == M_E) && moves_left > 0) { chained = 1; goto again; }
    if (mv_type == 0 || ret < 0) { errno = EINTR; ret = -1; }
    else if (sig_hup_ || sig_chld_) { /* the signals came before the timer elapsed: the daemon wakes for them at that time */ ret = ret ? ret : 0; }
    (void)nfds;
    return ret;
}
static int at_wait(int opt)
{
    int l[64], n = 0; (void)opt; for (int i = 0; i < V.nproc; i++) if (V.proc[i].state == 1) l[n++] = V.proc[i].pid;
    if (!n) return -ECHILD;
    int k = 0; for (int i = 1; i < n; i++) if (l[i] < l[k]) k = i;
    if (n > 1 && waits++ == 0) { int c = mc_choose(n > 2 ? 3 : n, "which job ends first"); if (c) k = (k + c) % n; }
    mc_note("    (waiting) a job ends\n");
    return l[k];
}
static double *load_(void) { return V.load; }

static void body(void *a)
{
    sc = a; if (sc->moves & M_D) { vos_users = dyn_users; vos_nusers = sizeof dyn_users / sizeof *dyn_users; } eng_init(); vos_set_time(sc->start); V.now_us += 500000;
    nml = nsq = nlq = nrq = 0; memset(ml, 0, sizeof ml); memset(sv, 0, sizeof sv); memset(installed, 0, sizeof installed); memset(pend_new, 0, sizeof pend_new); memset(pend_rm, 0, sizeof pend_rm);
    iter = srun = lrun = 0; eo_base = 0; loadi = 0; V.load_n = 3; memcpy(V.load, sc->load[0], sizeof V.load); notified = 0; asleep_us = 0; sig_hup_ = sig_usr1_ = sig_chld_ = 0;
    moves_left = mc_thorough && sc->tdepth ? sc->tdepth : sc->depth; rare_left = sc->rare ? sc->rare : 1; if (mc_thorough) rare_left++; dyn_left = sc->moves & M_DQ ? 0 : mc_thorough ? 3 : 2;
    mc_note("scenario %s, starting at %s\n", sc->name, hhmm(sc->start));
    for (int u = 0; u < sc->nuf; u++) for (int v = 0; v < sc->uf[u].nver; v++) {
        char t[4000] = ""; if (sc->uf[u].ver[v][0].tz) sprintf(t, "!tzdiff(%d)\n", sc->uf[u].ver[v][0].tz); for (int i = 0; i < sc->uf[u].nl[v]; i++) line_text(t + strlen(t), &sc->uf[u].ver[v][i]);
        bins[u][v] = eng_compile(sc->uf[u].user, t);
        mc_note("fcrontab %d of %s:\n%s", v, sc->uf[u].user, t);
    }
    for (int u = 0; u < sc->nuf; u++) { eng_put_new(sc->uf[u].user, &bins[u][0]); pend_new[u] = 1; }
    neo = 0; vos_select_hook = at_select; vos_wait_hook = at_wait;
    static char a1[16], a2[16], a3[16], a4[16]; snprintf(a1, 16, "%d", sc->fs); snprintf(a2, 16, "%d", sc->maxs); snprintf(a3, 16, "%d", sc->qlen); snprintf(a4, 16, "%ld", sc->save);
    static char *av[] = { "fcron", "-f", "-y", "-l", a1, "-m", a2, "-q", a3, "-s", a4, NULL };
    if (sc->noboot0) vos_put("/var/run/fcron.reboot", "", 0, 0, 0, 0600);
    for (;;) {
        system_boot = vos_lookup("/var/run/fcron.reboot") < 0; first_rest = 1; phase = 0; dyn_start();
        mc_note("%s fcron starts%s\n", hhmm(V.now_us / 1000000), system_boot ? " (system boot)" : "");
        int rc = eng_daemon(av);
        if (phase == 0) { BAD("daemon-exit", "the daemon ended by itself with status %d", rc); mc_done(); }
        mnow = V.now_us / 1000000;
        if (phase == 1) {
            if (rc != 0) BAD("daemon-exit", "the daemon ended with status %d", rc);
            /* jobs that were running have ended; the queued ones are still to be run */
            iter++; for (int k = 0; k < nrq; k++) if (rq[k].l >= 0) { if (rq[k].slot == 1) srun--; if (rq[k].slot == 2) lrun--; ml[rq[k].l].numexe--; }
            m_save_all(); m_no_more_events();
            if (vos_lookup("/var/run/fcron.pid") >= 0) BAD("pidfile-left", "the pid file is left after a clean stop");
        }
        for (int i = 0; i < V.nproc; i++) V.proc[i].state = 3;
        for (int u = 0; u < sc->nuf; u++) installed[u] = 0;
        nsq = nlq = nrq = srun = lrun = 0; for (int i = 0; i < nml; i++) ml[i].used = 0; neo = eo_base = 0; fail_fork = fail_pipe = 0; notified = 0; asleep_us = 0; sig_hup_ = sig_usr1_ = sig_chld_ = 0; nml = 0;
        long d = phase == 1 ? sc->down[mv_arg / 2] : 7; adv(d * 1000000LL); V.mono_us = V.boot_us = V.now_us;
        if (phase == 1 && reboot_next) vos_rmfile("/var/run/fcron.reboot");
        mc_note("    down for %ld s%s\n", d, phase == 1 && reboot_next ? ", reboot" : "");
    }
}

#include "engine_scenarios.h"

int harness_main(void)
{
    int ran = 0;
    for (unsigned i = 0; i < sizeof scenarios / sizeof *scenarios; i++) {
        char p[32]; snprintf(p, sizeof p, " %s ", mc_arg); char q[200]; snprintf(q, sizeof q, " %s ", scenarios[i].props);
        if (!strstr(q, p) && strcmp(mc_arg, scenarios[i].name)) continue;
        ran++; mc_count("scenarios", 1); memset(bins, 0, sizeof bins); mc_explore(body, &scenarios[i]);
    }
    return ran ? 0 : 2;
}
