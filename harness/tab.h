/* Texts of fcrontabs: what the daemon makes of them.
 * load() gives a text to the real fcrontab, starts the real daemon on the result and
 * returns the jobs, variables and settings the daemon then has, in the terms of fcrontab(5). */
#include "config.h"
#include "fcron.h"
#include "conf.h"
#include "database.h"
#undef debug
#undef error
#undef warn
#undef die
#define DAEMON_MAIN main
int main(int, char **);
#include "eng.h"

enum { B_serial, B_serialonce, B_lavgonce, B_exesev, B_bootrun, B_rebootreset, B_runatreboot, B_runatresume, B_runonce, B_strict, B_noticenotrun, B_lavgor,
       B_mail, B_forcemail, B_erroronlymail, B_dayor, B_nolog, B_volatile, B_stdout, B_random, NB };
static const char *bname[NB] = { "serial", "serialonce", "lavgonce", "exesev", "bootrun", "rebootreset", "runatreboot", "runatresume", "runonce", "strict", "noticenotrun", "lavgor",
       "mail", "forcemail", "erroronlymail", "dayor", "nolog", "volatile", "stdout", "random" };
typedef struct {
    char type;                        /* & @ % */
    uint64_t mins; uint32_t hrs, days, mons, dow;    /* day of month 1-31, month 1-12, day of week 0-6 */
    char per[16];                     /* the keyword of a %-line */
    long freq, first; int runfreq;
    char b[NB]; int lavg[3]; long until; int nice, jitter;
    char mailto[80], mailfrom[80], runas[40], tz[40], *cmd;
} SP;
#define ALLM ((1ULL << 60) - 1)
#define ALLH ((1U << 24) - 1)
#define ALLD 0xfffffffeU
#define ALLMO 0x1ffeU
#define ALLW 0x7fU
static SP sp_default(const char *user)
{
    SP s; memset(&s, 0, sizeof s); s.b[B_mail] = s.b[B_strict] = s.b[B_lavgonce] = 1;   /* serialonce: false in this configuration */
    snprintf(s.mailto, sizeof s.mailto, "%s", user); snprintf(s.runas, sizeof s.runas, "%s", user); s.first = -1; return s;
}
static char *sp_str(const SP *s)
{
    static char buf[4][2400]; static int k; char *o = buf[k++ & 3]; size_t z = sizeof buf[0]; int n = 0;
    n += snprintf(o + n, z - n, "%c ", s->type);
    if (s->type == '@') n += snprintf(o + n, z - n, "freq=%ld first=%ld ", s->freq, s->first == -1 ? s->freq : s->first);
    else {
        if (s->type == '%') n += snprintf(o + n, z - n, "%s ", s->per); else n += snprintf(o + n, z - n, "runfreq=%d ", s->runfreq);
        n += snprintf(o + n, z - n, "min=%llx h=%x d=%x m=%x w=%x ", (unsigned long long)s->mins, s->hrs, s->days, s->mons, s->dow);
    }
    for (int i = 0; i < NB; i++) if (s->b[i]) n += snprintf(o + n, z - n, "%s ", bname[i]);
    n += snprintf(o + n, z - n, "lavg=%d,%d,%d until=%ld nice=%d jitter=%d mailto=%s mailfrom=%s runas=%s tz=%s", s->lavg[0], s->lavg[1], s->lavg[2], s->until, s->nice, s->jitter, s->mailto, s->mailfrom, s->runas, s->tz);
    return o;
}
static void sp_of(const cl_t *c, SP *s)
{
    unsigned char o[sizeof c->cl_option]; memcpy(o, c->cl_option, sizeof o);
    memset(s, 0, sizeof *s); s->first = -1;
    s->type = is_freq(o) ? '@' : c->cl_runfreq == 1 ? '%' : '&';
    if (s->type == '@') { s->freq = c->cl_timefreq; s->first = c->cl_first; }
    else {
        for (int i = 0; i < 60; i++) if (bit_test(c->cl_mins, i)) s->mins |= 1ULL << i;
        for (int i = 0; i < 24; i++) if (bit_test(c->cl_hrs, i)) s->hrs |= 1U << i;
        for (int i = 1; i < 32; i++) if (bit_test(c->cl_days, i)) s->days |= 1U << i;
        for (int i = 0; i < 12; i++) if (bit_test(c->cl_mons, i)) s->mons |= 2U << i;
        for (int i = 0; i < 7; i++) if (bit_test(c->cl_dow, i)) s->dow |= 1U << i;
        if (!!bit_test(c->cl_dow, 0) != !!bit_test(c->cl_dow, 7)) s->dow |= 0x8000;
        s->runfreq = s->type == '&' ? c->cl_runfreq : 0;
    }
    if (s->type == '%') {
        int mi = !!is_freq_mins(o), h = !!is_freq_hrs(o), d = !!is_freq_days(o), mo = !!is_freq_mons(o), w = !!is_freq_dow(o);
        const char *p = "?";
        if (is_freq_periodically(o)) { if (h && !mi && !d && !mo && !w) p = "hourly"; if (d && !mi && !h && !mo && !w) p = "daily"; if (mo && !mi && !h && !d && !w) p = "monthly"; if (w && !mi && !h && !d && !mo) p = "weekly"; }
        else if (!w) { if (!mi && !h && !d && !mo) p = "mins"; if (mi && !h && !d && !mo) p = "hours"; if (mi && h && !d && !mo) p = "days"; if (mi && h && d && !mo) p = "mons"; if (mi && h && d && mo) p = "dow"; }
        snprintf(s->per, sizeof s->per, "%s%s", is_freq_mid(o) ? "mid" : "", p);
    }
#define G(n, e) s->b[B_##n] = !!(e)
    G(serial, is_serial(o)); G(serialonce, !is_serial_sev(o)); G(lavgonce, !is_lavg_sev(o)); G(exesev, is_exe_sev(o)); G(bootrun, is_bootrun(o)); G(rebootreset, is_rebootreset(o));
    G(runatreboot, is_runatreboot(o)); G(runatresume, is_runatresume(o)); G(runonce, is_runonce(o)); G(strict, is_strict(o)); G(noticenotrun, is_notice_notrun(o)); G(lavgor, is_lor(o));
    G(mail, is_mail(o)); G(forcemail, is_mailzerolength(o)); G(erroronlymail, is_erroronlymail(o)); G(dayor, is_dayor(o)); G(nolog, is_nolog(o)); G(volatile, is_volatile(o)); G(stdout, is_stdout(o)); G(random, is_random(o));
    for (int i = 0; i < 3; i++) s->lavg[i] = c->cl_lavg[i];
    if (!!is_lavg(o) != (s->lavg[0] || s->lavg[1] || s->lavg[2])) s->lavg[0] += 1000;
    s->until = c->cl_until; s->nice = c->cl_nice; s->jitter = c->cl_jitter;
    snprintf(s->mailto, sizeof s->mailto, "%s", c->cl_mailto ? c->cl_mailto : "(null)"); snprintf(s->mailfrom, sizeof s->mailfrom, "%s", c->cl_mailfrom ? c->cl_mailfrom : "");
    snprintf(s->runas, sizeof s->runas, "%s", c->cl_runas ? c->cl_runas : "(null)"); snprintf(s->tz, sizeof s->tz, "%s", c->cl_tz ? c->cl_tz : "");
    s->cmd = strdup(c->cl_shell ? c->cl_shell : "(null)");
}

#define MAXJ 2200
typedef struct { int rc, installed; int nj; SP j[MAXJ]; int nenv; char *env[640]; char *lastmailto, *lastmailfrom, *lasttz; int tzdiff; int prompt; char errline[70000]; } LD;
static LD ld;
static void ld_free(void) { for (int i = 0; i < ld.nj; i++) free(ld.j[i].cmd); for (int i = 0; i < ld.nenv; i++) free(ld.env[i]); ld.nj = ld.nenv = 0; }
static char *ld_user;
static int ld_collect(int nfds, fd_set *r, struct timeval *tv)
{
    (void)nfds; (void)r; (void)tv;
    for (cf_t *f = file_base; f; f = f->cf_next) {
        if (strcmp(f->cf_user, ld_user)) continue;
        ld.installed = 1; ld.tzdiff = f->cf_tzdiff;
        for (cl_t *c = f->cf_line_base; c && ld.nj < MAXJ; c = c->cl_next) { sp_of(c, &ld.j[ld.nj++]);
            free(ld.lastmailto); free(ld.lastmailfrom); free(ld.lasttz); ld.lastmailto = strdup(c->cl_mailto ? c->cl_mailto : ""); ld.lastmailfrom = strdup(c->cl_mailfrom ? c->cl_mailfrom : ""); ld.lasttz = strdup(c->cl_tz ? c->cl_tz : ""); }
        if (f->cf_env_list) for (env_t *e = env_list_first(f->cf_env_list); e && ld.nenv < 640; e = env_list_next(f->cf_env_list)) ld.env[ld.nenv++] = strdup(e->e_envvar);
    }
    eng_kill(); return 0;
}
static void run_daemon(void)
{
    static char *av[] = { "fcron", "-f", "-y", NULL };
    vos_select_hook = ld_collect; eng_daemon(av);
}
static const char *ed_text; static int ed_len, ed_n;
static void tab_editor(void)
{
    if (ed_n++) return;                       /* the second child is fcronsighup */
    for (int i = V.nent - 1; i >= 0; i--) if (V.ent[i].used && !strncmp(V.ent[i].path, "/tmp/", 5) && strcmp(V.ent[i].path, "/tmp/tab")) {
        vinode *n = &V.ino[V.ent[i].ino]; n->data = realloc(n->data, ed_len + 64); n->cap = ed_len + 64; memcpy(n->data, ed_text, ed_len); n->len = ed_len; n->mtime = V.now_us / 1000000 + 10; return; }
    fprintf(stderr, "no file to edit\n"); abort();
}
enum { BY_FILE, BY_STDIN, BY_EDIT };
static void scan_err(const char *name)
{
    size_t l = strlen(name);
    for (char *p = tab_err; p && (p = strstr(p, name)); p += l) { int n = atoi(p + l); if (n > 0 && n < (int)sizeof ld.errline) ld.errline[n] = 1; }
}
/* user's fcrontab made from text by the user with uid ruid */
static int tab_install(const char *user, uid_t ruid, const char *text, int len, int how)
{
    char *u = ruid == 0 ? "-u" : NULL; uid_t g = ruid; int rc;
    mc_arm(); mc_ctx = text; mc_ctxlen = len; memset(ld.errline, 0, sizeof ld.errline); ld.prompt = 0; tab_stdin = NULL; tab_fork = NULL;
    if (how == BY_EDIT) {
        tab_stdin = "i\n"; tab_stdinlen = 2; ed_text = text; ed_len = len; ed_n = 0; tab_fork = tab_editor;
        rc = eng_fcrontab(ruid, g, "-e", u, user, NULL); tab_fork = NULL;
    }
    else if (how == BY_STDIN) { tab_stdin = text; tab_stdinlen = len; rc = eng_fcrontab(ruid, g, "-", u, user, NULL); }
    else { vos_put("/tmp/tab", text, len, ruid, ruid, 0644); rc = eng_fcrontab(ruid, g, "/tmp/tab", u, user, NULL); vos_rmfile("/tmp/tab"); }
    tab_stdin = NULL;
    if (tab_err) { ld.prompt = strstr(tab_err, "contains some errors") != NULL; scan_err("/tmp/tab:"); }
    return ld.rc = rc;
}
static void load(const char *user, uid_t ruid, const char *text, int len, int how)
{
    ld_free(); ld.installed = 0; ld.tzdiff = 0; ld_user = (char *)user;
    eng_init(); tab_install(user, ruid, text, len, how);
    run_daemon();
}
static SP *ld_find(const char *cmd) { for (int i = 0; i < ld.nj; i++) if (!strcmp(ld.j[i].cmd, cmd)) return &ld.j[i]; return NULL; }
static int ld_count(const char *cmd) { int k = 0; for (int i = 0; i < ld.nj; i++) k += !strcmp(ld.j[i].cmd, cmd); return k; }
