/* Spool files: what is on the virtual disk, and what the daemon makes of it at its next start. */
#include "tab.h"
#include <ctype.h>

/* ---------------------------------------------------------------- everything the daemon knows about a user's fcrontab, as a text */
static char *dsig; static size_t dlen, dcap;
static void dput(const char *f, ...) { va_list ap; for (;;) { va_start(ap, f); int n = vsnprintf(dsig + dlen, dcap - dlen, f, ap); va_end(ap); if (dlen + n + 1 < dcap) { dlen += n; return; } dsig = realloc(dsig, dcap = (dlen + n + 64) * 2); } }
#define DS_DYN 1      /* with the dates and states that change as jobs run */
#define DS_ORDER 2    /* lines in the order they have in the file */
static int cmpstr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static char *conf_sig(const char *user, int how)
{
    cf_t *f; int nf = 0; static char *l[4000]; int n = 0; if (!dsig) dsig = malloc(dcap = 4096);
    for (f = file_base; f; f = f->cf_next) nf += !strcmp(f->cf_user, user);
    if (!nf) return strdup("(none)");
    if (nf > 1) return strdup("(several fcrontabs)");
    for (f = file_base; strcmp(f->cf_user, user); f = f->cf_next) ;
    for (cl_t *c = f->cf_line_base; c && n < 3000; c = c->cl_next) {
        SP s; sp_of(c, &s); dlen = 0; dput("%s cmd=<%s> to=<%s> from=<%s> zone=<%s> as=<%s>", sp_str(&s), s.cmd ? s.cmd : "", c->cl_mailto ? c->cl_mailto : "", c->cl_mailfrom ? c->cl_mailfrom : "", c->cl_tz ? c->cl_tz : "", c->cl_runas ? c->cl_runas : ""); free(s.cmd);
        unsigned char o[OPTION_SIZE]; memcpy(o, c->cl_option, OPTION_SIZE); if (!(how & DS_DYN)) clear_hasrun(o);
        dput(" raw="); for (int i = 0; i < OPTION_SIZE; i++) dput("%02x", o[i]);
        if (how & DS_DYN) dput(" next=%ld remain=%d", (long)c->cl_nextexe, c->cl_remain);
        l[n++] = strdup(dsig);
    }
    if (!(how & DS_ORDER)) qsort(l, n, sizeof *l, cmpstr);
    int ne = n; if (f->cf_env_list) for (env_t *e = env_list_first(f->cf_env_list); e && n < 3990; e = env_list_next(f->cf_env_list)) { dlen = 0; dput("env <%s>", e->e_envvar); l[n++] = strdup(dsig); }
    qsort(l + ne, n - ne, sizeof *l, cmpstr);
    dlen = 0; dput("tzdiff=%d\n", f->cf_tzdiff); for (int i = 0; i < n; i++) { dput("%s\n", l[i]); free(l[i]); }
    return strdup(dsig);
}
/* the commands of the jobs in the schedule, in the order they are due */
static char *queue_sig(void)
{
    if (!dsig) dsig = malloc(dcap = 4096);
    dlen = 0; dput("%s", ""); for (job_t *j = queue_base; j; j = j->j_next) dput("%s ", j->j_line->cl_shell ? j->j_line->cl_shell : "?"); return strdup(dsig);
}

/* ---------------------------------------------------------------- the daemon, driven by a script: one character for each time it waits */
static const char *dscr; static int dpos; static void (*dcall)(int c); static char *dgot[8]; static int ndgot; static const char *duser; static int dhow; static int derrors; static long dsteps;
static int dselect(int nfds, fd_set *r, struct timeval *tv)
{
    (void)nfds; FD_ZERO(r); dsteps++;
    if (neo) { int any = 0; for (int i = 0; i < neo; i++) if (vos_proc(eo[i].ctrl)) { vos_exit_proc(eo[i].ctrl, 0); any = 1; } neo = 0; if (any) { vos_raise(SIGCHLD); errno = EINTR; return -1; } }
    for (;;) {
        char c = dscr[dpos]; if (c) dpos++;
        switch (c) {
        case 'h': vos_raise(SIGHUP); errno = EINTR; return -1;
        case 'u': vos_raise(SIGUSR1); errno = EINTR; return -1;
        case 't': vos_raise(SIGTERM); errno = EINTR; return -1;
        case 'w': { int64_t us = (int64_t)tv->tv_sec * 1000000 + tv->tv_usec; V.now_us += us; V.mono_us += us; V.boot_us += us; return 0; }
        case 's': if (ndgot < 8) dgot[ndgot++] = conf_sig(duser, dhow); break;
        case 0: eng_kill();
        default: if (dcall) dcall(c); break;
        }
    }
}
static void dlog(int lev, const char *m) { if (lev <= 4 && !in_child) { derrors++; } (void)m; }
static int drun(const char *script)
{
    static char *av[] = { "fcron", "-f", "-s", "2000", NULL };
    mc_arm(); dscr = script; dpos = 0; ndgot = 0; neo = 0; vos_select_hook = dselect; return eng_daemon(av);
}
static void dgot_free(void) { for (int i = 0; i < ndgot; i++) free(dgot[i]); ndgot = 0; }
/* what a daemon starting now makes of the disk */
static char *load_sig(const char *user, int how) { duser = user; dhow = how; drun("s"); char *r = ndgot ? dgot[0] : strdup("(daemon did not start)"); ndgot = 0; return r; }
