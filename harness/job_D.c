/* C30-C33: what a job and its mailer get.  The real fcrontab installs a text, the real daemon
 * loads it and starts the job; the daemon's child, the grand child that becomes the job and (for
 * each outcome of the job) the child that mails its output are executed up to their exec() or
 * exit(), each in a process of its own, and everything they have then is reported. */
#include "tab.h"
#include <sys/wait.h>
#include <langinfo.h>

#define REC 65536
typedef struct { char kind;                       /* S the job, M the mailer, E ended without exec */
                 int var, code; uid_t u[3]; gid_t g[3]; int ng; gid_t groups[16]; int nice, umask, nargs, nenv; char cwd[200], path[200], fds[400], sigs[200], flt[60];
                 size_t inlen, inoff, piped; pid_t pidv; char *args[40], *env[200], *in; char *log; int nlog; } rec;
static rec R[100]; static int nR;
typedef struct { const char *out; size_t outlen; int status; } outcome;
static outcome *outc; static int noutc;
static int bgmode, ndaemonfork, is_ctl, ctl_var, grand, par_pipe, nclients, sent; static char jlog[8192]; static int njlog, jfork_failed;
static int ffork_at, (*child_fault)(const char *, const char *);
static pid_t jobpid;

static char fltname[60];
static void wr(const void *p, size_t n) { const char *c = p; while (n) { ssize_t k = write(rep_fd, c, n); if (k <= 0) _exit(1); c += k; n -= k; } }
static void wstr(const char *s, size_t n) { wr(&n, sizeof n); wr(s, n); }
static void report(char kind, int code, const char *path, char **av, char **env)
{
    rec r; memset(&r, 0, sizeof r); r.kind = kind; r.var = is_ctl ? ctl_var : -1; r.code = code; r.u[0] = V.ruid; r.u[1] = V.euid; r.u[2] = V.suid; r.g[0] = V.rgid; r.g[1] = V.egid; r.g[2] = V.sgid;
    r.ng = V.ngroups; memcpy(r.groups, V.groups, sizeof r.groups); r.nice = V.nice_; r.umask = V.umask_; snprintf(r.cwd, 200, "%s", V.cwd); if (path) snprintf(r.path, 200, "%s", path);
    int n = 0; for (int i = 0; i < VOS_MAXFD && n < 360; i++) { vfd *f = &V.fd[i]; if (!f->kind || f->cloexec) continue; static const char *kn[] = { "", "file", "pipe-r", "pipe-w", "listen", "client", "timer", "null", "std", "dir" };
        n += sprintf(r.fds + n, "%d:%s%s ", i, kn[f->kind], f->kind == VF_PIPE_W && f->obj != par_pipe ? "(out)" : f->kind == VF_FILE ? "" : ""); }
    n = 0; for (int s = 1; s < 65; s++) if (V.handler[s] == SIG_IGN && n < 150) n += sprintf(r.sigs + n, "ign%d ", s); if (V.sigmask) n += sprintf(r.sigs + n, "mask%lx ", (unsigned long)V.sigmask); if (V.sigpending && kind != 'E') n += sprintf(r.sigs + n, "pend%lx ", (unsigned long)V.sigpending);
    for (; av && av[r.nargs] && r.nargs < 39; r.nargs++) ; for (; env && env[r.nenv] && r.nenv < 199; r.nenv++) ;
    const char *in = ""; if (kind == 'M' && V.fd[0].kind == VF_FILE) { vinode *v = &V.ino[V.fd[0].ino]; in = (char *)v->data; r.inlen = v->len; r.inoff = V.fd[0].off; }
    r.piped = V.pipe[par_pipe].len; if (r.piped >= sizeof r.pidv) memcpy(&r.pidv, V.pipe[par_pipe].buf, sizeof r.pidv);
    r.nlog = njlog; snprintf(r.flt, sizeof r.flt, "%s", fltname); wr(&r, sizeof r); for (int i = 0; i < r.nargs; i++) wstr(av[i], strlen(av[i])); for (int i = 0; i < r.nenv; i++) wstr(env[i], strlen(env[i])); wstr(in, r.inlen); wstr(jlog, njlog);
    _exit(0);
}
static void jexec(const char *path, char **av, char **env)
{
    if (!in_child) { eng_exec(path, av, env); return; }
    report(strstr(path, "sendmail") ? 'M' : 'S', 0, path, av, env);
}
static void jexit(int c) { if (!in_child) { eng_exit(c); return; } fflush(vos_stdout); fflush(vos_stderr); report('E', c, NULL, NULL, NULL); }
static void jloghook(int lev, const char *m) { if (in_child && njlog < 7000) njlog += snprintf(jlog + njlog, sizeof jlog - njlog, "%d %.300s\n", lev, m); }
static char *rstr(const char **p, const char *end, size_t *len) { size_t n; if (*p + sizeof n > end) return strdup(""); memcpy(&n, *p, sizeof n); *p += sizeof n; if (n > (size_t)(end - *p)) n = end - *p; char *s = malloc(n + 1); memcpy(s, *p, n); s[n] = 0; *p += n; if (len) *len = n; return s; }
static void free_R(void) { for (int i = 0; i < nR; i++) { for (int k = 0; k < R[i].nargs; k++) free(R[i].args[k]); for (int k = 0; k < R[i].nenv; k++) free(R[i].env[k]); free(R[i].in); free(R[i].log); } nR = 0; }
static int jfaulthook(const char *c, const char *p) { if (in_child && child_fault) return child_fault(c, p); return 0; }
static int jobpid_st;
static int jwait(int o) { (void)o; vos_exit_proc(jobpid, jobpid_st); return jobpid; }
static int jfork(void)
{
    if (in_tab) { int p = vos_new_pid(-2); vos_exit_proc(p, 0); return p; }
    if (!in_child && bgmode && !ndaemonfork++) return 0;
    if (in_child) {
        int pipe = V.last_pipe != par_pipe ? V.last_pipe : -1; pid_t kid = 777001;
        for (int v = 0; v < noutc; v++) {
            fflush(NULL); pid_t p = fork(); if (p < 0) { perror("fork"); abort(); }
            if (!p) { is_ctl = 1; ctl_var = v; memset(V.proc, 0, sizeof V.proc); V.nproc = 0; V.next_pid = kid; int q = vos_new_pid(-3); jobpid = q; jobpid_st = outc[v].status; vos_wait_hook = jwait;        /* (it still runs when its output ends) */
                if (pipe >= 0) vos_pipe_put(pipe, outc[v].out, outc[v].outlen); return q; }
            int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { rec r; memset(&r, 0, sizeof r); r.kind = 'C'; r.var = v; r.code = st; wr(&r, sizeof r); wstr("", 0); wstr("", 0); }
        }
        grand = 1; is_ctl = 0; return 0;
    }
    int fd[2]; if (pipe(fd)) { perror("pipe"); abort(); } par_pipe = V.last_pipe; fflush(NULL);
    pid_t p = fork(); if (p < 0) { perror("fork"); abort(); }
    if (!p) { mc_subprocess(); close(fd[0]); rep_fd = fd[1]; in_child = 1; njlog = 0; fltname[0] = 0; vos_point_hook = NULL; return 0; }
    close(fd[1]); static char *b; static size_t cap; size_t n = 0; if (!b) b = malloc(cap = 1 << 20);
    for (;;) { if (n + 65536 > cap) b = realloc(b, cap *= 2); ssize_t k = read(fd[0], b + n, 65536); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; n += k; }
    close(fd[0]); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    free_R(); const char *q = b, *end = b + n;
    while (q + sizeof(rec) <= end && nR < 100) { rec *r = &R[nR++]; memcpy(r, q, sizeof *r); q += sizeof *r; for (int i = 0; i < r->nargs; i++) r->args[i] = rstr(&q, end, NULL); for (int i = 0; i < r->nenv; i++) r->env[i] = rstr(&q, end, NULL); r->in = rstr(&q, end, NULL); r->log = rstr(&q, end, NULL); }
    if ((!WIFEXITED(st) || WEXITSTATUS(st)) && nR < 100) { rec *r = &R[nR++]; memset(r, 0, sizeof *r); r->kind = 'C'; r->var = -1; r->code = st; r->in = strdup(""); r->log = strdup(""); }
    int ctl = vos_new_pid(1), job = ctl + 500000; for (int i = 0; i < nR; i++) if (R[i].kind == 'S') { vos_pipe_put(par_pipe, &job, sizeof job); break; }
    sent = 1; return ctl;
}
static int jsteps, jsock[4];
static int jselect(int nfds, fd_set *r, struct timeval *tv)
{
    (void)nfds; if (sent || ++jsteps > 60) eng_kill();
    if (nclients && jsteps == 1 && FD_ISSET(0, r) == 0) {
        int l = -1; for (int i = 0; i < VOS_MAXFD; i++) if (V.fd[i].kind == VF_LISTEN) l = i;
        if (l >= 0) { for (int i = 0; i < nclients; i++) jsock[i] = vos_client_connect(1001); FD_ZERO(r); FD_SET(l, r); return 1; }
    }
    if (nclients > 1 && jsteps == 2) { int l = -1; for (int i = 0; i < VOS_MAXFD; i++) if (V.fd[i].kind == VF_LISTEN) l = i; if (l >= 0) { FD_ZERO(r); FD_SET(l, r); return 1; } }
    FD_ZERO(r); int64_t us = (int64_t)tv->tv_sec * 1000000 + tv->tv_usec; if (us < 5000) us = 5000; V.now_us += us; V.mono_us += us; V.boot_us += us; return 0;
}
static void jsetup(void)
{
    eng_init(); setenv("LC_ALL", "C", 1); vos_set_time(1706000000); vos_fork_hook = jfork; vos_exec_hook = jexec; vos_exit_hook = jexit; vos_log_hook = jloghook; vos_fault_hook = jfaulthook; vos_select_hook = jselect;
    vos_mkdirp("/bin", 0, 0, 0755); vos_put("/bin/sh", "", 0, 0, 0, 0755); vos_put("/bin/bash", "", 0, 0, 0, 0755); vos_put("/bin/zsh", "", 0, 0, 0, 0755); vos_put("/bin/ash", "", 0, 0, 0, 0755); vos_put("/bin/bsh", "", 0, 0, 0, 0755); vos_put("/bin/noexec", "", 0, 0, 0, 0644);
    vos_mkdirp("/srv/work", 1001, 1001, 0755); vos_put("/var/run/fcron.reboot", "", 0, 0, 0, 0600);
}
/* start the daemon, up to the start of a job */
static int start_job(int bg, int clients)
{
    bgmode = bg; nclients = clients; ndaemonfork = jsteps = sent = 0; free_R(); static char *fg_[] = { "fcron", "-f", "-s", "2000", NULL }, *bg_[] = { "fcron", "-b", "-s", "2000", NULL };
    mc_arm(); V.nice_ = 0; memset(V.proc, 0, sizeof V.proc); V.nproc = 0; return eng_daemon(bg ? bg_ : fg_);
}
static rec *find_rec(char kind, int var) { for (int i = 0; i < nR; i++) if (R[i].kind == kind && R[i].var == var) return &R[i]; return NULL; }
#include "job_props.h"
int harness_main(void) { return job_props(); }
