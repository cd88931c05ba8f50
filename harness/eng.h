/* Runs the real fcron daemon (D_main) and fcrontab (T_main) inside the virtual
 * OS.  Included by the harnesses whose name ends in _D.c.
 *
 *  - fcrontabs are installed by running the real fcrontab on their text;
 *  - each job start is observed from outside: the child side of the daemon's
 *    fork() is really executed, in a throw-away process, up to its exec();
 *  - the daemon is stopped and started afresh any number of times. */
#include "vos.h"
#include "mc.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <getopt.h>
#include <fcntl.h>

extern int T_main(int, char **);
extern FILE *vos_stdout, *vos_stderr;
extern char __start_sdata_D[], __stop_sdata_D[], __start_sbss_D[], __stop_sbss_D[];
extern char __start_sdata_T[], __stop_sdata_T[], __start_sbss_T[], __stop_sbss_T[];
#define SPOOL "/var/spool/fcron"

typedef struct { char type; /* 'S' job, 'M' mail, 'X' fork failed, 'E' child ended without exec */
                 char cmd[120]; int ctrl, job; uid_t uid; char mail[600]; int used; } eobs;
#define MAXOBS 400
static eobs eo[MAXOBS]; static int neo;
static mc_seg seg[4];
static jmp_buf exit_jb; static volatile int exit_code;
static int in_child, rep_fd, child_level, in_tab;
static int fail_fork, fail_pipe;          /* fail the next n calls */
static int eng_verbose_children;
static const char *tab_stdin; static int tab_stdinlen; static void (*tab_fork)(void);

static void eng_report(char type, const char *cmd, const char *mail)
{
    struct { char type; char cmd[120]; uid_t uid; char mail[600]; } r; memset(&r, 0, sizeof r);
    r.type = type; snprintf(r.cmd, sizeof r.cmd, "%s", cmd ? cmd : ""); r.uid = V.euid; if (mail) snprintf(r.mail, sizeof r.mail, "%s", mail);
    if (write(rep_fd, &r, sizeof r) < 0) {} _exit(0);
}
static void eng_exit(int c)
{
    if (in_child) eng_report('E', "", NULL);
    exit_code = c; longjmp(exit_jb, 1);
}
static void eng_exec(const char *path, char **argv, char **envp)
{
    (void)envp;
    if (!in_child) { exit_code = 0; longjmp(exit_jb, 1); }
    if (strstr(path, "sendmail")) {
        char b[600]; b[0] = 0; if (V.fd[0].kind == VF_FILE) { vinode *n = &V.ino[V.fd[0].ino]; size_t l = n->len < 599 ? n->len : 599; memcpy(b, n->data, l); b[l] = 0; }
        eng_report('M', argv[1] && argv[2] ? argv[2] : "", b);
    }
    eng_report('S', argv[0] && argv[1] && argv[2] ? argv[2] : "(no command)", NULL);
}
static int eng_fork(void)
{
    if (in_child) return 0;
    if (in_tab) { if (tab_fork) tab_fork(); int p = vos_new_pid(-2); vos_exit_proc(p, 0); return p; }
    eobs *o = &eo[neo < MAXOBS - 1 ? neo++ : neo]; memset(o, 0, sizeof *o);
    if (fail_fork > 0) { fail_fork--; o->type = 'X'; errno = EAGAIN; return -1; }
    int fd[2]; if (pipe(fd)) { perror("pipe"); abort(); }
    int lp = V.last_pipe; fflush(NULL);
    pid_t p = fork(); if (p < 0) { perror("fork"); abort(); }
    if (p == 0) { mc_subprocess(); close(fd[0]); rep_fd = fd[1]; in_child = 1; vos_point_hook = NULL; return 0; }
    close(fd[1]);
    struct { char type; char cmd[120]; uid_t uid; char mail[600]; } r; memset(&r, 0, sizeof r);
    ssize_t n; while ((n = read(fd[0], &r, sizeof r)) < 0 && errno == EINTR) ;
    close(fd[0]); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (n != sizeof r) { r.type = 'E'; snprintf(r.cmd, sizeof r.cmd, "child status %d", st); }
    o->type = r.type; snprintf(o->cmd, sizeof o->cmd, "%s", r.cmd); o->uid = r.uid; memcpy(o->mail, r.mail, sizeof o->mail);
    o->ctrl = vos_new_pid(r.type == 'S' ? 1 : 2); o->job = o->ctrl + 500000;
    if (r.type == 'S') vos_pipe_put(lp, &o->job, sizeof o->job);
    return o->ctrl;
}
static int eng_fault(const char *call, const char *path)
{
    (void)path;
    if (!in_child && fail_pipe > 0 && !strcmp(call, "pipe")) { fail_pipe--; return EMFILE; }
    return 0;
}
/* what fcrontab prints, and what it is told on its standard input */
static char tab_out[65536]; static int tab_outlen; static char *tab_err; static int tab_errlen, tab_errcap;
static ssize_t eng_stdout(int fd, const void *b, size_t n)
{
    if (!in_tab) return n;
    if (fd == 1) { size_t k = n; if (tab_outlen + k > sizeof tab_out - 1) k = sizeof tab_out - 1 - tab_outlen; memcpy(tab_out + tab_outlen, b, k); tab_out[tab_outlen += k] = 0; return n; }
    if (tab_errlen + (int)n + 1 > tab_errcap) tab_err = realloc(tab_err, tab_errcap = (tab_errlen + n + 1) * 2);
    memcpy(tab_err + tab_errlen, b, n); tab_err[tab_errlen += n] = 0; return n;
}

static void eng_init(void)
{
    vos_init(); V.last_pipe = 0;
    vos_mkdirp(SPOOL, 200, 200, 0770);
    for (int i = 0; i < vos_nusers; i++) vos_mkdirp(vos_users[i].home, vos_users[i].uid, vos_users[i].gid, 0755);
    if (!seg[0].copy) { mc_seg_save(&seg[0], __start_sdata_D, __stop_sdata_D); mc_seg_save(&seg[1], __start_sbss_D, __stop_sbss_D);
        mc_seg_save(&seg[2], __start_sdata_T, __stop_sdata_T); mc_seg_save(&seg[3], __start_sbss_T, __stop_sbss_T); }
    vos_fork_hook = eng_fork; vos_exec_hook = eng_exec; vos_exit_hook = eng_exit; vos_fault_hook = eng_fault; vos_stdout_hook = eng_stdout;
    setenv("TZ", "UTC", 1); tzset(); unsetenv("PATH_ORIG");
    neo = 0; fail_fork = fail_pipe = 0;
}
static void creds(uid_t r, uid_t e, gid_t rg, gid_t eg)
{ V.ruid = r; V.euid = V.suid = e; V.rgid = rg; V.egid = V.sgid = eg; V.ngroups = 0; }

/* run the real fcrontab as the given user: returns its exit code */
static int eng_fcrontab(uid_t ruid, gid_t rgid, ...)
{
    static char *av[16]; int n = 0; va_list ap; va_start(ap, rgid); av[n++] = "fcrontab"; char *x; while ((x = va_arg(ap, char *)) && n < 15) av[n++] = x; av[n] = NULL; va_end(ap);
    mc_seg_restore(&seg[2]); mc_seg_restore(&seg[3]); vos_reset_fds(); strcpy(V.cwd, "/"); V.umask_ = 022; optind = 0; setenv("TZ", "UTC", 1);
    creds(ruid, 200, rgid, 200); in_tab = 1; tab_outlen = tab_errlen = 0; tab_out[0] = 0; if (tab_err) tab_err[0] = 0;
    if (tab_stdin) { int i = vos_put("/dev/stdin", tab_stdin, tab_stdinlen, 0, 0, 0600); V.fd[0].kind = VF_FILE; V.fd[0].ino = i; V.fd[0].off = 0; V.fd[0].flags = O_RDONLY; }
    static int narg; narg = n;
    if (!setjmp(exit_jb)) { exit_code = T_main(narg, av); }
    fflush(vos_stdout); fflush(vos_stderr); in_tab = 0; creds(0, 0, 0, 0); vos_reset_fds(); strcpy(V.cwd, "/"); V.sigmask = V.sigpending = 0; memset(V.handler, 0, sizeof V.handler);
    return exit_code;
}
/* install a text for a user, as root; the result is new.<user> in the spool */
static int eng_install(const char *user, const char *text)
{
    vos_put("/tmp/tab", text, strlen(text), 0, 0, 0644);
    int rc = eng_fcrontab(0, 0, "-u", user, "/tmp/tab", NULL);
    vos_rmfile("/tmp/tab");
    return rc;
}
/* compile a text to the binary file fcrontab makes of it, leaving the spool as it was */
typedef struct { unsigned char *data; size_t len; uid_t uid; gid_t gid; mode_t mode; } ebin;
static ebin eng_compile(const char *user, const char *text)
{
    ebin b = {0}; char p[128]; int rc = eng_install(user, text);
    snprintf(p, sizeof p, SPOOL "/new.%s", user); vinode *n = vos_file(p);
    if (!n) { fprintf(stderr, "fcrontab rejected (rc %d):\n%s\n", rc, text); abort(); }
    b.data = malloc(n->len); memcpy(b.data, n->data, n->len); b.len = n->len; b.uid = n->uid; b.gid = n->gid; b.mode = n->mode & 07777;
    vos_rmfile(p); snprintf(p, sizeof p, SPOOL "/%s.orig", user); vos_rmfile(p);
    return b;
}
static void eng_put_new(const char *user, ebin *b) { char p[128]; snprintf(p, sizeof p, SPOOL "/new.%s", user); vos_put(p, b->data, b->len, b->uid, b->gid, b->mode); }
static void eng_put_rm(const char *user) { char p[128]; snprintf(p, sizeof p, SPOOL "/rm.%s", user); vos_put(p, "", 0, 200, 200, 0600); }

/* start the daemon; returns its exit code, or -9 after eng_kill() */
static int eng_daemon(char **argv)
{
    static char **av; static int ac; av = argv; for (ac = 0; av[ac]; ac++) ;
    mc_seg_restore(&seg[0]); mc_seg_restore(&seg[1]); vos_reset_fds(); strcpy(V.cwd, "/"); V.umask_ = 022; optind = 0; setenv("TZ", "UTC", 1); tzset();
    creds(0, 0, 0, 0); V.sigmask = V.sigpending = 0; memset(V.handler, 0, sizeof V.handler);
    for (int i = 0; i < 32; i++) V.sock[i].used = 0;
    if (!setjmp(exit_jb)) exit_code = DAEMON_MAIN(ac, av);
    return exit_code;
}
static void eng_kill(void) { exit_code = -9; longjmp(exit_jb, 1); }
