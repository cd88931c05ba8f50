/* C48: the real check_system_crontabs.sh, run by sh, on all short histories of the files it collects; every external
 * command it runs is a point where a file may change or the script may be interrupted.
 * C49: the real suspend script on all short histories of suspending and resuming.
 * The commands are this program under other names: they do what the event asks for, then run the real command. */
#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <ftw.h>
#include <glob.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>

static char S[300];                                  /* the scratch directory: everything happens below it */
static char *P(const char *n) { static char b[8][700]; static int i; char *r = b[i++ & 7]; snprintf(r, 700, "%s/%s", S, n); return r; }
static long slurp(const char *p, char *b, long max) { int f = open(p, O_RDONLY); if (f < 0) { b[0] = 0; return -1; } long n = 0, r; while (n < max - 1 && (r = read(f, b + n, max - 1 - n)) > 0) n += r; close(f); b[n] = 0; return n; }
static void spit(const char *p, const char *t, int flags) { int f = open(p, O_WRONLY | O_CREAT | flags, 0644); if (f >= 0) { if (write(f, t, strlen(t)) < 0) _exit(98); close(f); } }
static long num(const char *p) { char b[40]; slurp(p, b, sizeof b); return atol(b); }
static void setnum(const char *p, long v) { char b[40]; sprintf(b, "%ld", v); spit(p, b, O_TRUNC); }
static void stamp(const char *p, long t) { struct timeval tv[2] = { { t, 0 }, { t, 0 } }; lutimes(p, tv); }
#define CLK0 1700000000L
static long tick(void) { long t = num(P("clk")) + 10; setnum(P("clk"), t); return t; }

/* ---- C48 ---- */
static void content(char *b, long v) { sprintf(b, "# job %ld\nMAILTO=me%ld@daily.org\n@daily root job_%ld a@weekly.net\n  @hourly root job_%ld\n@yearly\tx\n@annually x\n@monthly x\n@weekly x\n@midnight x\n\n*/5 * * * * root @hourly %ld\n&bootrun 0 0 * * * last_%ld%s", v, v, v, v, v, v, v % 2 ? "\n" : ""); }
static void put(const char *n, long t) { char b[600]; long v = num(P("ver")) + 1; setnum(P("ver"), v); content(b, v); char *p = P(n); spit(p, b, O_TRUNC); stamp(p, t); }
static const char OPS[] = "cCosfFaAbBtlmdD";
static void op(char c)
{
    long t = tick(); int dir = 0;
    switch (c) {
    case 'c': { struct stat st; if (!lstat(P("C"), &st) && S_ISLNK(st.st_mode)) unlink(P("C")); put("C", t); } break;
    case 'C': unlink(P("C")); break;
    case 'o': unlink(P("C")); put("C", CLK0 - 5000); break;              /* replaced by an older file (mv, cp -p) */
    case 's': unlink(P("C")); put("target", t); if (symlink(P("target"), P("C"))) {} stamp(P("C"), t); break;
    case 'f': put("F", t); break;
    case 'F': unlink(P("F")); break;
    case 'a': dir = access(P("d/a"), F_OK); mkdir(P("d"), 0755); put("d/a", t); break;
    case 'A': dir = !unlink(P("d/a")); break;
    case 'b': dir = access(P("d/b b"), F_OK); mkdir(P("d"), 0755); put("d/b b", t); break;
    case 'B': dir = !unlink(P("d/b b")); break;
    case 't': dir = access(P("d/a~"), F_OK); mkdir(P("d"), 0755); put("d/a~", t); break;
    case 'l': mkdir(P("d"), 0755); put("target", t); dir = !symlink(P("target"), P("d/l")); break;
    case 'm': dir = !rename(P("d/a"), P("d/z")); break;
    case 'd': mkdir(P("d"), 0755); dir = !mkdir(P("d/sub"), 0755); put("d/sub/x", t); break;
    case 'D': unlink(P("d/a")); unlink(P("d/a~")); unlink(P("d/b b")); unlink(P("d/l")); unlink(P("d/z")); unlink(P("d/sub/x")); rmdir(P("d/sub")); rmdir(P("d")); break;
    }
    if (dir) stamp(P("d"), t);
}
static int sigfor(char c) { return c == 'K' ? SIGKILL : c == 'T' || c == '1' ? SIGTERM : c == 'H' ? SIGHUP : c == 'I' ? SIGINT : 0; }
/* this program under another name: one of the commands the script runs */
__attribute__((constructor)) static void stub(int argc, char **argv)
{
    const char *e = getenv("STUB48"); if (!e) return;
    snprintf(S, sizeof S, "%s", e); const char *name = strrchr(argv[0], '/'); name = name ? name + 1 : argv[0]; char b[20000];
    if (!strcmp(name, "fcrontab") && argc == 2) _exit(0);                 /* fcrontab -V */
    long k = num(P("n")) + 1; setnum(P("n"), k);
    const char *ev = getenv("EV48"); long at = atol(getenv("AT48"));
    if (k == at && ev) { if (sigfor(*ev)) { setnum(P("sig"), 1); if (*ev == '1') kill(getpgrp(), SIGTERM); else { kill(-getpgrp(), sigfor(*ev)); for (;;) pause(); } } else if (*ev != 'x') op(*ev); }
    if (!strcmp(name, "fcrontab")) {
        if (ev && *ev == 'x') _exit(1);
        const char *file = NULL, *user = NULL, *conf = NULL;
        for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "-c") && i + 1 < argc) conf = argv[++i]; else if (!strcmp(argv[i], "-u") && i + 1 < argc) user = argv[++i]; else file = argv[i];
        long n = file ? slurp(file, b, sizeof b) : -1; if (n < 0 || !user || strcmp(user, "systab") || !conf || strcmp(conf, P("conf"))) { spit(P("bad"), "x", O_TRUNC); _exit(1); }
        spit(P("spool/tmp"), b, O_TRUNC); stamp(P("spool/tmp"), tick()); rename(P("spool/tmp"), P("spool/systab.orig")); spit(P("installs"), "x", O_APPEND); _exit(0);
    }
    if (!strcmp(name, "mktemp")) { char *p = P("tmp/fcrontab.XXXXXX"); int f = mkstemp(p); if (f < 0) _exit(1); dprintf(1, "%s\n", p); _exit(0); }
    if (!strcmp(name, "logger")) { for (int i = 1; i < argc; i++) { spit(P("log"), argv[i], O_APPEND); spit(P("log"), " ", O_APPEND); } spit(P("log"), "\n", O_APPEND); _exit(0); }
    if (!strcmp(name, "sleep")) { spit(P("slept"), argc > 1 ? argv[1] : "", O_TRUNC); _exit(0); }
    if (!strcmp(name, "date")) { dprintf(1, "%ld\n", num(P("clk"))); _exit(0); }
    if (!strcmp(name, "touch")) { for (int i = 1; i < argc; i++) { int f = open(argv[i], O_WRONLY | O_CREAT, 0644); if (f < 0) _exit(1); close(f); stamp(argv[i], num(P("clk"))); } _exit(0); }
    char real[100]; snprintf(real, sizeof real, "/usr/bin/%s", name); argv[0] = real; unsetenv("STUB48"); execv(real, argv); _exit(127);
}
static int rm1(const char *p, const struct stat *st, int f, struct FTW *w) { (void)st; (void)f; (void)w; if (strncmp(p, S, strlen(S))) return 1; return remove(p); }
static void fresh(void)
{
    static char cwd[200]; if (!*cwd && !getcwd(cwd, sizeof cwd)) _exit(97);
    snprintf(S, sizeof S, "%s/s%d", cwd, (int)getpid()); nftw(S, rm1, 20, FTW_DEPTH | FTW_PHYS);
    if (mkdir(S, 0755)) { mc_violation("harness", "cannot make %s: %s", S, strerror(errno)); _exit(1); }
    mkdir(P("bin"), 0755); mkdir(P("tmp"), 0755); mkdir(P("spool"), 0755); spit(P("conf"), "", 0); setnum(P("clk"), CLK0); setnum(P("ver"), 0);
    static const char *names[] = { "cat", "find", "sed", "logger", "mktemp", "rm", "sleep", "cmp", "fcrontab", "touch", "grep", "mv", "cp", "ls", "date", "diff", "sort", "tr", "head", "awk", "cut", "stat", "expr", NULL };
    char me[300]; ssize_t n = readlink("/proc/self/exe", me, sizeof me - 1); if (n < 0) _exit(96); me[n] = 0;
    for (int i = 0; names[i]; i++) { char l[60]; sprintf(l, "bin/%s", names[i]); if (symlink(me, P(l))) {} }
}
/* a copy of the script with its fixed paths replaced */
static void script(const char *from, const char *to, const char *const *vars)
{
    static char b[40000], o[50000]; char p[600]; snprintf(p, sizeof p, "%s/%s", SCRIPTS, from); if (slurp(p, b, sizeof b) <= 0) { mc_violation("harness", "cannot read %s", p); _exit(1); }
    char *d = o; for (char *l = b; *l; ) { char *e = strchr(l, '\n'); e = e ? e + 1 : l + strlen(l); int done = 0;
        for (int i = 0; vars[i]; i += 2) { int k = strlen(vars[i]); if (!strncmp(l, vars[i], k) && l[k] == '=' && strncmp(l + k + 1, "$", 1) && l[k + 1] != '\n' && l[k + 1] != '"') { d += sprintf(d, "%s=%s\n", vars[i], vars[i + 1]); done = 1; } }
        if (!done) { memcpy(d, l, e - l); d += e - l; } l = e; }
    *d = 0; spit(to, o, O_TRUNC);
}
static int run(const char *name, char *const *av, const char *ev, int at)
{
    setnum(P("n"), 0); unlink(P("sig"));
    char path[500], st[400], a[30], e[30], td[400]; snprintf(path, sizeof path, "PATH=%s/bin:/usr/bin:/bin", S); snprintf(st, sizeof st, "STUB48=%s", S); sprintf(a, "AT48=%d", at); snprintf(e, sizeof e, "EV48=%s", ev ? ev : ""); snprintf(td, sizeof td, "TMPDIR=%s/tmp", S);
    char *env[] = { path, st, a, td, "LC_ALL=C", ev ? e : NULL, NULL }; fflush(NULL);
    pid_t p = fork();
    if (!p) { mc_subprocess(); setpgid(0, 0); for (int i = 1; i < 32; i++) signal(i, SIG_DFL); sigset_t z; sigemptyset(&z); sigprocmask(SIG_SETMASK, &z, NULL); int n = open("/dev/null", O_RDWR), o = open(P("out"), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(n, 0); dup2(o, 1); dup2(o, 2); alarm(20); execve("/bin/sh", av, env); _exit(127); }
    int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) ; kill(-p, SIGKILL); mc_eval(1); (void)name;
    return WIFEXITED(s) ? WEXITSTATUS(s) : 1000 + WTERMSIG(s);
}
static int run48(const char *mode, const char *ev, int at)
{
    static char sc[400], c[400], f[400], d[400], cf[400], fp[400]; snprintf(sc, 400, "%s", P("script")); snprintf(c, 400, "%s", P("C")); snprintf(f, 400, "%s", P("F")); snprintf(d, 400, "%s", P("d")); snprintf(cf, 400, "%s", P("conf")); snprintf(fp, 400, "%s", P("bin/fcrontab"));
    char *av[30]; int n = 0; av[n++] = "sh"; av[n++] = sc; av[n++] = "-C"; av[n++] = c; av[n++] = "-F"; av[n++] = f; av[n++] = "-D"; av[n++] = d; av[n++] = "-c"; av[n++] = cf; av[n++] = "-p"; av[n++] = fp;
    if (*mode == 'i') av[n++] = "-i"; else if (*mode == 's') { av[n++] = "-s"; av[n++] = "0"; } else if (*mode == '5') { av[n++] = "-s"; av[n++] = "5"; } if (strchr(mode, 'f')) av[n++] = "-f"; if (strchr(mode, 'v')) av[n++] = "-v"; av[n] = NULL;
    return run("check_system_crontabs", av, ev, at);
}
static const struct { const char *n, *t; } VIX[] = { { "yearly", "0 0 1 1 *" }, { "annually", "0 0 1 1 *" }, { "monthly", "0 0 1 * *" }, { "weekly", "0 0 * * 0" }, { "daily", "0 0 * * *" }, { "midnight", "0 0 * * *" }, { "hourly", "0 * * * *" } };
static char *lines(const char *t, char *o, int tr)        /* the lines that say something, with the times fcron does not know replaced */
{
    for (const char *l = t; *l; ) {
        const char *e = strchr(l, '\n'); if (!e) e = l + strlen(l); const char *s = l + strspn(l, " \t");
        if (s < e && *s != '#') {
            memcpy(o, l, s - l); o += s - l;
            for (int i = 0; tr && i < 7 && *s == '@'; i++) { int k = strlen(VIX[i].n); if (!strncmp(s + 1, VIX[i].n, k)) { o += sprintf(o, "%s", VIX[i].t); s += k + 1; } }
            memcpy(o, s, e - s); o += e - s; *o++ = '\n';
        }
        l = *e ? e + 1 : e;
    }
    *o = 0; return o;
}
static void expected(char *o)
{
    static char b[20000]; struct stat st; *o = 0;
    if (!lstat(P("C"), &st) && S_ISREG(st.st_mode)) { slurp(P("C"), b, sizeof b); o = lines(b, o, 1); }
    glob_t g; if (!glob(P("d/*"), 0, NULL, &g)) { for (size_t i = 0; i < g.gl_pathc; i++) { char *p = g.gl_pathv[i]; if (!stat(p, &st) && S_ISREG(st.st_mode) && p[strlen(p) - 1] != '~') { slurp(p, b, sizeof b); o = lines(b, o, 1); } } globfree(&g); }
    if (!lstat(P("F"), &st) && S_ISREG(st.st_mode)) { slurp(P("F"), b, sizeof b); o = lines(b, o, 1); }
}
static void installed(char *o) { static char b[40000]; if (slurp(P("spool/systab.orig"), b, sizeof b) < 0) strcpy(o, "(none)"); else lines(b, o, 0); }
static char hist48[100];
static void same(const char *when)
{
    static char e[40000], g[40000]; expected(e); installed(g); mc_outcome(vos_hash(strlen(g), strlen(e), 0)); mc_state(mc_hash(1, g, strlen(g)));
    if (strcmp(e, g)) { int i = 0; while (e[i] && e[i] == g[i]) i++; while (i && e[i - 1] != '\n') i--; mc_violation(!strcmp(g, "(none)") ? "no system fcrontab" : "the system fcrontab is not what the files say", "%s (%s): the files say \"%.60s\" where the system fcrontab has \"%.60s\"", when, hist48, e + i, g + i); }
    if (access(P("bad"), F_OK) == 0) mc_violation("fcrontab called wrongly", "%s (%s)", when, hist48);
}
static void notmp(const char *when) { DIR *d = opendir(P("tmp")); struct dirent *e; while ((e = readdir(d))) if (*e->d_name != '.') mc_violation("a temporary file is left", "%s (%s): %s", when, hist48, e->d_name); closedir(d); }
static void start(int init)
{
    static const char *v[] = { "FCRONTABS_DIR", NULL, NULL }; char sp[400]; fresh(); snprintf(sp, sizeof sp, "%s/spool", S); v[1] = sp; script("check_system_crontabs.sh", P("script"), v);
    if (init) { for (const char *p = "cfabl"; *p; p++) op(*p); run48("if", NULL, 0); same("after a forced rebuild"); }
}
static void finish(const char *mode)
{
    run48(mode, NULL, 0); same("after a run"); notmp("after a run"); unlink(P("installs")); run48("i", NULL, 0); same("after another run"); 
    if (!access(P("installs"), F_OK)) mc_violation("installed again for nothing", "history %s", hist48);
}
static const char SEQ[] = "cCosfFaAbBtlmdDR"; static int depth48;
static void item48(long it)
{
    int init = it % 2, n = 0; long k = it / 2; char s[10]; int len = k % (depth48 + 1); k /= depth48 + 1;
    for (int i = 0; i < depth48; i++) { int c = k % 16; k /= 16; if (i >= len && c) return; if (i < len) s[n++] = SEQ[c]; } s[n] = 0;
    if (n && s[n - 1] == 'R') return; for (int i = 1; i < n; i++) if (s[i] == 'R' && s[i - 1] == 'R') return;
    if (mc_stop()) return; snprintf(hist48, sizeof hist48, "%s; %s", init ? "all files there and installed" : "no files", s); mc_ctx = hist48; mc_ctxlen = strlen(hist48); mc_arm();
    start(init); for (int i = 0; i < n; i++) if (s[i] == 'R') { run48("i", NULL, 0); same("after a run"); } else op(s[i]);
    finish(n % 3 == 0 ? "iv" : n % 3 == 1 ? "s" : "5"); nftw(S, rm1, 20, FTW_DEPTH | FTW_PHYS);
}
static const char EV[] = "cCosfFaAbBtlmdDKTHIx1";
static void ev48(long it)
{
    int e = it % 21, o = it / 21 % 16, init = it / 336 % 2, mode = it / 672; if (!mc_thorough && SEQ[o] != 'R' && !strchr("cAKT1x", EV[e])) return; static char a[40000], b[40000], g[40000]; char ev[2] = { EV[e], 0 };
    for (int at = 1; at < 60; at++) {
        if (mc_stop()) return; snprintf(hist48, sizeof hist48, "%s; %c, then event %s at command %d%s", init ? "all files there and installed" : "no files", SEQ[o], ev, at, mode ? " of a forced run" : ""); mc_ctx = hist48; mc_ctxlen = strlen(hist48); mc_arm();
        start(init); if (SEQ[o] != 'R') op(SEQ[o]); installed(a); expected(b); unlink(P("installs"));
        int rc = run48(mode ? "5f" : "5", ev, at); long n = num(P("n")); installed(g);
        if (sigfor(EV[e]) && access(P("sig"), F_OK) == 0) {
            if (strcmp(g, a) && strcmp(g, b)) mc_violation("part of the files installed", "%s: interrupted, and left %.200s", hist48, g);
            if (EV[e] != 'K') { notmp("after a signal"); if (rc == 0 && at < n) mc_violation("not stopped by a signal", "%s", hist48); }
            else { char c[500]; snprintf(c, sizeof c, "%s/tmp", S); DIR *d = opendir(c); struct dirent *x; while ((x = readdir(d))) if (*x->d_name != '.') { char q[800]; snprintf(q, sizeof q, "%s/%s", c, x->d_name); unlink(q); } closedir(d); }
        }
        if (EV[e] != 'K') notmp("after a run");
        finish("i"); nftw(S, rm1, 20, FTW_DEPTH | FTW_PHYS);
        if (n < at || EV[e] == 'x') break;
    }
}

/* ---- C49 ---- */
static const char SUS[] = "pHhxPrtqwkme"; static const char *const WORDS[][2] = { { "pre", "suspend" }, { "suspend", NULL }, { "hibernate", NULL }, { "suspend_hybrid", NULL }, { "post", "suspend" }, { "resume", NULL }, { "thaw", "x" }, { "bogus", NULL } };
static int depth49, stopped; static pid_t daemon49;
static void look(void) { int st; pid_t r; for (int i = 0; i < 3; i++) while ((r = waitpid(daemon49, &st, WNOHANG | WUNTRACED | WCONTINUED)) > 0) { if (WIFSTOPPED(st)) stopped = 1; else if (WIFCONTINUED(st)) stopped = 0; else stopped = -1; } }
static int wanted(int w) { for (int i = 0; i < 200; i++) { look(); if (stopped == w) return 1; usleep(1000); } return 0; }
static void item49(long it)
{
    char s[12]; int n = 0, len = it % depth49 + 1; long k = it / depth49; for (int i = 0; i < depth49; i++) { int c = k % 12; k /= 12; if (i >= len && c) return; if (i < len) s[n++] = SUS[c]; } s[n] = 0;
    if (!strpbrk(s, "PrtpHhx") || mc_stop()) return; static const char *v[] = { "PID_FILE", NULL, "SUSPEND_FILE", NULL, "PATH", NULL, NULL }; static char a[400], b[400], c[800], sc[400]; char t[300];
    mc_arm(); fresh(); snprintf(a, 400, "%s/pid", S); snprintf(b, 400, "%s/suspend", S); snprintf(c, 800, "%s/bin:/usr/bin:/bin", S); v[1] = a; v[3] = b; v[5] = c; snprintf(sc, 400, "%s", P("script")); script("fcron.suspend.sh.in", sc, v);
    fflush(NULL); daemon49 = fork(); if (!daemon49) { mc_subprocess(); setpgid(0, 0); alarm(60); for (;;) pause(); }
    setnum(P("pid"), daemon49); spit(P("pid"), "\n", O_APPEND); stopped = 0; int there = 1, dir = 0; long first = 0, last = 0;
    for (int i = 0; i < n; i++) {
        const char *q = strchr(SUS, s[i]); int w = q - SUS; snprintf(t, sizeof t, "step %d of %s", i + 1, s);
        if (w == 8) { setnum(P("clk"), num(P("clk")) + 3661); continue; }                   /* time passes */
        if (w == 9) { unlink(P("pid")); there = 0; continue; }                              /* the daemon is not running */
        if (w == 10) { if (!first) { mkdir(P("suspend"), 0755); dir = 1; } continue; }      /* the suspend file cannot be written */
        if (w == 11) { setnum(P("clk"), num(P("clk")) + 1); continue; }
        char *av[] = { "sh", sc, (char *)WORDS[w][0], (char *)WORDS[w][1], NULL }; long clk = num(P("clk")); run("suspend", av, NULL, 0);
        if (w < 4) {
            if (!wanted(there ? 1 : stopped)) mc_violation("the daemon is not stopped", "%s", t);
            struct stat st; if (!dir) { if (stat(P("suspend"), &st) || st.st_mtime != clk) mc_violation("when the machine was suspended is not recorded", "%s", t); if (!first) first = clk; last = clk; }
        } else if (w < 7) {
            if (there && !wanted(0)) mc_violation("the daemon is left stopped", "%s", t);
            char g[100]; long r = slurp(P("suspend"), g, sizeof g); char *e; long d = strtol(g, &e, 10); mc_outcome(vos_hash(r > 0 ? d : -1, w, 0));
            if (!dir) {
                if (!first && r >= 0) mc_violation("a suspend is invented", "%s: %s", t, g);
                if (first && r <= 0) mc_violation("the suspend is not told", "%s", t);
                if (first && r > 0 && (e == g || d < clk - last || d > clk - first)) mc_violation("a wrong suspend duration", "%s: %s instead of %ld", t, g, clk - last);
                unlink(P("suspend")); first = last = 0;                     /* as the daemon does */
            }
        } else { int o = stopped; look(); if (o != stopped) mc_violation("a wrong word has an effect", "%s", t); struct stat st; if (!first && !dir && !stat(P("suspend"), &st)) mc_violation("a suspend is invented", "%s", t); }
        mc_state(vos_hash(stopped + 10 * there + 20 * dir, s, i + 1));
    }
    kill(daemon49, SIGKILL); waitpid(daemon49, NULL, 0); nftw(S, rm1, 20, FTW_DEPTH | FTW_PHYS);
}
int harness_main(void)
{
    if (!strcmp(mc_arg, "C49")) { depth49 = mc_thorough ? 5 : 3; long n = depth49; for (int i = 0; i < depth49; i++) n *= 12; mc_items(n, item49); }
    if (!strcmp(mc_arg, "C48")) { depth48 = mc_thorough ? 4 : 3; long n = 2 * (depth48 + 1); for (int i = 0; i < depth48; i++) n *= 16; mc_items(n, item48); }
    if (!strcmp(mc_arg, "C48:ev")) mc_items(mc_thorough ? 1344 : 672, ev48);
    return 0;
}
