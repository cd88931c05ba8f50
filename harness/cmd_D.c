/* C46: the command line of fcrontab, and what it does with the editor: the real fcrontab, given every sequence of words of a
 * bounded family by several users, and every behaviour of the editor and of the user in front of it. */
#include "eng.h"
extern int vos_open(const char *, int, ...); extern ssize_t vos_write(int, const void *, size_t); extern int vos_close(int), vos_unlink(const char *), vos_rename(const char *, const char *), vos_mkdir(const char *, mode_t);

/* ---------------------------------------------------------------- the machine */
#define NU 5
static const struct { const char *n; uid_t u; } US[NU] = { { "root", 0 }, { "alice", 1001 }, { "bob", 1002 }, { "carol", 1003 }, { "systab", 0 } };
#define TEXT(mark) "# " mark "\n& 1 2 3 4 * c_" mark "\n"
static int has_tab;                                            /* the users have a fcrontab already */
static const struct { const char *p, *t; uid_t u; gid_t g; mode_t m; } FI[] = {
    { "/tmp/tab", TEXT("TMPTAB"), 1001, 1001, 0644 }, { "/home/alice/priv", TEXT("PRIVALICE"), 1001, 1001, 0600 }, { "/home/bob/priv", TEXT("PRIVBOB"), 1002, 1002, 0600 }, { "/root/priv", TEXT("PRIVROOT"), 0, 0, 0600 },
    { "/home/bob/grp", TEXT("GRPFCRON"), 1002, 200, 0640 }, { "/home/bob/own", TEXT("OWNFCRON"), 200, 200, 0600 }, { "/home/alice/tab", TEXT("RELTAB"), 1001, 1001, 0644 }, { "/tmp/empty", "", 0, 0, 0644 } };
#define NF (int)(sizeof FI / sizeof *FI)
static const char *tab_text(int u) { static char b[4][200]; static int k; char *o = b[k++ & 3]; snprintf(o, 200, "# MINE%s\n& 1 2 3 4 * c_%s # no newline at the end", US[u].n, US[u].n); return o; }
static void symlink_at(const char *p, const char *to) { int i = vos_put(p, "", 0, 1001, 1001, 0777); V.ino[i].mode = S_IFLNK | 0777; snprintf(V.ino[i].target, sizeof V.ino[i].target, "%s", to); }
static void machine(void)
{
    eng_init(); vos_set_time(1706000000); vos_put("/etc/fcron.allow", "all\n", 4, 0, 200, 0640); vos_put("/etc/fcron.deny", "carol\n", 6, 0, 200, 0640);
    for (int i = 0; i < NF; i++) vos_put(FI[i].p, FI[i].t, strlen(FI[i].t), FI[i].u, FI[i].g, FI[i].m);
    symlink_at("/tmp/link", "/root/priv"); symlink_at("/tmp/lnk2", "/tmp/tab");
    if (has_tab) for (int u = 0; u < NU; u++) { char p[100]; uid_t o = US[u].u ? 200 : 0; snprintf(p, 100, SPOOL "/%s.orig", US[u].n); vos_put(p, tab_text(u), strlen(tab_text(u)), o, 200, o ? 0640 : 0600); snprintf(p, 100, SPOOL "/%s", US[u].n); vos_put(p, "binary", 6, 0, 0, 0600); }
}
/* what is on the disk: before the command and after it */
typedef struct { char p[100]; uint64_t h; int used; } ent;
typedef struct { ent e[64]; int n; } snap;
static snap S0, S1;
static int by_path(const void *a, const void *b) { return strcmp(((const ent *)a)->p, ((const ent *)b)->p); }
static void snapshot(snap *s)
{
    s->n = 0; for (int i = 0; i < V.nent; i++) if (V.ent[i].used && strncmp(V.ent[i].path, "/dev", 4) && s->n < 64) { vinode *n = &V.ino[V.ent[i].ino]; ent *e = &s->e[s->n++]; memset(e, 0, sizeof *e); snprintf(e->p, 100, "%s", V.ent[i].path);
        uint64_t h = vos_hash(1469598103934665603ULL, n->data ? (char *)n->data : "", n->len); unsigned x[3] = { n->uid, n->gid, n->mode }; e->h = vos_hash(h, x, sizeof x); }
    qsort(s->e, s->n, sizeof *s->e, by_path);
}
/* the paths which differ, other than the ones allowed to (up to 4 names) */
static char *differs(const char *ok[])
{
    static char b[400]; int n = 0, i = 0, j = 0; b[0] = 0;
    while (i < S0.n || j < S1.n) {
        int c = i >= S0.n ? 1 : j >= S1.n ? -1 : strcmp(S0.e[i].p, S1.e[j].p); const char *p = NULL, *w = "";
        if (c < 0) { p = S0.e[i++].p; w = "removed"; } else if (c > 0) { p = S1.e[j++].p; w = "new"; } else { if (S0.e[i].h != S1.e[j].h) { p = S0.e[i].p; w = "changed"; } i++; j++; }
        if (!p) continue; int k = 0; for (const char **o = ok; o && *o; o++) if (!strcmp(*o, p)) k = 1;
        if (!k) n += snprintf(b + n, sizeof b - n, " %s %s", p, w); if (n > 300) break;
    }
    return n ? b : NULL;
}
/* ---------------------------------------------------------------- running it */
static uid_t me; static int nsig, ned, child_in_exec; static struct { uid_t r, e, s; gid_t rg, eg, sg; char path[100], a[4][300], cwd[100]; int n, fds; } X;
static int (*editor)(void);                                    /* the program the user edits with: its wait status */
static int fork_fails;
static void cmd_exec(const char *path, char **argv, char **envp)
{
    (void)envp; if (!child_in_exec) { exit_code = 0; longjmp(exit_jb, 1); }
    memset(&X, 0, sizeof X); X.r = V.ruid; X.e = V.euid; X.s = V.euid; X.rg = V.rgid; X.eg = V.egid; X.sg = V.egid; snprintf(X.path, 100, "%s", path); for (X.n = 0; argv[X.n] && X.n < 4; X.n++) snprintf(X.a[X.n], 300, "%s", argv[X.n]); snprintf(X.cwd, 100, "%s", V.cwd);
    for (int i = 3; i < VOS_MAXFD; i++) if (V.fd[i].kind && !V.fd[i].cloexec) X.fds++;
    if (write(rep_fd, &X, sizeof X) < 0) {} _exit(0);
}
static void cmd_exit(int c) { if (child_in_exec) { if (vos_stderr) fflush(vos_stderr); _exit(c & 255); } exit_code = c; longjmp(exit_jb, 1); }
static int cmd_fork(void)
{
    if (child_in_exec) { errno = EAGAIN; return -1; }
    if (fork_fails) { errno = EAGAIN; return -1; }
    int fd[2]; if (pipe(fd)) abort(); fflush(NULL); pid_t p = fork(); if (p < 0) { perror("fork"); abort(); }
    if (!p) { mc_subprocess(); close(fd[0]); rep_fd = fd[1]; child_in_exec = 1; return 0; }
    close(fd[1]); memset(&X, 0, sizeof X); ssize_t n; while ((n = read(fd[0], &X, sizeof X)) < 0 && errno == EINTR) ; close(fd[0]); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    int status = 0;
    if (n != sizeof X) status = st;
    else if (strstr(X.path, "fcronsighup")) nsig++;
    else { ned++; status = editor ? editor() : 0; }
    int q = vos_new_pid(-2); vos_exit_proc(q, status); return q;
}
static int run(int argc, char **av)
{
    mc_seg_restore(&seg[2]); mc_seg_restore(&seg[3]); vos_reset_fds(); strcpy(V.cwd, "/home/alice"); V.umask_ = 022; optind = 0; setenv("TZ", "UTC", 1); mc_arm();
    creds(me, 200, me, 200); in_tab = 1; tab_outlen = tab_errlen = 0; tab_out[0] = 0; if (tab_err) tab_err[0] = 0; nsig = ned = 0; child_in_exec = 0;
    vos_fork_hook = cmd_fork; vos_exec_hook = cmd_exec; vos_exit_hook = cmd_exit;
    if (tab_stdin) { int i = vos_put("/dev/stdin", tab_stdin, tab_stdinlen, 0, 0, 0600); V.fd[0].kind = VF_FILE; V.fd[0].ino = i; V.fd[0].off = 0; V.fd[0].flags = O_RDONLY; }
    static int n; static char **v; n = argc; v = av;
    if (!setjmp(exit_jb)) exit_code = T_main(n, v);
    fflush(vos_stdout); fflush(vos_stderr); in_tab = 0; creds(0, 0, 0, 0); vos_reset_fds(); strcpy(V.cwd, "/"); V.sigmask = V.sigpending = 0; memset(V.handler, 0, sizeof V.handler);
    return exit_code;
}
/* ---------------------------------------------------------------- what fcrontab(1) says about a command line */
enum { A_NONE, A_FILE, A_LIST, A_RM, A_EDIT, A_Z };
typedef struct { int act, info, refuse_ok, must_refuse; const char *target[2], *file; } want;
static int user_no(const char *n) { for (int i = 0; i < NU; i++) if (!strcmp(US[i].n, n)) return i; return -1; }
static want meaning(int argc, char **av)
{
    want w = { 0 }; const char *op[4]; int nop = 0, end = 0; const char *u[3]; int nu = 0; int l[5] = { 0 };
    for (int i = 1; i < argc; i++) {
        char *t = av[i]; if (end || t[0] != '-' || !t[1]) { if (nop < 4) op[nop++] = t; continue; }
        if (!strcmp(t, "--")) { end = 1; continue; }
        for (char *c = t + 1; *c; c++) {
            if (*c == 'u') { char *a = c[1] ? c + 1 : av[++i]; if (i >= argc) { w.must_refuse = 1; return w; } if (nu < 3) u[nu++] = a; break; }
            char *k = strchr("lrez", *c); if (k) l[k - "lrez"]++; else if (*c == 'h' || *c == 'V') w.info = 1; else if (*c != 'n' && *c != 'd') w.must_refuse = 1;
        }
    }
    /* no literal's address is compared: count again */
    l[0] = l[1] = l[2] = l[3] = 0; end = 0;
    for (int i = 1; i < argc; i++) { char *t = av[i]; if (end || t[0] != '-' || !t[1]) continue; if (!strcmp(t, "--")) { end = 1; continue; }
        for (char *c = t + 1; *c; c++) { if (*c == 'u') { if (!c[1]) i++; break; } l[0] += *c == 'l'; l[1] += *c == 'r'; l[2] += *c == 'e'; l[3] += *c == 'z'; } }
    if (w.info) return w;
    int kinds = !!l[0] + !!l[1] + !!l[2] + !!l[3]; if (l[0] + l[1] + l[2] + l[3] > 1) w.refuse_ok = 1;
    if (kinds > 1) { w.must_refuse = 1; return w; }
    if (me && nu) { w.must_refuse = 1; return w; }                     /* only root may name a user */
    if (kinds == 0) { if (nop == 0 || nop > 2) { w.must_refuse = 1; return w; } w.act = A_FILE; w.file = op[0]; if (nop == 2) u[nu++] = op[1]; if (nop == 2 && me) { w.must_refuse = 1; return w; } }
    else { w.act = l[0] ? A_LIST : l[1] ? A_RM : l[2] ? A_EDIT : A_Z; if (nop > 1) { w.must_refuse = 1; return w; } if (nop == 1) { if (me) { w.must_refuse = 1; return w; } u[nu++] = op[0]; } }
    if (nu > 1) w.refuse_ok = 1;                                     /* named twice */
    if (!nu) { for (int i = 0; i < NU - 1; i++) if (US[i].u == me) w.target[0] = US[i].n; }
    else { w.target[0] = u[nu - 1]; if (nu > 1 && strcmp(u[0], u[nu - 1])) w.target[1] = u[0]; }
    return w;
}
/* the text of a file as the invoking user may read it; NULL: not allowed, not there, or no regular file */
static const char *readable(const char *path)
{
    char p[200]; if (!strcmp(path, "-")) return tab_stdin; if (path[0] == '/') snprintf(p, 200, "%s", path); else snprintf(p, 200, "/home/alice/%s", path);
    if (!strcmp(p, "/tmp/link")) strcpy(p, "/root/priv"); if (!strcmp(p, "/tmp/lnk2")) strcpy(p, "/tmp/tab");
    for (int i = 0; i < NF; i++) if (!strcmp(FI[i].p, p)) return me == 0 || (FI[i].m & 4) || (FI[i].u == me && (FI[i].m & 0400)) ? FI[i].t : NULL;
    if (!strncmp(p, SPOOL "/", strlen(SPOOL) + 1) && me == 0 && has_tab) for (int u = 0; u < NU; u++) { char q[100]; snprintf(q, 100, SPOOL "/%s.orig", US[u].n); if (!strcmp(p, q)) return tab_text(u); }
    return NULL;
}
static const char *content(const char *fmt, const char *u) { static char b[4][3000]; static int k; char *o = b[k++ & 3], p[200]; snprintf(p, 200, fmt, u); vinode *n = vos_file(p); if (!n) return NULL; snprintf(o, 3000, "%.*s", (int)n->len, (char *)n->data); return o; }
static int eqs(const char *a, const char *b) { return (!a && !b) || (a && b && !strcmp(a, b)); }
/* NULL: what has been done is the action on the target; else what is wrong */
static const char *done_as(const want *w, const char *target, int rc)
{
    int u = user_no(target); if (u < 0) return "a user who does not exist was accepted";
    char o[100], n[100], r[100]; snprintf(o, 100, SPOOL "/%s.orig", target); snprintf(n, 100, SPOOL "/new.%s", target); snprintf(r, 100, SPOOL "/rm.%s", target); const char *ok[] = { o, n, r, NULL };
    const char *old = has_tab ? tab_text(u) : NULL, *now = content(SPOOL "/%s.orig", target), *txt = NULL; int haven = vos_file(n) != NULL, haver = vos_file(r) != NULL; char *d;
    if ((d = differs(w->act == A_LIST ? NULL : ok))) return d;
    if (w->act == A_LIST) { if (rc) return "the list fails"; if (strcmp(tab_out, old ? old : "")) return "the list differs from the fcrontab"; if (nsig) return "the daemon was told about a list"; return NULL; }
    if (tab_outlen) return "something was written on the standard output";
    switch (w->act) {
    case A_FILE: txt = readable(w->file); if (!txt) return "a file the user may not read was accepted"; break;
    case A_Z: txt = old; if (!old) return rc && !haven && !now ? NULL : "reinstalled what was not there"; break;
    case A_RM: if (now) return "the source is still there"; if (haven) return "a new fcrontab is still there"; if (!old) return NULL; if (!haver) return "the daemon is not told to remove it"; if (rc) return "the removal fails"; return nsig == 1 ? NULL : "the daemon was not told once"; 
    }
    if (w->act == A_EDIT) return eqs(now, old) && !haven && !haver && !rc && ned == 1 ? NULL : "an edit without any change did something";
    if (!eqs(now, txt)) return "the source is not the text given";
    if (rc) return "the installation fails"; if (nsig != 1) return "the daemon was not told once";
    if (*txt ? !haven || haver : haven || !haver) return *txt ? "no new fcrontab for the daemon" : "an empty fcrontab was not removed";
    return NULL;
}
static const char *T[] = { "-l", "-r", "-e", "-z", "-n", "-u", "alice", "bob", "root", "carol", "nobody9", "systab", "-", "/tmp/tab", "/home/alice/priv", "/home/bob/priv", "/root/priv", "/tmp/link", "tab", "/tmp/empty", "/nofile",
    "/tmp", "--", "-lr", "-ualice", "-nz", "/tmp/lnk2", "/home/bob/grp", "/home/bob/own", SPOOL "/bob.orig", "-h", "-V", "-ubob", "-ne", "", "-x", "-uroot", "-d" };
#define NT (int)(sizeof T / sizeof *T)
static void words(int argc, char **av)
{
    if (mc_stop()) return;
    machine(); tab_stdin = TEXT("STDIN"); tab_stdinlen = strlen(tab_stdin); editor = NULL; unsetenv("VISUAL"); unsetenv("EDITOR"); snapshot(&S0);
    char *pv[8]; memcpy(pv, av, argc * sizeof *av); pv[argc] = NULL;         /* getopt() reorders them */
    int rc = run(argc, pv); snapshot(&S1); mc_eval(1);
    char cl[300]; int n = 0; for (int i = 0; i < argc; i++) n += snprintf(cl + n, sizeof cl - n, "%s ", *av[i] ? av[i] : "\"\"");
    want w = meaning(argc, av); char *d = differs(NULL); int nothing = !d && !nsig && !ned; const char *why = NULL; char keep[400];
    int denied = me == 1003;
    if (w.info) { if (!nothing || tab_outlen) why = "asked for its usage or version, it did something"; }
    else {
        int may_refuse = w.refuse_ok || w.must_refuse || denied; int refused = rc != 0 && nothing;
        for (int k = 0; k < 2 && !w.must_refuse && !denied; k++) if (w.target[k]) { int u = user_no(w.target[k]); if (u < 0 || u == 3 || (w.act == A_FILE && !readable(w.file)) || (w.act == A_Z && !has_tab)) may_refuse = 1; }
        if (refused) { if (!may_refuse) why = "refused"; else if (tab_outlen) why = "refused, but something was written on the standard output"; }
        else if (w.must_refuse || denied) why = denied ? "done for a user who is not allowed" : rc == 0 ? "a wrong command line was accepted" : "a wrong command line did something";
        else { why = done_as(&w, w.target[0], rc); if (why && w.target[1]) { snprintf(keep, 400, "%s", why); if (!done_as(&w, w.target[1], rc)) why = NULL; else why = keep; } }
    }
    /* what a user may not read is not shown to him */
    if (!why && me) { static const char *sec[] = { "PRIVBOB", "PRIVROOT", "GRPFCRON", "OWNFCRON", "MINEbob", "MINEroot", "MINEsystab", "MINEcarol", "PRIVALICE", "MINEalice" };
        for (int i = 0; i < 10; i++) if ((me != 1001 || i < 8) && !(me == 1002 && (i == 0 || i == 4)) && !(me == 1003 && i == 7) && ((tab_err && strstr(tab_err, sec[i])) || strstr(tab_out, sec[i]))) why = "shows the contents of a file the user may not read"; }
    mc_state(vos_hash(vos_hash(me * 2 + has_tab, cl, n), &rc, sizeof rc)); mc_outcome((w.act * 8 + (w.must_refuse ? 4 : 0) + nothing * 2 + !!rc) * 8 + nsig); 
    if (why) { char g[500]; static const char *an[] = { "no action", "file", "-l", "-r", "-e", "-z" }; snprintf(g, sizeof g, "%s by %s: %s", an[w.act], me ? me == 1003 ? "a denied user" : "a user" : "root", why); mc_violation(g, "%s (by uid %d, %s, exit code %d, %d signals): %s; changed:%s; %.300s", cl, (int)me, has_tab ? "everyone has a fcrontab" : "nobody has a fcrontab", rc, nsig, why, d ? d : " nothing", tab_err ? tab_err : ""); }
}
static void item_words(long it)
{
    has_tab = it & 1; it >>= 1; static const uid_t who[] = { 0, 1001, 1003 }; me = who[it % 3]; it /= 3; char *av[8] = { "fcrontab", (char *)T[it] };
    words(2, av); if (it == 0) { words(1, av); }
    int m = mc_thorough ? 24 : 13;                                  /* four of the first ones */
    for (int b = 0; b < NT; b++) { av[2] = (char *)T[b]; words(3, av); for (int c = 0; c < NT; c++) { av[3] = (char *)T[c]; words(4, av); if (b < m && c < m && it < m) for (int d = 0; d < m; d++) { av[4] = (char *)T[d]; av[5] = NULL; words(5, av); } av[4] = NULL; } av[3] = NULL; }
}
/* ---------------------------------------------------------------- the editor */
enum { E_NONE, E_SAME, E_NEW, E_LATER, E_SAMELEN, E_RENAME, E_OLD, E_GONE, E_SECRET, E_LINK, E_BAD, E_KILLED, E_EMPTY, E_DIR, E_APPEND, NE };
static const char *ename[NE] = { "leaves the file alone", "writes the same text", "writes another text", "writes another text a minute later", "writes another text of the same length", "replaces the file", "writes another text and gives the file an old date", "removes the file", "puts a link to another's file there",
    "puts a link to the user's own file there", "writes a wrong line", "is killed after writing another text", "empties the file", "puts a directory there", "adds a line" };
#define BADTEXT "& 1 2 3 4 * good\n& 99 x\n"
static int seq[4], nseq, at; static char seen[4][600], final_[600]; static int final_ok, bad_now; static const char *problem; static uid_t want_uid; static const char *want_cmd; static const char *start_text;
static const char *tmpname(void) { static char p[100]; char *s = strstr(X.a[2], " /tmp/"); if (!s) return NULL; snprintf(p, 100, "%s", s + 1); return p; }
static void ed_write(const char *p, const char *t) { int fd = vos_open(p, O_WRONLY | O_TRUNC | O_CREAT, 0600); if (fd < 0) { problem = "the editor cannot write the file"; return; } if (*t) vos_write(fd, t, strlen(t)); vos_close(fd); }
static int ed(void)
{
    const char *p = tmpname(); char want_line[400];
    if (X.n != 4 || strcmp(X.a[1], "-c") || !p) { problem = "the editor is not run on a file of /tmp"; return 0; }
    snprintf(want_line, sizeof want_line, "%s %s", want_cmd, p); if (strcmp(X.a[2], want_line)) problem = "another editor is run";
    if (X.r != want_uid || X.e != want_uid || X.s != want_uid || X.rg != want_uid || X.eg != want_uid || X.sg != want_uid) problem = "the editor does not run as the user";
    if (X.fds) problem = "the editor inherits an open file";
    vinode *n = vos_file(p); if (!n) { problem = "no file to edit"; return 0; }
    if (n->uid != want_uid || (n->mode & 077)) problem = "the file to edit is not the user's only";
    snprintf(seen[at < 3 ? at : 3], 600, "%.*s", (int)n->len, n->data ? (char *)n->data : ""); const char *cur = seen[at < 3 ? at : 3];
    uid_t r = V.ruid, e = V.euid, s = V.suid; gid_t rg = V.rgid, eg = V.egid, sg = V.sgid; creds(X.r, X.e, X.rg, X.eg);
    int b = at < nseq ? seq[at] : E_NONE, st = 0; at++; char t[700];
    snprintf(final_, sizeof final_, "%s", cur); bad_now = !strcmp(cur, BADTEXT);
#define NEWTEXT(x) do { snprintf(final_, sizeof final_, "%s", x); bad_now = 0; } while (0)
    switch (b) {
    case E_NONE: break;
    case E_SAME: ed_write(p, final_); break;
    case E_LATER: vos_advance(60); /* fall through */
    case E_NEW: case E_KILLED: case E_OLD: snprintf(t, sizeof t, "# EDITED\n& 5 6 7 8 * edited%d\n", at); ed_write(p, t); if (b == E_OLD) vos_file(p)->mtime = 1600000000; NEWTEXT(t); if (b == E_KILLED) st = 9; break;
    case E_SAMELEN: snprintf(t, sizeof t, "%s", cur); if (strlen(t) > 4) { t[0] = '#'; t[2] = t[2] == 'Z' ? 'Y' : 'Z'; } if (strlen(t) > 4) { ed_write(p, t); int was = bad_now; NEWTEXT(t); bad_now = was; } break;
    case E_RENAME: ed_write("/tmp/sedXYZ", "& 9 9 9 9 * replaced\n"); vos_rename("/tmp/sedXYZ", p); NEWTEXT("& 9 9 9 9 * replaced\n"); break;
    case E_GONE: vos_unlink(p); final_ok = 0; break;
    case E_SECRET: vos_unlink(p); symlink_at(p, want_uid ? "/root/priv" : "/home/bob/priv"); V.ino[vos_lookup(p)].uid = want_uid; if (want_uid) final_ok = 0; else NEWTEXT(TEXT("PRIVBOB")); break;
    case E_LINK: vos_unlink(p); symlink_at(p, "/tmp/tab"); V.ino[vos_lookup(p)].uid = want_uid; NEWTEXT(TEXT("TMPTAB")); break;
    case E_BAD: ed_write(p, BADTEXT); NEWTEXT(BADTEXT); bad_now = 1; break;
    case E_EMPTY: ed_write(p, ""); NEWTEXT(""); break;
    case E_DIR: vos_unlink(p); vos_mkdir(p, 0700); final_ok = 0; break;
    case E_APPEND: snprintf(t, sizeof t, "%s\n& 3 3 * * * more\n", cur); ed_write(p, t); { int was = bad_now; NEWTEXT(t); bad_now = was || strstr(cur, "99 x"); } break;
    }
    creds(r, e, rg, eg); V.suid = s; V.sgid = sg; return st;
}
static const struct { const char *t; char last; int asked; } ANS[] = { { "i\n", 'i' }, { "", 0 }, { "c\n", 'c' }, { "x\ni\n", 'i' }, { "ignore\n", 'i' }, { "correct\n", 'c' }, { "\ni\n", 'i' }, { "i", 'i' }, { "nic\nx\n", 0 }, { "c\ni\n", 'c' }, { "c\nc\ni\n", 'c' } };
#define NA (int)(sizeof ANS / sizeof *ANS)
static const struct { const char *v, *e, *cmd; } ENVS[] = { { NULL, NULL, "/usr/bin/editor" }, { "/bin/visual", NULL, "/bin/visual" }, { NULL, "ed -s", "ed -s" }, { "emacs -nw", "ed", "emacs -nw" }, { "", "ed", "ed" }, { "", "", "/usr/bin/editor" } };
static int entries(const char *t) { int n = 0; for (; t && *t; t = strchr(t, '\n'), t += !!t) n += t[0] == '&' && strncmp(t, "& 99", 4); return n; }
static void edit(int inv, int tgt, int env, int ans)
{
    if (mc_stop()) return;
    machine(); me = US[inv].u; want_uid = me; want_cmd = ENVS[env].cmd; if (ENVS[env].v) setenv("VISUAL", ENVS[env].v, 1); else unsetenv("VISUAL"); if (ENVS[env].e) setenv("EDITOR", ENVS[env].e, 1); else unsetenv("EDITOR");
    tab_stdin = ANS[ans].t; tab_stdinlen = strlen(tab_stdin); editor = ed; at = 0; problem = NULL; final_ok = 1; bad_now = 0; const char *tn = US[tgt].n;
    snapshot(&S0); char *av[6] = { "fcrontab", "-e", tgt != inv ? "-u" : NULL, (char *)tn, NULL }; int rc = run(tgt != inv ? 4 : 2, av); snapshot(&S1); editor = NULL; mc_eval(1);
    char how[400]; int n = snprintf(how, sizeof how, "-e of %s by uid %d: the editor", tn, (int)me); for (int i = 0; i < nseq; i++) n += snprintf(how + n, sizeof how - n, "%s %s", i ? ", then" : "", ename[seq[i]]); n += snprintf(how + n, sizeof how - n, "; answers \"%.20s\"", ANS[ans].t);
    const char *old = has_tab ? tab_text(tgt) : NULL, *now = content(SPOOL "/%s.orig", tn), *why = problem; static char wb[900];
    char o[100], nw[100], r[100], tmp[100]; snprintf(o, 100, SPOOL "/%s.orig", tn); snprintf(nw, 100, SPOOL "/new.%s", tn); snprintf(r, 100, SPOOL "/rm.%s", tn); snprintf(tmp, 100, "%s", tmpname() ? tmpname() : "?"); const char *ok[] = { o, nw, r, NULL, NULL };
    if (seq[(at ? at : 1) - 1 < nseq ? (at ? at : 1) - 1 : 0] == E_DIR) ok[3] = tmp;
    /* which rounds there must have been, and how it must have ended */
    const char *a = ANS[ans].t; int rounds = 0, install = -1; char cur[600]; snprintf(cur, sizeof cur, "%s", old ? old : ""); 
    if (strcmp(seen[0], cur) && at) why = why ? why : "the editor is not given the fcrontab";
    for (int k = 0; k < at && install < 0; k++) {
        int b = k < nseq ? seq[k] : E_NONE; rounds++; if (k && strcmp(seen[k < 3 ? k : 3], cur)) why = why ? why : "the text to correct is not the text of before";
        char prev[600]; strcpy(prev, cur); if (k + 1 < at) snprintf(cur, sizeof cur, "%s", seen[k + 1 < 3 ? k + 1 : 3]); else snprintf(cur, sizeof cur, "%s", final_);
        if (b == E_KILLED || b == E_GONE || b == E_DIR || (b == E_SECRET && me)) { install = 0; if (rc == 0) why = why ? why : "success although there is nothing to install"; break; }
        int bad = strstr(cur, "99 x") != NULL;
        if (!bad) { install = 1; break; }
        int verdict = 0;                                      /* the answer to this question */
        while (*a) { char c = *a; const char *e = strchr(a, '\n'); a = e ? e + 1 : a + strlen(a); if (c == 'i' || c == 'c') { verdict = c; break; } }
        if (k == 0 && b == E_NONE) break;
        if (verdict == 'i') { install = 1; break; }
        if (verdict == 0) { install = 0; if (rc == 0) why = why ? why : "success without an answer"; break; }
        if (verdict == 'c' && k + 1 == at) { why = why ? why : "the text was not given to correct"; break; }
    }
    if (!why && rounds != at) why = "the editor was run too often";
    if (!why && !at) why = "the editor was not run";
    char *d = differs(ok); if (!why && d) { snprintf(wb, sizeof wb, "something else changed:%s", d); why = wb; if (strstr(d, "/tmp/fcr")) why = "the temporary file is left there"; }
    if (!why && install == 1) {
        int changed = !eqs(cur, old ? old : "");
        if (changed) { if (!eqs(now, cur)) why = eqs(now, old) ? "the change made in the editor is lost" : "the source is not the edited text"; else if (rc) why = "fails"; else if (nsig != 1) why = "the daemon was not told once"; else if (entries(cur) ? !vos_file(nw) : !vos_file(r)) why = "nothing for the daemon"; }
        else if (!eqs(now, old) && !(now && !*now && !old)) why = "changed without any change"; else if (rc) why = "fails without any change";
    }
    if (!why && install == 0) { if (!eqs(now, old)) why = "installed although the edit was given up"; else if (vos_file(nw) || nsig) why = "the daemon was told although the edit was given up"; }
    if (!why && me && ((tab_err && strstr(tab_err, "PRIVROOT")) || strstr(tab_out, "PRIVROOT"))) why = "shows the contents of a file the user may not read";
    mc_state(vos_hash(vos_hash(1469598103934665603ULL + env * 4 + has_tab, how, strlen(how)), &rc, sizeof rc)); mc_outcome((install + 1) * 1000 + rounds * 100 + !!rc * 10 + nsig);
    if (why) { char g[500]; snprintf(g, sizeof g, "editing: %s", why); mc_violation(g, "%s (%s; %s): %s; exit code %d, %d signals; source now \"%.100s\"; %.300s", how, want_cmd, has_tab ? "with a fcrontab" : "without a fcrontab", why, rc, nsig, now ? now : "(none)", tab_err ? tab_err : ""); }
}
static void item_edit(long it)
{
    has_tab = it & 1; it >>= 1; static const int pr[][2] = { { 1, 1 }, { 0, 0 }, { 0, 1 }, { 0, 4 } }; int pk = it % 4, e1 = it / 4;
    int inv = pr[pk][0], tgt = pr[pk][1];
    if (e1 == 0) {                                                /* no process for the editor */
        machine(); me = US[inv].u; tab_stdin = ""; tab_stdinlen = 0; editor = NULL; fork_fails = 1; snapshot(&S0); char *av[6] = { "fcrontab", "-e", tgt != inv ? "-u" : NULL, (char *)US[tgt].n, NULL }; int rc = run(tgt != inv ? 4 : 2, av); snapshot(&S1); fork_fails = 0; mc_eval(1);
        char *d = differs(NULL); if (rc == 0 || d) { char g[500]; snprintf(g, sizeof g, "editing when no process can be made: %s", d ? d : "success"); mc_violation(g, "%s", g); }
    }
    seq[0] = e1; nseq = 1; for (int env = 0; env < 6; env++) for (int a = 0; a < NA; a++) edit(inv, tgt, env, a);
    if (e1 == E_BAD) for (int e2 = 0; e2 < NE; e2++) { seq[1] = e2; nseq = 2; for (int a = 0; a < NA; a++) { nseq = 2; edit(inv, tgt, a % 6, a); for (int e3 = 0; e3 < NE; e3++) { seq[2] = e3; nseq = 3; edit(inv, tgt, a % 6, a); } } }
}
int harness_main(void)
{
    if (!strcmp(mc_arg, "C46")) mc_items(2 * 3 * NT, item_words);
    else if (!strcmp(mc_arg, "C46:edit")) mc_items(2 * 4 * NE, item_edit);
    return 0;
}
