/* C18-C21: what is saved comes back; crashes, damage and write errors.
 * C29: fcrontab's own file operations, crashing or failing anywhere. */
#include "disk.h"

static char *xs(const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return strdup(b); }
static char *diffat(const char *a, const char *b)
{
    static char o[1200]; int i = 0; while (a[i] && a[i] == b[i]) i++; int s = i; while (s > 0 && a[s - 1] != '\n') s--; if (i - s > 250) s = i - 250;
    const char *e1 = strchr(a + i, '\n'), *e2 = strchr(b + i, '\n'); int n1 = e1 ? e1 - (a + s) : (int)strlen(a + s), n2 = e2 ? e2 - (b + s) : (int)strlen(b + s); if (n1 > 500) n1 = 500; if (n2 > 500) n2 = 500;
    snprintf(o, sizeof o, "<%.*s> instead of <%.*s>", n2, b + s, n1, a + s); return o;
}
static void put_user(const char *u, const char *text) { ebin b = eng_compile(u, text); eng_put_new(u, &b); free(b.data); }
/* a spool with the users' fcrontabs already loaded and saved once by the daemon */
static void settle(void) { drun("wt"); }

/* ================================================================ C18: every field comes back */
typedef struct { const char *f; long v; } mut;
static mut M[4]; static int nM;
static const char *f18[] = { "shell", "runas", "mailto", "mailfrom", "tz", "until", "nice", "jitter", "lavg0", "lavg1", "lavg2", "runfreq", "remain", "next", "first", "timefreq", "optbit", "min", "hr", "day", "mon", "dow", "tzdiff", "env", "envlen", "lines" };
static cl_t *line18; static cf_t *file18; static int kind18;
static char *longstr(int n, int s) { static char b[4][1100]; static int k; char *o = b[k++ & 3]; for (int i = 0; i < n; i++) o[i] = 'a' + (i * 7 + s) % 26; o[n] = 0; return o; }
static int apply(const char *f, long v)
{
#define IS(x) !strcmp(f, x)
    cl_t *c = line18; int td = is_td(c->cl_option);
    if (IS("shell")) { if (v < 1 || v > 1020) return 0; free(c->cl_shell); c->cl_shell = strdup(longstr(v, 1)); }
    else if (IS("runas")) { static const char *t[] = { "root", "alice", "bob", "u234567890123456789012345678901" }; if (v < 0 || v > 3) return 0; free(c->cl_runas); c->cl_runas = strdup(t[v]); }
    else if (IS("mailto")) { if (v < 1 || v > 300) return 0; free(c->cl_mailto); c->cl_mailto = strdup(longstr(v, 2)); }
    else if (IS("mailfrom")) { if (v > 300) return 0; free(c->cl_mailfrom); c->cl_mailfrom = v < 0 ? NULL : strdup(longstr(v, 3)); }
    else if (IS("tz")) { static const char *t[] = { NULL, "UTC", "Europe/Paris", ":America/New_York", "X" }; if (v < 0 || v > 4) return 0; free(c->cl_tz); c->cl_tz = t[v] ? strdup(t[v]) : NULL; }
    else if (IS("until")) { if (v < 0) return 0; c->cl_until = v; }
    else if (IS("nice")) { if (v < -20 || v > 19) return 0; c->cl_nice = v; }
    else if (IS("jitter")) { if (v < 0 || v > 255) return 0; c->cl_jitter = v; }
    else if (IS("lavg0") || IS("lavg1") || IS("lavg2")) { if (v < 0 || v > 255) return 0; c->cl_lavg[f[4] - '0'] = v; if (c->cl_lavg[0] || c->cl_lavg[1] || c->cl_lavg[2]) set_lavg(c->cl_option); else clear_lavg(c->cl_option); }
    else if (IS("runfreq")) { if (!td || v < 0 || v > 65535 || (v == 1) != (kind18 == 2)) return 0; c->cl_runfreq = v; }
    else if (IS("remain")) { if (!td || c->cl_runfreq == 0 || v < 0 || v > 65535) return 0; c->cl_remain = v; }
    else if (IS("next")) { if (v <= 0 || V.now_us / 1000000 + v > 900000000000L) return 0; c->cl_nextexe = V.now_us / 1000000 + v; }
    else if (IS("first")) { if (td || v < 0) return 0; c->cl_first = v; }
    else if (IS("timefreq")) { if (td || v < 1) return 0; c->cl_timefreq = v; }
    else if (IS("optbit")) {
        if (v < 0 || v >= 8 * OPTION_SIZE) return 0; unsigned char o[OPTION_SIZE]; memcpy(o, c->cl_option, OPTION_SIZE); o[v / 8] ^= 1 << (v % 8);
        if (is_td(o) != td || is_lavg(o) != is_lavg(c->cl_option) || is_volatile(o) != is_volatile(c->cl_option) || is_hasrun(o) != is_hasrun(c->cl_option)) return 0;
        memcpy(c->cl_option, o, OPTION_SIZE); }
    else if (IS("min")) { if (!td || v < 0 || v > 59) return 0; c->cl_mins[v / 8] ^= 1 << (v % 8); }
    else if (IS("hr")) { if (!td || v < 0 || v > 23) return 0; c->cl_hrs[v / 8] ^= 1 << (v % 8); }
    else if (IS("day")) { if (!td || v < 1 || v > 31) return 0; c->cl_days[v / 8] ^= 1 << (v % 8); }
    else if (IS("mon")) { if (!td || v < 0 || v > 11) return 0; c->cl_mons[v / 8] ^= 1 << (v % 8); }
    else if (IS("dow")) { if (!td || v < 0 || v > 7) return 0; c->cl_dow[v / 8] ^= 1 << (v % 8); }
    else if (IS("tzdiff")) { if (v < -24 || v > 24) return 0; file18->cf_tzdiff = v; }
    else if (IS("env")) { if (v < 0 || v > 300) return 0; for (long i = 0; i < v; i++) { char b[60]; snprintf(b, 60, "E%ld=%s", i, longstr(i % 30, i)); env_list_putenv(file18->cf_env_list, b, 1); } }
    else if (IS("envlen")) { if (v < 0 || v > 1017) return 0; char b[1100]; snprintf(b, sizeof b, "XX=%s", longstr(v, 5)); env_list_putenv(file18->cf_env_list, b, 1); }
    else return 0;
    return 1;
}
static int applied;
static void mut18(int c)
{
    (void)c; applied = 1;
    for (file18 = file_base; file18 && strcmp(file18->cf_user, "root"); file18 = file18->cf_next) ;
    if (!file18) { applied = 0; return; }
    for (line18 = file18->cf_line_base; line18 && strcmp(line18->cl_shell, "TARGET"); line18 = line18->cl_next) ;
    if (!line18) { applied = 0; return; }
    for (int i = 0; i < nM; i++) if (!apply(M[i].f, M[i].v)) applied = 0;
}
static ebin bin18[3];
static void run18(void)
{
    eng_init(); vos_set_time(1706000000); if (!bin18[kind18].data) { static const char *t[] = { "& 3 4 5 * * before\n&lavg(1,0,0),until(10),mailfrom(x) 5 6 7 8 * TARGET\n@ 3d after\n", "& 3 4 5 * * before\n@first(2h),mailto(bob) 10h TARGET\n%daily 3 4 after\n", "V=1\n@ 7d before\n%monthly,jitter(3) 5 6 10-12 TARGET\n& 1 1 1 * * after\n" }; bin18[kind18] = eng_compile("root", t[kind18]); }
    eng_put_new("root", &bin18[kind18]); settle();
    dcall = mut18; duser = "root"; dhow = DS_DYN; drun("msut"); dcall = NULL; char *a = ndgot ? dgot[0] : strdup("?"); ndgot = 0;
    if (!applied) { free(a); return; }
    drun("s"); char *b = ndgot ? dgot[0] : strdup("?"); ndgot = 0;
    char d[300]; int n = 0; for (int i = 0; i < nM; i++) n += snprintf(d + n, sizeof d - n, "%s%s=%ld", i ? " " : "", M[i].f, M[i].v);
    mc_eval(1); mc_outcome(vos_hash(kind18 + 1, a, strlen(a)));
    /* the time zone, jitter and dates of a line have an effect on nothing that is compared */
    if (strcmp(a, b)) { char s[150]; snprintf(s, sizeof s, "not restored: %s%s%s", M[0].f, nM > 1 ? " with " : "", nM > 1 ? M[1].f : ""); mc_violation(s, "line type %d, %s: saved and read again gives %s", kind18, d, diffat(a, b)); }
    free(a); free(b);
}
static const long v18[] = { -20, -10, -1, 0, 1, 2, 3, 7, 19, 23, 24, 59, 60, 127, 128, 255, 256, 300, 1000, 1017, 1020, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 80000000000 };
#define NV18 (int)(sizeof v18 / sizeof *v18)
#define NF18 (int)(sizeof f18 / sizeof *f18)
/* lines of all sorts of lengths: each field falls at each place of the buffer the file is written through */
static void align18(int len)
{
    eng_init(); vos_set_time(1706000000); static char t[8000]; int n = 0;
    n += sprintf(t + n, "AB=%s\n", longstr(len % 50, 3)); n += sprintf(t + n, "& 3 4 5 * * %s\n", longstr(len, 1)); n += sprintf(t + n, "&lavg(1,2,3),until(10),nice(-3),mailfrom(x),mailto(bob),timezone(Europe/Paris),jitter(9) 5 6 7 8 * TARGET\n%%monthly 5 6 10-12 second\n@first(2h) 10h %s\n", longstr((len * 37) % 900 + 1, 2));
    put_user("root", t); duser = "root"; dhow = 0; drun("st"); char *a = ndgot ? dgot[0] : strdup("?"); ndgot = 0;
    if (!strstr(a, "TARGET") || !strstr(a, "second") || !strstr(a, longstr(len, 1))) mc_violation("line lost when installed", "command of %d characters: %.3000s", len, a);
    for (int k = 0; k < 2; k++) { drun("st"); char *b = ndgot ? dgot[0] : strdup("?"); ndgot = 0; mc_eval(1); if (strcmp(a, b)) { mc_violation("not restored, by length", "first command of %d characters: %s", len, diffat(a, b)); } free(b); }
    mc_outcome(vos_hash(99, t, n)); free(a);
}
/* files of earlier versions, which lack some fields or have new ones between the others */
static void put16(unsigned char **p, int v) { short s = v; memcpy(*p, &s, 2); *p += 2; }
static void compat18(int k)
{
    /* three @-lines, the field "first" being there for the lines of the bits of k only: the others have the date of their next execution as first */
    eng_init(); vos_set_time(1706000000); put_user("root", "@first(1h) 10h L0\n@first(2h) 20h L1\n@first(3h) 30h L2\n"); vinode *n = vos_file(SPOOL "/new.root"); static unsigned char o[8000]; unsigned char *q = o; int line = 0; long nx8[4] = { 0 }, fw[4] = { 0 };
    for (size_t i = 0; i + 4 <= n->len; ) { short ty, sz; memcpy(&ty, n->data + i, 2); memcpy(&sz, n->data + i + 2, 2); if (!(ty == 2018 && !(k >> line & 1))) { memcpy(q, n->data + i, 4 + sz); if (ty == 2008) { long nx = 777 * (line + 1); memcpy(q + 4, &nx, sz); nx8[line] = nx; } q += 4 + sz; } if (ty == 2018 && line < 3) memcpy(&fw[line], n->data + i + 4, sizeof(long)); if (ty == 2000) line++; i += 4 + sz; }
    vos_put(SPOOL "/new.root", o, q - o, 0, 200, 0600); duser = "root"; dhow = DS_ORDER; extern void getfirst(int); extern long first18[3]; dcall = getfirst; drun("q"); dcall = NULL; mc_eval(1); mc_outcome(900 + k);
        for (int i = 0; i < 3; i++) { long w = k >> i & 1 ? fw[i] : nx8[i]; if (first18[i] != w) mc_violation("first of a line of an older file", "line %d (first %s the file, bits %d) has a first of %ld instead of %ld", i, k >> i & 1 ? "in" : "not in", k, first18[i], w); }
}
long first18[3]; void getfirst(int c) { (void)c; first18[0] = first18[1] = first18[2] = -99; for (cf_t *f = file_base; f; f = f->cf_next) for (cl_t *l = f->cf_line_base; l; l = l->cl_next) if (l->cl_shell[0] == 'L') first18['2' - l->cl_shell[1]] = l->cl_first; }
static void item18(long it)
{
    kind18 = it % 3; long j = it / 3;
    if (j < NF18) { const char *f = f18[j]; for (long v = -25; v <= 310; v++) { M[0] = (mut){ f, v }; nM = 1; run18(); } for (int i = 0; i < NV18; i++) { M[0] = (mut){ f, v18[i] }; nM = 1; if (v18[i] > 310) run18(); } return; }
    j -= NF18;
    if (j < NF18) { for (int g = j + 1; g < NF18; g++) for (int a = 0; a < NV18; a += mc_thorough ? 1 : 3) for (int b = 0; b < NV18; b += mc_thorough ? 1 : 3) { if (mc_stop()) return; M[0] = (mut){ f18[j], v18[(a + j) % NV18] }; M[1] = (mut){ f18[g], v18[(b + g) % NV18] }; nM = 2; run18(); } return; }
    j -= NF18;
    if (j < 16) { for (int l = 1 + j * 3 + kind18; l <= 1000; l += 48) align18(l); return; }
    for (int k = kind18; k < 8; k += 3) compat18(k);
}

/* ================================================================ crash scenarios (C19, C21) */
#define A_TEXT "MAILTO=alice\nV1=old\n& 5 6 7 8 * A1\n@first(3h) 10h A2\n%monthly 5 6 10-12 A3\n"
static char b_text[6000];
static const char *BIG(void) { if (!*b_text) { strcpy(b_text, "V1=new\nV2=x\n"); for (int i = 0; i < 24; i++) sprintf(b_text + strlen(b_text), "&nice(%d),mailto(m%d) %d %d %d * * B%d %s\n", i % 19, i, i, i % 24, i % 28 + 1, i, longstr(40 + i, i)); } return b_text; }
typedef struct { const char *name; int rm, nw, old; const char *script; int wait; } scen;
/* old: alice's A is loaded and saved; rm, nw: rm.alice, new.alice (B) there; script: run under the log, L starts it */
static const scen S19[] = {
    { "install over an older fcrontab, daemon running", 0, 2, 1, "NLhk" }, { "first installation, daemon running", 0, 2, 0, "NLhk" },
    { "install at start", 0, 1, 1, "Lk" }, { "first installation at start", 0, 1, 0, "Lk" },
    { "removal, daemon running", 2, 0, 1, "NLhk" }, { "removal at start", 1, 0, 1, "Lk" }, { "removal and installation", 2, 2, 1, "NLhk" }, { "removal and installation at start", 1, 1, 1, "Lk" },
    { "periodic save", 0, 0, 1, "Lwwwwwwk" }, { "save at the end", 0, 0, 1, "wLt" }, { "reload of all", 0, 0, 1, "wLuk" }, { "install, then save at the end", 0, 2, 1, "NLht" },
};
#define NS19 (int)(sizeof S19 / sizeof *S19)
static const scen *sc19; static ebin binA, binB;
static int log_on;
static void call19(int c)
{
    if (c == 'L') { vos_log_start(); log_on = 1; }
    if (c == 'N') { if (sc19->rm == 2) eng_put_rm("alice"); if (sc19->nw == 2) eng_put_new("alice", &binB); }
}
static void before19(void)
{
    eng_init(); vos_set_time(1706000000);
    if (!binA.data) { binA = eng_compile("alice", A_TEXT); binB = eng_compile("alice", BIG()); eng_init(); vos_set_time(1706000000); }
    put_user("bob", "X=1\n& 1 2 3 4 * C1\n@ 2h C2\n"); put_user("root", "& 1 2 3 4 * R1\n");
    if (sc19->old) eng_put_new("alice", &binA); settle();
    if (sc19->rm == 1) eng_put_rm("alice"); if (sc19->nw == 1) eng_put_new("alice", &binB);
}
static char *stat_A, *stat_B, *stat_bob, *stat_root;
static void refs19(void)
{
    eng_init(); vos_set_time(1706000000); if (!binA.data) { binA = eng_compile("alice", A_TEXT); binB = eng_compile("alice", BIG()); }
    eng_put_new("alice", &binA); put_user("bob", "X=1\n& 1 2 3 4 * C1\n@ 2h C2\n"); put_user("root", "& 1 2 3 4 * R1\n"); free(stat_A); free(stat_B); free(stat_bob); free(stat_root);
    stat_A = load_sig("alice", 0); stat_bob = load_sig("bob", 0); stat_root = load_sig("root", 0);
    eng_init(); vos_set_time(1706000000); eng_put_new("alice", &binB); stat_B = load_sig("alice", 0);
}
static void check19(int k, unsigned long mask, int depth, const char *how)
{
    char *a = load_sig("alice", 0), *b = load_sig("bob", 0), *r = load_sig("root", 0); mc_eval(1);
    int okA = sc19->old && !strcmp(a, stat_A) && !(sc19->rm == 1) && !(sc19->nw == 1), okB = sc19->nw && !strcmp(a, stat_B), okN = !strcmp(a, "(none)") && ((sc19->rm && !sc19->nw) || (sc19->rm == 0 && sc19->nw == 2 && !sc19->old));
    char w[100]; snprintf(w, sizeof w, "%s", !strcmp(a, "(none)") ? "lost" : "neither the old nor the new fcrontab");
    if (!okA && !okB && !okN) { char s[200]; snprintf(s, sizeof s, "%s: %s", sc19->name, w); mc_violation(s, "%s, stopped after %d operations%s%s (losses %lx): the daemon then has %.600s", sc19->name, k, depth ? " and again in the recovery" : "", how, mask, a); }
    if (strcmp(b, stat_bob) || strcmp(r, stat_root)) { char s[200]; snprintf(s, sizeof s, "%s: another user's fcrontab", sc19->name); mc_violation(s, "%s, stopped after %d operations (losses %lx): bob's %s, root's %s", sc19->name, k, mask, diffat(stat_bob, b), diffat(stat_root, r)); }
    mc_outcome(vos_fs_hash(vos_hash(3, sc19->name, 5), 0)); free(a); free(b); free(r);
}
static unsigned long pow4(int u) { return u > 4 ? 256 : 1UL << (2 * u); }
static void crash_all(int depth, int k0)
{
    int N = V.nops; if (!depth) mc_count("operations logged", N);
    for (int k = 0; k <= N; k++) {
        int uns = 0; vos_crash_state(k, 0, &uns); mc_count("crash points", 1);
        for (unsigned long m = 0; m < pow4(uns); m++) {
            int bad = 0; for (int i = 0; i < 4; i++) if (((m >> (2 * i)) & 3) == 3) bad = 1; if (bad) continue;   /* lost and torn: once */
            if (mc_stop()) return;
            mc_arm(); vos_crash_state(k, m, NULL); V.log_ops = 0; mc_count("crash states", 1);
            if (!depth && m == 0 && (mc_thorough || sc19->nw || sc19->rm)) {
                vlog l; vos_log_save(&l); vos_log_start(); drun("k"); if (V.nops) crash_all(1, k); vos_log_restore(&l); vos_crash_state(k, m, NULL);
            }
            V.log_ops = 0; check19(k, m, depth, "");
            V.log_ops = 1;
        }
    }
    V.log_ops = 0; (void)k0;
}
static void item19(long i)
{
    sc19 = &S19[i]; refs19(); before19(); dcall = call19; log_on = 0;
    if (strchr(sc19->script, 'L') == sc19->script) { vos_log_start(); drun(sc19->script + 1); } else drun(sc19->script);
    dcall = NULL; V.log_ops = 0; dgot_free();
    /* the last state must be the new one */
    crash_all(0, 0);
}

/* ================================================================ C21: failing calls */
static int nfault, maxfault, shortmode, hard, in_run; static char flog[1000];
/* the v-th error of calls which may only fail */
static int hard_err(int rn, int o, int un, int ch, int v) { return rn ? (v == 1 ? EACCES : EIO) : o ? (v == 1 ? EACCES : EMFILE) : un ? (v == 1 ? EACCES : EROFS) : ch ? (v == 1 ? EIO : EPERM) : EIO; }
static int fault21(const char *call, const char *path)
{
    if (in_child || !in_run || !V.log_ops) return 0;
    int sp = !strncmp(path, SPOOL, strlen(SPOOL)) || path[0] != '/'; if (path[0] == '|') return 0; if (!sp) return 0;
    if (!strcmp(call, "write") && shortmode) { if (shortmode == 1) return -3; if (shortmode == 2) return -2; static int alt; if (shortmode == 3) { alt = !alt; return alt ? EINTR : -3; } }
    int w = !strcmp(call, "write"), s = !strcmp(call, "fdatasync"), c = !strcmp(call, "close"), o = !strcmp(call, "open"), rn = !strcmp(call, "rename"), ch = !strcmp(call, "fchown") || !strcmp(call, "fchmod") || !strcmp(call, "fstat"), un = !strcmp(call, "unlink"), rd = !strcmp(call, "read");
    if (!w && !s && !c && !o && !rn && !ch && !un && !rd) return 0;
    if (un && strstr(path, "rm.")) return 0;      /* a removal which stays requested is no failing save */
    if (nfault >= maxfault) return 0;
    /* 0: goes well */
    int n = w ? 6 : s || rn || o || un || ch ? 3 : 2; int v = mc_choose(n, call); if (!v) return 0;
    nfault++; int e;
    if (w) e = v == 1 ? EIO : v == 2 ? ENOSPC : v == 3 ? EINTR : v == 4 ? -2 : -3; else if (s) e = v == 1 ? EIO : EINTR; else e = hard_err(rn, o, un, ch, v);
    if (e != EINTR && e != -2 && e != -3) hard++;
    size_t l = strlen(flog); snprintf(flog + l, sizeof flog - l, " %s(%s)=%s", call, path, e == -2 ? "half" : e == -3 ? "1 byte" : strerror(e)); mc_note("  %s(%s) -> %s\n", call, path, e == -2 ? "half" : e == -3 ? "1 byte" : strerror(e));
    return e;
}
static char *memsig; static int fault21b(const char *c, const char *p) { int e = fault21(c, p); return e ? e : eng_fault(c, p); }
static void call21(int c) { call19(c); if (c == 'm') { free(memsig); memsig = conf_sig("alice", 0); V.log_ops = 0; } }
static void body21(void *a)
{
    long i = (long)a; sc19 = &S19[i % NS19]; shortmode = i / NS19; maxfault = shortmode ? 1 : mc_thorough ? 3 : 2; refs19(); before19(); memsig = NULL; hard = nfault = 0; flog[0] = 0; in_run = 1; derrors = 0; vos_log_hook = dlog;
    char scr[40]; snprintf(scr, sizeof scr, "%s", sc19->script); char *k = strchr(scr, 'k'); if (k) strcpy(k, "m");
    dcall = call21; vos_fault_hook = fault21b;
    char *s = scr; if (*s == 'L') { vos_log_start(); s++; }
    int rc = drun(s); dcall = NULL; vos_fault_hook = eng_fault; vos_log_hook = NULL; in_run = 0; V.log_ops = 0; mc_eval(1); mc_outcome(vos_hash(vos_hash(i + 5, flog, strlen(flog)), "f", 1));
    const char *want = sc19->nw ? stat_B : sc19->rm ? "(none)" : stat_A;
    int ends = strchr(scr, 't') != NULL;
    if (!ends && rc != -9) mc_violation("daemon exits on a failing call", "%s:%s: exit code %d", sc19->name, flog, rc);
    if (ends && rc != 0) mc_violation("daemon fails to stop", "%s:%s: exit code %d", sc19->name, flog, rc);
    if (memsig && !hard && strcmp(memsig, want)) { char g[200]; snprintf(g, sizeof g, "%s: interruptions or short transfers", sc19->name); mc_violation(g, "%s:%s, short mode %d: the daemon has %.300s", sc19->name, flog, shortmode, memsig); }
    if (hard && !derrors) mc_violation("failure without a message", "%s:%s", sc19->name, flog);
    char *d1 = load_sig("alice", 0), *b = load_sig("bob", 0), *r = load_sig("root", 0);
    /* an installed fcrontab is never lost; a removal that failed may be found again not done */
    int ok = !strcmp(d1, want) || (hard && sc19->rm && !sc19->nw && !strcmp(d1, stat_A));
    if (!ok) { char g[200]; snprintf(g, sizeof g, "%s: %s", sc19->name, !hard ? "interruptions or short transfers alone" : !strcmp(d1, "(none)") ? "fcrontab lost after an error" : !strcmp(d1, stat_A) ? "installation lost after an error" : "incomplete after an error"); mc_violation(g, "%s:%s, short mode %d: at the next start the daemon has %.400s", sc19->name, flog, shortmode, d1); }
    if (strcmp(b, stat_bob) || strcmp(r, stat_root)) mc_violation("another user's fcrontab", "%s:%s: %.300s", sc19->name, flog, strcmp(b, stat_bob) ? b : r);
    mc_state(vos_fs_hash(7, 0));
}
static void do21(void) { for (long i = 0; i < NS19 * 4; i++) { if (mc_stop()) break; mc_explore(body21, (void *)i); } }

/* ================================================================ C20: damaged files */
static const char *dmg_what; static char dmg_desc[200]; static int dmg_new;      /* the damaged file is new.alice, else alice */
static unsigned char *base20[2]; static size_t len20[2]; static char *ref20[6]; static int nref20;   /* the lines of alice's fcrontab, in the order of the file */
typedef struct { int off, type, size, line; } fld; static fld fl[2][400]; static char nm20[2][8]; static int nfl[2];
static vos_state *snap20[2]; static void fs_copy(vos_state *d, const vos_state *s)
{ for (int i = 0; i < VOS_MAXINO; i++) { d->ino[i] = s->ino[i]; if (s->ino[i].used && s->ino[i].data) { d->ino[i].data = malloc(s->ino[i].len + 16); memcpy(d->ino[i].data, s->ino[i].data, s->ino[i].len); d->ino[i].cap = s->ino[i].len + 16; } } memcpy(d->ent, s->ent, sizeof s->ent); d->nino = s->nino; d->nent = s->nent; }
static void fs_back(const vos_state *s) { for (int i = 0; i < VOS_MAXINO; i++) if (V.ino[i].used) free(V.ino[i].data); fs_copy(&V, s); }
static void setup20(void)
{
    static const char *at = "MAILTO=alice\nV1=old\n&lavg(1,0,0),until(10),mailfrom(x),nice(4),runfreq(2) 5 6 7 8 * A1\n@first(1),runonce 10h A2 b c\n%monthly,jitter(3),timezone(UTC) 5 6 10-12 A3\n& * * * * * A4\n&serial,bootrun 0-59/2 * * * * A5\n";
    if (base20[0]) return;
    for (int k = 0; k < 2; k++) {
        eng_init(); vos_set_time(1706000030); put_user("bob", "X=1\n& 1 2 3 4 * C1\n@ 2h C2\n"); put_user("root", "& 1 2 3 4 * R1\n");
        if (k == 0) { ebin b = eng_compile("alice", at); eng_put_new("alice", &b); settle(); } else { ebin b = eng_compile("alice", "& 2 2 2 2 * OLD\n"); eng_put_new("alice", &b); settle(); b = eng_compile("alice", at); eng_put_new("alice", &b); }
        vinode *n = vos_file(k ? SPOOL "/new.alice" : SPOOL "/alice"); base20[k] = malloc(len20[k] = n->len); memcpy(base20[k], n->data, n->len);
        int ln = 0; nfl[k] = 0; for (size_t i = 0; i + 4 <= n->len; ) { short ty, sz; memcpy(&ty, n->data + i, 2); memcpy(&sz, n->data + i + 2, 2); fl[k][nfl[k]++] = (fld){ i, ty, sz, ln }; if (ty == 2001) nm20[k][ln] = n->data[i + 5]; if (ty == 2000) ln++; i += 4 + sz; }
        if (ln != 5) { fprintf(stderr, "C20: %d lines\n", ln); abort(); }
        snap20[k] = calloc(1, sizeof(vos_state)); fs_copy(snap20[k], &V);
    }
}
static char *sig20[3]; static int nobs20; static char bad20[300];
static int lines20(const char *sig, const char *nm) { char k[20]; snprintf(k, 20, "cmd=<%s", nm); return strstr(sig, k) != NULL; }
static void check20(int c)
{
    (void)c; long n = 0; static const char *u[] = { "alice", "bob", "root" };
    for (int i = 0; i < 3; i++) { free(sig20[i]); sig20[i] = conf_sig(u[i], 0); }
    for (int i = 0; i < neo; i++) if (eo[i].type == 'E' && !strncmp(eo[i].cmd, "child status", 12)) snprintf(bad20, sizeof bad20, "a job's process died: %s", eo[i].cmd);
    for (job_t *j = queue_base; j && n < 10000; j = j->j_next, n++) { int f = 0; for (cf_t *q = file_base; q && !f; q = q->cf_next) for (cl_t *l = q->cf_line_base; l; l = l->cl_next) if (l == j->j_line) f = 1; if (!f) snprintf(bad20, sizeof bad20, "a job in the schedule is of no loaded fcrontab"); }
    if (n >= 10000) snprintf(bad20, sizeof bad20, "the schedule loops");
    for (job_t *a = queue_base; a; a = a->j_next) for (job_t *b = a->j_next; b; b = b->j_next) if (a->j_line == b->j_line) snprintf(bad20, sizeof bad20, "a line is twice in the schedule");
}
static char *want20[2];
static void viol20(const char *what) { char g[200]; snprintf(g, sizeof g, "%s %s: %s", dmg_new ? "new file" : "saved file", dmg_what, what); mc_violation(g, "%s: %s; alice's fcrontab is %.300s", dmg_desc, what, sig20[0] ? sig20[0] : "?"); }
/* give the daemon this file: returns with sig20 = what it has; keep: lines (bits) that must be there, only: lines that may be */
static void dmg(const unsigned char *d, size_t n, int keep, int only)
{
    mc_arm(); mc_ctx = dmg_desc; mc_ctxlen = strlen(dmg_desc);
    fs_back(snap20[dmg_new]); neo = 0; vos_set_time(1706000030); vos_put(dmg_new ? SPOOL "/new.alice" : SPOOL "/alice", d, n, dmg_new ? 1001 : 0, dmg_new ? 1001 : 0, 0600);
    if (!want20[0]) { fs_back(snap20[0]); want20[0] = load_sig("bob", 0); want20[1] = load_sig("root", 0); dmg(d, n, keep, only); return; }
    bad20[0] = 0; dcall = check20; int rc = drun("cwcwcwt"); mc_eval(1);
    if (rc != 0) { char w[60]; snprintf(w, sizeof w, "the daemon ends with %d", rc); viol20(w); }
    for (int p = 0; p < 2; p++) {
        if (*bad20) viol20(bad20);
        else if (!sig20[1] || strcmp(sig20[1], want20[0])) viol20("bob's fcrontab is not as it was");
        else if (!sig20[2] || strcmp(sig20[2], want20[1])) viol20("root's fcrontab is not as it was");
        else for (int i = 0; i < 5; i++) { char nm[4] = { 'A', nm20[dmg_new][i], 0 }; int h = lines20(sig20[0], nm);
            if ((keep >> i & 1) && !h) { viol20("an intact line is not loaded"); break; } if (only >= 0 && !(only >> i & 1) && h) { viol20("a line that is not complete is loaded"); break; } }
        if (p || (mc_thorough == 0 && (n & 3))) break;
        bad20[0] = 0; sig20[1] = sig20[2] = NULL; rc = drun("cwct"); if (rc != 0) viol20("the daemon does not start again");
    }
    dcall = NULL; mc_outcome(vos_hash(dmg_new, sig20[0] ? sig20[0] : "", sig20[0] ? strlen(sig20[0]) : 0));
}
static unsigned char tmp20[70000];
static void put2(unsigned char *p, int v) { short s = v; memcpy(p, &s, 2); }
#define N20 (2 * (16 + 32 + 64))
static void item20(long it)
{
    setup20(); dmg_new = it & 1; it >>= 1; unsigned char *b = base20[dmg_new]; int n = len20[dmg_new], nf = nfl[dmg_new]; fld *f = fl[dmg_new];
    if (it < 16) {          /* truncation, and rubbish after the end */
        dmg_what = "truncated"; for (int l = it; l <= n; l += 16) { if (mc_stop()) return; int full = 0; for (int i = 0; i < nf; i++) if (f[i].type == 2000 && f[i].off + 4 <= l) full |= 1 << f[i].line;
            int edge = l == n; for (int i = 0; i < nf; i++) if (f[i].off == l && i && f[i - 1].type == 2000) edge = 1;
            snprintf(dmg_desc, sizeof dmg_desc, "cut after %d of %d bytes", l, n); dmg(b, l, edge ? full : 0, full); }
        dmg_what = "with rubbish at its end"; for (int l = 1 + it; l <= 64; l += 16) for (int v = 0; v < 3; v++) { memcpy(tmp20, b, n); memset(tmp20 + n, v == 0 ? 0 : v == 1 ? 255 : 7, l); snprintf(dmg_desc, sizeof dmg_desc, "%d bytes added", l); dmg(tmp20, n + l, 0, 31); }
        return; }
    it -= 16;
    if (it < 32) {          /* fields */
        static const int ty[] = { 0, -1, -32768, 1, 2, 3, 4, 5, 999, 1000, 1001, 1999, 2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2009, 2010, 2011, 2012, 2013, 2014, 2015, 2016, 2017, 2018, 2019, 2020, 2021, 2022, 3000, 32767 };
        for (int i = it; i < nf; i += 32) {
            int o = f[i].off, z = f[i].size, e = o + 4 + z, others = 31 & ~(1 << f[i].line), body = f[i].type >= 2000;
            static const int dz[] = { -1, -32768, 0, 1, 2, 3, 4, 7, 8, 9, 10, 16, 17, 255, 4096, 32767 };
            for (size_t k = 0; k < sizeof ty / sizeof *ty; k++) { if (mc_stop()) return; memcpy(tmp20, b, n); put2(tmp20 + o, ty[k]); dmg_what = "with a field's type changed"; snprintf(dmg_desc, sizeof dmg_desc, "field %d (type %d, size %d): type %d", i, f[i].type, z, ty[k]); dmg(tmp20, n, 0, -1); }
            for (size_t k = 0; k < sizeof dz / sizeof *dz + 2; k++) { int v = k < sizeof dz / sizeof *dz ? dz[k] : z + (k & 1 ? 1 : -1); memcpy(tmp20, b, n); put2(tmp20 + o + 2, v); dmg_what = "with a field's size changed"; snprintf(dmg_desc, sizeof dmg_desc, "field %d (type %d, size %d): size %d", i, f[i].type, z, v); dmg(tmp20, n, 0, -1);
                /* the same with as much data as told */
                if (v >= 0) { memcpy(tmp20, b, o + 4); put2(tmp20 + o + 2, v); for (int q = 0; q < v; q++) tmp20[o + 4 + q] = q < z ? b[o + 4 + q] : 'z'; memcpy(tmp20 + o + 4 + v, b + e, n - e); dmg_what = "with a field of another size"; dmg(tmp20, n - z + v, 0, 31); } }
            dmg_what = "with a field missing"; snprintf(dmg_desc, sizeof dmg_desc, "field %d (type %d) missing", i, f[i].type); memcpy(tmp20, b, o); memcpy(tmp20 + o, b + e, n - e); dmg(tmp20, n - 4 - z, body && f[i].type != 2000 ? others : 0, -1);
            dmg_what = "with a field twice"; snprintf(dmg_desc, sizeof dmg_desc, "field %d (type %d) twice", i, f[i].type); memcpy(tmp20, b, e); memcpy(tmp20 + e, b + o, n - o); dmg(tmp20, n + 4 + z, body ? others : 0, -1);
            if (i + 1 < nf) { int e2 = f[i + 1].off + 4 + f[i + 1].size; dmg_what = "with fields swapped"; snprintf(dmg_desc, sizeof dmg_desc, "fields %d and %d (types %d, %d) swapped", i, i + 1, f[i].type, f[i + 1].type); memcpy(tmp20, b, o); memcpy(tmp20 + o, b + e, e2 - e); memcpy(tmp20 + o + e2 - e, b + o, e - o); memcpy(tmp20 + e2, b + e2, n - e2); dmg(tmp20, n, body && f[i].type != 2000 && f[i + 1].type != 2000 ? others : 0, -1); }
            if (i >= 3) { static const int us[] = { 0, 1, 5, 8, 1000, 32767 }; for (int k = 0; k < 6; k++) { memcpy(tmp20, b, o); put2(tmp20 + o, 3000); put2(tmp20 + o + 2, us[k]); memset(tmp20 + o + 4, 'u', us[k]); memcpy(tmp20 + o + 4 + us[k], b + o, n - o); dmg_what = "with an unknown field"; snprintf(dmg_desc, sizeof dmg_desc, "unknown field of %d bytes before field %d (type %d)", us[k], i, f[i].type); dmg(tmp20, n + 4 + us[k], i && (f[i - 1].type == 2000 || f[i - 1].type < 2000) ? 31 : others, 31); } }
        }
        return; }
    it -= 32;
    {   int q[260], nq = 0; dmg_what = "with a byte changed";
        for (int o = it; o < n; o += 64) {
            nq = 0; if (mc_thorough) for (int v = 0; v < 256; v++) q[nq++] = v; else { int c = b[o]; int t[] = { 0, 255, c ^ 1, c ^ 128, (c + 1) & 255, (c - 1) & 255, 127, 0x20 }; for (int k = 0; k < 8; k++) q[nq++] = t[k]; }
            for (int k = 0; k < nq; k++) { if (mc_stop()) return; if (q[k] == b[o]) continue; memcpy(tmp20, b, n); tmp20[o] = q[k]; int fi = 0; while (fi + 1 < nf && f[fi + 1].off <= o) fi++;
                int data = o >= f[fi].off + 4 && f[fi].type >= 2000; snprintf(dmg_desc, sizeof dmg_desc, "byte %d (field %d, type %d, size %d) 0x%02x instead of 0x%02x", o, fi, f[fi].type, f[fi].size, q[k], b[o]);
                dmg(tmp20, n, data && f[fi].type != 2008 ? 31 & ~(1 << f[fi].line) : 0, -1); } } }
}

/* ================================================================ C29: fcrontab itself stops or fails anywhere */
#define TB "MAILTO=alice\nV1=pending\n& 5 6 7 8 * B1\n@first(3h) 11h B2\n"
#define TC "V1=new\n& 5 6 7 8 * A1\n@first(5h) 10h A2\n%monthly 5 6 10-12 A3\n&nice(3) 1 2 3 4 * C4\n"
#define TE "# nothing\nV9=1\n"
typedef struct { const char *name; int pre; /* 0 none, 1 A loaded, 2 A loaded and B pending, 3 A loaded and removal pending, 4 B pending */ } pre29;
static const char *prename[] = { "no fcrontab", "a fcrontab", "a fcrontab and a newer one not yet loaded", "a fcrontab whose removal is not yet seen", "a first fcrontab not yet loaded" };
enum { K_FILE, K_N, K_STDIN, K_EDIT, K_RM, K_Z, K_EMPTY, K_EMPTYN, NK };
static const char *cmdname[] = { "install", "install -n", "install from stdin", "edit", "remove", "reinstall", "install a file without entries", "install -n a file without entries" };
typedef struct { const char *user; int uid, by; } who29; static const who29 W29[] = { { "alice", 1001, 1001 }, { "alice", 1001, 0 }, { "root", 0, 0 } };
static const who29 *w29; static int pre29i, cmd29; static int ret29;
static void vput_text(const char *t) { vos_put("/tmp/tab", t, strlen(t), w29->by, w29->by, 0644); }
static int cmd29_run(int k)
{
    char *u = w29->by == 0 ? "-u" : NULL, *n = (char *)w29->user; int rc = -1; tab_stdin = NULL; tab_fork = NULL; mc_arm();
#define FC(...) eng_fcrontab(w29->by, w29->by, __VA_ARGS__, u, n, NULL)
    switch (k) {
    case K_FILE: rc = FC("/tmp/tab"); break;
    case K_N: rc = FC("-n", "/tmp/tab"); break;
    case K_STDIN: tab_stdin = TC; tab_stdinlen = strlen(TC); rc = FC("-"); tab_stdin = NULL; break;
    case K_EDIT: ed_text = TC; ed_len = strlen(TC); ed_n = 0; tab_fork = tab_editor; rc = FC("-e"); tab_fork = NULL; break;
    case K_RM: rc = FC("-r"); break;
    case K_Z: rc = FC("-z"); break;
    case K_EMPTY: rc = FC("/tmp/tab"); break;
    case K_EMPTYN: rc = FC("-n", "/tmp/tab"); break;
    }
    return rc;
}
static const char *text29(int k) { return k == K_EMPTY || k == K_EMPTYN ? TE : TC; }
static void pend29(void) { int p = pre29i; if (p == 2 || p == 4) { vput_text(TB); cmd29_run(K_FILE); } if (p == 3) cmd29_run(K_RM); vput_text(text29(cmd29)); }
static void pre29_make(int upto)      /* upto 1: what the daemon has loaded only */
{
    eng_init(); vos_set_time(1706000000); put_user("bob", "X=1\n& 1 2 3 4 * C1\n");
    int p = pre29i; if (p == 1 || p == 2 || p == 3) { vput_text(A_TEXT); cmd29_run(K_FILE); }
    settle(); if (!upto) pend29();
}
static char *sigA29, *sigB29, *sigC29, *bob29;
static char *sig_of_text(const char *t) { eng_init(); vos_set_time(1706000000); vput_text(t); cmd29_run(K_FILE); char *r = load_sig(w29->user, 0); return r; }
static void refs29(void) { free(sigA29); free(sigB29); free(sigC29); free(bob29); sigA29 = sig_of_text(A_TEXT); sigB29 = sig_of_text(TB); sigC29 = sig_of_text(TC); eng_init(); vos_set_time(1706000000); put_user("bob", "X=1\n& 1 2 3 4 * C1\n"); bob29 = load_sig("bob", 0); }
static const char *old29(void) { return pre29i == 1 ? sigA29 : pre29i == 2 || pre29i == 4 ? sigB29 : "(none)"; }
static const char *loaded29(void) { return pre29i == 0 || pre29i == 4 ? "(none)" : sigA29; }
static const char *oldtext29(void) { return pre29i == 1 ? A_TEXT : pre29i == 2 || pre29i == 4 ? TB : NULL; }
static const char *new29(void) { return cmd29 == K_RM || cmd29 == K_EMPTY || cmd29 == K_EMPTYN ? "(none)" : cmd29 == K_Z ? old29() : sigC29; }
static const char *newtext29(void) { return cmd29 == K_RM ? NULL : cmd29 == K_Z ? oldtext29() : text29(cmd29); }
static int skip29(void) { return cmd29 == K_Z && !oldtext29(); }
static const char *orig29(void) { static char b[6000]; char p[100]; snprintf(p, 100, SPOOL "/%s.orig", w29->user); vinode *n = vos_file(p); if (!n) return NULL; snprintf(b, sizeof b, "%.*s", (int)n->len, n->data); return b; }
static int same(const char *a, const char *b) { return (!a && !b) || (a && b && !strcmp(a, b)); }
static void v29(const char *what, const char *how, const char *got)
{ char g[250]; snprintf(g, sizeof g, "%s of %s by %s, having %s: %s", cmdname[cmd29], w29->user, w29->by ? "the user" : "root", prename[pre29i], what); mc_violation(g, "%s (%s): %.500s", g, how, got ? got : "(nothing)"); }
static int kk29; static vlog *log29; static int bare;
static void swap29(int c) { if (c == 'X') { vos_crash_state(kk29, 0, NULL); V.log_ops = 0; } }
static void item29(long it)
{
    w29 = &W29[it % 3]; it /= 3; pre29i = it % 5; cmd29 = it / 5; refs29(); if (skip29()) return;
    pre29_make(0); if (pre29i && cmd29 != K_RM && 0) return;
    vos_log_start(); ret29 = cmd29_run(cmd29); V.log_ops = 0; int N = V.nops; mc_count("operations logged", N);
    if (ret29 != 0) v29("fails", "nothing failing", tab_err);
    vlog l; vos_log_save(&l); char how[200];
    for (int k = 0; k <= N; k++) {
        vos_log_restore(&l); int uns = 0; vos_crash_state(k, 0, &uns); mc_count("crash points", 1);
        for (unsigned long m = 0; m < pow4(uns); m++) {
            int bad = 0; for (int i = 0; i < 4; i++) if (((m >> (2 * i)) & 3) == 3) bad = 1; if (bad) continue; if (mc_stop()) return;
            mc_count("crash states", 1); snprintf(how, sizeof how, "stopped after %d of %d operations, losses %lx", k, N, m);
            for (int again = 0; again < 3; again++) {
                if (again == 2 && (m || pre29i == 3)) continue;
                char *a, *b; int rc = 0;
                if (again == 2) {       /* a daemon which is running finds what the stopped command left */
                    if (pre29i > 1) continue;
                    vos_log_save(&l); pre29_make(1); vos_log_restore(&l); kk29 = k; dcall = swap29; duser = w29->user; dhow = 0; drun("sXhss"); dcall = NULL;
                    a = ndgot > 2 ? dgot[1] : strdup("(daemon died)"); b = strdup(bob29);
                    char *c = load_sig(w29->user, 0); if (strcmp(c, a)) v29("the running daemon and the next one differ", how, diffat(a, c)); free(c);
                } else {
                    vos_crash_state(k, m, NULL); V.log_ops = 0; vput_text(text29(cmd29)); vos_log_save(&l);
                    if (again) { for (int i = 0; i < V.nent; i++) if (V.ent[i].used && !strncmp(V.ent[i].path, "/tmp/fcr", 8)) V.ent[i].used = 0;   /* the stand-in for the editor takes the only one */ rc = cmd29_run(cmd29); }
                    a = load_sig(w29->user, 0); b = load_sig("bob", 0);
                }
                mc_eval(1); mc_outcome(vos_fs_hash(cmd29, 0));
                if (strcmp(b, bob29)) v29("another user's fcrontab changed", how, b);
                if (!again || again == 2) { if (strcmp(a, old29()) && strcmp(a, new29())) v29(!strcmp(a, "(none)") ? "the fcrontab is lost" : "neither the old nor the new fcrontab", how, a); }
                else {
                    if (rc != 0 && cmd29 != K_Z) v29("running the command again fails", how, tab_err);
                    if (rc == 0 && strcmp(a, new29())) v29("running the command again does not complete it", how, a);
                    if (rc == 0 && !same(orig29(), newtext29())) v29("the source differs after running the command again", how, orig29());
                }
                if (!again && k == N && (strcmp(a, new29()) || !same(orig29(), newtext29()))) v29("not done once complete", how, strcmp(a, new29()) ? a : orig29());
                free(a); free(b); if (again != 2) vos_log_restore(&l);
            }
            vos_log_restore(&l);
        }
    }
}
/* ---------------------------------------------------------------- failing calls */
static int soft;
static int fault29(const char *call, const char *path)
{
    if (in_child || !in_run) return 0; if (path[0] == '|' && strcmp(call, "fork")) return 0;
    int sp = !strncmp(path, SPOOL, strlen(SPOOL)) || (path[0] != '/' && path[0] != '|'), tm = !strncmp(path, "/tmp", 4); if (!sp && !tm && strcmp(call, "fork")) return 0;
    int w = !strcmp(call, "write"), s = !strcmp(call, "fdatasync"), c = !strcmp(call, "close"), o = !strcmp(call, "open"), rn = !strcmp(call, "rename"), ch = !strcmp(call, "fchown") || !strcmp(call, "fchmod") || !strcmp(call, "fstat"), un = !strcmp(call, "unlink"), rd = !strcmp(call, "read");
    if (!w && !s && !c && !o && !rn && !ch && !un && !rd) return 0;
    if (nfault >= maxfault) return 0;
    int n = w ? (tm ? 3 : 6)   /* through stdio in /tmp: the C library's business */ : s || rn || o || un || ch ? 3 : rd ? (tm ? 2 : 3) : 2; int v = mc_choose(n, call); if (!v) return 0;
    nfault++; int e;
    if (w) e = v == 1 ? EIO : v == 2 ? ENOSPC : v == 3 ? EINTR : v == 4 ? -2 : -3; else if (s) e = v == 1 ? EIO : EINTR; else if (rd) e = v == 1 ? EIO : -2; else e = hard_err(rn, o, un, ch, v);
    if (e != EINTR && e != -2 && e != -3) hard++; 
    size_t l = strlen(flog); snprintf(flog + l, sizeof flog - l, " %s(%s)=%s", call, path, e == -2 ? "half" : e == -3 ? "1 byte" : strerror(e)); mc_note("  %s(%s) -> %s\n", call, path, e == -2 ? "half" : e == -3 ? "1 byte" : strerror(e));
    return e;
}
static void body29(void *arg)
{
    long it = (long)arg; w29 = &W29[it % 3]; it /= 3; pre29i = it % 5; cmd29 = it / 5; refs29(); if (skip29()) return;
    pre29_make(0); hard = nfault = 0; flog[0] = 0; maxfault = mc_thorough ? 2 : 1; in_run = 1; vos_fault_hook = fault29;
    int rc = cmd29_run(cmd29); in_run = 0; vos_fault_hook = eng_fault; mc_eval(1);
    char *a = load_sig(w29->user, 0), *b = load_sig("bob", 0); const char *o = orig29(); mc_outcome(vos_hash(vos_hash(it, flog, strlen(flog)), &rc, 1)); mc_state(vos_fs_hash(29, 0));
    if (strcmp(b, bob29)) v29("another user's fcrontab changed", flog, b);
    if (strcmp(a, old29()) && strcmp(a, new29())) v29(!strcmp(a, "(none)") ? "the fcrontab is lost after an error" : "neither the old nor the new fcrontab after an error", flog, a);
    if (rc == 0 && strcmp(a, new29())) v29("success although not done", flog, a);
    if (rc == 0 && !same(o, newtext29())) v29("success although the source is not saved", flog, o);
    if (!hard && rc != 0) v29("an interrupted or short transfer is a failure", flog, tab_err);
    if (!same(o, oldtext29()) && !same(o, newtext29())) v29("source incomplete", flog, o);
}
static void do29f(void) { for (long i = 0; i < 3 * 5 * NK; i++) { if (mc_stop()) break; mc_explore(body29, (void *)i); } }

/* ---------------------------------------------------------------- fcrontab and the daemon at the same time: one of them is stopped at any system call, the other goes on to
 * any system call of its own, then the first one to its end, then the other one */
#include <ucontext.h>
typedef struct { vfd fd[VOS_MAXFD]; char cwd[200]; mode_t umask_; uid_t r, e, s; gid_t rg, eg, sg; int ng, pid; uint64_t sm, sp; void (*h[65])(int); jmp_buf jb; int ec, in_tab, err; } pctx;
static pctx px[2]; static int pcur, ract, fdone29, fni, dnj, fn29, dn29, order29, st29, sent29, lost29; static ucontext_t uc0, uc1; static char *ustack; static char *mid29, *end29; static const char *fat29, *dat29;
static void psave(pctx *p)
{ memcpy(p->fd, V.fd, sizeof p->fd); memcpy(p->cwd, V.cwd, 200); p->umask_ = V.umask_; p->r = V.ruid; p->e = V.euid; p->s = V.suid; p->rg = V.rgid; p->eg = V.egid; p->sg = V.sgid; p->ng = V.ngroups; p->pid = V.pid; p->sm = V.sigmask; p->sp = V.sigpending; memcpy(p->h, V.handler, sizeof p->h); memcpy(&p->jb, &exit_jb, sizeof p->jb); p->ec = exit_code; p->in_tab = in_tab; p->err = errno; }
static void pload(pctx *p)
{ memcpy(V.fd, p->fd, sizeof p->fd); memcpy(V.cwd, p->cwd, 200); V.umask_ = p->umask_; V.ruid = p->r; V.euid = p->e; V.suid = p->s; V.rgid = p->rg; V.egid = p->eg; V.sgid = p->sg; V.ngroups = p->ng; V.pid = p->pid; V.sigmask = p->sm; V.sigpending = p->sp; memcpy(V.handler, p->h, sizeof p->h); memcpy(&exit_jb, &p->jb, sizeof p->jb); exit_code = p->ec; in_tab = p->in_tab; errno = p->err; }
static void pswitch(int to) { psave(&px[pcur]); int from = pcur; vos_cur_proc = pcur = to; pload(&px[to]); vos_other_fd = px[from].fd; if (to) swapcontext(&uc0, &uc1); else swapcontext(&uc1, &uc0); }
static void fco(void) { ret29 = cmd29_run(cmd29); fdone29 = 1; pswitch(0); abort(); }
/* fcrontab goes on until it is stopped or done, in which case the signal it has sent is there */
static void frun(int upto) { if (fdone29) return; fni = upto; pswitch(1); if (fdone29) { vos_raise(SIGHUP); sent29 = 1; } }
static void point29(const char *call)
{
    if (!ract) return;
    if (pcur) { if (fn29++ == fni) { fat29 = call; pswitch(0); } return; }
    if (st29 == 1 && dn29++ == dnj) { dat29 = call; if (order29 == 0) frun(-1); else frun(fni); }
}
static int rselect(int nfds, fd_set *r, struct timeval *tv)
{
    (void)nfds; FD_ZERO(r); if (st29 && tv->tv_sec == 0 && tv->tv_usec < 5000) { V.now_us += tv->tv_usec; V.mono_us += tv->tv_usec; V.boot_us += tv->tv_usec; return 0; }   /* it has seen the signal */
    for (int i = 0; i < neo; i++) if (vos_proc(eo[i].ctrl)) { vos_exit_proc(eo[i].ctrl, 0); } neo = 0;
    if (st29 == 0) { ract = 0; psave(&px[0]); vos_other_fd = px[0].fd; vos_cur_proc = 1; pend29(); vos_cur_proc = 0; pload(&px[0]); vos_other_fd = NULL; ract = 1; vos_select_hook = rselect; st29 = 1; int was = fni; if (order29 == 0) frun(was); if (!fdone29) vos_raise(SIGHUP); errno = EINTR; return -1; }
    if (st29 == 1 && !fdone29) { mid29 = conf_sig(w29->user, 0); st29 = 2; frun(-1); errno = EINTR; return -1; }
    end29 = conf_sig(w29->user, 0); eng_kill(); return 0;
}
/* whether the schedule could be run: 0 when one of the two stopped before its point */
static void race29(int order, int i, int j)
{
    pre29_make(1); if (!ustack) ustack = malloc(1 << 20);
    order29 = order; fni = i; dnj = j; fn29 = dn29 = fdone29 = st29 = sent29 = pcur = 0; fat29 = dat29 = NULL; free(mid29); free(end29); mid29 = end29 = NULL;
    getcontext(&uc1); uc1.uc_stack.ss_sp = ustack; uc1.uc_stack.ss_size = 1 << 20; uc1.uc_link = NULL; makecontext(&uc1, fco, 0); psave(&px[1]);
    static char *av[] = { "fcron", "-f", "-s", "2000", NULL }; mc_arm(); neo = 0; vos_select_hook = rselect; vos_point_hook = point29; ract = 1; eng_daemon(av); ract = 0; vos_cur_proc = 0; vos_point_hook = NULL; vos_other_fd = NULL;
    char how[200]; snprintf(how, sizeof how, "%s; fcrontab stopped at its call %d (%s), the daemon at its call %d (%s)", order ? "daemon first" : "fcrontab first", i, fat29 ? fat29 : "its end", j, dat29 ? dat29 : "its end");
    mc_eval(1); mc_count("schedules", 1); mc_outcome(vos_fs_hash(cmd29, 0));
    if (ret29 != 0) v29("fails while the daemon reads the spool", how, tab_err);
    if (mid29 && strcmp(mid29, loaded29()) && strcmp(mid29, old29()) && strcmp(mid29, new29())) v29(!strcmp(mid29, "(none)") ? "the daemon has no fcrontab in the meantime" : "the daemon has neither the old nor the new fcrontab in the meantime", how, mid29);
    if (!end29) { v29("the daemon died", how, NULL); return; }
    if (strcmp(end29, new29())) v29(!strcmp(end29, old29()) ? "the daemon still has the old fcrontab" : "the daemon does not have the new fcrontab", how, end29);
    char *a = load_sig(w29->user, 0), *b = load_sig("bob", 0); if (strcmp(a, new29())) v29("the spool does not have the new fcrontab", how, a); if (strcmp(b, bob29)) v29("another user's fcrontab changed", how, b);
    if (!same(orig29(), newtext29())) v29("the source is not the new one", how, orig29()); free(a); free(b);
}
static void item29r(long it)
{
    w29 = &W29[it % 3]; it /= 3; pre29i = it % 5; cmd29 = it / 5; refs29(); if (skip29()) return;
    if (!strstr(sigC29, "C4") || !strstr(bob29, "C1")) mc_violation("not installed", "fcrontabs which are installed are not there: %s", sigC29);
    for (int o = 0; o < 2; o++) for (int i = 0, iend = 0; !iend; i++) for (int j = 0; ; j++) {
        if (mc_stop()) return;
        race29(o, i, j); if (!fat29 && (o == 0 || dat29)) iend = 1; if (!dat29 || iend) break; }
}

int harness_main(void)
{
    if (!strcmp(mc_arg, "C18")) mc_items(3 * (2 * NF18 + 16 + 1), item18);
    else if (!strcmp(mc_arg, "C19")) mc_items(NS19, item19);
    else if (!strcmp(mc_arg, "C21")) do21();
    else if (!strcmp(mc_arg, "C20")) mc_items(N20, item20);
    else if (!strcmp(mc_arg, "C29")) mc_items(3 * 5 * NK, item29);
    else if (!strcmp(mc_arg, "C29:fault")) do29f();
    else if (!strcmp(mc_arg, "C29:race")) mc_items(3 * 5 * NK, item29r);
    return 0;
}
