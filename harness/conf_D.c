/* C41: fcron.conf read by the real read_conf(); C34: mail display names and mailboxes */
extern int main(int, char **);
#define DAEMON_MAIN main
#include "eng.h"
#include "fcronconf.h"
#include "mail.h"

#define NV 10
static const char *NAME[NV] = { "fcrontabs", "pidfile", "suspendfile", "fifofile", "fcronallow", "fcrondeny", "shell", "sendmail", "editor", "maildisplayname" };
static char **var(int i) { static char **v[NV]; v[0] = &fcrontabs; v[1] = &pidfile; v[2] = &suspendfile; v[3] = &fifofile; v[4] = &fcronallow; v[5] = &fcrondeny; v[6] = &shell; v[7] = &sendmail; v[8] = &editor; v[9] = &maildisplayname; return v[i]; }
typedef struct { int sure; char alt[2][1500]; int n; } val;     /* the values variable may have: alt[0], or also alt[1] */
static val want[NV]; static char dflt[NV][200]; static int died; static jmp_buf out_;
static void on_exit_(int c) { died = 1 + c; longjmp(out_, 1); }
static void readc(const char *text, long n, uid_t u, gid_t g, mode_t m, int opt_c)
{
    free_conf(); if (text) vos_put("/etc/fcron.conf", text, n, u, g, m); else vos_rmfile("/etc/fcron.conf");
    if (opt_c) fcronconf = strdup("/etc/fcron.conf"); died = 0; vos_exit_hook = on_exit_;
    if (!setjmp(out_)) read_conf(); vos_exit_hook = NULL; mc_eval(1);
    for (int i = 0; i < 64; i++) if (V.fd[i].kind == VF_FILE) { mc_violation("fcron.conf left open", "%.300s", text ? text : ""); V.fd[i].kind = 0; }
}
static const char *vis(const char *s, int n) { static char b[2][700]; static int w; char *o = b[w ^= 1]; int k = 0; if (n < 0) n = strlen(s); for (int i = 0; i < n && k < 600; i++) { if (i == 150 && n > 400) { k += sprintf(o + k, "...(%d characters)...", n - 300); i = n - 150; } k += sprintf(o + k, s[i] < 32 || s[i] > 126 ? "\\x%02x" : "%c", (unsigned char)s[i]); } o[k] = 0; return o; }
static void check(const char *text, long n)
{
    for (int i = 0; i < NV; i++) { const char *v = *var(i); int ok = v && (!strcmp(v, want[i].alt[0]) || (want[i].n > 1 && !strcmp(v, want[i].alt[1])));
        if (!ok) mc_violation("wrong value of a variable", "%s: %s is \"%s\" instead of \"%s\"", vis(text, n), NAME[i], v ? vis(v, -1) : "(null)", vis(want[i].alt[0], -1)); }
    uint64_t h = 7; for (int i = 0; i < NV; i++) h = vos_hash(h * 1000003 + i, want[i].alt[0], strlen(want[i].alt[0])); mc_outcome(h);
}
static void reset(void) { for (int i = 0; i < NV; i++) { want[i].n = 1; strcpy(want[i].alt[0], dflt[i]); } }
static int bl(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\n'; }
/* what a line means */
static void mean(const char *l, long n)
{
    long e = n; while (e > 0 && bl(l[e - 1])) e--;
    long i = 0; while (i < e && (l[i] == 32 || l[i] == 9)) i++;
    if (i >= e || l[i] == '#') return;
    long a = i; while (i < e && (isalnum((unsigned char)l[i]) || l[i] == '_' || l[i] == '-')) i++;
    int k; for (k = 0; k < NV; k++) if ((long)strlen(NAME[k]) == i - a && !strncmp(NAME[k], l + a, i - a)) break;
    if (k == NV) return;
    if (n > 1000) { long v = i; if (n > 1023) { (void)v; return; } }
    long b = i; while (i < e && bl(l[i])) i++;
    int eq = i < e && l[i] == '='; if (eq) { i++; while (i < e && bl(l[i])) i++; } (void)b;
    char v[1500]; snprintf(v, sizeof v, "%.*s", (int)(e - i), l + i);
    if (k == 9) { char *f = format_maildisplayname(v); snprintf(v, sizeof v, "%s", f ? f : ""); free(f); }
    if (eq) { want[k].n = 1; strcpy(want[k].alt[0], v); }
    else { if (want[k].n == 1 || 1) { want[k].n = 2; strcpy(want[k].alt[1], v); } }   /* not "name = value": either not taken, or as if the sign were there */
}
static void one(const char *text, long n)
{
    mc_ctx = text; mc_ctxlen = n < 400 ? n : 400; mc_arm(); reset(); long p = 0;
    while (p < n) { const char *e = memchr(text + p, '\n', n - p); long q = e ? e - text : n; mean(text + p, q - p); p = q + 1; }
    readc(text, n, 0, 200, 0640, 0); if (died) mc_violation("program stopped by fcron.conf", "%s", vis(text, n)); check(text, n);
}
static const char *LEAD[] = { "", " ", "\t ", "#", "\r" }, *SEP[] = { "=", " = ", "\t=", " ", "", "==", " = =", ":" }, *VALS[] = { "/v", "", "a b", "/v # c", "=x", "/w/y ", "\"q\"", "%s%n" }, *END[] = { "\n", " \t\n", "\r\n", "" };
/* names: each variable, each of its beginnings, longer ones, others */
static char names[200][40]; static int nn;
static void mknames(void)
{
    for (int i = 0; i < NV; i++) { strcpy(names[nn++], NAME[i]); }
    for (int i = 0; i < NV; i++) { for (int l = 1; l < (int)strlen(NAME[i]); l++) sprintf(names[nn++], "%.*s", l, NAME[i]); sprintf(names[nn++], "%sx", NAME[i]); sprintf(names[nn++], "%s-", NAME[i]); sprintf(names[nn++], "x%s", NAME[i]); sprintf(names[nn++], "%c%s", toupper(NAME[i][0]), NAME[i] + 1); }
    strcpy(names[nn++], ""); strcpy(names[nn++], "unknown"); strcpy(names[nn++], "-"); strcpy(names[nn++], "_"); strcpy(names[nn++], "0"); strcpy(names[nn++], "\xc3\xa9"); strcpy(names[nn++], "."); strcpy(names[nn++], "\"shell\""); strcpy(names[nn++], "shell pidfile"); strcpy(names[nn++], "fcron tabs");
}
static void item_line(long it)
{
    char t[400], u[600];
    for (int a = 0; a < 5; a++) for (int s = 0; s < 8; s++) for (int v = 0; v < 8; v++) for (int e = 0; e < 4; e++) {
        if (mc_stop()) return;
        snprintf(t, sizeof t, "%s%s%s%s%s", LEAD[a], names[it], SEP[s], VALS[v], END[e]); one(t, strlen(t));
        if (e == 3 || it >= NV + 20) continue;
        /* between two others */
        snprintf(u, sizeof u, "shell = /s1\n%sfcrondeny = /d1\n", t); one(u, strlen(u));
    }
}
static void item_pair(long it)
{
    char t[800], l1[200]; int q = it % 64; snprintf(l1, sizeof l1, "%s%s%s", names[it / 64], SEP[q / 8], VALS[q % 8]);
    for (int b = 0; b < nn; b++) for (int s = 0; s < 2; s++) { if (mc_stop()) return; snprintf(t, sizeof t, "%s\n%s%s/second\n", l1, names[b], SEP[s * 3]); one(t, strlen(t)); }
}
/* every file of up to n characters of an alphabet, after a name */
static void item_raw(long it)
{
    static const char A[] = "s= \t\n\r#/"; char t[100]; int n0 = mc_thorough ? 6 : 5; long tot = 1; for (int i = 0; i < n0 - 2; i++) tot *= 8;
    for (int pre = 0; pre < 4; pre++) for (int len = 0; len <= n0 - 2; len++) { long m = 1; for (int i = 0; i < len; i++) m *= 8;
        for (long k = 0; k < m; k++) { if (mc_stop()) return; char b[20]; int n = 0; b[n++] = A[it % 8]; b[n++] = A[it / 8]; long q = k; for (int i = 0; i < len; i++) { b[n++] = A[q % 8]; q /= 8; } b[n] = 0;
            static const char *P[] = { "", "shell", "pidfile=/p\n", "shell=/a" }; snprintf(t, sizeof t, "%s%s", P[pre], b); one(t, strlen(t)); } }
}
static void item_len(long it)
{
    /* long lines: a comment, an unknown name or a value of every length around the size of the buffer, what follows being on the same line; then another line */
    int kind = it % 5, tail = it / 5; static const char *T[] = { "", "sendmail = /evil", "=/evil", "shell = /evil", " sendmail = /evil", "#", "  " };
    static char t[4000]; if (tail >= 7) return;
    for (int L = 960; L <= 1060 + (mc_thorough ? 1100 : 60); L++) for (int fin = 0; fin < 3; fin++) {
        if (mc_stop()) return;
        int n = 0; static const char *H[] = { "# ", "unknown = ", "editor = ", "maildisplayname = ", "   " }; n = sprintf(t, "pidfile = /p\n%s", H[kind]); int st = 13; memset(t + n, kind == 4 ? ' ' : 'v', 3000); n = st + L; n += sprintf(t + n, "%s", T[tail]);
        if (fin == 0) n += sprintf(t + n, "\nfcrondeny = /d\n"); else if (fin == 1) n += sprintf(t + n, "\n");
        int ll = L + strlen(T[tail]);
        reset(); strcpy(want[1].alt[0], "/p"); if (fin == 0) strcpy(want[5].alt[0], "/d");
        if (kind == 2 || kind == 3) { int k = kind == 2 ? 8 : 9; char v[2500]; const char *b = t + st + strlen(H[kind]); int vl = ll - strlen(H[kind]); while (vl && bl(b[vl - 1])) vl--; snprintf(v, sizeof v, "%.*s", vl, b);
            if (ll >= 1500) ; else { want[k].n = ll > 1000 ? 2 : 1; int w = want[k].n - 1; if (k == 9) { char *f = format_maildisplayname(v); snprintf(want[k].alt[w], 1500, "%s", f ? f : ""); free(f); } else snprintf(want[k].alt[w], 1500, "%s", v); } }
        if (kind == 4) { char v[200]; if (tail == 1 || tail == 4 || tail == 3) { int k = tail == 3 ? 6 : 7; want[k].n = ll > 1000 ? 2 : 1; strcpy(want[k].alt[want[k].n - 1], "/evil"); } (void)v; }
        mc_ctx = t; mc_ctxlen = 300; mc_arm(); readc(t, n, 0, 200, 0640, 0); check(t, n);
    }
}
static void item_own(long it)
{
    static const int U[] = { 0, 200, 1001 }; int u = U[it % 3], g = U[it / 3 % 3]; static const char *t = "shell = /sh\nfcrontabs=/x\n";
    for (int m = 0; m < 01000; m++) for (int c = 0; c < 2; c++) {
        if (mc_stop()) return;
        mc_ctx = "owner"; mc_ctxlen = 5; mc_arm(); reset(); if (u == 0 && g == 200 && !(m & 022)) { strcpy(want[6].alt[0], "/sh"); strcpy(want[0].alt[0], "/x"); }
        readc(t, strlen(t), u, g, m, c); if (died) mc_violation("program stopped by fcron.conf", "owner %d:%d mode %o", u, g, m);
        for (int i = 0; i < NV; i++) if (strcmp(*var(i), want[i].alt[0])) mc_violation("owner and mode of fcron.conf", "owner %d:%d mode %o: %s is %s instead of %s", u, g, m, NAME[i], *var(i), want[i].alt[0]);
    }
    if (it == 0) {
        reset(); mc_arm(); readc(NULL, 0, 0, 0, 0, 0); if (died) mc_violation("program stopped without fcron.conf", "it is optional"); else check("(no file)", 9);
        mc_arm(); readc(NULL, 0, 0, 0, 0, 1); if (died < 2) mc_violation("missing file given with -c", "the program went on");
    }
}
/* --- C34 */
static const uint LIM = 998 - 7;
/* the characters a name written in fcron.conf stands for: a backslash quotes the next one */
static int unq(const char *s, char *o) { int n = 0; for (; *s; s++) { if (*s == '\\' && s[1]) s++; o[n++] = *s; } o[n] = 0; return n; }
static void dn(const char *name)
{
    static char in[3000], meant[3000], got[3000]; snprintf(in, sizeof in, "%s", name); mc_ctx = in; mc_ctxlen = strlen(in) < 300 ? strlen(in) : 300; mc_arm(); mc_eval(1);
    char *o = format_maildisplayname(in); if (strcmp(in, name)) mc_violation("argument changed", "%s", vis(name, -1));
    int special = !!strpbrk(name, "()<>[].,:;@\"\\"); unq(name, meant); int need = 0; if (special) { need = 2; for (const char *p = name; *p; p++) { need++; if (*p == '"') need++; else if (*p == '\\') { need++; if (p[1]) p++; } } } else need = strlen(name);
    mc_outcome(vos_hash(need + 1, o ? o : "", o ? strlen(o) < 40 ? strlen(o) : 40 : 0));
    if (!o) { if (need <= (int)LIM - 1) mc_violation("display name refused", "%s (%d characters once quoted)", vis(name, -1), need); return; }
    int l = strlen(o); if (l > (int)LIM) mc_violation("display name too long", "%d characters for %s", l, vis(name, -1));
    if (!*name) { if (*o) mc_violation("display name for an empty one", "%s", o); free(o); return; }
    if (o[0] != '"') { if (strcmp(o, name) || special) mc_violation("display name not quoted", "%s gives %s", vis(name, -1), vis(o, -1)); free(o); return; }
    int n = 0, i = 1; for (; i < l && o[i] != '"'; i++) { if (o[i] == '\\') i++; got[n++] = i < l ? o[i] : '?'; } got[n] = 0;
    if (i != l - 1) mc_violation("malformed quoted string", "%s gives %s", vis(name, -1), vis(o, -1));
    else if (strcmp(got, meant)) mc_violation("other characters in the display name", "%s gives %s", vis(name, -1), vis(o, -1));
    /* the mailbox made of it */
    static const char *FROM[] = { "fcron", "a.b" }, *HOST[] = { "", "@h.example" };
    for (int f = 0; f < 2; f++) { char *m = make_mailbox_addr(o, (char *)FROM[f], (char *)HOST[f]); char w[4000]; int wl = snprintf(w, sizeof w, "%s <%s%s>", o, FROM[f], HOST[f]); if (m ? strcmp(m, w) || wl > (int)LIM : wl <= (int)LIM) mc_violation("mailbox", "%s: %s", vis(w, -1), m ? vis(m, -1) : "refused"); free(m); }
    free(o);
}
static const char DA[] = "a \"\\(.@<,'>[:;)]\xe9";
static void item_dn(long it)
{
    int na = mc_thorough ? sizeof DA - 1 : 10, len = 6; char b[12]; b[0] = DA[it % na]; b[1] = DA[it / na % na]; long tot = 1;
    for (int l = 0; l <= len - 2; l++, tot *= na) for (long k = 0; k < tot; k++) { if (mc_stop()) return; long q = k; for (int i = 0; i < l; i++) { b[2 + i] = DA[q % na]; q /= na; } b[2 + l] = 0; dn(b); }
    if (it == 0) { dn(""); for (int c = 1; c < 256; c++) if (c != '\n') { b[0] = c; b[1] = 0; dn(b); } }
}
static void item_dnlen(long it)
{
    char *t = malloc(1600); int L = 940 + it;           /* exact buffers */
    for (int k = 0; k <= 30; k++) for (int w = 0; w < 6; w++) {
        if (mc_stop()) break;
        if (L < 2 * k + 2) continue; memset(t, 'a', L); t[L] = 0;
        switch (w) { case 0: memset(t, '"', k); break; case 1: memset(t + L - k, '"', k); break; case 2: memset(t + L - k, '\\', k); break; case 3: memset(t, '\\', k); break; case 4: if (k) t[L - k] = '.'; break; case 5: for (int i = 0; i < k; i++) { t[L - 1 - 2 * i] = '"'; t[L - 2 - 2 * i] = '\\'; } break; }
        dn(t);
    }
    if (it < 110) { memset(t, '"', 480 + it); t[480 + it] = 0; dn(t); memset(t, '\\', 480 + it); dn(t); }
    free(t);
}
static void item_mb(long it)
{
    /* mailbox: lengths of the three parts around the limit */
    for (int total = 960; total <= 1040; total++) for (int f = 0; f < 40; f += mc_thorough ? 1 : 3) {
        if (mc_stop()) return;
        int from = f < 20 ? f + 1 : 200 + f, host = it; int name = total - from - host; if (f == 9) { name = 0; from = total - host; } if (name < 0) continue; char *a = malloc(name + 1), *b = malloc(from + 1), *c = malloc(host + 1); memset(a, 'n', name); a[name] = 0; memset(b, 'f', from); b[from] = 0; memset(c, 'h', host); c[host] = 0;
        mc_arm(); mc_eval(1); char *m = make_mailbox_addr(a, b, c); static char w[4000]; int wl = name ? snprintf(w, sizeof w, "%s <%s%s>", a, b, c) : snprintf(w, sizeof w, "%s%s", b, c);
        if (m ? strcmp(m, w) || wl > (int)LIM : wl <= (int)LIM) mc_violation("mailbox", "lengths %d, %d, %d: %s", name, from, host, m ? "another one" : "refused"); mc_outcome(wl * 64 + f); free(m); free(a); free(b); free(c);
    }
}
int harness_main(void)
{
    vos_init(); mknames(); readc(NULL, 0, 0, 0, 0, 0); for (int i = 0; i < NV; i++) snprintf(dflt[i], 200, "%s", *var(i));
    if (!strcmp(mc_arg, "C41")) { mc_items(nn, item_line); mc_items((long)nn * 64, item_pair); mc_items(64, item_raw); }
    else if (!strcmp(mc_arg, "C41:len")) { mc_items(35, item_len); mc_items(9, item_own); }
    else { int na = mc_thorough ? sizeof DA - 1 : 10; mc_items(na * na, item_dn); mc_items(70, item_dnlen); mc_items(mc_thorough ? 400 : 60, item_mb); }
    return 0;
}
