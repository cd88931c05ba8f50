/* C22-C27: texts of a grammar, each given to the real fcrontab and then loaded by the real
 * daemon.  The generator knows what each text means, from fcrontab(5): there is no second parser.
 *
 * The cases are put in batches in one fcrontab, each with a command of its own (\1 in the text
 * stands for it).  A valid case must give exactly one job, the one it means, and no message; an
 * invalid one no job, and a message naming its line; and alone, it must make fcrontab -e ask. */
#include "tab.h"
#include <ctype.h>
static int memonly;      /* under the sanitizers: only their verdict counts */
#define mc_violation(...) (memonly ? (void)0 : mc_violation(__VA_ARGS__))

typedef struct { char *text; int valid; char *want; int id, line, nlines; } kase;
#define BATCH 250
#define NITEMS 96
static kase kb[BATCH]; static int nkb; static long kidx; static long kitem;
static const char *kuser = "root"; static uid_t kuid; static int kkind;
static const char *kprefix = "";       /* lines put before the cases */

static char *xtext; static int xlen, xcap;
static void xput(const char *s, int n) { if (xlen + n + 1 > xcap) xtext = realloc(xtext, xcap = (xlen + n + 1) * 2); memcpy(xtext + xlen, s, n); xtext[xlen += n] = 0; }
static int lines_in(const char *s) { int n = 0; for (; *s; s++) n += *s == '\n'; return n; }
static void put_case(kase *k)
{
    char cmd[20]; int n = snprintf(cmd, sizeof cmd, "J%d", k->id);
    k->line = lines_in(kprefix) + 1; for (kase *p = kb; p < k; p++) k->line += p->nlines;
    for (char *p = k->text; *p; p++) if (*p == 1) xput(cmd, n); else xput(p, 1);
    xput("\n", 1); k->nlines = lines_in(k->text) + 1;
}
static char *viol(const char *what, kase *k)
{ static char sig[200]; snprintf(sig, sizeof sig, "%s: ", what); int n = strlen(sig); for (char *p = k->text; *p && n < 150; p++) sig[n++] = *p == 1 ? 'J' : *p == '\n' ? '|' : *p < 32 || *p > 126 ? '?' : *p; sig[n] = 0; return sig; }
static char *shown(kase *k) { static char b[2000]; int n = 0; for (char *p = k->text; *p && n < 1990; p++) b[n++] = *p == 1 ? 'J' : *p == '\n' ? '|' : *p; b[n] = 0; return b; }
static uint64_t shash(const char *s) { return vos_hash(14695981039346656037ULL, s, strlen(s)); }
static void flush_batch(void)
{
    if (!nkb) return;
    if (mc_stop()) { for (int i = 0; i < nkb; i++) { free(kb[i].text); free(kb[i].want); } nkb = 0; return; }
    xlen = 0; xput(kprefix, strlen(kprefix)); int nv = 0;
    for (int i = 0; i < nkb; i++) { put_case(&kb[i]); nv += kb[i].valid == 1; }
    load(kuser, kuid, xtext, xlen, BY_FILE);
    mc_eval(nkb);
    if (!ld.installed && nv) mc_violation("nothing-installed", "fcrontab exit code %d, stderr: %.600s", ld.rc, tab_err ? tab_err : "");
    for (int i = 0; i < nkb; i++) {
        kase *k = &kb[i]; char cmd[20]; snprintf(cmd, sizeof cmd, "J%d", k->id); int n = ld_count(cmd), err = 0;
        for (int l = k->line; l < k->line + k->nlines; l++) err |= ld.errline[l];
        mc_outcome(shash(k->text));
        if (k->valid == 2) {           /* an option that is reported and dropped: the job may be there, without it */
            if (!err) mc_violation(viol("no message naming the line", k), "%s: no message naming its line: %.300s", shown(k), tab_err);
            if (n && strcmp(sp_str(ld_find(cmd)), k->want)) mc_violation(viol("wrong meaning", k), "%s may only mean: %s; the daemon has: %s", shown(k), k->want, sp_str(ld_find(cmd)));
        } else if (k->valid) {
            if (n != 1) mc_violation(viol("valid text gives no job", k), "%s gives %d jobs (%s)", shown(k), n, err ? "refused" : "no message");
            else { char *g = sp_str(ld_find(cmd)); if (strcmp(g, k->want)) mc_violation(viol("wrong meaning", k), "%s means: %s; the daemon has: %s", shown(k), k->want, g); else if (err) mc_violation(viol("message for a valid text", k), "%s: accepted, but with a message: %.300s", shown(k), tab_err); }
            if (k->id % 997 == 0) mc_sample("%s -> %s", shown(k), k->want);
        } else {
            if (n) mc_violation(viol("invalid text gives a job", k), "%s gives the job %s", shown(k), sp_str(ld_find(cmd)));
            else if (!err) mc_violation(viol("invalid text without message", k), "%s gives no job and no message naming its line", shown(k));
            if (k->id % 997 == 0) mc_sample("%s -> refused", shown(k));
        }
    }
    for (int i = 0; i < ld.nj; i++) if (ld.j[i].cmd[0] != 'J' || !isdigit(ld.j[i].cmd[1])) { mc_violation("job with a command of nobody", "job \"%.100s\" from case batch of item %ld", ld.j[i].cmd, kitem); break; }
    /* the valid ones through fcrontab -e: no question */
    if (nv) {
        kase all[BATCH]; memcpy(all, kb, sizeof kb); int n = 0; xlen = 0; xput(kprefix, strlen(kprefix));
        for (int i = 0; i < nkb; i++) if (all[i].valid == 1) { kb[n] = all[i]; put_case(&kb[n]); n++; }
        eng_init(); tab_install(kuser, kuid, xtext, xlen, BY_EDIT);
        if (ld.prompt) mc_violation("fcrontab -e asks about a valid file", "fcrontab -e says: %.600s", tab_err);
        memcpy(kb, all, sizeof kb);
    }
    /* the invalid ones, each alone, through fcrontab -e: the question */
    for (int i = 0; i < nkb; i++) if (kb[i].valid != 1) {
        kase save = kb[0]; kb[0] = kb[i]; xlen = 0; xput(kprefix, strlen(kprefix)); put_case(&kb[0]); kase *k = &kb[0];
        eng_init(); tab_install(kuser, kuid, xtext, xlen, BY_EDIT); mc_eval(1);
        if (!ld.prompt) mc_violation(viol("error not flagged as needing correction", k), "%s: fcrontab -e installs it without asking; it says: %.300s", shown(k), tab_err);
        kb[i] = kb[0]; if (i) kb[0] = save;
    }
    for (int i = 0; i < nkb; i++) { free(kb[i].text); free(kb[i].want); }
    nkb = 0;
}
static int soft;          /* the next case is one with an option reported and dropped */
/* one case: a text with \1 where the command goes, and what it means (NULL: refused) */
static void add(const SP *sp, const char *fmt, ...)
{
    long i = kidx++; if (i / BATCH % NITEMS != kitem) { return; }
    char b[6000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    kase *k = &kb[nkb++]; memset(k, 0, sizeof *k); k->text = strdup(b); k->valid = sp ? 1 + soft : 0; k->want = sp ? strdup(sp_str(sp)) : NULL; k->id = (int)i;
    if (nkb == BATCH) flush_batch();
}
static SP base(void) { SP s = sp_default(kuser); s.type = '&'; s.mins = ALLM; s.hrs = ALLH; s.days = ALLD; s.mons = ALLMO; s.dow = ALLW; return s; }

/* ------------------------------------------------------------------ C22 */
static const char *daynm[] = { "sun", "mon", "tue", "wed", "thu", "fri", "sat" }, *monnm[] = { "", "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec" };
typedef struct { const char *name; int lo, hi, n; } FD;
static const FD fds_[5] = { { "minute", 0, 59, 60 }, { "hour", 0, 23, 24 }, { "day", 1, 31, 31 }, { "month", 1, 12, 12 }, { "dow", 0, 7, 7 } };
static const FD *F; static int fpos;
static uint64_t one(int v) { return 1ULL << (F->lo + (v - F->lo) % F->n); }
static uint64_t range(int a, int b, int c)
{ uint64_t s = 0; int span = b >= a ? b - a : ((b - a) % F->n + F->n) % F->n; for (int k = 0; k <= span; k += c) s |= one(a + k); return s; }
static void set_field(SP *s, int f, uint64_t v) { if (f == 0) s->mins = v; else if (f == 1) s->hrs = v; else if (f == 2) s->days = v; else if (f == 3) s->mons = v; else s->dow = v; }
static void fcase(uint64_t v, int valid, const char *fmt, ...)
{
    char t[300], fl[5][300]; va_list ap; va_start(ap, fmt); vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
    if (!v && valid) return;             /* nothing left: no property of the parser */
    for (int i = 0; i < 5; i++) strcpy(fl[i], "*");
    strcpy(fl[fpos], t); SP s = base(); set_field(&s, fpos, v);
    static int alt; const char *lead = (alt++ % 3) == 0 ? "& " : alt % 3 == 1 ? "&" : isdigit(t[0]) || t[0] == '*' || fpos ? "" : "& ";
    if (*lead == '&' && !lead[1] && (fpos || !isdigit(t[0]))) lead = "& "; 
    if (*lead == '&' && !lead[1]) lead = "& ";
    add(valid ? &s : NULL, "%s%s %s %s %s %s \1", lead, fl[0], fl[1], fl[2], fl[3], fl[4]);
}
static char *nm(int v, int cas)
{
    static char b[8][8]; static int k; char *o = b[k++ & 7]; strcpy(o, fpos == 4 ? daynm[v % 7] : monnm[v]);
    if (cas == 1) o[0] = toupper(o[0]); if (cas == 2) for (int i = 0; i < 3; i++) o[i] = toupper(o[i]); if (cas == 3) o[1] = toupper(o[1]);
    return o;
}
static void gen_fields(void)
{
    for (fpos = 0; fpos < 5; fpos++) {
        F = &fds_[fpos]; int lo = F->lo, hi = F->hi, big = fpos < 2, named = fpos > 2;
        uint64_t all = range(lo, lo + F->n - 1, 1);
        fcase(all, 1, "*");
        for (int a = lo; a <= hi; a++) {
            fcase(one(a), 1, "%d", a); fcase(one(a), 1, "%02d", a); fcase(one(a), 1, "%03d", a);
            fcase(all & ~one(a), 1, "*~%d", a);
            if (a) { fcase(range(lo, lo + F->n - 1, a), 1, "*/%d", a); fcase(range(lo, lo + F->n - 1, a) & ~one(a), 1, "*/%d~%d", a, a); }
            for (int b = lo; b <= hi; b++) {
                fcase(range(a, b, 1), 1, "%d-%d", a, b);
                for (int c = 1; c <= hi; c++) {
                    if (fpos == 0 && !mc_thorough && !(c <= 4 || c == 7 || c == 13 || c == 20 || c >= 29 && c <= 31 || c >= 58)) continue;
                    fcase(range(a, b, c), 1, "%d-%d/%d", a, b, c);
                }
                for (int d = lo; d <= hi; d++) {
                    if (big && !mc_thorough && !(d == a || d == b || d == a + 1 || d == b - 1 || d == (a + b) / 2 || d == lo || d == hi || d == b + 1)) continue;
                    fcase(range(a, b, 1) & ~one(d), 1, "%d-%d~%d", a, b, d);
                    if ((a + b + d) % 7 == 0 || !big) fcase(range(a, b, 2) & ~one(d) & ~one((a + b) / 2), 1, "%d-%d/2~%d~%d", a, b, d, (a + b) / 2);
                }
                if (a != b) fcase(one(a) | one(b), 1, "%d,%d", a, b);
            }
        }
        /* lists of up to four elements: {single, range, wrapped range, range with step, with exclusion} */
        int m = (lo + hi) / 2; struct { char t[24]; uint64_t v; } e[24]; int ne = 0;
#define EL(v_, ...) do { snprintf(e[ne].t, 24, __VA_ARGS__); e[ne++].v = v_; } while (0)
        EL(one(lo), "%d", lo); EL(one(hi), "%d", hi); EL(one(m), "%d", m); EL(range(lo, lo + 2, 1), "%d-%d", lo, lo + 2); EL(range(hi - 1, lo + 1, 1), "%d-%d", hi - 1, lo + 1);
        EL(range(lo + 1, hi, 3), "%d-%d/3", lo + 1, hi); EL(range(m, lo + 1, 2), "%d-%d/2", m, lo + 1); EL(range(m - 1, m + 1, 1), "%d-%d", m - 1, m + 1);
        for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) {
            fcase(e[i].v | e[j].v, 1, "%s,%s", e[i].t, e[j].t);
            /* an exclusion in the last element, of a value no other element names */
            for (int d = lo; d <= hi; d++) if (!(one(d) & e[i].v) && (one(d) & e[j].v) && strchr(e[j].t, '-')) { fcase(e[i].v | (e[j].v & ~one(d)), 1, "%s,%s~%d", e[i].t, e[j].t, d); fcase(e[i].v | (e[j].v & ~one(d)), 1, "%s~%d,%s", e[j].t, d, e[i].t); }
            for (int k = 0; k < ne; k++) { fcase(e[i].v | e[j].v | e[k].v, 1, "%s,%s,%s", e[i].t, e[j].t, e[k].t);
                fcase(e[i].v | e[j].v | e[k].v | e[(i + 1) % ne].v, 1, "%s,%s,%s,%s", e[i].t, e[j].t, e[k].t, e[(i + 1) % ne].t); }
        }
        if (named) {
            int l = fpos == 4 ? 0 : 1, h = fpos == 4 ? 6 : 12;
            for (int a = l; a <= h; a++) for (int ca = 0; ca < 4; ca++) {
                fcase(one(a), 1, "%s", nm(a, ca)); fcase(all & ~one(a), 1, "*~%s", nm(a, ca));
                for (int b = l; b <= h; b++) {
                    fcase(range(a, b, 1), 1, "%s-%s", nm(a, ca), nm(b, (ca + b) & 3)); fcase(range(a, b, 2), 1, "%s-%s/2", nm(a, ca), nm(b, (ca + b) & 3));
                    fcase(range(a, b, 1), 1, "%d-%s", a, nm(b, ca)); fcase(range(a, b, 1), 1, "%s-%d", nm(a, ca), b);
                    for (int d = l; d <= h; d++) fcase(range(a, b, 1) & ~one(d), 1, "%s-%s~%s", nm(a, ca), nm(b, ca), nm(d, ca));
                    if (a != b) { fcase(one(a) | one(b), 1, "%s,%s", nm(a, ca), nm(b, ca)); fcase(one(a) | one(b), 1, "%d,%s", a, nm(b, ca)); }
                }
                fcase(0, 0, "%s%s", nm(a, ca), "x"); fcase(0, 0, "%.2s", nm(a, ca)); fcase(0, 0, "%sday", nm(a, ca)); fcase(0, 0, "%d-%sx", a, nm(a, ca)); fcase(0, 0, "1-2%s", nm(a, ca)); fcase(0, 0, "%s%s", nm(a, ca), nm(l, ca)); fcase(0, 0, "%s/2", nm(a, ca));
            }
            fcase(0, 0, fpos == 4 ? "jan" : "mon"); fcase(0, 0, fpos == 4 ? "1-dec" : "1-sat"); fcase(0, 0, "foo"); fcase(0, 0, "1,foo"); fcase(0, 0, "1-foo"); fcase(0, 0, "1-3~foo");
        } else { fcase(0, 0, "mon"); fcase(0, 0, "jan"); fcase(0, 0, "%d,mon", m); fcase(0, 0, "%d-mon", m); fcase(0, 0, "*~mon"); }
        /* out of range, in every position */
        int bad[8], nb = 0; bad[nb++] = hi + 1; bad[nb++] = hi + 2; bad[nb++] = hi * 10 + 9; bad[nb++] = 128; bad[nb++] = 256 + m; bad[nb++] = 65536 + m; if (lo) bad[nb++] = 0;
        for (int i = 0; i < nb; i++) {
            int x = bad[i];
            fcase(0, 0, "%d", x); fcase(0, 0, "%d-%d", m, x); fcase(0, 0, "%d-%d", x, m); fcase(0, 0, "%d,%d", m, x); fcase(0, 0, "%d,%d", x, m); fcase(0, 0, "%d-%d/2", m, x); fcase(0, 0, "%d-%d~%d", lo, hi, x); fcase(0, 0, "*~%d", x); fcase(0, 0, "%d-%d,%d", m, m + 1, x); fcase(0, 0, "%d,%d-%d", m, m + 1, x);
        }
        static const char *big_[] = { "4294967296", "4294967297", "4294967301", "2147483648", "18446744073709551617", "99999999999999999999" };
        for (int i = 0; i < 6; i++) { fcase(0, 0, "%s", big_[i]); fcase(0, 0, "%d-%s", m, big_[i]); fcase(0, 0, "*~%s", big_[i]); fcase(0, 0, "%d,%s", m, big_[i]); }
        /* not of the grammar */
        static const char *inv[] = { ",", ",1", "1,", "1,,2", "1-2,", ",1-2", "*,", ",*", "-5", "5-", "-", "5--6", "5-6-7", "5-/2", "5-6/", "5-6/0", "*/0", "*/", "5-6~", "*~", "5-6~1~", "5-6/2~", "~5", "/2", "5~", "5/2", "5~5", "5x", "x5", "5x-6", "5-6x", "5-6/2x", "5-6~5x", "*x", "*5", "5*", "**", "*-5", "5-*", "5-6*", "*/2*", "1.5", "1-2.5", ".", "1.", ".5", "*.", "+5", "5+", "5-6 -7", "!", "#5", "'5'", "\"5\"", "5;6", "5:6", "(5)", "?", "*?", "5-6/-1", "5-6~-5", "5 -6x", "*~5-6", "*~5/2", "1-2/2/2", "1-2~1/2", "0x5", "5e0", "1-3~*", "1-3/*", "5-6--7" };
        for (unsigned i = 0; i < sizeof inv / sizeof *inv; i++) {
            if (strchr(inv[i], ' ')) continue;
            fcase(0, 0, "%s", inv[i]);
            fcase(0, 0, "%d,%s", m, inv[i]);
            if (inv[i][0] != ',' || 1) fcase(0, 0, "%s,%d", inv[i], m);
        }
    }
    /* all five fields together, blanks between them */
    static const char *ws[] = { " ", "\t", "  ", " \t " };
    for (int i = 0; i < 4; i++) for (int v = 0; v < 64; v++) {
        SP s = base(); s.mins = v & 1 ? 1ULL << (v % 60) : ALLM; s.hrs = v & 2 ? 1U << (v % 24) : ALLH; s.days = v & 4 ? 1U << (1 + v % 31) : ALLD; s.mons = v & 8 ? 2U << (v % 12) : ALLMO; s.dow = v & 16 ? 1U << (v % 7) : ALLW;
        char f[5][8]; sprintf(f[0], v & 1 ? "%d" : "*", v % 60); sprintf(f[1], v & 2 ? "%d" : "*", v % 24); sprintf(f[2], v & 4 ? "%d" : "*", 1 + v % 31); sprintf(f[3], v & 8 ? "%d" : "*", 1 + v % 12); sprintf(f[4], v & 16 ? "%d" : "*", v % 7);
        const char *w = ws[i]; add(&s, "%s%s%s%s%s%s%s%s%s%s%s%s\1", v & 32 ? "&" : v & 16 ? "& " : "", v & 32 ? w : "", f[0], w, f[1], w, f[2], w, f[3], w, f[4], w);
    }
    fpos = 0; for (int n = 0; n < 5; n++) { char b[40] = ""; for (int i = 0; i < n; i++) strcat(b, "* "); add(NULL, "& %s", b); add(NULL, "& %s\1", b); add(NULL, "%% hours %s\1", n > 3 ? "*" : b); }
}
static void c22(long i) { kitem = i; kidx = 0; nkb = 0; gen_fields(); flush_batch(); }

/* ------------------------------------------------------------------ C23 */
typedef struct { char t[80]; int op, ok; double v; const char *s; } OPT;   /* text, what it sets, valid (1), refused (0), reported and dropped (2) */
enum { O_FIRST = 100, O_UNTIL, O_RUNFREQ, O_NICE, O_JITTER, O_LAVG, O_LAVG1, O_LAVG5, O_LAVG15, O_MAILTO, O_MAILFROM, O_RUNAS, O_TZ, O_RESET, O_NONE };
static OPT *opt; static int nopt; static int rep[200], nrep;          /* rep: the representatives used in pairs and triples */
static OPT *mkopt(int op, int ok, double v, const char *s, const char *fmt, ...)
{ if (!(nopt & 255)) opt = realloc(opt, (nopt + 256) * sizeof *opt); OPT *o = &opt[nopt++]; memset(o, 0, sizeof *o); o->op = op; o->ok = ok; o->v = v; o->s = s; va_list ap; va_start(ap, fmt); vsnprintf(o->t, sizeof o->t, fmt, ap); va_end(ap); return o; }
static void as_rep(void) { rep[nrep++] = nopt - 1; }
static void apply(SP *s, const OPT *o)
{
    int v = (int)o->v;
    switch (o->op) {
    case O_FIRST: s->first = (long)o->v; break; case O_UNTIL: s->until = (long)o->v; break; case O_RUNFREQ: s->runfreq = v; break;
    case O_NICE: s->nice = v; break; case O_JITTER: s->jitter = v; break;
    case O_LAVG1: s->lavg[0] = v; break; case O_LAVG5: s->lavg[1] = v; break; case O_LAVG15: s->lavg[2] = v; break;
    case O_LAVG: s->lavg[0] = v / 1000000; s->lavg[1] = v / 1000 % 1000; s->lavg[2] = v % 1000; break;
    case O_MAILTO: if (*o->s) { strcpy(s->mailto, o->s); s->b[B_mail] = 1; } else s->b[B_mail] = s->b[B_forcemail] = 0; break;
    case O_MAILFROM: strcpy(s->mailfrom, o->s); break; case O_RUNAS: strcpy(s->runas, o->s); break; case O_TZ: strcpy(s->tz, o->s); break;
    case O_RESET: { SP d = sp_default(kuser); d.type = s->type; d.freq = s->freq; d.mins = s->mins; d.hrs = s->hrs; d.days = s->days; d.mons = s->mons; d.dow = s->dow; strcpy(d.per, s->per); *s = d; break; }
    case O_NONE: break;
    default: s->b[o->op] = v; if (o->op == B_mail && !v) s->b[B_forcemail] = 0; if (o->op == B_forcemail && v) s->b[B_mail] = 1;
    }
}
static void mkopts(void)
{
    static const struct { const char *n, *a; int b, inv; } bo[] = { { "serial", "s", B_serial, 0 }, { "serialonce", 0, B_serialonce, 0 }, { "lavgonce", 0, B_lavgonce, 0 }, { "exesev", 0, B_exesev, 0 }, { "bootrun", "b", B_bootrun, 0 }, { "rebootreset", 0, B_rebootreset, 0 },
        { "runatreboot", 0, B_runatreboot, 0 }, { "runatresume", 0, B_runatresume, 0 }, { "runonce", 0, B_runonce, 0 }, { "strict", 0, B_strict, 0 }, { "noticenotrun", 0, B_noticenotrun, 0 }, { "lavgand", 0, B_lavgor, 1 }, { "lavgor", 0, B_lavgor, 0 },
        { "mail", "m", B_mail, 0 }, { "forcemail", 0, B_forcemail, 0 }, { "erroronlymail", 0, B_erroronlymail, 0 }, { "dayand", 0, B_dayor, 1 }, { "dayor", 0, B_dayor, 0 }, { "nolog", 0, B_nolog, 0 }, { "volatile", 0, B_volatile, 0 }, { "stdout", 0, B_stdout, 0 }, { "random", 0, B_random, 0 } };
    static const char *tv[] = { "", "(true)", "(yes)", "(1)" }, *fv[] = { "(false)", "(no)", "(0)" }, *bad[] = { "()", "(2)", "(maybe)", "(True)", "(tru)", "(truex)", "(nope)", "(01)", "(10)", "(-1)", "(true", "( true)", "(true )", "(true,false)", "(\"true\")", "true)", "(on)", "=true" };
    for (unsigned i = 0; i < sizeof bo / sizeof *bo; i++) for (int a = 0; a < 2; a++) {
        const char *n = a ? bo[i].a : bo[i].n; if (!n) continue;
        for (int k = 0; k < 4; k++) { mkopt(bo[i].b, 1, !bo[i].inv, 0, "%s%s", n, tv[k]); if (!k && !a) as_rep(); }
        for (int k = 0; k < 3; k++) { mkopt(bo[i].b, 1, bo[i].inv, 0, "%s%s", n, fv[k]); if (!k && !a) as_rep(); }
        for (unsigned k = 0; k < sizeof bad / sizeof *bad; k++) mkopt(0, 0, 0, 0, "%s%s", n, bad[k]);
    }
    static const struct { const char *t; double v; } tm[] = { { "0", 0 }, { "1", 60 }, { "10", 600 }, { "090", 5400 }, { "1s", 1 }, { "59s", 59 }, { "1h", 3600 }, { "1d", 86400 }, { "1w", 604800 }, { "1m", 2419200 }, { "12h02", 43320 }, { "1h1s", 3601 }, { "1d2h3", 93780 }, { "1m2w3d4h5s", 2419200. + 2 * 604800 + 3 * 86400 + 4 * 3600 + 5 }, { "1w1", 604860 }, { "0h5", 300 }, { "60m", 60. * 2419200 }, { "0s", 0 } };
    static const char *badt[] = { "", "h", "s", "1x", "1hh", "-5", "+5", "1.5h", "1h-2", "5,", ",5", "1H", "5min", "\"5\"", "99999999999999999999", "18446744073709551617", "9223372036854775807m", "1h99999999999999999999" };
    for (int a = 0; a < 4; a++) {
        const char *n = &"first\0f\0until\0u"[a == 0 ? 0 : a == 1 ? 6 : a == 2 ? 8 : 14];
        for (unsigned i = 0; i < sizeof tm / sizeof *tm; i++) { mkopt(a < 2 ? O_FIRST : O_UNTIL, 1, tm[i].v, 0, "%s(%s)", n, tm[i].t); if (!(a & 1) && (i == 0 || i == 10)) as_rep(); }
        for (unsigned i = 0; i < sizeof badt / sizeof *badt; i++) mkopt(0, 0, 0, 0, "%s(%s)", n, badt[i]);
        mkopt(0, 0, 0, 0, "%s", n); mkopt(0, 0, 0, 0, "%s(5", n); mkopt(0, 0, 0, 0, "%s(5)x", n);
    }
    for (int a = 0; a < 2; a++) {
        const char *n = a ? "r" : "runfreq"; int ok[] = { 2, 3, 9, 255, 256, 65535 };
        for (int i = 0; i < 6; i++) { mkopt(O_RUNFREQ, 1, ok[i], 0, "%s(%d)", n, ok[i]); if (!a && i == 1) as_rep(); }
        const char *b[] = { "(0)", "(65536)", "(65538)", "(131074)", "(4294967298)", "(-2)", "()", "", "(x)", "(2.5)", "(2x)", "(2", "(2,3)" }; for (int i = 0; i < 13; i++) mkopt(0, 0, 0, 0, "%s%s", n, b[i]);
        n = a ? "n" : "nice"; for (int v = -20; v < 20; v++) if (v >= 0 || !kuid) { mkopt(O_NICE, 1, v, 0, "%s(%d)", n, v); if (!a && (v == -3 || v == 7)) as_rep(); } else mkopt(O_NONE, 2, 0, 0, "%s(%d)", n, v);
        const char *b2[] = { "(20)", "(-21)", "(21)", "(276)", "(-276)", "()", "", "(x)", "(-)", "(1.5)", "(--1)", "(+1)", "(5x)", "(5" }; for (int i = 0; i < 14; i++) mkopt(0, 0, 0, 0, "%s%s", n, b2[i]);
    }
    for (int v = 0; v < 256; v++) { mkopt(O_JITTER, 1, v, 0, "jitter(%d)", v); if (v == 9) as_rep(); }
    { const char *b[] = { "(256)", "(-1)", "()", "", "(x)", "(1.5)", "(300)", "(65536)", "(5x)" }; for (int i = 0; i < 9; i++) mkopt(0, 0, 0, 0, "jitter%s", b[i]); }
    static const struct { const char *t; int v; } rl[] = { { "0", 0 }, { "1", 10 }, { "2.5", 25 }, { "0.5", 5 }, { "0.0", 0 }, { "1.24", 12 }, { "1.25", 13 }, { "1.95", 20 }, { "1.949", 19 }, { "10.10", 101 }, { "25", 250 }, { "25.5", 255 }, { "25.54", 255 }, { "03.1", 31 }, { "9.99", 100 }, { "9.90", 99 } };
    static const char *badr[] = { "", "x", "-1", "25.6", "26", "255", "256", "300", "51.2", "1.2.3", "1..2", "2,5", "1e1", "1h", "4294967296" };
    const char *ln[] = { "lavg1", "lavg5", "lavg15" };
    for (int a = 0; a < 3; a++) {
        for (unsigned i = 0; i < sizeof rl / sizeof *rl; i++) { mkopt(O_LAVG1 + a, 1, rl[i].v, 0, "%s(%s)", ln[a], rl[i].t); if (i == 0 || i == 2) as_rep(); }
        for (unsigned i = 0; i < sizeof badr / sizeof *badr; i++) mkopt(0, 0, 0, 0, "%s(%s)", ln[a], badr[i]); mkopt(0, 0, 0, 0, "%s", ln[a]);
    }
    for (unsigned i = 0; i < sizeof rl / sizeof *rl; i++) for (unsigned j = 0; j < sizeof rl / sizeof *rl; j++) for (unsigned k = 0; k < sizeof rl / sizeof *rl; k++) {
        if (!mc_thorough && (i + 3 * j + 5 * k) % 11) continue; mkopt(O_LAVG, 1, rl[i].v * 1000000. + rl[j].v * 1000 + rl[k].v, 0, "lavg(%s,%s,%s)", rl[i].t, rl[j].t, rl[k].t); if (i == 0 && j == 0 && k == 0 || i == 1 && j == 3 && k == 4) as_rep(); }
    for (unsigned i = 0; i < sizeof badr / sizeof *badr; i++) { if (!*badr[i] || badr[i][1] != ',') { mkopt(0, 0, 0, 0, "lavg(%s,1,1)", badr[i]); mkopt(0, 0, 0, 0, "lavg(1,%s,1)", badr[i]); mkopt(0, 0, 0, 0, "lavg(1,1,%s)", badr[i]); } }
    { const char *b[] = { "lavg", "lavg()", "lavg(1)", "lavg(1,2)", "lavg(1,2,)", "lavg(1,2,3,4)", "lavg(1;2;3)", "lavg(1,2,3", "lavg(1, 2, 3)", "lavg1(1,2)" }; for (int i = 0; i < 10; i++) mkopt(0, 0, 0, 0, "%s", b[i]); }
    static const char *ad[] = { "bob", "a.b@c.org", "x_y-z", "MAILER+tag@[1.2.3.4]" };
    for (int i = 0; i < 4; i++) { mkopt(O_MAILTO, 1, 0, ad[i], "mailto(%s)", ad[i]); if (i == 1) as_rep(); mkopt(O_MAILFROM, 1, 0, ad[i], "mailfrom(%s)", ad[i]); if (i == 2) as_rep(); }
    mkopt(O_MAILTO, 1, 0, "", "mailto()"); as_rep(); mkopt(O_MAILFROM, 1, 0, "", "mailfrom()"); as_rep();
    { const char *o[] = { "mailto", "mailfrom", "timezone" }; for (int i = 0; i < 3; i++) { mkopt(0, 0, 0, 0, "%s", o[i]); mkopt(0, 0, 0, 0, "%s(\"bob\")", o[i]); mkopt(0, 0, 0, 0, "%s('bob')", o[i]); mkopt(0, 0, 0, 0, "%s( bob)", o[i]); mkopt(0, 0, 0, 0, "%s(bob )", o[i]); mkopt(0, 0, 0, 0, "%s(bob", o[i]); mkopt(0, 0, 0, 0, "%s(bob)x", o[i]); } }
    mkopt(O_TZ, 1, 0, "Europe/Paris", "timezone(Europe/Paris)"); as_rep(); mkopt(O_TZ, 1, 0, "UTC", "timezone(UTC)"); mkopt(O_TZ, 1, 0, "EST5EDT4,M3.2.0/2,M11.1.0/2", "timezone(EST5EDT4,M3.2.0/2,M11.1.0/2)"); mkopt(O_TZ, 1, 0, "", "timezone()"); as_rep();
    const char *us[] = { "alice", "bob", "fcron", "root" };
    for (int i = 0; i < 4; i++) if (!kuid) { mkopt(O_RUNAS, 1, 0, us[i], "runas(%s)", us[i]); if (i < 2) as_rep(); } else mkopt(O_NONE, 2, 0, 0, "runas(%s)", us[i]);
    mkopt(O_NONE, 2, 0, 0, "runas(nosuchuser)"); mkopt(O_NONE, 2, 0, 0, "runas(alic)"); mkopt(O_NONE, 2, 0, 0, "runas(alicex)"); mkopt(O_NONE, 2, 0, 0, "runas(averyveryveryverylongusernamethatnobodyhas)"); mkopt(O_NONE, 2, 0, 0, "runas(1001)");
    { const char *b[] = { "runas", "runas()", "runas( alice)", "runas(\"alice\")", "runas(alice", "runas(alice)x" }; for (int i = 0; i < 6; i++) mkopt(0, 0, 0, 0, "%s", b[i]); }
    mkopt(O_RESET, 1, 0, 0, "reset"); as_rep(); mkopt(O_RESET, 1, 0, 0, "reset(true)"); mkopt(O_RESET, 1, 0, 0, "reset(1)"); mkopt(O_RESET, 1, 0, 0, "reset(yes)"); mkopt(O_NONE, 1, 0, 0, "reset(no)"); mkopt(O_NONE, 1, 0, 0, "reset(0)"); mkopt(0, 0, 0, 0, "reset(x)"); mkopt(0, 0, 0, 0, "reset()");
    /* no option of this name */
    const char *un[] = { "foo", "Serial", "seria", "serialx", "serial1", "lavg2", "lavg10", "nices", "fir", "bootrunn", "hour", "days(1)", "nobootrun", "abcdefghijklmnopqrs", "abcdefghijklmnopqrst", "abcdefghijklmnopqrstu", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", "noticenotrunnoticenotrun", "x(1)" };
    for (unsigned i = 0; i < sizeof un / sizeof *un; i++) mkopt(O_NONE, 2, 0, 0, "%s", un[i]);
    mkopt(B_serial, 2, 1, 0, "serial,"); mkopt(B_serial, 2, 1, 0, "serial,,serial"); mkopt(0, 0, 0, 0, "serial;bootrun"); mkopt(0, 0, 0, 0, "serial()bootrun"); mkopt(0, 0, 0, 0, "serial(1)bootrun"); mkopt(0, 0, 0, 0, "serial+bootrun");
}
static SP linebase(int ty)
{
    SP s = sp_default(kuser);
    if (ty == 0) { s.type = '@'; s.freq = 1200; } else if (ty == 1) { s = base(); s.mins = 1 << 5; s.hrs = 1 << 4; } else { s = base(); s.type = '%'; s.mins = 1 << 5; s.hrs = 7 << 3; strcpy(s.per, "daily"); }
    return s;
}
static const char *lineof[] = { "@%s 20 \1", "&%s 5 4 * * * \1", "%%daily%s%s 5 3-5 \1" };
static void ocase(int n, const OPT **o)
{
    char t[400] = ""; int ok = 1, runf = 0, cov = 0; for (int i = 0; i < n; i++) { if (i) strcat(t, ","); strcat(t, o[i]->t); if (o[i]->ok == 0) ok = 0; else if (o[i]->ok == 2 && ok) ok = 2; runf |= o[i]->op == O_RUNFREQ || strstr(o[i]->t, "runfreq") == o[i]->t || (o[i]->t[0] == 'r' && o[i]->t[1] == '('); }
    (void)cov;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (o[i]->op == B_mail && o[j]->op == O_MAILTO && !o[i]->v) return;      /* mail(no),mailto(x): not documented */
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (o[i]->op == O_MAILTO && !*o[i]->s && o[j]->op == O_MAILTO) return;
    for (int ty = 0; ty < 3; ty++) {
        SP s = linebase(ty); for (int i = 0; i < n; i++) apply(&s, o[i]);
        soft = ok == 2;
        if (!(ty == 2 && runf)) { if (ty == 2) add(ok ? &s : NULL, lineof[2], ",", t); else if (!(ok == 0 && isdigit(t[0]))) add(ok ? &s : NULL, lineof[ty], t); }
        char l[200]; if (ty == 2) snprintf(l, sizeof l, lineof[2], "", ""); else snprintf(l, sizeof l, lineof[ty], "");
        if (ok) add(&s, "!%s\n%s\n!reset", t, l);
        else if (!ty) { if (strcmp(t, "foo(")) add(NULL, "!%s\n!reset", t); }
        if (ok && n > 1) { char m[400] = ""; for (int i = 0; i < n; i++) { strcat(m, "!"); strcat(m, o[i]->t); strcat(m, "\n"); } add(&s, "%s%s\n!reset", m, l);
            /* the line's own declaration comes over the general one */
            char last[80]; strcpy(last, o[n - 1]->t); m[0] = 0; for (int i = 0; i < n - 1; i++) { strcat(m, "!"); strcat(m, o[i]->t); strcat(m, "\n"); }
            if (!(ty == 2 && o[n - 1]->op == O_RUNFREQ)) { if (ty == 2) snprintf(l, sizeof l, lineof[2], ",", last); else snprintf(l, sizeof l, lineof[ty], last); add(&s, "%s%s\n!reset", m, l); } }
        soft = 0;
    }
    if (ok == 1) { SP s = linebase(1); for (int i = 0; i < n; i++) apply(&s, o[i]); add(&s, "!%s\n5 4 * * * \1\n!reset", t); }
}
static void gen_options(void)
{
    for (int i = 0; i < nopt; i++) { const OPT *o[1] = { &opt[i] }; ocase(1, o); }
    for (int i = 0; i < nrep; i++) for (int j = 0; j < nrep; j++) {
        const OPT *o[3] = { &opt[rep[i]], &opt[rep[j]] }; ocase(2, o);
        if (mc_thorough) for (int k = 0; k < nrep; k++) { o[2] = &opt[rep[k]]; ocase(3, o); }
    }
    /* a valid option before and after an invalid one: the whole line is refused */
    for (int i = 0; i < nopt; i++) if (opt[i].ok == 0) { const OPT *o[2] = { &opt[i], &opt[0] }; ocase(2, o); o[0] = &opt[0]; o[1] = &opt[i]; ocase(2, o); }
    /* time values where they are not arguments */
    static const struct { const char *t; long v; } tm[] = { { "1", 60 }, { "10", 600 }, { "1s", 1 }, { "1h", 3600 }, { "1d", 86400 }, { "1w", 604800 }, { "1m", 2419200 }, { "12h02", 43320 }, { "1h1s", 3601 }, { "1d2h3", 93780 }, { "2w3", 1209780 } };
    static const char *bad[] = { "0", "0s", "h", "1x", "-5", "1.5", "5,", "99999999999999999999", "1h2x", "x", "" };
    for (int i = 0; i < 11; i++) {
        SP s = linebase(0); s.freq = tm[i].v; add(&s, "@ %s \1", tm[i].t); add(&s, "@\t%s\t\1", tm[i].t); add(&s, "@serial(0)  %s \1", tm[i].t);
        add(NULL, "@ %s \1", bad[i]); add(NULL, "@%sx 5 \1", tm[i].t); if (!*bad[i] || !strcmp(bad[i], "0") || !strcmp(bad[i], "0s")) continue; if (strcmp(bad[i], "h") && strcmp(bad[i], "x")) add(NULL, "@%s 5 \1", bad[i]);
    }
    for (int i = 0; i < 11; i++) for (int j = 0; j < 11; j++) { SP s = linebase(0); s.first = tm[i].v; s.freq = tm[j].v; add(&s, "@%s %s \1", tm[i].t, tm[j].t); add(&s, "@first(%s) %s \1", tm[i].t, tm[j].t); add(&s, "@f(%s) %s \1", tm[i].t, tm[j].t); }
    { SP s = linebase(0); s.first = 0; add(&s, "@0 20 \1"); add(&s, "@first(0) 20 \1"); }
    { int ok[] = { 2, 3, 100, 65535 }; for (int i = 0; i < 4; i++) { SP s = linebase(1); s.runfreq = ok[i]; add(&s, "&%d 5 4 * * * \1", ok[i]); add(&s, "&r(%d) 5 4 * * * \1", ok[i]); } add(NULL, "&65536 5 4 * * * \1"); add(NULL, "&0 5 4 * * * \1"); add(NULL, "&2x 5 4 * * * \1"); add(NULL, "&2.5 5 4 * * * \1"); add(NULL, "&99999999999 5 4 * * * \1"); }
    /* the inline user name, an older form of runas */
    const char *us[] = { "alice", "bob", "root" };
    for (int ty = 0; ty < 3; ty++) for (int i = 0; i < 3; i++) {
        SP s = linebase(ty); if (!kuid) strcpy(s.runas, us[i]); soft = kuid != 0; char l[80]; if (ty == 2) snprintf(l, sizeof l, lineof[2], "", ""); else snprintf(l, sizeof l, lineof[ty], "");
        l[strlen(l) - 1] = 0; add(&s, "%s%s \1", l, us[i]); add(&s, "%s%s\t\1", l, us[i]); soft = 0;
    }
    /* %-line keywords and what they need */
    static const struct { const char *k, *per; int nf; } kw[] = { { "hourly", "hourly", 1 }, { "midhourly", "midhourly", 1 }, { "daily", "daily", 2 }, { "middaily", "middaily", 2 }, { "nightly", "middaily", 2 }, { "weekly", "weekly", 2 }, { "midweekly", "midweekly", 2 }, { "monthly", "monthly", 3 }, { "midmonthly", "midmonthly", 3 }, { "mins", "mins", 5 }, { "hours", "hours", 5 }, { "days", "days", 5 }, { "mons", "mons", 5 }, { "dow", "dow", 5 } };
    for (unsigned i = 0; i < sizeof kw / sizeof *kw; i++) for (int v = 0; v < nrep; v++) {
        SP s = base(); s.type = '%'; strcpy(s.per, kw[i].per); s.mins = 1ULL << 5 | 1ULL << 50; const char *f[] = { "5,50", "3-5", "7,9", "2-11", "1-4" }; if (kw[i].nf > 1) s.hrs = 7 << 3; if (kw[i].nf > 2) s.days = 1 << 7 | 1 << 9; if (kw[i].nf > 3) { s.mons = 0xffc; s.dow = 0x1e; }
        const OPT *o = &opt[rep[v]]; if (o->op == O_RUNFREQ) continue; apply(&s, o);
        if (!strcmp(kw[i].k, "dow") && s.b[B_dayor]) continue; char fl[60] = ""; for (int k = 0; k < kw[i].nf; k++) { strcat(fl, f[k]); strcat(fl, " "); }
        add(&s, "%%%s,%s %s\1", kw[i].k, o->t, fl); if (!v) { SP p = base(); p.type = '%'; strcpy(p.per, s.per); p.mins = s.mins; p.hrs = s.hrs; p.days = s.days; p.mons = s.mons; p.dow = s.dow; add(&p, "%%%s %s\1", kw[i].k, fl); }
    }
    { const char *b[] = { "%% 5 4 \1", "%%5 4 \1", "%%foo 5 4 \1", "%%daily 5 \1", "%%daily,foo() 5 4 \1", "%%hourly,daily 5 4 \1" }; for (int i = 0; i < 4; i++) add(NULL, b[i]); }
    { const char *b[] = { "&hourly 5 4 * * * \1", "@daily,serial 5 \1", "&mins * * * * * \1" }; soft = 1; SP s = linebase(1); add(&s, b[0]); soft = 0; add(NULL, b[1]); soft = 1; s = base(); add(&s, b[2]); soft = 0; }
    /* Vixie cron shortcuts */
    static const struct { const char *k; uint64_t mi; uint32_t h, d, m, w; } sc[] = { { "yearly", 1, 1, 2, 2, ALLW }, { "annually", 1, 1, 2, 2, ALLW }, { "monthly", 1, 1, 2, ALLMO, ALLW }, { "weekly", 1, 1, ALLD, ALLMO, 1 }, { "daily", 1, 1, ALLD, ALLMO, ALLW }, { "midnight", 1, 1, ALLD, ALLMO, ALLW }, { "hourly", 1, ALLH, ALLD, ALLMO, ALLW } };
    for (int i = 0; i < 7; i++) {
        SP s = base(); s.mins = sc[i].mi; s.hrs = sc[i].h; s.days = sc[i].d; s.mons = sc[i].m; s.dow = sc[i].w; add(&s, "@%s \1", sc[i].k); add(&s, "@%s\t\1", sc[i].k); add(&s, "  @%s   \1", sc[i].k); add(NULL, "@%s,serial \1", sc[i].k); add(NULL, "@%s", sc[i].k); add(NULL, "@%s(1) \1", sc[i].k); add(NULL, "@%sx \1", sc[i].k);
        for (int v = 0; v < nrep; v++) { SP p = s; const OPT *o = &opt[rep[v]]; apply(&p, o); add(&p, "!%s\n@%s \1\n!reset", o->t, sc[i].k); }
        if (!kuid) { SP p = s; strcpy(p.runas, "bob"); add(&p, "@%s bob \1", sc[i].k); }
    }
}
/* tzdiff is a setting of the whole file: the last one counts */
static void tzcase(int ok, int want, const char *fmt, ...)
{
    char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    kase k = { b, ok, 0, 0, 1, 1 }; load(kuser, kuid, b, strlen(b), BY_FILE); mc_eval(1); mc_outcome(shash(b));
    if (ok && (!ld.installed || ld.tzdiff != want)) mc_violation(viol("wrong tzdiff", &k), "%s: tzdiff %d instead of %d", shown(&k), ld.tzdiff, want);
    if (!ok && !ld.errline[1]) mc_violation(viol("invalid text without message", &k), "%s: no message naming line 1, tzdiff %d", shown(&k), ld.tzdiff);
    load(kuser, kuid, b, strlen(b), BY_EDIT); if (ld.prompt == ok) mc_violation(viol("wrong question of fcrontab -e", &k), "%s: %s", shown(&k), tab_err);
}
static void gen_tzdiff(void)
{
    for (int v = -24; v <= 24; v++) { tzcase(1, v, "!tzdiff(%d)\n5 4 * * * J\n", v); tzcase(1, v, "&tzdiff(%d) 5 4 * * * J\n", v); tzcase(1, v, "!serial,tzdiff(%d),nice(3)\n@ 5 J\n5 4 * * * J\n", v); for (int w = -24; w <= 24; w += 8) tzcase(1, w, "!tzdiff(%d)\n5 4 * * * J\n!tzdiff(%d)\n", v, w); }
    const char *b[] = { "(25)", "(-25)", "(280)", "(-)", "()", "", "(x)", "(1.5)", "(--1)", "(+1)", "(1h)", "(4294967297)" }; for (int i = 0; i < 12; i++) { tzcase(0, 0, "!tzdiff%s\n5 4 * * * J\n", b[i]); tzcase(0, 0, "&tzdiff%s 5 4 * * * J\n", b[i]); }
}
static void c23(long i) { if (i == 2 * NITEMS) { kuser = "root"; kuid = 0; gen_tzdiff(); return; } kitem = i % NITEMS; kidx = 0; nkb = 0; if (i >= NITEMS) { kuser = "alice"; kuid = 1001; } else { kuser = "root"; kuid = 0; } nopt = nrep = 0; mkopts(); gen_options(); flush_batch(); }

/* ------------------------------------------------------------------ C24 */
/* lines of every kind, and sequences of them: kind J job, O options, E variable, C nothing, X error, W option reported and dropped, M only a message */
typedef struct { const char *t; char kind; int ty; int nop; OPT op[3]; const char *name, *val; } LN;
static LN ln[256]; static int nln;
static LN *mkln(char kind, const char *t) { LN *l = &ln[nln++]; memset(l, 0, sizeof *l); l->kind = kind; l->t = t; return l; }
static LN *lop(LN *l, int op, double v, const char *s) { l->op[l->nop].op = op; l->op[l->nop].v = v; l->op[l->nop++].s = s; return l; }
static LN *job(const char *t, int ty) { LN *l = mkln('J', t); l->ty = ty; return l; }
static char *longline(int n, const char *tail) { char *b = malloc(n + strlen(tail) + 40); strcpy(b, "@ 10 J"); memset(b + 6, 'x', n - 6); strcpy(b + n, tail); return b; }
static void mklines(void)
{
    nln = 0;
    job("@ 20 \1", 0); lop(job("@7 20 \1", 0), O_FIRST, 420, 0); lop(lop(job("@serial,first(3) 20 \1", 0), B_serial, 1, 0), O_FIRST, 180, 0); lop(job("@volatile 20 \1", 0), B_volatile, 1, 0);
    job("& 5 4 * * * \1", 1); job("5 4 * * * \1", 1); lop(job("&3 5 4 * * * \1", 1), O_RUNFREQ, 3, 0); lop(lop(job("&nice(5),mailto(bob) 5 4 * * * \1", 1), O_NICE, 5, 0), O_MAILTO, 0, "bob"); lop(job("&dayor(no) 5 4 * * * \1", 1), B_dayor, 0, 0); lop(job("&runfreq(4) 5 4 * * * \1", 1), O_RUNFREQ, 4, 0);
    lop(job("&reset 5 4 * * * \1", 1), O_RESET, 0, 0); job("%daily 5 3-5 \1", 2); lop(job("%daily,serial 5 3-5 \1", 2), B_serial, 1, 0); lop(job("%daily,reset 5 3-5 \1", 2), O_RESET, 0, 0); lop(job("@reset 20 \1", 0), O_RESET, 0, 0); job("@daily \1", 3); job("@hourly \1", 4); job("%hours 5 3-5 * * * \1", 5);
    lop(job("@lavg1(1.5),lavgor 20 \1", 0), O_LAVG1, 15, 0)->nop = 1; lop(&ln[nln - 1], B_lavgor, 1, 0); lop(job("@20 20 \1", 0), O_FIRST, 1200, 0);
    if (!kuid) { lop(job("@runas(bob) 20 \1", 0), O_RUNAS, 0, "bob"); lop(job("& 5 4 * * * alice \1", 1), O_RUNAS, 0, "alice"); lop(mkln('O', "!runas(carol)"), O_RUNAS, 0, "carol"); lop(mkln('O', "!nice(-5)"), O_NICE, -5, 0); }
    else { mkln('W', "!runas(bob)"); mkln('W', "!nice(-5)"); mkln('W', "@runas(root) 20 \1")->ty = 0; mkln('W', "5 4 * * * root \1")->ty = 1; }
    lop(mkln('O', "!serial"), B_serial, 1, 0); lop(mkln('O', "!serial(false)"), B_serial, 0, 0); lop(mkln('O', "!nice(3)"), O_NICE, 3, 0); lop(mkln('O', "!mailto(x@y)"), O_MAILTO, 0, "x@y"); lop(mkln('O', "!mailto()"), O_MAILTO, 0, ""); lop(mkln('O', "!first(9)"), O_FIRST, 540, 0); lop(mkln('O', "!runfreq(6)"), O_RUNFREQ, 6, 0); lop(mkln('O', "!timezone(UTC)"), O_TZ, 0, "UTC");
    lop(mkln('O', "!reset"), O_RESET, 0, 0); lop(lop(mkln('O', "!lavg(1,2,3),until(1h)"), O_LAVG, 10020030, 0), O_UNTIL, 3600, 0); lop(lop(mkln('O', "!volatile,runonce"), B_volatile, 1, 0), B_runonce, 1, 0); lop(lop(mkln('O', "!forcemail,dayor"), B_forcemail, 1, 0), B_dayor, 1, 0); lop(mkln('O', "!mailfrom(q)"), O_MAILFROM, 0, "q"); lop(mkln('O', "!jitter(9)"), O_JITTER, 9, 0); mkln('T', "!tzdiff(3)");
    LN *l; l = mkln('E', "A=1"); l->name = "A"; l->val = "1"; l = mkln('E', "A=2"); l->name = "A"; l->val = "2"; l = mkln('E', "B = 'x y' "); l->name = "B"; l->val = "x y"; l = mkln('E', "SHELL=/bin/zsh"); l->name = "SHELL"; l->val = "/bin/zsh"; l = mkln('E', "AB=\"\""); l->name = "AB"; l->val = "";
    lop(mkln('O', "MAILTO=carol"), O_MAILTO, 0, "carol"); lop(mkln('O', "MAILTO="), O_MAILTO, 0, ""); lop(mkln('O', "MAILTO=\"\""), O_MAILTO, 0, ""); lop(mkln('O', "MAILFROM=dave"), O_MAILFROM, 0, "dave");
    mkln('C', "# @ 5 no"); mkln('C', ""); mkln('C', "  \t "); mkln('C', "   #x");
    static const char *bad[] = { "@ x \1", "@ 0 \1", "@ 10", "@10", "@", "@ ", "@serial", "@serial(maybe) 10 \1", "& 60 4 * * * \1", "& 5 4 * * \1", "&1 5 4 * * * \1", "&nice(50) 5 4 * * * \1", "5 4 * * 8 \1", "5 4 0 * * \1", "5 4 * * *", "5 4 * * * ", "5", "*", "*/0 * * * * \1", "&", "& * * * * *", "%daily 5 \1", "%daily,nice(x) 5 3-5 \1", "%hours * * * * * \1", "%foo 5 4 \1", "%", "%daily", "%daily 5 3-5", "%daily * 25 \1", "%weekly 60 * \1", "@daily", "@daily,serial \1", "!nice(50),serial", "!mailto(\"bob\")", "!mailto( b)", "!mailfrom(b')", "!timezone(\"UTC\")", "!runas(\"bob\")", "!until(x)", "!until(1hx)", "!first(x)", "!first(99999999999999999999)", "!nice(x)", "!jitter(300)", "!runfreq(1)", "!lavg15(x)", "!serial(x)", "!tzdiff(x)", "!tzdiff(-)", "!reset(x)", "!lavg(1,2)", "!first", "!tzdiff(30)", "junk", "=3", "A", "A B=1", "A='x", "A=\"x'", "A='", "1A=2", "-x", "A-B=1", "serial", "\1", "/bin/\1", "@5 \1", "@1h2x 20 \1", "&r(1) 5 4 * * * \1", "@until(x) 20 \1", "@mailto 20 \1", "&timezone 5 4 * * * \1", "1,2, 4 * * * \1" };
    for (unsigned i = 0; i < sizeof bad / sizeof *bad; i++) mkln('X', bad[i]);
    static const char *w[] = { "!", "!foo", "!serialonly(1)" }; for (int i = 0; i < 3; i++) mkln('W', w[i]);
    mkln('W', "@foo 20 \1")->ty = 0; mkln('W', "&foo 5 4 * * * \1")->ty = 1; mkln('W', "&daily 5 4 * * * \1")->ty = 1;
    lop(mkln('W', "!serial x"), B_serial, 1, 0); mkln('M', "USER=bob"); mkln('M', "LOGNAME=bob");
    static char *lg[4]; if (!lg[0]) { lg[0] = longline(1200, ""); lg[1] = longline(1200, "\\\n@ 5 EVIL"); lg[2] = longline(3000, "\\\n@ 5 EVIL\\\n5 4 * * * EVIL"); lg[3] = longline(1023, "\\\nB=3"); }
    for (int i = 0; i < 4; i++) mkln('X', lg[i]);
}
static uint64_t seqno;
static void run_seq(const int *q, int n)
{
    /* what it means */
    SP d = sp_default(kuser); SP want[6]; char wcmd[6][16]; int wsure[6], nw = 0, bad[64] = { 0 }, nobad[64] = { 0 }, nbad = 0, tz = 0, at = 1, mailoff = 0; const char *en[8], *ev[8]; int ne = 0, wmsg = 0;
    xlen = 0; char tt[400] = "", *tp = tt;
    for (int i = 0; i < n; i++) {
        LN *l = &ln[q[i]]; int k0 = at, nl = lines_in(l->t) + 1; char cmd[16]; snprintf(cmd, sizeof cmd, "J%d", i);
        for (const char *p = l->t; *p; p++) if (*p == 1) xput(cmd, strlen(cmd)); else xput(p, 1);
        xput("\n", 1); at += nl; for (int k = 0; l->t[k] && tp < tt + 380 && k < 60; k++) *tp++ = l->t[k] == 1 ? 'J' : l->t[k] == '\n' ? '$' : l->t[k]; *tp++ = '|'; *tp = 0;
        for (int k = 0; k < l->nop; k++) if (l->op[k].op == O_MAILTO) { if (!*l->op[k].s) mailoff = 1; else if (mailoff && l->t[0] != 'M') return; }
        SP s = linebase(l->ty == 3 || l->ty == 4 ? 1 : l->ty == 5 ? 2 : l->ty);
        if (l->ty == 3) { s.mins = 1; s.hrs = 1; } if (l->ty == 4) { s.mins = 1; s.hrs = ALLH; } if (l->ty == 5) strcpy(s.per, "hours");
        switch (l->kind) {
        case 'O': for (int k = 0; k < l->nop; k++) apply(&d, &l->op[k]); for (int k = k0; k < at; k++) nobad[k] = 1; break;
        case 'T': tz = 3; nobad[k0] = 1; break;
        case 'E': { int k; for (k = 0; k < ne; k++) if (!strcmp(en[k], l->name)) break; en[k] = l->name; ev[k] = l->val; if (k == ne) ne++; nobad[k0] = 1; break; }
        case 'C': nobad[k0] = 1; break;
        case 'J': case 'W': {
            if (l->kind == 'W') { bad[k0] = 1; nbad++; if (!strchr(l->t, 1)) { for (int k = 0; k < l->nop; k++) apply(&d, &l->op[k]); break; } } else nobad[k0] = 1;
            SP x = d; x.type = s.type; x.mins = s.mins; x.hrs = s.hrs; x.days = s.days; x.mons = s.mons; x.dow = s.dow; x.freq = s.freq; strcpy(x.per, s.per);
            for (int k = 0; k < l->nop; k++) apply(&x, &l->op[k]);
            want[nw] = x; strcpy(wcmd[nw], cmd); wsure[nw++] = l->kind == 'J'; break; }
        case 'X': bad[k0] = 2; nbad++; break;
        case 'M': bad[k0] = 1; wmsg = 1; break;
        }
        if (l->kind == 'X' || l->kind == 'W' || l->kind == 'M') for (int k = k0 + 1; k < at; k++) { bad[k] = 0; nobad[k] = 0; }
        if (nl > 1) bad[k0] = 3;           /* any line of it may be named */
    }
    for (int how = 0; how < 2; how++) {
        load(kuser, kuid, xtext, xlen, how ? BY_EDIT : BY_FILE); mc_eval(1);
        int k0 = 0;
        for (int i = 0; i < nw; i++) {
            int c = ld_count(wcmd[i]);
            if (wsure[i] && c != 1) { mc_violation(nbad ? "valid line lost next to an error" : "valid line lost", "%s: line %s gives %d jobs", tt, wcmd[i], c); return; }
            if (c) { char *a = sp_str(&want[i]), *b = sp_str(ld_find(wcmd[i])); if (strcmp(a, b)) { mc_violation("line means something else after other lines", "%s: %s should be %s, is %s", tt, wcmd[i], a, b); return; } k0 += c; }
        }
        if (ld.nj != k0) { mc_violation("job from a line with an error", "%s: %d jobs instead of %d", tt, ld.nj, k0); return; }
        if (nw && ld.tzdiff != tz && ld.nj) { mc_violation("wrong tzdiff", "%s: %d", tt, ld.tzdiff); return; }
        int envok = ld.nenv == ne || !ld.installed; for (int k = 0; k < ne && ld.installed; k++) { char b[80]; snprintf(b, sizeof b, "%s=%s", en[k], ev[k]); int f = 0; for (int j = 0; j < ld.nenv; j++) f |= !strcmp(ld.env[j], b); envok &= f; }
        if (!envok) { mc_violation("wrong variables", "%s: %d variables instead of %d", tt, ld.nenv, ne); return; }
        if (nbad && !ld.prompt && how) { mc_violation("error not flagged", "%s: fcrontab -e does not ask; it says %.300s", tt, tab_err); return; }
        if (!nbad && !wmsg && ld.prompt) { mc_violation("valid text flagged", "%s: fcrontab -e asks; %.300s", tt, tab_err); return; }
        if (!how) for (int k = 1; k < at; k++) {
            if ((bad[k] == 1 || bad[k] == 2) && !ld.errline[k]) { mc_violation("no message naming the line", "%s: line %d; fcrontab says %.300s", tt, k, tab_err); return; }
            if (nobad[k] && ld.errline[k]) { mc_violation("message about a valid line", "%s: line %d; fcrontab says %.300s", tt, k, tab_err); return; }
        }
        if (!how && nbad && !strstr(tab_err, "/tmp/tab:")) { mc_violation("no message", "%s", tt); return; }
    }
    mc_outcome(shash(xtext)); if (seqno++ % 4001 == 0) mc_sample("%s -> %d jobs, %d errors", tt, nw, nbad);
}
static void c24(long i)
{
    static int nroot; if (!nroot) { kuid = 0; mklines(); nroot = nln; }
    if (i < nroot) { kuser = "root"; kuid = 0; } else { kuser = "alice"; kuid = 1001; i -= nroot; }
    mklines(); if (i >= nln) return;
    int q[3]; q[0] = i; run_seq(q, 1);
    for (q[1] = 0; q[1] < nln && !mc_stop(); q[1]++) {
        run_seq(q, 2);
        /* the sequences of three: of all lines, or (quick) of root's lines without two thirds of the ones refused */
#define CORE(x) (mc_thorough || (kuid == 0 && (ln[x].kind != 'X' || (x) % 3 == 0)))
        if (CORE(q[0]) && CORE(q[1])) for (q[2] = 0; q[2] < nln; q[2]++) if (CORE(q[2])) run_seq(q, 3);
    }
}

/* ------------------------------------------------------------------ C25 */
/* all strings over an alphabet, of lengths 0..max: the n-th one */
static long nstr(int a, int max) { long t = 0, p = 1; for (int l = 0; l <= max; l++) { t += p; p *= a; } return t; }
static void strat(long n, const char *al, int max, char *o) { int a = strlen(al); long p = 1; for (int l = 0; l <= max; l++) { if (n < p) { for (int i = 0; i < l; i++) { o[i] = al[n % a]; n /= a; } o[l] = 0; return; } n -= p; p *= a; } abort(); }
static int blank(int c) { return c == ' ' || c == '\t'; }
static char *trim(const char *w, char *o) { while (blank(*w)) w++; strcpy(o, w); int n = strlen(o); while (n && blank(o[n - 1])) o[--n] = 0; return o; }
static char *esc(const char *w) { static char b[4][700]; static int k; char *o = b[k++ & 3]; int n = 0; for (; *w && n < 640; w++) if ((unsigned char)*w < 32 || (unsigned char)*w > 126) n += sprintf(o + n, "\\x%02x", (unsigned char)*w); else o[n++] = *w; o[n] = 0; return o; }
static const char *env_get(const char *name) { int l = strlen(name); const char *r = NULL; for (int i = 0; i < ld.nenv; i++) if (!strncmp(ld.env[i], name, l) && ld.env[i][l] == '=') { if (r) return "(twice)"; r = ld.env[i] + l + 1; } return r; }
#define EB 200
/* values of variables: "name<before>=<after>w" for EB strings w in one fcrontab */
static void env_batch(int n, char (*w)[24], const char *before, const char *after, int how)
{
    xlen = 0; for (int i = 0; i < n; i++) { char b[200]; int l = snprintf(b, sizeof b, "V%d%s=%s%s\n", i, before, after, w[i]); xput(b, l); }
    xput("@ 20 J\n", 7); load(kuser, kuid, xtext, xlen, how); mc_eval(n);
    if (!ld_count("J")) { mc_violation("the line after variables is lost", "%s...: %.300s", esc(w[0]), tab_err); return; }
    for (int i = 0; i < n; i++) {
        char nm[12], t[64]; const char *want = trim(w[i], t); snprintf(nm, sizeof nm, "V%d", i); int l = strlen(t); char q = *t; int bad = 0;
        if (q == '"' || q == '\'') { if (l < 2 || t[l - 1] != q) bad = 1; else { t[l - 1] = 0; want = t + 1; } }
        const char *g = env_get(nm); mc_outcome(shash(w[i]) ^ shash(after));
        if (bad) { if (g) mc_violation("mismatched quotes accepted", "A=%s gives \"%s\"", esc(w[i]), esc(g)); else if (how == BY_FILE && !ld.errline[i + 1]) mc_violation("mismatched quotes without message", "A=%s", esc(w[i])); }
        else if (!g) mc_violation("assignment lost", "A%s=%s%s", before, after, esc(w[i]));
        else if (strcmp(g, want)) mc_violation("wrong value", "A%s=%s%s gives \"%s\" instead of \"%s\"", before, after, esc(w[i]), esc(g), esc(want));
        else if (how == BY_FILE && ld.errline[i + 1]) mc_violation("message about a valid assignment", "A=%s: %.200s", esc(w[i]), tab_err);
    }
}
static const char *EALPHA = "a \t\"'=#\\";
static void c25_env(long part, long parts)
{
    int max = mc_thorough ? 7 : 6; long t = nstr(8, max); static char w[EB][24]; int n = 0; long i0 = t * part / parts, i1 = t * (part + 1) / parts;
    for (long i = i0; i < i1; i++) { strat(i, EALPHA, max, w[n]); int l = strlen(w[n]); if (l && w[n][l - 1] == '\\') continue; if (++n == EB) { env_batch(n, w, "", "", (i / EB) % 3); n = 0; } }
    if (n) env_batch(n, w, "", "", BY_FILE);
}
static void cmd_batch(int n, char (*w)[24], int form)
{
    static const char *pre[] = { "@ 20 ", "5 4 * * * ", "%daily 5 4 ", "&serial 5 4 * * *\t", "@serial(1)\t20\t ", "@daily " };
    xlen = 0; for (int i = 0; i < n; i++) { char b[200]; int l = form & 8 ? snprintf(b, sizeof b, "%s%s J%d\n", pre[form & 7], w[i], i) : snprintf(b, sizeof b, "%sJ%d %s\n", pre[form & 7], i, w[i]); xput(b, l); }
    load(kuser, kuid, xtext, xlen, form % 3); mc_eval(n);
    int k = 0;
    for (int i = 0; i < n; i++) {
        char b[64], t[64]; if (form & 8) snprintf(b, sizeof b, "%s J%d", w[i], i); else snprintf(b, sizeof b, "J%d %s", i, w[i]); trim(b, t); mc_outcome(shash(t) * 3 + form);
        if (k >= ld.nj) { mc_violation("command lost", "%s%s: %.200s", pre[form & 7], esc(t), tab_err); return; }
        if (strcmp(ld.j[k].cmd, t)) { mc_violation("command changed", "%s%s is run as \"%s\"", pre[form & 7], esc(t), esc(ld.j[k].cmd)); return; }
        k++;
    }
    if (k != ld.nj) mc_violation("too many jobs", "%d instead of %d", ld.nj, k);
    if (strstr(tab_err, "/tmp/tab:")) mc_violation("message about valid commands", "%.300s", tab_err);
}
static void c25_cmd(long part, long parts)
{
    const char *al = "a \t\"'%#\\!&:"; int max = mc_thorough ? 6 : 5; long t = nstr(11, max); static char w[EB][24]; int n = 0; long i0 = t * part / parts, i1 = t * (part + 1) / parts; long nb = 0;
    for (int mode = 0; mode < 2; mode++) for (long i = i0; i < i1; i++) { strat(i, al, max, w[n]); int l = strlen(w[n]); if (!mode && l && w[n][l - 1] == '\\') continue; if (++n == EB || i == i1 - 1) { cmd_batch(n, w, (mode ? 8 : 0) + nb++ % 6); n = 0; } }
}
static const char *cbase[] = { "@ 20 J", "@serial,nice(3),first(2h) 20 J k", "& 5 4 * * * J", "5,7 4-9/2 1-9~2 jan-mar mon,tue J", "&3 5 4 * * * J", "%daily 5 3-5 J a b", "@daily J", "!serial,mailto(bob)", "!tzdiff(3)", "ABC = d e", "AB='x y '", "MAILTO=carol", "# comment", "", "   " };
/* what is in the daemon, as a string */
static char *ld_all(void)
{
    static char b[2][9000]; static int k; char *o = b[k++ & 1]; int n = snprintf(o, 9000, "tz=%d ", ld.tzdiff);
    for (int i = 0; i < ld.nenv; i++) n += snprintf(o + n, 9000 - n, "[%s] ", ld.env[i]);
    for (int i = 0; i < ld.nj; i++) n += snprintf(o + n, 9000 - n, "{%s: %s} ", ld.j[i].cmd, sp_str(&ld.j[i]));
    return o;
}
/* a continuation at each place of each line, with lines around it: same meaning, and the line numbers stay right */
static void c25_cont(int b)
{
    const char *l = cbase[b]; int n = strlen(l); char t[400]; char ref[9000];
    int k = sprintf(t, "@ 7 A\n%s\n@ 9 B\njunk\n", l); load(kuser, kuid, t, k, BY_FILE); strcpy(ref, ld_all());
    if (!ld_count("A") || !ld_count("B") || !ld.errline[4]) { mc_violation("lines around lost", "%s", t); return; }
    for (int i = 0; i <= n; i++) for (int j = -1; j <= n; j++) {
        if (j >= 0 && j < i) continue; if (*l == '#' && i == 0 && j != -1) continue;
        char c[200] = ""; int m = 0, nc = 0; for (int p = 0; p <= n; p++) { if (p == i) { m += sprintf(c + m, "\\\n"); nc++; } if (p == j) { m += sprintf(c + m, "\\\n"); nc++; } if (p < n) c[m++] = l[p]; c[m] = 0; }
        k = sprintf(t, "@ 7 A\n%s\n@ 9 B\njunk\n", c); load(kuser, kuid, t, k, BY_FILE); mc_eval(1); mc_outcome(shash(t));
        if (strcmp(ld_all(), ref)) mc_violation("continuation changes the meaning", "%s gives %s instead of %s", esc(c), ld_all(), ref);
        else if (!ld.errline[4 + nc] || ld.errline[4] || ld.errline[3]) mc_violation("wrong line number after a continuation", "%s: %.200s", esc(c), tab_err);
    }
    /* leading blanks, last line without a newline, twice in a file */
    for (int v = 0; v < 8; v++) {
        const char *lead = v == 1 ? " " : v == 2 ? "\t" : v == 3 ? "  \t " : "";
        const char *tail = v == 4 ? " " : v == 5 ? "\t\t" : v == 6 ? " \t " : "";
        k = sprintf(t, "@ 7 A\n%s%s%s\n@ 9 B\njunk\n", lead, l, tail); load(kuser, kuid, t, k, BY_FILE); mc_eval(1);
        if (strcmp(ld_all(), ref)) mc_violation("blanks change the meaning", "\"%s%s%s\" gives %s instead of %s", lead, esc(l), tail, ld_all(), ref);
        k = sprintf(t, "@ 7 A\n@ 9 B\n%s%s%s", lead, l, tail); load(kuser, kuid, t, k, v % 3); mc_eval(1); char one[9000]; strcpy(one, ld_all());
        k = sprintf(t, "@ 7 A\n@ 9 B\n%s%s%s\n", lead, l, tail); load(kuser, kuid, t, k, v % 3);
        if (strcmp(ld_all(), one)) mc_violation("a last line without newline means something else", "%s", esc(l));
    }
    /* a null character anywhere: the line is refused as a whole and the others are as ever */
    char none[9000]; k = sprintf(t, "@ 7 A\n@ 9 B\njunk\n"); load(kuser, kuid, t, k, BY_FILE); strcpy(none, ld_all());
    if (b < 13 && *l && *l != ' ' ) for (int i = 0; i <= n; i++) for (int how = 0; how < 3; how++) {
        k = sprintf(t, "@ 7 A\n%.*s", i, l); t[k++] = 0; k += sprintf(t + k, "%s\n@ 9 B\njunk\n", l + i); load(kuser, kuid, t, k, how); mc_eval(1);
        if (strcmp(ld_all(), none) && strcmp(ld_all(), ref)) mc_violation("line with a null character is cut", "%s, null at %d: %s", l, i, ld_all());
        else if (how == BY_FILE && *l != '#' && !ld.errline[2]) mc_violation("null character without message", "%s, null at %d", l, i);
    }
}
/* every byte in a command, a value, a comment, and at the start of a line */
static void c25_bytes(void)
{
    for (int c = 1; c < 256; c++) {
        if (c == '\n') continue; char t[200], w[40]; int k = sprintf(t, "# x%cx\nV=a%cb\nW='%c'\n@ 20 J%cx\n%c 5\n@ 20 K\n", c, c, c, c, c); load(kuser, kuid, t, k, BY_FILE); mc_eval(4); mc_outcome(c + 77777);
        sprintf(w, "a%cb", c); if (!env_get("V") || strcmp(env_get("V"), w)) mc_violation("byte changed in a value", "byte %d", c);
        sprintf(w, "%c", c); if (!(c == '\'' ) && (!env_get("W") || strcmp(env_get("W"), w))) mc_violation("byte changed in a quoted value", "byte %d", c);
        sprintf(w, "J%cx", c); if (!ld_count(w)) mc_violation("byte changed in a command", "byte %d: %s", c, ld_all());
        if (!ld_count("K")) mc_violation("next line lost", "byte %d", c);
        if (c != '#' && c != '!' && !ld.errline[5]) mc_violation("nonsense line without message", "byte %d", c);
        if (ld.nj != 2) mc_violation("nonsense line gives a job", "byte %d: %s", c, ld_all());
    }
}
static char *fill(char *b, int n, int seed) { for (int i = 0; i < n; i++) b[i] = 'a' + (i * 7 + seed) % 26; b[n] = 0; return b; }
/* lines of every length around the limit: whole or refused */
static void c25_len(int form)
{
    static char w[4000], t[9000]; int step = 1;
    for (int n = 900; n <= 2200; n += step) {
        if (n > 1060 && n < 2030) { n = 2030; continue; }
        for (int cont = 0; cont < 3; cont++) {       /* on one line, or in two at n/2 or near the end */
            fill(w, n, n); int k = sprintf(t, "@ 7 A\n"), h; const char *what = "";
            switch (form) {
            case 0: what = "command"; k += h = sprintf(t + k, "@ 20 %s", w); break;
            case 1: what = "value"; k += h = sprintf(t + k, "V=%s", w); break;
            case 2: what = "quoted value"; k += h = sprintf(t + k, "V='%s'", w); break;
            case 3: what = "name"; k += h = sprintf(t + k, "%s=v", w); break;
            case 4: what = "mailto"; k += h = sprintf(t + k, "!mailto(%s)", w); break;
            case 5: what = "MAILTO"; k += h = sprintf(t + k, "MAILTO=%s", w); break;
            case 6: what = "mailfrom"; k += h = sprintf(t + k, "!mailfrom(%s)", w); break;
            case 7: what = "timezone"; k += h = sprintf(t + k, "!timezone(%s)", w); break;
            case 8: what = "command of an &-line"; k += h = sprintf(t + k, "&serial 5 4 * * * %s", w); break;
            default: what = "option name"; k += h = sprintf(t + k, "!%s", w);
            }
            if (cont) { int at = k - h + (cont == 1 ? h / 2 : h - 1); memmove(t + at + 2, t + at, k - at); t[at] = '\\'; t[at + 1] = '\n'; k += 2; }
            k += sprintf(t + k, "\n@ 9 B\njunk\n"); load(kuser, kuid, t, k, BY_FILE); mc_eval(1); mc_outcome(form * 100000L + n * 3 + cont);
            int j = ld_count("A") && ld_count("B"), whole = 0, none = 0, msg = ld.errline[2] || (cont && ld.errline[3]), je = 4 + !!cont;
            if (!j) { mc_violation("lines around a long line lost", "%s of %d: %.200s", what, n, tab_err); continue; }
            if (!ld.errline[je]) mc_violation("wrong line number after a long line", "%s of %d: %.200s", what, n, tab_err);
            SP *B = ld_find("B");
            switch (form) {
            case 0: case 8: whole = ld.nj == 3 && ld_count(w) == 1; none = ld.nj == 2; break;
            case 1: case 2: whole = ld.nenv == 1 && env_get("V") && !strcmp(env_get("V"), w); none = ld.nenv == 0; break;
            case 3: whole = ld.nenv == 1 && env_get(w); none = ld.nenv == 0; break;
            case 4: case 5: whole = !strcmp(ld.lastmailto, w); none = !strcmp(ld.lastmailto, kuser); break;
            case 6: whole = !strcmp(ld.lastmailfrom, w); none = !*ld.lastmailfrom; break;
            case 7: whole = !strcmp(ld.lasttz, w); none = !*ld.lasttz; break;
            default: whole = 0; none = 1;
            }
            (void)B;
            if (form <= 2 && (ld.nj != (form == 0 ? 2 + whole : 2))) mc_violation("part of a long line read as another", "%s of %d: %d jobs", what, n, ld.nj);
            if (!whole && !none) mc_violation("long line cut", "%s of %d: %.500s", what, n, ld_all());
            else if (none && !msg) mc_violation("long line dropped without message", "%s of %d", what, n);
            else if (none && form != 9 && n < 990) mc_violation("line within the limit refused", "%s of %d: %.200s", what, n, tab_err);
        }
    }
}
/* fcrontabs around the limits in number of entries and lines */
static void c25_count(int which)
{
    static const int ne[] = { 1000, 1022, 1023, 1024, 1025, 1026, 1100, 2000 }, nl[] = { 10000, 10248, 10249, 10250, 10251, 10252, 10300, 20500 };
    kuser = which & 1 ? "alice" : "root"; kuid = which & 1 ? 1001 : 0; int v = which / 2 % 8, lines = which / 16; char b[64]; int total;
    xlen = 0;
    if (!lines) { total = ne[v]; for (int i = 0; i < total; i++) { int n = snprintf(b, sizeof b, i % 3 ? "@ 20 J%d\n" : "5 4 * * * J%d\n", i); xput(b, n); } }
    else { total = 2; xput("@ 20 J0\n", 8); for (int i = 2; i < nl[v]; i++) xput(i % 3 ? "#\n" : "V=1\n", i % 3 ? 2 : 4); xput("@ 20 J1\n", 8); }
    load(kuser, kuid, xtext, xlen, BY_FILE); mc_eval(1); mc_outcome(which + 999000);
    for (int i = 0; i < ld.nj; i++) { snprintf(b, sizeof b, "J%d", i); if (strcmp(ld.j[i].cmd, b)) { mc_violation("jobs lost among others", "%s: entry %d of %d is %s", kuser, i, total, ld.j[i].cmd); return; } }
    if (ld.nj < total && ld.installed && !strstr(tab_err, "/tmp/tab:") && !strstr(tab_err, "entries") && !strstr(tab_err, "lines")) mc_violation("entries lost without a message", "%s: %d of %d, %.200s", kuser, ld.nj, total, tab_err);
    if (ld.nj < total && (lines ? nl[v] : total) <= 1000) mc_violation("entries within the limit lost", "%s: %d of %d", kuser, ld.nj, total);
    load(kuser, kuid, xtext, xlen, BY_EDIT); if (ld.nj < total && !ld.prompt) mc_violation("fcrontab -e does not ask", "%s: %d of %d entries", kuser, ld.nj, total);
}
#define C25_N (64 + 64 + 15 + 10 + 64 + 1 + 32)
static void c25(long i)
{
    kuser = i & 1 ? "alice" : "root"; kuid = i & 1 ? 1001 : 0;
    if (i < 64) { c25_env(i, 64); return; } i -= 64;
    if (i < 64) { c25_cmd(i, 64); return; } i -= 64;
    if (i < 15) { c25_cont(i); return; } i -= 15;
    if (i < 10) { c25_len(i); return; } i -= 10;
    if (i < 64) {        /* blanks around the equal sign */
        static char w[EB][24]; char be[8], af[8]; int n = 0; for (long k = 0; k < nstr(8, 2); k++) { strat(k, EALPHA, 2, w[n]); int l = strlen(w[n]); if (!(l && w[n][l - 1] == '\\')) n++; }
        strat(i % 7, " \t", 2, be); strat(i / 7 % 7, " \t", 2, af); env_batch(n, w, be, af, BY_FILE); return; } i -= 64;
    if (i < 1) { c25_bytes(); return; } i -= 1;
    c25_count(i);
}

/* ------------------------------------------------------------------ C26 */
/* the texts of the other checks, and all short strings of tokens in each syntactic position, under the address and undefined behaviour sanitizers: no verdict but theirs */
static const char *tok[] = { "a", "0", "9", "*", "/", "-", "~", ",", "(", ")", "=", "!", "&", "@", "%", " ", "\t", "\"", "'", "\\", "\n", "#", ".", "\xc3", "jan", "sun", "serial", "lavg", "99999999999", "first", "s", "tzdiff", "reset", "until", "daily", "hourly", "root", "mailto" };
#define NTOK (int)(sizeof tok / sizeof *tok)
static const char *pfx[] = { "", "!", "@", "&", "%", "@serial", "@serial(", "@lavg(", "& ", "& 5 4 * * ", "& 1-", "%daily ", "A=", "!mailto(", "!first(", "@ 5", "!tzdiff(", "!timezone(", "!runas(", "%daily,", "%hours 5 ", "@reboot", "&3,", "!nice(", "&runfreq(", "!lavg15(", "!jitter(", "A='", "@ 1h", "5 4 * * * " };
#define NPFX (int)(sizeof pfx / sizeof *pfx)
static const char *sfx[] = { "\n", " J\n", ") J\n", "" };
#define C26_PARTS 16
static void c26(long i)
{
    int p = i / C26_PARTS, part = i % C26_PARTS, len = mc_thorough ? 4 : 3; xlen = 0; int nl = 0;
    kuser = i & 1 ? "alice" : "root"; kuid = i & 1 ? 1001 : 0;
    long n = 1, tot = 0; for (int l = 1; l <= len; l++) { n *= NTOK; tot += n; }
    for (int v = 0; v < 3; v++) {
        if (v == 2 && !mc_thorough) break;
        for (long k = tot * part / C26_PARTS; k < tot * (part + 1) / C26_PARTS && !mc_stop(); k++) {
            long x = k, w = NTOK; int l = 1; while (x >= w) { x -= w; w *= NTOK; l++; }
            xput(pfx[p], strlen(pfx[p])); for (int q = 0; q < l; q++) { xput(tok[x % NTOK], strlen(tok[x % NTOK])); x /= NTOK; } xput(sfx[v], strlen(sfx[v])); nl++; mc_outcome(k * NPFX + p + v * 1000000007L);
            if (nl == 60 || l < 3) { eng_init(); tab_install(kuser, kuid, xtext, xlen, l == 2 ? BY_EDIT : nl % 3); mc_eval(nl); xlen = nl = 0; }
        }
        if (nl) { eng_init(); tab_install(kuser, kuid, xtext, xlen, BY_FILE); mc_eval(nl); xlen = nl = 0; }
    }
    /* runs of one character, of lengths around every buffer's */
    static const char cs[] = "a0(,)~\" -*=\\.!@\xc3\t/'"; static char b[1200];
    for (int c = part; c < (int)sizeof cs - 1; c += C26_PARTS) for (int m = 1; m < 1060; m++) {
        if (!mc_thorough && !(m < 40 || (m > 90 && m < 110) || (m > 190 && m < 200) || (m > 252 && m < 260) || (m > 508 && m < 516) || m > 990)) continue;
        memset(b, cs[c], m); for (int v = 0; v < 4; v++) { xlen = 0; xput(pfx[p], strlen(pfx[p])); xput(b, m); xput(sfx[v], strlen(sfx[v])); eng_init(); tab_install(kuser, kuid, xtext, xlen, v == 2 ? BY_STDIN : BY_FILE); mc_eval(1); mc_outcome(m * 100003L + c * 64 + p * 4 + v + 5555555555L); }
    }
    xlen = 0;
}

int harness_main(void)
{
    if (!mc_arg) return 2;
    if (!strncmp(mc_arg, "C26:", 4)) { memonly = 1; mc_arg += 4; }
    if (!strcmp(mc_arg, "C22")) mc_items(NITEMS, c22);
    else if (!strcmp(mc_arg, "C23")) mc_items(2 * NITEMS + 1, c23);
    else if (!strcmp(mc_arg, "C24")) { mklines(); mc_items(2 * nln + 10, c24); }
    else if (!strcmp(mc_arg, "C25")) mc_items(C25_N, c25);
    else if (!strcmp(mc_arg, "C26")) mc_items(NPFX * C26_PARTS, c26);
    else return 2;
    return 0;
}
