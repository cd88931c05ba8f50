/* C01-C04: the real set_next_exe() compared, for every line of a bounded family and
 * every time of a bounded set, with a direct reading of fcrontab(5): walk through the
 * calendar minute by minute. */
#include "fcron.h"
#include "database.h"
#include "vos.h"
#include "mc.h"
#include "cal.h"

extern char debug_opt;

/* ------------------------------------------------------------------ lines */
static cf_t cf; static cl_t L;
static void mkline(spec *s)
{
    static char shell[] = "cmd";
    memset(&L, 0, sizeof L); L.cl_file = &cf; L.cl_shell = shell; L.cl_runas = L.cl_mailto = cf.cf_user; L.cl_id = 7;
    for (int i = 0; i < 60; i++) if (s->min >> i & 1) bit_set(L.cl_mins, i);
    for (int i = 0; i < 24; i++) if (s->hr >> i & 1) bit_set(L.cl_hrs, i);
    for (int i = 0; i < 32; i++) if (s->day >> i & 1) bit_set(L.cl_days, i);
    for (int i = 0; i < 12; i++) if (s->mon >> i & 1) bit_set(L.cl_mons, i);
    uint32_t dow = s->dow | ((s->dow & 1) << 7) | ((s->dow >> 7) & 1);
    for (int i = 0; i < 8; i++) if (dow >> i & 1) bit_set(L.cl_dow, i);
    if (s->dayor) set_dayor(L.cl_option); else set_dayand(L.cl_option);
    L.cl_nextexe = 1;
}
static char *show(spec *s, char *b)
{
    char *p = b; p += sprintf(p, "mins");
    if (s->min == ALLMIN) p += sprintf(p, "=*"); else for (int i = 0; i < 60; i++) if (s->min >> i & 1) p += sprintf(p, ",%d", i);
    p += sprintf(p, " hrs"); if (s->hr == ALLHR) p += sprintf(p, "=*"); else for (int i = 0; i < 24; i++) if (s->hr >> i & 1) p += sprintf(p, ",%d", i);
    p += sprintf(p, " days"); if (s->day == ALLDAY) p += sprintf(p, "=*"); else for (int i = 0; i < 32; i++) if (s->day >> i & 1) p += sprintf(p, ",%d", i);
    p += sprintf(p, " mons"); if (s->mon == ALLMON) p += sprintf(p, "=*"); else for (int i = 0; i < 12; i++) if (s->mon >> i & 1) p += sprintf(p, ",%d", i + 1);
    p += sprintf(p, " dow"); if (s->dow == ALLDOW) p += sprintf(p, "=*"); else for (int i = 0; i < 8; i++) if (s->dow >> i & 1) p += sprintf(p, ",%d", i);
    sprintf(p, " %s", s->dayor ? "dayor" : "dayand"); return b;
}
static time_t call_next(time_t at, int opt)
{ now = at; vos_set_time(at); set_next_exe(&L, opt, -1); return L.cl_nextexe; }

/* ------------------------------------------------------------------ C01 */
static int nfam; static spec *fam; static int ntimes; static time_t *times;
static spec *fam2; static int nfam2; static time_t *times2; static int ntimes2;
static void add_spec(spec s) { static int cap; if (nfam == cap) { cap = cap * 2 + 1024; fam = realloc(fam, cap * sizeof *fam); } fam[nfam++] = s; }
static void add_time(time_t t) { static int cap; if (ntimes == cap) { cap = cap * 2 + 1024; times = realloc(times, cap * sizeof *times); } times[ntimes++] = t; }
static uint32_t day_sets[40], mon_sets[24], dow_sets[12]; static int nds, nms, nws;
static void check1(spec *s, time_t at, int tz)
{
    char b1[400], b2[40], b3[40], b4[40]; int lim = 3200;
    cf.cf_tzdiff = tz;
    time_t loc = at - tz * 3600, want = first_match(s, (loc / 60 + 1) * 60, lim), got;
    if (want >= 0) want += tz * 3600;
    got = call_next(at, STD);
    mc_eval(1);
    if (want < 0) {        /* nothing matches for nine years: must not run soon */
        if (got < at + 8L * 366 * 86400) mc_violation("near-time-for-unmatched-line", "%s at %s (tzdiff %d): next execution %s, but no date matches in the next 9 years", show(s, b1), ts(at, b2), tz, ts(got, b3));
        return;
    }
    if (got != want) mc_violation(got < want ? "not-a-matching-minute" : "later-than-first-match", "%s at %s (tzdiff %d): next execution is %s, first matching minute is %s", show(s, b1), ts(at, b2), tz, ts(got, b3), ts(want, b4));
}
static void item01(long i)
{
    static const signed char tzs[] = { 0, 1, -1, 12, -24 };
    if (i < nfam) {
        spec *s = &fam[i]; mkline(s); char b[400];
        if (i == 4242) mc_sample("line %s, %d times", show(s, b), ntimes);
        uint64_t h = 0;
        for (int k = 0; k < ntimes; k++) {
            check1(s, times[k] + (k % 3 == 0 ? 0 : k % 3 == 1 ? 1 : 59), 0); h = L.cl_nextexe;
            if (h != times[k] + 60) { uint64_t x[2] = { i, h }; mc_outcome(vos_hash(1, x, sizeof x)); }
        }
        /* tzdiff and the life of a line: reschedule at each due time, late by some seconds */
        for (int z = 0; z < (mc_thorough ? 5 : 2); z++) { time_t t = times[(i * 7 + z) % ntimes]; for (int k = 0; k < 12; k++) { check1(s, t, tzs[(z + i) % 5]); if (L.cl_nextexe > t + 6L * 366 * 86400) break; t = L.cl_nextexe + (k % 3) * 29; } }
    } else {
        spec *s = &fam2[i - nfam]; mkline(s);
        for (int k = 0; k < ntimes2; k++) { check1(s, times2[k] + (k & 1) * 59, 0); uint64_t x[2] = { i, L.cl_nextexe }; mc_outcome(vos_hash(2, x, sizeof x)); }
    }
}
static void day_families(void)
{
    day_sets[nds++] = ALLDAY; for (int d = 1; d <= 31; d++) day_sets[nds++] = 1u << d; day_sets[nds++] = (1u << 31) | (1u << 30); day_sets[nds++] = (1u << 1) | (1u << 15); day_sets[nds++] = 0x1fcu << 20;
    mon_sets[nms++] = ALLMON; for (int m = 0; m < 12; m++) mon_sets[nms++] = 1u << m; mon_sets[nms++] = (1 << 1) | (1 << 11); mon_sets[nms++] = (1 << 3) | (1 << 5) | (1 << 8) | (1 << 10);
    dow_sets[nws++] = ALLDOW; for (int w = 0; w < 7; w++) dow_sets[nws++] = 1u << w; dow_sets[nws++] = 1u << 7; dow_sets[nws++] = 0x3e;
}
static void month_edges(int y0, int y1, int every_day)
{
    for (int y = y0; y <= y1; y++) for (int m = 0; m < 12; m++) {
        long dn = dayno(y, m, 1); int n = mlen(y, m);
        for (int d = 1; d <= n; d++) if (every_day || d <= 2 || d >= 28 || d == 15) { add_time(tod(dn + d - 1, 0, 0)); add_time(tod(dn + d - 1, 23, 59)); if (every_day) add_time(tod(dn + d - 1, 12, 30)); }
    }
}
static void run01(void)
{
    static const uint64_t mins[] = { ALLMIN, 1, 1ULL << 59, (1ULL << 7) | (1ULL << 30) };
    static const uint32_t hrs[] = { ALLHR, 1u << 23, (1u << 4) | (1u << 17), 1 };
    day_families();
    for (int a = 0; a < nds; a++) for (int b = 0; b < nms; b++) for (int c = 0; c < nws; c++) for (int o = 0; o < 2; o++) for (int q = 0; q < (mc_thorough ? 8 : 2); q++) {
        int k = mc_thorough ? q : (a + b + c + q * 2) % 4;
        add_spec((spec) { mins[k % 4], hrs[(k / 4 + k) % 4], day_sets[a], mon_sets[b], dow_sets[c], o });
    }
    if (mc_thorough) month_edges(2023, 2029, 1); else month_edges(2023, 2024, 0);
    month_edges(2099, 2100, 0);
    /* every minute and hour single, at every minute of two days around a month end */
    spec *f = fam; int n = nfam; fam = NULL; nfam = 0; static spec buf[60 * 27 + 8]; int k = 0;
    for (int m = 0; m < 60; m++) for (int h = -1; h < 24; h++) { if (!mc_thorough && h >= 0 && (m % 5 && m != 59 && m != 1)) continue; buf[k++] = (spec) { 1ULL << m, h < 0 ? ALLHR : 1u << h, ALLDAY, ALLMON, ALLDOW, 0 }; }
    buf[k++] = (spec) { ALLMIN, ALLHR, ALLDAY, ALLMON, ALLDOW, 0 };
    buf[k++] = (spec) { ALLMIN, 1u << 5, ALLDAY, ALLMON, ALLDOW, 0 };
    buf[k++] = (spec) { 0x0aaaaaaaaaaaaaaaULL & ALLMIN, 0xaaaaaa, ALLDAY, ALLMON, ALLDOW, 0 };
    buf[k++] = (spec) { 0xfffff00ULL, 0xff00, 0x80000002u, ALLMON, ALLDOW, 0 };
    fam2 = buf; nfam2 = k; fam = f; nfam = n;
    static time_t tb[2881]; long dn = dayno(2024, 1, 28); for (int m = 0; m < 2880; m += mc_thorough ? 1 : 3) tb[ntimes2++] = tod(dn, 0, 0) + m * 60L; times2 = tb;
    mc_items(nfam + nfam2, item01);
    mc_count("lines", nfam + nfam2); mc_count("times-per-line", ntimes);
}

/* ------------------------------------------------------------------ C02 and C04: %-lines */
static void set_kw(int k)
{
    L.cl_runfreq = L.cl_remain = 1;
    if (k < P_MINS) set_freq_periodically(L.cl_option);
    if (k >= P_MIDH && k <= P_MIDM) set_freq_mid(L.cl_option);
    switch (k) {
    case P_HOURLY: case P_MIDH: set_freq_hrs(L.cl_option); break;
    case P_DAILY: case P_MIDD: set_freq_days(L.cl_option); break;
    case P_WEEKLY: case P_MIDW: set_freq_dow(L.cl_option); break;
    case P_MONTHLY: case P_MIDM: set_freq_mons(L.cl_option); break;
    case P_DOW: set_freq_mons(L.cl_option); /* fall through */
    case P_MONS: set_freq_days(L.cl_option); /* fall through */
    case P_DAYS: set_freq_hrs(L.cl_option); /* fall through */
    case P_HOURS: set_freq_mins(L.cl_option); /* fall through */
    }
}
typedef struct { int k; spec s; } pline;
static pline *pf; static int npf;
static void addp(int k, spec s) { static int cap; if (npf == cap) { cap = cap * 2 + 256; pf = realloc(pf, cap * sizeof *pf); } pf[npf].k = k; pf[npf++].s = s; }
static int rnd_mode; static int my_rand(void) { return rnd_mode == 0 ? 0 : rnd_mode == 1 ? RAND_MAX : rnd_mode == 2 ? RAND_MAX / 2 : RAND_MAX / 97 * 41; }
static void item02(long i)
{
    pline *p = &pf[i]; spec *s = &p->s; char b1[400], b2[40], b3[40], b4[40]; cf.cf_tzdiff = 0; mkline(s); set_kw(p->k);
    for (int k = 0; k < ntimes; k++) {
        time_t at = times[k];
        /* a run happens at an allowed time, or later than it: take both */
        time_t want = want_period(p->k, s, at), got = call_next(at, STD); mc_eval(1);
        uint64_t x[2] = { i, got }; mc_outcome(vos_hash(3, x, sizeof x));
        if (want < 0) { if (got < at + 8L * 366 * 86400) mc_violation("near-time-for-unmatched-line", "%%%s %s after a run at %s: next %s", kwname[p->k], show(s, b1), ts(at, b2), ts(got, b3)); continue; }
        if (got != want) mc_violation(got < want ? "twice-in-a-period" : "period-skipped", "%%%s %s after a run at %s: next execution is %s, first allowed time outside that period is %s", kwname[p->k], show(s, b1), ts(at, b2), ts(got, b3), ts(want, b4));
    }
    if (i == 11) mc_sample("%%%s %s", kwname[p->k], show(s, b1));
}
static void item04(long i)
{
    pline *p = &pf[i]; spec *s = &p->s; char b1[400], b2[40], b3[40], b4[40]; cf.cf_tzdiff = 0; vos_rand_hook = my_rand;
    for (int k = 0; k < ntimes; k += 2) {
        time_t at = times[k] / 60 * 60, want;
        if (p->k < 0) {             /* &-line with jitter */
            static const int js[] = { 0, 1, 59, 60, 255 };
            mkline(s); want = first_match(s, at + 60, 3300); if (want < 0) continue;
            for (int j = 0; j < 5; j++) for (rnd_mode = 0; rnd_mode < 4; rnd_mode++) {
                L.cl_jitter = js[j]; time_t got = call_next(at, STD); mc_eval(1);
                uint64_t x[3] = { i, got, j }; mc_outcome(vos_hash(4, x, sizeof x));
                if (got < want || got > want + js[j]) mc_violation("jitter-out-of-bounds", "&jitter(%d) %s at %s: runs at %s, should be within %d s after %s", js[j], show(s, b1), ts(at, b2), ts(got, b3), js[j], ts(want, b4));
            }
            continue;
        }
        mkline(s); set_kw(p->k); want = want_period(p->k, s, at); if (want < 0) continue;
        /* jitter has no effect on a %-line */
        L.cl_jitter = 200; rnd_mode = 1; time_t got = call_next(at, STD); mc_eval(1);
        if (got != want) { mc_violation("jitter-on-%-line", "%%%s,jitter(200) %s after %s: %s instead of %s", kwname[p->k], show(s, b1), ts(at, b2), ts(got, b3), ts(want, b4)); }
        L.cl_jitter = 0; set_random(L.cl_option);
        /* last minute of the stretch of allowed minutes starting at want, within its period */
        time_t e = want; long pid = p->k < P_MINS ? period_id(p->k, want) : 0; time_t lim = want + 370L * 86400;
        while (e < lim && full_match(s, e + 60) && (p->k >= P_MINS || period_id(p->k, e + 60) == pid)) e += 60;
        if (e >= lim) continue;
        for (rnd_mode = 0; rnd_mode < 4; rnd_mode++) {
            got = call_next(at, STD); mc_eval(1); uint64_t x[2] = { i, got }; mc_outcome(vos_hash(5, x, sizeof x));
            if (got < want || got >= e + 60) mc_violation("random-out-of-interval", "%%%s,random %s after %s (rand mode %d): runs at %s, allowed %s .. %s", kwname[p->k], show(s, b1), ts(at, b2), rnd_mode, ts(got, b3), ts(want, b4), ts(e + 59, b2));
        }
        clear_random(L.cl_option);
    }
}
static void item04f(long i)     /* @-lines ignore jitter */
{
    static const long fr[] = { 1, 60, 3600, 86400, 31536000 }; spec s = { 0 }; mkline(&s); set_freq(L.cl_option); L.cl_timefreq = fr[i]; L.cl_jitter = 255; vos_rand_hook = my_rand;
    for (rnd_mode = 0; rnd_mode < 4; rnd_mode++) for (int k = 0; k < ntimes; k++) { time_t got = call_next(times[k], STD); mc_eval(1); if (got != times[k] + fr[i]) mc_violation("jitter-on-@-line", "@jitter(255) %ld: next run in %ld s", fr[i], (long)(got - times[k])); }
}
static void pfamily(int small)
{
    static const uint64_t mn[] = { 1, 1ULL << 59, 0x3ffULL << 25 /*25-34*/, 0x1fULL | (0x1fULL << 55) /*0-4,55-59*/, ALLMIN & ~(1ULL << 17) };
    static const uint32_t hr[] = { 1, 1u << 23, 0xe00038u /*3-5,21-23*/, (1u << 11) | (1u << 12), 0x00ff00u, ALLHR };
    static const uint32_t dy[] = { 1u << 1, 1u << 31, (1u << 14) | (1u << 15), 0xf0000000u | 6u, ALLDAY, 0x00ff0000u };
    for (int k = 0; k < NKW; k++) {
        int nf = k == P_HOURLY || k == P_MIDH ? 1 : k < P_MINS && k != P_MONTHLY && k != P_MIDM ? 2 : k < P_MINS ? 3 : 5;
        if (nf <= 3) {
            for (int a = 0; a <= 5; a++) for (int b = 0; b < (nf >= 2 ? 6 : 1); b++) for (int c = 0; c < (nf >= 3 ? 6 : 1); c++) {
                if (small && nf == 3 && (a + b + c) % 2) continue;
                addp(k, (spec) { a < 5 ? mn[a] : ALLMIN, nf >= 2 ? hr[b] : ALLHR, nf >= 3 ? dy[c] : ALLDAY, ALLMON, ALLDOW, 0 });
            }
        } else {
            static const uint32_t mo[] = { ALLMON, 1 << 1, 0x803 /*dec,jan,feb*/, 0x155 };
            static const uint32_t dw[] = { ALLDOW, 0x3e, 1, 0x41 | 0x80 };
            for (int a = 0; a < 5; a++) for (int b = 0; b < 6; b++) for (int c = 0; c < 6; c++) for (int d = 0; d < 4; d++) for (int e = 0; e < 4; e++) for (int o = 0; o < 2; o++) {
                if ((a * 5 + b * 3 + c + d * 2 + e + o) % (small ? 11 : 3)) continue;
                spec s = { mn[a], hr[b], dy[c], mo[d], dw[e], o };
                /* fcrontab refuses lines whose periods never end */
                int ends = 0; if (k < P_HOURS && s.min != ALLMIN) ends = 1; if (k < P_DAYS && s.hr != ALLHR) ends = 1;
                if (k < P_MONS && s.day != ALLDAY && (!o || s.dow != ALLDOW)) ends = 1;
                if (k < P_DOW && s.mon != ALLMON) ends = 1; if (s.dow != ALLDOW && (!o)) ends = 1;
                if (!ends) continue;
                if (s.dow & 0x81) s.dow |= 0x81;
                addp(k, s);
            }
        }
    }
}
static void run02(int prop)
{
    pfamily(!mc_thorough);
    long dn = dayno(2023, 11, 24), dn2 = dayno(2024, 1, 20);
    int st = mc_thorough ? 7 : 29;
    for (long m = 0; m < 14 * 1440; m += st) add_time(tod(dn, 0, 0) + m * 60 + (m % 3 ? 0 : 17));
    for (long m = 0; m < 16 * 1440; m += st) add_time(tod(dn2, 0, 0) + m * 60 + 59);
    for (int h = 0; h < 24; h++) { add_time(tod(dn, h, 59)); add_time(tod(dn, h, 29)); add_time(tod(dn, h, 30)); add_time(tod(dn, h, 0)); }
    for (int d = 0; d < 400; d += mc_thorough ? 1 : 3) { add_time(tod(dn + d, 23, 59)); add_time(tod(dn + d, 0, 0)); add_time(tod(dn + d, 11, 59)); add_time(tod(dn + d, 12, 0)); }
    if (prop == 2) mc_items(npf, item02);
    else {
        for (int a = 0; a < 12; a++) { static const uint64_t m4[] = { ALLMIN, 1, 1ULL << 59, 0x8000400ULL }; addp(-1, (spec) { m4[a % 4], a < 4 ? ALLHR : a < 8 ? 1u << 23 : 0x1001, a % 3 ? ALLDAY : 1u << 31, ALLMON, ALLDOW, 0 }); }
        mc_items(npf, item04); mc_items(5, item04f);
    }
    mc_count("lines", npf); mc_count("times-per-line", ntimes);
}

/* ------------------------------------------------------------------ C03 */
/* a DST-free statement of what must hold, checked around every change of some zones */
typedef struct { const char *tz; time_t from, to; long gap; } zone;
static zone zones[] = {       /* POSIX zones: no zone files needed */
    { "CET-1CEST,M3.5.0,M10.5.0/3", 0, 0, 3600 },
    { "EST5EDT,M3.2.0,M11.1.0", 0, 0, 3600 },
    { "LHST-10:30LHDT-11,M10.1.0,M4.1.0", 0, 0, 1800 },          /* half-hour change, southern */
    { "XX3YY,M9.1.6/24,M4.1.6/24", 0, 0, 3600 },                  /* change at midnight (Santiago) */
    { "UTC0", 0, 0, 0 },
    { "IST-5:30", 0, 0, 0 },
};
#define NZ 6
static int ztab_z = -1; static time_t z0; static int zn; static struct tm *zt; static unsigned char *zmul;
static spec *zs; static int nzs;
static int tm_match(spec *s, struct tm *m)
{ day_t d = { m->tm_year + 1900, m->tm_mon, m->tm_mday, m->tm_wday }; return (s->min >> m->tm_min & 1) && (s->hr >> m->tm_hour & 1) && day_ok(s, &d); }
static void load_zone(int z)
{
    if (ztab_z == z) return; ztab_z = z;
    setenv("TZ", zones[z].tz, 1); tzset();
    z0 = tod(dayno(2024, 0, 1), 0, 0) - 86400; zn = 500 * 1440; zt = realloc(zt, zn * sizeof *zt);
    for (int i = 0; i < zn; i++) { time_t t = z0 + i * 60L; localtime_r(&t, &zt[i]); }
}
/* local offset changes within (a,b] ? */
static int changes(int a, int b) { if (a < 0) a = 0; if (b >= zn) b = zn - 1; return zt[a].tm_gmtoff != zt[b].tm_gmtoff; }
static void check3(int z, spec *s, time_t at, int how, int pline_k)
{
    char b1[400], b2[40], b3[40]; long gap = zones[z].gap; time_t got; char *tzafter;
    mkline(s); cf.cf_tzdiff = 0; if (pline_k >= 0) set_kw(pline_k);
    if (how == 1) { setenv("TZ", "UTC0", 1); orig_tz_envvar = "UTC0"; tzset(); L.cl_tz = (char *)zones[z].tz; }
    else if (how == 2) { unsetenv("TZ"); orig_tz_envvar = NULL; tzset(); L.cl_tz = (char *)zones[z].tz; }
    else { setenv("TZ", zones[z].tz, 1); orig_tz_envvar = (char *)zones[z].tz; tzset(); }
    got = call_next(at, STD); mc_eval(1); tzafter = getenv("TZ");
    if (how == 1 && (!tzafter || strcmp(tzafter, "UTC0"))) mc_violation("daemon-tz-changed", "after scheduling a line with timezone(%s), TZ is %s", zones[z].tz, tzafter ? tzafter : "(unset)");
    if (how == 2 && tzafter) mc_violation("daemon-tz-changed", "after scheduling a line with timezone(%s), TZ is %s", zones[z].tz, tzafter);
    uint64_t x[4] = { z, (uint64_t) got, s->min, s->hr }; mc_outcome(vos_hash(6, x, sizeof x));
    if (got <= at || got == at + 5) { mc_violation("not-in-the-future", "zone %s, line %s at %ld: next %ld", zones[z].tz, show(s, b1), (long)at, (long)got); return; }
    int ia = (at - z0) / 60, ig = (got - z0) / 60; if (ig >= zn || ia < 0) return;
    /* 1. it matches in the zone, or is a minute of a gap moved forward by at most the gap */
    struct tm *g = &zt[ig];
    if (got % 60) mc_violation("seconds", "zone %s, line %s at %ld: next %ld is not a whole minute", zones[z].tz, show(s, b1), (long)at, (long)got);
    if (!tm_match(s, g)) {
        int ok = 0;         /* some skipped local minute within `gap` matches and maps here */
        int lo = ig - gap / 60, hi = ig + gap / 60;
        if (gap && changes(lo - 1, hi)) for (int k = -(int)(gap / 60); k <= gap / 60 && !ok; k++) { struct tm v = *g; v.tm_isdst = 0; v.tm_min += k; time_t u = timegm(&v); gmtime_r(&u, &v); 
            /* v is a local wall time; it must not exist that day */
            int exists = 0; for (int q = lo - 200; q <= hi + 200; q++) if (q >= 0 && q < zn && zt[q].tm_mday == v.tm_mday && zt[q].tm_hour == v.tm_hour && zt[q].tm_min == v.tm_min) exists = 1;
            if (!exists && tm_match(s, &v)) ok = 1; }
        if (!ok) mc_violation("not-a-matching-minute", "zone %s (%s), line %s at %s UTC: next %s UTC = local %02d-%02d %02d:%02d does not match", zones[z].tz, how ? "timezone option" : "daemon zone", show(s, b1), ts(at, b2), ts(got, b3), g->tm_mon + 1, g->tm_mday, g->tm_hour, g->tm_min);
    }
    /* 2. no matching minute of a day without change is skipped (&-lines) */
    if (pline_k < 0) for (int q = ia + 1; q < ig; q++) {
        if (!tm_match(s, &zt[q])) continue;
        int day0 = q - zt[q].tm_hour * 60 - zt[q].tm_min;
        if (changes(day0 - 61, day0 + 1441 + 61)) continue;
        char b4[40]; mc_violation("matching-minute-skipped", "zone %s (%s), line %s at %s UTC: next %s UTC, but %s UTC (local %02d:%02d) matches and is on a day without time change", zones[z].tz, how ? "timezone option" : "daemon zone", show(s, b1), ts(at, b2), ts(got, b3), ts(z0 + q * 60L, b4), zt[q].tm_hour, zt[q].tm_min); break;
    }
    /* 3. nothing is postponed beyond the change by more than the day of the change */
    if (pline_k < 0 && ig - ia > 1500 * 2) { int miss = -1; for (int q = ia + 1; q < ig - 1441; q++) if (tm_match(s, &zt[q]) && zt[q].tm_isdst == zt[ia].tm_isdst && !changes(q - 1, q + 1) ) { miss = q; break; }
        if (miss >= 0) { int day0 = miss - zt[miss].tm_hour * 60 - zt[miss].tm_min; if (!changes(day0 - 61, day0 + 1501)) mc_violation("matching-minute-skipped", "zone %s line %s", zones[z].tz, show(s, b1)); } }
}
static int nhow = 3; static int zchunks = 16;
static time_t *zat[NZ]; static int nzat[NZ];
static void item03(long i)
{
    int z = i % NZ, c = (i / NZ) % zchunks; load_zone(z);
    for (int k = c; k < nzs; k += zchunks) for (int a = 0; a < nzat[z]; a++) { int how = (a + k) % nhow; check3(z, &zs[k], zat[z][a], how, -1); }
    if (c == 0) { /* %-lines around the changes: future and matching */
        static spec ps = { 1ULL | (1ULL << 30), 0x0000ffu, ALLDAY, ALLMON, ALLDOW, 0 }; static spec ph = { 0x3ff0ULL, ALLHR, ALLDAY, ALLMON, ALLDOW, 0 };
        for (int a = 0; a < nzat[z]; a++) { check3(z, &ps, zat[z][a], 0, P_DAILY); check3(z, &ps, zat[z][a], 1, P_MIDD); check3(z, &ph, zat[z][a], 0, P_HOURLY); check3(z, &ph, zat[z][a], 1, P_MIDH); check3(z, &ps, zat[z][a], 2, P_HOURS); check3(z, &ps, zat[z][a], 0, P_WEEKLY); }
    }
}
static void item03tz(long i)        /* tzdiff: the schedule of a place n hours away */
{
    load_zone(4); spec *s = &zs[i % nzs]; char b1[400];
    for (int tz = -24; tz <= 24; tz++) for (int a = 0; a < nzat[4]; a += 3) {
        mkline(s); setenv("TZ", "UTC0", 1); orig_tz_envvar = "UTC0"; tzset(); time_t at = zat[4][a]; cf.cf_tzdiff = 0; time_t base = call_next(at - tz * 3600, STD);
        cf.cf_tzdiff = tz; time_t got = call_next(at, STD); mc_eval(1);
        if (got != base + tz * 3600) mc_violation("tzdiff", "line %s, tzdiff=%d: next %ld instead of %ld", show(s, b1), tz, (long)got, (long)(base + tz * 3600));
    }
}
static void addz(spec s) { static int cap; if (nzs == cap) { cap = cap * 2 + 64; zs = realloc(zs, cap * sizeof *zs); } zs[nzs++] = s; }
static void run03(void)
{
    static const uint64_t mn[] = { ALLMIN, 1, 1ULL << 30, 1ULL << 59, 0x1041041041041041ULL & ALLMIN, (1ULL << 29) | (1ULL << 31) };
    for (int m = 0; m < 6; m++) for (int h = -1; h < 24; h++) { if (h > 4 && h < 22 && h % 6) continue; addz((spec) { mn[m], h < 0 ? ALLHR : 1u << h, ALLDAY, ALLMON, ALLDOW, 0 }); if (h >= 0) { addz((spec) { mn[m], 1u << h, ALLDAY, ALLMON, 1, 0 }); addz((spec) { mn[m], 1u << h, 1u << 31 | 1u << 3, ALLMON, ALLDOW, 0 }); } }
    addz((spec) { 1ULL << 5, 0x0c, ALLDAY, 0x204, ALLDOW, 0 }); addz((spec) { 1ULL << 5, 0x5, 0x80000000u, ALLMON, 1, 1 });
    for (int z = 0; z < NZ; z++) {
        load_zone(z); zat[z] = malloc(60000 * sizeof(time_t)); int n = 0, any = 0;
        for (int i = 4000; i < zn - 90000 && n < 59000; i++) if (zt[i].tm_gmtoff != zt[i - 1].tm_gmtoff) { any = 1; int w = 1600, st = mc_thorough ? 1 : 7; for (int q = -w; q < w && n < 59000; q += (abs(q) < 130 ? 1 : st)) zat[z][n++] = z0 + (i + q) * 60L + (q % 3 ? 0 : 31); }
        if (!any) for (int q = 5000; q < 9000; q += 13) zat[z][n++] = z0 + q * 60L;
        nzat[z] = n;
    }
    mc_items(NZ * zchunks, item03); mc_items(nzs, item03tz);
    mc_count("lines", nzs); mc_count("zones", NZ);
}

int harness_main(void)
{
    vos_init(); foreground = 0; dosyslog = 0; debug_opt = 0; first_sleep = 0; setenv("TZ", "UTC0", 1); tzset(); orig_tz_envvar = "UTC0";
    cf.cf_user = "alice"; cf.cf_line_base = &L; mkcal();
    if (!strcmp(mc_arg, "C01")) run01();
    else if (!strcmp(mc_arg, "C02")) run02(2);
    else if (!strcmp(mc_arg, "C03")) run03();
    else if (!strcmp(mc_arg, "C04")) run02(4);
    else return 2;
    return 0;
}
