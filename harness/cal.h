/* The calendar, and when a line should run, from first principles: a walk minute by minute. */
/* ------------------------------------------------------------------ calendar, from first principles */
typedef struct { int y, m /*0-11*/, d, wd; } day_t;
#define D0 10957            /* 2000-01-01 */
#define NDAYS (365 * 160 + 40)
static day_t cal[NDAYS + 2];
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mlen(int y, int m) { static const int l[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 1 ? l[1] + leap(y) : l[m]; }
static void mkcal(void)
{ int y = 2000, m = 0, d = 1, w = 6; for (int i = 0; i <= NDAYS; i++) { cal[i] = (day_t) { y, m, d, w }; w = (w + 1) % 7; if (++d > mlen(y, m)) { d = 1; if (++m == 12) { m = 0; y++; } } } }
static long dayno(int y, int m, int d) { for (int i = 0; i <= NDAYS; i++) if (cal[i].y == y && cal[i].m == m && cal[i].d == d) return i; return -1; }
static time_t tod(long dn, int h, int mi) { return ((time_t) (D0 + dn)) * 86400 + h * 3600 + mi * 60; }

typedef struct { uint64_t min; uint32_t hr, day, mon, dow; int dayor; } spec;   /* bit sets */
#define ALLMIN ((1ULL << 60) - 1)
#define ALLHR ((1u << 24) - 1)
#define ALLDAY 0xfffffffeu
#define ALLMON 0xfffu
#define ALLDOW 0xffu
static int day_ok(spec *s, day_t *d)
{ int a = s->day >> d->d & 1, w = (s->dow >> d->wd & 1) || (d->wd == 0 && (s->dow >> 7 & 1)); return (s->mon >> d->m & 1) && (s->dayor ? a || w : a && w); }
static char *ts(time_t t, char *b) { struct tm m; time_t u = t; gmtime_r(&u, &m); sprintf(b, "%04d-%02d-%02d %02d:%02d:%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); return b; }

/* first matching minute >= t (t a multiple of 60), in a zone equal to UTC; -1: none in `days` days */
static time_t first_match(spec *s, time_t t, int days)
{
    long dn = t / 86400 - D0; int h = t % 86400 / 3600, mi = t % 3600 / 60;
    for (int k = 0; k < days; k++, dn++, h = 0, mi = 0) {
        if (dn > NDAYS) return -1;
        if (!day_ok(s, &cal[dn])) continue;
        for (; h < 24; h++, mi = 0) if (s->hr >> h & 1) for (; mi < 60; mi++) if (s->min >> mi & 1) return tod(dn, h, mi);
    }
    return -1;
}
enum { P_HOURLY, P_DAILY, P_WEEKLY, P_MONTHLY, P_MIDH, P_MIDD, P_MIDW, P_MIDM, P_MINS, P_HOURS, P_DAYS, P_MONS, P_DOW, NKW };
static const char *kwname[] = { "hourly", "daily", "weekly", "monthly", "midhourly", "nightly", "midweekly", "midmonthly", "mins", "hours", "days", "mons", "dow" };
/* identifier of the calendar period a minute belongs to */
static long period_id(int k, time_t t)
{
    long dn = t / 86400 - D0; day_t *d = &cal[dn];
    switch (k) {
    case P_HOURLY: return t / 3600;
    case P_MIDH: return (t + 1800) / 3600;
    case P_DAILY: return dn;
    case P_MIDD: return (t + 43200) / 86400;
    case P_WEEKLY: return (dn + 5) / 7;                 /* 2000-01-03 was a Monday */
    case P_MIDW: return (dn + 2) / 7;                   /* 2000-01-06 was a Thursday */
    case P_MONTHLY: return d->y * 12 + d->m;
    case P_MIDM: return d->y * 12 + d->m + (d->d >= 15);
    }
    return -1;
}
/* does the minute t match when the fields below the keyword are ignored */
static int wide_match(int k, spec *s, time_t t)
{
    long dn = t / 86400 - D0; day_t *d = &cal[dn];
    int im = k >= P_HOURS, ih = k >= P_DAYS, id = k >= P_MONS, io = k >= P_DOW;
    int a = id || (s->day >> d->d & 1), w = (s->dow >> d->wd & 1) || (d->wd == 0 && (s->dow >> 7 & 1)); (void)io;
    return (im || (s->min >> (t % 3600 / 60) & 1)) && (ih || (s->hr >> (t % 86400 / 3600) & 1)) && (io || (s->mon >> d->m & 1)) && (s->dayor ? a || w : a && w);
}
static int full_match(spec *s, time_t t)
{ long dn = t / 86400 - D0; return (s->min >> (t % 3600 / 60) & 1) && (s->hr >> (t % 86400 / 3600) & 1) && day_ok(s, &cal[dn]); }
/* the run following one at minute t: first allowed minute not in t's period */
static time_t want_period(int k, spec *s, time_t t)
{
    time_t u = t / 60 * 60; int lim = 3200;
    if (k < P_MINS) {
        long p = period_id(k, u);
        /* period ends: go hour by hour then minute by minute */
        while (period_id(k, u) == p) u += (u % 3600 == 0 && period_id(k, u + 3540) == p) ? 3600 : 60;
        return first_match(s, u, lim);
    }
    if (wide_match(k, s, u)) {
        time_t end = u + 3300L * 86400;
        while (u < end && wide_match(k, s, u)) {
            if (k >= P_DAYS && u % 86400 == 0) u += 86400; else if (k >= P_HOURS && u % 3600 == 0) u += 3600; else u += 60;
        }
        if (u >= end) return -1;
        return first_match(s, u, lim);
    }
    return first_match(s, u, lim);
}
