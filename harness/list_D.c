/* C40: the list containers of the daemon, under every short sequence of operations and AddressSanitizer */
extern int main(int, char **);
#define DAEMON_MAIN main
#include "eng.h"
#include "global.h"
#include "fcron.h"
#include "u_list.h"
#include "exe_list.h"
#include "lavg_list.h"
#include "env_list.h"

/* --- a list seen through add/first/next/..., of entries known by a number */
typedef struct ops { void *(*add)(void *l, int id); int (*id)(void *e); void *(*first)(void *); void *(*next)(void *); void (*end)(void *); void (*rm)(void *); void *(*copy)(void *); void *(*destroy)(void *); int (*iterating)(void *); } ops;
static int esize;
static void *u_add(void *l, int id) { unsigned char b[64]; for (int i = 0; i < esize; i++) b[i] = (unsigned char)(id + 31 * i + 1); return u_list_add(l, b); }
static int u_id(void *e) { unsigned char *b = e; int id = (b[0] - 1) & 255; for (int i = 0; i < esize; i++) if (b[i] != (unsigned char)(id + 31 * i + 1)) return -1; return id; }
static struct cl_t lines[64];
static void *x_add(void *l, int id)
{
    if (id & 1) return exe_list_add_line(l, &lines[id]);
    exe_t e; memset(&e, 0, sizeof e); e.e_line = &lines[id]; e.e_ctrl_pid = 100 + id; e.e_job_pid = 200 + id; return exe_list_add(l, &e);
}
static int x_id(void *p) { exe_t *e = p; int id = e->e_line - lines; if (id < 0 || id > 63) return -1; if (e->e_ctrl_pid != (id & 1 ? 0 : 100 + id) || e->e_job_pid != (id & 1 ? 0 : 200 + id)) return -1; return id; }
static void *v_add(void *l, int id) { if (id & 1) return lavg_list_add_line(l, &lines[id]); lavg_t e; memset(&e, 0, sizeof e); e.l_line = &lines[id]; e.l_until = 1000 + id; return lavg_list_add(l, &e); }
static int v_id(void *p) { lavg_t *e = p; int id = e->l_line - lines; if (id < 0 || id > 63) return -1; if (e->l_until != (id & 1 ? 0 : 1000 + id)) return -1; return id; }
#define F(x) (void *)(x)
static const ops O[3] = {
    { u_add, u_id, F(u_list_first), F(u_list_next), F(u_list_end_iteration), F(u_list_remove_cur), F(u_list_copy), F(u_list_destroy), F(u_list_is_iterating) },
    { x_add, x_id, F(exe_list_first), F(exe_list_next), F(exe_list_end_iteration), F(exe_list_remove_cur), F(u_list_copy), F(exe_list_destroy), F(u_list_is_iterating) },
    { v_add, v_id, F(lavg_list_first), F(lavg_list_next), F(lavg_list_end_iteration), F(lavg_list_remove_cur), F(u_list_copy), F(lavg_list_destroy), F(u_list_is_iterating) },
};
static const ops *o; static char hist[200]; static char conf_[100];

typedef struct { int n, id[64], it, cur, removed, next_id; uint64_t visited, old; } model;
static int kind, isz, gsz, maxe, prefill, depth;
static int at(model *m, int id) { for (int i = 0; i < m->n; i++) if (m->id[i] == id) return i; return -1; }
static void bad(const char *sig, const char *what) { mc_violation(sig, "%s, operations %s: %s", conf_, hist, what); }
/* e was returned by first() or next() */
static void visit(model *m, void *e)
{
    if (!e) { for (int i = 0; i < m->n; i++) if ((m->old >> m->id[i] & 1) && !(m->visited >> m->id[i] & 1)) { bad("entry not visited", "the iteration ended before an entry of the list was returned"); break; } m->it = 0; m->removed = 0; return; }
    int id = o->id(e); m->it = 1; m->removed = 0; m->cur = id;
    if (id < 0 || at(m, id) < 0) { bad("entry not in the list", "an iteration returned an entry which is not in the list"); m->cur = -1; return; }
    if (m->visited >> id & 1) bad("entry visited twice", "an iteration returned the same entry twice");
    m->visited |= 1ULL << id;
}
static void whole(model *m, void *l)
{
    model t = *m; t.visited = 0; t.old = ~0ULL; int k = 0; void *e = o->first(l); visit(&t, e);
    while (e && k++ < 80) { e = o->next(l); visit(&t, e); }
    if (e) { bad("iteration without end", "an iteration never ended"); o->end(l); }
    if (((u_list_t *)l)->num_entries != m->n) bad("num_entries", "the number of entries is wrong");
}
static void *init(void)
{
    u_list_t *l = kind == 0 ? u_list_init(esize, isz, gsz) : kind == 1 ? (u_list_t *)exe_list_init() : (u_list_t *)lavg_list_init();
    if (kind == 0) l->max_entries = maxe; return l;
}
static void do_add(model *m, void *l)
{
    int id = m->next_id++, max = kind == 0 ? maxe : kind == 2 ? LAVG_QUEUE_MAX : 0; void *e = o->add(l, id); int full = max > 0 && m->n >= max;
    if (!e && !full) bad("entry refused", "add() failed although the list is not full");
    if (e && full) bad("list beyond its limit", "add() succeeded although the list is full");
    if (e && o->id(e) != id) bad("another entry returned by add", "add() returned an entry with other contents");
    if (e) m->id[m->n++] = id;
}
static void play(const char *seq)
{
    model m; memset(&m, 0, sizeof m); mc_arm(); hist[0] = 0; u_list_t *l = init(); mc_eval(1);
    for (int i = 0; i < prefill; i++) do_add(&m, l);
    for (int i = 0; seq[i]; i++) {
        hist[i] = seq[i]; hist[i + 1] = 0;
        switch (seq[i]) {
        case 'a': do_add(&m, l); break;
        case 'f': m.visited = 0; m.old = 0; for (int k = 0; k < m.n; k++) m.old |= 1ULL << m.id[k]; visit(&m, o->first(l)); break;
        case 'n': visit(&m, o->next(l)); break;
        case 'r': { o->rm(l); int k = at(&m, m.cur); if (k >= 0) m.id[k] = m.id[--m.n]; m.removed = 1; break; }
        case 'e': o->end(l); m.it = 0; m.removed = 0; break;
        case 'c': { u_list_t *c = o->copy(l); model t = m; t.it = t.removed = 0; whole(&t, c); o->destroy(c); break; }
        case 'C': { u_list_t *c = o->copy(l); o->destroy(l); l = c; m.it = m.removed = 0; break; }
        }
        if (l->num_entries != m.n) { bad("num_entries", "the number of entries is wrong"); m.n = l->num_entries; }
        if (!!o->iterating(l) != m.it) { bad("is_iterating", "is_iterating() is wrong"); break; }
        mc_outcome(vos_hash(vos_hash(1000003ULL * (kind * 1000 + isz * 100 + gsz * 10 + maxe + prefill * 7919L), &m.n, sizeof m.n), &m.visited, sizeof m.visited) ^ (m.it | m.removed << 1));
    }
    if (m.it) o->end(l);
    whole(&m, l); if (o->destroy(l)) bad("destroy", "destroy() did not return NULL");
}
/* all legal sequences; n entries are in the list, it: iterating, left: entries that may still be visited (0: the iteration may be over - followed in play) */
static char sq[40]; static long leaf;
typedef struct { int n, pos, it, rm; } sh;     /* the shape of the list: an iteration stops after n entries whatever their order */
static void gen(int d, sh s)
{
    if (mc_stop()) return;
    if (d == depth) { sq[d] = 0; play(sq); leaf++; return; }
    int max = kind == 0 ? maxe : kind == 2 ? LAVG_QUEUE_MAX : 0;
#define GO(ch, ...) do { sh t = s; __VA_ARGS__; sq[d] = ch; gen(d + 1, t); } while (0)
    GO('a', if (!max || t.n < max) t.n++);
    if (!s.it) { GO('f', t.it = t.n > 0; t.pos = 0; t.rm = 0); if (d == 0) { GO('C', (void)t); } }
    else {
        /* entries are visited in some order: with pos visited of n, the iteration ends when pos reaches n */
        GO('n', if (!t.rm) t.pos++; t.rm = 0; if (t.pos >= t.n) t.it = 0);
        if (!s.rm) GO('r', t.n--; t.rm = 1);
        GO('e', t.it = t.rm = 0);
    }
    if (d && sq[d - 1] != 'c' && sq[d - 1] != 'C') { GO('c', (void)t); GO('C', t.it = t.rm = 0); }
}
/* --- the environment list against a dictionary */
typedef struct { int n; char s[40][60]; } dict;
static int dfind(dict *d, const char *name) { size_t l = strcspn(name, "="); for (int i = 0; i < d->n; i++) if (strcspn(d->s[i], "=") == l && !strncmp(d->s[i], name, l)) return i; return -1; }
static char ehist[600];
static void ebad(const char *sig, const char *what) { mc_violation(sig, "%s: %s", ehist, what); }
static void ecmp(dict *d, env_list_t *l)
{
    char **ep = env_list_export_envp(l); int k = 0; char used[40] = { 0 };
    if (l->num_entries != d->n) ebad("environment: number of entries", "wrong number of variables");
    for (; ep[k]; k++) { int i = -1; for (int j = 0; j < d->n; j++) if (!used[j] && !strcmp(d->s[j], ep[k])) i = j; if (i < 0) ebad("environment: unexpected assignment", ep[k]); else used[i] = 1; }
    if (k != d->n) ebad("environment: assignment lost", "the exported environment has another number of variables");
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (i != j && ep[i] == ep[j]) ebad("environment: shared string", "");
    env_list_free_envp(ep);
}
static const char *NM[] = { "A", "AB", "B", "ABC", "", NULL }, *VL[] = { "", "x", "a value longer than the others" }, *PU[] = { "A=1", "AB=", "B", "ABC=2=3", "A", "", NULL };
#define NSET (6 * 3 * 2)
#define NPUT (7 * 2)
#define NOPS (NSET + NPUT + 6 + 1)
static env_list_t *eop(env_list_t *l, dict *d, int op)
{
    char b[80]; size_t n = strlen(ehist);
    if (op < NSET) {
        const char *nm = NM[op % 6], *v = VL[op / 6 % 3]; int ow = op / 18; snprintf(ehist + n, sizeof ehist - n, " setenv(%s,\"%s\",%d)", nm ? nm : "NULL", v, ow);
        env_t *r = env_list_setenv(l, (char *)nm, (char *)v, ow); if (!nm || !*nm) { if (r) ebad("setenv without a name", "succeeded"); return l; }
        snprintf(b, sizeof b, "%s=%s", nm, v); int i = dfind(d, nm); if (i < 0) strcpy(d->s[d->n++], b); else if (ow) strcpy(d->s[i], b);
        i = dfind(d, nm); if (!r || strcmp(r->e_envvar, d->s[i])) ebad("setenv returned another entry", b);
    } else if (op < NSET + NPUT) {
        op -= NSET; const char *p = PU[op % 7]; int ow = op / 7; snprintf(ehist + n, sizeof ehist - n, " putenv(%s,%d)", p ? p : "NULL", ow);
        env_t *r = env_list_putenv(l, (char *)p, ow); if (!p || !*p) { if (r) ebad("putenv without a name", "succeeded"); return l; }
        int i = dfind(d, p); if (i < 0) strcpy(d->s[d->n++], p); else if (ow) strcpy(d->s[i], p);
        i = dfind(d, p); if (!r || strcmp(r->e_envvar, d->s[i])) ebad("putenv returned another entry", p);
    } else if (op < NSET + NPUT + 6) {
        const char *nm = NM[op - NSET - NPUT]; snprintf(ehist + n, sizeof ehist - n, " getenv(%s)", nm ? nm : "NULL"); char *r = env_list_getenv(l, (char *)nm); int i = nm && *nm ? dfind(d, nm) : -1;
        if (i < 0) { if (r) ebad("getenv of an unset variable", r); }
        else { char *eq = strchr(d->s[i], '='); if (eq ? !r || strcmp(r, eq + 1) : r && *r) ebad("getenv returned another value", nm); }
    } else { snprintf(ehist + n, sizeof ehist - n, " copy"); env_list_t *c = env_list_copy(l); env_list_destroy(l); l = c; }
    if (u_list_is_iterating(l)) ebad("environment: iteration left open", "");
    return l;
}
static int epre, elen;
static void eplay(const int *op)
{
    dict d; d.n = 0; mc_arm(); env_list_t *l = env_list_init(); char b[40]; for (int i = 0; i < epre; i++) { sprintf(b, "V%d", i); strcpy(d.s[d.n++], "x"); env_list_setenv(l, b, "x", 1); sprintf(d.s[d.n - 1], "V%d=x", i); }
    snprintf(ehist, sizeof ehist, "environment list with %d variables:", epre); mc_eval(1);
    for (int i = 0; i < elen; i++) l = eop(l, &d, op[i]);
    ecmp(&d, l); mc_outcome(vos_hash(1000003ULL * epre, d.s, 60 * d.n)); if (env_list_destroy(l)) ebad("destroy", "destroy() did not return NULL");
}
static void item_env(long it)
{
    static const int pre[] = { 0, 8, 9, 10, 14, 15, 20 }; int seq[5]; seq[0] = it % NOPS; it /= NOPS; seq[1] = it % NOPS; it /= NOPS; epre = pre[it];
    elen = mc_thorough ? 4 : 3; long tot = 1; for (int i = 2; i < elen; i++) tot *= NOPS;
    for (long k = 0; k < tot && !mc_stop(); k++) { long q = k; for (int i = 2; i < elen; i++) { seq[i] = q % NOPS; q /= NOPS; } eplay(seq); }
}
static void item_u(long it)
{
    static const int es[] = { 1, 4, 8, 24, 40 };
    isz = 1 + it % 3; it /= 3; gsz = 1 + it % 3; it /= 3; maxe = it % 5; it /= 5; static const int pf[] = { 0, 1, 2, 3, 4, 5, 6 }; prefill = pf[it % 7]; it /= 7; kind = 0; o = &O[0]; esize = es[(isz + gsz * 2 + maxe + prefill) % 5];
    if (maxe && prefill > maxe + 1) return;
    depth = mc_thorough ? 10 : 8; if (!prefill) depth++; snprintf(conf_, sizeof conf_, "list of %d-byte entries, initial size %d, growing by %d, limit %d, %d entries", esize, isz, gsz, maxe, prefill);
    gen(0, (sh){ maxe && prefill > maxe ? maxe : prefill, 0, 0, 0 });
}
static void item_w(long it)
{
    kind = 1 + it % 2; o = &O[kind]; prefill = it / 2; depth = mc_thorough ? 10 : 8; snprintf(conf_, sizeof conf_, "%s list with %d entries", kind == 1 ? "running jobs" : "load-average", prefill);
    if (kind == 1) { static const int k[] = { 0, 1, 4, 5, 6, 7, 10, 11, 12, 15, 16, 17, 21, 26, 31 }; int ok = 0; for (int i = 0; i < 15; i++) ok |= k[i] == prefill; if (!ok) return; }
    gen(0, (sh){ kind == 2 && prefill > 30 ? 30 : prefill, 0, 0, 0 });
}
/* iterations over long lists, removing at two positions and adding at one */
static void item_pos(long it)
{
    kind = 1 + it % 2; it /= 2; int n = it % 40; o = &O[kind];
    for (int r1 = 0; r1 < n; r1++) for (int r2 = r1; r2 < n; r2++) for (int a = 0; a <= n; a++) {
        if (mc_stop()) return;
        model m; memset(&m, 0, sizeof m); mc_arm(); u_list_t *l = init(); mc_eval(1); prefill = n; snprintf(conf_, sizeof conf_, "%s list of %d", kind == 1 ? "running jobs" : "load-average", n); snprintf(hist, sizeof hist, "iteration with removals at %d and %d, addition at %d", r1, r2, a);
        for (int i = 0; i < n; i++) do_add(&m, l);
        for (int k = 0; k < m.n; k++) m.old |= 1ULL << m.id[k];
        visit(&m, o->first(l)); int k = 0;
        while (m.it && k < 90) { if (k == r1 || k == r2) { o->rm(l); int x = at(&m, m.cur); if (x >= 0) m.id[x] = m.id[--m.n]; } if (k == a) do_add(&m, l); visit(&m, o->next(l)); k++; }
        if (m.it) { bad("iteration without end", "an iteration never ended"); o->end(l); }
        whole(&m, l); o->destroy(l);
    }
}
int harness_main(void)
{
    vos_init(); if (!strcmp(mc_arg, "C40")) mc_items(3 * 3 * 5 * 7, item_u);
    else if (!strcmp(mc_arg, "C40:wrap")) { mc_items(2 * 34, item_w); mc_items(2 * 40, item_pos); }
    else mc_items((long)NOPS * NOPS * 7, item_env);
    return 0;
}
