#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>

int mc_thorough, mc_replaying, mc_jobs = 8; const char *mc_arg = "";
#define NV 48
#define NS 6
#define NC 40
#define TEXT 24000
typedef struct { volatile int ready; char sig[200]; char msg[2000]; char choices[6000]; char text[TEXT]; long item; } viol;
typedef struct {
    volatile long paths, transitions, evals, states, outcomes, maxdepth; volatile int tokens, stop, truncated, forked;
    volatile int rc, nviol, vtotal, nsample, ncount; volatile long next; volatile int lock;
    viol v[NV]; char sample[NS][4000]; struct { char name[64]; volatile long n; } c[NC];
} shared;
static shared *S;
typedef struct { volatile uint64_t key; volatile int budget; } sslot;
static sslot *seen; static volatile uint64_t *outc;
#define SEEN_N (1u << 23)
#define OUT_N (1u << 23)

static int ch[4096], chn[4096], nch; static char text[TEXT]; static int tlen;
static int replay[4096], nreplay; static long replay_item = -1;
static int mode;          /* 0 fork, 1 re-execution */
static int pos;           /* re-execution: position */
static uint64_t expl_salt; static int have_token; static long cur_item = -1; static double deadline; static int in_path;

static double nowf(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void lock(void) { while (__sync_lock_test_and_set(&S->lock, 1)) usleep(50); }
static void unlock(void) { __sync_lock_release(&S->lock); }
static void arm(void)
{ static int lim; if (!lim) { const char *e = getenv("MC_CPU_LIMIT"); lim = e ? atoi(e) : 20; } struct itimerval it = { {0, 0}, {lim, 0} }; setitimer(ITIMER_PROF, &it, NULL); }

int mc_stop(void)
{ if (S->stop) return 1; if (deadline && nowf() > deadline) { S->truncated = 1; S->stop = 1; return 1; } return 0; }

void mc_note(const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); int n = vsnprintf(text + tlen, TEXT - tlen, fmt, ap); va_end(ap); if (n > 0) { tlen += n; if (tlen > TEXT - 2) tlen = TEXT - 2; }
  if (mc_replaying) { va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); } }
void mc_eval(long n) { __sync_fetch_and_add(&S->evals, n); }
void mc_count(const char *name, long n)
{ for (int i = 0; i < S->ncount; i++) if (!strcmp(S->c[i].name, name)) { __sync_fetch_and_add(&S->c[i].n, n); return; }
  lock(); int i; for (i = 0; i < S->ncount; i++) if (!strcmp(S->c[i].name, name)) break;
  if (i == S->ncount && i < NC) { snprintf(S->c[i].name, 64, "%s", name); S->ncount++; } unlock(); if (i < NC) __sync_fetch_and_add(&S->c[i].n, n); }
static void vsample(const char *fmt, va_list ap) { if (S->nsample >= NS) return; int i = __sync_fetch_and_add(&S->nsample, 1); if (i < NS) vsnprintf(S->sample[i], 4000, fmt, ap); else S->nsample = NS; }
void mc_sample(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsample(fmt, ap); va_end(ap); }
void mc_outcome(uint64_t h)
{ if (!h) h = 1; uint32_t i = (h ^ (h >> 32)) & (OUT_N - 1); for (int k = 0; k < 64; k++, i = (i + 1) & (OUT_N - 1)) {
    if (outc[i] == h) return; if (!outc[i] && __sync_bool_compare_and_swap(&outc[i], 0, h)) { __sync_fetch_and_add(&S->outcomes, 1); return; } if (outc[i] == h) return; } }
int mc_seen(uint64_t h, int budget)
{
    if (mc_replaying) return 0;
    h ^= expl_salt; if (!h) h = 1; uint32_t i = (h ^ (h >> 31)) & (SEEN_N - 1);
    for (int k = 0; k < 256; k++, i = (i + 1) & (SEEN_N - 1)) {
        if (!seen[i].key && __sync_bool_compare_and_swap(&seen[i].key, 0, h)) { __sync_fetch_and_add(&S->states, 1); seen[i].budget = budget + 1; return 0; }
        if (seen[i].key == h) { int b = seen[i].budget; while (b < budget + 1) { if (__sync_bool_compare_and_swap(&seen[i].budget, b, budget + 1)) return 0; b = seen[i].budget; } return 1; }
    }
    return 0;
}
void mc_state(uint64_t h) { mc_seen(h, 1000000); }

static void put_choices(char *b, size_t n) { size_t l = 0; b[0] = 0; for (int i = 0; i < nch && l + 16 < n; i++) l += snprintf(b + l, n - l, "%s%d", i ? "," : "", ch[i]); }
static void record(const char *sig, const char *msg)
{
    __sync_fetch_and_add(&S->vtotal, 1); if (getenv("MC_FIRST")) S->stop = 1;      /* development: one is enough */
    lock(); int i; for (i = 0; i < S->nviol; i++) if (!strcmp(S->v[i].sig, sig)) break;
    if (i == S->nviol && i < NV) { viol *v = &S->v[i]; snprintf(v->sig, sizeof v->sig, "%s", sig); snprintf(v->msg, sizeof v->msg, "%s", msg); put_choices(v->choices, sizeof v->choices); memcpy(v->text, text, tlen); v->text[tlen] = 0; v->item = cur_item; v->ready = 1; S->nviol++; }
    unlock();
    if (mc_replaying) fprintf(stderr, "FAILED: %s: %s\n", sig, msg);
}
static void finish(void) __attribute__((noreturn));
static void finish(void)
{
    if (have_token) { __sync_fetch_and_add(&S->tokens, 1); have_token = 0; }
    struct itimerval z = { {0, 0}, {0, 0} }; setitimer(ITIMER_PROF, &z, NULL);
    while (wait(NULL) > 0 || errno == EINTR) ;
    _exit(0);
}
void mc_subprocess(void) { have_token = 0; in_path = 0; struct itimerval z = { {0, 0}, {0, 0} }; setitimer(ITIMER_PROF, &z, NULL); }
void mc_seg_save(mc_seg *s, char *a, char *b)
{ s->a = a; s->b = b; s->copy = malloc(b - a + 1); volatile char *p = a; for (long i = 0; i < b - a; i++) s->copy[i] = p[i]; }
void mc_seg_restore(mc_seg *s) { volatile char *p = s->a; for (long i = 0; i < s->b - s->a; i++) if (p[i] != s->copy[i]) p[i] = s->copy[i]; }
void mc_done(void)
{
    long p = __sync_fetch_and_add(&S->paths, 1);
    if (p == 0 || p == 37 || p == 1009) { char b[3000]; put_choices(b, 200); mc_sample("choices %s: %s", b, text); }
    if (nch > S->maxdepth) S->maxdepth = nch;
    finish();
}
void mc_violation(const char *sig, const char *fmt, ...)
{
    char m[2000]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    record(sig, m);
    if (in_path) { __sync_fetch_and_add(&S->paths, 1); finish(); }
}
/* sanitizer builds: reports become violations, named after the kind of error and the function */
const char *__asan_default_options(void) { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:use_sigaltstack=0:quarantine_size_mb=16:malloc_context_size=5:allocator_may_return_null=1:detect_odr_violation=0"; }
const char *__ubsan_default_options(void) { return "abort_on_error=1:halt_on_error=1:print_stacktrace=0"; }
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
void __ubsan_get_current_report_data(const char **, const char **, const char **, unsigned *, unsigned *, char **) __attribute__((weak));
static char san_sig[160], san_msg[1500];
const char *mc_ctx; int mc_ctxlen;
static char *with_ctx(const char *m)
{
    static char b[1900]; int n = snprintf(b, 1000, "%.900s", m);
    if (mc_ctx && n < 1000) { n += sprintf(b + n, "; given: "); for (int i = 0; i < mc_ctxlen && n < 1850; i++) { unsigned char c = mc_ctx[i]; if (c < 32 || c > 126) n += sprintf(b + n, "\\x%02x", c); else b[n++] = c; } b[n] = 0; }
    return b;
}
static void on_asan(const char *r)
{
    const char *k = strstr(r, "AddressSanitizer: "); char kind[60] = "error", fn[60] = ""; if (k) sscanf(k + 18, "%59s", kind);
    for (const char *p = r; (p = strstr(p, " in ")); p += 4) { char f[60]; const char *e = strchr(p, '\n'); if (!e) e = p + strlen(p); if (sscanf(p + 4, "%59s", f) != 1) continue; if (memmem(p, e - p, ".c:", 3) && !memmem(p, e - p, "sanitizer", 9)) { strcpy(fn, f); break; } }
    snprintf(san_sig, sizeof san_sig, "memory-error %s in %s", kind, fn); snprintf(san_msg, sizeof san_msg, "%.1400s", r);
}
void __ubsan_on_report(void)
{
    const char *kind, *msg, *file; unsigned l, c; char *a; if (!__ubsan_get_current_report_data) return;
    __ubsan_get_current_report_data(&kind, &msg, &file, &l, &c, &a);
    snprintf(san_sig, sizeof san_sig, "undefined-behaviour %s", kind); snprintf(san_msg, sizeof san_msg, "%s:%u: %s", file, l, msg);
}
static void on_crash(int s)
{
    if (s == SIGABRT && *san_sig) { S->lock = 0; record(san_sig, with_ctx(san_msg)); if (in_path) { __sync_fetch_and_add(&S->paths, 1); if (have_token) { __sync_fetch_and_add(&S->tokens, 1); have_token = 0; } while (wait(NULL) > 0) ; } _exit(9); }
    char sig[64]; snprintf(sig, sizeof sig, s == SIGPROF || s == SIGVTALRM ? "endless-loop" : "crash-signal-%d", s);
    S->lock = 0; record(sig, with_ctx(s == SIGPROF ? "the code did not finish within its CPU limit" : "the code was killed by a signal (memory error, abort or arithmetic fault)"));
    if (in_path) { __sync_fetch_and_add(&S->paths, 1); if (have_token) { __sync_fetch_and_add(&S->tokens, 1); have_token = 0; } while (wait(NULL) > 0) ; }
    _exit(9);
}
static void catch_crashes(void)
{
    static char alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, NULL);
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(on_asan);
    int l[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF };
    for (unsigned i = 0; i < sizeof l / sizeof *l; i++) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_crash; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(l[i], &a, NULL); }
}

void mc_arm(void) { arm(); }
int mc_choose(int n, const char *tag)
{
    if (n <= 0) { fprintf(stderr, "mc_choose(%d,%s)\n", n, tag); abort(); }
    if (nch >= 4095) { fprintf(stderr, "mc: too many choices (%s)\n", tag); abort(); }
    if (mode == 1) {
        if (pos == nch) { ch[nch] = 0; chn[nch] = n; nch++; if (mc_replaying && pos < nreplay) ch[pos] = replay[pos] % n; }
        if (ch[pos] >= n) ch[pos] = n - 1;
        chn[pos] = n; return ch[pos++];
    }
    int r = 0; arm();
    if (mc_replaying) r = nch < nreplay ? replay[nch] % n : 0;
    else if (n > 1) {
        __sync_fetch_and_add(&S->transitions, n - 1);
        for (int i = 1; i < n; i++) {
            if (mc_stop()) break;
            int tok = 0, t; while ((t = S->tokens) > 0) if (__sync_bool_compare_and_swap(&S->tokens, t, t - 1)) { tok = 1; break; }
            pid_t p = fork();
            if (p < 0) { if (tok) __sync_fetch_and_add(&S->tokens, 1); usleep(2000); i--; continue; }
            if (p == 0) { have_token = tok; arm(); r = i; goto out; }
            if (!tok) while (waitpid(p, NULL, 0) < 0 && errno == EINTR) ;
        }
        if (mc_stop()) { finish(); }
        arm();
    }
out:
    if (n > 0) __sync_fetch_and_add(&S->transitions, 1);
    ch[nch] = r; chn[nch] = n; nch++;
    return r;
}
void mc_explore(void (*body)(void *), void *arg)
{
    fflush(NULL); static long nth; long me = nth++;
    if (mc_replaying && replay_item >= 0 && me != replay_item) return;
    if (mc_stop()) return;
    expl_salt = me * 0x9E3779B97F4A7C15ull; cur_item = me;
    pid_t p = fork();
    if (!p) { mode = 0; in_path = 1; nch = 0; catch_crashes(); arm(); body(arg); mc_done(); }
    while (waitpid(p, NULL, 0) < 0 && errno == EINTR) ;
}
void mc_reexec(void (*fn)(void *), void *arg)
{
    int om = mode; mode = 1; nch = 0;
    for (;;) {
        pos = 0; tlen = 0; text[0] = 0; int keep = nch; 
        if (mc_replaying) nch = 0; 
        (void)keep; fn(arg); __sync_fetch_and_add(&S->transitions, 1);
        if (mc_replaying) break;
        nch = pos;
        while (nch && ch[nch - 1] + 1 >= chn[nch - 1]) nch--;
        if (!nch) break;
        ch[nch - 1]++;
        if ((S->transitions & 255) == 0 && mc_stop()) break;
    }
    mode = om; nch = 0;
}
static void worker(long n, void (*fn)(long))
{
    catch_crashes();
    for (;;) {
        if (mc_stop()) break;
        long i = __sync_fetch_and_add(&S->next, 1); if (i >= n) break;
        cur_item = i; tlen = 0; text[0] = 0; nch = 0; arm(); fn(i);
    }
    _exit(0);
}
void mc_items(long n, void (*fn)(long))
{
    if (mc_replaying) { if (replay_item < 0 || replay_item >= n) return;
        fflush(NULL); pid_t p = fork(); if (!p) { catch_crashes(); cur_item = replay_item; arm(); fn(replay_item); fflush(NULL); _exit(0); }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 9))) { S->lock = 0; cur_item = replay_item; record("worker-died", "an exploring process ended abnormally"); }
        return;
    }
    S->next = 0; fflush(NULL); pid_t pid[64]; int np = mc_jobs;
    for (int k = 0; k < np; k++) { pid[k] = fork(); if (!pid[k]) worker(n, fn); }
    for (;;) {
        int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 9)) { S->lock = 0; cur_item = S->next - 1; tlen = 0; record("worker-died", "an exploring process ended abnormally"); }
            if (S->next < n && S->vtotal < 2000) for (int k = 0; k < np; k++) if (pid[k] == p) { pid[k] = fork(); if (!pid[k]) worker(n, fn); }
        }
    }
    cur_item = -1;
}
static void js(FILE *f, const char *s)
{ fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

int main(int argc, char **argv)
{
    const char *e, *out = NULL; double t0 = nowf();
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    seen = mmap(NULL, SEEN_N * sizeof *seen, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    outc = mmap(NULL, OUT_N * sizeof *outc, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || seen == MAP_FAILED || outc == MAP_FAILED) { perror("mmap"); return 3; }
    if ((e = getenv("MC_JOBS"))) mc_jobs = atoi(e);
    if (mc_jobs < 1) mc_jobs = 1; if (mc_jobs > 60) mc_jobs = 60;
    S->tokens = mc_jobs - 1;
    if ((e = getenv("MC_DEADLINE"))) deadline = t0 + atof(e);
    mc_thorough = (e = getenv("VERIF_TIER")) && !strcmp(e, "thorough");
    if (argc > 1) mc_arg = argv[1];
    out = getenv("MC_OUT");
    if ((e = getenv("MC_REPLAY"))) {          /* item:choices */
        mc_replaying = 1; char *b = strdup(e), *c = strchr(b, ':'); replay_item = atol(b); c = c ? c + 1 : (char *)"";
        for (char *t = strtok(c, ","); t && nreplay < 4096; t = strtok(NULL, ",")) replay[nreplay++] = atoi(t);
        deadline = 0;
    }
    /* in a process of its own: what the code does while the harness gets ready may crash too */
    fflush(NULL); int st, rc; S->rc = -1; pid_t hp = fork();
    if (!hp) { catch_crashes(); struct itimerval it = { {0, 0}, {600, 0} }; setitimer(ITIMER_PROF, &it, NULL); S->rc = harness_main(); fflush(NULL); _exit(0); }
    while (waitpid(hp, &st, 0) < 0 && errno == EINTR) ;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 4;
    if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 9))) { S->lock = 0; cur_item = -1; record("worker-died", "the exploring process ended abnormally"); }
    rc = S->rc == -1 && S->vtotal ? 0 : S->rc;
    FILE *f = out ? fopen(out, "w") : stdout; if (!f) { perror(out); return 3; }
    fprintf(f, "{\"rc\":%d,\"paths\":%ld,\"transitions\":%ld,\"states\":%ld,\"evals\":%ld,\"outcomes\":%ld,\"maxdepth\":%ld,\"truncated\":%d,\"vtotal\":%d,\"wall\":%.2f,\n\"counters\":{", rc, S->paths, S->transitions, S->states, S->evals, S->outcomes, S->maxdepth, S->truncated, S->vtotal, nowf() - t0);
    for (int i = 0; i < S->ncount; i++) { if (i) fputc(',', f); js(f, S->c[i].name); fprintf(f, ":%ld", S->c[i].n); }
    fprintf(f, "},\n\"samples\":["); for (int i = 0; i < S->nsample && i < NS; i++) { if (i) fputc(',', f); js(f, S->sample[i]); }
    fprintf(f, "],\n\"violations\":[");
    for (int i = 0; i < S->nviol; i++) { viol *v = &S->v[i]; if (i) fputs(",\n", f); fprintf(f, "{\"sig\":"); js(f, v->sig); fprintf(f, ",\"msg\":"); js(f, v->msg); fprintf(f, ",\"item\":%ld,\"choices\":\"%s\",\"trace\":", v->item, v->choices); js(f, v->text); fputc('}', f); }
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
    return 0;
}
