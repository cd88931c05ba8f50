/* Exhaustive explorer.
 *
 * Fork mode: mc_choose(n) forks the running program into one process per
 * alternative, so the real code runs unmodified and every combination of choices
 * up to the harness's bounds is executed.  mc_seen() prunes states already
 * explored with at least the same remaining budget.
 *
 * Re-execution mode (mc_items/mc_reexec): for code without state, the same choices
 * are enumerated by calling a function again and again, spread over processes. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>

int  mc_choose(int n, const char *tag);
void mc_done(void) __attribute__((noreturn));         /* this execution is complete */
int  mc_seen(uint64_t state, int budget);              /* 1: already explored */
void mc_state(uint64_t state);                         /* count a distinct state, no pruning */
void mc_outcome(uint64_t h);                           /* count a distinct non-trivial case */
void mc_eval(long n);                                  /* count evaluations */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* add to the trace */
void mc_count(const char *name, long n);
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* the property is broken here: sig identifies the kind of failure. In fork mode
 * does not return (the path ends) */
void mc_violation(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void mc_arm(void);                                     /* restart the CPU time limit of this execution */
int  mc_stop(void);                                    /* time budget used up */

/* run fn(i) for i in [0,n) over the worker processes */
void mc_items(long n, void (*fn)(long i));
/* enumerate all choice sequences of fn in this process */
void mc_reexec(void (*fn)(void *), void *arg);
/* fork mode: explore body() from here, and return when all of it is explored */
void mc_explore(void (*body)(void *), void *arg);

/* call in a child process made by the harness itself: it takes no part in the exploration */
void mc_subprocess(void);
/* a program's static data, so that a harness can start the program afresh */
typedef struct { char *a, *b, *copy; } mc_seg;
void mc_seg_save(mc_seg *s, char *a, char *b);
void mc_seg_restore(mc_seg *s);

extern int mc_thorough;                                /* VERIF_TIER=thorough */
extern int mc_replaying;
extern int mc_jobs;
extern const char *mc_arg;                             /* sub-check selected by the runner */
extern const char *mc_ctx; extern int mc_ctxlen;           /* shown when the code crashes: what it was given */
int  harness_main(void);
#define mc_hash vos_hash
#endif
