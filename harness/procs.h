/* Several real processes as coroutines in one address space: each has its own data and bss of the
 * program (P_DATA..P_BSSE), descriptors, directory, identities and signal state; one file system. */
#include <ucontext.h>
#include <sys/file.h>
#define NI 3
typedef struct { vfd fd[VOS_MAXFD]; char cwd[200]; mode_t umask_; uid_t r, e, s; gid_t rg, eg, sg; int ng, pid; uint64_t sm, sp; void (*hd[65])(int); jmp_buf jb; int ec, err; char *d, *b; } pctx;
static pctx px[NI + 1]; static ucontext_t uc[NI + 1]; static char *stk[NI]; static int pcur; static vfd others[VOS_MAXFD];
static size_t dlen(void) { return P_DATAE - P_DATA; } static size_t blen(void) { return P_BSSE - P_BSS; }
static void psave(pctx *p)
{ memcpy(p->fd, V.fd, sizeof p->fd); memcpy(p->cwd, V.cwd, 200); p->umask_ = V.umask_; p->r = V.ruid; p->e = V.euid; p->s = V.suid; p->rg = V.rgid; p->eg = V.egid; p->sg = V.sgid; p->ng = V.ngroups; p->pid = V.pid; p->sm = V.sigmask; p->sp = V.sigpending; memcpy(p->hd, V.handler, sizeof p->hd); memcpy(&p->jb, &exit_jb, sizeof p->jb); p->ec = exit_code; p->err = errno; memcpy(p->d, P_DATA, dlen()); memcpy(p->b, P_BSS, blen()); }
static void pload(pctx *p)
{ memcpy(V.fd, p->fd, sizeof p->fd); memcpy(V.cwd, p->cwd, 200); V.umask_ = p->umask_; V.ruid = p->r; V.euid = p->e; V.suid = p->s; V.rgid = p->rg; V.egid = p->eg; V.sgid = p->sg; V.ngroups = p->ng; V.pid = p->pid; V.sigmask = p->sm; V.sigpending = p->sp; memcpy(V.handler, p->hd, sizeof p->hd); memcpy(&exit_jb, &p->jb, sizeof p->jb); exit_code = p->ec; errno = p->err; memcpy(P_DATA, p->d, dlen()); memcpy(P_BSS, p->b, blen()); }
static void merge(int to) { memset(others, 0, sizeof others); int n = 0; for (int i = 0; i <= NI; i++) if (i != to) for (int f = 0; f < VOS_MAXFD && n < VOS_MAXFD; f++) if (px[i].fd[f].kind == VF_FILE) others[n++] = px[i].fd[f]; vos_other_fd = others; }
static void pswitch(int to) { int from = pcur; psave(&px[from]); pcur = to; vos_cur_proc = to; pload(&px[to]); merge(to); swapcontext(&uc[from], &uc[to]); }
/* once the state is as all of them find it: px[0] */
static void pstart(int k, uid_t r, gid_t g, uid_t e, gid_t eg, int pid, void (*fn)(void))
{
    memcpy(&px[k + 1], &px[0], sizeof px[0]); px[k + 1].d = malloc(dlen() + 1); px[k + 1].b = malloc(blen() + 1); memcpy(px[k + 1].d, px[0].d, dlen()); memcpy(px[k + 1].b, px[0].b, blen());
    px[k + 1].r = r; px[k + 1].e = px[k + 1].s = e; px[k + 1].rg = g; px[k + 1].eg = px[k + 1].sg = eg; px[k + 1].pid = pid;
    if (!stk[k]) stk[k] = malloc(1 << 18); getcontext(&uc[k + 1]); uc[k + 1].uc_stack.ss_sp = stk[k]; uc[k + 1].uc_stack.ss_size = 1 << 18; uc[k + 1].uc_link = NULL; makecontext(&uc[k + 1], fn, 0);
}
static int pholds(int k, int ino) { for (int f = 0; f < VOS_MAXFD; f++) if (px[k + 1].fd[f].kind == VF_FILE && px[k + 1].fd[f].ino == ino) return 1; return 0; }
