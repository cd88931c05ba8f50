/* A small deterministic operating system under the real fcron code.
 * The programs of /repo are linked with every system call they make renamed
 * vos_<call> (see lib/build.py), so files, processes, users, clocks, sockets,
 * signals and randomness are all decided by the harness. */
#ifndef VOS_H
#define VOS_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/select.h>
#include <time.h>
#include <setjmp.h>

/* ---------- files ---------- */
#define VOS_MAXINO 160
#define VOS_MAXENT 200
#define VOS_MAXFD  128
typedef struct { int used; mode_t mode; uid_t uid; gid_t gid; int nlink; unsigned char *data; size_t len, cap;
                 char target[128]; int ino; time_t mtime; } vinode;
typedef struct { int used; char path[200]; int ino; } vent;
enum { VF_FREE, VF_FILE, VF_PIPE_R, VF_PIPE_W, VF_LISTEN, VF_SOCK, VF_TIMER, VF_NULL, VF_STD, VF_DIR };
typedef struct { int kind; int ino; off_t off; int flags; int cloexec; int obj; } vfd;
typedef struct { int used; unsigned char *buf; size_t len, off; int wopen, ropen; } vpipe;
/* a socket: what the client wrote (in) and what the program sent (out) */
typedef struct { int used, listening, connected, accepted; unsigned char *in; size_t in_len, in_off; int eof; int closed, shut;
                 unsigned char *out; size_t out_len; uid_t peer_uid; int msg[32]; int nmsg, cmsg; int send_fail; } vsock;

typedef struct { int pid, ppid, state /*0 free 1 running 2 zombie 3 reaped*/, status; long tag; } vproc;
#define VOS_MAXPROC 256

/* log of file-system mutations, for crash exploration */
enum { VO_CREATE, VO_TRUNC, VO_WRITE, VO_SYNC, VO_RENAME, VO_UNLINK, VO_MKDIR, VO_META };
typedef struct { int op; int ino; char a[200], b[200]; off_t off; unsigned char *data; size_t len; mode_t mode; uid_t uid; gid_t gid; int osync; } vop;

typedef struct vos_state {
    vinode ino[VOS_MAXINO]; int nino;
    vent ent[VOS_MAXENT]; int nent;
    vfd fd[VOS_MAXFD];
    vpipe pipe[48]; vsock sock[32];
    vproc proc[VOS_MAXPROC]; int nproc; int next_pid;
    char cwd[200]; mode_t umask_;
    uid_t ruid, euid, suid; gid_t rgid, egid, sgid; gid_t groups[16]; int ngroups;
    int pid;
    int64_t now_us;       /* wall clock, microseconds */
    int64_t mono_us, boot_us;
    double load[3]; int load_n;
    int mkstemp_n;
    int timer_fd_fired;
    void (*handler[65])(int); uint64_t sigmask, sigpending;
    int last_pipe;
    char host[64];
    int nice_;
    int sid_done;
    int is_child;         /* running the child side of a fork */
    vop *ops; int nops, cap_ops; int log_ops;
    long ncalls;
} vos_state;
extern vos_state V;

typedef struct { const char *name; uid_t uid; gid_t gid; const char *home, *shell; const char *spw; } vuser;
extern vuser *vos_users; extern int vos_nusers;
typedef struct { const char *name; gid_t gid; } vgroup;
extern vgroup *vos_groups; extern int vos_ngroups;

/* ---------- hooks (all optional) ---------- */
/* every system call made by the program: may deliver signals */
extern void (*vos_point_hook)(const char *call);
/* return errno to fail the call, 0 to let it go, -2 = short transfer */
extern int  (*vos_fault_hook)(const char *call, const char *path);
extern int  (*vos_fork_hook)(void);            /* returns pid, 0 for child side, -1 */
extern int  (*vos_select_hook)(int nfds, fd_set *r, struct timeval *tv);
extern int  (*vos_wait_hook)(int options);     /* pick pid to reap when blocking; return -1: none */
extern void (*vos_exit_hook)(int code);
extern void (*vos_exec_hook)(const char *path, char **argv, char **envp);
extern int  (*vos_kill_hook)(pid_t pid, int sig);
extern int  (*vos_prio_hook)(int which, int who, int prio);
extern int  (*vos_rand_hook)(void);
extern int  (*vos_load_hook)(double *l, int n);
extern void (*vos_log_hook)(int level, const char *msg);
extern void (*vos_cred_hook)(const char *call, long a, long b);
extern void (*vos_sleep_hook)(unsigned s);
extern ssize_t (*vos_stdout_hook)(int fd, const void *b, size_t n);

/* ---------- harness API ---------- */
void vos_init(void);
int  vos_lookup(const char *path);                       /* ino or -1 */
int  vos_put(const char *path, const void *data, size_t len, uid_t u, gid_t g, mode_t m);
int  vos_mkdirp(const char *path, uid_t u, gid_t g, mode_t m);
int  vos_rmfile(const char *path);
vinode *vos_file(const char *path);
void vos_reset_fds(void);
extern vfd *vos_other_fd; extern int (*vos_flock_hook)(int, int); extern char *(*vos_readline_hook)(const char *);
extern int (*vos_connect_hook)(int fd); extern int vos_cur_proc;
int  vos_new_pid(long tag);
vproc *vos_proc(int pid);
void vos_exit_proc(int pid, int status);
int  vos_raise(int sig);                                  /* deliver (or leave pending if blocked) */
int  vos_sigblocked(int sig);
void vos_pipe_put(int pipe, const void *b, size_t n);
void vos_set_time(time_t t);
time_t vos_time_now(void);
void vos_advance(time_t s);
int  vos_open_fds(void);
void vos_log_start(void);
typedef struct { vinode *bi; vent *be; int bni, bne; vop *ops; int nops, cap, on; } vlog;
void vos_log_save(vlog *l); void vos_log_restore(vlog *l);   /* set a log aside, and take it back */
void vos_crash_state(int upto, unsigned long lose_mask, int *n_unsynced);
uint64_t vos_fs_hash(uint64_t h, int with_times);
uint64_t vos_hash(uint64_t h, const void *p, size_t n);
int  vos_client_connect(uid_t uid);                              /* new client connection: sock index */
void vos_client_send(int s, const void *b, size_t n);
FILE *vos_FILE_of(int fd);
const char *vos_path_of_ino(int ino);
extern int vos_verbose;
#endif
