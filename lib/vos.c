#define _GNU_SOURCE
#include "vos.h"
#include <utime.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <signal.h>
#include <dirent.h>
#include <pwd.h>
#include <grp.h>
#include <shadow.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/timerfd.h>
#include <sys/ioctl.h>
#include <syslog.h>
#include <termios.h>

vos_state V;
int vos_verbose;
void (*vos_point_hook)(const char *);
int (*vos_fault_hook)(const char *, const char *);
int (*vos_fork_hook)(void);
int (*vos_select_hook)(int, fd_set *, struct timeval *);
int (*vos_wait_hook)(int);
void (*vos_exit_hook)(int);
void (*vos_exec_hook)(const char *, char **, char **);
int (*vos_kill_hook)(pid_t, int);
int (*vos_prio_hook)(int, int, int);
int (*vos_rand_hook)(void);
int (*vos_load_hook)(double *, int);
void (*vos_log_hook)(int, const char *);
void (*vos_cred_hook)(const char *, long, long);
void (*vos_sleep_hook)(unsigned);
ssize_t (*vos_stdout_hook)(int, const void *, size_t);

static vuser def_users[] = {
    {"root", 0, 0, "/root", "/bin/sh", "rootpw"},
    {"fcron", 200, 200, "/", "/bin/false", "*"},
    {"alice", 1001, 1001, "/home/alice", "/bin/ash", "alicepw"},
    {"bob", 1002, 1002, "/home/bob", "/bin/bsh", "bobpw"},
    {"carol", 1003, 1003, "/home/carol", "", "carolpw"},
};
static vgroup def_groups[] = { {"root", 0}, {"fcron", 200}, {"alice", 1001}, {"bob", 1002}, {"carol", 1003} };
vuser *vos_users = def_users; int vos_nusers = 5;
vgroup *vos_groups = def_groups; int vos_ngroups = 5;

/* the snapshot the operation log starts from */
static vinode *base_ino; static vent *base_ent; static int base_nino, base_nent;
int vos_cur_proc;        /* which of the harness's two processes runs */
static FILE *file_of2[5][VOS_MAXFD];
#define file_of file_of2[vos_cur_proc]

static void die(const char *m) { fprintf(stderr, "vos: %s\n", m); abort(); }

uint64_t vos_hash(uint64_t h, const void *p, size_t n)
{ const unsigned char *c = p; while (n--) { h ^= *c++; h *= 1099511628211ULL; h ^= h >> 29; } return h; }

#define POINT(c) do { V.ncalls++; if (vos_point_hook) vos_point_hook(c); } while (0)
static int fault(const char *c, const char *path)
{ return vos_fault_hook ? vos_fault_hook(c, path) : 0; }
#define FAULT(c, p) do { int f_ = fault(c, p); if (f_ > 0) { errno = f_; return -1; } } while (0)

/* ------------------------------------------------------------------ paths */
static void norm(const char *p, char *out)
{
    char tmp[512]; char *seg[64]; int n = 0;
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else snprintf(tmp, sizeof tmp, "%s/%s", V.cwd, p);
    char *sp, *t = strtok_r(tmp, "/", &sp);
    for (; t; t = strtok_r(NULL, "/", &sp)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { if (n) n--; continue; }
        seg[n++] = t;
    }
    out[0] = 0;
    if (!n) { strcpy(out, "/"); return; }
    for (int i = 0; i < n; i++) { if (strlen(out) + strlen(seg[i]) + 2 > 199) break; strcat(out, "/"); strcat(out, seg[i]); }
}
static vent *find_ent(const char *path)
{ for (int i = 0; i < V.nent; i++) if (V.ent[i].used && !strcmp(V.ent[i].path, path)) return &V.ent[i]; return NULL; }
int vos_lookup(const char *path) { char p[200]; norm(path, p); vent *e = find_ent(p); return e ? e->ino : -1; }
vinode *vos_file(const char *path) { int i = vos_lookup(path); return i < 0 ? NULL : &V.ino[i]; }
const char *vos_path_of_ino(int ino)
{ for (int i = 0; i < V.nent; i++) if (V.ent[i].used && V.ent[i].ino == ino) return V.ent[i].path; return "(unlinked)"; }
static int new_ino(mode_t mode, uid_t u, gid_t g)
{
    int i; for (i = 0; i < VOS_MAXINO; i++) if (!V.ino[i].used) break;
    if (i == VOS_MAXINO) die("out of inodes");
    memset(&V.ino[i], 0, sizeof(vinode));
    V.ino[i].used = 1; V.ino[i].mode = mode; V.ino[i].uid = u; V.ino[i].gid = g; V.ino[i].nlink = 1; V.ino[i].ino = i;
    V.ino[i].mtime = V.now_us / 1000000;
    if (i >= V.nino) V.nino = i + 1;
    return i;
}
static vent *new_ent(const char *path, int ino)
{
    int i; for (i = 0; i < VOS_MAXENT; i++) if (!V.ent[i].used) break;
    if (i == VOS_MAXENT) die("out of directory entries");
    V.ent[i].used = 1; snprintf(V.ent[i].path, sizeof V.ent[i].path, "%s", path); V.ent[i].ino = ino;
    if (i >= V.nent) V.nent = i + 1;
    return &V.ent[i];
}
vfd *vos_other_fd;      /* the files another process of the harness has open */
static int ino_busy(int ino)
{ if (vos_other_fd) for (int i = 0; i < VOS_MAXFD; i++) if (vos_other_fd[i].kind == VF_FILE && vos_other_fd[i].ino == ino) return 1;
  for (int i = 0; i < VOS_MAXFD; i++) if (V.fd[i].kind == VF_FILE && V.fd[i].ino == ino) return 1;
  for (int i = 0; i < V.nent; i++) if (V.ent[i].used && V.ent[i].ino == ino) return 1; return 0; }
static void put_ino(int ino)
{ if (ino >= 0 && !ino_busy(ino)) { if (!V.log_ops) { free(V.ino[ino].data); } V.ino[ino].data = NULL; V.ino[ino].used = V.log_ops ? 2 : 0; V.ino[ino].len = V.ino[ino].cap = 0; } }
static void inode_write(vinode *n, off_t off, const void *b, size_t len)
{
    if (off + len > n->cap) { n->cap = (off + len) * 2 + 64; n->data = realloc(n->data, n->cap); }
    if ((size_t)off > n->len) memset(n->data + n->len, 0, off - n->len);
    memcpy(n->data + off, b, len);
    if (off + len > n->len) n->len = off + len;
    n->mtime = V.now_us / 1000000;
}
static void oplog(int op, int ino, const char *a, const char *b, off_t off, const void *d, size_t len)
{
    if (!V.log_ops) return;
    if (V.nops == V.cap_ops) { V.cap_ops = V.cap_ops * 2 + 64; V.ops = realloc(V.ops, V.cap_ops * sizeof(vop)); }
    vop *o = &V.ops[V.nops++]; memset(o, 0, sizeof *o);
    o->op = op; o->ino = ino; if (a) snprintf(o->a, sizeof o->a, "%s", a); if (b) snprintf(o->b, sizeof o->b, "%s", b);
    o->off = off; o->len = len; if (d) { o->data = malloc(len ? len : 1); memcpy(o->data, d, len); }
    if (ino >= 0) { o->mode = V.ino[ino].mode; o->uid = V.ino[ino].uid; o->gid = V.ino[ino].gid; }
}
static int may(vinode *n, int want)
{
    if (V.euid == 0) return 1;
    int m = n->mode & 7;
    if (V.euid == n->uid) m = (n->mode >> 6) & 7;
    else {
        int ing = V.egid == n->gid;
        for (int i = 0; i < V.ngroups; i++) if (V.groups[i] == n->gid) ing = 1;
        if (ing) m = (n->mode >> 3) & 7;
    }
    return (m & want) == want;
}
static vinode *parent_of(const char *path)
{ char d[200]; strcpy(d, path); char *s = strrchr(d, '/'); if (s == d) s[1] = 0; else *s = 0; vent *e = find_ent(d); return e ? &V.ino[e->ino] : NULL; }
static int dir_writable(const char *path)
{ vinode *d = parent_of(path); if (!d) { errno = ENOENT; return 0; } if (!may(d, 3)) { errno = EACCES; return 0; } return 1; }
static int sticky_ok(const char *path, vinode *n)
{ vinode *d = parent_of(path); if (d && (d->mode & S_ISVTX) && V.euid != 0 && V.euid != n->uid && V.euid != d->uid) { errno = EPERM; return 0; } return 1; }

int vos_put(const char *path, const void *data, size_t len, uid_t u, gid_t g, mode_t m)
{
    char p[200]; norm(path, p); vent *e = find_ent(p); int i;
    if (e) i = e->ino; else { i = new_ino(S_IFREG | m, u, g); new_ent(p, i); }
    V.ino[i].mode = S_IFREG | m; V.ino[i].uid = u; V.ino[i].gid = g; V.ino[i].len = 0;
    inode_write(&V.ino[i], 0, data, len); return i;
}
int vos_mkdirp(const char *path, uid_t u, gid_t g, mode_t m)
{
    char p[200], q[200]; norm(path, p); q[0] = 0;
    for (char *s = p; *s; ) { char *e = strchr(s + 1, '/'); size_t l = e ? (size_t)(e - p) : strlen(p);
        memcpy(q, p, l); q[l] = 0; if (!find_ent(q)) new_ent(q, new_ino(S_IFDIR | (e ? 0755 : m), e ? 0 : u, e ? 0 : g)); if (!e) break; s = e; }
    return 0;
}
int vos_rmfile(const char *path)
{ char p[200]; norm(path, p); vent *e = find_ent(p); if (!e) return -1; int i = e->ino; e->used = 0; put_ino(i); return 0; }

static int new_fd(int kind)
{
    for (int i = 0; i < VOS_MAXFD; i++) if (V.fd[i].kind == VF_FREE) { memset(&V.fd[i], 0, sizeof(vfd)); V.fd[i].kind = kind; V.fd[i].ino = -1; return i; }
    errno = EMFILE; return -1;
}
int vos_open_fds(void) { int n = 0; for (int i = 0; i < VOS_MAXFD; i++) if (V.fd[i].kind) n++; return n; }
static vfd *FD(int fd) { if (fd < 0 || fd >= VOS_MAXFD || !V.fd[fd].kind) { errno = EBADF; return NULL; } return &V.fd[fd]; }
static void std_streams(void);
static void ck_reap(void);
void vos_reset_fds(void)
{
    std_streams();
    for (int i = 0; i < VOS_MAXFD; i++) { memset(&V.fd[i], 0, sizeof V.fd[i]); if (i < 3) { V.fd[i].kind = VF_STD; V.fd[i].ino = -1; } }
    void (*ph)(const char *) = vos_point_hook; int (*fh)(const char *, const char *) = vos_fault_hook; vos_point_hook = NULL; vos_fault_hook = NULL;
    ck_reap(); memset(file_of, 0, sizeof file_of);
    vos_point_hook = ph; vos_fault_hook = fh;
    for (int i = 0; i < 48; i++) V.pipe[i].used = 0;
}

void vos_init(void)
{
    memset(&V, 0, sizeof V);
    strcpy(V.cwd, "/"); strcpy(V.host, "vhost"); V.next_pid = 1000; V.pid = 500; V.umask_ = 022;
    new_ent("/", new_ino(S_IFDIR | 0755, 0, 0));
    for (int i = 0; i < 3; i++) { V.fd[i].kind = VF_STD; V.fd[i].ino = -1; }
    std_streams();
    vos_mkdirp("/tmp", 0, 0, 01777); vos_mkdirp("/etc", 0, 0, 0755); vos_mkdirp("/var/run", 0, 0, 0755);
    vos_mkdirp("/dev", 0, 0, 0755); vos_mkdirp("/root", 0, 0, 0700);
    V.now_us = 1000000000LL * 1000000; V.mono_us = V.boot_us = 100000000; V.load_n = 3;
}
void vos_set_time(time_t t) { V.now_us = (int64_t)t * 1000000; }
time_t vos_time_now(void) { return V.now_us / 1000000; }
void vos_advance(time_t s) { V.now_us += (int64_t)s * 1000000; V.mono_us += (int64_t)s * 1000000; V.boot_us += (int64_t)s * 1000000; }

/* ------------------------------------------------------------------ files */
int vos_open(const char *path, int flags, ...)
{
    mode_t mode = 0; char p[200];
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    POINT("open"); FAULT("open", path);
    norm(path, p);
    if (!strcmp(p, "/dev/null") || !strcmp(p, "/dev/tty")) { int fd = new_fd(VF_NULL); return fd; }
    vent *e = find_ent(p); vinode *n; int created = 0;
    if (!e) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (!dir_writable(p)) return -1;
        int i = new_ino(S_IFREG | (mode & 07777 & ~V.umask_), V.euid, V.egid);
        e = new_ent(p, i); created = 1; oplog(VO_CREATE, i, p, NULL, 0, NULL, 0);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    n = &V.ino[e->ino];
    if (S_ISLNK(n->mode)) { if (flags & O_NOFOLLOW) { errno = ELOOP; return -1; }
        char t[200]; norm(n->target, t); vent *e2 = find_ent(t); if (!e2) { errno = ENOENT; return -1; } e = e2; n = &V.ino[e->ino]; }
    int acc = flags & O_ACCMODE;
    if (!created) {
        if ((acc == O_RDONLY || acc == O_RDWR) && !may(n, 4)) { errno = EACCES; return -1; }
        if ((acc == O_WRONLY || acc == O_RDWR) && !may(n, 2)) { errno = EACCES; return -1; }
        if (S_ISDIR(n->mode) && acc != O_RDONLY) { errno = EISDIR; return -1; }
        if ((flags & O_TRUNC) && acc != O_RDONLY) { n->len = 0; n->mtime = V.now_us / 1000000; oplog(VO_TRUNC, e->ino, p, NULL, 0, NULL, 0); }
    }
    int fd = new_fd(S_ISDIR(n->mode) ? VF_DIR : VF_FILE); if (fd < 0) return -1;
    V.fd[fd].cloexec = (flags & O_CLOEXEC) != 0;
    V.fd[fd].ino = e->ino; V.fd[fd].flags = flags; V.fd[fd].off = 0;
    return fd;
}
int vos_open_2(const char *p, int f) { return vos_open(p, f); }
int vos_creat(const char *p, mode_t m) { return vos_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int vos_close(int fd)
{
    POINT("close"); vfd *f = FD(fd); if (!f) return -1;
    int k = f->kind, ino = f->ino, obj = f->obj; f->kind = VF_FREE; file_of[fd] = NULL;
    if (k == VF_PIPE_R) V.pipe[obj].ropen--; if (k == VF_PIPE_W) V.pipe[obj].wopen--;
    if ((k == VF_PIPE_R || k == VF_PIPE_W) && !V.pipe[obj].ropen && !V.pipe[obj].wopen) V.pipe[obj].used = 0;
    if (k == VF_FILE || k == VF_DIR) put_ino(ino);
    if (k == VF_SOCK || k == VF_LISTEN) V.sock[obj].closed = 1;
    int ft = fault("close", vos_path_of_ino(ino)); if (ft > 0) { errno = ft; return -1; }
    return 0;
}
static ssize_t sock_recv(vsock *s, void *buf, size_t len, int peek);
ssize_t vos_read(int fd, void *buf, size_t len)
{
    POINT("read"); vfd *f = FD(fd); if (!f) return -1;
    int ft = fault("read", f->kind == VF_FILE ? vos_path_of_ino(f->ino) : f->kind == VF_PIPE_R ? "|pipe" : "|other"); if (ft > 0) { errno = ft; return -1; }
    if (f->kind == VF_FILE) {
        vinode *n = &V.ino[f->ino]; if ((size_t)f->off >= n->len) return 0;
        size_t a = n->len - f->off; if (a > len) a = len; if (ft == -2 && a > 1) a = a / 2;
        memcpy(buf, n->data + f->off, a); f->off += a; return a;
    }
    if (f->kind == VF_PIPE_R) {
        vpipe *p = &V.pipe[f->obj]; size_t a = p->len - p->off; if (a > len) a = len; if (ft == -2 && a > 1) a = 1;
        memcpy(buf, p->buf + p->off, a); p->off += a; return a;
    }
    if (f->kind == VF_TIMER) { V.timer_fd_fired = 0; if (len >= 8) memset(buf, 0, 8); errno = ECANCELED; return -1; }
    if (f->kind == VF_SOCK) return sock_recv(&V.sock[f->obj], buf, len, 0);
    if (f->kind == VF_STD) return 0;
    return 0;
}
ssize_t vos_write(int fd, const void *buf, size_t len)
{
    POINT("write"); vfd *f = FD(fd); if (!f) return -1;
    int ft = fault("write", f->kind == VF_FILE ? vos_path_of_ino(f->ino) : f->kind == VF_PIPE_W ? "|pipe" : "|other"); if (ft > 0) { errno = ft; return -1; }
    if (ft == -2 && len > 1) len = len / 2;
    if (ft == -3 && len > 1) len = 1;
    if (f->kind == VF_FILE) {
        vinode *n = &V.ino[f->ino]; if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
        if (f->flags & O_APPEND) f->off = n->len;
        inode_write(n, f->off, buf, len); oplog(VO_WRITE, f->ino, NULL, NULL, f->off, buf, len); if (V.log_ops && (f->flags & (O_SYNC | O_DSYNC))) V.ops[V.nops - 1].osync = 1; f->off += len; return len;
    }
    if (f->kind == VF_PIPE_W) { vpipe *p = &V.pipe[f->obj]; p->buf = realloc(p->buf, p->len + len + 1); memcpy(p->buf + p->len, buf, len); p->len += len; return len; }
    if (f->kind == VF_STD) { if (vos_stdout_hook) return vos_stdout_hook(fd, buf, len); return len; }
    return len;
}
off_t vos_lseek(int fd, off_t o, int w)
{ vfd *f = FD(fd); if (!f) return -1; if (f->kind != VF_FILE) { errno = ESPIPE; return -1; }
  f->off = w == SEEK_SET ? o : w == SEEK_CUR ? f->off + o : (off_t)V.ino[f->ino].len + o; return f->off; }
int vos_ftruncate(int fd, off_t l)
{ POINT("ftruncate"); vfd *f = FD(fd); if (!f || f->kind != VF_FILE) return -1; FAULT("ftruncate", vos_path_of_ino(f->ino)); vinode *n = &V.ino[f->ino];
  if ((size_t)l > n->len) { char z = 0; inode_write(n, l - 1, &z, 1); } n->len = l; oplog(VO_TRUNC, f->ino, NULL, NULL, l, NULL, 0); return 0; }
static int do_sync(int fd, const char *nm)
{ POINT(nm); vfd *f = FD(fd); if (!f) return -1; if (f->kind != VF_FILE) return 0; FAULT(nm, vos_path_of_ino(f->ino)); oplog(VO_SYNC, f->ino, NULL, NULL, 0, NULL, 0); return 0; }
int vos_fdatasync(int fd) { return do_sync(fd, "fdatasync"); }
int vos_fsync(int fd) { return do_sync(fd, "fsync"); }
void vos_sync(void) { for (int i = 0; i < V.nino; i++) oplog(VO_SYNC, i, NULL, NULL, 0, NULL, 0); }
static void fill(vinode *n, struct stat *st)
{ memset(st, 0, sizeof *st); st->st_mode = n->mode; st->st_uid = n->uid; st->st_gid = n->gid; st->st_nlink = n->nlink; st->st_size = n->len; st->st_ino = n->ino + 100; st->st_mtime = n->mtime; st->st_dev = 7; }
int vos_fstat(int fd, struct stat *st)
{ POINT("fstat"); vfd *f = FD(fd); if (!f) return -1; FAULT("fstat", f->ino >= 0 ? vos_path_of_ino(f->ino) : "|other");
  if (f->ino < 0) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0666; return 0; } fill(&V.ino[f->ino], st); return 0; }
static int do_stat(const char *path, struct stat *st, int follow)
{ char p[200]; POINT("stat"); FAULT("stat", path); norm(path, p); vent *e = find_ent(p); if (!e) { errno = ENOENT; return -1; }
  if (follow && S_ISLNK(V.ino[e->ino].mode)) { norm(V.ino[e->ino].target, p); e = find_ent(p); if (!e) { errno = ENOENT; return -1; } }
  fill(&V.ino[e->ino], st); return 0; }
int vos_stat(const char *path, struct stat *st) { return do_stat(path, st, 1); }
int vos_lstat(const char *path, struct stat *st) { return do_stat(path, st, 0); }
int vos_access(const char *path, int m) { char p[200]; norm(path, p); vent *e = find_ent(p); if (!e) { errno = ENOENT; return -1; } if (V.ruid ? !may(&V.ino[e->ino], m) : (m & X_OK) && !(V.ino[e->ino].mode & 0111)) { errno = EACCES; return -1; } return 0; }
static int do_chmod(int i, mode_t m) { if (V.euid && V.euid != V.ino[i].uid) { errno = EPERM; return -1; } V.ino[i].mode = (V.ino[i].mode & S_IFMT) | (m & 07777); oplog(VO_META, i, NULL, NULL, 0, NULL, 0); return 0; }
int vos_fchmod(int fd, mode_t m) { POINT("fchmod"); vfd *f = FD(fd); if (!f) return -1; FAULT("fchmod", f->ino >= 0 ? vos_path_of_ino(f->ino) : "|o"); return f->ino < 0 ? 0 : do_chmod(f->ino, m); }
int vos_chmod(const char *p, mode_t m) { POINT("chmod"); FAULT("chmod", p); int i = vos_lookup(p); if (i < 0) { errno = ENOENT; return -1; } return do_chmod(i, m); }
static int do_chown(int i, uid_t u, gid_t g) { if (V.euid && ((u != (uid_t)-1 && u != V.ino[i].uid) || V.euid != V.ino[i].uid)) { errno = EPERM; return -1; }
  if (u != (uid_t)-1) V.ino[i].uid = u; if (g != (gid_t)-1) V.ino[i].gid = g; V.ino[i].mode &= ~06000; oplog(VO_META, i, NULL, NULL, 0, NULL, 0); return 0; }
int vos_fchown(int fd, uid_t u, gid_t g) { POINT("fchown"); vfd *f = FD(fd); if (!f) return -1; FAULT("fchown", f->ino >= 0 ? vos_path_of_ino(f->ino) : "|o"); return f->ino < 0 ? 0 : do_chown(f->ino, u, g); }
int vos_chown(const char *p, uid_t u, gid_t g) { POINT("chown"); FAULT("chown", p); int i = vos_lookup(p); if (i < 0) { errno = ENOENT; return -1; } return do_chown(i, u, g); }
int vos_unlink(const char *path)
{ char p[200]; POINT("unlink"); FAULT("unlink", path); norm(path, p); vent *e = find_ent(p); if (!e) { errno = ENOENT; return -1; }
  if (S_ISDIR(V.ino[e->ino].mode)) { errno = EISDIR; return -1; }
  if (!dir_writable(p) || !sticky_ok(p, &V.ino[e->ino])) return -1; int i = e->ino; oplog(VO_UNLINK, i, p, NULL, 0, NULL, 0); e->used = 0; put_ino(i); return 0; }
int vos_remove(const char *path) { return vos_unlink(path); }
int vos_rename(const char *a, const char *b)
{ char p[200], q[200]; POINT("rename"); FAULT("rename", b); norm(a, p); norm(b, q); vent *e = find_ent(p); if (!e) { errno = ENOENT; return -1; }
  if (!dir_writable(p) || !dir_writable(q) || !sticky_ok(p, &V.ino[e->ino])) return -1;
  if (!strcmp(p, q)) return 0; vent *o = find_ent(q); oplog(VO_RENAME, e->ino, p, q, 0, NULL, 0);
  if (o) { int oi = o->ino; o->ino = e->ino; e->used = 0; put_ino(oi); }   /* keeps its place in the directory */
  else snprintf(e->path, sizeof e->path, "%s", q);
  return 0; }
/* dates of files, in seconds; now when no date is given */
static int set_mtime(int i, int given, time_t t) { if (i < 0) { errno = ENOENT; return -1; } if (S_ISLNK(V.ino[i].mode)) { i = vos_lookup(V.ino[i].target); if (i < 0) { errno = ENOENT; return -1; } } if (V.euid && V.euid != V.ino[i].uid) { errno = given ? EPERM : EACCES; return -1; } V.ino[i].mtime = given ? t : V.now_us / 1000000; return 0; }
static int ts_mtime(int i, const struct timespec *t) { if (t && t[1].tv_nsec == UTIME_OMIT) return 0; return set_mtime(i, t && t[1].tv_nsec != UTIME_NOW, t ? t[1].tv_sec : 0); }
int vos_utime(const char *p, const struct utimbuf *t) { POINT("utime"); FAULT("utime", p); return set_mtime(vos_lookup(p), !!t, t ? t->modtime : 0); }
int vos_utimes(const char *p, const struct timeval *t) { POINT("utime"); FAULT("utime", p); return set_mtime(vos_lookup(p), !!t, t ? t[1].tv_sec : 0); }
int vos_futimes(int fd, const struct timeval *t) { POINT("utime"); vfd *f = FD(fd); if (!f) return -1; FAULT("utime", f->ino >= 0 ? vos_path_of_ino(f->ino) : "|o"); return set_mtime(f->ino, !!t, t ? t[1].tv_sec : 0); }
int vos_futimens(int fd, const struct timespec *t) { POINT("utime"); vfd *f = FD(fd); if (!f) return -1; FAULT("utime", f->ino >= 0 ? vos_path_of_ino(f->ino) : "|o"); return ts_mtime(f->ino, t); }
int vos_utimensat(int d, const char *p, const struct timespec *t, int fl) { (void)d; (void)fl; POINT("utime"); FAULT("utime", p); return ts_mtime(vos_lookup(p), t); }
int vos_mkdir(const char *path, mode_t m)
{ char p[200]; POINT("mkdir"); FAULT("mkdir", path); norm(path, p); if (find_ent(p)) { errno = EEXIST; return -1; } if (!dir_writable(p)) return -1; int i = new_ino(S_IFDIR | (m & 07777 & ~V.umask_), V.euid, V.egid); new_ent(p, i); oplog(VO_MKDIR, i, p, NULL, 0, NULL, 0); return 0; }
int vos_chdir(const char *path) { char p[200]; POINT("chdir"); FAULT("chdir", path); norm(path, p); vent *e = find_ent(p); if (!e || !S_ISDIR(V.ino[e->ino].mode)) { errno = ENOENT; return -1; }
  if (!may(&V.ino[e->ino], 1)) { errno = EACCES; return -1; } strcpy(V.cwd, p); return 0; }
char *vos_getcwd(char *b, size_t n) { if (!b) return strdup(V.cwd); if (strlen(V.cwd) >= n) { errno = ERANGE; return NULL; } return strcpy(b, V.cwd); }
int vos_mkstemp(char *tpl)
{ size_t l = strlen(tpl); POINT("mkstemp"); FAULT("mkstemp", tpl); if (l < 6) { errno = EINVAL; return -1; } char d[8];
  for (;;) { snprintf(d, sizeof d, "%06d", ++V.mkstemp_n % 1000000); memcpy(tpl + l - 6, d, 6); if (vos_lookup(tpl) < 0) break; }
  void (*ph)(const char *) = vos_point_hook; int (*fh)(const char *, const char *) = vos_fault_hook; vos_point_hook = NULL; vos_fault_hook = NULL;
  int fd = vos_open(tpl, O_RDWR | O_CREAT | O_EXCL, 0600); vos_point_hook = ph; vos_fault_hook = fh; return fd; }
mode_t vos_umask(mode_t m) { mode_t o = V.umask_; V.umask_ = m & 0777; return o; }
int (*vos_flock_hook)(int, int);
static int lock_of(int fd, int op) { if (!FD(fd)) return -1; int e = vos_flock_hook ? vos_flock_hook(fd, op) : 0; if (e) { errno = e; return -1; } return 0; }
int vos_flock(int fd, int op) { POINT("flock"); FAULT("flock", "|lock"); return lock_of(fd, op); }
int vos_lockf(int fd, int c, off_t l) { (void)l; POINT("flock"); FAULT("flock", "|lock"); return lock_of(fd, c); }
int vos_fcntl(int fd, int cmd, ...)
{ vfd *f = FD(fd); va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!f) return -1; FAULT("fcntl", "|fd");
  if (cmd == F_SETFD) { f->cloexec = a & 1; return 0; } if (cmd == F_GETFD) return f->cloexec; if (cmd == F_GETFL) return f->flags; if (cmd == F_SETFL) { f->flags = a; return 0; } return 0; }
int vos_ioctl(int fd, unsigned long r, ...) { (void)r; (void)fd; return 0; }
int vos_isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
int vos_dup(int fd) { vfd *f = FD(fd); if (!f) return -1; vfd c = *f; int n = new_fd(c.kind); if (n < 0) return -1; V.fd[n] = c; V.fd[n].cloexec = 0; if (c.kind == VF_PIPE_R) V.pipe[c.obj].ropen++; if (c.kind == VF_PIPE_W) V.pipe[c.obj].wopen++; return n; }
int vos_dup2(int o, int n)
{ POINT("dup2"); FAULT("dup2", "|fd"); vfd *f = FD(o); if (!f) return -1; if (o == n) return n; if (n < 0 || n >= VOS_MAXFD) { errno = EBADF; return -1; }
  if (V.fd[n].kind) { void (*ph)(const char *) = vos_point_hook; vos_point_hook = NULL; vos_close(n); vos_point_hook = ph; } V.fd[n] = *f; V.fd[n].cloexec = 0;
  if (f->kind == VF_PIPE_R) V.pipe[f->obj].ropen++; if (f->kind == VF_PIPE_W) V.pipe[f->obj].wopen++; return n; }
int vos_pipe(int p[2])
{ POINT("pipe"); FAULT("pipe", "|pipe"); int i; for (i = 0; i < 48; i++) if (!V.pipe[i].used) break; if (i == 48) { errno = EMFILE; return -1; }
  memset(&V.pipe[i], 0, sizeof(vpipe)); V.pipe[i].used = 1; V.last_pipe = i; V.pipe[i].ropen = V.pipe[i].wopen = 1;
  if ((p[0] = new_fd(VF_PIPE_R)) < 0) return -1; V.fd[p[0]].obj = i; if ((p[1] = new_fd(VF_PIPE_W)) < 0) { V.fd[p[0]].kind = 0; return -1; } V.fd[p[1]].obj = i; return 0; }

/* directories */
typedef struct { char dir[200]; int pos; struct dirent d; } vdir;
void *vos_opendir(const char *path)
{ char p[200]; POINT("opendir"); int ft = fault("opendir", path); if (ft > 0) { errno = ft; return NULL; } norm(path, p); vent *e = find_ent(p); if (!e || !S_ISDIR(V.ino[e->ino].mode)) { errno = ENOENT; return NULL; }
  if (!may(&V.ino[e->ino], 4)) { errno = EACCES; return NULL; } vdir *d = calloc(1, sizeof *d); strcpy(d->dir, p); d->pos = -2; return d; }
struct dirent *vos_readdir(void *h)
{
    vdir *d = h; POINT("readdir");
    if (d->pos < 0) { strcpy(d->d.d_name, d->pos == -2 ? "." : ".."); d->pos++; return &d->d; }
    size_t l = strlen(d->dir); if (l == 1) l = 0;
    for (; d->pos < V.nent; d->pos++) {
        vent *e = &V.ent[d->pos]; if (!e->used || strncmp(e->path, d->dir, l) || e->path[l] != '/' || !e->path[l + 1] || strchr(e->path + l + 1, '/')) continue;
        d->pos++; snprintf(d->d.d_name, sizeof d->d.d_name, "%s", e->path + l + 1); d->d.d_ino = e->ino + 100; return &d->d;
    }
    return NULL;
}
int vos_closedir(void *h) { free(h); return 0; }
void vos_rewinddir(void *h) { ((vdir *)h)->pos = -2; }

/* stdio on top of the above */
typedef struct { int fd; FILE *f; int proc; } vck;
static vck *cks[256]; static vck std_ck[3] = { { 0 }, { 1 }, { 2 } };
static ssize_t ck_read(void *c, char *b, size_t n) { return vos_read(((vck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = vos_write(((vck *)c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = vos_lseek(((vck *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { vck *k = c; int fd = k->fd; for (int i = 0; i < 256; i++) if (cks[i] == k) cks[i] = NULL; free(k); return vos_close(fd); }
static FILE *ck_open(int fd, const char *mode)
{ cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close }; vck *k = malloc(sizeof *k); k->fd = fd; k->proc = vos_cur_proc;
  for (int i = 0; i < 256; i++) if (!cks[i]) { cks[i] = k; break; }
  return file_of[fd] = k->f = fopencookie(k, mode, io); }
/* streams a program left open when it ended */
static void ck_reap(void) { for (int i = 0; i < 256; i++) if (cks[i] && cks[i]->proc == vos_cur_proc) fclose(cks[i]->f); }
FILE *vos_fdopen(int fd, const char *mode)
{ POINT("fdopen"); int ft = fault("fdopen", "|fd"); if (ft > 0) { errno = ft; return NULL; } if (!FD(fd)) return NULL; return ck_open(fd, mode); }
FILE *vos_fopen(const char *path, const char *mode)
{ int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; int fd = vos_open(path, fl, 0666); if (fd < 0) return NULL; return ck_open(fd, mode); }
/* the programs' standard streams */
FILE *vos_stdin, *vos_stdout, *vos_stderr;
int vos_fileno(FILE *f);
FILE *vos_freopen(const char *p, const char *m, FILE *f)
{ int fd = vos_fileno(f); if (fd < 0) return NULL; fflush(f); POINT("freopen"); int ft = fault("freopen", p); if (ft > 0) { errno = ft; return NULL; }
  void (*ph)(const char *) = vos_point_hook; int (*fh)(const char *, const char *) = vos_fault_hook; vos_point_hook = NULL; vos_fault_hook = NULL; FILE *keep = file_of[fd];
  if (V.fd[fd].kind) vos_close(fd); int n = vos_open(p, m[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | O_TRUNC, 0666); if (n >= 0 && n != fd) { V.fd[fd] = V.fd[n]; V.fd[n].kind = VF_FREE; } file_of[fd] = keep;
  vos_point_hook = ph; vos_fault_hook = fh; return n < 0 ? NULL : f; }
static void std_streams(void)
{ cookie_io_functions_t io = { ck_read, ck_write, ck_seek, NULL };
  if (vos_stdout) { fflush(vos_stdout); fflush(vos_stderr); }
  if (vos_stdin) fclose(vos_stdin);   /* what it has buffered must not survive */
  vos_stdin = fopencookie(&std_ck[0], "r", io);
  if (!vos_stdout) { vos_stdout = fopencookie(&std_ck[1], "w", io); vos_stderr = fopencookie(&std_ck[2], "w", io); setvbuf(vos_stderr, NULL, _IOLBF, 4096); } }
int vos_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(vos_stdout, f, ap); va_end(ap); return r; }
int vos_puts(const char *s) { return fprintf(vos_stdout, "%s\n", s); }
char *(*vos_readline_hook)(const char *);
char *vos_readline(const char *p) { return vos_readline_hook ? vos_readline_hook(p) : NULL; }
void vos_add_history(const char *l) { (void)l; }
int vos_putchar(int c) { return putc(c, vos_stdout); }
int vos_getchar(void) { return getc(vos_stdin); }
int vos_fileno(FILE *f)
{ if (f == vos_stdin) return 0; if (f == vos_stdout) return 1; if (f == vos_stderr) return 2; if (f == stdin) return 0; if (f == stdout) return 1; if (f == stderr) return 2; for (int i = 0; i < VOS_MAXFD; i++) if (file_of[i] == f && V.fd[i].kind) return i; errno = EBADF; return -1; }
FILE *vos_FILE_of(int fd) { return file_of[fd]; }

/* ------------------------------------------------------------------ time */
time_t vos_time(time_t *t) { POINT("time"); time_t r = V.now_us / 1000000; if (t) *t = r; return r; }
int vos_gettimeofday(struct timeval *tv, void *z) { (void)z; POINT("gettimeofday"); tv->tv_sec = V.now_us / 1000000; tv->tv_usec = V.now_us % 1000000; return 0; }
int vos_clock_gettime(clockid_t c, struct timespec *ts)
{ int64_t u = c == CLOCK_REALTIME ? V.now_us : c == CLOCK_BOOTTIME ? V.boot_us : V.mono_us; ts->tv_sec = u / 1000000; ts->tv_nsec = (u % 1000000) * 1000; return 0; }
unsigned vos_sleep(unsigned s) { POINT("sleep"); if (vos_sleep_hook) vos_sleep_hook(s); else vos_advance(s); return 0; }
int vos_usleep(unsigned s) { V.now_us += s; V.mono_us += s; V.boot_us += s; return 0; }
int vos_timerfd_create(int c, int f) { (void)c; int n = new_fd(VF_TIMER); if (n >= 0) V.fd[n].cloexec = (f & TFD_CLOEXEC) != 0; return n; }
int vos_timerfd_settime(int fd, int fl, const struct itimerspec *a, struct itimerspec *b) { (void)fd; (void)fl; (void)a; (void)b; return 0; }
int vos_rand(void) { return vos_rand_hook ? vos_rand_hook() : 0; }
void vos_srand(unsigned s) { (void)s; }
int vos_getloadavg(double *l, int n)
{ POINT("getloadavg"); if (vos_load_hook) return vos_load_hook(l, n); int k = V.load_n < n ? V.load_n : n; for (int i = 0; i < k; i++) l[i] = V.load[i]; return V.load_n <= 0 ? -1 : k; }
int vos_gethostname(char *b, size_t n) { int ft = fault("gethostname", ""); if (ft > 0) { errno = ft; return -1; } if (strlen(V.host) >= n) { memcpy(b, V.host, n); errno = ENAMETOOLONG; return -1; } strcpy(b, V.host); return 0; }

/* ------------------------------------------------------------------ processes */
int vos_new_pid(long tag)
{ for (int i = 0; i < VOS_MAXPROC; i++) if (V.proc[i].state == 0 || V.proc[i].state == 3) { V.proc[i].pid = V.next_pid++; V.proc[i].state = 1; V.proc[i].status = 0; V.proc[i].tag = tag; V.proc[i].ppid = V.pid; if (i >= V.nproc) V.nproc = i + 1; return V.proc[i].pid; } die("too many processes"); return -1; }
vproc *vos_proc(int pid) { for (int i = 0; i < V.nproc; i++) if (V.proc[i].pid == pid && (V.proc[i].state == 1 || V.proc[i].state == 2)) return &V.proc[i]; return NULL; }
void vos_exit_proc(int pid, int status) { vproc *p = vos_proc(pid); if (p) { p->state = 2; p->status = status; } }
void vos_pipe_put(int i, const void *b, size_t n) { vpipe *p = &V.pipe[i]; if (!p->used) return; p->buf = realloc(p->buf, p->len + n + 1); memcpy(p->buf + p->len, b, n); p->len += n; }
pid_t vos_fork(void)
{
    POINT("fork"); FAULT("fork", "|fork"); if (vos_fork_hook) return vos_fork_hook();
    int pid = vos_new_pid(0);
    /* the child would write the pid of the job on the last pipe opened */
    int jp = pid + 500000; vos_pipe_put(V.last_pipe, &jp, sizeof jp);
    return pid;
}
pid_t vos_waitpid(pid_t pid, int *st, int opt)
{
    POINT("waitpid"); 
#define WP(i) (pid == -1 || pid == 0 || V.proc[i].pid == pid)       /* children are not in groups of others */
    for (int tries = 0; tries < 2 + (pid > 0) * 300; tries++) {
        for (int i = 0; i < V.nproc; i++) if (V.proc[i].state == 2 && WP(i)) { V.proc[i].state = 3; if (st) *st = V.proc[i].status; return V.proc[i].pid; }
        int any = 0; for (int i = 0; i < V.nproc; i++) if (V.proc[i].state == 1 && WP(i)) any = 1;
        if (!any) { errno = ECHILD; return -1; }
        if (opt & WNOHANG) return 0;
        if (!vos_wait_hook) die("blocking waitpid without hook");
        int p = vos_wait_hook(opt); if (p <= 0) { errno = p ? -p : EINTR; return -1; } vproc *vp = vos_proc(p); if (vp && vp->state == 1) vos_exit_proc(p, 0);
    }
    errno = ECHILD; return -1;
}
int vos_kill(pid_t p, int s) { POINT("kill"); FAULT("kill", "|kill"); if (vos_kill_hook) return vos_kill_hook(p, s); return 0; }
int vos_setpriority(int w, int who, int pr) { if (vos_prio_hook) return vos_prio_hook(w, who, pr); return 0; }
int vos_getpriority(int w, unsigned p) { (void)w; (void)p; errno = 0; return V.nice_; }
int vos_nice(int n) { int ft = fault("nice", "|nice"); if (ft > 0) { errno = ft; return -1; } if (n < 0 && V.euid) { errno = EPERM; return -1; } V.nice_ += n; if (V.nice_ > 19) V.nice_ = 19; if (V.nice_ < -20) V.nice_ = -20; if (vos_cred_hook) vos_cred_hook("nice", n, 0); return V.nice_; }
int vos_setsid(void) { int ft = fault("setsid", ""); if (ft > 0) { errno = ft; return -1; } V.sid_done = 1; return 1; }
pid_t vos_getpid(void) { return V.pid; }
pid_t vos_getppid(void) { return 1; }
void vos_exit(int c) { if (vos_exit_hook) vos_exit_hook(c); fprintf(stderr, "vos: exit(%d)\n", c); _Exit(99); }
void vos__exit(int c) { vos_exit(c); }
void vos_abort(void) { fprintf(stderr, "vos: abort()\n"); abort(); }
static void do_exec(const char *path, const char *a0, va_list ap, int has_env)
{ char *av[32]; int n = 0; char **env = NULL; if (a0) { av[n++] = (char *)a0; char *x; while ((x = va_arg(ap, char *)) && n < 31) av[n++] = x; } av[n] = NULL; if (has_env) env = va_arg(ap, char **);
  if (vos_exec_hook) vos_exec_hook(path, av, env); }
int vos_execle(const char *p, const char *a, ...) { POINT("exec"); FAULT("exec", p); va_list ap; va_start(ap, a); do_exec(p, a, ap, 1); va_end(ap); errno = ENOENT; return -1; }
int vos_execl(const char *p, const char *a, ...) { POINT("exec"); FAULT("exec", p); va_list ap; va_start(ap, a); do_exec(p, a, ap, 0); va_end(ap); errno = ENOENT; return -1; }
int vos_execlp(const char *p, const char *a, ...) { POINT("exec"); FAULT("exec", p); va_list ap; va_start(ap, a); do_exec(p, a, ap, 0); va_end(ap); errno = ENOENT; return -1; }
int vos_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) { memset(o, 0, sizeof *o); o->sa_handler = V.handler[s]; } if (a) V.handler[s] = a->sa_handler; if (vos_cred_hook) vos_cred_hook("sigaction", s, a ? (long)a->sa_handler : 0); return 0; }
void (*vos_signal(int s, void (*h)(int)))(int) { void (*o)(int) = V.handler[s]; V.handler[s] = h; if (vos_cred_hook) vos_cred_hook("sigaction", s, (long)h); return o; }
int vos_raise(int s) { if (V.sigmask >> s & 1) { V.sigpending |= 1ULL << s; return 2; } if (V.handler[s] && V.handler[s] != SIG_IGN) { V.handler[s](s); return 1; } return 0; }

/* ------------------------------------------------------------------ users */
uid_t vos_getuid(void) { return V.ruid; } uid_t vos_geteuid(void) { return V.euid; }
gid_t vos_getgid(void) { return V.rgid; } gid_t vos_getegid(void) { return V.egid; }
#define CRED(n, a, b) do { if (vos_cred_hook) vos_cred_hook(n, a, b); } while (0)
int vos_setuid(uid_t u) { POINT("setuid"); FAULT("setuid", "|cred"); if (V.euid == 0) V.ruid = V.euid = V.suid = u; else if (u == V.ruid || u == V.suid) V.euid = u; else { errno = EPERM; return -1; } CRED("setuid", u, 0); return 0; }
int vos_setgid(gid_t g) { POINT("setgid"); FAULT("setgid", "|cred"); if (V.euid == 0) V.rgid = V.egid = V.sgid = g; else if (g == V.rgid || g == V.sgid) V.egid = g; else { errno = EPERM; return -1; } CRED("setgid", g, 0); return 0; }
int vos_seteuid(uid_t u) { POINT("seteuid"); FAULT("seteuid", "|cred"); if (V.euid == 0 || u == V.ruid || u == V.suid) V.euid = u; else { errno = EPERM; return -1; } CRED("seteuid", u, 0); return 0; }
int vos_setegid(gid_t g) { POINT("setegid"); FAULT("setegid", "|cred"); if (V.euid == 0 || g == V.rgid || g == V.sgid) V.egid = g; else { errno = EPERM; return -1; } CRED("setegid", g, 0); return 0; }
int vos_setreuid(uid_t r, uid_t e) { FAULT("setreuid", "|cred"); if (V.euid) { errno = EPERM; return -1; } if (r != (uid_t)-1) V.ruid = r; if (e != (uid_t)-1) V.euid = V.suid = e; CRED("setreuid", r, e); return 0; }
int vos_setregid(gid_t r, gid_t e) { FAULT("setregid", "|cred"); if (V.euid) { errno = EPERM; return -1; } if (r != (gid_t)-1) V.rgid = r; if (e != (gid_t)-1) V.egid = V.sgid = e; CRED("setregid", r, e); return 0; }
int vos_setresuid(uid_t r, uid_t e, uid_t s) { FAULT("setresuid", "|cred"); if (V.euid) { if ((r != (uid_t)-1 && r != V.ruid && r != V.suid && r != V.euid) || (e != (uid_t)-1 && e != V.ruid && e != V.suid && e != V.euid) || (s != (uid_t)-1 && s != V.ruid && s != V.suid && s != V.euid)) { errno = EPERM; return -1; } } if (r != (uid_t)-1) V.ruid = r; if (e != (uid_t)-1) V.euid = e; if (s != (uid_t)-1) V.suid = s; CRED("setresuid", r, e); return 0; }
int vos_setresgid(gid_t r, gid_t e, gid_t s) { FAULT("setresgid", "|cred"); if (V.euid) { errno = EPERM; return -1; } if (r != (gid_t)-1) V.rgid = r; if (e != (gid_t)-1) V.egid = e; if (s != (gid_t)-1) V.sgid = s; CRED("setresgid", r, e); return 0; }
int vos_initgroups(const char *u, gid_t g) { POINT("initgroups"); FAULT("initgroups", "|cred"); if (V.euid) { errno = EPERM; return -1; } V.ngroups = 0; V.groups[V.ngroups++] = g;
  for (int i = 0; i < vos_nusers; i++) if (!strcmp(vos_users[i].name, u)) V.groups[V.ngroups++] = vos_users[i].gid + 5000; CRED("initgroups", (long)g, 0); return 0; }
int vos_setgroups(size_t n, const gid_t *l) { POINT("setgroups"); FAULT("setgroups", "|cred"); if (V.euid) { errno = EPERM; return -1; } V.ngroups = n; for (size_t i = 0; i < n && i < 16; i++) V.groups[i] = l[i]; CRED("setgroups", n, 0); return 0; }
static struct passwd *mkpw(vuser *u)
{ static struct passwd pw; static char nm[64], ho[64], sh[64]; snprintf(nm, 64, "%s", u->name); snprintf(ho, 64, "%s", u->home); snprintf(sh, 64, "%s", u->shell);
  pw.pw_name = nm; pw.pw_passwd = "x"; pw.pw_uid = u->uid; pw.pw_gid = u->gid; pw.pw_gecos = ""; pw.pw_dir = ho; pw.pw_shell = sh; return &pw; }
struct passwd *vos_getpwnam(const char *n) { POINT("getpwnam"); int ft = fault("getpwnam", n); if (ft > 0) { errno = ft; return NULL; } for (int i = 0; i < vos_nusers; i++) if (!strcmp(vos_users[i].name, n)) return mkpw(&vos_users[i]); errno = 0; return NULL; }
struct passwd *vos_getpwuid(uid_t u) { POINT("getpwuid"); int ft = fault("getpwuid", ""); if (ft > 0) { errno = ft; return NULL; } for (int i = 0; i < vos_nusers; i++) if (vos_users[i].uid == u) return mkpw(&vos_users[i]); errno = 0; return NULL; }
struct group *vos_getgrnam(const char *n) { static struct group g; static char nm[64]; for (int i = 0; i < vos_ngroups; i++) if (!strcmp(vos_groups[i].name, n)) { snprintf(nm, 64, "%s", n); g.gr_name = nm; g.gr_gid = vos_groups[i].gid; return &g; } errno = 0; return NULL; }
struct spwd *vos_getspnam(const char *n) { static struct spwd s; static char pw[64]; int ft = fault("getspnam", n); if (ft > 0) { errno = ft; return NULL; } for (int i = 0; i < vos_nusers; i++) if (!strcmp(vos_users[i].name, n)) { snprintf(pw, 64, "%s", vos_users[i].spw); s.sp_namp = (char *)vos_users[i].name; s.sp_pwdp = pw; return &s; } errno = ENOENT; return NULL; }
/* crypt(): the "hash" of a password p is p itself; a locked account never matches */
char *vos_crypt(const char *k, const char *salt) { static char b[128]; int ft = fault("crypt", ""); if (ft > 0) { errno = ft; return NULL; } if (salt[0] == '*') { errno = EINVAL; return NULL; } snprintf(b, sizeof b, "%s", k); return b; }

/* ------------------------------------------------------------------ sockets */
int vos_socket(int d, int t, int p) { (void)d; (void)p; FAULT("socket", "|sock"); int i; for (i = 0; i < 32; i++) if (!V.sock[i].used) break; if (i == 32) { errno = EMFILE; return -1; } memset(&V.sock[i], 0, sizeof(vsock)); V.sock[i].used = 1; int fd = new_fd(VF_LISTEN); V.fd[fd].obj = i; V.fd[fd].cloexec = (t & SOCK_CLOEXEC) != 0; return fd; }
int vos_bind(int fd, const struct sockaddr *a, socklen_t l) { (void)l; FAULT("bind", "|sock"); const char *p = ((const struct sockaddr_un *)a)->sun_path; char q[200]; norm(p, q); if (find_ent(q)) { errno = EADDRINUSE; return -1; } if (!dir_writable(q)) return -1; int i = new_ino(S_IFSOCK | 0755, V.euid, V.egid); new_ent(q, i); return FD(fd) ? 0 : -1; }
int vos_listen(int fd, int n) { (void)n; FAULT("listen", "|sock"); vfd *f = FD(fd); if (!f) return -1; V.sock[f->obj].listening = 1; return 0; }
int vos_client_connect(uid_t uid) { int i; for (i = 0; i < 32; i++) if (!V.sock[i].used) break; if (i == 32) die("too many sockets"); memset(&V.sock[i], 0, sizeof(vsock)); V.sock[i].used = 1; V.sock[i].connected = 1; V.sock[i].peer_uid = uid; return i; }
void vos_client_send(int s, const void *b, size_t n) { vsock *k = &V.sock[s]; k->in = realloc(k->in, k->in_len + n + 1); memcpy(k->in + k->in_len, b, n); k->in_len += n; if (k->nmsg < 32) k->msg[k->nmsg++] = n; }
int (*vos_connect_hook)(int fd);
int vos_connect(int fd, const void *a, socklen_t l) { POINT("connect"); FAULT("connect", "|sock"); if (vos_connect_hook) return vos_connect_hook(fd); errno = ECONNREFUSED; return -1; }
int vos_accept(int fd, struct sockaddr *a, socklen_t *l)
{ (void)a; (void)l; POINT("accept"); FAULT("accept", "|sock"); vfd *f = FD(fd); if (!f) return -1; for (int i = 0; i < 32; i++) if (V.sock[i].used && V.sock[i].connected && !V.sock[i].accepted) { int n = new_fd(VF_SOCK); if (n < 0) return -1; V.sock[i].accepted = 1; V.fd[n].obj = i; return n; } errno = EAGAIN; return -1; }
static ssize_t sock_recv(vsock *s, void *buf, size_t len, int peek)
{ size_t a = s->in_len - s->in_off; if (!a) { if (s->eof) return 0; errno = EAGAIN; return -1; } if (a > len) a = len;
  /* keep message boundaries as the arrival units chosen by the harness */
  if (s->cmsg < s->nmsg && (size_t)s->msg[s->cmsg] <= a) { a = s->msg[s->cmsg]; if (!peek) s->cmsg++; } else if (s->cmsg < s->nmsg && !peek) s->msg[s->cmsg] -= a;
  memcpy(buf, s->in + s->in_off, a); if (!peek) s->in_off += a; return a; }
ssize_t vos_recv(int fd, void *b, size_t n, int fl) { POINT("recv"); FAULT("recv", "|sock"); vfd *f = FD(fd); if (!f || f->kind != VF_SOCK) { errno = EBADF; return -1; } return sock_recv(&V.sock[f->obj], b, n, fl & MSG_PEEK); }
ssize_t vos_send(int fd, const void *b, size_t n, int fl)
{ (void)fl; POINT("send"); FAULT("send", "|sock"); vfd *f = FD(fd); if (!f || f->kind != VF_SOCK) { errno = EBADF; return -1; } vsock *s = &V.sock[f->obj]; if (s->eof) { errno = EPIPE; return -1; }
  s->out = realloc(s->out, s->out_len + n + 1); memcpy(s->out + s->out_len, b, n); s->out_len += n; return n; }
int vos_shutdown(int fd, int how) { (void)how; vfd *f = FD(fd); if (!f) return -1; V.sock[f->obj].shut = 1; return 0; }
int vos_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void)fd; (void)l; (void)o; (void)v; (void)n; return 0; }
int vos_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { (void)l; (void)n; FAULT("getsockopt", "|sock"); vfd *f = FD(fd); if (!f) return -1; if (o == SO_PEERCRED) { int *c = v; c[0] = 4242; c[1] = V.sock[f->obj].peer_uid; c[2] = V.sock[f->obj].peer_uid; } return 0; }
int vos_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{ (void)w; (void)e; POINT("select"); if (!vos_select_hook) die("select without hook"); return vos_select_hook(n, r, tv); }
static uint64_t mask_of(const sigset_t *m) { uint64_t r = 0; for (int i = 1; i < 64; i++) if (sigismember(m, i) == 1) r |= 1ULL << i; return r; }
static int deliver_pending(void) { int n = 0; for (int i = 1; i < 64; i++) if ((V.sigpending >> i & 1) && !(V.sigmask >> i & 1)) { V.sigpending &= ~(1ULL << i); if (vos_raise(i) == 1) n++; } return n; }
int vos_sigprocmask(int how, const sigset_t *s, sigset_t *o)
{ POINT("sigprocmask"); if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (V.sigmask >> i & 1) sigaddset(o, i); }
  if (s) { uint64_t m = mask_of(s); V.sigmask = how == SIG_BLOCK ? V.sigmask | m : how == SIG_UNBLOCK ? V.sigmask & ~m : m; deliver_pending(); } return 0; }
int vos_sigblocked(int s) { return V.sigmask >> s & 1; }
int vos_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m)
{ struct timeval tv; (void)w; (void)e; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; }
  POINT("select"); uint64_t old = V.sigmask; int ret; if (m) V.sigmask = mask_of(m);
  if (deliver_pending()) { errno = EINTR; ret = -1; } else { if (!vos_select_hook) die("select without hook"); ret = vos_select_hook(n, r, ts ? &tv : NULL); }
  int e2 = errno; V.sigmask = old; errno = e2; return ret; }

/* ------------------------------------------------------------------ logs, pam, selinux, audit */
void vos_openlog(const char *i, int o, int f) { (void)i; (void)o; (void)f; }
void vos_closelog(void) {}
void vos_syslog(int lev, const char *fmt, ...)
{ char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (vos_verbose) fprintf(stderr, "  [log %d] %s\n", lev, b); if (vos_log_hook) vos_log_hook(lev, b); }
int vos_is_selinux_enabled(void) { return 0; }
int vos_sel0(void) { return 0; }
int vos_pam_start(const char *s, const char *u, const void *c, void **h) { (void)s; (void)u; (void)c; int ft = fault("pam_start", u); *h = (void *)1; return ft > 0 ? 1 : 0; }
int vos_pam_authenticate(void *h, int f) { (void)h; (void)f; return fault("pam_authenticate", "") > 0 ? 7 : 0; }
int vos_pam_acct_mgmt(void *h, int f) { (void)h; (void)f; return fault("pam_acct_mgmt", "") > 0 ? 13 : 0; }
int vos_pam_setcred(void *h, int f) { (void)h; (void)f; return fault("pam_setcred", "") > 0 ? 17 : 0; }
int vos_pam_open_session(void *h, int f) { (void)h; (void)f; return fault("pam_open_session", "") > 0 ? 14 : 0; }
int vos_pam_close_session(void *h, int f) { (void)h; (void)f; return 0; }
int vos_pam_end(void *h, int s) { (void)h; (void)s; return 0; }
const char *vos_pam_strerror(void *h, int e) { (void)h; (void)e; return "pam error"; }
char **vos_pam_getenvlist(void *h) { (void)h; char **l = calloc(2, sizeof *l); l[0] = strdup("PAMVAR=1"); return l; }
int vos_tcgetattr(int fd, struct termios *t) { (void)fd; memset(t, 0, sizeof *t); return -1; }
int vos_tcsetattr(int fd, int a, const struct termios *t) { (void)fd; (void)a; (void)t; return -1; }

/* ------------------------------------------------------------------ crash exploration */
void vos_log_start(void)
{
    V.log_ops = 1; V.nops = 0; base_nino = V.nino; base_nent = V.nent;
    base_ino = malloc(sizeof V.ino); memcpy(base_ino, V.ino, sizeof V.ino); base_ent = malloc(sizeof V.ent); memcpy(base_ent, V.ent, sizeof V.ent);
    for (int i = 0; i < base_nino; i++) if (V.ino[i].data) { base_ino[i].data = malloc(V.ino[i].cap); memcpy(base_ino[i].data, V.ino[i].data, V.ino[i].len); }
}
void vos_log_save(vlog *l) { l->bi = base_ino; l->be = base_ent; l->bni = base_nino; l->bne = base_nent; l->ops = V.ops; l->nops = V.nops; l->cap = V.cap_ops; l->on = V.log_ops; V.ops = NULL; V.nops = V.cap_ops = 0; }
void vos_log_restore(vlog *l) { if (V.ops && V.ops == l->ops) return; base_ino = l->bi; base_ent = l->be; base_nino = l->bni; base_nent = l->bne; for (int i = 0; i < V.nops; i++) free(V.ops[i].data); free(V.ops); V.ops = l->ops; V.nops = l->nops; V.cap_ops = l->cap; V.log_ops = l->on; }
/* State of the disk if the machine stops after the first `upto` operations.
 * Directory operations reach the disk in order; the k-th write not followed by a
 * later operation if made with O_SYNC, and otherwise by a
 * sync of its file within the prefix is lost entirely if bit 2k of lose_mask is set,
 * or cut in half if bit 2k+1 is. */
void vos_crash_state(int upto, unsigned long mask, int *n_unsynced)
{
    int k = 0, save = V.log_ops; V.log_ops = 0;
    memcpy(V.ino, base_ino, sizeof V.ino); memcpy(V.ent, base_ent, sizeof V.ent); V.nino = base_nino; V.nent = base_nent;
    for (int i = 0; i < base_nino; i++) if (base_ino[i].data) { V.ino[i].data = malloc(base_ino[i].cap); memcpy(V.ino[i].data, base_ino[i].data, base_ino[i].len); }
    for (int i = 0; i < upto; i++) {
        vop *o = &V.ops[i]; vent *e;
        switch (o->op) {
        case VO_MKDIR: case VO_CREATE: memset(&V.ino[o->ino], 0, sizeof(vinode)); V.ino[o->ino].used = 1; V.ino[o->ino].mode = o->mode; V.ino[o->ino].uid = o->uid; V.ino[o->ino].gid = o->gid; V.ino[o->ino].nlink = 1; V.ino[o->ino].ino = o->ino; if (o->ino >= V.nino) V.nino = o->ino + 1; new_ent(o->a, o->ino); break;
        case VO_TRUNC: if (V.ino[o->ino].len > (size_t)o->off) V.ino[o->ino].len = o->off; break;
        case VO_META: V.ino[o->ino].mode = o->mode; V.ino[o->ino].uid = o->uid; V.ino[o->ino].gid = o->gid; break;
        case VO_SYNC: break;
        case VO_UNLINK: if ((e = find_ent(o->a))) e->used = 0; break;
        case VO_RENAME: { vent *d = find_ent(o->b); e = find_ent(o->a); if (d && d != e) d->used = 0; if (e) snprintf(e->path, sizeof e->path, "%s", o->b); break; }
        case VO_WRITE: { int synced = o->osync && i < upto - 1; for (int j = i + 1; j < upto; j++) if (V.ops[j].op == VO_SYNC && V.ops[j].ino == o->ino) synced = 1;
            if (synced) inode_write(&V.ino[o->ino], o->off, o->data, o->len);
            else { int lose = (mask >> (2 * k)) & 3; k++; if (lose == 0) inode_write(&V.ino[o->ino], o->off, o->data, o->len); else if (lose == 2 && o->len > 1) inode_write(&V.ino[o->ino], o->off, o->data, o->len / 2); }
            break; }
        }
    }
    if (n_unsynced) *n_unsynced = k;
    V.log_ops = save;
}
static int cmp_ent(const void *a, const void *b) { return strcmp((*(vent **)a)->path, (*(vent **)b)->path); }
uint64_t vos_fs_hash(uint64_t h, int times)
{
    vent *l[VOS_MAXENT]; int n = 0; for (int i = 0; i < V.nent; i++) if (V.ent[i].used) l[n++] = &V.ent[i];
    qsort(l, n, sizeof *l, cmp_ent); (void)times;
    for (int i = 0; i < n; i++) { vinode *v = &V.ino[l[i]->ino]; h = vos_hash(h, l[i]->path, strlen(l[i]->path) + 1); h = vos_hash(h, &v->mode, sizeof v->mode); h = vos_hash(h, &v->uid, sizeof v->uid); h = vos_hash(h, v->data, v->len); h = vos_hash(h, &v->len, sizeof v->len); }
    return h;
}
