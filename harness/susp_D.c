/* C16: the suspend file, read by the real read_suspend_duration() */
extern int main(int, char **);
#define DAEMON_MAIN main
#include "eng.h"
#include "fcron.h"
#include "fcronconf.h"
#include "suspend.h"
extern int vos_lstat(const char *, struct stat *);
extern long int read_suspend_duration(time_t slept_from);
#define SF "/var/run/fcron.suspend"
static const char *TXT[] = { "", "\n", "0", "1", "5\n", "70\n", "0070", "-5\n", " 12\n", "12abc", "abc", "2147483648\n", "99999999999999999999999", "-99999999999999999999999", "1e3", "0x10", "+9", "3600\n70\n", "5 " };
#define NT (int)(sizeof TXT / sizeof *TXT)
static const long SL[] = { -100, 0, 1, 4, 5, 69, 70, 71, 3600, 100000, 3000000000L }; enum { NS = sizeof SL / sizeof *SL };
static const uid_t U[] = { 0, 1001, 200, 65534 };
static const char *FC[] = { NULL, "open", "fstat", "read", "unlink", "close" }; static int fno;
static int fault_(const char *c, const char *p) { (void)p; return FC[fno] && !strcmp(c, FC[fno]) ? (fno == 4 ? EPERM : EIO) : 0; }
/* type: 0 a file, 1 none, 2 a directory, 3 a file with two links */
static void one(const char *t, int ui, int gi, int mode, int type, long slept, int fault)
{
    char why[300]; snprintf(why, sizeof why, "a %s of %d:%d mode %o containing \"%s\", read after %ld s; failing call: %s", type == 0 ? "file" : type == 1 ? "missing file" : type == 2 ? "directory" : "file with two names", U[ui], U[gi], mode, t, slept, fault ? FC[fault] : "");
    vos_init(); vos_set_time(1706000000); now = 1706000000; rootuid = 0; rootgid = 0; suspendfile = SF; mc_ctx = why; mc_ctxlen = strlen(why); mc_arm();
    if (type == 0 || type == 3) { vos_put(SF, t, strlen(t), U[ui], U[gi], mode); if (type == 3) for (int i = 0; i < V.nent; i++) if (V.ent[i].used && !strcmp(V.ent[i].path, SF)) V.ino[V.ent[i].ino].nlink = 2; }
    if (type == 2) vos_mkdirp(SF, U[ui], U[gi], mode);
    fno = fault; vos_fault_hook = fault_; long r = read_suspend_duration(now - slept); vos_fault_hook = NULL; struct stat st; int there = !vos_lstat(SF, &st); mc_eval(1);
    int trusted = type == 0 && !(mode & S_IWOTH) && !U[ui] && !U[gi]; errno = 0; long v = strtol(t, NULL, 10); if (errno || v < 0) v = 0;
    long want = trusted ? (v > slept ? slept : v) : 0; if (want < 0) want = r <= 0 ? r : 0;
    if (fault && fault < 5 && trusted) { want = 0; if (r < 0 && fault != 4) want = r; } if (r != want) mc_violation(!trusted ? "an untrusted suspend file is believed" : r > want ? "more suspend time than slept or told" : "suspend time is lost", "%s: %ld instead of %ld", why, r, want);
    if (!(fault && fault < 5) && there != (type != 1 && !trusted)) mc_violation(there ? "the suspend file may be read again" : "somebody else's file is removed", "%s", why);
    for (int i = 0; i < 64; i++) if (V.fd[i].kind == VF_FILE && type != 1) { mc_violation("the suspend file is left open", "%s", why); V.fd[i].kind = 0; }
    mc_outcome(vos_hash(r, t, there)); mc_state(vos_hash(mode * 16 + ui * 4 + gi, why, strlen(why)));
}
static void item(long it)
{
    int mode = it % 512, type = it / 512; if (!(mode & 0400) && 0) return;
    for (int u = 0; u < 4; u++) for (int g = 0; g < 4; g++) { int all = mode == 0644 || mode == 0600 || mode == 0664 || mode == 0646 || mode == 0666 || mode == 0777;
        for (int t = 0; t < NT; t++) for (int s = 0; s < NS; s++) { if (!all && !mc_thorough && (t != 5 || s != 8)) continue; for (int f = 0; f < 6; f++) if (!f || mode == 0644) one(TXT[t], u, g, mode, type, SL[s], f); } }
}
int harness_main(void) { mc_items(4 * 512, item); return 0; }
