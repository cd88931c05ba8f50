/* ================================================================ C38: the descriptors the daemon waits on */
#define NC38 5
typedef struct { int s, open, auth; time_t since; uid_t uid; int ord; } CL38;
static CL38 c38[NC38]; static int st38, n38, left38_, nord; static int maxc38; static int noauth38;
static char tr38[1200]; static int ntr38;
static void tr(const char *f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(tr38 + ntr38, sizeof tr38 - ntr38, f, ap); va_end(ap); ntr38 += n; if (ntr38 > 1100) ntr38 = 1100; }
#define BAD38(S, ...) do { char m_[400]; snprintf(m_, 400, __VA_ARGS__); mc_violation(S, "%s: %s", tr38, m_); } while (0)
static int fault38(const char *c, const char *p) { if (!in_child && noauth38 && !strcmp(c, "getsockopt")) return ENOPROTOOPT; return eng_fault(c, p); }
/* what select() is given is exactly what is open */
static void watched(void)
{
    int n = 0;
    for (int f = 0; f < VOS_MAXFD; f++) { int k = V.fd[f].kind, want = k == VF_SOCK || k == VF_TIMER || (k == VF_LISTEN && V.sock[V.fd[f].obj].listening), is = FD_ISSET(f, &sgiven) != 0; n += want;
        const char *what = k == VF_SOCK ? "a client" : k == VF_LISTEN ? "the listening socket" : k == VF_TIMER ? "the time change notifier" : "nothing of that kind";
        if (want != is) BAD38(want ? "not-watched" : "watched-for-nothing", "descriptor %d (%s) is%s in the set", f, what, is ? "" : " not");
        if (want && is && f >= snfds) BAD38("above-nfds", "descriptor %d (%s) is above the limit %d given to select()", f, what, snfds); }
    for (int f = VOS_MAXFD; f < FD_SETSIZE; f++) if (FD_ISSET(f, &sgiven)) BAD38("watched-for-nothing", "descriptor %d is in the set", f);
    (void)n;
}
static const int dt38[] = { 0, 50, 65, 560, 620 };
enum { E_CONN, E_CONNU, E_MSG, E_CLOSE, E_TWO, E_CLOSECONN, E_CLOSE2, E_TIMER };
static int ev38, ea38, eb38, fresh38;
static void answer38(int i)
{
    CL38 *c = &c38[i]; vsock *k = &V.sock[c->s]; size_t n = k->out_len; if (k->in_off < k->in_len) BAD38("not-read", "what client %d sent is not read", i);
    if (c->auth) { if (n < 3 || memcmp(k->out + n - 3, "\0\0\0", 3)) BAD38("not-served", "client %d gets no complete answer", i); }
    else if (n != 2 || memcmp(k->out, "0", 2)) BAD38("unauthenticated-served", "client %d, not authenticated, is answered %.*s", i, (int)n, k->out);
    k->out_len = 0; k->in_off = k->in_len = 0; k->nmsg = k->cmsg = 0;
}
static void say(int i) { long w[2] = { 101, c38[i].uid }; vos_client_send(c38[i].s, w, 16); ready(fd_of(c38[i].s)); }
static int isready[NC38];
static int newcl(int auth) { for (int i = 0; i < n38; i++) if (!c38[i].open) { CL38 *c = &c38[i]; c->uid = i % 3 == 0 ? 1001 : i % 3 == 1 ? 0 : 1002; c->s = vos_client_connect(c->uid); c->auth = auth; c->open = 2; c->since = V.now_us / 1000000; c->ord = nord++; noauth38 = !auth; ready(fd_kind(VF_LISTEN)); return i; } return -1; }
static int step38(void)
{
    time_t now = V.now_us / 1000000; int was_fresh = 0;
    if (fresh38) { watched(); fresh38 = 0; was_fresh = 1; }
    else {
        /* what the last event should have done */
        for (int i = 0; i < n38; i++) if (c38[i].open) { CL38 *c = &c38[i]; int fd = fd_of(c->s), lim = c->auth ? MAX_IDLE_TIME : MAX_AUTH_TIME;
            if (c->open == 2) { c->open = 1; if (fd < 0) BAD38("connection-refused", "client %d is not accepted", i); }
            else if (isready[i] == 1) { if (fd < 0) { if (now - c->since <= lim) BAD38("client-dropped", "the connection of client %d is closed", i); } else { answer38(i); if (c->auth) c->since = now; } }
            else if (isready[i] == 2) { if (fd >= 0) BAD38("not-closed", "client %d has disconnected and the daemon keeps the connection", i); }
            else if (snready0_) { int gone = now - c->since > lim; if (gone != (fd < 0)) BAD38(gone ? "idle-not-closed" : "client-dropped", "the connection of client %d is %s after %ld s%s", i, gone ? "kept" : "closed", (long)(now - c->since), c->auth ? "" : " without authentication"); }
            else if (fd < 0) BAD38("client-dropped", "the connection of client %d is closed", i);
            if (fd < 0) { c->open = 0; V.sock[c->s].used = 0; } else if (V.sock[c->s].shut) BAD38("client-dropped", "client %d is shut down", i); }
        for (int f = 0; f < VOS_MAXFD; f++) if (V.fd[f].kind == VF_SOCK) { int k = 0; for (int i = 0; i < n38; i++) k += c38[i].open && c38[i].s == V.fd[f].obj; if (!k) BAD38("descriptor-left", "descriptor %d is still open", f); }
        watched();
    }
    (void)was_fresh; memset(isready, 0, sizeof isready);
    { struct { int o, a, g, fd, rank; } z[NC38]; memset(z, 0, sizeof z); for (int i = 0; i < n38; i++) if (c38[i].open) { long g = now - c38[i].since; z[i].o = 1 + (int)c38[i].uid; z[i].a = c38[i].auth; z[i].g = g > 1300 ? 1300 : g; z[i].fd = fd_of(c38[i].s); for (int j = 0; j < n38; j++) z[i].rank += c38[j].open && c38[j].ord < c38[i].ord; }
      uint64_t h = vos_hash(11, z, sizeof z); mc_outcome(h); if (mc_seen(h, left38_)) mc_done(); }
    if (!left38_--) mc_done();
    int op[NC38], no = 0, nc = 0; for (int i = 0; i < n38; i++) if (c38[i].open) op[no++] = i; else nc = 1;
    int moves = 2 * nc + 2 * no + no * (no - 1) / 2 * 2 + nc * no + 1;
    int d = dt38[mc_choose(5, "time")], m = mc_choose(moves, "event"); advance(d); mc_eval(1); if (d) tr(" +%ds", d);
    if (m < 2 * nc) { int i = newcl(m == 0); tr(" client %d connects%s", i, m ? " (unknown)" : ""); snready0_ = 1; return 1; } m -= 2 * nc; snready0_ = 1;
    if (m < 2 * no) { int i = op[m / 2]; if (m & 1) { V.sock[c38[i].s].eof = 1; isready[i] = 2; ready(fd_of(c38[i].s)); tr(" %d closes", i); } else { say(i); isready[i] = 1; tr(" %d asks", i); } return 1; } m -= 2 * no;
    int np = no * (no - 1) / 2;
    if (m < 2 * np) { int k = m / 2, i, j = 0; for (i = 0; i < no; i++) { for (j = i + 1; j < no; j++) if (!k--) goto got; } got: i = op[i]; j = op[j];
        if (m & 1) { V.sock[c38[i].s].eof = V.sock[c38[j].s].eof = 1; isready[i] = isready[j] = 2; ready(fd_of(c38[i].s)); ready(fd_of(c38[j].s)); tr(" %d and %d close", i, j); }
        else { V.sock[c38[i].s].eof = 1; isready[i] = 2; ready(fd_of(c38[i].s)); say(j); isready[j] = 1; tr(" %d closes as %d asks", i, j); } return 1; } m -= 2 * np;
    if (m < nc * no) { int i = op[m]; int j = newcl(1); V.sock[c38[i].s].eof = 1; isready[i] = 2; ready(fd_of(c38[i].s)); tr(" %d closes as %d connects", i, j); return 1; }
    V.timer_fd_fired = 1; ready(fd_kind(VF_TIMER)); tr(" clock set"); return 1;
}
static void start38(void)
{
    eng_init(); vos_set_time(1706000000); memset(V.proc, 0, sizeof V.proc); V.nproc = 0; vos_fault_hook = fault38; eng_install("alice", "@ 100d a0\n"); eng_install("bob", "@ 100d b0\n"); ntr38 = 0; tr38[0] = 0; noauth38 = 0; neo = 0; fresh38 = 1;
}
static void body38(void *p) { (void)p; static char *av[] = { "fcron", "-f", "-y", "-s", "2000", NULL }; start38(); n38 = mc_thorough ? 4 : 3; left38_ = mc_thorough ? 7 : 6; memset(c38, 0, sizeof c38); nord = 0; dscript = step38; vos_select_hook = yselect; int rc = eng_daemon(av); BAD38("daemon-exits", "the daemon exits with %d", rc); mc_done(); }

/* more clients than the daemon takes, then one of them goes away */
#define NMANY 75
static int many_s[40], many_n, many_gone, many_k, many_item;
static int lst(const char *w) { (void)w; return fd_kind(VF_LISTEN); }
static int nopen(void) { int n = 0; for (int i = 0; i < many_n; i++) n += many_s[i] >= 0 && fd_of(many_s[i]) >= 0; return n; }
static int step_many(void)
{
    watched();
    switch (st38) {
    case 0: if (many_n == 30) { int pend = 0; for (int i = 0; i < 30; i++) pend += !V.sock[many_s[i]].accepted; if (pend && many_k++ < 40) { ready(lst("")); return 1; } st38 = 1; goto one; }
        if (many_item % 3 == 0) { many_s[many_n++] = vos_client_connect(1001); ready(lst("")); return 1; }
        { int to = many_item % 3 == 1 ? 30 : many_n / 10 * 10 + 10; while (many_n < to) { many_s[many_n++] = vos_client_connect(many_n % 2 ? 0 : 1001); } } ready(lst("")); if (many_item % 3 == 2) { int pend = 0; for (int i = 0; i < many_n; i++) pend += !V.sock[many_s[i]].accepted; if (pend) many_k = 0; } return 1;
    one: if (nopen() != 25) BAD38("wrong-number", "%d of 30 clients are connected", nopen());
        for (int i = 0; i < 30; i++) if (!V.sock[many_s[i]].accepted) BAD38("not-accepted", "client %d is left waiting", i);
        { int k = many_item / 3; for (int i = 0; i < 30; i++) if (fd_of(many_s[i]) >= 0 && !k--) many_gone = i; }
        V.sock[many_s[many_gone]].eof = 1; ready(fd_of(many_s[many_gone])); st38 = 2; many_k = 0; return 1;
    case 2: if (many_k == 0) { if (fd_of(many_s[many_gone]) >= 0) BAD38("not-closed", "client %d", many_gone); V.sock[many_s[many_gone]].used = 0; many_s[many_gone] = -1; }
        else { int i = many_k - 1; if (i < 30 && many_s[i] >= 0 && fd_of(many_s[i]) >= 0) { vsock *k = &V.sock[many_s[i]]; mc_eval(1); if (k->out_len < 3 || memcmp(k->out + k->out_len - 3, "\0\0\0", 3)) BAD38("not-served", "client %d is not served after client %d has gone", i, many_gone); } }
        while (many_k < 30 && (many_s[many_k] < 0 || fd_of(many_s[many_k]) < 0)) many_k++;
        if (many_k < 30) { if (nopen() != 24) BAD38("client-dropped", "%d clients are connected", nopen()); long w[2] = { 101, 1001 }; vos_client_send(many_s[many_k], w, 16); ready(fd_of(many_s[many_k])); many_k++; return 1; }
        for (int i = 0; i < 30; i++) if (many_s[i] >= 0 && fd_of(many_s[i]) < 0) { V.sock[many_s[i]].used = 0; many_s[i] = -1; }
        many_s[many_gone] = vos_client_connect(1002); ready(lst("")); st38 = 3; return 1;
    case 3: if (fd_of(many_s[many_gone]) < 0) BAD38("connection-refused", "a client is refused after another has gone"); mc_state(many_item * 7919L); mc_outcome(many_gone); return -1;
    }
    return -1;
}
static void item_many(long it)
{
    static char *av[] = { "fcron", "-f", "-y", "-s", "2000", NULL }; start38(); many_item = it; st38 = 0; many_n = many_k = many_gone = 0; ntr38 = 0; tr("30 clients connect (%s), then one goes", it % 3 == 0 ? "one by one" : it % 3 == 1 ? "all at once" : "ten at once");
    dscript = step_many; vos_select_hook = yselect; int rc = eng_daemon(av); if (rc != -9) BAD38("daemon-exits", "the daemon exits with %d", rc);
}

/* a call on sockets that fails: the daemon goes on, and the others are served */
static int ff_n, ff_k, ff_e, ff_hit, ff_count; static const int ferr[] = { EMFILE, EINTR, ECONNABORTED, ECONNRESET, EAGAIN, EACCES, ENOMEM, EPIPE, EIO, EADDRINUSE }; static char ff_call[40];
#define NFERR 10
static const char *const fcalls[] = { "socket", "bind", "listen", "chmod", "fcntl", "accept", "getsockopt", "recv", "send", "unlink", NULL };
static int fault_sock(const char *c, const char *p)
{
    if (!in_child && !in_tab) for (int i = 0; fcalls[i]; i++) if (!strcmp(c, fcalls[i]) && (strcmp(c, "unlink") && strcmp(c, "chmod") || strstr(p, "fifo"))) { if (ff_n++ == ff_k || ff_n - 1 == ff_e / NFERR) { ff_hit = 1; snprintf(ff_call, 40, "%s", c); tr(" [%s fails: %s]", c, strerror(ferr[ff_e % NFERR])); return ferr[ff_e % NFERR]; } }
    return eng_fault(c, p);
}
static int fs[4], jobs38, served_last;
static int full(int s) { vsock *k = &V.sock[s]; return k->out_len >= 3 && !memcmp(k->out + k->out_len - 3, "\0\0\0", 3); }
static void ask38(int i) { drop_in(fs[i]); long w[2] = { 101, i == 0 ? 1001 : 1002 }; if (fd_of(fs[i]) >= 0) { vos_client_send(fs[i], w, 16); ready(fd_of(fs[i])); } }
static int listening38(void) { int l = fd_kind(VF_LISTEN); return l >= 0 && V.sock[V.fd[l].obj].listening && FD_ISSET(l, &sgiven); }
static int step_fault(void)
{
    int l = fd_kind(VF_LISTEN); if (l >= 0 && !FD_ISSET(l, &sgiven) && V.sock[V.fd[l].obj].listening) BAD38("not-watched", "the listening socket is not watched");
    for (int f = 0; f < VOS_MAXFD; f++) if (FD_ISSET(f, &sgiven) && V.fd[f].kind == VF_FREE) BAD38("closed-watched", "descriptor %d, which is closed, is watched", f);
    for (int f = 0; f < VOS_MAXFD; f++) if ((V.fd[f].kind == VF_SOCK || V.fd[f].kind == VF_TIMER) && (!FD_ISSET(f, &sgiven) || f >= snfds)) BAD38("not-watched", "descriptor %d is not watched", f);
    for (int i = 0; i < neo; i++) if (eo[i].type == 'S') { jobs38++; vos_exit_proc(eo[i].ctrl, 0); } if (neo) { neo = 0; vos_raise(SIGCHLD); return 2; }
    int k = st38++;
    switch (k) {
    case 0: if (!listening38()) { st38 = 6; return step_fault(); } fs[0] = vos_client_connect(1001); ready(fd_kind(VF_LISTEN)); return 1;
    case 1: fs[1] = vos_client_connect(1002); ready(fd_kind(VF_LISTEN)); return 1;
    case 2: if (!V.sock[fs[1]].accepted || !V.sock[fs[0]].accepted) { ready(fd_kind(VF_LISTEN)); return 1; } return step_fault();
    case 3: if (!V.sock[fs[1]].accepted || !V.sock[fs[0]].accepted) { ready(fd_kind(VF_LISTEN)); return 1; } ask38(0); return snready ? 1 : step_fault();
    case 4: ask38(1); return snready ? 1 : step_fault();
    case 5: V.sock[fs[0]].eof = 1; if (fd_of(fs[0]) >= 0) ready(fd_of(fs[0])); return snready ? 1 : step_fault();
    case 6: V.timer_fd_fired = 1; ready(fd_kind(VF_TIMER)); return 1;
    case 7: V.now_us += 1000000LL * stv.tv_sec + stv.tv_usec; return 0;
    case 8: V.now_us += 1000000LL * stv.tv_sec + stv.tv_usec; return 0;
    case 9: case 10: case 11: case 12: case 13: case 14: if (jobs38 < 1 || k < 11) { V.now_us += 1000000LL * stv.tv_sec + stv.tv_usec; return 0; } return step_fault();
    case 15: if (!jobs38) BAD38("job-not-run", "the job which is due is not run");
        if (listening38()) { fs[2] = vos_client_connect(1002); ready(fd_kind(VF_LISTEN)); return 1; } st38 = 20; return step_fault();
    case 16: if (!V.sock[fs[2]].accepted) { ready(fd_kind(VF_LISTEN)); return 1; } return step_fault();
    case 17: if (fd_of(fs[2]) >= 0) { drop_in(fs[2]); long w[2] = { 101, 1002 }; vos_client_send(fs[2], w, 16); ready(fd_of(fs[2])); return 1; } st38 = 20; if (!ff_hit) BAD38("connection-refused", "a client is not accepted"); return step_fault();
    case 18: if (V.sock[fs[2]].in_off < V.sock[fs[2]].in_len && fd_of(fs[2]) >= 0) { ready(fd_of(fs[2])); return 1; } return step_fault();
    case 19: if (fd_of(fs[2]) < 0) BAD38("client-dropped", "a new client is dropped"); else served_last = V.sock[fs[2]].out_len; return step_fault();
    default: vos_raise(SIGTERM); return 2;
    }
}
static void item_fault38(long it)
{
    static char *av[] = { "fcron", "-f", "-y", "-s", "2000", NULL };
    for (long e = it; e < NFERR * (mc_thorough ? 30 : 1); e += 16) for (ff_k = 0; ff_k < 60; ff_k++) {
        if (mc_stop()) return; eng_init(); vos_set_time(1706000000); memset(V.proc, 0, sizeof V.proc); V.nproc = 0; eng_install("alice", "@first(1) 1000 a0\n"); eng_install("bob", "@ 100d b0\n"); ntr38 = 0; tr38[0] = 0; neo = 0; st38 = 0; jobs38 = 0; served_last = -1; ff_n = ff_hit = 0; ff_e = e; if (!mc_thorough || e < NFERR) ff_e = e % NFERR + 999 * NFERR; else ff_e = e; vos_fault_hook = fault_sock; ff_call[0] = 0;
        dscript = step_fault; vos_select_hook = yselect; mc_arm(); int rc = eng_daemon(av); mc_eval(1); mc_state(vos_hash(e * 1000003 + 5, &ff_k, sizeof ff_k)); mc_outcome(vos_hash(served_last + 1, ff_call, strlen(ff_call)));
        if (rc != 0) BAD38("daemon-exits", "the daemon exits with %d", rc);
        if (!ff_hit) { if (served_last < 3) BAD38("not-served", "nothing failed, and the client is not served"); break; } }
}

/* ================================================================ C42: passwords */
typedef struct { const char *name; const char *m; int n; int kind; uid_t uid; } ATT;    /* kind: 1 right, 2 wrong password, 0 other failure */
#define A42(N, M, K, U) { N, M, sizeof(M) - 1, K, U }
static const ATT att[] = {
    A42("right(alice)", "alice\0alicepw\0", 1, 1001), A42("wrong(alice)", "alice\0nopw\0", 2, 0), A42("right(root)", "root\0rootpw\0", 1, 0), A42("wrong(root)", "root\0\0", 2, 0),
    A42("beginning of the password", "alice\0alicep\0", 2, 0), A42("password and more", "alice\0alicepwd\0", 2, 0), A42("other's password", "alice\0bobpw\0", 2, 0), A42("unknown user", "nobody\0alicepw\0", 0, 0), A42("locked user", "carol\0*\0", 0, 0),
    A42("no end of password", "alice\0alicepw", 0, 0), A42("no password", "alice\0", 0, 0), A42("no end of name", "alice", 0, 0), A42("empty", "\0", 0, 0), A42("two empty", "\0\0", 0, 0) };
#define NATT 14
static const int dt42[] = { 0, 61, 30 };
static struct { int a, dt; } seq42[32]; static int nseq42, pre42, same42; static int s42, other42, i42, st42; static int minc, maxc; static time_t minl, maxl;
#define NPRE 18
static char *tr42(void) { static char b[900]; int k = 0; b[0] = 0; for (int i = 0; i <= i42 && i < nseq42 && k < 850; i++) { if (i < pre42 && i > 1 && i < pre42 - 1) continue; k += snprintf(b + k, 900 - k, "%s%s%s", i ? ", " : "", seq42[i].dt ? "later " : "", att[seq42[i].a].name); if (i == 1 && pre42 > 3) k += snprintf(b + k, 900 - k, "... (%d)", pre42); } if (same42) snprintf(b + k, 900 - k, same42 == 1 ? " (same connection)" : " (two connections)"); return b; }
#define BAD42(S, ...) do { char m_[400]; snprintf(m_, 400, __VA_ARGS__); mc_violation(S, "%s: %s", tr42(), m_); } while (0)
static int fault42(const char *c, const char *p) { if (!in_child && !strcmp(c, "getsockopt")) return ENOPROTOOPT; return eng_fault(c, p); }
static int step42(void)
{
    time_t now = V.now_us / 1000000;
    switch (st42) {
    case 0: if (i42 == nseq42) return -1; advance(seq42[i42].dt); if (same42 == 2 && pre42 < NPRE + 1) { int t = s42; s42 = other42; other42 = t; } if (!same42 || s42 < 0 || fd_of(s42) < 0) { if (s42 >= 0) { V.sock[s42].eof = 1; if (fd_of(s42) >= 0) { ready(fd_of(s42)); } else V.sock[s42].used = 0; } st42 = 1; if (snready) return 1; } else { st42 = 2; return step42(); } /* fall through */
    case 1: if (s42 >= 0) { V.sock[s42].used = 0; } s42 = vos_client_connect(1005); ready(fd_kind(VF_LISTEN)); st42 = 2; return 1;
    case 2: if (fd_of(s42) < 0) { BAD42("connection-refused", "the connection is not accepted"); return -1; } drop_in(s42); vos_client_send(s42, att[seq42[i42].a].m, att[seq42[i42].a].n); ready(fd_of(s42)); st42 = 3; return 1;
    case 3: { const ATT *a = &att[seq42[i42].a]; vsock *k = &V.sock[s42]; mc_eval(1); if (minc && now - minl >= 60) minc = 0; if (maxc && now - maxl > 60) maxc = 0;
        int yes = k->out_len == 2 && !memcmp(k->out, "1", 2), no = k->out_len == 2 && !memcmp(k->out, "0", 2);
        if (other42 >= 0 && fd_of(other42) >= 0 && V.sock[other42].out_len) BAD42("told-without-asking", "the other client is sent something");
        if (!yes && !no) { BAD42("answer", "the answer is %zu bytes: %.*s", k->out_len, (int)k->out_len, k->out_len ? (char *)k->out : ""); return -1; }
        if (yes && a->kind != 1) BAD42("authenticated", "%s is authenticated", a->name);
        if (yes && minc >= 10) BAD42("not-throttled", "%s is accepted %ld s after %d failures", a->name, (long)(now - minl), minc);
        if (no && a->kind == 1 && maxc < 10) BAD42("refused", "%s is refused after %d failures", a->name, maxc);
        if (a->kind == 2 && minc < 10) { minc++; minl = now; } if (no) { maxc++; maxl = now; }
        mc_outcome((minc * 16 + maxc) * 8 + yes * 4 + a->kind);
        drop_in(s42); long w[2] = { 101, yes ? (long)a->uid : 1001 }; if (same42 && !yes) { i42++; st42 = 0; return step42(); } vos_client_send(s42, w, 16); ready(fd_of(s42)); st42 = yes ? 4 : 5; return 1; }
    case 4: { vsock *k = &V.sock[s42]; const ATT *a = &att[seq42[i42].a]; int own = 0; for (size_t i = 0; i + 2 < k->out_len; i++) if (!memcmp(k->out + i, a->uid ? "|a0" : "No ", 3)) own = 1;
        if (k->out_len < 3 || memcmp(k->out + k->out_len - 3, "\0\0\0", 3) || !own) BAD42("not-served", "after authentication the list of jobs is not given");
        if (same42) { V.sock[s42].eof = 1; ready(fd_of(s42)); st42 = 6; return 1; } i42++; st42 = 0; return step42(); }
    case 5: { vsock *k = &V.sock[s42]; if (k->out_len != 2 || memcmp(k->out, "0", 2)) BAD42("unauthenticated-served", "a client which is not authenticated is answered %.*s", (int)k->out_len, k->out); maxc++; maxl = now; i42++; st42 = 0; return step42(); }
    case 6: V.sock[s42].used = 0; s42 = -1; i42++; st42 = 0; return step42();
    }
    return -1;
}
/* prefix of failures x first attempt of the sequence */
#define C42_ITEMS (NPRE * NATT * 3)
static void run42(void)
{
    static char *av[] = { "fcron", "-f", "-y", "-s", "2000", NULL }; for (int i = 0; i < 32; i++) V.sock[i].used = 0; for (int i = 0; i < VOS_MAXFD; i++) if (V.fd[i].kind == VF_SOCK || V.fd[i].kind == VF_LISTEN) V.fd[i].kind = VF_FREE;
    vos_set_time(1706000000); V.mono_us = V.boot_us = V.now_us; s42 = other42 = -1; i42 = st42 = 0; minc = maxc = 0; minl = maxl = 0; neo = 0; vos_rmfile("/var/run/fcron.fifo"); mc_arm();
    dscript = step42; vos_select_hook = yselect; int rc = eng_daemon(av); if (rc != -9) BAD42("daemon-exits", "the daemon exits with %d", rc);
}
static void item_42(long it)
{
    int pre = it % NPRE, a0 = it / NPRE % NATT, d0 = it / NPRE / NATT; eng_init(); vos_set_time(1706000000); memset(V.proc, 0, sizeof V.proc); V.nproc = 0; vos_fault_hook = fault42; eng_install("alice", "@ 100d a0\n");
    int L = strstr(mc_arg, "mem") && !mc_thorough ? 2 : 3; if (!mc_thorough && ((pre > 1 && pre < 8) || pre > 12)) L = 2; int gap = 0;
    for (gap = 0; gap < (pre > 10 ? 3 : pre > 1 ? 2 : 1); gap++) for (same42 = 0; same42 < 3; same42++) {
        long n = 1; for (int i = 1; i < L; i++) n *= NATT * 3;
        for (long k = 0; k < n; k++) { if (mc_stop()) return; nseq42 = 0; for (int i = 0; i < pre; i++) { seq42[nseq42].a = i % 3 == 2 ? 3 : i % 5 == 4 ? 4 : 1; seq42[nseq42++].dt = gap == 1 && i ? 7 : gap == 2 && i == 10 ? 61 : 0; } pre42 = pre;
            seq42[nseq42].a = a0; seq42[nseq42++].dt = dt42[d0]; long z = k; for (int i = 1; i < L; i++) { seq42[nseq42].a = z % NATT; z /= NATT; seq42[nseq42++].dt = dt42[z % 3]; z /= 3; }
            run42(); { uint64_t h = vos_hash(it * 1000003 + 1, &k, sizeof k); h = vos_hash(h, &gap, sizeof gap); mc_state(vos_hash(h, &same42, sizeof same42)); } } }
}

/* ================================================================ C37: rows of any length */
static char cmd37[4][1000]; static int len37, st37, id37[4];
#define BAD37(S, ...) do { char m_[600]; snprintf(m_, 600, __VA_ARGS__); mc_violation(S, "commands of %d characters, %s: %s", len37, what37, m_); } while (0)
static const char *what37 = "";
static const struct { const char *name; long w[2]; int job, seen; } ask37[] = { { "ls", { 101, -1 }, -1 }, { "ls of alice", { 101, 1001 }, -1 }, { "ls_lavgq", { 102, 1001 }, 0 }, { "ls_lavgq -all", { 102, -1 }, 0 }, { "ls_serialq", { 103, 1001 }, 2 }, { "ls_serialq -all", { 103, -1 }, 2 }, { "ls_exeq", { 104, 1001 }, 8 }, { "ls_exeq -all", { 104, -1 }, 8 }, { "detail", { 105, 0 }, 4 } };
static int k37;
static void rows37(unsigned mask)
{
    vsock *k = &V.sock[ks[0]]; size_t l = k->out_len; if (l < 3 || memcmp(k->out + l - 3, "\0\0\0", 3)) { BAD37("answer-not-ended", "no end marker"); return; } l -= 3; unsigned got = 0;
    for (size_t i = 0; i < l;) { size_t j = i; while (j < l && k->out[j] && k->out[j] != '\n') j++; char r[1400]; snprintf(r, sizeof r, "%.*s", (int)(j - i), k->out + i); int nl = j < l && k->out[j] == '\n'; i = j + 1; if (r[0] < '0' || r[0] > '9') continue;
        char *c = strrchr(r, '|'); if (!c || !nl) { BAD37("row-malformed", "'%.80s'", r); continue; } int w = c[1] - 'a'; if (w < 0 || w > 3 || got >> w & 1 || !(mask >> w & 1)) { BAD37("row-unexpected", "'%.80s'", r); continue; } got |= 1 << w; id37[w] = atoi(r);
        size_t m = strlen(c + 1); static const char T[] = " (truncated)"; size_t head = c + 1 - r;
        if (!strcmp(c + 1, cmd37[w])) continue;
        if (m > sizeof T - 1 && !strcmp(c + 1 + m - (sizeof T - 1), T)) { if (strncmp(c + 1, cmd37[w], m - (sizeof T - 1))) BAD37("row-malformed", "'%s' is not the beginning of the command", r); else if (head + len37 < 190) BAD37("row-truncated", "'%s' would have fitted", r); else if (strlen(r) < 185) BAD37("row-truncated", "only %zu characters are given", strlen(r)); }
        else BAD37("row-malformed", "'%s' is neither the command nor its beginning with a mark", r); }
    if (got != mask) BAD37("row-missing", "jobs %x instead of %x are listed", got, mask);
    mc_eval(1); mc_outcome(len37 * 16 + k37);
}
static int runs37;
static int step37(void)
{
    switch (st37) {
    case 0: connect36(0); st37 = 1; return 1;
    case 1: what37 = "ls"; drop_in(ks[0]); { long w[2] = { 101, -1 }; push(0, w, 16); } st37 = 2; runs37 = 0; return 1;
    case 2: if (runs37 == 0) rows37(15); if (runs37 < 4) { static const int o[] = { 0, 3, 2, 1 }; long w[2] = { 302, id37[o[runs37++]] }; drop_in(ks[0]); push(0, w, 16); return 1; }
        st37 = 3; k37 = 0; /* fall through */
    case 3: if (k37) { what37 = ask37[k37 - 1].name; int j = ask37[k37 - 1].job; rows37(j < 0 ? 15 : j == 0 ? 1 : j == 2 ? 2 : j == 8 ? 12 : 8); }
        if (k37 == 9) return -1; { long w[2] = { ask37[k37].w[0], ask37[k37].w[1] }; if (w[0] == 105) w[1] = id37[3]; k37++; drop_in(ks[0]); push(0, w, 16); return 1; }
    }
    return -1;
}
static void item_37(long it)
{
    static char *av[] = { "fcron", "-f", "-y", "-s", "2000", NULL };
    for (len37 = it * 10 + 1; len37 <= it * 10 + 10; len37++) { if (mc_stop()) return;
        eng_init(); vos_set_time(1706000000); memset(V.proc, 0, sizeof V.proc); V.nproc = 0; for (int j = 0; j < 4; j++) { for (int i = 0; i < len37; i++) cmd37[j][i] = i % 10 == 9 ? 'A' + i / 10 % 26 : "0123456789"[i % 10]; cmd37[j][0] = 'a' + j; cmd37[j][len37] = 0; }
        char t[5000]; snprintf(t, sizeof t, "@lavg1(0.1) 100d %s\n@serial 100d %s\n@serial 100d %s\n@ 100d %s\n", cmd37[0], cmd37[1], cmd37[2], cmd37[3]); V.load[0] = V.load[1] = V.load[2] = 5; eng_install("alice", t);
        /* d runs, c runs (serial), b waits for c, a waits for the load average */
        st37 = 0; dscript = step37; vos_select_hook = yselect; neo = 0; mc_arm(); int rc = eng_daemon(av); mc_state(len37 * 1000003L); if (rc != -9) BAD37("daemon-exits", "status %d", rc); V.load[0] = V.load[1] = V.load[2] = 0; }
}
