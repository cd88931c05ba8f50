/* the properties of job_D.c */
typedef struct { const char *owner, *opts, *runas, *cmd, *env[4], *tz, *confshell; int nenv, bg, clients, nice, negroot; } kase;
static vuser *pw_of(const char *n) { for (int i = 0; i < vos_nusers; i++) if (!strcmp(vos_users[i].name, n)) return &vos_users[i]; return NULL; }
static char conf_extra[1200];
static void put_conf(const char *shell) { char b[1500]; int n = 0; if (shell) n += sprintf(b, "shell = %s\n", shell); n += sprintf(b + n, "%s", conf_extra); vos_put("/etc/fcron.conf", b, n, 0, 200, 0640); }
static char ktext[70000]; static int klen;
/* install a text for a user with the real fcrontab, the way that user does it */
static int put_tab(const char *owner, const char *text, int len)
{
    vuser *u = pw_of(owner); vos_put("/tmp/tab", text, len, u ? u->uid : 0, u ? u->gid : 0, 0644); int rc;
    if (u && u->uid) rc = eng_fcrontab(u->uid, u->gid, "/tmp/tab", NULL); else rc = eng_fcrontab(0, 0, "-u", owner, "/tmp/tab", NULL);
    vos_rmfile("/tmp/tab"); return rc;
}
static char *kshow(const kase *k) { static char b[1500]; snprintf(b, sizeof b, "%s's fcrontab \"%.900s\"%s%s%s%s", k->owner, ktext, k->confshell ? ", shell of fcron.conf: " : "", k->confshell ? k->confshell : "", k->bg ? ", in the background" : ", in the foreground", k->clients ? ", with clients" : ""); return b; }
#define BADK(sig, ...) do { char m_[600]; snprintf(m_, sizeof m_, __VA_ARGS__); mc_violation(sig, "%s: %s", m_, kshow(k)); } while (0)
static void kcreds(const kase *k, const rec *r, const char *who, const char *what)
{
    vuser *u = pw_of(who); if (!u) { BADK("runs for nobody", "%s is run for %s who does not exist", what, who); return; }
    for (int i = 0; i < 3; i++) if (r->u[i] != u->uid || r->g[i] != u->gid) { char s[80]; snprintf(s, 80, "%s: %s", what, r->u[i] != u->uid ? "user" : "group"); BADK(s, "%s runs as uid %d/%d/%d gid %d/%d/%d, %s is %d, %d", what, r->u[0], r->u[1], r->u[2], r->g[0], r->g[1], r->g[2], who, u->uid, u->gid); return; }
    if (r->ng != 2 || r->groups[0] != u->gid || r->groups[1] != u->gid + 5000) { char s[80]; snprintf(s, 80, "%s: supplementary groups", what); BADK(s, "%s has %d supplementary groups (%d %d), not those of %s", what, r->ng, r->groups[0], r->groups[1], who); }
}
/* ---------------------------------------------------------------- C31 */
typedef struct { const char *line, *name, *val; } envl;
static const envl EV[] = { { "SHELL=/bin/bash", "SHELL", "/bin/bash" }, { "SHELL = /bin/none", "SHELL", "/bin/none" }, { "SHELL=/bin/noexec", "SHELL", "/bin/noexec" }, { "SHELL=", "SHELL", "" }, { "HOME=/srv/work", "HOME", "/srv/work" },
    { "HOME=/nowhere", "HOME", "/nowhere" }, { "PATH=/x:/y", "PATH", "/x:/y" }, { "USER=root", NULL, NULL }, { "LOGNAME=root", NULL, NULL }, { "A=1", "A", "1" }, { "A = \"2 \"", "A", "2 " }, { "AB=3", "AB", "3" }, { "A_=", "A_", "" }, { "HOMES=h", "HOMES", "h" },
    { "USERX=u", "USERX", "u" }, { "US=u", "US", "u" }, { "EQ=a=b", "EQ", "a=b" }, { "SHEL=s", "SHEL", "s" }, { "IFS='x y'", "IFS", "x y" }, { "LD_PRELOAD=/tmp/x", "LD_PRELOAD", "/tmp/x" }, { "TZ=Asia/Tokyo", "TZ", "Asia/Tokyo" }, { "PAMVAR=mine", "PAMVAR", "mine" } };
#define NEV ((int)(sizeof EV / sizeof *EV))
static const char *CMD[] = { "job", "echo \"a b\"  'c'  $HOME | cat >/dev/null; x && y", "a%b\\c*?[x]~{}()<>&#!", "-c", "sh -c 'x'", "j\tj", "exec 1>&2;echo \303\251\377" };
static void make_ktext(kase *k)
{
    klen = 0; for (int i = 0; i < k->nenv; i++) klen += sprintf(ktext + klen, "%s\n", k->env[i]);
    klen += sprintf(ktext + klen, "@%s%s%s%s%s%s%s%s%s 1 %s\n", k->opts ? k->opts : "", k->runas ? k->opts && *k->opts ? ",runas(" : "runas(" : "", k->runas ? k->runas : "", k->runas ? ")" : "", "", k->tz ? (k->opts && *k->opts) || k->runas ? ",timezone(" : "timezone(" : "", k->tz ? k->tz : "", k->tz ? ")" : "", "", k->cmd);
}
typedef struct { const char *n, *v; } ent; static ent want_[60]; static int nwant;
static void wset(const char *n, const char *v) { for (int i = 0; i < nwant; i++) if (!strcmp(want_[i].n, n)) { want_[i].v = v; return; } want_[nwant].n = n; want_[nwant++].v = v; }
static const char *wget(const char *n) { for (int i = 0; i < nwant; i++) if (!strcmp(want_[i].n, n)) return want_[i].v; return NULL; }
static int runs_ok(const char *sh) { vinode *n = vos_file(sh); return n && (n->mode & 0111) && S_ISREG(n->mode); }
static void check_c31(kase *k, const int *evi)
{
    jsetup(); put_conf(k->confshell); make_ktext(k); static outcome oc; oc.out = ""; oc.outlen = 0; oc.status = 0; outc = &oc; noutc = 0;
    mc_ctx = ktext; mc_ctxlen = klen;
    put_tab(k->owner, ktext, klen); start_job(k->bg, k->clients); mc_eval(1);
    const char *who = k->runas ? k->runas : !strcmp(k->owner, "systab") ? "root" : k->owner; vuser *u = pw_of(who); rec *r = find_rec('S', -1);
    mc_state(vos_hash(vos_hash(k->bg * 2 + k->clients + 77, ktext, klen), k->confshell ? k->confshell : "-", k->confshell ? strlen(k->confshell) : 1));
    if (!sent) { BADK("never started", "the job is not started"); return; }
    if (!r) { rec *e = nR ? &R[0] : NULL; BADK("not executed", "the command is not executed (%c %d %s)", e ? e->kind : '-', e ? e->code : 0, e && e->log ? e->log : ""); return; }
    const char *conf = k->confshell ? k->confshell : ""; nwant = 0; const char *def = conf[0] ? conf : u->shell[0] ? u->shell : "/bin/sh";
    wset("USER", u->name); wset("LOGNAME", u->name); wset("HOME", u->home); wset("PATH", "/usr/bin:/bin"); if (k->tz) wset("TZ", k->tz); wset("SHELL", def); wset("PAMVAR", "1");
    for (int i = 0; i < k->nenv; i++) if (EV[evi[i]].name) wset(EV[evi[i]].name, EV[evi[i]].val);
    const char *sh = wget("SHELL"); if (!sh[0] || !runs_ok(sh)) { sh = def; wset("SHELL", sh); }
    const char *home = wget("HOME"); int hi = vos_lookup(home); const char *cwd = hi >= 0 ? home : "/";
    if (strcmp(r->path, sh) || r->nargs != 3 || strcmp(r->args[0], sh)) BADK("shell", "%s is executed with %d arguments as \"%s\" instead of %s -c", r->path, r->nargs, r->nargs ? r->args[0] : "", sh);
    else if (strcmp(r->args[1], "-c") || strcmp(r->args[2], k->cmd)) BADK("command", "executed: %s \"%s\" instead of -c \"%s\"", r->args[1], r->args[2], k->cmd);
    if (strcmp(r->cwd, cwd)) BADK("directory", "in %s instead of %s", r->cwd, cwd);
    for (int i = 0; i < nwant; i++) { int c = 0, same = 0; for (int j = 0; j < r->nenv; j++) { size_t l = strlen(want_[i].n); if (!strncmp(r->env[j], want_[i].n, l) && r->env[j][l] == '=') { c++; same = !strcmp(r->env[j] + l + 1, want_[i].v); } }
        if (c != 1 || !same) { char s[60]; snprintf(s, 60, "variable %s", want_[i].n); if (k->tz && !strcmp(want_[i].n, "TZ") && c == 1) continue; BADK(s, c == 0 ? "%s=%s is not set" : c > 1 ? "%s=%s is set more than once" : "%s is not %s", want_[i].n, want_[i].v); } }
    if (r->nenv != nwant) for (int j = 0; j < r->nenv; j++) { int f = 0; for (int i = 0; i < nwant; i++) { size_t l = strlen(want_[i].n); if (!strncmp(r->env[j], want_[i].n, l) && r->env[j][l] == '=') f = 1; } if (!f) { BADK("other variable", "\"%s\" is in the environment", r->env[j]); break; } }
    int wn = k->nice; if (r->nice != wn) BADK("nice", "nice value %d instead of %d", r->nice, wn);
    if (r->umask != 022) BADK("umask", "umask %o", r->umask);
    if (r->sigs[0]) BADK("signals", "signals: %s", r->sigs);
    int mail = !k->opts || !strstr(k->opts, "mail(no)"), tostd = !k->bg && k->opts && strstr(k->opts, "stdout"); const char *fds = tostd ? "0:null 1:std 2:std " : mail ? "0:null 1:pipe-w(out) 2:pipe-w(out) " : "0:null 1:null 2:null ";
    if (strcmp(r->fds, fds)) BADK("descriptors", "open descriptors: %s; expected %s", r->fds, fds);
    kcreds(k, r, who, "the job"); mc_outcome(vos_hash(vos_hash(7, sh, strlen(sh)), cwd, strlen(cwd)) + r->nenv * 31 + r->nice);
}
static const char *OPT[] = { NULL, "mail(no)", "stdout", "nice(7)", "nice(19)", "nolog", "stdout,mail(no)", "forcemail,nice(1)", "nice(-5)", "stdout,nice(-20)" }; static const int ONICE[] = { 0, 0, 0, 7, 19, 0, 0, 1, -5, -20 };
static const char *OWN[] = { "alice", "carol", "root", "systab" };
static const char *CSH[] = { NULL, "/bin/zsh", "", "/bin/none", "/bin/noexec" };
static int mem31;
static void item31(long it)
{
    kase k; int e[4]; int depth = mc_thorough ? 3 : 2;
    /* sequences of assignments */
    int a = it % (NEV + 1), part = it / (NEV + 1);
    if (part < 2) {
        for (int b = 0; b <= NEV; b++) for (int c = depth > 2 ? 0 : NEV; c <= NEV; c++) {
            if ((a == NEV && b < NEV) || (b == NEV && c < NEV)) continue;
            if (mc_stop()) return; memset(&k, 0, sizeof k); k.cmd = CMD[0]; k.owner = OWN[part]; k.bg = (a + b + c) % 2;
            int s[3] = { a, b, c }; for (int i = 0; i < 3; i++) if (s[i] < NEV) { e[k.nenv] = s[i]; k.env[k.nenv++] = EV[s[i]].line; }
            check_c31(&k, e); }
        return;
    }
    /* one assignment (or none) x every other dimension */
    int o = part - 2;
    for (int w = ONICE[o] < 0 ? 2 : 0; w < 4; w++) for (int ru = 0; ru < (w >= 2 ? 3 : 1); ru++) for (int cs = 0; cs < 5; cs++) for (int c = 0; c < (mc_thorough ? 7 : 2); c++) for (int tz = 0; tz < 2; tz++) for (int bg = 0; bg < 2; bg++) for (int cl = 0; cl < 3; cl++) {
        if (!mc_thorough && ((cs && tz) || (cl && (cs || tz)) || (c && (cs || cl)))) continue;
        if (mc_stop()) return; memset(&k, 0, sizeof k); k.cmd = CMD[mc_thorough ? c : c * 2 + a % 5]; k.owner = OWN[w]; k.runas = ru ? OWN[ru - 1] : NULL; k.confshell = CSH[cs]; k.tz = tz ? "Europe/Paris" : NULL; k.bg = bg; k.clients = cl; k.opts = OPT[o]; k.nice = ONICE[o];
        if (a < NEV) { e[0] = a; k.env[0] = EV[a].line; k.nenv = 1; }
        check_c31(&k, e); }
}
/* ---------------------------------------------------------------- C32 */
typedef struct { const char *opts; int mail, force, erronly, nolog, tostd; const char *to, *from; } mopt;
static const mopt MO[] = { { NULL, 1 }, { "mail(no)", 0 }, { "forcemail", 1, 1 }, { "erroronlymail", 1, 0, 1 }, { "nolog", 1, 0, 0, 1 }, { "mailto(bob)", 1, 0, 0, 0, 0, "bob" }, { "mailto(a@b.c)", 1, 0, 0, 0, 0, "a@b.c" }, { "mailto()", 0 },
    { "mailfrom(carol)", 1, 0, 0, 0, 0, NULL, "carol" }, { "mailfrom(x@y.z)", 1, 0, 0, 0, 0, NULL, "x@y.z" }, { "stdout", 1, 0, 0, 0, 1 }, { "forcemail,mail(no)", 0 }, { "mail(no),forcemail", 1, 1 }, { "forcemail(no),erroronlymail,nolog", 1, 0, 1, 1 }, { "mail(no),nolog", 0, 0, 0, 1 },
    { "stdout,forcemail", 1, 1, 0, 0, 1 }, { "erroronlymail(no)", 1 }, { "mailto(bob),mailfrom(x@y.z),nolog,forcemail", 1, 1, 0, 1, 0, "bob", "x@y.z" } };
#define NMO ((int)(sizeof MO / sizeof *MO))
/* assignments before the line which change what is mailed */
typedef struct { const char *text, *to, *from, *ct, *cte; int off, on; } mpre;
static const mpre MP[] = { { "" }, { "MAILTO=carol\n", "carol" }, { "MAILTO=\n", NULL, NULL, NULL, NULL, 1 }, { "MAILFROM=fr\n", NULL, "fr" }, { "CONTENT_TYPE=text/html\n", NULL, NULL, "text/html" }, { "CONTENT_TRANSFER_ENCODING=8bit\n", NULL, NULL, NULL, "8bit" },
    { "MAILTO=carol@x\nMAILFROM=f@g\nCONTENT_TYPE=a/b; c=d\nCONTENT_TRANSFER_ENCODING=base64\n", "carol@x", "f@g", "a/b; c=d", "base64" }, { "!mailto(carol)\n", "carol" }, { "(many)" } };
static const int STAT[] = { 0, 1 << 8, 255 << 8, 9, 11 | 0x80, 2 << 8 };
static outcome OC[90]; static int NOC; static char *outs[16]; static size_t outl[16]; static int nouts;
static void addout(const char *s, size_t n) { outs[nouts] = malloc(n + 1); memcpy(outs[nouts], s, n); outs[nouts][n] = 0; outl[nouts++] = n; }
static void make_outs(void)
{
    static char b[70000]; addout("", 0); addout("x", 1); addout("\n", 1); addout("two\nlines\n", 10); addout("a\0b\nc\0\nd", 8); addout("\0", 1); addout("\0\n", 2);
    memset(b, 'a', 70000); addout(b, 194); addout(b, 195); addout(b, 196); b[194] = '\n'; addout(b, 390); b[194] = 0; addout(b, 600); b[194] = 'a'; for (int i = 0; i < 70000; i++) b[i] = (i * i / 7) % 251; addout(b, 70000); addout("\xff\xfe. \n.\nFrom x\n", 15);
}
static int has_line(const char *log, int maxlev, const char *a) { for (const char *p = log; *p; ) { const char *e = strchr(p, '\n'); if (!e) e = p + strlen(p); char l[700]; snprintf(l, sizeof l, "%.*s", (int)(e - p < 690 ? e - p : 690), p); if (atoi(l) <= maxlev && strstr(l, a)) return 1; p = *e ? e + 1 : e; } return 0; }
#define BADO(sig, ...) do { char m_[500]; snprintf(m_, sizeof m_, __VA_ARGS__); mc_violation(sig, "%s; output of %zu bytes, status %x: %s", m_, o->outlen, o->status, kshow(k)); } while (0)
static const char *ownname(const char *o) { return !strcmp(o, "systab") ? "systab" : o; }
static const char *dname, *dhost;                 /* C34: display name as it should appear, host name ("": none) */
static int nohost(const char *c, const char *p) { (void)p; return strcmp(c, "gethostname") ? 0 : EIO; }
static void check_c32(kase *k, const mopt *mo, const mpre *mp)
{
    jsetup(); put_conf("/bin/sh"); char at[200] = "@vhost", at2[200] = "@vhost"; if (dhost) { if (*dhost) { snprintf(at, sizeof at, "@%s", dhost); strcpy(at2, at); snprintf(V.host, sizeof V.host, "%s", dhost); } else { at[0] = 0; strcpy(at2, "@?"); vos_fault_hook = nohost; } } char pre[60000]; int pn = 0;
    if (mp->text[0] == '(') for (int i = 0; i < 40; i++) { pn += sprintf(pre + pn, "V%d=", i); memset(pre + pn, 'v', 880); pn += 880; pre[pn++] = '\n'; } else pn = sprintf(pre, "%s", mp->text); pre[pn] = 0;
    k->opts = mo->opts; make_ktext(k); memmove(ktext + pn, ktext, klen + 1); memcpy(ktext, pre, pn); klen += pn; outc = OC; noutc = NOC;
    put_tab(k->owner, ktext, klen); start_job(k->bg, 0);
    const char *who = k->runas ? k->runas : !strcmp(k->owner, "systab") ? "root" : k->owner; rec *s = find_rec('S', -1);
    if (!sent) { BADK("never started", "the job is not started"); return; }
    if (!s) { BADK("not executed", "the command is not executed"); return; }
    int mailon = mo->mail; if (mp->off && !mo->to && !mo->force) mailon = 0;
    int tostd = mo->tostd && !k->bg; const char *to = mo->to ? mo->to : mp->to ? mp->to : !strcmp(k->owner, "systab") ? "root" : k->owner, *from = mo->from ? mo->from : mp->from ? mp->from : who;
    for (int v = 0; v < NOC; v++) {
        outcome *o = &OC[v]; rec *m = find_rec('M', v), *e = find_rec('E', v), *c = find_rec('C', v); mc_eval(1); mc_state(vos_hash(vos_hash(vos_hash(v + 1000 * k->bg + 77, ktext, klen), k->owner, 3), conf_extra, strlen(conf_extra)) * 31 + (dhost ? *dhost : 1));
        int bad = o->status != 0, want = mailon && !tostd && (mo->force || (o->outlen && !mo->erronly) || bad), amb = mo->force && mo->erronly && !bad;
        if (c || (!m && !e)) { BADO("crash", "the process that waits for the job died (%x)", c ? c->code : 0); continue; }
        mc_outcome(want * 100000 + (o->outlen != 0) * 10000 + bad * 1000 + mailon * 100 + mo->force * 10 + mo->erronly);
        rec *l = m ? m : e; const char *log = l->log;
        if (!mo->nolog && !bad && !has_line(log, 5, k->cmd)) BADO("not logged", "nothing is logged for the job");
        if (bad && !has_line(log, 4, k->cmd)) BADO("error not logged", "the abnormal end of the job is not logged");
        if (mo->nolog && !bad && has_line(log, 5, k->cmd)) BADO("logged", "logged in spite of nolog: %s", log);
        if (!amb && want != !!m) { char g[80]; snprintf(g, 80, want ? "no mail%s" : "mail not wanted%s", mp->text[0] == '(' ? " (many variables)" : ""); BADO(g, want ? "no mail is sent" : "a mail is sent"); continue; }
        if (!m) continue;
        if (strcmp(m->path, "/usr/sbin/sendmail") || m->nargs < 2 || strcmp(m->args[m->nargs - 1], to)) BADO("recipient", "mailer %s, to %s instead of %s", m->path, m->nargs ? m->args[m->nargs - 1] : "", to);
        kcreds(k, m, who, "the mailer"); if (m->inoff) BADO("input", "the mailer's input starts at %zu", m->inoff);
        if (strncmp(m->fds, "0:file ", 7) || strstr(m->fds, "listen") || strstr(m->fds, "pipe")) BADO("descriptors", "the mailer's descriptors: %s", m->fds);
        /* the message */
        size_t b = 0; while (b + 1 < m->inlen && !(m->in[b] == '\n' && m->in[b + 1] == '\n')) b++; if (b + 1 >= m->inlen) { BADO("headers", "no end of headers"); continue; }
        char *h = malloc(b + 2); memcpy(h, m->in, b + 1); h[b + 1] = 0; const char *body = m->in + b + 2; size_t bl = m->inlen - b - 2; char w[2000];
        int nh = 0; for (char *p = h; *p; p++) nh += *p == '\n';
        #define HDR(sig, ...) do { snprintf(w, sizeof w, __VA_ARGS__); size_t wl = strlen(w); char *f = h; int n = 0; while (*f) { if (!strncmp(f, w, wl)) n++; f = strchr(f, '\n'); if (!f) break; f++; } if (n != 1) BADO(sig, "header \"%.*s\" %d times", (int)wl - 1 < 300 ? (int)wl - 1 : 300, w, n); nh--; } while (0)
        const char *fa = strchr(from, '@') ? "" : at; int dn = dname && strlen(dname) + strlen(from) + strlen(fa) + 3 <= 998 - 7;
        HDR("From", dn ? "From: %s <%s%s>\n" : "From: %s%s (fcron)\n", dn ? dname : from, dn ? from : fa, fa); HDR("To", "To: %s%s\n", to, strchr(to, '@') ? "" : at); HDR("Subject", "Subject: fcron <%s%s> %s\n", ownname(k->owner), at2, k->cmd);
        HDR("Content-Type", mp->ct ? "Content-Type: %s\n" : "Content-Type: text/plain; charset=%s\n", mp->ct ? mp->ct : strstr(h, "charset=US-ASCII") ? "US-ASCII" : nl_langinfo(CODESET)); if (mp->cte) HDR("Content-Transfer-Encoding", "Content-Transfer-Encoding: %s\n", mp->cte); HDR("Auto-Submitted", "Auto-Submitted: auto-generated\n");
        for (int i = 0; i < s->nenv; i++) HDR("X-Cron-Env", "X-Cron-Env: <%s>\n", s->env[i]);
        if (nh) BADO("headers", "%d headers more than expected: %.300s", nh, h); free(h);
        if (bl < o->outlen || memcmp(body, o->out, o->outlen)) { size_t d = 0; while (d < bl && d < o->outlen && body[d] == o->out[d]) d++; BADO("output", "the mail has %zu bytes for the output, different from byte %zu on", bl, d); }
        else if (!bad && bl != o->outlen) BADO("more output", "the mail has %zu bytes more than the output", bl - o->outlen);
        else if (bad) { char t[40]; snprintf(t, 40, "%d", WIFEXITED(o->status) ? WEXITSTATUS(o->status) : WTERMSIG(o->status)); char *x = strndup(body + o->outlen, bl - o->outlen); if (!strstr(x, t) || !strstr(x, k->cmd)) BADO("status", "the mail does not tell the status: \"%s\"", x); free(x); }
        if (m->nenv < 4) BADO("mailer environment", "the mailer has %d variables", m->nenv);
    }
}
static void item32(long it)
{
    kase k; int mi = it % NMO, pi = it / NMO; if (!nouts) { make_outs(); for (int a = 0; a < nouts; a++) for (int b = 0; b < 6; b++) { OC[NOC].out = outs[a]; OC[NOC].outlen = outl[a]; OC[NOC++].status = STAT[b]; } }
    for (int w = 0; w < 4; w++) for (int ru = 0; ru < (w >= 2 ? 3 : 1); ru++) for (int bg = 0; bg < 2; bg++) {
        if (mc_stop()) return; memset(&k, 0, sizeof k); k.cmd = "job x"; k.owner = OWN[w]; k.runas = ru ? OWN[ru - 1] : NULL; k.bg = bg; check_c32(&k, &MO[mi], &MP[pi]); }
}
/* ---------------------------------------------------------------- C34: the From header as it is mailed */
static void item34(long it)
{
    static const char *CONF[] = { "Fcron", "a, b", "x \"y\" z", "end\\", "q\\\"q", "", "\"", "A.B", "mail;x<y>" }, *FORM[] = { "Fcron", "\"a, b\"", "\"x \\\"y\\\" z\"", "\"end\\\\\"", "\"q\\\"q\"", NULL, "\"\\\"\"", "\"A.B\"", "\"mail;x<y>\"" };
    static char longn[1100]; static const char *HO[] = { NULL, "", "h.example.org", "x" }; int c = it % 49, h = it / 49 % 4, m = it / 196 % 4; kase k; memset(&k, 0, sizeof k); static const int MI[] = { 2, 8, 9, 17 };
    if (!nouts) { addout("", 0); addout("out\n", 4); for (int a = 0; a < nouts; a++) for (int b = 0; b < 2; b++) { OC[NOC].out = outs[a]; OC[NOC].outlen = outl[a]; OC[NOC++].status = STAT[b]; } }
    if (c < 9) { snprintf(conf_extra, sizeof conf_extra, "maildisplayname = %s\n", CONF[c]); dname = FORM[c]; } else { int l = 945 + c; memset(longn, 'n', l); longn[l] = 0; snprintf(conf_extra, sizeof conf_extra, "maildisplayname=%s\n", longn); dname = longn; }
    dhost = HO[h]; k.cmd = "job x"; for (int w = 0; w < 4; w++) { k.owner = OWN[w]; k.runas = w >= 2 ? OWN[1] : NULL; k.bg = w & 1; if (mc_stop()) return; check_c32(&k, &MO[MI[m]], &MP[m == 2 ? 6 : m]); }
    dname = dhost = NULL; conf_extra[0] = 0;
}
/* ---------------------------------------------------------------- C33 */
static int ferr, fat[2], nfat, fcount;
static int f33(const char *c, const char *p) { (void)p; fcount++; for (int i = 0; i < nfat; i++) if (fcount == fat[i]) { if (strlen(fltname) + strlen(c) + 2 < sizeof fltname) { strcat(fltname, c); strcat(fltname, " "); } if (ferr == -2) return !strcmp(c, "write") || !strcmp(c, "read") ? -2 : EIO; return ferr; } return 0; }
static int vital(const char *f) { static const char *v[] = { "initgroups ", "setgid ", "setuid ", "pam_authenticate ", "pam_acct_mgmt ", "pam_setcred ", "pam_open_session ", "pam_start ", "getpwnam " }; for (int i = 0; i < 9; i++) if (strstr(f, v[i])) return 1; return 0; }
static const kase K33[] = { { "alice", NULL, NULL, "job" }, { "root", NULL, "bob", "job" }, { "systab", "mail(no)", "alice", "job" }, { "bob", "nice(5),forcemail", NULL, "job" }, { "root", NULL, NULL, "job" }, { "systab", NULL, "carol", "job" }, { "alice", "mail(no)", NULL, "job" }, { "alice", "stdout", NULL, "job" } };
static vuser user33[8]; static int gone;
static long max33;
static void run33(const kase *k0, int bg, int var)
{
    static const outcome oo[2] = { { "out\n", 4, 0 }, { "", 0, 1 << 8 } }; kase kk = *k0, *k = &kk; k->bg = bg; outc = (outcome *)oo; noutc = 2;
    jsetup(); put_conf(var ? "/bin/sh" : NULL); if (k->opts && strstr(k->opts, "nice")) { k->env[0] = "HOME=/nowhere"; k->nenv = 1; } make_ktext(k); put_tab(k->owner, ktext, klen);
    const char *who = k->runas ? k->runas : !strcmp(k->owner, "systab") ? "root" : k->owner; fcount = 0; child_fault = f33;
    start_job(bg, 0); child_fault = NULL; mc_eval(1);
    for (int i = 0; i < nR; i++) { rec *r = &R[i]; char w[100];
        mc_state(vos_hash(vos_hash((fat[0] * 997 + (nfat > 1 ? fat[1] : 0)) * 16 + ferr, r->flt, strlen(r->flt)), ktext, klen)); mc_outcome(vos_hash(r->kind * 3 + bg, r->flt, strlen(r->flt)));
        if (r->kind == 'S' || r->kind == 'M') { kcreds(k, r, who, r->kind == 'S' ? "the job" : "the mailer");
            if (r->kind == 'S' && vital(r->flt)) { snprintf(w, sizeof w, "executed although %sfailed", r->flt); BADK(w, "the command is executed although %sfailed (%s)", r->flt, strerror(ferr)); } }
        if (r->var >= 0 && (r->kind == 'M' || r->kind == 'E') && (r->piped != sizeof r->pidv || r->pidv != 777001) && (ferr == EINTR || ferr == -2 || !strstr(r->flt, "write")) && !strstr(r->flt, "pipe") && !strstr(r->flt, "fork") && !vital(r->flt) && strncmp(r->flt, "pipe", 4)) BADK("pid not told", "the daemon is not told the pid of the job (%zu bytes, %d) after %s(%s)", r->piped, r->pidv, r->flt, strerror(ferr));
        if (r->kind == 'C') { snprintf(w, sizeof w, "crash (%s)", r->flt); BADK(w, "a process of the job dies (%x) after %sfailed", r->code, r->flt); } }
}
static void item33(long it)
{
    int ki = it / 10 % 8, bg = it / 80, e = it % 10 % 5, var = it % 10 / 5; static const int er[] = { EPERM, EAGAIN, EINTR, ENOENT, -2 }; ferr = er[e];
    for (int a = 1; a < 400; a++) { if (mc_stop()) return; nfat = 1; fat[0] = a; run33(&K33[ki], bg, var); int any = 0; for (int i = 0; i < nR; i++) any |= R[i].flt[0]; if (!any && nR) break;
        if (mc_thorough || e < 2) for (int b = a + 1; b < 400; b++) { if (mc_stop()) return; nfat = 2; fat[1] = b; run33(&K33[ki], bg, var); int two = 0; for (int i = 0; i < nR; i++) { char *x = strchr(R[i].flt, ' '); two |= x && x[1]; } if (!two) break; } }
}
/* the account changes between the loading of the fcrontab and the start of the job */
static int sel_change; static vuser *real_users; static int real_nusers;
static int change_select(int n, fd_set *r, struct timeval *tv)
{
    if (sel_change == 1) { static vuser u[5]; for (int i = 0, j = 0; i < real_nusers; i++) if (strcmp(real_users[i].name, "alice")) u[j++] = real_users[i]; vos_users = u; vos_nusers = real_nusers - 1; }
    return jselect(n, r, tv);
}
static void item33b(long it)
{
    static const outcome oo[1] = { { "out\n", 4, 0 } }; outc = (outcome *)oo; noutc = 1; kase kk = K33[it % 8], *k = &kk; if (!mc_replaying || !real_users) { real_users = vos_users; real_nusers = vos_nusers; }
    jsetup(); put_conf(NULL); make_ktext(k); put_tab(k->owner, ktext, klen); const char *who = k->runas ? k->runas : !strcmp(k->owner, "systab") ? "root" : k->owner; sel_change = 1; vos_select_hook = change_select; start_job(it / 8, 0); vos_users = real_users; vos_nusers = real_nusers; sel_change = 0; mc_eval(1); mc_state(it);
    for (int i = 0; i < nR; i++) { rec *r = &R[i]; if (r->kind == 'S' || r->kind == 'M') { if (!strcmp(who, "alice")) BADK("runs for nobody", "%s is executed although its user does not exist", r->kind == 'S' ? "the job" : "the mailer"); else kcreds(k, r, who, "the job"); } }
}
static void item33x(long it) { if (it < 160) item33(it); else item33b(it - 160); }
/* ---------------------------------------------------------------- C30 */
static const char *LN[] = { "@runas(root) 1 job", "@runas(bob) 1 job", "@runas(alice) 1 job", "!runas(root)", "!runas(bob),nice(-5)", "!nice(-20)", "@nice(-1) 1 job", "@nice(3) 1 job", "@ 1 job", "@mailto(root),runas(systab) 1 job", "!runas()", "USER=root", "LOGNAME=root", "@r(root),n(-3) 1 job", "!r(root)", "@runas( root ) 1 job", "HOME=/root", "& * * * * * job", "%hourly * job", "!runas(fcron)" };
#define NLN ((int)(sizeof LN / sizeof *LN))
static kase k30; static const char *k30owner;
static void see30(const char *owner, int isroot)
{
    kase *k = &k30; for (int i = 0; i < nR; i++) { rec *r = &R[i]; if (r->kind != 'S' && r->kind != 'M') continue; mc_outcome(r->u[0] * 64 + r->nice + 30 * (r->kind == 'M')); if (!isroot) { kcreds(k, r, owner, r->kind == 'S' ? "the job" : "the mailer"); if (r->nice < 0) BADK("negative nice", "the job runs with nice value %d", r->nice); } }
}
static void item30(long it)
{
    static const outcome oo[1] = { { "out\n", 4, 0 } }; outc = (outcome *)oo; noutc = 1;
    for (int b = 0; b <= NLN; b++) for (int c = 0; c <= NLN; c++) { if (b == NLN && c < NLN) continue; if (mc_stop()) return;
        int a = it % NLN, s[3] = { a, b, c }; memset(&k30, 0, sizeof k30); k30.owner = it / NLN ? "bob" : "alice"; k30.bg = (a + b + c) & 1; klen = 0; for (int i = 0; i < 3; i++) if (s[i] < NLN) klen += sprintf(ktext + klen, "%s\n", LN[s[i]]);
        if (!mc_thorough && b < NLN && c < NLN && (a * 7 + b * 3 + c) % 4) continue;
        jsetup(); put_conf("/bin/sh"); put_tab(k30.owner, ktext, klen); mc_eval(1); mc_state(vos_hash(it / NLN * 77 + 1, ktext, klen));
        for (int i = 0; i < V.nent; i++) if (V.ent[i].used && !strncmp(V.ent[i].path, SPOOL "/", strlen(SPOOL) + 1)) { const char *n = V.ent[i].path + strlen(SPOOL) + 1; if (!strncmp(n, "new.", 4)) n += 4; if (!strncmp(n, "rm.", 3)) n += 3; if (strncmp(n, k30.owner, strlen(k30.owner)) && strcmp(n, "fcrontab.sig")) { kase *k = &k30; BADK("other file", "%s is written", V.ent[i].path); } }
        start_job(k30.bg, 0); see30(k30.owner, 0); }
}
/* options to install for another user */
static void item30u(long it)
{
    static const outcome oo[1] = { { "out\n", 4, 0 } }; outc = (outcome *)oo; noutc = 1; static char *ta[] = { "bob", "root", "systab", "carol", "alice", "fcron", "nobody" }; static const char *pre[] = { "", "-u", "" }; static char *cmd[] = { "/tmp/tab", "-r", "-e", "-z", "-l" };
    int t = it % 7, how = it / 7 % 3, cm = it / 21; jsetup(); put_conf("/bin/sh"); memset(&k30, 0, sizeof k30); k30.owner = "alice"; kase *k = &k30; klen = sprintf(ktext, "@runas(bob) 1 theirs\n"); put_tab("bob", "@ 1 bobs\n", 9); put_tab("root", "@ 1 roots\n", 10); put_tab("systab", "@ 1 sys\n", 8); put_tab("carol", "@ 1 carols\n", 11);
    vos_put("/tmp/tab", ktext, klen, 1001, 1001, 0644); uint64_t before = 0; for (int i = 0; i < V.nent; i++) if (V.ent[i].used && !strncmp(V.ent[i].path, SPOOL "/", strlen(SPOOL) + 1) && !strstr(V.ent[i].path, "alice")) { vinode *n = &V.ino[V.ent[i].ino]; before = vos_hash(vos_hash(before, V.ent[i].path, strlen(V.ent[i].path)), n->data, n->len); }
    if (how == 0) eng_fcrontab(1001, 1001, cmd[cm], ta[t], NULL); else if (how == 1) eng_fcrontab(1001, 1001, "-u", ta[t], cmd[cm], NULL); else eng_fcrontab(1001, 1001, cmd[cm], "-u", ta[t], NULL); mc_eval(1); mc_state(it);
    uint64_t after = 0; for (int i = 0; i < V.nent; i++) if (V.ent[i].used && !strncmp(V.ent[i].path, SPOOL "/", strlen(SPOOL) + 1) && !strstr(V.ent[i].path, "alice") && strcmp(V.ent[i].path, SPOOL "/fcrontab.sig")) { vinode *n = &V.ino[V.ent[i].ino]; after = vos_hash(vos_hash(after, V.ent[i].path, strlen(V.ent[i].path)), n->data, n->len); }
    if (before != after) BADK("changes another user's fcrontab", "alice: fcrontab %s %s changes another user's files", cmd[cm], ta[t]);
    if (t != 4 && tab_outlen && (strstr(tab_out, "bobs") || strstr(tab_out, "roots") || strstr(tab_out, "sys\n") || strstr(tab_out, "carols"))) BADK("reads another user's fcrontab", "alice: fcrontab %s %s prints %s", cmd[cm], ta[t], tab_out);
}
/* any spool file: name x owner x user and runas in it.  What is in the file is what root's fcrontab writes, under the name of another user */
static void item30s(long it)
{
    static const outcome oo[1] = { { "out\n", 4, 0 } }; outc = (outcome *)oo; noutc = 1; static const char *nm[] = { "alice", "bob", "root", "systab", "fcron", "new.alice", "new.bob", "new.root", "new.systab", "nobody", "new.fcron", "new.nobody" }; static const int ow[] = { 1001, 1002, 0, 200, 9999 }; static const char *in[] = { "alice", "bob", "root", "systab", "fcron", "nobody" }, *ra[] = { NULL, "alice", "bob", "root", "fcron", "nobody" };
    int n = it % 12, o = it / 12;
    for (int h = 0; h < 6; h++) for (int r = 0; r < 6; r++) for (int ni = 0; ni < 3; ni++) for (int ln = 0; ln < 2; ln++) { if (mc_stop()) return;
        jsetup(); put_conf("/bin/sh"); memset(&k30, 0, sizeof k30); k30.bg = (h + r + ni) & 1; char opt[60] = ""; if (r) sprintf(opt, "runas(%s)", ra[r]); if (ni) sprintf(opt + strlen(opt), "%snice(%d)", r ? "," : "", ni == 1 ? -5 : 4);
        klen = sprintf(ktext, ln ? "@%s 1 job\n" : "!%s\n@ 1 job\n", opt); if (!opt[0] && !ln) continue; eng_install("root", ktext); vinode *v = vos_file(SPOOL "/new.root"); if (!v) continue;
        char d[4096], p[80]; size_t len = 0, off = 0; while (off + 4 <= v->len) { short ty, sz; memcpy(&ty, v->data + off, 2); memcpy(&sz, v->data + off + 2, 2); const void *s = v->data + off + 4; off += 4 + sz; if (ty == S_USER_T) { s = in[h]; sz = strlen(in[h]); } memcpy(d + len, &ty, 2); memcpy(d + len + 2, &sz, 2); memcpy(d + len + 4, s, sz); len += 4 + sz; }
        vos_rmfile(SPOOL "/new.root"); vos_rmfile(SPOOL "/root.orig"); snprintf(p, 80, SPOOL "/%s", nm[n]); vos_put(p, d, len, ow[o], 200, 0640);
        char who[300]; snprintf(who, sizeof who, "file %s owned by %d, of %s", nm[n], ow[o], in[h]); k30.owner = who; start_job(k30.bg, 0); mc_eval(1); mc_state(vos_hash(it * 1000003 + h * 64 + r, opt, strlen(opt))); kase *k = &k30;
        /* a file which belongs to root has been written by root or by the daemon; only fcrontab gives files to their user */
        int isnew = !strncmp(nm[n], "new.", 4); const char *base = isnew ? nm[n] + 4 : nm[n]; vuser *bu = pw_of(base); int by_root = ow[o] == 0, own_ok = isnew && bu && bu->uid && (int)bu->uid == ow[o], match = !strcmp(base, in[h]);
        /* (fcrontab warns that runas(nobody) is ignored, as there is no such user) */ const char *as = by_root ? r && r != 5 ? ra[r] : "root" : base; int jobs = 0; for (int i = 0; i < nR; i++) if (R[i].kind == 'S' || R[i].kind == 'M') jobs++;
        if (jobs && !by_root && !own_ok) BADK("loaded a file of another user", "its job is run (as %d)", R[0].u[1]);
        else if (jobs && !match) BADK("loaded a file for another user", "its job is run (as %d)", R[0].u[1]);
        else if (!jobs && match && (by_root || own_ok) && (bu || !strcmp(base, "systab"))) BADK("not run", "its job is not run");
        if (!jobs) continue;
        see30(base, by_root); if (by_root) for (int i = 0; i < nR; i++) if (R[i].kind == 'S' || R[i].kind == 'M') kcreds(k, &R[i], as, R[i].kind == 'S' ? "the job" : "the mailer"); }
}
static void item30x(long it) { if (it < 2 * NLN) item30(it); else if (it < 2 * NLN + 105) item30u(it - 2 * NLN); else item30s(it - 2 * NLN - 105); }
static int job_props(void)
{
    if (!strcmp(mc_arg, "C33")) mc_items(176, item33x);
    if (!strcmp(mc_arg, "C30")) mc_items(2 * NLN + 105 + 60, item30x);
    if (!strcmp(mc_arg, "C34:mail")) mc_items(49 * 4 * 4, item34);
    else if (!strcmp(mc_arg, "C32")) mc_items(NMO * (int)(sizeof MP / sizeof *MP), item32);
    if (!strcmp(mc_arg, "C31")) mc_items((NEV + 1) * 12, item31);
    else if (!strcmp(mc_arg, "C31:mem")) { mem31 = 1; mc_items((NEV + 1) * 12, item31); }
    return 0;
}
