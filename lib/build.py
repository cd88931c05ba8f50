"""Builds a harness together with the programs of /repo it explores, from /repo's
current working tree, in a scratch directory.  See DESIGN.md, 'How the real code is run'."""
import os, re, shutil, subprocess, sys, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PATHS = dict(PIDFILE="/var/run/fcron.pid", REBOOT_LOCK="/var/run/fcron.reboot",
             SUSPEND_FILE="/var/run/fcron.suspend", FIFOFILE="/var/run/fcron.fifo", ETC="/etc",
             FCRON_SHELL="/bin/sh", FCRON_CONF="fcron.conf", FCRONTABS="/var/spool/fcron",
             FCRON_ALLOW="fcron.allow", FCRON_DENY="fcron.deny", SENDMAIL="/usr/sbin/sendmail",
             FCRON_EDITOR="/usr/bin/editor", MAILDISPLAYNAME="", BINDIREX="/usr/bin")
PROGS = {"D": ("OBJSD_MAIN", "OBJSD_NO_MAIN"), "T": ("OBJSTAB",), "S": ("OBJSIG",), "C": ("OBJSDYN",)}
NOT_LIBC = {"raise"}
STUB0 = ("fgetfilecon getseuserbyname get_default_context get_default_context_with_level security_compute_av "
         "security_compute_av_raw setexeccon setfscreatecon freecon string_to_security_class string_to_av_perm "
         "security_deny_unknown selinux_check_access selinux_check_passwd_access is_selinux_enabled context_free freeconary context_new context_str "
         "audit_open audit_log_user_message audit_log_acct_message").split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd[:12]) + " ...\n" + r.stdout[-4000:])
    return r.stdout


def make_config(dst):
    table = {}
    for l in open(os.path.join(HERE, "config.table")):
        if l.strip() and not l.startswith("#"):
            k, _, v = l.rstrip("\n").partition(" ")
            table[k] = v
    out = []
    for l in open(os.path.join(REPO, "config.h.in"), errors="replace"):
        m = re.match(r"\s*#\s*undef\s+(\w+)", l)
        if m and m.group(1) in table:
            l = "#ifndef %s\n#define %s %s\n#endif\n" % (m.group(1), m.group(1), table[m.group(1)])
        out.append(l)
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, "config.h"), "w").writelines(out)


def objects():
    txt = open(os.path.join(REPO, "Makefile.in")).read().replace("\\\n", " ")
    v = {}
    for m in re.finditer(r"^(OBJ\w+)\s*:?=\s*(.*)$", txt, re.M):
        v[m.group(1)] = [o[:-2] for o in m.group(2).split() if o.endswith(".o")]
    return v


def nm(path, *a):
    names = set()
    for l in run(["nm", *a, path]).splitlines():
        p = l.split()
        if p:
            names.add(p[-1])
    return names


def build(out, harness, progs, san=False, defs=(), opt="-O1", extra_src=(), keep=()):
    """harness: list of (source, prog-letter or None). Returns the binary's path."""
    inc = os.path.join(out, "inc")
    make_config(inc)
    ov = objects()
    cc = ["gcc", opt, "-g", "-w", "-fno-strict-aliasing", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-builtin-exit", "-fno-pie", "-fno-common"]
    if san:
        cc += ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    flags = ["-DHAVE_CONFIG_H", "-I" + inc, "-I" + REPO, "-I/usr/include/selinux"] + \
            ['-D%s="%s"' % kv for kv in PATHS.items()] + list(defs)
    scr = os.path.join(out, "script")              # the shell scripts under check
    shutil.copytree(os.path.join(REPO, "script"), scr, dirs_exist_ok=True)
    srcs = sorted({o for p in progs for g in PROGS[p] for o in ov.get(g, [])})
    jobs = [(cc + ["-ftrivial-auto-var-init=pattern"] + flags + ["-c", os.path.join(REPO, s + ".c"), "-o", os.path.join(out, s + ".o")]) for s in srcs]
    hobjs = []
    for src, p in harness:
        o = os.path.join(out, "h_" + os.path.basename(src)[:-2] + (("_" + p) if p else "") + ".o")
        hobjs.append((o, p))
        jobs.append(cc + (flags if p else ["-I" + inc, '-DSCRIPTS="%s"' % scr]) + ["-I" + HERE, "-I" + os.path.dirname(src)] + (['-DPROG_%s' % p] if p else []) +
                    ["-Wall", "-Wno-unused", "-c", src, "-o", o])
    lib = []
    for s in ("vos", "mc"):
        o = os.path.join(out, s + ".lib.o")
        lib.append(o)
        jobs.append(["gcc", "-O2", "-g", "-w", "-fno-pie"] + (["-fsanitize=address"] if san and s != "mc" else []) + ["-I" + HERE, "-c", os.path.join(HERE, s + ".c"), "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    vos = {n[4:] for n in nm(lib[0], "-g", "--defined-only") if n.startswith("vos_")} - NOT_LIBC
    stub = os.path.join(out, "stubs.c")
    open(stub, "w").write("".join("long vos_%s() { return 0; }\n" % n for n in STUB0 if n not in vos))
    run(["gcc", "-w", "-fno-pie", "-c", stub, "-o", stub[:-2] + ".lib.o"])
    lib.append(stub[:-2] + ".lib.o")
    link = []
    for p in progs:
        objs = [os.path.join(out, o + ".o") for g in PROGS[p] for o in ov.get(g, [])]
        comb = os.path.join(out, "prog_%s.o" % p)
        run(["ld", "-r", "-o", comb] + objs)
        own = {n for n in nm(comb, "-g", "--defined-only") if not n.startswith(("__asan", "__ubsan", "_GLOBAL_", ".", "__start", "__stop"))}
        und = nm(comb, "-u")
        own_tab = ["%s %s_%s" % (n, p, n.replace("__odr_asan.", "__odr_")) for n in sorted(own) if n not in keep]
        libc_tab = ["%s vos_%s" % (n, n) for n in sorted(und & vos)] + ["%s vos_%s" % (n, n) for n in STUB0 if n in und and n not in vos]
        t1, t2 = os.path.join(out, p + ".own"), os.path.join(out, p + ".libc")
        open(t1, "w").write("\n".join(own_tab) + "\n")
        open(t2, "w").write("\n".join(libc_tab) + "\n")
        run(["objcopy", "--redefine-syms=" + t1, "--redefine-syms=" + t2, comb])
        # the program's own data in sections of their own, so that a harness can start it afresh
        run(["objcopy", "--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".bss=sbss_" + p,
             "--rename-section", ".data=sdata_" + p, comb])
        for o, hp in hobjs:
            if hp == p:
                run(["objcopy", "--redefine-syms=" + t1, o])
        link.append(comb)
    exe = os.path.join(out, "harness")
    run(["gcc", "-g", "-no-pie"] + (["-fsanitize=address,undefined"] if san else []) + ["-o", exe] + link + [o for o, _ in hobjs] + lib + list(extra_src) + ["-lm", "-lreadline"])
    return exe
