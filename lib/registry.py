"""What each property's check runs.  runs: list of dicts
   src: harness sources (suffix _D/_T/_S/_C: linked against that program's symbols)
   arg: sub-check, san: sanitizers, cpu: CPU limit per execution step."""

EXPL = "exploration"
FAULT = "fault_enumeration"
MC = "model_checking"

SCHED_RULE = ("every line of a bounded family of time specifications x every time of a bounded set (month, year, period and DST edges, all minutes of chosen days); "
              "set_next_exe() of the daemon is called on each and compared with a minute-by-minute calendar walk; distinct = distinct (line, next execution) pairs")

ENG_RULE = ("all sequences, up to the depth of each scenario, of the events the daemon can see (timer on time or late, job ends, fcrontab installed, replaced or removed, SIGUSR1, stop, reboot, kill, "
            "suspend notified or not, load changes, failing fork or pipe), run on the real daemon loop and compared after every iteration with a reference model; "
            "states pruned by a hash of the model, the daemon's queues and clock; distinct = distinct states at rest")
ENG = dict(level=MC, technique="explicit-state exploration of the real daemon main loop under a simulated OS, in lock step with a reference model of fcron(8)/fcrontab(5)", rule=ENG_RULE)
def eng(p): return dict(ENG, runs=[dict(src=["engine_D.c"], arg=p, progs=("T",))])

CHECKS = {
    "C01": dict(level=EXPL, technique="exhaustive bounded enumeration of lines x times on the real scheduler, against a calendar-walk oracle",
                rule=SCHED_RULE, runs=[dict(src=["sched_D.c"], arg="C01")]),
    "C02": dict(level=EXPL, technique="exhaustive bounded enumeration of %-lines x run times on the real scheduler, against a period-walk oracle",
                rule=SCHED_RULE, runs=[dict(src=["sched_D.c"], arg="C02")]),
    "C03": dict(level=EXPL, technique="exhaustive enumeration of lines x minutes around every time change of six zones on the real scheduler",
                rule=SCHED_RULE, runs=[dict(src=["sched_D.c"], arg="C03")]),
    "C04": dict(level=EXPL, technique="exhaustive enumeration of lines x times x extreme and inner values of the random source on the real scheduler",
                rule=SCHED_RULE, runs=[dict(src=["sched_D.c"], arg="C04")]),
}
for p in "C05 C06 C07 C08 C09 C10 C11 C12 C14 C15 C16 C17 C35 C37 C39".split(): CHECKS[p] = eng(p)
CHECKS["C16"]["runs"].append(dict(src=["susp_D.c"], arg="C16:file", san=True, deadline=120))
CHECKS["C16"]["rule"] += "; and the real reader of the suspend file run on every mode x owner x group x type of file x content x time slept x failing call"

TAB_RULE = ("every text of a grammar, up to the stated sizes, is given to the real fcrontab (by file and through fcrontab -e) and its spool file loaded by the real daemon; the jobs, variables, "
            "settings and messages are compared with the meaning the generator gives it from fcrontab(5); distinct = distinct texts")
def tab(p, t, **k): return dict(level=EXPL, technique="exhaustive enumeration of " + t + ", each through the real fcrontab and the real daemon's reader, against meanings generated from fcrontab(5)",
                                rule=TAB_RULE, runs=[dict(dict(src=["tab_D.c"], arg=p, progs=("T",), cpu=6), **k)])
CHECKS["C22"] = tab("C22", "time fields of a grammar in each position")
CHECKS["C23"] = tab("C23", "options x argument forms x ways of declaring them, and pairs of them")
CHECKS["C24"] = tab("C24", "sequences of up to three lines over an alphabet of valid and invalid lines")
CHECKS["C25"] = tab("C25", "values, commands, continuations, null characters, line lengths and sizes of files")
CHECKS["C26"] = dict(level=EXPL, technique="exhaustive enumeration of short token strings in every syntactic position and of runs of characters around buffer sizes, the real fcrontab running under AddressSanitizer and UBSan as the monitor",
                     rule="strings of up to 3 (thorough 4) of 38 tokens after each of 30 prefixes, runs of one character of lengths around each buffer, and all texts of C22, C23, C25 (thorough: C24) again; no error of memory or undefined behaviour, and an end; distinct = distinct texts",
                     runs=[dict(src=["tab_D.c"], arg="C26", progs=("T",), san=True, cpu=10, deadline=300)] + [dict(src=["tab_D.c"], arg="C26:" + q, progs=("T",), san=True, cpu=10, deadline=100) for q in ("C22", "C23", "C25")]
                          + [dict(src=["tab_D.c"], arg="C26:C24", progs=("T",), san=True, cpu=10, deadline=300, tier="thorough")])
CHECKS["C27"] = dict(level=EXPL, technique="exhaustive enumeration of fcrontabs through the real fcrontab and the real daemon for a simulated period, start times compared with a calendar-walk oracle",
                     rule="all lines of a family (types x fields x options x zones x users x positions in the file) and all boot/restart/resume scripts of a list; every start compared with the times the text means; distinct = distinct texts x scripts",
                     runs=[dict(src=["chain_D.c"], arg="C27", progs=("T",), cpu=20)])
def disk(p, lv, t, rule, **k): return dict(level=lv, technique=t, rule=rule, runs=[dict(dict(src=["disk_D.c"], arg=p, progs=("T",), cpu=10), **k)])
CHECKS["C18"] = disk("C18", EXPL, "exhaustive enumeration of values of every field, alone and in pairs, saved and read back by the real daemon",
                     "3 types of lines x 26 fields x all values of -25..310 and of a list of limits, pairs of fields over the limits, commands of all lengths 1..1000, files lacking fields; distinct = distinct configurations")
CHECKS["C19"] = disk("C19", FAULT, "enumeration of all crash points and losses of unsynced writes of the real daemon's file operations, with recovery by the real daemon (and a second crash in it)",
                     "12 scenarios x every prefix of the logged file operations x every subset of unsynced writes lost or torn, then restart; distinct = distinct disk contents")
CHECKS["C20"] = disk("C20", EXPL, "exhaustive enumeration of truncations, byte changes and field changes of spool files, loaded, run and saved by the real daemon under AddressSanitizer and UBSan as the monitor",
                     "every length, every byte x 8 (thorough 255) values, every field x types, sizes, deletion, duplication, swap, unknown fields; distinct = distinct configurations loaded", san=True)
CHECKS["C21"] = disk("C21", FAULT, "enumeration of all placements of up to two failing, short or interrupted calls in the real daemon's saves (fork-based stateless exploration)",
                     "12 scenarios x up to 2 faults at every call on spool files x each error, and 3 modes with every write short or interrupted; distinct = distinct fault sequences")
CHECKS["C29"] = disk("C29", FAULT, "enumeration of all crash points of the real fcrontab's file operations, of all placements of a failing call in it, and of all schedules with two preemptions of fcrontab and the real daemon loading the spool",
    "8 commands (install, -n, from stdin, edit, remove, reinstall, files without entries) x 3 (a user, root for a user, root) x 5 states of the spool: every stop after k of n file operations with every loss of unsynced writes (then a new daemon, the running daemon, the command again); every single failing call (pairs in the thorough tier); every schedule which stops fcrontab at any system call and the daemon at any of its own.")
CHECKS["C29"]["runs"] += [dict(CHECKS["C29"]["runs"][0], arg=a) for a in ("C29:fault", "C29:race")]

ACC = "users x pairs of files x the three programs; each run of the real fcrontab, fcronsighup and fcrondyn up to the point where it acts (or does not); expected = the reading of both files by fcrontab(1); distinct = distinct pairs of files"
CHECKS["C28"] = dict(level=EXPL, technique="exhaustive enumeration of pairs of fcron.allow and fcron.deny files (and of every failing call) through the real fcrontab, fcronsighup and fcrondyn, against the documented decision", rule=ACC,
                     runs=[dict(src=["access_D.c"], arg=a, progs=("T", "S", "C"), cpu=10) for a in ("C28", "C28:len", "C28:fault")])

NOT_APPLICABLE = {}

JOB = ("each case is installed by the real fcrontab and run by the real daemon; its child, the job's process and, for each outcome of the job, the process which mails are executed up to exec() or exit(), "
       "each in a process of its own, and what they have then (identity, environment, directory, descriptors, signals, arguments, mail) is compared with fcrontab(5); distinct = distinct cases")
def job(p, lv, t, *more, **k): return dict(level=lv, technique=t, rule=JOB, runs=[dict(dict(src=["job_D.c"], arg=p, progs=("T",), cpu=20), **k)] + [dict(dict(src=["job_D.c"], progs=("T",), cpu=20), **m) for m in more])
CHECKS["C30"] = job("C30", EXPL, "exhaustive enumeration of texts and of spool files (name x owner x user inside x runas x nice), loaded and run by the real daemon, the identity of every process compared")
CHECKS["C31"] = job("C31", EXPL, "exhaustive enumeration of assignments (up to 2, thorough 3) and configurations, each run by the real daemon up to the exec of the job", dict(arg="C31:mem", san=True, deadline=300))
CHECKS["C32"] = job("C32", EXPL, "exhaustive enumeration of mail options x assignments x outputs x exit statuses, each run by the real daemon up to the exec of the mailer")
CHECKS["C33"] = job("C33", FAULT, "enumeration of all placements of one and two failing calls in the processes of a job, under AddressSanitizer and UBSan", san=True)

DYN = "the real daemon's main loop with fcrondyn clients played by the harness, which decides what arrives and when; distinct = distinct cases or states"
def dyn(p, lv, t, *more, **k): return dict(level=lv, technique=t, rule=DYN, runs=[dict(dict(src=["dyn_D.c"], arg=p, progs=("T",), cpu=20), **k)] + [dict(dict(src=["dyn_D.c"], progs=("T",), cpu=20), **m) for m in more])
CHECKS["C36"] = dyn("C36", EXPL, "exhaustive enumeration of messages, and of pairs of messages and the ways they arrive, on the real daemon under AddressSanitizer and UBSan, effects compared with the reading of the bytes received", dict(arg="C36:pairs", san=True), san=True)
CHECKS["C38"] = dyn("C38", MC, "explicit-state exploration of the real daemon with up to three (thorough: four) clients, the descriptors given to select() compared with those open in every state; enumeration of the failing calls", dict(arg="C38:many"), dict(arg="C38:fault", san=True))
CHECKS["C42"] = dyn("C42", EXPL, "exhaustive enumeration of sequences of authentication attempts and times on the real daemon, against a counter of failures", dict(arg="C42:mem", san=True))
CHECKS["C37"]["runs"].append(dict(src=["dyn_D.c"], arg="C37", progs=("T",), cpu=20, san=True))

def mem(p, src, t, rule, *more): return dict(level=EXPL, technique=t, rule=rule, runs=[dict(src=[src], arg=a, san=True, cpu=20) for a in (p,) + more])
CHECKS["C40"] = mem("C40", "list_D.c", "exhaustive enumeration of the legal sequences of operations on the daemon's lists, against a set (a dictionary for the environment), under AddressSanitizer and UBSan",
    "all legal sequences of 8 or 9 (thorough: 10 or 11) of add, first, next, remove, end, copy x initial size x growth x limit x entry size x entries already there; the same on the lists of running and load-average jobs with 0..33 entries, and iterations over 0..39 entries with two removals and an addition at all places; all sequences of 3 (thorough: 4) of 57 operations on an environment of 0..20 variables; distinct = distinct contents and iteration states", "C40:wrap", "C40:env")
CHECKS["C13"] = dict(level=EXPL, technique="exhaustive enumeration of signal placements: the real daemon run with signals delivered before each of its system calls and log lines", rule="5 histories (fcrontabs installed and removed, jobs ending, fcrondyn connections, idle) x each of their system calls and log lines x 8 signals (SIGHUP after an installation in two ways or a removal, SIGCHLD, SIGUSR1, SIGTERM, SIGUSR2, SIGCONT), alone and with each second one within 70 points after it (thorough: any point after it, and triples within 5 points); distinct = distinct placements",
    runs=[dict(src=["signal_D.c"], arg="C13", progs=("T",))])
CHECKS["C41"] = mem("C41", "conf_D.c", "exhaustive enumeration of fcron.conf files read by the real read_conf(), all variables compared with the reading of fcron.conf(5), under AddressSanitizer and UBSan",
    "all lines of blanks x names (each variable, each of its beginnings, longer and other names) x separators x values x ends, alone and between two others, all pairs of lines of a family, all texts of 5 (thorough: 6) characters of an alphabet of 8 after four beginnings, all lengths around the buffer x what follows in the line, all owners x modes; distinct = distinct values of the variables", "C41:len")
CHECKS["C34"] = mem("C34", "conf_D.c", "exhaustive enumeration of display names, the results parsed as RFC 5322 quoted strings, under AddressSanitizer and UBSan; and of configurations through the real daemon up to the mail",
    "all names of up to 6 characters of an alphabet of 10 (thorough: 18), all lengths around the limit x placements of quotes and backslashes, all lengths of the parts of a mailbox around the limit; 49 names x host names x options through fcron.conf, a job and its mail; distinct = distinct results")
CHECKS["C34"]["runs"].append(dict(src=["job_D.c"], arg="C34:mail", progs=("T",), cpu=20))
SIG = ["-DMAX_FCRONTAB_RELOAD_DELAY_SECONDS=%d" % n for n in (60, 0)]
CHECKS["C43"] = dict(level=MC, technique="explicit-state exploration of the interleavings of the system calls of several real fcronsighup arriving at chosen seconds, with daemons which end or are replaced and failing calls", rule="2 and 3 instances x arrival seconds around the boundaries of a minute and of the delay x users x delays configured (5, 60, 0) x all schedules within the preemption bound; distinct = distinct final states (signals sent, announcements, files)",
    runs=[dict(src=["sighup_D.c"], arg="C43", progs=("T", "S"), deadline=200, **d) for d in ({}, dict(defs=(SIG[0],)))] + [dict(src=["sighup_D.c"], arg="C43:more", progs=("T", "S"), deadline=120, **d) for d in ({}, dict(defs=(SIG[0],)), dict(defs=(SIG[1],)))] )
CHECKS["C44"] = dict(level=EXPL, technique="exhaustive enumeration of commands typed and of the ways an answer can be cut into pieces, through the real fcrondyn", rule="31 command words x arguments (61 words, up to 2, as root and as users) x blanks, on the command line and interactively; answers of 1 to 3 messages of lengths around the buffers cut at all (pairs of) places; connections which end or fail in the middle; distinct = distinct messages sent or texts shown",
    runs=[dict(src=["client_D.c"], arg=a, progs=("T", "C"), cpu=20) for a in ("C44", "C44:show", "C44:break")] + [dict(src=["client_D.c"], arg=a, progs=("T", "C"), cpu=20, san=True, tier="thorough") for a in ("C44", "C44:show", "C44:break")])
CHECKS["C45"] = dict(level=MC, technique="explicit-state exploration of the interleavings of the system calls of up to three real daemons started, stopped and killed at any time, with failing calls", rule="1 to 3 daemons x what is in fcron.pid before x foreground and background x all orders of their calls on the pid file, lock, socket and spool within the preemption bound x SIGTERM and SIGKILL at any point; distinct = distinct final states",
    runs=[dict(src=["lock_D.c"], arg="C45", progs=("T",))])
CHECKS["C46"] = dict(level=EXPL, technique="exhaustive enumeration of command lines, editor behaviours and answers through the real fcrontab", rule="all sequences of up to 3 of 38 words (up to 4 of 13; thorough 24) x three users x with and without fcrontabs; sequences of up to 3 of 15 editor behaviours x 11 answers x 4 pairs of users x 6 environments; distinct = distinct command lines or edits with their results",
    runs=[dict(src=["cmd_D.c"], arg=a, progs=("T",), deadline=400) for a in ("C46", "C46:edit")] + [dict(src=["cmd_D.c"], arg="C46:edit", progs=("T",), san=True, tier="thorough", deadline=300)])
CHECKS["C47"] = dict(level=EXPL, technique="exhaustive enumeration of operation histories on pairs of similar user names through the real daemon", rule="276 pairs of 24 names less 6; all sequences of up to 5 (thorough 6) of 9 operations ending in a reload or restart; distinct = distinct histories with the spool they leave",
    runs=[dict(src=["names_D.c"], arg="C47", progs=("T",), deadline=300), dict(src=["names_D.c"], arg="C47", progs=("T",), san=True, tier="thorough", deadline=300)])
CHECKS["C48"] = dict(level=FAULT, technique="exhaustive enumeration of file histories, and of changes and signals at every command the real script runs, against the files' meaning", rule="from two initial states, all sequences of up to 3 (thorough 4) of 15 changes and runs; one change, then one of 15 changes, 4 signals or a failing fcrontab at every command of a run; distinct = distinct installed system fcrontabs",
    runs=[dict(src=["scripts.c"], arg="C48", deadline=200), dict(src=["scripts.c"], arg="C48:ev", deadline=300)])
CHECKS["C49"] = dict(level=EXPL, technique="exhaustive enumeration of histories of the real suspend script with a real process in the daemon's place", rule="all sequences of up to 3 (thorough 5) of 12 events: ways of calling the script, time passing, no daemon, an unwritable file; distinct = distinct histories",
    runs=[dict(src=["scripts.c"], arg="C49", deadline=300)])
