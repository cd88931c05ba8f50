#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py).  One P(...) per property."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext},
                "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- A. scheduling
P("C01", "An &-line is scheduled at the first matching minute after now",
  "Whenever a line based on time and date (&-line, no jitter, no random) is scheduled after a run, its next execution is exactly the first minute strictly after the current one whose local minute, hour, month and day all match the line's fields, where the day matches when both day-of-month and day-of-week match (dayand) or when either does (dayor), and Sunday is day of week 0 and 7. It is never a non-matching date, never one match too late, in leap and non-leap years, across month and year ends, with tzdiff, and regardless of the seconds part of the current time. A line whose fields can never match (e.g. 30 February) is never given a near execution time and never blocks the daemon.",
  ["inputs", "configurations"],
  "all lines whose five fields are drawn from a family of set shapes (each single value, ranges, complements, boundary values), both day modes, every tzdiff class, and every start instant of a family covering all month ends, year ends and leap days of 1999-2028",
  "The existing tests never call the scheduler; the calendar search carries between five fields through gotos, so an error shows only for particular combinations of sets and start dates.",
  ["database.c", "bitstring.h", "option.h"],
  [("field-by-field calendar search with carry", "database.c:set_next_exe"), ("month length / weekday arithmetic", "database.c:get_nb_mdays,is_leap_year,set_wday")],
  state="cl_t.cl_nextexe", observe="cl_nextexe after set_next_exe(line, STD, -1)")

P("C02", "A %-line runs once and only once in each of its periods",
  "For a periodical line (%hourly..%monthly, %mid*, %nightly, %mins, %hours, %days, %mons, %dow), after a run at a time t the next execution is the first allowed time that is not in the same period as t, so that two runs never fall in the same period and no period that contains an allowed time after t is skipped. For *ly keywords periods are calendar hours, days, weeks starting Monday and months; for mid*ly keywords they run from the middle to the middle (minute 30, 12:00, Thursday, the 15th); for the *s keywords a period is one maximal stretch of allowed time when the fields below the keyword are ignored.",
  ["inputs", "configurations", "histories"],
  "all keywords of the manual x a family of field sets x all start instants on a grid that covers hour, day, week, month and year boundaries, followed over chains of consecutive runs",
  "Period boundaries only matter for particular dates (week crossing a month end, month end before the 15th, December); no test schedules a %-line.",
  ["database.c", "fileconf.c"],
  [("beginning of next period", "database.c:goto_beginning_next_period_periodical"), ("walk to the end of an interval", "database.c:move_time_to")],
  state="cl_t.cl_nextexe", observe="cl_nextexe after set_next_exe(line, STD, -1)")

P("C03", "Schedules stay correct across DST changes, time zones and tzdiff",
  "For every line, zone (TZ of the daemon, timezone option) and current time, the next execution is strictly in the future, its local time in the line's zone matches the line's fields (except a time that does not exist in a spring-forward gap, which is moved by at most the size of the gap), and no existing matching minute of a day without a time change is skipped. The timezone option gives the same result as running the daemon in that zone, leaves the daemon's own TZ as it was, and tzdiff=n shifts the result by exactly n hours of wall time.",
  ["inputs", "configurations"],
  "all minutes of the hours around every DST transition of a family of zones (Europe, US, Lord_Howe half hour, southern hemisphere, no DST) x a family of lines x daemon zone x timezone option x tzdiff",
  "DST behaviour depends on mktime's isdst normalisation at two hours of the year and tests run in the single zone of the machine.",
  ["database.c", "subs.c"],
  [("mktime with no dst change adjustment", "database.c:mktime_no_dst"), ("timezone switching", "database.c:switch_timezone,switch_back_timezone")],
  state="cl_nextexe, TZ environment variable", observe="cl_nextexe and getenv(TZ) after set_next_exe")

P("C04", "jitter and random keep the run inside its allowed window",
  "With jitter(j) an &-line runs at the time it would have without jitter plus between 0 and j seconds, whatever the random source returns, and @- and %-lines are not affected by jitter. With random a %-line runs at a time between the first allowed minute it would have run at and the end of that same interval of execution: never before it, never in a minute its fields exclude, never in the next period.",
  ["inputs", "schedules"],
  "all extreme and intermediate answers of the random source x all jitter values x a family of lines and start times",
  "Tests sample rand() at best once; the bound must hold for its extreme values, and the end of an interval depends on the fields.",
  ["database.c"],
  [("jitter", "database.c:set_next_exe"), ("random offset inside the interval of execution", "database.c:set_next_exe,move_time_to(END_OF_INTERVAL)")],
  observe="cl_nextexe after set_next_exe with a controlled rand()")

P("C05", "@-lines run every frequency of fcron up-time, after first",
  "A line based on elapsed time runs for the first time `first` (by default frequency) seconds of fcron up-time after installation and then exactly every frequency seconds, not counting the time fcron was stopped or the system suspended; the next execution is always in the future (no past value, no overflow, even for the largest frequencies). volatile restarts the count at each fcron start, rebootreset and runonce at each system boot.",
  ["inputs", "histories"],
  "all sequences of install / run / stop-restart / reboot / suspend up to a depth, over all option combinations and boundary frequency values",
  "It is a property of histories with down time between them; tests never restart the daemon.",
  ["database.c", "conf.c", "save.c"],
  [("startup rescheduling of @-lines", "database.c:set_next_exe_startup"), ("down-time accounting", "conf.c:read_file,add_line_to_file")],
  state="cl_nextexe, S_NEXTEXE_T / S_TIMEDATE_T on disk", observe="run times of the job")

P("C06", "runfreq(n) runs exactly every n-th match",
  "An &-line with frequency n runs at one in n of the matches of its time fields, the same n apart for its whole life: counting survives reschedules, stop and restart of fcron, suspends and reinstallation of the unmodified line, and bootrun counts one missed match. With n=1 every match runs.",
  ["histories"],
  "all sequences of matches, restarts (clean), missed matches and re-installs up to a depth for n in 1..4",
  "The remaining count is spread over memory, the spool file and the fcrontab re-install path; a test of one of them cannot see it lost on another.",
  ["database.c", "conf.c", "save.c", "fileconf.c"],
  [("cl_remain countdown", "database.c:test_jobs,set_next_exe_startup"), ("persisted S_REMAIN_T", "save.c, conf.c")],
  state="cl_remain", observe="which matches start the job")

# ---------------------------------------------------------------- B. run engine
P("C07", "Every due job is started or queued exactly once per due time",
  "Each time the daemon wakes, every loaded job whose next execution is due is started (or put in its serial / load average queue) exactly once, in order of due time, and rescheduled to a later time; jobs not yet due are not started. No job is lost from or duplicated in the schedule: at every rest point the schedule holds each schedulable line exactly once, ordered by next execution, for any number of jobs due together, daemon delays, and any mix of &-, %-, @- and runonce lines.",
  ["schedules", "histories"],
  "all interleavings of time advances, job completions, fcrondyn run/runnow requests and configuration events up to a depth, over small sets of lines",
  "It is an invariant of the daemon's event loop over histories; no test runs the loop.",
  ["database.c", "fcron.c"],
  [("sorted run queue", "database.c:insert_nextexe,job_queue_remove"), ("due-job scan", "database.c:test_jobs")],
  state="queue_base", observe="fork calls and queue at each select()")

P("C08", "A job never overlaps itself unless told it may",
  "A job without exesev is never started while a previous instance of it is still running or waiting in a queue; serialonce and lavgonce (and their defaults) likewise decide whether a job that is already queued or running can be queued again, and with serialonce(false)/lavgonce(false)/exesev it is queued or started again. This holds across bootrun, restarts, late wake-ups and fcrondyn run requests.",
  ["schedules", "histories", "configurations"],
  "all interleavings of due times, completions, manual runs, and re-reads of the configuration up to a depth for every combination of exesev, serial, serialonce, lavg, lavgonce",
  "Overlap needs a slow job and a second trigger in a window; a test exercises neither.",
  ["database.c"],
  [("instance counter cl_numexe", "database.c:run_normal_job,add_serial_job,add_lavg_job,wait_chld")],
  state="cl_numexe", observe="set of live job processes and queue content")

P("C09", "Serial jobs run in order, at most maxserial at once, and none starves",
  "At most maxserial serial jobs (and separately at most maxserial serial load-average jobs) run at the same time (load-average jobs forced by until apart); queued serial jobs start strictly in the order they were queued, also when the queue wraps around or grows; a new job is refused only when the queue already holds queuelen jobs. As long as a slot is free and a serial job is queued, the job is started without waiting for an unrelated event, whatever happened before (job could not be forked, fcrontab removed or replaced while its job was queued or running, SIGHUP, SIGUSR1).",
  ["schedules", "histories", "fault_sequences"],
  "all sequences of enqueue, completion, fork failure, fcrontab removal/reload up to a depth, for maxserial 1..3 and queue lengths around the growth points of the queue",
  "Ring wrap, growth with a non-zero head and slot accounting need specific multi-step histories.",
  ["database.c", "conf.c", "fcron.c"],
  [("circular serial queue", "database.c:add_serial_job,run_serial_job"), ("slot accounting", "database.c:wait_chld,wait_all"), ("removal of a file's jobs", "conf.c:delete_file")],
  state="serial_array, serial_num, serial_running", observe="fork order, number of live serial jobs")

P("C10", "Load-average jobs start only under their thresholds, until or interval end",
  "A job with lavg options is started only when the 1, 5 and 15 minute load averages satisfy its thresholds (all of the non-zero ones with lavgand, any with lavgor), or when its until delay has expired; it starts at the next check once they do, provided a serial slot is free if it is serial. A strict %-line that could not run before the end of its interval of execution is dropped from the queue, not run, while a non-strict one stays queued until the load allows it (or until expires); an &- or @-line is never dropped.",
  ["schedules", "inputs", "configurations"],
  "all sequences of load values (below/at/above thresholds) and time advances up to a depth x lavgand/lavgor x until x strict x line type x serial",
  "Load average cannot be controlled in a unit test and the outcomes depend on several checks in time.",
  ["database.c", "lavg_list.c", "u_list.c"],
  [("load average queue check", "database.c:check_lavg"), ("limit computation", "database.c:add_lavg_job")],
  state="lavg_list", observe="fork calls, content of lavg queue")

P("C11", "A failed start never wedges a job or a queue slot",
  "If a job cannot be started (fork or pipe fails, the pid cannot be read), the daemon keeps running, all other jobs are unaffected, the failed instance is not counted as running, and at its next due time the job starts normally; no descriptor stays open. The number of running plus queued instances the daemon believes in equals the real one after every event.",
  ["fault_sequences", "schedules"],
  "every placement of up to k fork/pipe/read failures on the start calls of every history of due times and completions up to a depth",
  "Tests do not inject resource exhaustion, and the consequence only shows at later due times.",
  ["database.c", "job.c"],
  [("start of a job", "job.c:run_job"), ("instance accounting", "database.c:run_queue_job,run_normal_job,run_serial_job,run_lavg_job")],
  state="cl_numexe, cf_running, serial_running, lavg_serial_running", observe="later due times start the job")

P("C12", "The daemon sleeps neither past the next event nor in a busy loop",
  "Between events the daemon sleeps until the earliest of: the next due job, the next periodic save, and (if a load average job is waiting) the next load check; it never sets a wake-up later than that, wakes with at most the documented margin, and does not wake before it in a tight loop. Before first_sleep seconds have passed after start it does not wake up by itself, so that no job is executed then.",
  ["schedules", "histories"],
  "all histories of job events, signals and fcrontab changes up to a depth, at every sleep",
  "The wake-up time is a function of the whole state at each loop iteration; tests never run the loop.",
  ["fcron.c", "database.c", "select.c"],
  [("next wake time", "fcron.c:main_loop, database.c:next_wake_time,check_lavg")],
  observe="timeout passed to select()")

P("C13", "No signal is lost, whenever it arrives",
  "A SIGHUP, SIGUSR1, SIGCHLD, SIGTERM or SIGUSR2 delivered at any point of the daemon's execution (during its loop, in the middle of handling another or the same signal, right before it goes to sleep) is acted upon before the daemon next sleeps for long: the new fcrontab is loaded (SIGHUP), every fcrontab is read again (SIGUSR1), finished jobs are reaped (SIGCHLD), the schedule of every fcrontab is printed (SIGUSR2), the daemon stops (SIGTERM). Signals that arrive during the handling of an earlier one of the same kind cause a further pass.",
  ["schedules"],
  "every placement of one and of two signals at the system calls and log lines of a run of the daemon",
  "The lost window is a few instructions wide; a test cannot hit it on purpose.",
  ["fcron.c", "select.c"],
  [("signal flags and their handling", "fcron.c:check_signal, *_handler")],
  state="sig_hup, sig_chld, sig_usr1, sig_usr2, sig_term", observe="effects of the signal (files reloaded, children reaped) before the next long select()")

P("C14", "An installed or removed fcrontab takes effect exactly, for its user only",
  "After the daemon handles an update, the jobs it schedules are exactly those of the current spool: a removed fcrontab's jobs never start again (neither scheduled nor queued ones), a new or replaced one's jobs are all scheduled, and every other user's jobs, queue entries and next executions are untouched. A line left unmodified in a replaced fcrontab keeps its next execution time and its remaining frequency count, while jobs already running are left to finish and are reaped without harming others.",
  ["histories", "schedules"],
  "all sequences of install, replace, remove, job due, job completion, SIGHUP and SIGUSR1 up to a depth with two users",
  "It needs configuration changes interleaved with running and queued jobs.",
  ["conf.c", "database.c", "exe_list.c", "lavg_list.c"],
  [("synchronisation with the spool", "conf.c:synchronize_dir,synchronize_file"), ("removal of a file", "conf.c:delete_file"), ("full reload", "conf.c:reload_all")],
  state="file_base, queue_base, serial_array, lavg_list, exe_list", observe="fork calls, queue at select()")

P("C15", "Start-up, boot and resume options act on exactly the documented events",
  "runatreboot jobs run once at the first fcron start after a system boot and at no other start; runatresume jobs once at each resume; a runonce job runs once until the next boot (or fcron start with volatile) and never more; a bootrun &-line whose time passed while the system was down or suspended runs once, queued, on return, and a line without bootrun does not. Jobs that were still queued or running when fcron stopped are run again once after restart (strict %-lines of the load average queue apart); noticenotrun mails are sent exactly for the lines that missed a run.",
  ["histories", "configurations"],
  "all sequences of boot, fcron restart, suspend/resume, due times and installs up to a depth x all combinations of the options bootrun, runatreboot, runatresume, runonce, volatile, rebootreset, noticenotrun x line types",
  "Depends on option combinations over multi-restart histories; no test covers startup.",
  ["database.c", "conf.c", "fcron.c"],
  [("startup scheduling", "database.c:set_next_exe_startup"), ("boot detection", "fcron.c:is_system_startup")],
  state="cl_option hasrun bit, cl_nextexe, cl_numexe", observe="fork calls after each start")

P("C16", "Suspend time is detected once, and never invented",
  "When the system was suspended, the daemon on wake-up accounts for the suspended duration exactly once: @-lines are delayed by it and missed &-lines are handled as missed. When it was not suspended (late wake-ups of up to a few seconds, wake-up by signal or client) no schedule is changed. A suspend file is honoured only if it is a regular file owned by root and not writable by others, and never accounts for more than the time actually slept.",
  ["histories", "inputs"],
  "all sequences of sleeps with clock answers (suspended or not, clock set or not, woken by timer, signal or client) up to a depth, and all classes of suspend files",
  "Needs control of three clocks and of the wake-up reason.",
  ["suspend.c", "database.c"],
  [("detection", "suspend.c:check_suspend,linux_get_suspend_time"), ("suspend file", "suspend.c:read_suspend_duration")],
  state="linux_suspend_ref", observe="nextexe of @-lines after the loop iteration")

P("C17", "Stopping and restarting the daemon loses and repeats nothing",
  "After a clean stop and a restart, every line has the same identity, options, remaining count and (for time and date lines with a future next execution) the same next execution as before, @-lines resume with the remaining up-time they had, and no job that already ran for its due time runs again for it. The periodic save preserves the same information, so that a crash loses at most what happened since the last save.",
  ["histories", "crash_points"],
  "all histories of due times, completions, saves and stop/start (clean or crash) up to a depth, compared with the uninterrupted history",
  "It relates two histories; a test of save or load alone cannot see a field that is dropped on one side.",
  ["save.c", "conf.c", "database.c", "fcron.c"],
  [("save on exit", "fcron.c:xexit, conf.c:save_file"), ("reload", "conf.c:read_file")],
  observe="run history before and after restart")

# ---------------------------------------------------------------- C. persistence
P("C18", "Every field of every line survives the spool file",
  "Writing a fcrontab's lines to the binary spool file and reading it back gives lines with the same command, user, mail addresses, time zone, schedule fields, frequency, options, nice, load thresholds, until, jitter, tzdiff and environment variables, for any values of these fields and any number of lines.",
  ["inputs"],
  "all single-field and pairwise variations of a line over boundary values of every field, empty and maximal strings, 0..n lines and variables",
  "Fields are written only when they differ from a default and are typed by hand on both sides; one omitted field passes all tests.",
  ["save.c", "conf.c", "save.h"],
  [("type-length-value writer", "save.c:save_file_safe,write_file_to_disk"), ("reader", "conf.c:read_file")],
  observe="lines loaded by the daemon")

P("C19", "A crash while saving leaves the old or the new fcrontab, complete",
  "At whatever point the machine or the process stops while a spool file is being written, the file found at restart under its real name is either the complete previous version or the complete new one, and left-over temporary files are never taken for a fcrontab.",
  ["crash_points"],
  "every prefix of the file-system operations of a save, with every subset of not yet synced writes lost or truncated",
  "Tests cannot stop the machine between two system calls.",
  ["save.c", "temp_file.c", "conf.c"],
  [("write to temporary file, sync, rename", "save.c:save_file_safe")],
  observe="content loaded by the daemon after the crash")

P("C20", "A damaged spool file harms nothing but itself",
  "When a spool file is truncated, has any byte altered, or comes from an unknown version, the daemon refuses it or loads what is valid in it, without memory error, crash, endless loop or exit; no line of a refused file is scheduled, and every other user's fcrontab is loaded as usual.",
  ["inputs", "crash_points"],
  "every truncation length and every single-byte change over a family of byte values (and of every length field) of representative spool files",
  "Thousands of variants of a binary file; tests have none.",
  ["conf.c"],
  [("binary reader", "conf.c:read_file,read_strn,read_type")],
  observe="state of the daemon after synchronize_dir")

P("C21", "Write errors never pass for success nor damage the saved file",
  "If opening, writing, syncing, changing owner of, or renaming a spool file fails or is interrupted or is partial, either the operation is retried and the complete file saved, or the failure is reported and the previous file is left intact. Short writes and interruptions alone never make a save fail or corrupt. A file that cannot be fully read because of an error is not taken, nor saved again, as the whole fcrontab.",
  ["fault_sequences"],
  "every placement of up to two faults (error of each kind, short write, EINTR) on the system calls of a save",
  "Faults must be injected at each call; tests run on a healthy disk.",
  ["save.c", "filesubs.c", "temp_file.c", "subs.c"],
  [("buffered writer", "save.c:write_buf_to_disk"), ("copy of sources", "subs.c / fcrontab.c:copy_src")],
  observe="return code and file content")

# ---------------------------------------------------------------- D. fcrontab language
P("C22", "A time field denotes exactly the documented set of values",
  "For every syntactically valid field (numbers, names, ranges, steps, exclusions, lists, *), the parsed set is the one fcrontab(5) defines: ranges are inclusive, wrap around when the end is smaller, /n keeps every n-th value from the start, ~x removes x, three-letter month and day names equal their numbers in any letter case, months are 1-12, and 0 and 7 are both Sunday. Fields that name a value outside the allowed range are refused.",
  ["inputs"],
  "all fields of a grammar up to a size (numbers around both bounds, all names) in each of the five positions",
  "The parser test checks only the command part of a few lines, never the sets.",
  ["fileconf.c"],
  [("field parser", "fileconf.c:read_field,get_num")],
  observe="bit sets of the parsed line")

P("C23", "Every documented option has exactly its documented effect",
  "Each option of fcrontab(5), in long and abbreviated form, with every form of boolean, integer, real, time-value and string argument, sets exactly the property it documents for the lines it applies to (the line itself, or all following lines for a ! declaration until reset), and nothing else; arguments that are out of range or of the wrong type are refused.",
  ["inputs", "configurations"],
  "every option x every argument form x declaration on the line, by ! before it, in pairs of options",
  "About 45 options by hand-written code; the tests parse two of them.",
  ["fileconf.c", "option.h"],
  [("option parser", "fileconf.c:read_opt")],
  observe="parsed line")

P("C24", "A fcrontab with an error is never silently half-installed",
  "For any text, either every non-comment line of it is parsed into a setting, variable or job, or the parser reports an error naming it: no line is dropped or changed in meaning silently; a line that cannot be parsed never yields a job, and an option which is unknown or not permitted is reported and has no effect. A line that is valid alone is valid and means the same after any other line.",
  ["inputs"],
  "all sequences of up to three lines over an alphabet of valid and invalid lines of every kind",
  "The interplay of one line's error with the state left for the next lines needs sequences of lines.",
  ["fileconf.c", "fcrontab.c"],
  [("line dispatcher and error recovery", "fileconf.c:read_file,R_field")],
  observe="need_correction, return value and parsed lines")

P("C25", "Lines, quotes, comments and variables are read as documented",
  "Comments and blank lines are ignored; a backslash-newline joins lines; name = value assignments have blanks around = and at the end removed and matching quotes stripped with their content kept; the command of a job is the rest of its line, unchanged; a line longer than the limit is refused as a whole and entries in excess of the limit are reported, nothing is ever cut silently.",
  ["inputs"],
  "all short texts over an alphabet of significant characters (blank, quote, backslash, newline, #, =, letters) and lines of every length around the buffer limits",
  "Needs exhaustive small strings and exact buffer boundary lengths.",
  ["fileconf.c", "subs.c"],
  [("logical line reader", "fileconf.c:get_line,get_string,read_env"), ("blank removal", "subs.c:remove_blanks")],
  observe="environment list and commands")

P("C26", "No fcrontab text can corrupt fcrontab's memory",
  "Whatever the content of the text file given to fcrontab (which runs with privileges), parsing it ends, without out-of-bounds access, use of freed memory, undefined arithmetic or crash.",
  ["inputs"],
  "all strings up to a length over the parser's significant tokens, inserted in every syntactic position",
  "Memory errors in a parser do not show in outcomes of ordinary tests.",
  ["fileconf.c", "subs.c", "env_list.c"],
  [("parser", "fileconf.c")],
  observe="AddressSanitizer/UBSan on the real parser")

P("C27", "What the user writes is what the daemon runs",
  "For any accepted fcrontab, the lines the daemon loads after fcrontab wrote the spool file have the commands, schedules, options, environment and users that the text means, and start at the times the text means.",
  ["inputs", "histories"],
  "all single lines of a grammar covering every line type and option, through the real fcrontab writer and the real daemon reader, run for a simulated period",
  "Two programs share a private binary format; each can be right alone.",
  ["fileconf.c", "save.c", "conf.c", "database.c"],
  [("spool format", "save.h"), ("writer and reader", "fileconf.c:save_file, conf.c:read_file")],
  observe="start times and commands of jobs")

# ---------------------------------------------------------------- E. access control and privileges
P("C28", "Only allowed users can use fcrontab",
  "A user may use fcrontab, fcrondyn and fcronsighup if and only if: they are not named in fcron.deny, and either they are named in fcron.allow, or 'all' is not in fcron.deny and fcron.allow does not exist or contains 'all'. This holds whatever the order, blanks, comments and length of the lines of these files, and a file which exists but cannot be read never lets in a user it might keep out.",
  ["inputs", "configurations"],
  "all pairs of allow and deny files with up to three lines over an alphabet of names, prefixes, 'all', blanks, comments and over-long lines, including missing files",
  "Combinations of two files and odd lines; no test.",
  ["allow.c", "subs.c"],
  [("access decision", "allow.c:is_allowed,in_file")],
  observe="is_allowed()")

P("C29", "Installing, replacing and removing a fcrontab survives a crash anywhere",
  "At whatever system call fcrontab stops while installing or removing a fcrontab, the daemon's next synchronisation yields either the complete old or the complete new configuration of that user, never a mixture or a lost fcrontab, and re-running the command completes it; the readable source and the formatted file that the daemon uses never disagree after completion.",
  ["crash_points", "fault_sequences"],
  "every prefix of the file-system calls of install, replace and remove, followed by the daemon's synchronisation, and each call failing",
  "Needs stopping between system calls of two programs.",
  ["fcrontab.c", "fileconf.c", "conf.c", "save.c"],
  [("install protocol with new. and rm. files", "fcrontab.c:write_file,remove_fcrontab"), ("daemon side", "conf.c:synchronize_dir,synchronize_file")],
  observe="spool directory and loaded lines")

P("C30", "A normal user's jobs run as that user only",
  "A job of a fcrontab owned by a non-root user runs with the identity of that user whatever the fcrontab text or the spool file contains (runas, user field, negative nice are refused or neutralised), and only root's and the system fcrontab can use another identity; a spool file whose owner does not match the user it claims is not loaded.",
  ["inputs", "configurations"],
  "all combinations of file owner, file name, claimed user, runas value and nice value, via text and via a handcrafted spool file",
  "A security decision spread over two programs, and only visible for hostile input.",
  ["fileconf.c", "conf.c", "job.c"],
  [("runas check in parser", "fileconf.c:read_opt,read_arys"), ("runas check in daemon", "conf.c:read_file,add_line_to_file")],
  observe="uid a job is started with")

# ---------------------------------------------------------------- F. job execution
P("C31", "A job gets exactly the documented environment",
  "The command is executed by the documented shell (SHELL of the fcrontab, else of fcron.conf, else of passwd) with -c and the exact command text, in the user's home, with USER, HOME, SHELL, TZ and PATH set as documented, every variable of the fcrontab set (USER and LOGNAME cannot be overridden, HOME and SHELL can), the requested nice value, and nothing of the daemon's own environment, signal handlers or descriptors.",
  ["inputs", "configurations"],
  "all combinations of fcrontab variables (override or not), fcron.conf shell, timezone, nice and stdout/mail settings",
  "A test would have to run as several users; combinations of overrides are not covered.",
  ["job.c", "env_list.c"],
  [("environment setup", "job.c:setup_user_and_env,change_user_setup_env"), ("exec", "job.c:run_job_child")],
  observe="arguments of execle and state of the process at that call")

P("C32", "Job output is mailed exactly when and to whom documented",
  "After a job ends, a mail is sent if and only if: it produced output and mail is on (and with erroronlymail it exited non-zero), or forcemail is set, or it ended abnormally by the documented rules; never with mail(no). It goes to mailto (default the file owner), contains the complete output and the headers, and the exit of the job is logged unless nolog.",
  ["configurations", "inputs"],
  "all combinations of mail, forcemail, erroronlymail, nolog, output size (0, small, large), exit status and signal",
  "Eight flags and statuses; no test covers end of job.",
  ["job.c"],
  [("mail decision", "job.c:end_job,end_mailer,launch_mailer"), ("mail composition", "job.c:create_mail")],
  observe="exec of sendmail and content of the mail file")

P("C33", "A job never runs with more privileges than its user",
  "Before the command (or the mailer) is executed the process has set, in an order that makes it irreversible, group, supplementary groups and user identity of the target user; if any of these steps, or finding the user, fails, the command is not executed; no failing call makes a process of the job crash or misuse memory.",
  ["fault_sequences"],
  "every placement of one and two failures on the identity-changing calls for every kind of job and mail",
  "Failures of setuid and friends never occur in a test environment.",
  ["job.c"],
  [("identity change", "job.c:become_user,change_user_setup_env")],
  observe="sequence of identity calls before exec")

P("C34", "Mail headers built from configuration are well formed",
  "For every display name, user and host name, the From mailbox is the RFC 5322 quoted form of the same characters (a backslash in the name quotes the next character; a lone last one stands for itself) or an error, never truncated, over-long, unterminated or able to start a new header, and no memory outside the result is touched.",
  ["inputs"],
  "all display names up to a length over the special characters and all lengths around the buffer limit",
  "The test checks eight strings.",
  ["mail.c", "job.c"],
  [("display name quoting", "mail.c:format_maildisplayname"), ("mailbox", "mail.c:make_mailbox_addr")],
  observe="returned strings")

# ---------------------------------------------------------------- G. fcrondyn
P("C35", "A fcrondyn client sees and controls only its own jobs",
  "For every sequence of requests, a client authenticated as a normal user gets listings and details only of its own jobs, and can run, signal or renice only its own jobs and only with a non-negative nice value; root can act on all; an unauthenticated client can do nothing but authenticate.",
  ["inputs", "histories"],
  "all commands x argument values (own, other's, missing, out of range, ALL, other uid, system fcrontab) x identity x job states",
  "Authorisation checks are repeated per command; one missing check passes all tests.",
  ["fcrondyn_svr.c"],
  [("permission checks", "fcrondyn_svr.c:cmd_ls,cmd_on_exeq,cmd_run")],
  observe="data sent to the client, kill/setpriority/fork calls")

P("C36", "No client can crash, block or confuse the daemon",
  "Whatever bytes a client sends, in whatever pieces, and whenever it disconnects, the daemon neither crashes nor blocks, acts only on bytes that were received, never on left-overs of another client's message, and other clients and jobs are served as usual.",
  ["inputs", "schedules"],
  "all message lengths 1..max, all command words in and around the valid ranges, splits in two pieces, disconnects at any step, with two clients",
  "Malformed and partial messages are not produced by the real client that a test would use.",
  ["fcrondyn_svr.c", "select.c"],
  [("message reception", "fcrondyn_svr.c:fcrondyn_socket_check,exe_cmd")],
  observe="answers on sockets, sanitizer")

P("C37", "fcrondyn lists exactly the jobs the daemon has",
  "ls, ls_serialq, ls_lavgq, ls_exeq and detail list each scheduled, queued or running job of the requested user exactly once, in queue order, with its id, true state and next execution, each answer complete and terminated by the end marker.",
  ["histories", "inputs"],
  "all states reachable by up to k events of queues and running jobs x all list commands",
  "Content depends on queue state, ring index and truncation of long commands.",
  ["fcrondyn_svr.c"],
  [("listing", "fcrondyn_svr.c:cmd_ls,print_line,print_fields")],
  observe="bytes sent")

P("C38", "Every connected client is watched until it is closed",
  "The descriptors the daemon waits on are at all times exactly the listening socket, the time-change notifier and the open client connections; closing any one, in any order, stops none of the others from being served, and idle or unauthenticated connections are closed after their limits and not before.",
  ["histories"],
  "all sequences of connect, command, disconnect, idle time over up to four descriptors in every order",
  "The defect of a wrong maximum descriptor only shows when a particular connection closes first.",
  ["select.c", "fcrondyn_svr.c"],
  [("descriptor set", "select.c:select_add_read,select_rm_read"), ("connection list", "fcrondyn_svr.c:remove_connection")],
  observe="arguments of select()")

P("C39", "run, runnow, kill and renice do what they say to the named job only",
  "run starts (or queues) the named job without changing its next execution; runnow does the same and moves the next execution to the one after the current; kill and renice act on the processes of the named job's running instances and no other process; each request is answered once with success or the reason of failure.",
  ["histories", "inputs"],
  "all commands on all jobs in all reachable queue/running states up to a depth",
  "Needs running jobs in chosen states.",
  ["fcrondyn_svr.c", "database.c"],
  [("commands", "fcrondyn_svr.c:cmd_run,cmd_send_signal,cmd_renice")],
  observe="kill/setpriority/fork calls, cl_nextexe")

# ---------------------------------------------------------------- H. foundations
P("C40", "Lists of running and waiting jobs never lose or repeat an entry",
  "The list containers used for running jobs, load-average jobs and environment variables behave as a set under any sequence of add, iterate, remove-current, stop-iteration and growth, including removal and addition during an iteration: every other entry is visited exactly once per iteration and none is lost; a bounded list refuses additions only when full.",
  ["programs", "histories"],
  "all operation sequences up to a depth around the growth and limit boundaries, against a reference list",
  "The unit test runs one add/iterate scenario; removal during iteration at growth boundaries is not covered.",
  ["u_list.c", "exe_list.c", "lavg_list.c", "env_list.c"],
  [("unordered list", "u_list.c"), ("environment list", "env_list.c")],
  observe="sequence of entries returned")

P("C41", "fcron.conf settings are applied to exactly the named variable",
  "For any fcron.conf that is owned by root:fcron and not writable by others, each line of the form name = value sets exactly the variable it names to its value without surrounding blanks; lines whose name is unknown, empty, abbreviated or longer change nothing, nor does the end of an over-long line; a file with other owner or mode is ignored.",
  ["inputs"],
  "all files of up to two lines over an alphabet of names, prefixes, blanks, values, missing parts and lengths around the buffer size",
  "No test reads a configuration file.",
  ["fcronconf.c", "subs.c"],
  [("parser", "fcronconf.c:read_conf, subs.c:get_word")],
  observe="configuration variables")

P("C42", "Repeated password failures are throttled and never authenticate",
  "On systems without peer credentials a connection is authenticated only with the right password of the named user; after the maximum number of failures, further attempts are refused until the waiting time has passed, whatever the interleaving of clients and correct attempts; a refused or malformed attempt never authenticates.",
  ["histories", "inputs"],
  "all sequences of right, wrong, unknown-user and malformed attempts and time advances up to a depth",
  "Needs long sequences with time; code path is disabled in the tested build but supported.",
  ["fcrondyn_svr.c"],
  [("password authentication", "fcrondyn_svr.c:auth_client_password")],
  observe="answers and fcl_user")

P("C43", "The daemon is told about every fcrontab change, in time, and only once",
  "Whatever the number of users installing fcrontabs at the same time and the order in which their fcronsighup run, every one of them is followed by a SIGHUP to the running daemon, sent by the time which was announced to that user; that time is between one second and the configured maximum (at most one minute) away, and is now for root or when no delay is configured; users who wait together cause one signal, not one each; the signal goes to the daemon which runs then, also when it has been replaced meanwhile; no lock file is left; if a failing call prevents the signal, an error is reported.",
  ["schedules", "faults"],
  "two and three instances, all their interleavings within a preemption bound, all arrival seconds around the boundaries, one failing call",
  "Races of short-lived processes on a lock file which one of them removes; no test runs fcronsighup.",
  ["fcronsighup.c", "subs.c"],
  [("waiting and signalling", "fcronsighup.c:sig_daemon"), ("the daemon's pid", "subs.c:read_pid")],
  observe="kill() calls and their times, text on stderr, files")

P("C44", "fcrondyn sends what was typed and shows what was answered",
  "Each well-formed command typed in fcrondyn, on the command line or interactively, is sent as the command of that name with the values of its arguments (user, job, signal, nice value); a malformed one, or one with values out of range or names of no user, is refused with a message and nothing is sent; the answer is shown completely and as it is, each message once and on lines of its own, in whatever pieces it is received, and the program then goes on with the next command; if the connection is cut or fails before the end of the answer, that is reported and the exit status says so.",
  ["inputs", "schedules"],
  "all commands of up to three arguments of a vocabulary, all ways to cut short answers into up to four pieces and long ones into two or three around the buffer sizes, all places where the connection ends, each failing call",
  "The pieces in which an answer is received depend on timing; the client has no tests.",
  ["fcrondyn.c", "subs.c"],
  [("parsing", "fcrondyn.c:parse_cmd, subs.c:get_word"), ("answers", "fcrondyn.c:talk_fcron")],
  observe="bytes sent, text shown, exit status")

P("C45", "Only one daemon runs at a time, and fcron.pid names it",
  "However many daemons are started with the same configuration, and whenever others are stopped or killed, at most one of them gets past its start: it does so only when no other runs or is still saving its fcrontabs; while it runs, the pid file exists, can be read by everybody and contains exactly its pid, and its socket exists; a daemon which is refused says so, fails, and changes nothing; one which is alone is never refused, whatever an earlier one left behind; after a clean stop no pid file is left.",
  ["schedules", "faults", "crash points"],
  "up to three daemons, all interleavings of their calls on shared files within a preemption bound, SIGTERM and SIGKILL at any point, five kinds of left-over pid files, one failing call",
  "Two daemons would run every job twice; the windows are between single system calls.",
  ["fcron.c", "fcrondyn_svr.c"],
  [("lock", "fcron.c:get_lock"), ("end", "fcron.c:xexit")],
  observe="which daemons reach their main loop, files in /var/run")

P("C46", "fcrontab does what its command line says, with its user's rights only",
  "A command line of fcrontab either is one that fcrontab(1) describes, by a user who may use it, about a user who exists and is allowed, and then exactly what it says is done to that user's fcrontab (installed from a file or standard input, listed, removed, edited, reinstalled), the daemon is told once about a change, and the exit status is 0; or it is refused: the exit status is not 0 and nothing has changed. Only root may name another user. Files are read with the rights of the invoking user, whose editor (VISUAL, EDITOR, or the one configured) runs as that user on a private copy; a change made in the editor is always installed, however quickly it is made, unless the editor is killed, the file is gone, or the text has errors and the user does not accept them; no temporary file is left, and nobody else's file is changed or shown.",
  ["inputs", "histories"],
  "all sequences of up to three of 38 words and up to four of 13 by root, a user and a denied user, with and without fcrontabs; all sequences of up to three of 15 behaviours of an editor with 11 ways to answer",
  "The program is set-user-id and reads files named by its user; what the editor and its user do has too many combinations for examples.",
  ["fcrontab.c", "subs.c", "temp_file.c", "allow.c"],
  [("command line", "fcrontab.c:parseopt"), ("editing", "fcrontab.c:edit_file"), ("rights", "subs.c:open_as_user")],
  observe="files, exit status, output, identity of the editor, signals sent")

P("C47", "A user's fcrontab is kept under that user's own name, whatever the name",
  "After any sequence in which two users' fcrontabs are installed, replaced and removed, and the daemon is told, stopped or killed and started again, the daemon runs for each user exactly the version that user last installed, with that user's identity and variables, and none for a user who removed it - also when the names contain dots, are prefixes of each other, differ only in case, are as long as the system allows, or begin like the file names the spool uses itself. A line kept by a new version keeps its schedule from the same user's previous version only. (Users named new, rm or load together with users named orig or tmp are left out: the spool's file names cannot tell these apart.)",
  ["histories", "inputs", "crash points"],
  "276 pairs of 24 user names, less 6; all sequences of up to 5 operations (thorough 6) of 9",
  "Which pairs of names collide depends on every place that takes a file name apart; examples use alice and bob.",
  ["conf.c", "fcrontab.c"],
  [("loading by name", "conf.c:synchronize_dir"), ("finding the old version", "conf.c:synchronize_file"), ("removing", "conf.c:delete_file")],
  observe="the fcrontabs in the daemon's memory after each start and reload")

P("C48", "check_system_crontabs keeps the system fcrontab equal to its source files",
  "After a run of check_system_crontabs that nothing disturbs, the system fcrontab consists of the lines of the system crontab, of every file of the crontab directory (but directories and backups ending in ~) and of the system fcrontab file (links in place of the two files being ignored), in that order, changed only where a line starts with one of the times fcron does not know (@daily and the like): whatever was created, changed, removed, renamed or replaced since the last run or during it, whether or not a system fcrontab existed, and even if a run was interrupted or its fcrontab failed. A second run installs nothing. An interrupted run installs the whole or nothing, and leaves no temporary file unless it was killed.",
  ["histories", "crash points", "schedules"],
  "two initial states; sequences of up to 3 (thorough 4) of 15 changes and runs; one change, then a change, signal or failure at every command of a run",
  "Changes are noticed by dates: what is missed depends on the order and the moment of changes.",
  ["script/check_system_crontabs.sh"],
  [("building", "script/check_system_crontabs.sh:build"), ("noticing changes", "script/check_system_crontabs.sh:NEED_REBUILD")],
  observe="the system fcrontab installed, number of installations, temporary files")

P("C49", "The suspend script tells the daemon exactly how long the machine slept",
  "Called before a suspend or hibernation, in each of the documented ways, the suspend script stops the daemon and records the time; called at the resume, it leaves in the suspend file exactly the seconds slept, then lets the daemon continue. No duration is left when none is known, another word does nothing, and the daemon is never left stopped after a resume.",
  ["histories"],
  "all sequences of up to 3 (thorough 5) of 12 events",
  "The daemon trusts the duration for every job it schedules; the calls come in any order.",
  ["script/fcron.suspend.sh.in"],
  [("before", "script/fcron.suspend.sh.in:kill -STOP"), ("after", "script/fcron.suspend.sh.in:SLEEP_DURATION")],
  observe="state of the daemon's process, date and contents of the suspend file")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for o in OUT:
        assert len(o["title"]) <= 80, (o["id"], len(o["title"]))
        f.write(json.dumps(o) + "\n")
print(len(OUT), "properties")
