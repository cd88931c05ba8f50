From 4898e4bac4bd538b2b1f5880226f91b3b45840e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 01/94] fix: dayor lines may be scheduled past the last day of
 a month

The search for the next matching day tested the day after the last day of
the month (and its day of week) before checking it is in the month, so that
a line could be run on a day which matches none of its fields.
---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 1762e61..04085a2 100644
--- a/database.c
+++ b/database.c
@@ -1169,8 +1169,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
             j = ftime.tm_wday;
             i = ftime.tm_mday;
-            while ((bit_test(line->cl_days, i) == 0) &&
-                   (bit_test(line->cl_dow, j) == 0)) {
+            while ((i > max) || ((bit_test(line->cl_days, i) == 0) &&
+                                 (bit_test(line->cl_dow, j) == 0))) {
                 if (i > max) {
                     ftime.tm_mon++;
                     if (has_changed < 2) {
-- 
2.43.0


From e20df7ae47717b1bb28cbb6a33012917d60ebb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 02/94] fix: %-line run in the last minute before a period
 skips that period

The next period was searched from the minute following the run: a
midhourly line run at 10:29, or a %-line run just before its interval of
execution, skipped the period beginning one minute later.
---
 database.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/database.c b/database.c
index 04085a2..01533de 100644
--- a/database.c
+++ b/database.c
@@ -1080,17 +1080,20 @@ set_next_exe(cl_t *line, char option, int info_fd)
         /* creates a bug on DST change on some systems ?? */
         /* ftime.tm_isdst = -1; */
 
+        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG) {
+            /* %-line: go to the period following the one containing basetime
+             * (start from basetime itself: the next minute may already be
+             *  in the next period, which must not be skipped) */
+            ftime.tm_sec = 0;
+            move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
+        }
         /* to prevent multiple execution of &-jobs in the same minute
          * (but not if the user has explicitely asked to run jobs immediately) */
-        if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
+        else if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
             ftime.tm_min += 1;
             ftime.tm_sec = 0;
         }
 
-        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG)
-            /* %-line: go to next period */
-            move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
-
  setMonth:
         for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
              i++) ;
-- 
2.43.0


From 77f8f037eb5abd7ad5a64a06ebbbc62da55fda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 03/94] fix: keep the order of the serial queue when it grows

The two parts of the circular array were copied to the wrong places unless
the first job was at index 0: jobs were lost and NULL entries were run.
---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 01533de..11f661a 100644
--- a/database.c
+++ b/database.c
@@ -417,9 +417,9 @@ add_serial_job(cl_t *line, int info_fd)
                 alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
 
             /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr + serial_array_index, serial_array,
+            memcpy(ptr, serial_array + serial_array_index,
                    (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr, serial_array + (old_size - serial_array_index),
+            memcpy(ptr + (old_size - serial_array_index), serial_array,
                    (sizeof(cl_t *) * serial_array_index));
             serial_array_index = 0;
             Free_safe(serial_array);
-- 
2.43.0


From 565b60acc39a43cebd7c97729497c6f3878778a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 04/94] fix: release the serial slot of a job whenever it ends
 or could not start

The counts of running serial and lavg-serial jobs were derived from the options
of the line. A failed fork leaked a slot and left the line marked as running
for ever; replacing a fcrontab freed the slots of jobs still running; a
non-serial job put in the serial queue with an instance already running freed
a slot it did not have. Remember the slot used in the exe_t entry instead.
---
 conf.c     | 10 +------
 database.c | 86 +++++++++++++++++++++++++++++++++++-------------------
 exe_list.c |  2 +-
 exe_list.h |  6 ++++
 job.c      |  4 +++
 5 files changed, 68 insertions(+), 40 deletions(-)

diff --git a/conf.c b/conf.c
index 4b09624..d8d9a22 100644
--- a/conf.c
+++ b/conf.c
@@ -916,15 +916,7 @@ delete_file(const char *user_name)
             if (e->e_line != NULL && e->e_line->cl_file == file) {
                 /* we set the e_line to NULL, as so we know in wait_chld()
                  * and wait_all() the corresponding file has been removed.
-                 * Plus, we decrement serial_running and lavg_serial_running
-                 * as we won't be able to do it at the end of the job */
-                if ((is_serial(e->e_line->cl_option) ||
-                     is_serial_once(e->e_line->cl_option)) &&
-                    !is_lavg(e->e_line->cl_option))
-                    serial_running--;
-                else if (is_serial(e->e_line->cl_option) &&
-                         is_lavg(e->e_line->cl_option))
-                    lavg_serial_running--;
+                 * The job keeps its running slot (e_slot) until it ends. */
                 e->e_line = NULL;
             }
 
diff --git a/database.c b/database.c
index 11f661a..63556fd 100644
--- a/database.c
+++ b/database.c
@@ -38,7 +38,8 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-void run_queue_job(cl_t * line);
+int run_queue_job(cl_t * line, char slot);
+void release_slot(exe_t * e);
 int is_loop_in_queue(void);
 
 
@@ -181,8 +182,11 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        run_queue_job(line);
-        send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        if (run_queue_job(line, EXE_SLOT_NONE) == OK)
+            send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        else
+            send_msg_fd(info_fd, "Job '%s' could not be started.",
+                        line->cl_shell);
     }
     else {
         warn_fd(info_fd,
@@ -196,10 +200,8 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    run_queue_job(l->l_line);
-
-    if (is_serial(l->l_line->cl_option))
-        lavg_serial_running++;
+    run_queue_job(l->l_line, (is_serial(l->l_line->cl_option)) ?
+                  EXE_SLOT_LAVG_SERIAL : EXE_SLOT_NONE);
 
 }
 
@@ -215,38 +217,63 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        run_queue_job(serial_array[serial_array_index]);
-        serial_array[serial_array_index] = NULL;
+        cl_t *line = serial_array[serial_array_index];
 
-        serial_running++;
+        serial_array[serial_array_index] = NULL;
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
         serial_num--;
 
+        if (run_queue_job(line, EXE_SLOT_SERIAL) != OK)
+            clear_serial_once(line->cl_option);
     }
 }
 
 
-void
-run_queue_job(cl_t *line)
-    /* run a job */
+int
+run_queue_job(cl_t *line, char slot)
+    /* run a job, which will use one of the running slots 'slot' until it ends.
+     * line->cl_numexe must already include that job.
+     * Return OK if the job has been started, ERR otherwise */
 {
 
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, EXE_SLOT_NONE };
 
 /*      // */
 /*      debug("run_queue_job"); */
 /*      // */
 
     e.e_line = line;
+    e.e_slot = slot;
 
     /* run the job */
-    if (run_job(&e) == OK) {
-        /* append job to the list of executed job */
-        exe_list_add(exe_list, &e);
-        line->cl_file->cf_running += 1;
+    if (run_job(&e) != OK) {
+        /* the job isn't running, and isn't in a queue any more either */
+        line->cl_numexe -= 1;
+        return ERR;
     }
 
+    /* append job to the list of executed job */
+    exe_list_add(exe_list, &e);
+    line->cl_file->cf_running += 1;
+    if (slot == EXE_SLOT_SERIAL)
+        serial_running++;
+    else if (slot == EXE_SLOT_LAVG_SERIAL)
+        lavg_serial_running++;
+
+    return OK;
+}
+
+void
+release_slot(exe_t *e)
+    /* give back the running slot used by a job which has ended */
+{
+    if (e->e_slot == EXE_SLOT_SERIAL)
+        serial_running--;
+    else if (e->e_slot == EXE_SLOT_LAVG_SERIAL)
+        lavg_serial_running--;
+
+    e->e_slot = EXE_SLOT_NONE;
 }
 
 int
@@ -564,6 +591,10 @@ wait_chld(void)
              e = exe_list_next(exe_list)) {
 
             if (pid == e->e_ctrl_pid) {
+                char slot = e->e_slot;
+
+                release_slot(e);
+
                 if (e->e_line == NULL) {
                     /* the corresponding file has been removed from memory */
                     debug("Child exited: pid %d", pid);
@@ -575,23 +606,16 @@ wait_chld(void)
                     line->cl_numexe -= 1;
                     line->cl_file->cf_running -= 1;
 
-                    if (is_serial_once(line->cl_option)) {
+                    if (slot == EXE_SLOT_SERIAL)
                         clear_serial_once(line->cl_option);
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_serial(line->cl_option)
-                             && !is_lavg(line->cl_option)) {
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_lavg(line->cl_option)
-                             && is_serial(line->cl_option))
-                        lavg_serial_running--;
                 }
 
                 exe_list_remove_cur(exe_list);
                 exe_list_end_iteration(exe_list);
+
+                if (slot == EXE_SLOT_SERIAL
+                    && serial_running < serial_max_running)
+                    run_serial_job();
                 break;
             }
         }
@@ -614,6 +638,8 @@ wait_all(int *counter)
         for (e = exe_list_first(exe_list); e != NULL;
              e = exe_list_next(exe_list)) {
             if (pid == e->e_ctrl_pid) {
+                release_slot(e);
+
                 if (e->e_line == NULL) {
                     /* the corresponding file has been removed from memory */
                     debug("Job finished: pid %d", pid);
diff --git a/exe_list.c b/exe_list.c
index 9e4ce53..4e66211 100644
--- a/exe_list.c
+++ b/exe_list.c
@@ -41,7 +41,7 @@ exe_list_init(void)
 exe_t *
 exe_list_add_line(exe_list_t *list, struct cl_t *line)
 {
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, EXE_SLOT_NONE };
     e.e_line = line;            /* ANSI C does not allow us to directly replace NULL by line above */
 
     return (exe_t *) u_list_add((u_list_t *) list, (u_list_entry_t *) & e);
diff --git a/exe_list.h b/exe_list.h
index 6356bbb..50979cd 100644
--- a/exe_list.h
+++ b/exe_list.h
@@ -37,8 +37,14 @@ typedef struct exe_t {
     struct cl_t *e_line;
     pid_t e_ctrl_pid;           /* pid of the fcron process controling the job */
     pid_t e_job_pid;            /* pid of the job itself */
+    char e_slot;                /* running slot used by the job (see EXE_SLOT_*) */
 } exe_t;
 
+/* exe_t.e_slot: which count of running jobs the job is part of */
+#define EXE_SLOT_NONE 0         /* no limit on the number of running jobs */
+#define EXE_SLOT_SERIAL 1       /* serial_running */
+#define EXE_SLOT_LAVG_SERIAL 2  /* lavg_serial_running */
+
 typedef struct u_list_t exe_list_t;
 
 /* functions prototypes */
diff --git a/job.c b/job.c
index ef8b653..88085ab 100644
--- a/job.c
+++ b/job.c
@@ -556,6 +556,10 @@ run_job(struct exe_t *exeent)
     switch (pid = fork()) {
     case -1:
         error_e("Fork error : could not exec '%s'", line->cl_shell);
+        if (pipe_pid_fd[0] != -1)
+            xclose_check(&(pipe_pid_fd[0]), "pipe_pid_fd[0]");
+        if (pipe_pid_fd[1] != -1)
+            xclose_check(&(pipe_pid_fd[1]), "pipe_pid_fd[1]");
         return ERR;
         break;
 
-- 
2.43.0


From 5b3a1480480e960c9a0261774dd04d9967cc5ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 05/94] fix: honour a queue length (-q) lower than the initial
 size of the queues

The limit of the serial and lavg queues was only checked once their array had
to grow, i.e. from 10 entries up, whereas fcron -q accepts values from 5.
---
 database.c | 55 +++++++++++++++++++++++++++---------------------------
 u_list.c   |  6 ++++++
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/database.c b/database.c
index 63556fd..38fc286 100644
--- a/database.c
+++ b/database.c
@@ -423,35 +423,34 @@ add_serial_job(cl_t *line, int info_fd)
     send_msg_fd_debug(info_fd, "inserting in serial queue '%s'",
                       line->cl_shell);
 
+    /* the limit may be lower than the (initial) size of the array */
+    if (serial_num >= serial_queue_max) {
+        error_fd(info_fd, "Could not add job : serial queue is full "
+                 "(%d jobs). Consider using option serialonce, fcron's "
+                 "option -m and/or -q : '%s'", serial_queue_max,
+                 line->cl_shell);
+        if (is_notice_notrun(line->cl_option))
+            mail_notrun(line, QUEUE_FULL, NULL);
+        return;
+    }
+
     if (serial_num >= serial_array_size) {
-        if (serial_num >= serial_queue_max) {
-            error_fd(info_fd, "Could not add job : serial queue is full "
-                     "(%d jobs). Consider using option serialonce, fcron's "
-                     "option -m and/or -q : '%s'", serial_queue_max,
-                     line->cl_shell);
-            if (is_notice_notrun(line->cl_option))
-                mail_notrun(line, QUEUE_FULL, NULL);
-            return;
-        }
-        else {
-            cl_t **ptr = NULL;
-            short int old_size = serial_array_size;
-
-            debug("Resizing serial_array");
-            serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
-
-            ptr =
-                alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
-
-            /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr, serial_array + serial_array_index,
-                   (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr + (old_size - serial_array_index), serial_array,
-                   (sizeof(cl_t *) * serial_array_index));
-            serial_array_index = 0;
-            Free_safe(serial_array);
-            serial_array = ptr;
-        }
+        cl_t **ptr = NULL;
+        short int old_size = serial_array_size;
+
+        debug("Resizing serial_array");
+        serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
+
+        ptr = alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
+
+        /* copy lines in order to have the first line at the index 0 */
+        memcpy(ptr, serial_array + serial_array_index,
+               (sizeof(cl_t *) * (old_size - serial_array_index)));
+        memcpy(ptr + (old_size - serial_array_index), serial_array,
+               (sizeof(cl_t *) * serial_array_index));
+        serial_array_index = 0;
+        Free_safe(serial_array);
+        serial_array = ptr;
     }
 
     if ((i = serial_array_index + serial_num) >= serial_array_size)
diff --git a/u_list.c b/u_list.c
index 4f991ea..92a5e29 100644
--- a/u_list.c
+++ b/u_list.c
@@ -151,6 +151,12 @@ u_list_add(u_list_t *l, u_list_entry_t *e)
     if (l == NULL || e == NULL)
         die("Invalid arguments for u_list_add(): list=%d, entry=%d", l, e);
 
+    /* max_entries may be lower than the (initial) size of the array */
+    if (l->max_entries > 0 && l->num_entries >= l->max_entries) {
+        debug("u_list_t is full (%d entries)", l->num_entries);
+        return NULL;
+    }
+
     /* Check there is some space left, or resize the array */
     if (l->num_entries >= l->array_size) {
         /* no more space: attempt to grow (the following function dies on error: */
-- 
2.43.0


From a52223e75d5b046d3007a4e8378506c838d17605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 06/94] fix: do not lose a signal received while another one is
 being handled

The flags set by the signal handlers were cleared after the action, signals
actioned at the end of the main loop did not change the wake time already
computed, and one received just before select() was only noticed after the
sleep: a job end, a new fcrontab or a SIGTERM could be missed for up to
save_time. Clear the flags first, block the signals but during the sleep
(pselect()), and don't sleep if a signal is still to be handled.
---
 fcron.c  | 44 +++++++++++++++++++++++++++++++++++---------
 select.c | 14 +++++++++++---
 select.h |  5 ++++-
 3 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/fcron.c b/fcron.c
index 0be2604..d1127bd 100644
--- a/fcron.c
+++ b/fcron.c
@@ -38,6 +38,7 @@
 
 void main_loop(void);
 void check_signal(void);
+bool is_signal_received(void);
 void reset_sig_cont(void);
 void info(void);
 void usage(void);
@@ -778,9 +779,12 @@ void
 check_signal()
     /* Action any received signals. */
 {
+    /* NOTE: a flag must be cleared *before* the signal is actioned, so as a signal
+     * received while we are doing so is not lost. */
+
     if (sig_chld == true) {
-        wait_chld();
         sig_chld = false;
+        wait_chld();
         reinstall_signal_handler(SIGCHLD, sigchld_handler);
     }
 
@@ -793,27 +797,35 @@ check_signal()
 
     if (sig_hup == true) {
         /* update configuration */
-        synchronize_dir(".", 0);
         sig_hup = false;
+        synchronize_dir(".", 0);
         reinstall_signal_handler(SIGHUP, sighup_handler);
     }
     if (sig_usr1 == true) {
         /* reload all configuration */
-        reload_all(".");
         sig_usr1 = false;
+        reload_all(".");
         reinstall_signal_handler(SIGUSR1, sigusr1_handler);
     }
 
     if (sig_usr2 == true) {
+        sig_usr2 = false;
         print_schedule();
         debug_opt = (debug_opt > 0) ? 0 : 1;
         explain("debug_opt = %d", debug_opt);
-        sig_usr2 = false;
         reinstall_signal_handler(SIGUSR2, sigusr2_handler);
     }
 
 }
 
+bool
+is_signal_received(void)
+    /* Return true if a signal has been received but not yet actioned */
+{
+    return (sig_term || sig_hup || sig_chld || sig_usr1 || sig_usr2
+            || sig_cont);
+}
+
 void
 reset_sig_cont(void)
    /* reinitialize the SIGCONT handler if it was raised */
@@ -849,6 +861,16 @@ main_loop()
     struct select_instance main_select;
     struct timeval now_tv;      /* we use usec field to get more precision */
     struct timeval sleep_tv;    /* we use usec field to get more precision */
+    sigset_t handled_signals;
+    sigset_t orig_sigmask;
+
+    sigemptyset(&handled_signals);
+    sigaddset(&handled_signals, SIGTERM);
+    sigaddset(&handled_signals, SIGHUP);
+    sigaddset(&handled_signals, SIGCHLD);
+    sigaddset(&handled_signals, SIGUSR1);
+    sigaddset(&handled_signals, SIGUSR2);
+    sigaddset(&handled_signals, SIGCONT);
 #endif
 
     debug("Entering main loop");
@@ -888,7 +910,12 @@ main_loop()
         debug("now gettimeofday tv_sec=%ld, tv_usec=%ld %s", now_tv.tv_sec,
               now_tv.tv_usec, ctime(&nwt));
 
-        if (nwt <= now_tv.tv_sec) {
+        /* A signal received from now on will interrupt the sleep, and not be
+         * delivered just before it. If there was one since the last
+         * check_signal(), then we must not sleep. */
+        sigprocmask(SIG_BLOCK, &handled_signals, &orig_sigmask);
+
+        if (nwt <= now_tv.tv_sec || is_signal_received()) {
             sleep_tv.tv_sec = 0;
             sleep_tv.tv_usec = 0;
         }
@@ -914,9 +941,10 @@ main_loop()
         }
         debug("nwt=%s, sleep sec=%ld, usec=%ld", ctime(&nwt), sleep_tv.tv_sec,
               sleep_tv.tv_usec);
-        select_call(&main_select, &sleep_tv);
+        select_call(&main_select, &sleep_tv, &orig_sigmask);
+        sigprocmask(SIG_SETMASK, &orig_sigmask, NULL);
 #else                           /* HAVE_GETTIMEOFDAY */
-        if (nwt - now > 0) {
+        if (nwt - now > 0 && !is_signal_received()) {
             sleep(nwt - now);
         }
 #endif                          /* HAVE_GETTIMEOFDAY */
@@ -958,8 +986,6 @@ main_loop()
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
-        check_signal();
-
     }
 
 }
diff --git a/select.c b/select.c
index e62fef0..33e19f7 100644
--- a/select.c
+++ b/select.c
@@ -68,13 +68,21 @@ select_rm_read(select_instance *si, int fd)
 }
 
 void
-select_call(struct select_instance *si, struct timeval *timeout)
-    /* call select for instance 'si' */
+select_call(struct select_instance *si, struct timeval *timeout,
+            const sigset_t *sigmask)
+    /* call select for instance 'si', with the signal mask set to 'sigmask'
+     * during the call */
 {
+    struct timespec timeout_ts;
+
+    timeout_ts.tv_sec = timeout->tv_sec;
+    timeout_ts.tv_nsec = timeout->tv_usec * 1000;
+
     /* re-initialize readfds -- select() will change it */
     si->readfds = si->__readfds_master;
 
-    si->retcode = select(si->__fd_max + 1, &si->readfds, NULL, NULL, timeout);
+    si->retcode = pselect(si->__fd_max + 1, &si->readfds, NULL, NULL,
+                          &timeout_ts, sigmask);
     if (si->retcode < 0 && errno != EINTR) {
         die_e("select returned %d", errno);
     }
diff --git a/select.h b/select.h
index ace522c..66d6ae3 100644
--- a/select.h
+++ b/select.h
@@ -28,6 +28,8 @@
 
 #include "config.h"
 
+#include <signal.h>
+
 #ifdef HAVE_SYS_SELECT_H
 #include <sys/select.h>
 #endif
@@ -49,6 +51,7 @@ typedef struct select_instance {
 extern void select_init(struct select_instance *si);
 extern void select_add_read(select_instance * si, int fd);
 extern void select_rm_read(select_instance * si, int fd);
-extern void select_call(struct select_instance *si, struct timeval *timeout);
+extern void select_call(struct select_instance *si, struct timeval *timeout,
+                        const sigset_t * sigmask);
 
 #endif                          /* __SELECT_H__ */
-- 
2.43.0


From 91bc412f06907560f58ac067b806bd46d1412930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 07/94] fix: install the signal handlers before writing the pid
 file

fcrontab signals the pid it reads in the pid file: a SIGHUP sent before the
handlers were installed killed the starting daemon.
---
 fcron.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/fcron.c b/fcron.c
index d1127bd..10cea60 100644
--- a/fcron.c
+++ b/fcron.c
@@ -706,16 +706,8 @@ main(int argc, char **argv)
 
     }
 
-    /* check if another fcron daemon is running, create pid file and lock it */
-    get_lock();
-
-    /* this program belongs to root : we set default permission mode
-     * to  600 for security reasons, but we reset them to the saved
-     * umask just before we run a job */
-    umask(066);
-
-    explain("%s[%d] " VERSION_QUOTED " started", prog_name, daemon_pid);
-
+    /* this must be done before our pid is in the pid file, as fcrontab may send us
+     * a SIGHUP at any time from then */
     install_signal_handler(SIGTERM, sigterm_handler);
     install_signal_handler(SIGHUP, sighup_handler);
     install_signal_handler(SIGCHLD, sigchld_handler);
@@ -726,6 +718,16 @@ main(int argc, char **argv)
      * write() on a pipe closed at the other end will return EPIPE */
     install_signal_handler(SIGPIPE, SIG_IGN);
 
+    /* check if another fcron daemon is running, create pid file and lock it */
+    get_lock();
+
+    /* this program belongs to root : we set default permission mode
+     * to  600 for security reasons, but we reset them to the saved
+     * umask just before we run a job */
+    umask(066);
+
+    explain("%s[%d] " VERSION_QUOTED " started", prog_name, daemon_pid);
+
     /* initialize job database */
     next_id = 0;
 
-- 
2.43.0


From 6154fe0722a296f7282fd5e9fd7c0c2a11d0d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 08/94] fix: save all files after waiting for jobs at exit

Waiting for the jobs of a file also reaps the jobs of the other files, which
were then not saved again: these jobs were run again at next startup.
---
 fcron.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 10cea60..0ac297b 100644
--- a/fcron.c
+++ b/fcron.c
@@ -201,6 +201,7 @@ xexit(int exit_value)
     /* exit after having freed memory and removed lock file */
 {
     cf_t *f = NULL;
+    bool waited = false;        /* true once some jobs have been waited for */
 
     now = my_time();
 
@@ -220,8 +221,12 @@ xexit(int exit_value)
             debug("waiting jobs for %s ...", f->cf_user);
             /* */
             wait_all(&f->cf_running);
-            save_file(f);
+            waited = true;
         }
+        /* jobs of this file may have ended while we were waiting for the ones
+         * of another file */
+        if (waited)
+            save_file(f);
         delete_file(f->cf_user);
 
         /* delete_file remove the f file from the list :
-- 
2.43.0


From dda7fd90e31cf88e431ad8c120ff65d63815f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 09/94] fix: requeue an interrupted runatreboot job when fcron
 restarts without a reboot

The job was not put back in a queue, and was still counted as running: it was
never run again if it was a serial or a lavg job, or had exesev unset.
---
 database.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index 38fc286..ee9c260 100644
--- a/database.c
+++ b/database.c
@@ -1477,9 +1477,12 @@ set_next_exe_startup(struct cl_t *cl, const int context,
     /* NOTE:
      * - runatreboot has higher priority than jobs that were still running
      *   when fcron stopped, because the former will get run quicker as they are not
-     *   put into the serial queue. runatreboot jobs will be handled later on. */
-    if (context != CONTEXT_RESUME && cl->cl_numexe > 0
-        && !is_runatreboot(cl->cl_option)) {
+     *   put into the serial queue. runatreboot jobs will be handled later on.
+     *   This is only true of a system boot. */
+    if (context == CONTEXT_BOOT && is_runatreboot(cl->cl_option)) {
+        cl->cl_numexe = 0;
+    }
+    else if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {
 
         cl->cl_numexe = 0;
         if (is_lavg(cl->cl_option)) {
-- 
2.43.0


From 340efbe1ae8f7f3e3963e1cf121302e2010c3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 10/94] fix: consider the lavg queue when computing the first
 wake time

Jobs put back in the lavg queue at startup had to wait for the next job of the
schedule, or save, instead of being considered after first_sleep.
---
 fcron.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 0ac297b..04ff9df 100644
--- a/fcron.c
+++ b/fcron.c
@@ -897,7 +897,7 @@ main_loop()
     /* synchronize save with jobs execution */
     save = now + save_time;
 
-    if (serial_num > 0 || once) {
+    if (serial_num > 0 || lavg_list->num_entries > 0 || once) {
         nwt = now + first_sleep;
     }
     else {
-- 
2.43.0


From 90e1d68259762dc1d049fccb7c67f5372ac58a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 11/94] fix: do not restart the count of volatile lines on
 system resume

volatile only resets the time counter when fcron is started.
---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index ee9c260..996d9c9 100644
--- a/database.c
+++ b/database.c
@@ -1607,7 +1607,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
             cl->cl_nextexe = now;
         }
-        else if (is_new_file || is_volatile(cl->cl_option)
+        else if (is_new_file
+                 || (context != CONTEXT_RESUME && is_volatile(cl->cl_option))
                  || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)
                                                  || is_runonce(cl->cl_option)))) {
             /* cl_first is always saved to disk for a volatile line */
-- 
2.43.0


From e004159a68c2fdcf1f0cdc822b1b7da1db763b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 12/94] fix: put &- and @-lines of the lavg queue back in it
 when fcron restarts

strict is set by default, and only makes sense for %-lines, but prevented all
lavg lines from being queued again at startup: their run was lost.
---
 database.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 996d9c9..29ee6bb 100644
--- a/database.c
+++ b/database.c
@@ -1486,7 +1486,9 @@ set_next_exe_startup(struct cl_t *cl, const int context,
 
         cl->cl_numexe = 0;
         if (is_lavg(cl->cl_option)) {
-            if (!is_strict(cl->cl_option))
+            /* strict is only meaningful for %-lines */
+            if (!(is_strict(cl->cl_option) && is_td(cl->cl_option)
+                  && cl->cl_runfreq == 1))
                 add_lavg_job(cl, -1);
         }
         else if (is_serial(cl->cl_option)
-- 
2.43.0


From 66a9ac06b0ba9058814bbe7a7a26df07e3a1c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 13/94] fix: a non-strict %-line without until must wait for
 the load average

Such an entry of the lavg queue has no time limit (l_until is 0), but was
considered as having reached it, and was run at once whatever the load.
---
 database.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 29ee6bb..cc8e78c 100644
--- a/database.c
+++ b/database.c
@@ -1820,8 +1820,7 @@ check_lavg(time_t lim)
     /* first, check if some lines must be executed because of until */
     for (l = lavg_list_first(lavg_list); l != NULL;
          l = lavg_list_next(lavg_list))
-        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)
-            && l->l_until < now) {
+        if (l->l_until > 0 && l->l_until < now) {
             if (!is_run_if_late(l->l_line->cl_option)) {
                 if (!is_nolog(l->l_line->cl_option))
                     explain("Interval of execution exceeded : '%s' (not run)",
-- 
2.43.0


From b121b4cb0eaba19e7816c11138637398dc7dacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 14/94] fix: a change of tzdiff moves the next execution by
 hours, not seconds

When a fcrontab was installed again with another tzdiff, the difference, in
hours, was added to the next execution time of its lines as seconds.
---
 conf.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/conf.c b/conf.c
index d8d9a22..30607d0 100644
--- a/conf.c
+++ b/conf.c
@@ -279,14 +279,18 @@ synchronize_file(char *file_name, int is_system_startup)
 
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
                             new_l->cl_remain = old_l->cl_remain;
-                        /* check if there is a change about the tz diff */
-                        if ((new_l->cl_file->cf_tzdiff !=
-                             old_l->cl_file->cf_tzdiff) &&
-                            (old_l->cl_nextexe - old_l->cl_file->cf_tzdiff
-                             + new_l->cl_file->cf_tzdiff > now))
-                            new_l->cl_nextexe = old_l->cl_nextexe
-                                - old_l->cl_file->cf_tzdiff +
-                                new_l->cl_file->cf_tzdiff;
+                        /* check if there is a change about the tz diff
+                         * (which is in hours, and not relevant to @-lines) */
+                        if (is_td(new_l->cl_option)
+                            && new_l->cl_file->cf_tzdiff !=
+                            old_l->cl_file->cf_tzdiff) {
+                            time_t nextexe = old_l->cl_nextexe
+                                + (new_l->cl_file->cf_tzdiff
+                                   - old_l->cl_file->cf_tzdiff) * 3600;
+                            /* otherwise keep the time computed for the new line */
+                            if (nextexe > now)
+                                new_l->cl_nextexe = nextexe;
+                        }
                         else
                             new_l->cl_nextexe = old_l->cl_nextexe;
 
-- 
2.43.0


From 26db1a7e130be24407cd8e3ab5b88f738108e013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 15/94] fix: noticenotrun mails report the right time, and only
 missed executions

mail_notrun_time_t() ignored its 'since' argument and gave the date of the next
execution instead of the missed one. A runatreboot or runatresume line was
reported as not run even if it missed nothing, or had just been installed.
Also give the pid of the mailer to exe_list so as the entry gets removed.
---
 database.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database.c b/database.c
index cc8e78c..cdf4552 100644
--- a/database.c
+++ b/database.c
@@ -1521,7 +1521,9 @@ set_next_exe_startup(struct cl_t *cl, const int context,
         if ((context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
 
-            if (is_notice_notrun(cl->cl_option)) {
+            /* only report an execution which has really been missed */
+            if (is_notice_notrun(cl->cl_option) && cl->cl_nextexe > 0
+                && cl->cl_nextexe <= now) {
 
                 if (cl->cl_runfreq == 1) {
                     /* %-line */
@@ -1681,11 +1683,11 @@ mail_notrun_time_t(cl_t *line, char context, time_t since_time_t)
     struct tm since;
     int tz_changed = 0;
 
-    since2 = localtime(&line->cl_nextexe);
-    memcpy(&since, since2, sizeof(since));
-
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
 
+    since2 = localtime(&since_time_t);
+    memcpy(&since, since2, sizeof(since));
+
     mail_notrun(line, SYSDOWN, &since);
 
     if (tz_changed > 0)
@@ -1719,7 +1721,7 @@ mail_notrun(cl_t *line, char context, struct tm *since)
 
         /* create an entry in exe_list */
         /* set line to NULL as this is not a line ... */
-        exe_list_add_line(exe_list, NULL);
+        exe_list_add_line(exe_list, NULL)->e_ctrl_pid = pid;
         return;
     }
 
-- 
2.43.0


From bc6bd810e8ab972e510dc4d7e26ac1da71162f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 16/94] fix: run the jobs due before reloading the
 configuration on SIGUSR1

A job due at the very second the signal is handled was loaded with a time of
execution already reached, hence considered as missed and not run.
---
 fcron.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/fcron.c b/fcron.c
index 04ff9df..e59eb88 100644
--- a/fcron.c
+++ b/fcron.c
@@ -38,6 +38,7 @@
 
 void main_loop(void);
 void check_signal(void);
+void check_signal_reload(void);
 bool is_signal_received(void);
 void reset_sig_cont(void);
 void info(void);
@@ -784,7 +785,7 @@ main(int argc, char **argv)
 
 void
 check_signal()
-    /* Action any received signals. */
+    /* Action any received signals, but SIGUSR1 (see check_signal_reload()). */
 {
     /* NOTE: a flag must be cleared *before* the signal is actioned, so as a signal
      * received while we are doing so is not lost. */
@@ -808,12 +809,6 @@ check_signal()
         synchronize_dir(".", 0);
         reinstall_signal_handler(SIGHUP, sighup_handler);
     }
-    if (sig_usr1 == true) {
-        /* reload all configuration */
-        sig_usr1 = false;
-        reload_all(".");
-        reinstall_signal_handler(SIGUSR1, sigusr1_handler);
-    }
 
     if (sig_usr2 == true) {
         sig_usr2 = false;
@@ -825,6 +820,19 @@ check_signal()
 
 }
 
+void
+check_signal_reload(void)
+    /* Action a SIGUSR1 signal if one was received: reload all configuration.
+     * WARNING : must be called after test_jobs(), otherwise a job due now would be
+     * considered as missed when it is loaded, and would not be run. */
+{
+    if (sig_usr1 == true) {
+        sig_usr1 = false;
+        reload_all(".");
+        reinstall_signal_handler(SIGUSR1, sigusr1_handler);
+    }
+}
+
 bool
 is_signal_received(void)
     /* Return true if a signal has been received but not yet actioned */
@@ -968,6 +976,8 @@ main_loop()
         test_jobs();
         debug_print_tstamp("    after test_jobs");
 
+        check_signal_reload();
+
         while (serial_num > 0 && serial_running < serial_max_running) {
             run_serial_job();
         }
-- 
2.43.0


From 3b026bf5210697cbb50012a2c720fce08c5fe284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 17/94] fix: parse the time fields as documented: month names,
 ranges, wrapping with a step, bounds

---
 fileconf.c | 110 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 72 insertions(+), 38 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index f6855a3..50da79b 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -33,6 +33,7 @@ void init_default_line(cl_t * cl, cf_t * cf);
 char *get_time(char *ptr, time_t * time, int zero_allowed);
 char *get_num(char *ptr, int *num, int max, short int decimal,
               const char **names);
+char *get_field_value(char *ptr, int *value, int max, const char **names);
 char *get_nice(char *ptr, int *nice);
 char *get_bool(char *ptr, int *i);
 char *read_field(char *ptr, bitstr_t * ary, int max, const char **names);
@@ -1570,7 +1571,8 @@ read_freq(char *ptr, cf_t *cf)
           fprintf(stderr, "\n"); \
       fprintf(stderr, "%s:%d: Error while reading " DESCRP " field: " \
              "skipping line.\n", file_name, line); \
-      Free_safe(cl); \
+      free_line(cl); \
+      need_correction = 1; \
       return; \
   }
 
@@ -1846,10 +1848,19 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
     }
     else {
 
-        while (isdigit((int)*ptr) || *ptr == '.') {
+        /* there must be at least one digit */
+        if (!isdigit((int)*ptr)) {
+            need_correction = 1;
+            return NULL;
+        }
 
-            if (*ptr == '.' && ptr++ && i++ > 0)
+        while (isdigit((int)*ptr)
+               || (*ptr == '.' && decimal > 0 && isdigit((int)*(ptr + 1)))) {
+
+            if (*ptr == '.' && ptr++ && i++ > 0) {
+                need_correction = 1;
                 return NULL;
+            }
             if (i > 0 && --decimal < 0) {
                 /* the decimal number is exceeded : we round off,
                  * skip the other decimals and return */
@@ -1875,12 +1886,41 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
         if (decimal > 0)
             *num *= 10 * decimal;
 
+        if (*num > max) {
+            need_correction = 1;
+            return NULL;
+        }
+
     }
 
     return ptr;
 }
 
 
+char *
+get_field_value(char *ptr, int *value, int max, const char **names)
+    /* read a value (number or name) of a field limited to max */
+{
+    int is_name = isalpha((int)*ptr);
+
+    if ((ptr = get_num(ptr, value, max, 0, names)) == NULL)
+        return NULL;
+
+    /* user set month from 1 to 12, but we manage it internally
+     * as a number from 0 to 11 (as the position of its name in names is) :
+     * we remove 1 */
+    if (max == 12 && !is_name)
+        *value -= 1;
+
+    /* there is no month 0 and no day 0 */
+    if (*value < ((max == 31) ? 1 : 0)) {
+        need_correction = 1;
+        return NULL;
+    }
+
+    return ptr;
+}
+
 char *
 read_field(char *ptr, bitstr_t *ary, int max, const char **names)
     /* read a field like "2,5-8,10-20/2,21-30~25" and fill ary */
@@ -1890,33 +1930,26 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
     int step = 0;
     int rm = 0;
     int i = 0;
+    /* first value of the field, and number of values */
+    const int first = (max == 31) ? 1 : 0;
+    const int count = (max == 31) ? 31 : (max == 12) ? 12 : (max == 7) ? 7
+        : max + 1;
 
-    while ((*ptr != ' ') && (*ptr != '\t') && (*ptr != '\0')) {
+    do {
 
         start = stop = step = 0;
 
-        /* there may be a "," */
-        if (*ptr == ',')
-            ptr++;
-
         if (*ptr == '*') {
             /* we have to fill everything (may be modified by a step ) */
-            start = 0;
-            /* user set month from 1 to 12, but we manage it internally
-             * as a number from 0 to 11 */
-            stop = (max == 12) ? 11 : max;
+            start = first;
+            stop = first + count - 1;
             ptr++;
         }
         else {
 
-            ptr = get_num(ptr, &start, max, 0, names);
+            ptr = get_field_value(ptr, &start, max, names);
             if (ptr == NULL)
                 return NULL;
-            if (max == 12)
-                /* this number is part of the month field.
-                 * user set it from 1 to 12, but we manage it internally
-                 * as a number from 0 to 11 : we remove 1 to start */
-                start -= 1;
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1929,15 +1962,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
             /* check for a dash */
             else if (*ptr == '-') {
                 ptr++;
-                ptr = get_num(ptr, &stop, max, 0, names);
+                ptr = get_field_value(ptr, &stop, max, names);
                 if (ptr == NULL)
                     /* we reached the end of the string to parse */
                     return NULL;
-                if (max == 12)
-                    /* this number is part of the month field.
-                     * user set it from 1 to 12, but we manage it internally
-                     * as a number from 0 to 11 : we remove 1 to stop */
-                    stop -= 1;
             }
             else {
                 /* syntax error */
@@ -1949,8 +1977,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         /* check for step size */
         if (*ptr == '/') {
             ptr++;
-            if ((ptr = get_num(ptr, &step, max, 0, names)) == NULL || step == 0)
+            if ((ptr = get_num(ptr, &step, max, 0, NULL)) == NULL || step == 0) {
+                need_correction = 1;
                 return NULL;
+            }
         }
         else
             /* step undefined : default is 0 */
@@ -1960,30 +1990,27 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         if (debug_opt)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
-        if (start < stop)
+        if (start <= stop)
             for (i = start; i <= stop; i += step)
                 bit_set(ary, i);
         else {
-            short int field_max = (max == 12) ? 11 : max;
             /* this is a field like (for hours field) "22-3" :
-             * we should set from 22 to 3 (not from 3 to 22 or nothing :)) ) */
-            for (i = start; i <= field_max; i += step)
-                bit_set(ary, i);
-            for (i -= (field_max + 1); i <= stop; i += step)
-                bit_set(ary, i);
+             * we should set from 22 to 3 (not from 3 to 22 or nothing :)) )
+             * Note that days of week 0 and 7 are the same day. */
+            if (max == 7 && start == 7)
+                start = 0;
+            if (start > stop)
+                stop += count;
+            for (i = start; i <= stop; i += step)
+                bit_set(ary, first + (i - first) % count);
         }
 
         /* finally, remove unwanted values */
         while (*ptr == '~') {
             ptr++;
             rm = 0;
-            if ((ptr = get_num(ptr, &rm, max, 0, names)) == NULL)
+            if ((ptr = get_field_value(ptr, &rm, max, names)) == NULL)
                 return NULL;
-            if (max == 12)
-                /* this number is part of the month field.
-                 * user set it from 1 to 12, but we manage it internally
-                 * as a number from 0 to 11 : we remove 1 to rm */
-                rm -= 1;
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
@@ -2003,6 +2030,13 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
 
         }
 
+        /* there may be a "," */
+    } while (*ptr == ',' && ptr++);
+
+    if (*ptr != ' ' && *ptr != '\t') {
+        /* syntax error */
+        need_correction = 1;
+        return NULL;
     }
 
     /* Sunday is both 0 and 7 : if one is set, set the other */
-- 
2.43.0


From dbfff8cb12748527cbc87f57a9628f6bc423b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 18/94] fix: terminate over-long option and shortcut names

---
 fileconf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 50da79b..3bd5580 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -534,8 +534,12 @@ read_opt(char *ptr, cl_t *cl)
         i = 0;
         bzero(opt_name, sizeof(opt_name));
 
-        while (isalnum((int)*ptr) && i < sizeof(opt_name))
-            opt_name[i++] = *ptr++;
+        /* (if the name is too long to be the one of an option, we truncate it) */
+        while (isalnum((int)*ptr)) {
+            if (i < sizeof(opt_name) - 1)
+                opt_name[i++] = *ptr;
+            ptr++;
+        }
 
         i = 1;
         in_brackets = 0;
@@ -1320,7 +1324,7 @@ read_word(char *ptr, char *buf, size_t buf_size)
 
     bzero(buf, buf_size);
 
-    while (isalnum((int)*ptr) && i < buf_size)
+    while (isalnum((int)*ptr) && i < buf_size - 1)
         buf[i++] = *ptr++;
 
     return ptr;
-- 
2.43.0


From be555bec77d38f6f7304d368cb67e1363fd67770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 19/94] fix: refuse time values without a number or too big,
 accept until(0)

---
 fileconf.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 3bd5580..ed35317 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -869,7 +869,7 @@ read_opt(char *ptr, cl_t *cl)
 
         else if (strcmp(opt_name, "u") == 0 || strcmp(opt_name, "until") == 0) {
             if (!in_brackets
-                || (ptr = get_time(ptr, &(cl->cl_until), 0)) == NULL)
+                || (ptr = get_time(ptr, &(cl->cl_until), 1)) == NULL)
                 Handle_err;
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\" %ld\n", opt_name,
@@ -1230,14 +1230,30 @@ get_time(char *ptr, time_t *time, int zero_allowed)
 
     *time = 0;
 
+    if (*ptr == ')') {
+        /* no value */
+        need_correction = 1;
+        return NULL;
+    }
+
     while ((*ptr != ' ') && (*ptr != '\t') && (*ptr != '\0') && (*ptr != ')')) {
 
         sum = 0;
 
+        /* there must be a number, which we limit to avoid an overflow */
+        if (!isdigit((int)*ptr)) {
+            need_correction = 1;
+            return NULL;
+        }
+
         while (isdigit((int)*ptr)) {
             sum *= 10;
             sum += *ptr - 48;
             ptr++;
+            if (sum > INT_MAX) {
+                need_correction = 1;
+                return NULL;
+            }
         }
 
         /* interpret multipliers */
-- 
2.43.0


From e53616089fd5749d15605cfed0179d88e2678100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 20/94] fix: refuse nice(20), name the line in messages about
 nice

---
 fileconf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index ed35317..1d263f0 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -404,13 +404,14 @@ get_nice(char *ptr, int *nice)
         ptr++;
     }
 
-    if ((ptr = get_num(ptr, nice, 20, 0, NULL)) == NULL)
+    /* a nice value is between -20 and 19 */
+    if ((ptr = get_num(ptr, nice, (negative) ? 20 : 19, 0, NULL)) == NULL)
         return NULL;
 
     if (negative == 1) {
         if (getuid() != rootuid) {
-            fprintf(stderr, "must be privileged to use a negative argument "
-                    "with nice: set to 0\n");
+            fprintf(stderr, "%s:%d: must be privileged to use a negative "
+                    "argument with nice: set to 0\n", file_name, line);
             need_correction = 1;
             *nice = 0;
         }
-- 
2.43.0


From 4095af002876f738d4b1145580e244d3a21dbc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 21/94] fix: do not drop a valid runas() because of an earlier
 error in the file

---
 fileconf.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 1d263f0..92de2d7 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1038,7 +1038,7 @@ read_opt(char *ptr, cl_t *cl)
         else if (strcmp(opt_name, "runas") == 0) {
             int len = -1;
             char *runas = NULL;
-            struct passwd *pas;
+            char valid = 0;
 
             if (!in_brackets) {
                 Handle_err;
@@ -1053,29 +1053,29 @@ read_opt(char *ptr, cl_t *cl)
             }
 
             if (getuid() != rootuid) {
-                fprintf(stderr, "must be privileged to use option runas: "
-                        "skipping option\n");
-                need_correction = 1;
+                fprintf(stderr, "%s:%d: must be privileged to use option runas: "
+                        "skipping option\n", file_name, line);
             }
             else if (len > USER_NAME_LEN) {
-                fprintf(stderr, "runas: user name \"%s\" longer than %d"
-                        "characters: skipping option\n", runas, USER_NAME_LEN);
-                need_correction = 1;
+                fprintf(stderr, "%s:%d: runas: user name \"%s\" longer than %d "
+                        "characters: skipping option\n", file_name, line,
+                        runas, USER_NAME_LEN);
             }
-            else if ((pas = getpwnam(runas)) == NULL) {
-                fprintf(stderr, "runas: \"%s\" is not in passwd file : "
-                        "ignored", runas);
-                need_correction = 1;
+            else if (getpwnam(runas) == NULL) {
+                fprintf(stderr, "%s:%d: runas: \"%s\" is not in passwd file : "
+                        "ignored\n", file_name, line, runas);
             }
+            else
+                valid = 1;
 
-            if (need_correction) {
-                Free_safe(runas);
-            }
-            else {
+            if (valid) {
                 /* only set cl_runas if all is well, as cl_runas MUST always
                  * be set to a valid value */
                 Set(cl->cl_runas, runas);
             }
+            else
+                need_correction = 1;
+            Free_safe(runas);
 
             /* all good */
             if (debug_opt)
-- 
2.43.0


From d090e1e70067d6c2366a20e900b227ce0673823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 22/94] fix: inline user name: must be a whole word, report
 when it is ignored

---
 fileconf.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 92de2d7..108538b 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1307,8 +1307,10 @@ check_username(char *ptr, cf_t *cf, cl_t *cl)
      * a command line (where quotes are allowed) */
     while (isalnum((int)ptr[indx]) || ptr[indx] == '-' || ptr[indx] == '_')
         indx++;
-    if (indx >= USER_NAME_LEN)
-        indx = USER_NAME_LEN - 1;
+    if (indx == 0 || indx >= USER_NAME_LEN
+        || (ptr[indx] != '\0' && !isspace((int)ptr[indx])))
+        /* not a user name */
+        return ptr;
     strncpy(username, ptr, indx);
     username[indx] = '\0';
 
@@ -1318,8 +1320,9 @@ check_username(char *ptr, cf_t *cf, cl_t *cl)
         Skip_blanks(ptr);
 
         if (getuid() != rootuid) {
-            fprintf(stderr, "must be privileged to run as another user : "
-                    "ignoring\n");
+            fprintf(stderr, "%s:%d: must be privileged to run as another user : "
+                    "ignoring\n", file_name, line);
+            need_correction = 1;
         }
         else {
             Set(cl->cl_runas, username);
-- 
2.43.0


From 761e487d9b20fc158b89b6a0afce9721c01bf41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 23/94] fix: report unknown options in %-lines

---
 fileconf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 108538b..e39a8ab 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1201,6 +1201,12 @@ read_opt(char *ptr, cl_t *cl)
                 if (debug_opt)
                     fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
             }
+            else {
+                fprintf(stderr, "%s:%d: Option \"%s\" unknown: "
+                        "skipping line.\n", file_name, line, opt_name);
+                need_correction = 1;
+                return NULL;
+            }
         }
 
         else {
-- 
2.43.0


From ced35dbe59683eebb2c122bd8d1fc96dbda234e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 24/94] fix: make !first() work, and reset inside a line not
 change its kind or its first

---
 fileconf.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index e39a8ab..a45fff3 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -169,6 +169,7 @@ init_default_line(cl_t *cl, cf_t *cf)
     Set(cl->cl_mailto, runas);
     Free_safe(cl->cl_tz);
     set_default_opt(cl->cl_option);
+    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
     cl->cl_file = cf;
 }
 
@@ -708,7 +709,31 @@ read_opt(char *ptr, cl_t *cl)
             if (in_brackets && (ptr = get_bool(ptr, &i)) == NULL)
                 Handle_err;
             if (i == 1) {
+                cl_t prev = *cl;
+
                 init_default_line(cl, cl->cl_file);
+                if (prev.cl_runfreq == 1) {
+                    /* we are in a %-line: its keyword is not an option */
+                    cl->cl_remain = cl->cl_runfreq = 1;
+                    if (is_freq_mins(prev.cl_option))
+                        set_freq_mins(cl->cl_option);
+                    if (is_freq_hrs(prev.cl_option))
+                        set_freq_hrs(cl->cl_option);
+                    if (is_freq_days(prev.cl_option))
+                        set_freq_days(cl->cl_option);
+                    if (is_freq_mons(prev.cl_option))
+                        set_freq_mons(cl->cl_option);
+                    if (is_freq_dow(prev.cl_option))
+                        set_freq_dow(cl->cl_option);
+                    if (is_freq_periodically(prev.cl_option))
+                        set_freq_periodically(cl->cl_option);
+                    if (is_freq_mid(prev.cl_option))
+                        set_freq_mid(cl->cl_option);
+                }
+                Free_safe(prev.cl_runas);
+                Free_safe(prev.cl_mailto);
+                Free_safe(prev.cl_mailfrom);
+                Free_safe(prev.cl_tz);
             }
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
@@ -1515,8 +1540,6 @@ read_freq(char *ptr, cf_t *cf)
 
     cl = dups_cl(&default_line);
 
-    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
-
     /* skip the @ */
     ptr++;
 
-- 
2.43.0


From 318de57d0f9fd001743888848b86c3820f009cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 25/94] fix: do not run @reboot and @resume jobs when they are
 installed, nor @resume jobs at boot

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index a45fff3..b702d86 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1408,7 +1408,7 @@ read_shortcut(char *ptr, cf_t *cf)
         set_runonce(cl->cl_option);
         clear_volatile(cl->cl_option);
         cl->cl_runfreq = 0;
-        cl->cl_first = 0;
+        cl->cl_first = LONG_MAX;
         /* the job will not be rescheduled after the first execution (flag is_hasrun),
          * we set timefreq to LONG_MAX just in case */
         cl->cl_timefreq = LONG_MAX;
@@ -1422,7 +1422,7 @@ read_shortcut(char *ptr, cf_t *cf)
         set_runonce(cl->cl_option);
         clear_volatile(cl->cl_option);
         cl->cl_runfreq = 0;
-        cl->cl_first = 0;
+        cl->cl_first = LONG_MAX;
         /* the job will not be rescheduled after the first execution (flag is_hasrun),
          * we set timefreq to LONG_MAX just in case */
         cl->cl_timefreq = LONG_MAX;
-- 
2.43.0


From 371fad9d84de8d8250b5d9b2e0a38702350525f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 26/94] fix: do not crash on option tzdiff set on a line

---
 fileconf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index b702d86..725616c 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1539,6 +1539,7 @@ read_freq(char *ptr, cf_t *cf)
     cl_t *cl = NULL;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the @ */
     ptr++;
@@ -1638,6 +1639,7 @@ read_arys(char *ptr, cf_t *cf)
     int i = 0;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* set cl_remain if not specified */
     if (*ptr == '&') {
@@ -1724,6 +1726,7 @@ read_period(char *ptr, cf_t *cf)
     short int remain = 8;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the % */
     ptr++;
-- 
2.43.0


From 1297fb425f9597c495216e86f531d2ce5ca65368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 27/94] fix: refuse a value which is a lone quote

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 725616c..d98093a 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -85,7 +85,7 @@ get_string(char *ptr)
     length = remove_blanks(ptr);
 
     if (quote != 0) {
-        if (*(ptr + length - 1) == quote)
+        if (length > 0 && *(ptr + length - 1) == quote)
             *(ptr + length - 1) = '\0';
         else {
             /* mismatched quotes */
-- 
2.43.0


From 231bdfc001d719f073338ff6191e394a91ea786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 28/94] fix: skip the whole of a too long continued line, name
 the right line

---
 fileconf.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index d98093a..dccc974 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -118,6 +118,7 @@ get_line(char *str, size_t size, FILE *file)
     size_t size_max = size - 1;
     int i = 0;
     int c;
+    int prev;
 
     while (i < size_max) {
 
@@ -152,9 +153,16 @@ get_line(char *str, size_t size, FILE *file)
 
     }
 
-    /* line is too long : goto next line and return ERR */
-    while (((c = getc(file)) != EOF) && (c != '\n')) ;
-    line++;
+    /* line is too long : go to the end of that (logical) line and return ERR */
+    prev = *(str + i - 1);
+    while ((c = getc(file)) != EOF) {
+        if (c == '\n') {
+            if (prev != '\\')
+                break;
+            line++;
+        }
+        prev = c;
+    }
     need_correction = 1;
     return ERR;
 
@@ -225,6 +233,7 @@ read_file(char *filename, int fd)
             fprintf(stderr,
                     "%s:%d: Line is too long (more than %d): skipping line.\n",
                     file_name, line, (int)sizeof(buf));
+            line++;
             continue;
         }
 
-- 
2.43.0


From 237db6621d300b326f97036d3e332db0afce57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 29/94] fix: detect periodical lines without interval when all
 days are set, do not write past cl_days

---
 fileconf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index dccc974..2149dcb 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1781,7 +1781,7 @@ read_period(char *ptr, cf_t *cf)
     if (remain-- > 0) {
     R_field(ptr, cl->cl_days, 31, NULL, "days")}
     else
-        bit_nset(cl->cl_days, 1, 32);
+        bit_nset(cl->cl_days, 1, 31);
     /* month are defined by user from 1 to 12 : max is 12 */
     if (remain-- > 0) {
     R_field(ptr, cl->cl_mons, 12, mons_ary, "months")}
@@ -1830,8 +1830,9 @@ read_period(char *ptr, cf_t *cf)
                 goto ok;
         }
         if (!is_freq_days(cl->cl_option)) {
-            bit_ffc(cl->cl_days, s_days, &j);
-            if (j != -1 && j < s_days) {
+            /* there is no day 0 */
+            for (j = 1; j < s_days && bit_test(cl->cl_days, j); j++) ;
+            if (j < s_days) {
                 if (is_dayand(cl->cl_option))
                     goto ok;
                 else {
-- 
2.43.0


From e63ca5143566388004a95cec89da79a728654a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 30/94] fix: set the load averages of lavg() only once all its
 arguments are valid

---
 fileconf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 2149dcb..28a93ab 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -797,10 +797,12 @@ read_opt(char *ptr, cl_t *cl)
         }
 
         else if (strcmp(opt_name, "lavg") == 0) {
+            int lavg1, lavg5;
+
             if (!in_brackets
                 || (ptr = get_num(ptr, &i, UCHAR_MAX, 1, NULL)) == NULL)
                 Handle_err;
-            cl->cl_lavg[0] = i;
+            lavg1 = i;
             if (debug_opt)
                 fprintf(stderr, "  Opt : 'lavg1' %d\n", i);
             if (*ptr++ != ',')
@@ -808,7 +810,7 @@ read_opt(char *ptr, cl_t *cl)
             if (!in_brackets
                 || (ptr = get_num(ptr, &i, UCHAR_MAX, 1, NULL)) == NULL)
                 Handle_err;
-            cl->cl_lavg[1] = i;
+            lavg5 = i;
             if (debug_opt)
                 fprintf(stderr, "  Opt : 'lavg5' %d\n", i);
             if (*ptr++ != ',')
@@ -816,6 +818,8 @@ read_opt(char *ptr, cl_t *cl)
             if (!in_brackets
                 || (ptr = get_num(ptr, &i, UCHAR_MAX, 1, NULL)) == NULL)
                 Handle_err;
+            cl->cl_lavg[0] = lavg1;
+            cl->cl_lavg[1] = lavg5;
             cl->cl_lavg[2] = i;
             if (debug_opt)
                 fprintf(stderr, "  Opt : 'lavg15' %d\n", i);
-- 
2.43.0


From bc6599f58d55ae75be142cfa77c32896d4ab0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 31/94] fix: report fcrontabs with too many entries or lines
 without crashing

---
 fileconf.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 28a93ab..1e59ab2 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -288,14 +288,16 @@ read_file(char *filename, int fd)
 
     }
 
-    if (entries == max_entries) {
-        error("%s:%d: maximum number of entries (%d) has been reached by %s",
-              file_name, line, user);
+    if ((entries >= max_entries || line > max_lines) && getc(file) != EOF) {
+        if (entries >= max_entries)
+            fprintf(stderr, "%s:%d: maximum number of entries (%d) has been "
+                    "reached by %s\n", file_name, line, max_entries, user);
+        else
+            fprintf(stderr, "%s:%d: maximum number of lines (%d) has been "
+                    "reached by %s\n", file_name, line, max_lines, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
+        need_correction = 1;
     }
-    else if (line == max_lines)
-        error("%s:%d: maximum number of lines (%d) has been reached by %s",
-              file_name, line, user);
 
     cf->cf_next = file_base;
     file_base = cf;
-- 
2.43.0


From f944173a454171a6da31374dcdd75448f67fe06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 32/94] fix: refuse lines containing a null character

---
 fileconf.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 1e59ab2..259dbba 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -145,6 +145,11 @@ get_line(char *str, size_t size, FILE *file)
              * nor ERR, which is used for another error */
             return GET_LINE_EOF;
 
+        case '\0':
+            /* we could only read the beginning of that line */
+            fprintf(stderr, "%s:%d: Null character in line.\n", file_name, line);
+            goto skip_line;
+
         default:
             *(str + i) = (char)c;
             i++;
@@ -153,8 +158,13 @@ get_line(char *str, size_t size, FILE *file)
 
     }
 
-    /* line is too long : go to the end of that (logical) line and return ERR */
-    prev = *(str + i - 1);
+    fprintf(stderr,
+            "%s:%d: Line is too long (more than %d): skipping line.\n",
+            file_name, line, (int)size);
+
+ skip_line:
+    /* line is too long or not a text : go to the end of that (logical) line and return ERR */
+    prev = (i > 0) ? *(str + i - 1) : '\0';
     while ((c = getc(file)) != EOF) {
         if (c == '\n') {
             if (prev != '\\')
@@ -230,9 +240,6 @@ read_file(char *filename, int fd)
         ret = get_line(buf, sizeof(buf), file);
 
         if (ret == ERR) {
-            fprintf(stderr,
-                    "%s:%d: Line is too long (more than %d): skipping line.\n",
-                    file_name, line, (int)sizeof(buf));
             line++;
             continue;
         }
-- 
2.43.0


From d06b323a9869908f11d502797c6cd31830062e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 33/94] fix: keep the previous value of an option whose
 argument is refused

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 259dbba..ec6fa94 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -468,11 +468,10 @@ assign_option_string(char **var, char *value)
     char end = '\0';
     size_t len = 0;
 
-    Free_safe(*var);
-
     len = option_strlen(value);
 
     if (len <= 0) {
+        Free_safe(*var);
         return len;
     }
 
@@ -484,6 +483,7 @@ assign_option_string(char **var, char *value)
         return -1;
     }
 
+    Free_safe(*var);
     *var = strndup2(value, len);
 
     return len;
-- 
2.43.0


From a690bb5965f8c252ee2628e84124170600dc196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 34/94] fix: keep the previous value of an option whose time
 value is refused

---
 fileconf.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index ec6fa94..2bb7bb5 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1281,8 +1281,7 @@ get_time(char *ptr, time_t *time, int zero_allowed)
     /* convert time read in string in time_t format */
 {
     time_t sum;
-
-    *time = 0;
+    time_t total = 0;
 
     if (*ptr == ')') {
         /* no value */
@@ -1333,17 +1332,19 @@ get_time(char *ptr, time_t *time, int zero_allowed)
             return NULL;
         }
 
-        *time += sum;
+        total += sum;
 
     }
 
     Skip_blanks(ptr);
-    if (*time == 0 && !zero_allowed) {
+    if (total == 0 && !zero_allowed) {
         need_correction = 1;
         return NULL;
     }
-    else
-        return ptr;
+
+    /* keep the previous value if there is an error */
+    *time = total;
+    return ptr;
 }
 
 
-- 
2.43.0


From 74ca6f2dc4ad6c29981859646f958dcc6a043640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 35/94] fix: do not read past the hours and days of a line when
 looking for its next execution

---
 database.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/database.c b/database.c
index cdf4552..f125bcc 100644
--- a/database.c
+++ b/database.c
@@ -1120,7 +1120,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
 
  setMonth:
-        for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
+        for (i = ftime.tm_mon; (i < 12) && (bit_test(line->cl_mons, i) == 0);
              i++) ;
         if (i >= 12) {
             ftime.tm_year++;
@@ -1158,7 +1158,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
  setDay:
         if (is_dayand(line->cl_option)) {
             for (i = ftime.tm_mday;
-                 (bit_test(line->cl_days, i) == 0) && (i <= max); i++) ;
+                 (i <= max) && (bit_test(line->cl_days, i) == 0); i++) ;
             if (i > max) {
                 ftime.tm_mon++;
                 if (has_changed < 2) {
@@ -1227,7 +1227,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
 
  setHour:
-        for (i = ftime.tm_hour; (bit_test(line->cl_hrs, i) == 0) && (i < 24);
+        for (i = ftime.tm_hour; (i < 24) && (bit_test(line->cl_hrs, i) == 0);
              i++) ;
         if (i >= 24) {
             ftime.tm_mday++;
@@ -1246,7 +1246,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
 
 
-        for (i = ftime.tm_min; (bit_test(line->cl_mins, i) == 0) && (i < 60);
+        for (i = ftime.tm_min; (i < 60) && (bit_test(line->cl_mins, i) == 0);
              i++) ;
         if (i >= 60) {
             ftime.tm_hour++;
-- 
2.43.0


From 9c7a769306e0adf65b4f54b2558eba95269416f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 36/94] fix: do not write past the buffer when saving a string
 as long as it

---
 save.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/save.c b/save.c
index 36a082e..f7ef90e 100644
--- a/save.c
+++ b/save.c
@@ -73,6 +73,16 @@ save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
+
+    if (write_len > WRITE_BUF_LEN) {
+        /* str does not fit in the buffer: write it directly */
+        int str_len = size;
+
+        if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
+            return ERR;
+        return write_buf_to_disk(fd, str, &str_len);
+    }
+
     memcpy((write_buf + *buf_used), str, size);
     *buf_used += size;
 
-- 
2.43.0


From 46a7310ad9a767c3eb97c1d9b0c7e758d42dfd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 37/94] fix: do not read past the fields of a line when looking
 for its intervals

---
 bitstring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitstring.h b/bitstring.h
index 24007bc..8f374f4 100644
--- a/bitstring.h
+++ b/bitstring.h
@@ -97,7 +97,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffc(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte] != 0xff) { \
 			_value = _byte << 3; \
@@ -112,7 +112,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffs(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte]) { \
 			_value = _byte << 3; \
-- 
2.43.0


From 2e239c529199afef9354dc6f90b437e16cbaf03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 38/94] fix: do not run a line which must not run again after a
 suspend

A line which is only to be run at boot or resume (or which has run once)
has a cl_nextexe of TIME_T_MAX: adding the time spent suspended to it was
taken for an overflow, and the line got run at the resume.
---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index f125bcc..947f8cc 100644
--- a/database.c
+++ b/database.c
@@ -1634,7 +1634,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             }
         }
         else {
-            if (cl->cl_nextexe != LONG_MAX) {
+            /* LONG_MAX and TIME_T_MAX both mean "will not run again" */
+            if (cl->cl_nextexe != LONG_MAX && cl->cl_nextexe != TIME_T_MAX) {
                 cl->cl_nextexe += sleep_duration;
 
                 if (cl->cl_nextexe < now && context == CONTEXT_RESUME) {
-- 
2.43.0


From f05fd85d8653753d7cb831e840282621cbc248ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 39/94] fix: retry interrupted and short writes when saving a
 fcrontab

An interrupted write() or fdatasync() made the save fail, and so did writes
which were all short, as the number of calls was limited.
---
 save.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/save.c b/save.c
index f7ef90e..53941ef 100644
--- a/save.c
+++ b/save.c
@@ -143,16 +143,19 @@ write_buf_to_disk(int fd, char *write_buf, int *buf_used)
     int num_retries = 0;
 
     while (written < to_write) {
-        if (num_retries++ > (int)(to_write / 2)) {
-            error("too many retries (%d) to write buf to disk : giving up.",
-                  num_retries);
-            return ERR;
-        }
         return_val = write(fd, (write_buf + written), to_write - written);
         if (return_val == -1) {
+            if (errno == EINTR)
+                continue;
             error_e("could not write() buf to disk");
             return ERR;
         }
+        /* only give up if the write() calls make no progress at all */
+        if (return_val == 0 && num_retries++ > 10) {
+            error("too many retries (%d) to write buf to disk : giving up.",
+                  num_retries);
+            return ERR;
+        }
         written += return_val;
     }
 
@@ -325,7 +328,9 @@ write_file_to_disk(int fd, struct cf_t *file, time_t time_date)
      * This is to avoid cases where the file name (meta-data) would be updated,
      * and there is a crash before the data is fully written: not sure if that
      * is possible, but better safe than sorry! */
-    if (fdatasync(fd) < 0) {
+    while (fdatasync(fd) < 0) {
+        if (errno == EINTR)
+            continue;
         error_e("could not fdatasync() %s's fcrontab", file->cf_user);
         return ERR;
     }
-- 
2.43.0


From 3c16460706e66e062c4ed21113d7a9114822d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 40/94] fix: report an error of close() when saving a fcrontab

---
 save.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/save.c b/save.c
index 53941ef..ad0cfa8 100644
--- a/save.c
+++ b/save.c
@@ -381,8 +381,12 @@ save_one_file(cf_t *file, char *filename, uid_t own_uid, gid_t own_gid,
         return ERR;
     }
 
-    if (xclose(&fd) < 0)
+    /* on some filesystems a write error may only be reported by close() */
+    if (xclose(&fd) < 0 && errno != EINTR) {
         error_e("save_one_file(%s): could not xclose(fd)", filename);
+        remove_as_user(filename, own_uid, own_gid);
+        return ERR;
+    }
 
     return OK;
 }
-- 
2.43.0


From 4de2f0e48821d414fe69ab2dafc52d564a909e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 41/94] fix: keep the previous version of a fcrontab if
 rename() fails

The file was then written in place: if this failed too, or if the system
crashed in the meantime, both the previous and the new version were lost.
---
 save.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/save.c b/save.c
index ad0cfa8..698a760 100644
--- a/save.c
+++ b/save.c
@@ -410,15 +410,14 @@ save_file_safe(cf_t *file, char *final_path, char *prog_name, uid_t own_uid,
 
     if (save_one_file(file, temp_path, own_uid, own_gid, save_date) == OK) {
         if (rename_as_user(temp_path, final_path, own_uid, own_gid) != 0) {
+            /* Do not try to write to final_path directly: it would be lost if
+             * this failed too, or if the system crashed in the meantime. */
             error_e("Cannot rename %s to %s", temp_path, final_path);
-            error("%s will try to save the name to its definitive filename "
-                  "directly.", prog_name);
-            error
-                ("If there is an error, root may consider to replace %s (which is "
-                 "a valid copy) by %s manually.", final_path, temp_path);
-            if (save_one_file(file, final_path, own_uid, own_gid, save_date) ==
-                ERR)
-                return ERR;
+            error("Since %s has not been able to save %s's file, it will keep "
+                  "the previous version (if any) of %s.", prog_name, final_path,
+                  final_path);
+            remove_as_user(temp_path, own_uid, own_gid);
+            return ERR;
         }
     }
     else {
-- 
2.43.0


From f6392aa3d5c0b8e8be0e7522f2b893ba69c67c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 42/94] fix: keep new.<user> until the fcrontab is saved under
 its final name

It was removed even if the final file could not be saved: a fcrontab just
installed was lost, or replaced by the previous one, at the next crash.
---
 conf.c | 26 +++++++++++++++-----------
 conf.h |  2 +-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/conf.c b/conf.c
index 30607d0..7f61242 100644
--- a/conf.c
+++ b/conf.c
@@ -334,10 +334,9 @@ synchronize_file(char *file_name, int is_system_startup)
             file_base = cur_f;
 
             /* save final file */
-            save_file(cur_f);
-
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* delete new.user file: if the final file could not be saved,
+             * then this is the only copy on the disk */
+            if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
 
         }
@@ -358,10 +357,9 @@ synchronize_file(char *file_name, int is_system_startup)
             file_base = cur_f;
 
             /* save as a normal file */
-            save_file(cur_f);
-
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* delete new.user file: if the final file could not be saved,
+             * then this is the only copy on the disk */
+            if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
         }
 
@@ -1005,13 +1003,15 @@ delete_file(const char *user_name)
 }
 
 
-void
+int
 save_file(cf_t *arg_file)
 /* Store the informations relatives to the executions
- * of tasks at a defined frequency of system's running time */
+ * of tasks at a defined frequency of system's running time.
+ * Return ERR if one of the files could not be saved, OK otherwise. */
 {
     cf_t *file = NULL;
     cf_t *start_file = NULL;
+    int return_val = OK;
 
     if (arg_file != NULL)
         start_file = arg_file;
@@ -1026,10 +1026,14 @@ save_file(cf_t *arg_file)
         /* save the file safely : save it to a temporary name, then rename() it */
         /* chown the file to root:root : this file should only be read and
          * modified by fcron (not fcrontab) */
-        save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now);
+        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now)
+            != OK)
+            return_val = ERR;
 
         if (arg_file != NULL)
             /* we have to save only a single file */
             break;
     }
+
+    return return_val;
 }
diff --git a/conf.h b/conf.h
index 6036ff3..011c4c6 100644
--- a/conf.h
+++ b/conf.h
@@ -29,6 +29,6 @@
 extern void reload_all(const char *dir_name);
 extern void synchronize_dir(const char *dir_name, int is_system_startup);
 extern void delete_file(const char *user_name);
-extern void save_file(struct cf_t *file_name);
+extern int save_file(struct cf_t *file_name);
 
 #endif                          /* __CONF_H__ */
-- 
2.43.0


From f642398458dc223c4004fb65e11a3bb10e040528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 43/94] fix: do not write out of bounds nor leave freed lines
 on damaged files

The sizes of the fields read from a fcrontab file were used without any
check. An error while reading a line left the lines of the file already read
in the queues with a freed owner. Unknown fields were skipped by mixing
buffered and unbuffered reads, so the rest of the file was lost.
---
 conf.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/conf.c b/conf.c
index 7f61242..3da9ea3 100644
--- a/conf.c
+++ b/conf.c
@@ -388,7 +388,9 @@ int
 read_strn(int fd, char **str, short int size)
 /* read a "size"-length string in a binary fcrontab file */
 {
-    if ((*str = calloc(size + 1, sizeof(char))) == NULL)
+    *str = NULL;
+
+    if (size < 0 || (*str = calloc(size + 1, sizeof(char))) == NULL)
         goto err;
 
     if (read(fd, *str, size) < size)
@@ -423,7 +425,8 @@ read_type(int fd, short int *type, short int *size)
 /* read "size" bytes from file "ff", put them in "to", and check for errors */
 #define Read(TO, SIZE, ERR_STR) \
         { \
-          if ( read(fileno(ff), &(TO), SIZE) < SIZE ) { \
+          if ( SIZE < 0 || (size_t) SIZE > sizeof(TO) \
+               || read(fileno(ff), &(TO), SIZE) < SIZE ) { \
             error_e(ERR_STR); \
 	    goto err; \
 	  } \
@@ -580,6 +583,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
      * a file using a depreciated format generated by an old fcrontab,
      * if the syntax has changed */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_HEADER_T ||
+        size < 0 || (size_t)size > sizeof(bufi) ||
         read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION) {
         error("File %s is not valid: ignored.", file_name);
         error("This file may have been generated by an old version of fcron.");
@@ -610,6 +614,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_TIMEDATE_T
+        || size < 0 || (size_t)size > sizeof(t_save)
         || read(fileno(ff), &t_save, size) < size) {
         error("could not get time and date of saving");
         goto err;
@@ -624,6 +629,8 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     Alloc(cl, cl_t);
     /* main loop : read env variables, and lines */
     while (read_type(fileno(ff), &type, &size) == OK) {
+        bufi = 0;
+
         /* action is determined by the type of the field */
         switch (type) {
 
@@ -773,18 +780,17 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             Alloc(cl, cl_t);
             /* skip the data corresponding to the unknown field */
             {
-                /* we avoid using fseek(), as it seems not to work correctly
-                 * on some systems when we use read() on the FILE stream */
-                int i;
-                for (i = 0; i < size; i++)
-                    if (getc(ff) == EOF)
-                        goto err;
+                /* we avoid using fseek() and getc(), as they don't work
+                 * correctly when we use read() on the FILE stream */
+                char *skipped = NULL;
+                Read_strn(skipped, size, "Error while skipping unknown field");
+                Free_safe(skipped);
             }
         }
     }
 
     /* free last cl Alloc : unused */
-    Free_safe(cl);
+    free_line(cl);
 
     /* check for an error */
     if (ferror(ff) != 0)
@@ -799,17 +805,11 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     if (ff != NULL)
         xfclose_check(&ff, file_name);
 
-    if (cl != NULL && cl->cl_next == NULL) {
-        /* line is not yet in the line list of the file : free it */
-        Free_safe(cl->cl_shell);
-        Free_safe(cl->cl_runas);
-        Free_safe(cl->cl_mailfrom);
-        Free_safe(cl->cl_mailto);
-        Free_safe(cl);
-    }
+    /* the line being read is not yet in the line list of the file: free it */
+    free_line(cl);
 
     /* check if we have started to read the lines and env var */
-    if (cl != NULL) {
+    if (cf->cf_env_list != NULL) {
         /* insert the line in the file list in order to be able to free
          * the memory using delete_file() */
 
@@ -821,6 +821,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     }
     else {
         Free_safe(cf->cf_user);
+        Free_safe(cf);
     }
 
     return ERR;
-- 
2.43.0


From 38c0c09b3d3130cbbaf42a91d4ee5eaf6941d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 44/94] fix: read a fcrontab where only some @-lines have a
 first field

has_read_cl_first was never reset: with a file written by fcron 3.0.x, the
@-lines following a volatile one got a first of 0.
---
 conf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conf.c b/conf.c
index 3da9ea3..5bdb83f 100644
--- a/conf.c
+++ b/conf.c
@@ -770,6 +770,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
                 (cl, cf, runas, runas_str, t_save, is_system_startup) != 0)
                 free_line(cl);
             Alloc(cl, cl_t);
+            has_read_cl_first = 0;
             break;
 
             /* default case in "switch(type)" */
-- 
2.43.0


From 6928bce8968bfef55e8c0ec8cdaafe5666d3bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 45/94] fix: ignore a fcrontab file which is not the one of the
 user it is named after

A file whose user field is damaged, or owned by another user, was loaded (and
then saved) as the fcrontab of that other user, replacing it.
---
 conf.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/conf.c b/conf.c
index 5bdb83f..3b04a37 100644
--- a/conf.c
+++ b/conf.c
@@ -492,6 +492,12 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             /* this is a standard user's new fcrontab : set the runas field to
              * the owner of the file */
             runas = file_stat.st_uid;
+            if ((pass = getpwnam(file_name + 4)) == NULL
+                || pass->pw_uid != file_stat.st_uid) {
+                error("File %s is not owned by user %s: ignored", file_name,
+                      file_name + 4);
+                goto err;
+            }
             if ((pass = getpwuid(file_stat.st_uid)) == NULL) {
                 error_e("Could not getpwuid(%d)", file_stat.st_uid);
                 goto err;
@@ -603,6 +609,13 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         error("Cannot read user's name : file ignored");
         goto err;
     }
+    /* a file may only define the jobs of the user it is named after */
+    if (strcmp(cf->cf_user, (strncmp(file_name, "new.", 4) == 0) ?
+               file_name + 4 : file_name) != 0) {
+        error("File %s is the fcrontab of user %s: ignored", file_name,
+              cf->cf_user);
+        goto err;
+    }
     if (runas != rootuid) {
         /* we use file owner's name for more security (see above) */
         /* free the value obtained by read_strn() (we need to read it anyway
-- 
2.43.0


From 199ed245ba85d1d7eeea44b688c0424e405ee70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 46/94] fix: do not take a fcrontab which cannot be fully read
 for a whole one

---
 conf.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/conf.c b/conf.c
index 3b04a37..30af8e6 100644
--- a/conf.c
+++ b/conf.c
@@ -641,7 +641,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
 
     Alloc(cl, cl_t);
     /* main loop : read env variables, and lines */
-    while (read_type(fileno(ff), &type, &size) == OK) {
+    while ((errno = 0, read_type(fileno(ff), &type, &size)) == OK) {
         bufi = 0;
 
         /* action is determined by the type of the field */
@@ -803,14 +803,15 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         }
     }
 
+    /* check for an error: do not take a file partly read for the whole file */
+    if (errno != 0) {
+        error_e("Error while reading %s", file_name);
+        goto err;
+    }
+
     /* free last cl Alloc : unused */
     free_line(cl);
 
-    /* check for an error */
-    if (ferror(ff) != 0)
-        error("file %s is truncated : you should reinstall it with fcrontab",
-              file_name);
-
     xfclose_check(&ff, file_name);
 
     return OK;
-- 
2.43.0


From c2ae85285bdd7da7bfdfd3fc1782cc8d4396d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 47/94] fix: notice a failing read() in read_type()

---
 conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 30af8e6..6bf5f9f 100644
--- a/conf.c
+++ b/conf.c
@@ -408,9 +408,9 @@ int
 read_type(int fd, short int *type, short int *size)
 /* read the type and size of the next field in a binary fcrontab file */
 {
-    if (read(fd, type, sizeof(short int)) < sizeof(short int))
+    if (read(fd, type, sizeof(short int)) != sizeof(short int))
         goto err;
-    if (read(fd, size, sizeof(short int)) < sizeof(short int))
+    if (read(fd, size, sizeof(short int)) != sizeof(short int))
         goto err;
 
     return OK;
-- 
2.43.0


From 5c2300a0559a482e3915a11f965562213922e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 48/94] fix: do not crash on options nor overflow on dates of a
 damaged file

---
 conf.c     | 16 +++++++++++++++-
 database.c |  3 ++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 6bf5f9f..bbd82b7 100644
--- a/conf.c
+++ b/conf.c
@@ -628,7 +628,8 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* a new file generated by fcrontab has t_save set to 0 */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_TIMEDATE_T
         || size < 0 || (size_t)size > sizeof(t_save)
-        || read(fileno(ff), &t_save, size) < size) {
+        || read(fileno(ff), &t_save, size) < size
+        || t_save < 0 || t_save > TIME_T_MAX) {
         error("could not get time and date of saving");
         goto err;
     }
@@ -894,6 +895,19 @@ add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *runas_str,
         cl->cl_timefreq = 3600 * 24;
     }
 
+    /* dates out of range (damaged file) would overflow when computing the next
+     * execution: recompute it, or consider it will never come */
+    if (cl->cl_nextexe < 0)
+        cl->cl_nextexe = 0;
+    else if (cl->cl_nextexe > TIME_T_MAX)
+        cl->cl_nextexe = TIME_T_MAX;
+    if (!is_td(cl->cl_option)) {
+        if (cl->cl_first < 0 || cl->cl_first > TIME_T_MAX)
+            cl->cl_first = LONG_MAX;
+        if (cl->cl_timefreq > TIME_T_MAX)
+            cl->cl_timefreq = LONG_MAX;
+    }
+
     set_next_exe_startup(cl, is_system_startup ? CONTEXT_BOOT : CONTEXT_DEFAULT,
                          sleep_duration);
 
diff --git a/database.c b/database.c
index 947f8cc..6c1e186 100644
--- a/database.c
+++ b/database.c
@@ -797,7 +797,8 @@ goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
                          * so as we don't return a time in the past */
                         ftime->tm_min++;
                         warn("Line %s doesn't seem correct: consider "
-                             "reinstalling the corresponding fcrontab");
+                             "reinstalling the corresponding fcrontab",
+                             line->cl_shell);
                     }
                 }
             }
-- 
2.43.0


From 84c56a535be017d2ad4ce14ebdb7e0b6e6f099cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 49/94] fix: fcrontab -n/-z: do not remove the fcrontab before
 the new one is written

---
 conf.c     | 17 +++++++++++++++--
 fcrontab.c |  8 ++++----
 global.h   |  1 +
 save.c     |  5 +++++
 save.h     |  1 +
 5 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/conf.c b/conf.c
index bbd82b7..78cfc6e 100644
--- a/conf.c
+++ b/conf.c
@@ -261,8 +261,9 @@ synchronize_file(char *file_name, int is_system_startup)
                 ;
 
             /* compare each lines between the new and the old
-             * version of the file */
-            for (new_l = cur_f->cf_line_base; new_l; new_l = new_l->cl_next)
+             * version of the file (unless the user wants to ignore the old one) */
+            for (new_l = cur_f->cf_ignore_prev ? NULL : cur_f->cf_line_base;
+                 new_l; new_l = new_l->cl_next)
                 for (old_l = old->cf_line_base; old_l; old_l = old_l->cl_next) {
 
                     /* compare the shell command and the fields
@@ -333,6 +334,9 @@ synchronize_file(char *file_name, int is_system_startup)
             cur_f->cf_next = file_base;
             file_base = cur_f;
 
+            /* this is only about the previous version */
+            cur_f->cf_ignore_prev = 0;
+
             /* save final file */
             /* delete new.user file: if the final file could not be saved,
              * then this is the only copy on the disk */
@@ -352,6 +356,9 @@ synchronize_file(char *file_name, int is_system_startup)
                 return;
             }
 
+            /* this is only about the previous version */
+            cur_f->cf_ignore_prev = 0;
+
             /* insert the file in the list */
             cur_f->cf_next = file_base;
             file_base = cur_f;
@@ -677,6 +684,12 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             cf->cf_tzdiff = (signed char)bufi;
             break;
 
+        case S_IGNOREPREV_T:
+            /* should we ignore the previous version of this file? */
+            Read(bufi, size, "Error while reading ignoreprev field");
+            cf->cf_ignore_prev = (bufi != 0);
+            break;
+
         case S_TZ_T:
             /* read the timezone (string) in which the line should run */
             Read_strn(cl->cl_tz, size, "Error while reading timezone field");
diff --git a/fcrontab.c b/fcrontab.c
index 042584e..c844152 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -314,10 +314,10 @@ write_file(int fd)
     int return_val = OK;
 
     if (ignore_prev == 1)
-        /* if user wants to ignore previous version, we remove it *
-         * ( fcron daemon remove files no longer wanted before
-         *   adding new ones ) */
-        remove_fcrontab(0);
+        /* if user wants to ignore previous version, we say so in the new file.
+         * ( do not remove the previous version here: the user would be left
+         *   without any fcrontab if we did not get to write the new one ) */
+        file_base->cf_ignore_prev = 1;
 
     /* copy original file to fcrontabs dir */
     snprintf(buf, sizeof(buf), "%s.orig", user);
diff --git a/global.h b/global.h
index 468bcd9..c3ac777 100644
--- a/global.h
+++ b/global.h
@@ -197,6 +197,7 @@ typedef struct cf_t {
     env_list_t *cf_env_list;    /* list of all parsed env var                */
     int cf_running;             /* number of jobs running                    */
     signed char cf_tzdiff;      /* time diff between system and local hour   */
+    char cf_ignore_prev;        /* keep no data of the previous version?     */
 #ifdef WITH_SELINUX
     char *cf_user_context;
     char *cf_file_context;
diff --git a/save.c b/save.c
index 698a760..796d14b 100644
--- a/save.c
+++ b/save.c
@@ -242,6 +242,11 @@ write_file_to_disk(int fd, struct cf_t *file, time_t time_date)
     if (file->cf_tzdiff != 0)
         Save_lint(fd, S_TZDIFF_T, file->cf_tzdiff, write_buf, &write_buf_used);
 
+    /* Should the daemon drop what it knows from the previous version? */
+    if (file->cf_ignore_prev)
+        Save_lint(fd, S_IGNOREPREV_T, file->cf_ignore_prev, write_buf,
+                  &write_buf_used);
+
     /*   env variables, */
     for (env = env_list_first(file->cf_env_list);
          env != NULL; env = env_list_next(file->cf_env_list)) {
diff --git a/save.h b/save.h
index 4586165..e389db4 100644
--- a/save.h
+++ b/save.h
@@ -55,6 +55,7 @@ extern int save_file_safe(cf_t * file, char *final_path, char *prog_name,
 #define S_USER_T       2        /* name of the fcrontab's owner */
 #define S_TIMEDATE_T   3        /* time and date of saving */
 #define S_TZDIFF_T     4        /* time diff between the local and system hour */
+#define S_IGNOREPREV_T 5        /* do not keep any data from the previous version */
 
 /* env var */
 #define S_ENVVAR_T     1000     /* an environment variable */
-- 
2.43.0


From ff638f2a00f6e745dd4a936fd981ffd367895c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 50/94] fix: fcrontab: create rm.USER before anything is
 removed, and report failures to remove a fcrontab

---
 fcrontab.c | 60 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index c844152..df6de85 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -274,32 +274,45 @@ remove_fcrontab(char rm_orig)
     if (rm_orig)
         explain("removing %s's fcrontab", user);
 
-    /* remove source and formated file */
-    if ((rm_orig && remove_as_user(buf, fcrontab_uid, fcrontab_gid)) != 0) {
-        if (errno == ENOENT)
-            return_val = ENOENT;
-        else
-            error_e("could not remove %s", buf);
-    }
-
-    /* try to remove the temp file in case he has not
-     * been read by fcron daemon */
-    snprintf(buf, sizeof(buf), "new.%s", user);
-    remove_as_user(buf, useruid, fcrontab_gid);
-
-    /* finally create a file in order to tell the daemon
-     * a file was removed, and launch a signal to daemon */
+    /* first create a file in order to tell the daemon a file was removed: if
+     * this fails (or if we are stopped below), then the user still has a
+     * complete fcrontab. A signal will be sent to the daemon. */
     snprintf(buf, sizeof(buf), "rm.%s", user);
     fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,
                       O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
 
     if (fd == -1) {
-        if (errno != EEXIST)
+        if (errno != EEXIST) {
             error_e("Can't create file %s", buf);
+            return ERR;
+        }
+    }
+    else {
+        if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
+            error_e("Could not fchown %s to root", buf);
+        xclose_check(&fd, buf);
+    }
+
+    /* try to remove the temp file in case he has not
+     * been read by fcron daemon */
+    snprintf(buf, sizeof(buf), "new.%s", user);
+    if (remove_as_user(buf, useruid, fcrontab_gid) != 0 && errno != ENOENT) {
+        error_e("could not remove %s", buf);
+        return_val = ERR;
+    }
+
+    /* remove source file (the formated file is removed by the daemon) */
+    if (rm_orig && return_val == OK) {
+        snprintf(buf, sizeof(buf), "%s.orig", user);
+        if (remove_as_user(buf, fcrontab_uid, fcrontab_gid) != 0) {
+            if (errno == ENOENT)
+                return_val = ENOENT;
+            else {
+                error_e("could not remove %s", buf);
+                return_val = ERR;
+            }
+        }
     }
-    else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
-        error_e("Could not fchown %s to root", buf);
-    xclose_check(&fd, buf);
 
     need_sig = 1;
 
@@ -329,7 +342,8 @@ write_file(int fd)
         if (file_base->cf_line_base == NULL) {
             /* no entries */
             explain("%s's fcrontab contains no entries : removed.", user);
-            remove_fcrontab(0);
+            if (remove_fcrontab(0) != OK)
+                return_val = ERR;
         }
         else {
             /* write the binary fcrontab on disk */
@@ -1136,9 +1150,11 @@ main(int argc, char **argv)
 
     /* remove user's entries */
     if (rm_opt == 1) {
-        if (remove_fcrontab(1) == ENOENT)
+        int ret = remove_fcrontab(1);
+
+        if (ret == ENOENT)
             fprintf(stderr, "no fcrontab for %s\n", user);
-        xexit(EXIT_OK);
+        xexit((ret == ERR) ? EXIT_ERR : EXIT_OK);
     }
 
     /* list user's entries */
-- 
2.43.0


From ae4f5df6666b2dd1b9597476215ff89d34198abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 51/94] fix: fcrontab: partial writes and read/close errors
 when copying the source file

---
 fcrontab.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index df6de85..0f717b3 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -193,8 +193,8 @@ copy_src(int from, const char *dest)
      * so as to avoid data loss if the filesystem is full. */
 {
     int to_fd = -1;
-    int nb;
-    char *copy_buf[LINE_LEN];
+    int nb, done, written;
+    char copy_buf[LINE_LEN];
 
     char tmp_filename_str[PATH_LEN + 4];
     int dest_path_len, tmp_filename_index;
@@ -239,14 +239,34 @@ copy_src(int from, const char *dest)
         }
     }
 
-    while ((nb = read(from, copy_buf, sizeof(copy_buf))) != -1 && nb != 0)
-        if (write(to_fd, copy_buf, nb) != nb) {
-            error_e("Error while copying file (no space left ?)."
+    while ((nb = read(from, copy_buf, sizeof(copy_buf))) != 0) {
+        if (nb < 0) {
+            if (errno == EINTR)
+                continue;
+            error_e("Error while reading the new source file."
                     " Aborting : old source file kept");
             goto exiterr;
         }
+        for (done = 0; done < nb; done += written) {
+            written = write(to_fd, copy_buf + done, nb - done);
+            if (written < 0) {
+                if (errno == EINTR) {
+                    written = 0;
+                    continue;
+                }
+                error_e("Error while copying file (no space left ?)."
+                        " Aborting : old source file kept");
+                goto exiterr;
+            }
+        }
+    }
 
-    xclose_check(&to_fd, dest);
+    /* on some filesystems a write error may only be reported by close() */
+    if (xclose(&to_fd) < 0 && errno != EINTR) {
+        error_e("Error while closing %s. Aborting : old source file kept",
+                tmp_filename_str);
+        goto exiterr;
+    }
 
     if (rename_as_user(tmp_filename_str, dest, useruid, fcrontab_gid) < 0) {
         error_e("Unable to rename %s to %s : old source file kept",
@@ -259,6 +279,7 @@ copy_src(int from, const char *dest)
  exiterr:
     if (to_fd != -1)
         xclose_check(&to_fd, dest);
+    remove_as_user(tmp_filename_str, fcrontab_uid, fcrontab_gid);
     return ERR;
 }
 
-- 
2.43.0


From 3382be7f2db398cadf50e2997503f644aa581c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 52/94] fix: fcrontab: do not take a file which could only be
 partly read (or copied) for the whole file

---
 fcrontab.c | 28 +++++++++++++++++++++-------
 fileconf.c |  6 ++++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 0f717b3..8484825 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -436,6 +436,11 @@ list_file(const char *file)
     while ((c = getc(f)) != EOF)
         putchar(c);
 
+    if (ferror(f))
+        die_e("Error while reading file \"%s\"", file);
+    if (fflush(stdout) != 0 || ferror(stdout))
+        die_e("Error while writing the list of %s's fcrontab", user);
+
     /* also closes the underlying file descriptor fd: */
     xfclose_check(&f, file);
 
@@ -501,15 +506,18 @@ edit_file(const char *fcron_orig)
                 goto exiterr;
             }
         }
+        if (ferror(f)) {
+            error_e("could not read file %s", fcron_orig);
+            goto exiterr;
+        }
         xfclose_check(&f, fcron_orig);
-
-        if (ferror(fi))
-            error_e("Error while writing new fcrontab to %s");
     }
 
     /* Don't close fi, because we still need the file descriptor 'file' */
-    if (fflush(fi) != 0)
-        die_e("Could not fflush(%s)", fi);
+    if (fflush(fi) != 0 || ferror(fi)) {
+        error_e("could not write to file %s", tmp_str);
+        goto exiterr;
+    }
     fi = NULL;
 
     do {
@@ -686,12 +694,18 @@ install_stdin(void)
 
     while ((c = getc(stdin)) != EOF)
         putc(c, tmp_file);
+    if (ferror(stdin)) {
+        error_e("Could not read stdin");
+        goto exiterr;
+    }
     /* // */
     debug("Copied stdin to %s, about to parse file %s...", tmp_str, tmp_str);
 
     /* don't closes tmp_fd as it will be used for make_file(): */
-    if (fflush(tmp_file) != 0)
-        die_e("Could not fflush(%s)", tmp_file);
+    if (fflush(tmp_file) != 0 || ferror(tmp_file)) {
+        error_e("Could not write to file %s", tmp_str);
+        goto exiterr;
+    }
 
     if (make_file(tmp_str, tmp_fd) == ERR)
         goto exiterr;
diff --git a/fileconf.c b/fileconf.c
index 2bb7bb5..f78c7ea 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -309,6 +309,12 @@ read_file(char *filename, int fd)
     cf->cf_next = file_base;
     file_base = cf;
 
+    if (ferror(file)) {
+        /* do not take the beginning of a file for the whole file */
+        error_e("Error while reading %s", file_name);
+        return ERR;
+    }
+
     /* don't close as underlying fd may still be used by calling function */
     if (fflush(file) != 0)
         error_e("could not fflush() file_name");
-- 
2.43.0


From 14511c381d170160ef5d4dfd0a6df3c47f169af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 53/94] fix: fcrontab -e: endless loop when there is no answer
 to read

---
 fcrontab.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 8484825..b3818f8 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -617,10 +617,18 @@ edit_file(const char *fcron_orig)
                 fprintf(stderr, "\nFile contains some errors. "
                         "Ignore [i] or Correct [c] ? ");
                 while ((c = getchar())) {
+                    int next = c;
+
                     /* consume the rest of the line, e.g. the newline char (\n) */
-                    while (c != '\n' && (getchar() != '\n')) ;
+                    while (next != '\n' && next != EOF)
+                        next = getchar();
 
-                    if (c == 'i') {
+                    if (c == EOF) {
+                        fprintf(stderr, "\nNo answer:"
+                                " fcrontab is unchanged.\n");
+                        goto exiterr;
+                    }
+                    else if (c == 'i') {
                         break;
                     }
                     else if (c == 'c') {
-- 
2.43.0


From 0015123078a223e334b27927d72585e144f61689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 54/94] fix: do not exit successfully after an error which does
 not set errno, e.g. when the file to install is not a regular file

---
 log.c  | 3 ++-
 subs.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/log.c b/log.c
index f8ab322..2115371 100644
--- a/log.c
+++ b/log.c
@@ -466,7 +466,8 @@ die_e(char *fmt, ...)
     }
 
 
-    exit(err_no);
+    /* errno may not be set: do not exit successfully */
+    exit((err_no != 0) ? err_no : EXIT_ERR);
 
 }
 
diff --git a/subs.c b/subs.c
index 9a0a00b..dc2dee4 100644
--- a/subs.c
+++ b/subs.c
@@ -136,7 +136,7 @@ open_as_user(const char *pathname, uid_t openuid, gid_t opengid, int flags, ...)
             fd = -1;
         }
 
-        if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
+        else if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
             error_e("open_as_user(): file %s is not a regular file", pathname);
             if (xclose(&fd) < 0)
                 error_e("open_as_user: could not xclose() %s", pathname);
-- 
2.43.0


From 8f0f3a4a8012e4503a7cd192c26a099f079b90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 55/94] fix: a fcrontab installed while the daemon is loading
 the previous one is lost

---
 conf.c | 65 +++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/conf.c b/conf.c
index 78cfc6e..8478f43 100644
--- a/conf.c
+++ b/conf.c
@@ -83,6 +83,7 @@ synchronize_dir(const char *dir_name, int is_system_startup)
     list_t *list_cur = NULL;
     DIR *dir;
     struct dirent *den;
+    char load_name[PATH_LEN];
 
     if (strcmp(dir_name, ".") == 0)
         explain("updating configuration from %s", fcrontabs);
@@ -99,7 +100,8 @@ synchronize_dir(const char *dir_name, int is_system_startup)
                 list_cur->next = rm_list;
                 rm_list = list_cur;
             }
-            else if (strncmp(den->d_name, "new.", 4) == 0) {
+            else if (strncmp(den->d_name, "new.", 4) == 0
+                     || strncmp(den->d_name, "load.", 5) == 0) {
                 /* this is a file to append to database */
                 Alloc(list_cur, list_t);
                 list_cur->str = strdup2(den->d_name);
@@ -134,6 +136,10 @@ synchronize_dir(const char *dir_name, int is_system_startup)
         delete_file(list_cur->str + 3); /* len("rm.") = 3 */
         if (remove(list_cur->str + 3) != 0 && errno != ENOENT)
             error_e("Could not remove %s", list_cur->str + 3);
+        /* an earlier version, that we could not load completely */
+        snprintf(load_name, sizeof(load_name), "load.%s", list_cur->str + 3);
+        if (remove(load_name) != 0 && errno != ENOENT)
+            error_e("Could not remove %s", load_name);
         if (remove(list_cur->str) != 0 && errno != ENOENT)
             error_e("Could not remove %s", list_cur->str);
     }
@@ -156,19 +162,35 @@ synchronize_dir(const char *dir_name, int is_system_startup)
 
     /* finally add new files */
     for (list_cur = new_list; list_cur; list_cur = list_cur->next) {
-        /* len("new.") = 4 : */
+        /* "new.user", or "load.user" if we could not load it completely */
+        char *user = strchr(list_cur->str, '.') + 1;
+
         errno = 0;
-        if (getpwnam(list_cur->str + 4)
+        if (getpwnam(user)
 #ifdef SYSFCRONTAB
-            || strcmp(list_cur->str + 4, SYSFCRONTAB) == 0
+            || strcmp(user, SYSFCRONTAB) == 0
 #endif
             ) {
-            explain("adding new file %s", list_cur->str + 4);
-            synchronize_file(list_cur->str, is_system_startup);
+            /* fcrontab may install a newer version at any time: first rename
+             * the file, so as it is always the one we have loaded
+             * (and not that newer version) which we remove in the end */
+            snprintf(load_name, sizeof(load_name), "load.%s", user);
+            if (strcmp(list_cur->str, load_name) != 0
+                && rename(list_cur->str, load_name) != 0) {
+                if (errno != ENOENT)
+                    error_e("Could not rename %s to %s", list_cur->str,
+                            load_name);
+                continue;
+            }
+            if (access(load_name, F_OK) != 0 && errno == ENOENT)
+                /* already loaded above */
+                continue;
+
+            explain("adding new file %s", user);
+            synchronize_file(load_name, is_system_startup);
         }
         else
-            error_e("ignoring file %s : not in passwd file.",
-                    (list_cur->str + 4));
+            error_e("ignoring file %s : not in passwd file.", user);
     }
 
     /* free lists */
@@ -217,9 +239,8 @@ synchronize_file(char *file_name, int is_system_startup)
         cf_t *prev = NULL;
 
         /* set user name  */
-        /* we add 4 to file_name pointer because of the "new."
-         * string at the beginning of a new file */
-        user = (file_name + 4);
+        /* skip the "load." string at the beginning of a new file */
+        user = strchr(file_name, '.') + 1;
 
         for (cur_f = file_base; cur_f; cur_f = cur_f->cf_next) {
             if (strcmp(user, cur_f->cf_user) == 0)
@@ -338,7 +359,7 @@ synchronize_file(char *file_name, int is_system_startup)
             cur_f->cf_ignore_prev = 0;
 
             /* save final file */
-            /* delete new.user file: if the final file could not be saved,
+            /* delete load.user file: if the final file could not be saved,
              * then this is the only copy on the disk */
             if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
@@ -364,7 +385,7 @@ synchronize_file(char *file_name, int is_system_startup)
             file_base = cur_f;
 
             /* save as a normal file */
-            /* delete new.user file: if the final file could not be saved,
+            /* delete load.user file: if the final file could not be saved,
              * then this is the only copy on the disk */
             if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
@@ -463,6 +484,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     short int type = 0, size = 0;
     int rc;
     int has_read_cl_first = 0;  /* have we read S_FIRST_T? */
+    const char *new_name = NULL;        /* user's name if this is a new file */
 #ifdef WITH_SELINUX
     int flask_enabled = is_selinux_enabled();
     int retval = -1;
@@ -470,6 +492,12 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     char *user_name = NULL;
 #endif
 
+    /* new files are named "new.user", and then "load.user" */
+    if (strncmp(file_name, "new.", 4) == 0)
+        new_name = file_name + 4;
+    else if (strncmp(file_name, "load.", 5) == 0)
+        new_name = file_name + 5;
+
     /* open file */
     if ((ff = fopen(file_name, "r")) == NULL) {
         warn_e("Could not read %s (may have just been removed)", file_name);
@@ -490,7 +518,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     }
 #endif
 
-    if (strncmp(file_name, "new.", 4) == 0) {
+    if (new_name != NULL) {
         if (file_stat.st_uid == rootuid) {
             /* file is owned by root : no test needed : set runas to rootuid */
             runas = rootuid;
@@ -499,10 +527,10 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             /* this is a standard user's new fcrontab : set the runas field to
              * the owner of the file */
             runas = file_stat.st_uid;
-            if ((pass = getpwnam(file_name + 4)) == NULL
+            if ((pass = getpwnam(new_name)) == NULL
                 || pass->pw_uid != file_stat.st_uid) {
                 error("File %s is not owned by user %s: ignored", file_name,
-                      file_name + 4);
+                      new_name);
                 goto err;
             }
             if ((pass = getpwuid(file_stat.st_uid)) == NULL) {
@@ -511,7 +539,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             }
             runas_str = strdup2(pass->pw_name);
         }
-        cf->cf_user = strdup2(file_name + 4);
+        cf->cf_user = strdup2(new_name);
     }
     else {
         if (!cf->cf_user)
@@ -617,8 +645,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         goto err;
     }
     /* a file may only define the jobs of the user it is named after */
-    if (strcmp(cf->cf_user, (strncmp(file_name, "new.", 4) == 0) ?
-               file_name + 4 : file_name) != 0) {
+    if (strcmp(cf->cf_user, (new_name != NULL) ? new_name : file_name) != 0) {
         error("File %s is the fcrontab of user %s: ignored", file_name,
               cf->cf_user);
         goto err;
-- 
2.43.0


From 5990f2c8dc1c650704c52662db505e747e310e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 56/94] fix: a fcrontab removed while the daemon is reading its
 directory may come back

---
 fcrontab.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index b3818f8..70dec9d 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -285,19 +285,11 @@ copy_src(int from, const char *dest)
 
 
 int
-remove_fcrontab(char rm_orig)
-    /* remove user's fcrontab and tell daemon to update his conf */
-    /* note : the binary fcrontab is removed by fcron */
+create_rm_file(void)
+    /* create a file in order to tell the daemon that a fcrontab is removed */
 {
-    int return_val = OK;
     int fd;
 
-    if (rm_orig)
-        explain("removing %s's fcrontab", user);
-
-    /* first create a file in order to tell the daemon a file was removed: if
-     * this fails (or if we are stopped below), then the user still has a
-     * complete fcrontab. A signal will be sent to the daemon. */
     snprintf(buf, sizeof(buf), "rm.%s", user);
     fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,
                       O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
@@ -314,6 +306,26 @@ remove_fcrontab(char rm_orig)
         xclose_check(&fd, buf);
     }
 
+    return OK;
+}
+
+
+int
+remove_fcrontab(char rm_orig)
+    /* remove user's fcrontab and tell daemon to update his conf */
+    /* note : the binary fcrontab is removed by fcron */
+{
+    int return_val = OK;
+
+    if (rm_orig)
+        explain("removing %s's fcrontab", user);
+
+    /* first create a file in order to tell the daemon a file was removed: if
+     * this fails (or if we are stopped below), then the user still has a
+     * complete fcrontab. A signal will be sent to the daemon. */
+    if (create_rm_file() == ERR)
+        return ERR;
+
     /* try to remove the temp file in case he has not
      * been read by fcron daemon */
     snprintf(buf, sizeof(buf), "new.%s", user);
@@ -322,6 +334,11 @@ remove_fcrontab(char rm_orig)
         return_val = ERR;
     }
 
+    /* the daemon may have removed the rm file, and then loaded the temp file,
+     * before we could remove it */
+    if (create_rm_file() == ERR)
+        return ERR;
+
     /* remove source file (the formated file is removed by the daemon) */
     if (rm_orig && return_val == OK) {
         snprintf(buf, sizeof(buf), "%s.orig", user);
-- 
2.43.0


From 1f970a80e2d698170843bd76dbc8065a80d556dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 57/94] fix: fcron.allow and fcron.deny: long lines, users
 listed below "all", and read errors

---
 allow.c | 52 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/allow.c b/allow.c
index dfe6853..dd88f7a 100644
--- a/allow.c
+++ b/allow.c
@@ -36,7 +36,10 @@ in_file(char *str, char *file)
 {
     char buf[LINE_LEN];
     FILE *f = NULL;
-    char *start = NULL;
+    size_t len;
+    int c = '\n';
+    int ignore;
+    int ret = 0;
 
     if ((f = fopen(file, "r")) == NULL) {
         if (errno == ENOENT)
@@ -46,29 +49,44 @@ in_file(char *str, char *file)
             die_e("could not open %s", file);
     }
 
-    while (fgets(buf, sizeof(buf), f) != NULL) {
+    /* we must not stop at "all", as the user may also be listed below it */
+    while (c != EOF && ret != 1) {
+
+        /* read a line: ignore it if it is too long (otherwise its end would be
+         * considered as a line on its own) or if it is not a text */
+        len = 0;
+        ignore = 0;
+        while ((c = getc(f)) != EOF && c != '\n') {
+            if ((c == ' ' || c == '\t')
+                && (len == 0 || len >= sizeof(buf) - 1))
+                /* leading blank, or maybe trailing blank of a long line */
+                continue;
+            if (c == '\0' || len >= sizeof(buf) - 1)
+                ignore = 1;
+            else
+                buf[len++] = (char)c;
+        }
+        buf[len] = '\0';
+        if (ignore)
+            continue;
 
-        /* skip leading and trailing blanks, comments */
-        start = buf;
-        Skip_blanks(start);
-        if (*start == '#' || *start == '\0')
+        /* skip comments and trailing blanks */
+        if (*buf == '#' || *buf == '\0')
             continue;
-        remove_blanks(start);
+        remove_blanks(buf);
 
-        if (strcmp(str, start) == 0) {
-            xfclose_check(&f, file);
-            return 1;
-        }
-        if (strcmp(start, "all") == 0) {
-            xfclose_check(&f, file);
-            return 2;
-        }
+        if (strcmp(str, buf) == 0)
+            ret = 1;
+        else if (strcmp(buf, "all") == 0)
+            ret = 2;
     }
 
+    if (ferror(f))
+        die_e("could not read %s", file);
+
     xfclose_check(&f, file);
-    /* if execution gets here, string is not in file */
-    return 0;
 
+    return ret;
 
 }
 
-- 
2.43.0


From 096aa415d34ad02d0c16c20d0ffe52f6078441a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 58/94] fix: fcronsighup: crash, and daemon not signaled, when
 the lock file has been removed by another instance

---
 fcronsighup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcronsighup.c b/fcronsighup.c
index dc14df3..003cd5f 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -184,7 +184,7 @@ sig_daemon(void)
         fd = -1;
 
         if (remove(sigfile) < 0)
-            error_e("Could not remove %s");
+            error_e("Could not remove %s", sigfile);
     }
     else
         /* we are root, or config MAX_FCRONTAB_RELOAD_DELAY_SECONDS=0 is set */
-- 
2.43.0


From 2ebc3ab84f0656902df1b6271cbda0c4dd40826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 59/94] fix: jobs not run when SHELL is not valid and no shell
 is set in fcron.conf nor in passwd

---
 job.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/job.c b/job.c
index 88085ab..ddd34a2 100644
--- a/job.c
+++ b/job.c
@@ -125,6 +125,7 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
     env_t *e = NULL;
     char *path = NULL;
     char *myshell = NULL;
+    char *default_shell = NULL;
 #ifdef HAVE_LIBPAM
     int retcode = 0;
     char **env;
@@ -148,10 +149,14 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
      * in /etc/passwd by default, but the default value from fcron.conf instead: */
     if (shell != NULL && shell[0] != '\0')
         /* default: use value from fcron.conf */
-        env_list_setenv(env_list, "SHELL", shell, 1);
-    else
+        default_shell = shell;
+    else if (pas->pw_shell != NULL && pas->pw_shell[0] != '\0')
         /* shell is empty, ie. not defined: fail back to /etc/passwd's value */
-        env_list_setenv(env_list, "SHELL", pas->pw_shell, 1);
+        default_shell = pas->pw_shell;
+    else
+        /* see passwd(5) */
+        default_shell = "/bin/sh";
+    env_list_setenv(env_list, "SHELL", default_shell, 1);
 
 #if ( ! defined(RUN_NON_PRIVILEGED)) && defined(HAVE_LIBPAM)
     /* Open PAM session for the user and obtain any security
@@ -213,17 +218,17 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
         /* check that SHELL is valid */
         myshell = env_list_getenv(env_list, "SHELL");
         if (myshell == NULL || myshell[0] == '\0') {
-            myshell = shell;
+            myshell = default_shell;
         }
         else if (access(myshell, X_OK) != 0) {
             if (errno == ENOENT)
                 error("shell \"%s\" : no file or directory. SHELL set to %s",
-                      myshell, shell);
+                      myshell, default_shell);
             else
                 error_e("shell \"%s\" not valid : SHELL set to %s", myshell,
-                        shell);
+                        default_shell);
 
-            myshell = shell;
+            myshell = default_shell;
         }
         env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
-- 
2.43.0


From 8a0dfa0fa55e3108693cf78d0103b0a9253ea5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 60/94] fix: the descriptor used to notice time changes is
 inherited by the jobs

---
 suspend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 6ec3858..9c9834a 100644
--- a/suspend.c
+++ b/suspend.c
@@ -225,7 +225,7 @@ init_suspend(select_instance *si)
         };
 
 
-        timer_cancel_on_set_fd = timerfd_create(CLOCK_REALTIME, 0);
+        timer_cancel_on_set_fd = timerfd_create(CLOCK_REALTIME, TFD_CLOEXEC);
         if (timer_cancel_on_set_fd == -1) {
             die_e("timerfd_create");
         }
-- 
2.43.0


From eb2b73f247b36788e5944357460939250f2cb38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 61/94] fix: use of memory already freed when setting SHELL for
 a job

---
 job.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/job.c b/job.c
index ddd34a2..66e279f 100644
--- a/job.c
+++ b/job.c
@@ -230,9 +230,13 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
 
             myshell = default_shell;
         }
+        /* myshell may be in env_list, which env_list_setenv() may reallocate */
+        myshell = strdup2(myshell);
         env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
-            *curshell = strdup2(myshell);
+            *curshell = myshell;
+        else
+            Free_safe(myshell);
 
         *jobenv = env_list_export_envp(env_list);
 
-- 
2.43.0


From b807474990e527922464b47c50d99c72d6f5c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 62/94] fix: empty mails sent when the mail header is longer
 than 32kB

---
 job.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/job.c b/job.c
index 66e279f..ecdb278 100644
--- a/job.c
+++ b/job.c
@@ -30,7 +30,7 @@
 
 
 void sig_dfl(void);
-void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
+void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
 #ifdef HAVE_LIBPAM
@@ -586,7 +586,7 @@ run_job(struct exe_t *exeent)
             int status = 0;
             int to_stdout = foreground && is_stdout(line->cl_option);
             int pipe_fd[2];
-            short int mailpos = 0;      /* 'empty mail file' size */
+            long mailpos = 0;   /* 'empty mail file' size */
 #ifdef WITH_SELINUX
             int flask_enabled = is_selinux_enabled();
 #endif
@@ -798,7 +798,7 @@ run_job(struct exe_t *exeent)
 }
 
 void
-end_job(cl_t *line, int status, FILE *mailf, short mailpos, char **sendmailenv)
+end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **sendmailenv)
     /* if task have made some output, mail it to user */
 {
 
-- 
2.43.0


From b921835b6dbc266a11477b691353d4d400ba92b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 63/94] fix: mails without the null characters of the output of
 a job, nor the rest of the lines they are in

---
 job.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/job.c b/job.c
index ecdb278..b66689e 100644
--- a/job.c
+++ b/job.c
@@ -724,15 +724,18 @@ run_job(struct exe_t *exeent)
                 if (!to_stdout && is_mail(line->cl_option)) {
                     /* user wants a mail : we use the pipe */
                     char mailbuf[TERM_LEN];
+                    size_t mailbuf_len = 0;
                     FILE *pipef = fdopen(pipe_fd[0], "r");
 
                     if (pipef == NULL)
                         die_e("Could not fdopen() pipe_fd[0]");
 
-                    mailbuf[sizeof(mailbuf) - 1] = '\0';
-                    while (fgets(mailbuf, sizeof(mailbuf), pipef) != NULL)
-                        if (fputs(mailbuf, mailf) < 0)
-                            warn("fputs() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
+                    /* (the output may contain null characters) */
+                    while ((mailbuf_len =
+                            fread(mailbuf, 1, sizeof(mailbuf), pipef)) > 0)
+                        if (fwrite(mailbuf, 1, mailbuf_len, mailf) !=
+                            mailbuf_len)
+                            warn("fwrite() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
                     /* (closes also pipe_fd[0]): */
                     xfclose_check(&pipef, "child's pipef");
                 }
-- 
2.43.0


From 22740f0c4126b74274cf6ce0e2bedca528c057a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 64/94] fix: nice() with a negative value has no effect on the
 jobs root runs as another user

---
 conf.c |  3 +++
 job.c  | 21 ++++++++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/conf.c b/conf.c
index 8478f43..467c1e0 100644
--- a/conf.c
+++ b/conf.c
@@ -904,6 +904,9 @@ add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *runas_str,
             warn("warning: runas(%s) is not owner (%s): overridden.",
                  cl->cl_runas, runas_str);
         Set(cl->cl_runas, runas_str);
+        /* only root can decrease the nice value (see run_job()) */
+        if (cl->cl_nice < 0)
+            cl->cl_nice = 0;
     }
 
     /* we need that here because the user's name contained in the
diff --git a/job.c b/job.c
index b66689e..407e332 100644
--- a/job.c
+++ b/job.c
@@ -529,14 +529,12 @@ run_job_grand_child_setup_stderr_stdout(cl_t *line, int *pipe_fd)
 }
 
 void
-run_job_grand_child_setup_nice(cl_t *line)
+run_job_setup_nice(int inc)
     /* set the nice value for the job */
 {
-    if (line->cl_nice != 0) {
-        errno = 0;              /* so that it works with any libc and kernel */
-        if (nice(line->cl_nice) == -1 && errno != 0)
-            error_e("could not set nice value");
-    }
+    errno = 0;                  /* so that it works with any libc and kernel */
+    if (nice(inc) == -1 && errno != 0)
+        error_e("could not set nice value");
 }
 
 int
@@ -624,6 +622,10 @@ run_job(struct exe_t *exeent)
                     die_e("could not pipe() (job not executed)");
             }
 
+            /* only root can decrease the nice value */
+            if (line->cl_nice < 0)
+                run_job_setup_nice(line->cl_nice);
+
             become_user(line, pas, curhome);
             Free_safe(curhome);
 
@@ -662,7 +664,8 @@ run_job(struct exe_t *exeent)
                 foreground = 1;
                 /* now, errors will be mailed to the user (or to /dev/null) */
 
-                run_job_grand_child_setup_nice(line);
+                if (line->cl_nice > 0)
+                    run_job_setup_nice(line->cl_nice);
 
                 xcloselog();
 
@@ -695,6 +698,10 @@ run_job(struct exe_t *exeent)
                 /* close unneeded WRITE pipe and READ pipe */
                 xclose_check(&(pipe_fd[1]), "child's pipe_fd[1]");
 
+                /* the nice value is the one of the job only */
+                if (line->cl_nice < 0)
+                    run_job_setup_nice(-line->cl_nice);
+
 #ifdef CHECKRUNJOB
                 debug("run_job(): child: pipe_fd[1] and pipe_pid_fd[0] closed"
                       " -- about to write grand-child pid to pipe");
-- 
2.43.0


From 4b67903096bf09ab2995c971d1095ef394da4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 65/94] fix: more bytes than left read or written after a
 partial read or write of a pipe

---
 job.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index 407e332..5a90afc 100644
--- a/job.c
+++ b/job.c
@@ -426,10 +426,11 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
     while (size_processed < size) {
         errno = 0;
         if (action == PIPE_READ) {
-            ret = read(fd, (char *)buf + size_processed, size);
+            ret = read(fd, (char *)buf + size_processed, size - size_processed);
         }
         else if (action == PIPE_WRITE) {
-            ret = write(fd, (char *)buf + size_processed, size);
+            ret = write(fd, (char *)buf + size_processed,
+                        size - size_processed);
         }
         else {
             error("Invalid action parameter for function read_write_pipe():"
-- 
2.43.0


From 646f09c0f33d183e54815ce86a04aaee5f61b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 66/94] fix: keep watching the other descriptors when the
 highest one is closed

---
 select.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/select.c b/select.c
index 33e19f7..484b11b 100644
--- a/select.c
+++ b/select.c
@@ -59,9 +59,12 @@ select_rm_read(select_instance *si, int fd)
         /* fds in the fd_set may not be continuous, so we need
          * to check them all to find the new max */
         int i;
+        si->__fd_max = -1;
         for (i = fd; i >= 0; i--) {
-            if (FD_ISSET(i, &si->__readfds_master))
+            if (FD_ISSET(i, &si->__readfds_master)) {
                 si->__fd_max = i;
+                break;
+            }
         }
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
-- 
2.43.0


From f83a41c35f5d7f74a5ca139d5dd1d11e5cf16be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 67/94] fix: start a serial job run from fcrondyn at once

---
 fcron.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcron.c b/fcron.c
index e59eb88..ee280b9 100644
--- a/fcron.c
+++ b/fcron.c
@@ -997,6 +997,11 @@ main_loop()
         /* check if there's a new connection, a new command to answer, etc ... */
         /* we do that *after* other checks, to avoid Denial Of Service attacks */
         fcrondyn_socket_check(&main_select);
+
+        /* a command may just have queued a serial job */
+        while (serial_num > 0 && serial_running < serial_max_running) {
+            run_serial_job();
+        }
 #endif
 
         nwt = check_lavg(save);
-- 
2.43.0


From b211a558b64abbe5496d2a88f45ecbd20198981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 68/94] fix: do not list the jobs of systab to every user

---
 fcrondyn_svr.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2599254..752ca8b 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -564,8 +564,15 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             struct passwd *pass;
 
 #ifdef SYSFCRONTAB
-            if (cmd[1] == SYSFCRONTAB_UID)
+            if (cmd[1] == SYSFCRONTAB_UID) {
+                if (!is_root) {
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, SYSFCRONTAB);
+                    Send_err_msg_end(fd, err_others_nallowed_str);
+                    return;
+                }
                 user = SYSFCRONTAB;
+            }
             else {
 #endif
                 if ((pass = getpwuid((uid_t) cmd[1])) == NULL) {
@@ -574,8 +581,8 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                     return;
                 }
                 if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0) {
-                    warn_e("%s is not allowed to see %s's jobs. %ld",
-                           client->fcl_user, pass->pw_name);
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, pass->pw_name);
                     Send_err_msg_end(fd, err_others_nallowed_str);
                     return;
                 }
-- 
2.43.0


From d04d59810caf6952c76d3d0fc2729445d58b720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 69/94] fix: do not take what another client sent as the
 arguments of a command

---
 fcrondyn_svr.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 752ca8b..5c961cb 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -820,6 +820,7 @@ exe_cmd(struct fcrondyn_cl *client)
     long int *cmd;
     int fd;
     int is_root = 0;
+    int cmd_len = client->fcl_cmd_len / sizeof(long int);
 
     is_root = (strcmp(client->fcl_user, ROOTNAME) == 0) ? 1 : 0;
 
@@ -827,10 +828,40 @@ exe_cmd(struct fcrondyn_cl *client)
     cmd = client->fcl_cmd;
     fd = client->fcl_sock_fd;
 
+    if (cmd_len < 1) {
+        Send_err_msg_end(fd, err_cmd_unknown_str);
+        return;
+    }
+
     /* */
-    debug("exe_cmd [0,1,2] : %d %d %d", cmd[0], cmd[1], cmd[2]);
+    debug("exe_cmd [0] : %ld (%d words)", cmd[0], cmd_len);
     /* */
 
+    /* what follows the words which have been received is not part of the command */
+    switch (cmd[0]) {
+
+    case CMD_SEND_SIGNAL:
+    case CMD_RENICE:
+        if (cmd_len < 3) {
+            Send_err_msg_end(fd, err_invalid_args_str);
+            return;
+        }
+        break;
+
+    case CMD_DETAILS:
+    case CMD_LIST_JOBS:
+    case CMD_LIST_LAVGQ:
+    case CMD_LIST_SERIALQ:
+    case CMD_LIST_EXEQ:
+    case CMD_RUN:
+    case CMD_RUNNOW:
+        if (cmd_len < 2) {
+            Send_err_msg_end(fd, err_invalid_args_str);
+            return;
+        }
+        break;
+    }
+
     switch (cmd[0]) {
 
     case CMD_SEND_SIGNAL:
-- 
2.43.0


From 937a0d1cbb5e0a06a9c3a04ecf78d1193efd356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 70/94] fix: do not read past the end of an authentication
 message

---
 fcrondyn_svr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 5c961cb..75ade39 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -286,6 +286,18 @@ auth_client_password(struct fcrondyn_cl *client)
     char *pass_cry = NULL;
     char *pass_sys = NULL;
     char *pass_str = NULL;
+    char *end = NULL;
+
+    /* the message is made of the user name and the password, both terminated */
+    end = memchr(client->fcl_cmd, '\0', client->fcl_cmd_len);
+    if (end == NULL
+        || memchr(end + 1, '\0', ((char *)client->fcl_cmd)
+                  + client->fcl_cmd_len - (end + 1)) == NULL) {
+        error("Invalid authentication message from socket %d",
+              client->fcl_sock_fd);
+        send(client->fcl_sock_fd, "0", sizeof("0"), 0);
+        return;
+    }
 
 #ifdef HAVE_GETSPNAM
     struct spwd *pass_sp = NULL;
-- 
2.43.0


From 2b0a569e19468d5303587b14662d367e30df855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 71/94] fix: refuse authentications until the waiting time has
 passed

---
 fcrondyn_svr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 75ade39..3ac6cce 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -330,7 +330,6 @@ auth_client_password(struct fcrondyn_cl *client)
     if (auth_fail >= MAX_AUTH_FAIL) {
         error("Too many authentication failures : try to connect later.");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-        auth_fail = auth_nofail_since = 0;
         return;
     }
 
-- 
2.43.0


From 11346a59ffdd82dbd703a9cbff58f171140fff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 72/94] fix: end the answer to kill and renice only once

---
 fcrondyn_svr.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 3ac6cce..b389894 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -687,7 +687,7 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
 
                 warn(err_str, client->fcl_user, cmd[1], cmd[2],
                      client->fcl_user);
-                Send_err_msg_end(fd, err_job_nfound_str);
+                Send_err_msg(fd, err_job_nfound_str);
             }
             else {
                 /* request is valid : do it */
@@ -730,7 +730,7 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
 void
 cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
            int is_root)
-/* change nice value of a running job */
+/* change nice value of a running job (the caller sends the end of the answer) */
 {
 
 #ifdef HAVE_SETPRIORITY
@@ -739,7 +739,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
         || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
         warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
@@ -747,7 +747,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
     if (setpriority(PRIO_PROCESS, e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not setpriority(PRIO_PROCESS, %d, %d)",
                 e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
@@ -758,7 +758,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #else                           /* HAVE_SETPRIORITY */
     warn("System has no setpriority() : cannot renice. pid: %d nice_value: %d user: %s.", e->e_job_pid, (int)cmd[1], client->fcl_user);
-    Send_err_msg_end(fd, err_cmd_unknown_str);
+    Send_err_msg(fd, err_cmd_unknown_str);
 
 #endif                          /* HAVE_SETPRIORITY */
 }
@@ -766,19 +766,19 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 void
 cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
-/* send a signal to a running job */
+/* send a signal to a running job (the caller sends the end of the answer) */
 {
     if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
         warn("send_signal: invalid args : pid: %d signal: %d user: %s",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
     /* ok, now kill() the job */
     if (kill(e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not kill(%d, %d)", e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
-- 
2.43.0


From 8f07ffd19f883dacbf68d9bacee57267b53ea01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 73/94] fix: do not run a runonce job again after a runnow

---
 fcrondyn_svr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index b389894..dcae24b 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -808,8 +808,13 @@ cmd_run(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                 else
                     run_normal_job(j->j_line, fd);
 
-                if (cmd[0] == CMD_RUNNOW)
-                    set_next_exe(j->j_line, FROM_CUR_NEXTEXE, fd);
+                if (cmd[0] == CMD_RUNNOW) {
+                    set_hasrun(j->j_line->cl_option);
+                    if (is_runonce(j->j_line->cl_option))
+                        job_queue_remove(j->j_line);
+                    else
+                        set_next_exe(j->j_line, FROM_CUR_NEXTEXE, fd);
+                }
 
                 Tell_no_more_data(fd);
 
-- 
2.43.0


From 6bb1094c3853c96478de93ffdd6d5202f053ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 74/94] fix: accept at most MAX_CONNECTION fcrondyn clients

---
 fcrondyn_svr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index dcae24b..63273b8 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -955,8 +955,14 @@ fcrondyn_socket_check(select_instance *si)
         }
         else {
             fcntl(fd, F_SETFD, 1);
+            if (fcrondyn_cl_num >= MAX_CONNECTION) {
+                warn("More than %d connections : new connection rejected.",
+                     MAX_CONNECTION);
+                shutdown(fd, SHUT_RDWR);
+                xclose_check(&fd, "client fd");
+            }
             /* set fd to O_NONBLOCK : we do not want fcron to be stopped on error, etc */
-            if (fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK) == -1) {
+            else if (fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK) == -1) {
                 error_e
                     ("Could not set fd attribute O_NONBLOCK : connection rejected.");
                 shutdown(fd, SHUT_RDWR);
-- 
2.43.0


From ebd78664d25d27005ad9702fcf0cde06a2c13316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 75/94] fix: do not test a descriptor of -1 when there is no
 listening socket

---
 fcrondyn_svr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 63273b8..fee7a8e 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -945,7 +945,7 @@ fcrondyn_socket_check(select_instance *si)
 
     debug("Checking socket ...");
 
-    if (FD_ISSET(listen_fd, &si->readfds)) {
+    if (listen_fd >= 0 && FD_ISSET(listen_fd, &si->readfds)) {
         debug("got new connection ...");
         fd = accept(listen_fd, (struct sockaddr *)&client_addr, &addr_len);
         if (fd == -1) {
@@ -1059,7 +1059,7 @@ fcrondyn_socket_close(select_instance *si)
 {
     struct fcrondyn_cl *client, *client_buf = NULL;
 
-    if (listen_fd) {
+    if (listen_fd >= 0) {
         shutdown(listen_fd, SHUT_RDWR);
         xclose_check(&listen_fd, "listening fd");
         unlink(fifofile);
-- 
2.43.0


From 9e55757cbb4c36bdd70f35ae08ad138fee94956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 76/94] fix: the copy of a list starts without an iteration

u_list_copy() kept cur_removed, so that the first iteration over the copy of a
list whose current entry had just been removed returned its first entry twice.
---
 u_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/u_list.c b/u_list.c
index 92a5e29..b8bd585 100644
--- a/u_list.c
+++ b/u_list.c
@@ -76,6 +76,7 @@ u_list_copy(u_list_t *list)
     memcpy(new_list, list, sizeof(struct u_list_t));
 
     new_list->cur_entry = NULL;
+    new_list->cur_removed = 0;
 
     new_list->entries_array = alloc_safe(list->array_size * list->entry_size,
                                          "u_list_t copy (array)");
-- 
2.43.0


From 8327b2f812377fdfc14ddf9a716780c0855a5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 77/94] fix: env_list_free_envp() frees each string of the
 environment

It freed the first string, then walked over the characters of that string and
freed addresses which had never been allocated.
---
 env_list.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/env_list.c b/env_list.c
index cc56a99..6938eff 100644
--- a/env_list.c
+++ b/env_list.c
@@ -200,10 +200,10 @@ env_list_export_envp(env_list_t *list)
 void
 env_list_free_envp(char **envp)
 {
-    char *p = NULL;
+    char **p = NULL;
 
-    for (p = envp[0]; p != NULL; p++) {
-        Free_safe(p);
+    for (p = envp; *p != NULL; p++) {
+        Free_safe(*p);
     }
     Free_safe(envp);
 
-- 
2.43.0


From 4c2457cdf42bdd47edf3f700b892d26fd1b440f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 78/94] fix: do not read past a variable which has no value

A variable without a value (set by a PAM module, or found in a damaged spool
file) made env_list_getenv() return a pointer to after the end of the string.
---
 env_list.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/env_list.c b/env_list.c
index 6938eff..020f517 100644
--- a/env_list.c
+++ b/env_list.c
@@ -132,7 +132,8 @@ env_list_getenv(env_list_t *list, char *name)
         if (strcmp_until(name, c->e_envvar, '=') == 0) {
             /* found the var: return the pointer to the value */
             env_list_end_iteration(list);
-            return (c->e_envvar + strlen(name) + 1);    /* +1 for '=' */
+            char *value = strchr(c->e_envvar, '=');
+            return (value != NULL) ? value + 1 : NULL;  /* +1 for '=' */
         }
     }
 
-- 
2.43.0


From e93500370dd64258120a0122b8aad261368587aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 79/94] fix: check the arguments of env_list_setenv() and
 env_list_putenv() before their use

---
 env_list.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/env_list.c b/env_list.c
index 020f517..3a60570 100644
--- a/env_list.c
+++ b/env_list.c
@@ -61,12 +61,14 @@ env_list_setenv(env_list_t *list, char *name, char *value, int overwrite)
 {
     env_t e = { NULL };
     env_t *c = NULL;
-    size_t len = strlen(name) + 1 + strlen(value) + 1;  /* 1 for '=', 1 for '\0' */
+    size_t len = 0;
 
     /* sanity check */
     if (name == NULL || name[0] == '\0')
         return NULL;
 
+    len = strlen(name) + 1 + strlen(value) + 1; /* 1 for '=', 1 for '\0' */
+
     /* check if a var 'name' already exists */
     for (c = env_list_first(list); c != NULL; c = env_list_next(list)) {
         if (strcmp_until(name, c->e_envvar, '=') == 0) {
@@ -93,12 +95,14 @@ env_list_putenv(env_list_t *list, char *envvar, int overwrite)
 {
     env_t e = { NULL };
     env_t *c = NULL;
-    size_t len = strlen(envvar) + 1;    /* +1 for the terminating '\0' */
+    size_t len = 0;
 
     /* sanity check */
     if (envvar == NULL || envvar[0] == '\0')
         return NULL;
 
+    len = strlen(envvar) + 1;   /* +1 for the terminating '\0' */
+
     /* check if a var 'name' already exists */
     for (c = env_list_first(list); c != NULL; c = env_list_next(list)) {
         if (strcmp_until(envvar, c->e_envvar, '=') == 0) {
-- 
2.43.0


From 0f25e561a8c173f5dca07254c247cd9fe05e03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 80/94] fix: remove_blanks() read, and could write, before a
 string made of blanks only

The search for the last character stops before the beginning of the string when
there is none but blanks ('\\n' is one of them, so that the case below it was
only reached then).
---
 subs.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/subs.c b/subs.c
index dc2dee4..1a2c67e 100644
--- a/subs.c
+++ b/subs.c
@@ -329,13 +329,9 @@ remove_blanks(char *str)
     }
     while (c >= str && isspace((int)*c));
 
-    /* if last char is a '\n', we remove it */
-    if (*c == '\n')
-        *c = '\0';
-    else
-        /* one character beyond where we stopped above is where the null
-         * goes. */
-        *++c = '\0';
+    /* one character beyond where we stopped above is where the null
+     * goes. */
+    *++c = '\0';
 
     /* return the new length */
     return (c - str);
-- 
2.43.0


From d5575b36ec0fa42dd33e1a3337c19dc8bbbedc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 81/94] fix: set a variable of fcron.conf only where its whole
 name is given

An abbreviated name set the first variable which began with it ("f" set
fcrontabs, "s" suspendfile), and a line without a name ("= value", or a blank line
of a file with CR LF line ends) set fcrontabs in spite of the message saying the
line was ignored.
---
 fcronconf.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/fcronconf.c b/fcronconf.c
index 346d36d..e39f957 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -30,6 +30,10 @@
 
 void init_conf(void);
 
+/* is the name at ptr1, namesize characters long, exactly NAME? */
+#define IS_VAR(NAME) \
+        (namesize == sizeof(NAME) - 1 && strncmp(ptr1, NAME, namesize) == 0)
+
 extern char debug_opt;
 extern uid_t rootuid;
 extern gid_t rootgid;
@@ -150,9 +154,11 @@ read_conf(void)
         remove_blanks(ptr1);    /* at the end of the line */
 
         /* get the name of the var */
-        if ((namesize = get_word(&ptr1)) == 0)
+        if ((namesize = get_word(&ptr1)) == 0) {
             /* name is zero-length */
             error("Zero-length var name at line %s : line ignored", buf);
+            continue;
+        }
 
         ptr2 = ptr1 + namesize;
 
@@ -165,34 +171,34 @@ read_conf(void)
             ptr2++;
 
         /* find which var the line refers to and update it */
-        if (strncmp(ptr1, "fcrontabs", namesize) == 0) {
+        if (IS_VAR("fcrontabs")) {
             Set(fcrontabs, ptr2);
         }
-        else if (strncmp(ptr1, "pidfile", namesize) == 0) {
+        else if (IS_VAR("pidfile")) {
             Set(pidfile, ptr2);
         }
-        else if (strncmp(ptr1, "suspendfile", namesize) == 0) {
+        else if (IS_VAR("suspendfile")) {
             Set(suspendfile, ptr2);
         }
-        else if (strncmp(ptr1, "fifofile", namesize) == 0) {
+        else if (IS_VAR("fifofile")) {
             Set(fifofile, ptr2);
         }
-        else if (strncmp(ptr1, "fcronallow", namesize) == 0) {
+        else if (IS_VAR("fcronallow")) {
             Set(fcronallow, ptr2);
         }
-        else if (strncmp(ptr1, "fcrondeny", namesize) == 0) {
+        else if (IS_VAR("fcrondeny")) {
             Set(fcrondeny, ptr2);
         }
-        else if (strncmp(ptr1, "shell", namesize) == 0) {
+        else if (IS_VAR("shell")) {
             Set(shell, ptr2);
         }
-        else if (strncmp(ptr1, "sendmail", namesize) == 0) {
+        else if (IS_VAR("sendmail")) {
             Set(sendmail, ptr2);
         }
-        else if (strncmp(ptr1, "editor", namesize) == 0) {
+        else if (IS_VAR("editor")) {
             Set(editor, ptr2);
         }
-        else if (strncmp(ptr1, "maildisplayname", namesize) == 0) {
+        else if (IS_VAR("maildisplayname")) {
             char *output = format_maildisplayname(ptr2);
             Set(maildisplayname, output ? output : "");
             Free_safe(output);
-- 
2.43.0


From 6e5591394f8fff5985ce78aae62f57bb6d783f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 82/94] fix: the end of a long line of fcron.conf was read as
 another line

Text far enough in a line, even of a comment, could set any variable.
---
 fcronconf.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fcronconf.c b/fcronconf.c
index e39f957..3bc0134 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -145,6 +145,18 @@ read_conf(void)
 
     while ((ptr1 = fgets(buf, sizeof(buf), f)) != NULL) {
 
+        if (strlen(buf) == sizeof(buf) - 1 && buf[sizeof(buf) - 2] != '\n') {
+            /* the end of the line must not be taken for a line of its own */
+            int c = getc(f);
+            if (c != EOF && c != '\n') {
+                error("Line too long (max %d characters), beginning with "
+                      "%.40s : line ignored", sizeof(buf) - 2, buf);
+                while (c != EOF && c != '\n')
+                    c = getc(f);
+                continue;
+            }
+        }
+
         Skip_blanks(ptr1);      /* at the beginning of the line */
 
         /* ignore comments and blank lines */
-- 
2.43.0


From c8f02129432734d77b7690db0c71a29299436fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 83/94] fix: long display names, and those with a backslash
 before a quote or at the end

A name of exactly the maximum length was not terminated, and a quote at that
place was escaped beyond the buffer. A backslash before a quote, or the last
character, made a quoted string which ended too early or not at all.
---
 mail.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mail.c b/mail.c
index 1d4e423..c5974ab 100644
--- a/mail.c
+++ b/mail.c
@@ -45,26 +45,34 @@ format_maildisplayname(char *displayname_conf)
         return strdup2("");
     }
 
-    output = (char *)alloc_safe(buf_len * sizeof(char), "output buffer");
+    /* +2: the last character may have been written with an escape although
+     * there is room for one only; +1 for the terminating '\0' */
+    output = (char *)alloc_safe((buf_len + 3) * sizeof(char), "output buffer");
 
     /* walk the conf_value and rebuild it in buf1 */
     for (ipos = displayname_conf; *ipos; ipos++) {
         c = *ipos;
         if (strchr(SPECIAL_MBOX_CHARS, c)) {
-            /* insert escape */
-            if (c == DQUOTE) {
+            if (c == BSLASH && *(ipos + 1) != '\0') {
+                /* already an escape: copy it with the char it applies to */
+                output[cwritten] = c;
+                cwritten++;
+                c = *(++ipos);
+            }
+            else if (c == DQUOTE || c == BSLASH) {
+                /* insert escape */
                 output[cwritten] = BSLASH;
                 cwritten++;
             }
             need_quotes = true;
         }
-        if (cwritten >= buf_len) {
+        output[cwritten] = c;
+        cwritten++;
+        if (cwritten > buf_len) {
             error("Formatted 'displayname' exceeds %u chars", buf_len);
             Free_safe(output);
             return NULL;
         }
-        output[cwritten] = c;
-        cwritten++;
     }
 
     if (need_quotes) {
-- 
2.43.0


From 3792886da2f3b9856f5fb347258cada0b316a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 84/94] fix: fcrondyn waited for ever, or broke a line in two,
 when an answer came in pieces

---
 fcrondyn.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index e4c712a..6697c5b 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -484,6 +484,8 @@ talk_fcron(char *cmd_str, int fd)
     int cmd_len = 0;
     char buf[LINE_LEN];
     ssize_t read_len = 0;
+    char last_char = '\n';      /* last character received, kept from one recv() to the next */
+    int num_zeros = 0;          /* number of '\0' received in a row, idem */
     char existing_connection = (fd < 0) ? 0 : 1;
     fd_set read_set;            /* needed to use select to check if some data is waiting */
     struct timeval tv;
@@ -601,25 +603,25 @@ talk_fcron(char *cmd_str, int fd)
             return ERR;
         }
         else {
-            /* ensure the string is terminated by a '\0' for when we'll printf() it */
-            buf[read_len] = '\0';
-
-            int printed_len = 0;
-            while (printed_len < read_len) {
-                int str_len = strlen(buf + printed_len);
-                printf("%s", buf + printed_len);
-                if (str_len > 0 && buf[printed_len + str_len - 1] != '\n') {
-                    printf("\n");
+            ssize_t i;
+
+            /* a string, or the end marker, may be received in several pieces */
+            for (i = 0; i < read_len; i++) {
+                if (buf[i] != '\0') {
+                    putchar(buf[i]);
+                    num_zeros = 0;
+                }
+                else {
+                    if (last_char != '\n' && last_char != '\0')
+                        putchar('\n');
+                    num_zeros++;
                 }
-                printed_len += str_len + 1;     /* +1 to account for the end-of-string '\0' marker */
+                last_char = buf[i];
             }
 
             /* check for the end of command output marker */
-            if (read_len >= sizeof(END_STR) &&
-                memcmp(&buf[read_len - sizeof(END_STR)], END_STR,
-                       sizeof(END_STR)) == 0) {
+            if (num_zeros >= sizeof(END_STR))
                 break;
-            }
         }
     }
     if (read_len < 0) {
-- 
2.43.0


From 25abd7462d8a88203f3d97bf0511f70cc1ba09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 85/94] fix: fcrondyn ended successfully although it could not
 read the answer

---
 fcrondyn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fcrondyn.c b/fcrondyn.c
index 6697c5b..9ddf3d8 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -626,6 +626,7 @@ talk_fcron(char *cmd_str, int fd)
     }
     if (read_len < 0) {
         error_e("error in recv()");
+        return ERR;
     }
 
     if (!existing_connection)
-- 
2.43.0


From e79fe17a0334a28e5dc42359cd1676b53f5fa409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 86/94] fix: fcrondyn took only the first part of a user name
 with a dot

---
 fcrondyn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fcrondyn.c b/fcrondyn.c
index 9ddf3d8..aab5620 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -267,6 +267,8 @@ parse_cmd(char *cmd_str, long int **cmd, int *cmd_len)
             switch (cmd_list[rank].cmd_opt[i]) {
 
             case USER:
+                /* a user name may contain characters which get_word() does not accept */
+                word_size = strcspn(cmd_str, " \t\n\v\f\r");
                 int_buf = (long int)*(cmd_str + word_size);
                 *(cmd_str + word_size) = '\0';
 #ifdef SYSFCRONTAB
-- 
2.43.0


From 912aeeb269d82ada4e52cc28912f42369e8ef3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:18 +0000
Subject: [PATCH 87/94] fix: fcronsighup took a failure to lock for another
 instance waiting, and did not tell the daemon

---
 fcronsighup.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/fcronsighup.c b/fcronsighup.c
index 003cd5f..75a6788 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -164,15 +164,21 @@ sig_daemon(void)
 
 #ifdef HAVE_FLOCK
         if (flock(fd, LOCK_EX | LOCK_NB) != 0) {
-            debug("fcrontab is already waiting for signalling the daemon :"
-                  " exiting.");
-            return;
+            if (errno == EWOULDBLOCK) {
+                debug("fcrontab is already waiting for signalling the daemon :"
+                      " exiting.");
+                return;
+            }
+            error_e("Could not lock %s", sigfile);
         }
 #else                           /* HAVE_FLOCK */
         if (lockf(fd, F_TLOCK, 0) != 0) {
-            debug("fcrontab is already waiting for signalling the daemon :"
-                  " exiting.");
-            return;
+            if (errno == EACCES || errno == EAGAIN) {
+                debug("fcrontab is already waiting for signalling the daemon :"
+                      " exiting.");
+                return;
+            }
+            error_e("Could not lock %s", sigfile);
         }
 #endif                          /* ! HAVE_FLOCK */
 
-- 
2.43.0


From 40710b27bcdf539304fa2ffb9b759cac2ce3bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:19 +0000
Subject: [PATCH 88/94] fix: two daemons could run when one was started while
 another was stopping

---
 fcron.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fcron.c b/fcron.c
index ee280b9..7da5983 100644
--- a/fcron.c
+++ b/fcron.c
@@ -257,7 +257,9 @@ get_lock()
     int otherpid = 0;
     FILE *daemon_lockfp = NULL;
     int fd;
+    struct stat locked_st, st;
 
+  retry:
     if (((fd = open(pidfile, O_RDWR | O_CREAT, 0644)) == -1)
         || ((daemon_lockfp = fdopen(fd, "r+"))) == NULL)
         die_e("can't open or create %s", pidfile);
@@ -276,6 +278,18 @@ get_lock()
                   " daemon's pid", pidfile);
     }
 
+    /* a daemon which was stopping may have removed the file after we opened it:
+     * then our lock would not prevent another daemon from being started */
+    if (fstat(fd, &locked_st) != 0)
+        die_e("can't stat %s", pidfile);
+    memset(&st, 0, sizeof(st));
+    if (stat(pidfile, &st) != 0 && errno != ENOENT)
+        die_e("can't stat %s", pidfile);
+    if (st.st_ino != locked_st.st_ino || st.st_dev != locked_st.st_dev) {
+        xfclose_check(&daemon_lockfp, pidfile);
+        goto retry;
+    }
+
     fcntl(fd, F_SETFD, 1);
 
     rewind(daemon_lockfp);
-- 
2.43.0


From 8913a97ed2c148e46e24de2fdd36c828b94e34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:19 +0000
Subject: [PATCH 89/94] fix: a failure to write the pid file was ignored

---
 fcron.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcron.c b/fcron.c
index 7da5983..0245012 100644
--- a/fcron.c
+++ b/fcron.c
@@ -293,8 +293,9 @@ get_lock()
     fcntl(fd, F_SETFD, 1);
 
     rewind(daemon_lockfp);
-    fprintf(daemon_lockfp, "%d\n", (int)daemon_pid);
-    fflush(daemon_lockfp);
+    if (fprintf(daemon_lockfp, "%d\n", (int)daemon_pid) < 0
+        || fflush(daemon_lockfp) != 0)
+        die_e("can't write our pid in %s", pidfile);
     if (ftruncate(fileno(daemon_lockfp), ftell(daemon_lockfp)) < 0)
         error_e
             ("Unable to ftruncate(fileno(daemon_lockfp), ftell(daemon_lockfp))");
-- 
2.43.0


From c9fea07945ce5ce9e819b8c5a4c21d1cb0d3d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:19 +0000
Subject: [PATCH 90/94] fix: fcrontab -e lost a change made within a second

The file was taken as unchanged unless its modification time became later,
which is not the case if the editor (e.g. a script using ed or sed) ended
within the second the temporary file was written, or if it set an earlier
modification time.
---
 fcrontab.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 70dec9d..fb66625 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -45,6 +45,8 @@
 #include "temp_file.h"
 #include "read_string.h"
 
+#include <utime.h>
+
 
 void info(void);
 void usage(void);
@@ -474,6 +476,7 @@ edit_file(const char *fcron_orig)
     int status;
     struct stat st;
     time_t mtime = 0;
+    struct utimbuf times;
     char *tmp_str = NULL;
     FILE *f = NULL, *fi = NULL;
     int file = -1, origfd = -1;
@@ -539,12 +542,21 @@ edit_file(const char *fcron_orig)
 
     do {
 
-        if (fstat(file, &st) == 0)
-            mtime = st.st_mtime;
+        if (fstat(file, &st) == 0) {
+            /* make the file look older, as otherwise we would not notice a
+             * change made within the second the file was written */
+            mtime = st.st_mtime - 1;
+            times.actime = mtime;
+            times.modtime = mtime;
+        }
         else {
             error_e("could not stat \"%s\"", tmp_str);
             goto exiterr;
         }
+        if (utime(tmp_str, &times) != 0) {
+            error_e("could not set the modification time of \"%s\"", tmp_str);
+            goto exiterr;
+        }
 
 #ifndef USE_SETE_ID
         /* chown the file (back if correction) to asuid/asgid so as user can edit it */
@@ -623,7 +635,7 @@ edit_file(const char *fcron_orig)
             goto exiterr;
         }
 
-        else if (st.st_mtime > mtime || correction == 1) {
+        else if (st.st_mtime != mtime || correction == 1) {
 
             correction = 0;
 
-- 
2.43.0


From cff439085017eab45b06d8cf5a4ca39249e46f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 91/94] fix: fcrontabs of users whose name has a dot were not
 loaded at startup

---
 conf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 467c1e0..7de588a 100644
--- a/conf.c
+++ b/conf.c
@@ -108,7 +108,9 @@ synchronize_dir(const char *dir_name, int is_system_startup)
                 list_cur->next = new_list;
                 new_list = list_cur;
             }
-            else if (strchr(den->d_name, '.') != NULL)
+            else if (strchr(den->d_name, '.') != NULL
+                     && getpwnam(den->d_name) == NULL)
+                /* user.orig, user.tmp, etc. But a user's name may have dots */
                 continue;
             else
                 /* this is a normal file : if file_base is not null,
@@ -231,7 +233,7 @@ synchronize_file(char *file_name, int is_system_startup)
     cf_t *cur_f = NULL;
     char *user = NULL;
 
-    if (strchr(file_name, '.') != NULL) {
+    if (strncmp(file_name, "load.", 5) == 0) {
         /* this is a new file : we have to check if there is an old
          * version in database in order to keep a maximum of fields
          * (cl_nextexe) to their current value */
-- 
2.43.0


From 716d1294c83da6d96d9869fa142091084c1f519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:10 +0000
Subject: [PATCH 92/94] fix: check_system_crontabs.sh missed changes, and
 altered jobs

It never made the first system fcrontab, did not see removed files, files
replaced by older ones nor changes made during a rebuild, installed part of
the files when interrupted, and replaced @daily etc. inside addresses.
---
 script/check_system_crontabs.sh | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/script/check_system_crontabs.sh b/script/check_system_crontabs.sh
index f49ca39..305eda9 100755
--- a/script/check_system_crontabs.sh
+++ b/script/check_system_crontabs.sh
@@ -90,7 +90,7 @@ cleanup() {
   # remove temporary file (if any)
   [ -e "$FCRONTAB_FILE_TMP" ] && rm -f "$FCRONTAB_FILE_TMP"
 }
-trap "eval cleanup" INT TERM HUP
+trap "cleanup; exit 1" INT TERM HUP
 
 FCRONTAB_FILE_TMP="`mktemp /tmp/fcrontab.XXXXXX 2>/dev/null`"
 if [ $? -ne 0 ]; then
@@ -205,11 +205,9 @@ if [ -z "$CROND_DIR" -o -z "$CRONTAB_FILE" -o -z "$FCRONTAB_FILE" ]; then
   die "Must specify all system crontab files."
 fi
 
-# Function to build up a system crontab and tell fcron it's changed
-rebuild_and_notify()
+# Function to build up a system crontab
+build()
 {
-  logger -i -p cron.notice -t "check_system_crontabs" "Rebuilding the system fcrontab..."
-
   # put a warning message at the top of the file
   cat <<_EOF_ > "$FCRONTAB_FILE_TMP"
 ########################################
@@ -262,7 +260,16 @@ _EOF_
   fi
 
   # Replace "@hourly" style Vixie cron extensions which fcron doesn't parse
-  sed -i -e "s/@yearly/0 0 1 1 */g" -e "s/@annually/0 0 1 1 */g" -e "s/@monthly/0 0 1 * */g" -e "s/@weekly/0 0 * * 0/g" -e "s/@daily/0 0 * * */g" -e "s/@midnight/0 0 * * */g" -e "s/@hourly/0 * * * */g" "$FCRONTAB_FILE_TMP"
+  # (only where a line starts with one: it may be part of a mail address elsewhere)
+  sed -i -e "s/^\([[:blank:]]*\)@yearly\>/\10 0 1 1 */" -e "s/^\([[:blank:]]*\)@annually\>/\10 0 1 1 */" -e "s/^\([[:blank:]]*\)@monthly\>/\10 0 1 * */" -e "s/^\([[:blank:]]*\)@weekly\>/\10 0 * * 0/" -e "s/^\([[:blank:]]*\)@daily\>/\10 0 * * */" -e "s/^\([[:blank:]]*\)@midnight\>/\10 0 * * */" -e "s/^\([[:blank:]]*\)@hourly\>/\10 * * * */" "$FCRONTAB_FILE_TMP"
+}
+
+# Function to build up a system crontab and tell fcron it's changed
+rebuild_and_notify()
+{
+  logger -i -p cron.notice -t "check_system_crontabs" "Rebuilding the system fcrontab..."
+
+  build
 
   # notify fcron about the updated file
   "$FCRONTAB_PROG" -c "$FCRON_CONFIG_FILE" "$FCRONTAB_FILE_TMP" -u systab
@@ -318,6 +325,20 @@ else
 
   fi
 
+  # The dates do not show everything: files may have been removed, replaced by older
+  # ones, or changed while the system fcrontab was last rebuilt (and it may not exist yet)
+  if [ $NEED_REBUILD -eq 0 ]; then
+
+    build
+    if ! cmp -s "$FCRONTAB_FILE_TMP" "$FCRONTABS_DIR"/systab.orig; then
+
+      info "Changes detected in the contents of the system crontabs."
+      NEED_REBUILD=1
+
+    fi
+
+  fi
+
 fi
 
 if [ $NEED_REBUILD -eq 1 ]; then
-- 
2.43.0


From 1e9f1ac04928f1bd3a9f11e1add09ddff5e7f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:54 +0000
Subject: [PATCH 93/94] fix: the suspend file was left open when it could not
 be removed

---
 suspend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 9c9834a..c33eb79 100644
--- a/suspend.c
+++ b/suspend.c
@@ -198,7 +198,7 @@ read_suspend_duration(time_t slept_from)
  unlink_cleanup_return:
     if (unlink(suspendfile) < 0) {
         warn_e("Could not remove suspend file '%s'", suspendfile);
-        return 0;
+        suspend_duration = 0;
     }
 
  cleanup_return:
-- 
2.43.0


From ae9310d64dea3f16bd03f0bc2532a49404daa47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:54 +0000
Subject: [PATCH 94/94] fix: a warning about the suspend file lacked its
 argument

---
 suspend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index c33eb79..a2492f3 100644
--- a/suspend.c
+++ b/suspend.c
@@ -174,7 +174,8 @@ read_suspend_duration(time_t slept_from)
         goto unlink_cleanup_return;
     }
     else if (suspend_duration < 0) {
-        warn("Read negative suspend_duration (%ld): ignoring.");
+        warn("Read negative suspend_duration (%ld): ignoring.",
+             suspend_duration);
         suspend_duration = 0;
         goto unlink_cleanup_return;
     }
-- 
2.43.0

