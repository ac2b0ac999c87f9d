From 63d999ac3c7fdfe3cb82c6587945de2833f7aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:59 +0000
Subject: [PATCH 01/15] fix: pass thread_pre_create's data to
 monitor_thread_post_create

The new thread may already have replaced tn_user_data by the result of
monitor_init_thread(), or may have finished and its node may have been
cleared or reused, so read the local copy instead.
---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 41a8a72..77a4a91 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1166,7 +1166,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     MONITOR_DEBUG("calling monitor_thread_post_create(start_routine = %p) ...\n",
 		  start_routine);
-    monitor_thread_post_create(tn->tn_user_data);
+    monitor_thread_post_create(user_data);
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-- 
2.43.0


From e8c098f0660b63fdf0bb4e707590cae4032c45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:44 +0000
Subject: [PATCH 02/15] fix: die of SIGSEGV, SIGBUS or SIGILL sent by a process

With the default action, the handler resets the action and returns so that
the faulting instruction is executed again.  When the signal was sent by
kill() or raise() there is no such instruction: the process survived, after
monitor_fini_process() had run.
---
 src/signal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index cfebacd..4a129c2 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -257,8 +257,11 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	sigemptyset(&action.sa_mask);
 	(*real_sigaction)(sig, &action, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
-	if (mse->mse_noraise) {
-	    /* For segv, etc, we just return. */
+	if (mse->mse_noraise && info != NULL && info->si_code > 0) {
+	    /*
+	     * For segv, etc, we just return, if it was raised by the
+	     * faulting instruction (not sent by kill, raise, etc).
+	     */
 	    return;
 	}
 	raise(sig);
-- 
2.43.0


From a72e7e3d460de633422eb13dcbad60bd81c0cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:16 +0000
Subject: [PATCH 03/15] fix: don't use a signal that can't be caught for thread
 shootdown

MONITOR_SHOOTDOWN_SIGNAL=32 (reserved by the thread library) was accepted,
because the choice is made before invalid signals are known; any threaded
program then died of 'sigaction failed' at exit.
---
 src/signal.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 4a129c2..78b14f2 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -442,6 +442,7 @@ static void
 monitor_choose_shootdown_early(void)
 {
     struct monitor_signal_entry *mse;
+    struct sigaction old_act;
     char *shootdown_str;
     int i, k, sig;
 
@@ -482,7 +483,8 @@ monitor_choose_shootdown_early(void)
 
     /*
      * Allow MONITOR_SHOOTDOWN_SIGNAL to set the shootdown signal.
-     * If set, this always has first priority.
+     * If set, this always has first priority.  But not if we can't
+     * catch it (eg, a signal reserved for the thread library).
      */
     shootdown_str = getenv("MONITOR_SHOOTDOWN_SIGNAL");
     if (shootdown_str != NULL) {
@@ -490,7 +492,8 @@ monitor_choose_shootdown_early(void)
 	    && sig > 0 && sig < MONITOR_NSIG
 	    && !monitor_signal_array[sig].mse_avoid
 	    && !monitor_signal_array[sig].mse_invalid
-	    && !monitor_signal_array[sig].mse_stop)
+	    && !monitor_signal_array[sig].mse_stop
+	    && (*real_sigaction)(sig, NULL, &old_act) == 0)
 	{
 	    shootdown_signal = sig;
 	    MONITOR_DEBUG("shootdown signal (environ) = %d\n", shootdown_signal);
@@ -505,7 +508,8 @@ monitor_choose_shootdown_early(void)
     if (sig > 0 && sig < MONITOR_NSIG
 	&& !monitor_signal_array[sig].mse_avoid
 	&& !monitor_signal_array[sig].mse_invalid
-	&& !monitor_signal_array[sig].mse_stop)
+	&& !monitor_signal_array[sig].mse_stop
+	&& (*real_sigaction)(sig, NULL, &old_act) == 0)
     {
 	shootdown_signal = sig;
 	MONITOR_DEBUG("shootdown signal (config) = %d\n", shootdown_signal);
-- 
2.43.0


From 5d9be6a50562f3dec1b8e2b1174dafe79d1d3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:47 +0000
Subject: [PATCH 04/15] fix: omit only LD_PRELOAD itself from a copied
 environment

---
 src/fork.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index a8a7260..f3ff0da 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -188,7 +188,7 @@ monitor_copy_environ(char *const oldenv[])
     /* Copy old environ and omit LD_PRELOAD. */
     n = 0;
     for (k = 0; oldenv[k] != NULL; k++) {
-	if (strstr(oldenv[k], "LD_PRELOAD") == NULL) {
+	if (strncmp(oldenv[k], "LD_PRELOAD=", 11) != 0) {
 	    newenv[n] = oldenv[k];
 	    n++;
 	}
-- 
2.43.0


From 2b6e844698dc7d80a82ab1c450162da6f63b1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:31 +0000
Subject: [PATCH 05/15] fix: execl with NULL as its first argument has an empty
 argument list

---
 src/fork.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index f3ff0da..308ea55 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -220,7 +220,8 @@ monitor_copy_va_args(char ***argv, char ***envp,
      */
     (*argv)[0] = (char *)first_arg;
     argc = 1;
-    do {
+    arg = (char *)first_arg;
+    while (arg != NULL) {
 	arg = va_arg(arglist, char *);
 	if (argc >= size) {
 	    size *= 2;
@@ -233,7 +234,7 @@ monitor_copy_va_args(char ***argv, char ***envp,
 	    *argv = new_argv;
 	}
 	(*argv)[argc++] = arg;
-    } while (arg != NULL);
+    }
 
     if (envp != NULL) {
 	*envp = va_arg(arglist, char **);
-- 
2.43.0


From 7440a8c72b65491934698b74b10f004f8f6e4029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:31 +0000
Subject: [PATCH 06/15] fix: keep the errno of a failed exec

---
 src/fork.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fork.c b/src/fork.c
index 308ea55..47a1f89 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -373,8 +373,10 @@ monitor_execv(const char *path, char *const argv[])
 
     /* We only get here if real_execv fails. */
     if (is_exec) {
+	int save_errno = errno;
 	MONITOR_WARN("unexpected execv failure on pid: %d\n",
 		     (int)getpid());
+	errno = save_errno;
     }
     return (ret);
 }
@@ -402,8 +404,10 @@ monitor_execvp(const char *file, char *const argv[])
 
     /* We only get here if real_execvp fails. */
     if (is_exec) {
+	int save_errno = errno;
 	MONITOR_WARN("unexpected execvp failure on pid: %d\n",
 		     (int)getpid());
+	errno = save_errno;
     }
     return (ret);
 }
@@ -431,8 +435,10 @@ monitor_execve(const char *path, char *const argv[], char *const envp[])
 
     /* We only get here if real_execve fails. */
     if (is_exec) {
+	int save_errno = errno;
 	MONITOR_WARN("unexpected execve failure on pid: %d\n",
 		     (int)getpid());
+	errno = save_errno;
     }
     return (ret);
 }
-- 
2.43.0


From edc657d50c093e4f4ea1b4c8503b4e5dcd93e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:31 +0000
Subject: [PATCH 07/15] fix: search PATH the way execvp does, unset, empty and
 long components included

---
 src/fork.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 47a1f89..8f561a9 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -252,11 +252,12 @@ monitor_copy_va_args(char ***argv, char ***envp,
  */
 #define COLON  ":"
 #define SLASH  '/'
+#define DEFAULT_PATH  "/bin:/usr/bin"
 static int
 monitor_is_executable(const char *file)
 {
     char buf[PATH_MAX], *path;
-    int  file_len, path_len;
+    int  file_len, path_len, dir_len;
 
     if (file == NULL) {
 	MONITOR_DEBUG1("attempt to exec NULL path\n");
@@ -269,23 +270,36 @@ monitor_is_executable(const char *file)
     if (strchr(file, SLASH) != NULL)
 	return (access(file, X_OK) == 0);
 
+    /*
+     * As execvp() does it: an empty name is never found, an empty
+     * component is the current directory, and a path that is too long
+     * is skipped.
+     */
     file_len = strlen(file);
+    if (file_len == 0)
+	return (0);
     path = getenv("PATH");
-    path += strspn(path, COLON);
-    while (*path != 0) {
+    if (path == NULL)
+	path = DEFAULT_PATH;
+    for (;;) {
 	path_len = strcspn(path, COLON);
 	if (path_len + file_len + 2 > PATH_MAX) {
 	    MONITOR_DEBUG("path length %d exceeds PATH_MAX %d\n",
 			  path_len + file_len + 2, PATH_MAX);
 	}
-	memcpy(buf, path, path_len);
-	buf[path_len] = SLASH;
-	memcpy(&buf[path_len + 1], file, file_len);
-	buf[path_len + 1 + file_len] = 0;
-	if (access(buf, X_OK) == 0)
-	    return (1);
+	else {
+	    memcpy(buf, path, path_len);
+	    dir_len = path_len;
+	    if (dir_len > 0)
+		buf[dir_len++] = SLASH;
+	    memcpy(&buf[dir_len], file, file_len + 1);
+	    if (access(buf, X_OK) == 0)
+		return (1);
+	}
 	path += path_len;
-	path += strspn(path, COLON);
+	if (*path == 0)
+	    break;
+	path++;
     }
 
     return (0);
-- 
2.43.0


From c961995d8b1c2b8f57cf4667c326be617620393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:46 +0000
Subject: [PATCH 08/15] fix: keep the errno of a failed fork in fork and system

---
 src/fork.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index 8f561a9..2e96c84 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -331,12 +331,14 @@ monitor_fork(void)
     ret = (*real_fork)();
     if (ret != 0) {
 	/* Parent process. */
+	int save_errno = errno;
 	if (ret < 0) {
 	    MONITOR_DEBUG("real fork failed (%d): %s\n",
 			  errno, strerror(errno));
 	}
 	MONITOR_DEBUG1("calling monitor_post_fork() ...\n");
 	monitor_post_fork(ret, user_data);
+	errno = save_errno;
     }
     else {
 	/* Child process. */
@@ -550,7 +552,7 @@ monitor_system(const char *command, int callback)
     char *arglist[4];
     char *who;
     pid_t pid;
-    int status;
+    int status, save_errno;
 
     monitor_fork_init();
     who = (callback ? "appl" : "client");
@@ -583,7 +585,9 @@ monitor_system(const char *command, int callback)
     pid = (*real_fork)();
     if (pid < 0) {
 	/* Fork failed. */
+	save_errno = errno;
 	MONITOR_DEBUG("(%s) real fork failed\n", who);
+	errno = save_errno;
 	status = -1;
     }
     else if (pid == 0) {
@@ -610,6 +614,7 @@ monitor_system(const char *command, int callback)
 	    }
 	}
     }
+    save_errno = errno;
     (*real_sigaction)(SIGINT, &old_int, NULL);
     (*real_sigaction)(SIGQUIT, &old_quit, NULL);
     (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
@@ -620,6 +625,7 @@ monitor_system(const char *command, int callback)
     }
 
     MONITOR_DEBUG("(%s) status = %d\n", who, status);
+    errno = save_errno;
     return (status);
 }
 
-- 
2.43.0


From c2a8cbfb8ea5909f39fcd070aba2c24a0be42eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 09/15] fix: a process forked during exit or by a thread starts
 over

The child of a fork kept the parent's exit state: its own exit then ran
no fini_process (fork from an exit handler), waited forever or for the
parent's threads, and new threads were not started.  A child forked by
a thread also gave fini_thread after fini_process on pthread_exit().
---
 src/main.c    |  5 +++++
 src/pthread.c | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/main.c b/src/main.c
index 34f6708..59f6cb5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -267,6 +267,11 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
 	 */
 	monitor_reset_thread_list(&monitor_main_tn);
 	monitor_main_tn.tn_user_data = user_data;
+
+	/* The parent may have been at process exit, the child is not.
+	 */
+	monitor_main_tn.tn_exit_win = 0;
+	monitor_end_process_cookie = 0;
     }
     else if (val) {
 	/* If already called, then skip the init process callback.
diff --git a/src/pthread.c b/src/pthread.c
index 77a4a91..2687012 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -343,7 +343,21 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
 	main_tn->tn_user_data = tn->tn_user_data;
 	main_tn->tn_stack_bottom = tn->tn_stack_bottom;
 	main_tn->tn_is_main = 1;
+	/*
+	 * The old node is off the list, so its cleanup handler should
+	 * not deliver fini-thread or unlink it.
+	 */
+	tn->tn_appl_started = 0;
     }
+    /*
+     * The parent may have been at process exit, and some other thread
+     * may have held the lock, but the child starts over.
+     */
+    main_tn->tn_fini_started = 0;
+    main_tn->tn_fini_done = 0;
+    monitor_in_exit_cleanup = 0;
+    monitor_fini_thread_done = 0;
+    MONITOR_THREAD_UNLOCK;
     /*
      * Free the thread list and the pthread key.  Technically, this
      * could leak memory, but only if the process spawns more than 150
-- 
2.43.0


From fcc7c7c93f5fb482b0820c6c580a9d67c237a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:55 +0000
Subject: [PATCH 10/15] fix: end the thread info's lifetime on every return of
 pthread_create

After creating an ignored thread, and after a pthread_create() from
inside a callback of another one, monitor_get_new_thread_info() gave a
stack address that was gone, or nothing where it should.
---
 src/pthread.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 2687012..5702326 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1073,7 +1073,7 @@ int
 MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 {
     struct monitor_thread_node *tn, *my_tn;
-    struct monitor_thread_info mti;
+    struct monitor_thread_info mti, *old_mti = NULL;
     pthread_attr_t default_attr;
     int ret, restore, destroy;
     size_t old_size;
@@ -1102,6 +1102,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     my_tn = monitor_get_tn();
     if (my_tn != NULL) {
+	old_mti = my_tn->tn_thread_info;
 	my_tn->tn_thread_info = &mti;
     }
 
@@ -1118,7 +1119,11 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (my_tn == NULL || my_tn->tn_ignore_threads) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
-	return (*real_pthread_create)(thread, attr, start_routine, arg);
+	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
+	if (my_tn != NULL) {
+	    my_tn->tn_thread_info = old_mti;
+	}
+	return (ret);
     }
 
     /*
@@ -1145,7 +1150,9 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (user_data == MONITOR_IGNORE_NEW_THREAD) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
-	return (*real_pthread_create)(thread, attr, start_routine, arg);
+	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
+	my_tn->tn_thread_info = old_mti;
+	return (ret);
     }
 
     tn = monitor_make_thread_node();
@@ -1184,7 +1191,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-        my_tn->tn_thread_info = NULL;
+        my_tn->tn_thread_info = old_mti;
     }
 
     return (ret);
-- 
2.43.0


From 496d35d9a1be938d16912e4970f8a235a7324186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:15 +0000
Subject: [PATCH 11/15] fix: broadcast a signal to the main thread only once

When a side thread ends the process, main is put on the thread list, and
monitor_broadcast_signal() signalled it twice.
---
 src/pthread.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 5702326..34dc4e6 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -792,7 +792,8 @@ monitor_broadcast_signal(int sig)
 	 tn != NULL;
 	 tn = LIST_NEXT(tn, tn_links)) {
 
-	if (!PTHREAD_EQUAL(self, tn->tn_self) &&
+	/* At process exit, main is also on the list. */
+	if (!tn->tn_is_main && !PTHREAD_EQUAL(self, tn->tn_self) &&
 	    tn->tn_appl_started && !tn->tn_fini_started) {
 	    (*real_pthread_kill)(tn->tn_self, sig);
 	}
-- 
2.43.0


From dd9a230d420b402b3f8df0fe84c840b1737d75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:25 +0000
Subject: [PATCH 12/15] fix: run monitor_fini_library only once when threads
 race to exit

---
 src/main.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 59f6cb5..a550f09 100644
--- a/src/main.c
+++ b/src/main.c
@@ -143,7 +143,7 @@ static char **monitor_argv = NULL;
 static char **monitor_envp = NULL;
 
 volatile static char monitor_init_library_called = 0;
-volatile static char monitor_fini_library_called = 0;
+volatile static long monitor_fini_library_called = 0;
 volatile static char monitor_fini_process_done = 0;
 volatile static long monitor_end_process_cookie = 0;
 
@@ -240,12 +240,12 @@ monitor_begin_library_fcn(void)
 void
 monitor_end_library_fcn(void)
 {
-    if (monitor_fini_library_called)
+    /* Set this first, another thread may also be exiting. */
+    if (compare_and_swap(&monitor_fini_library_called, 0, 1) != 0)
 	return;
 
     MONITOR_DEBUG1("calling monitor_fini_library() ...\n");
     monitor_fini_library();
-    monitor_fini_library_called = 1;
 }
 
 /*
-- 
2.43.0


From d0883fca987b4f2777255a4682a5d00d9bb85796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:15 +0000
Subject: [PATCH 13/15] fix: a thread that loses the race to exit inside a
 signal handler still gets its fini_thread

---
 src/main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main.c b/src/main.c
index a550f09..b23d86b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -306,6 +306,9 @@ void
 monitor_end_process_fcn(int how)
 {
     struct monitor_thread_node *tn = monitor_get_tn();
+#ifdef MONITOR_USE_SIGNALS
+    sigset_t set;
+#endif
     long prev;
 
     prev = compare_and_swap(&monitor_end_process_cookie, 0, 1);
@@ -338,6 +341,15 @@ monitor_end_process_fcn(int how)
 	 * finished.
 	 */
 	MONITOR_DEBUG("delay second thread trying to exit (how = %d)\n", how);
+#ifdef MONITOR_USE_SIGNALS
+	/*
+	 * We may be inside a signal handler with the shootdown signal
+	 * blocked, but the winner waits for our fini-thread.
+	 */
+	sigemptyset(&set);
+	sigaddset(&set, monitor_shootdown_signal());
+	(*real_sigprocmask)(SIG_UNBLOCK, &set, NULL);
+#endif
 	while (! monitor_fini_process_done) {
 	    usleep(MONITOR_POLL_USLEEP_TIME);
 	}
-- 
2.43.0


From c54bb1fe50be41dc130680964b9cd54847a2858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:04 +0000
Subject: [PATCH 14/15] fix: run fini_thread once when the shootdown signal
 interrupts thread end

The shootdown handler could run between the test and the set of
tn_fini_started in the thread cleanup routine (or the sigwait path), and
fini_thread was then delivered twice.  Claim it with compare and swap.
---
 src/pthread.c   | 16 ++++++++++------
 src/pthread_h.h |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 34dc4e6..183c314 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -940,7 +940,10 @@ monitor_pthread_cleanup_routine(void *arg)
 	return;
     }
 
-    tn->tn_fini_started = 1;
+    if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
+	/* the shootdown signal got in after the above test. */
+	return;
+    }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
     monitor_fini_thread(tn->tn_user_data);
@@ -1284,11 +1287,12 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
 	&& !tn->tn_block_shootdown)
     {
 	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-	tn->tn_fini_started = 1;
-	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		      tn->tn_user_data, tn->tn_tid);
-	monitor_fini_thread(tn->tn_user_data);
-	tn->tn_fini_done = 1;
+	if (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0) {
+	    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+			  tn->tn_user_data, tn->tn_tid);
+	    monitor_fini_thread(tn->tn_user_data);
+	    tn->tn_fini_done = 1;
+	}
 	(*real_pthread_setcancelstate)(old_state, NULL);
 
 	return 1;
diff --git a/src/pthread_h.h b/src/pthread_h.h
index c749593..58e4016 100644
--- a/src/pthread_h.h
+++ b/src/pthread_h.h
@@ -66,7 +66,7 @@ struct monitor_thread_node {
     char   tn_is_main;
     char   tn_ignore_threads;
     volatile char  tn_appl_started;
-    volatile char  tn_fini_started;
+    volatile long  tn_fini_started;
     volatile char  tn_fini_done;
     volatile char  tn_exit_win;
     volatile char  tn_block_shootdown;
-- 
2.43.0


From a71f425fd6cf0e49c04f6a56dcb6d26d572140fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:09 +0000
Subject: [PATCH 15/15] fix: no dlopen callbacks for libmonitor's own symbol
 lookups

The fallback search of monitor_dlsym() went through libmonitor's own
dlopen and dlclose overrides, so the client got callbacks for calls the
application never made.  Use the real functions.
---
 src/common.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 43f2ace..e2c01b2 100644
--- a/src/common.c
+++ b/src/common.c
@@ -43,8 +43,13 @@
 #include <link.h>
 #include <stdbool.h>
 
+typedef void *dlopen_fcn_t(const char *, int);
+typedef int dlclose_fcn_t(void *);
+
 struct callback_data {
     const char* symbol;
+    dlopen_fcn_t *real_dlopen;
+    dlclose_fcn_t *real_dlclose;
     bool skip;
     void *skip_until_base;
     void *result;
@@ -62,7 +67,7 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     }
 
     // Call dlopen to stabilize a handle for our use
-    void *this = dlopen(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
+    void *this = (*data->real_dlopen)(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
     if (this == NULL) {
         MONITOR_DEBUG("dlopen failed on object: %s\n", info->dlpi_name);
         return 0;
@@ -71,7 +76,7 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     // Poke it and see if we can find the symbol we want. Stop if we found it,
     // otherwise continue the scan.
     data->result = dlsym(this, data->symbol);
-    dlclose(this);
+    (*data->real_dlclose)(this);
     return data->result == NULL ? 0 : 1;
 }
 
@@ -87,6 +92,9 @@ void *monitor_dlsym(const char *symbol) {
 
         struct callback_data cb_data = {
             .symbol = symbol,
+            // Not our own overrides, the client didn't ask for these.
+            .real_dlopen = dlsym(RTLD_NEXT, "dlopen"),
+            .real_dlclose = dlsym(RTLD_NEXT, "dlclose"),
             .skip = true,
             .skip_until_base = NULL,
             .result = NULL,
@@ -98,6 +106,9 @@ void *monitor_dlsym(const char *symbol) {
             // This should never happen, but if it does error
             MONITOR_ERROR1("dladdr1 failed to find libmonitor\n");
         }
+        if (cb_data.real_dlopen == NULL || cb_data.real_dlclose == NULL) {
+            MONITOR_ERROR("dlsym(%s) failed: %s\n", symbol, err_str);
+        }
         cb_data.skip_until_base = dli.dli_fbase;
 
         // Use dl_iterate_phdr to scan through all the objects
-- 
2.43.0

