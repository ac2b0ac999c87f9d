/* The client: all of monitor.h's callbacks, defined by hooks that a harness
   may override.  Unset hooks do nothing, as in src/callback.c. */
#ifndef CB_H
#define CB_H
#include "monitor.h"
#undef MONITOR_IGNORE_NEW_THREAD
#define MONITOR_IGNORE_NEW_THREAD ((void *)&vf_minus1)

#ifndef CB_INIT_LIBRARY
#define CB_INIT_LIBRARY() do { } while (0)
#endif
#ifndef CB_FINI_LIBRARY
#define CB_FINI_LIBRARY() do { } while (0)
#endif
#ifndef CB_INIT_PROCESS
#define CB_INIT_PROCESS(argc, argv, data) return NULL
#endif
#ifndef CB_FINI_PROCESS
#define CB_FINI_PROCESS(how, data) do { } while (0)
#endif
#ifndef CB_START_MAIN_INIT
#define CB_START_MAIN_INIT() do { } while (0)
#endif
#ifndef CB_AT_MAIN
#define CB_AT_MAIN() do { } while (0)
#endif
#ifndef CB_BEGIN_PROCESS_EXIT
#define CB_BEGIN_PROCESS_EXIT(how) do { } while (0)
#endif
#ifndef CB_PRE_FORK
#define CB_PRE_FORK() return NULL
#endif
#ifndef CB_POST_FORK
#define CB_POST_FORK(pid, data) do { } while (0)
#endif
#ifndef CB_PRE_CREATE
#define CB_PRE_CREATE() return NULL
#endif
#ifndef CB_POST_CREATE
#define CB_POST_CREATE(data) do { } while (0)
#endif
#ifndef CB_THREAD_SUPPORT
#define CB_THREAD_SUPPORT() do { } while (0)
#endif
#ifndef CB_INIT_THREAD
#define CB_INIT_THREAD(tid, data) return NULL
#endif
#ifndef CB_FINI_THREAD
#define CB_FINI_THREAD(data) do { } while (0)
#endif
#ifndef CB_RESET_STACKSIZE
#define CB_RESET_STACKSIZE(old) return old
#endif
#ifndef CB_PRE_DLOPEN
#define CB_PRE_DLOPEN(path, flags) do { } while (0)
#endif
#ifndef CB_DLOPEN
#define CB_DLOPEN(path, flags, handle) do { } while (0)
#endif
#ifndef CB_DLCLOSE
#define CB_DLCLOSE(handle) do { } while (0)
#endif
#ifndef CB_POST_DLCLOSE
#define CB_POST_DLCLOSE(handle, ret) do { } while (0)
#endif
#ifndef CB_MPI_PRE_INIT
#define CB_MPI_PRE_INIT() do { } while (0)
#endif
#ifndef CB_INIT_MPI
#define CB_INIT_MPI(argc, argv) do { } while (0)
#endif
#ifndef CB_FINI_MPI
#define CB_FINI_MPI() do { } while (0)
#endif
#ifndef CB_MPI_POST_FINI
#define CB_MPI_POST_FINI() do { } while (0)
#endif
#ifndef CB_WRAP_MAIN
#define CB_WRAP_MAIN(argc, argv, envp) return 0
#endif

void monitor_init_library(void) { CB_INIT_LIBRARY(); }
void monitor_fini_library(void) { CB_FINI_LIBRARY(); }
void *monitor_init_process(int *argc, char **argv, void *data) { CB_INIT_PROCESS(argc, argv, data); }
void monitor_fini_process(int how, void *data) { CB_FINI_PROCESS(how, data); }
void monitor_start_main_init(void) { CB_START_MAIN_INIT(); }
void monitor_at_main(void) { CB_AT_MAIN(); }
void monitor_begin_process_exit(int how) { CB_BEGIN_PROCESS_EXIT(how); }
void *monitor_pre_fork(void) { CB_PRE_FORK(); }
void monitor_post_fork(pid_t pid, void *data) { CB_POST_FORK(pid, data); }
void *monitor_thread_pre_create(void) { CB_PRE_CREATE(); }
void monitor_thread_post_create(void *data) { CB_POST_CREATE(data); }
void monitor_init_thread_support(void) { CB_THREAD_SUPPORT(); }
void *monitor_init_thread(int tid, void *data) { CB_INIT_THREAD(tid, data); }
void monitor_fini_thread(void *data) { CB_FINI_THREAD(data); }
size_t monitor_reset_stacksize(size_t old) { CB_RESET_STACKSIZE(old); }
void monitor_pre_dlopen(const char *path, int flags) { CB_PRE_DLOPEN(path, flags); }
void monitor_dlopen(const char *path, int flags, void *handle) { CB_DLOPEN(path, flags, handle); }
void monitor_dlclose(void *handle) { CB_DLCLOSE(handle); }
void monitor_post_dlclose(void *handle, int ret) { CB_POST_DLCLOSE(handle, ret); }
void monitor_mpi_pre_init(void) { CB_MPI_PRE_INIT(); }
void monitor_init_mpi(int *argc, char ***argv) { CB_INIT_MPI(argc, argv); }
void monitor_fini_mpi(void) { CB_FINI_MPI(); }
void monitor_mpi_post_fini(void) { CB_MPI_POST_FINI(); }
int monitor_wrap_main(int argc, char **argv, char **envp) { CB_WRAP_MAIN(argc, argv, envp); }
#endif
