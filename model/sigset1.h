/* Linux has 64 signals; glibc's sigset_t has room for 1024.  The model keeps
   the one word the kernel uses. */
#ifndef ____sigset_t_defined
#define ____sigset_t_defined
#define _SIGSET_NWORDS 1
typedef struct { unsigned long int __val[1]; } __sigset_t;
#endif
