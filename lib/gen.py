"""Generated pieces: the dlsym table."""
import prep

CORE = ("exit _exit _Exit __libc_start_main fork vfork system execv execvp execve pthread_create pthread_exit "
        "sigwait sigwaitinfo sigtimedwait signal sigaction sigprocmask pthread_sigmask dlopen dlclose").split()
LIBC = ("pthread_attr_init pthread_attr_destroy pthread_attr_getstacksize pthread_attr_setstacksize pthread_equal "
        "pthread_key_create pthread_key_delete pthread_kill pthread_self pthread_getspecific pthread_setspecific "
        "pthread_setcancelstate malloc raise kill access getenv usleep sleep gettimeofday waitpid").split()
MPI_LIBC = "MPI_Comm_size PMPI_Comm_size mpi_comm_size mpi_comm_size_ mpi_comm_size__ pmpi_comm_size pmpi_comm_size_ pmpi_comm_size__".split()


def h(s):
    x = 5381
    for c in s:
        x = (x * 33 + ord(c)) & 0xffffffff
    return x


def dlsym_tab():
    out, seen = [], {}
    def put(name, tgt):
        v = h(name)
        assert v not in seen, (name, seen[v])
        seen[v] = name
        out.append("case %uU: return (void *)%s; /* %s */" .replace("%u", str(v)) % (tgt, name))
    for n in CORE:
        put(n, "vfr_" + n)
    for n in LIBC:
        put(n, "vf_" + n)
    out.append("#ifdef VF_WITH_MPI")
    for n in prep.MPI_C + prep.MPI_F + prep.PMPI:
        put(n, "vfr_" + n)
    for n in MPI_LIBC:
        put(n, "vf_" + n)
    out.append("#endif")
    return "\n".join(out) + "\n"
