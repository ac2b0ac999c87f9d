/* Replay runtime (native): feeds a counterexample's choices to the harness. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/resource.h>
typedef unsigned long u64;
static u64 *vals;
static size_t nvals, pos;
u64 vf_nd(void)
{
    if (pos < nvals)
	return vals[pos++];
    pos++;
    return 0;
}
static void fin(int code) { fflush(stdout); fflush(stderr); _exit(code); }
void vfrt_assume(int c, const char *what, const char *file, int line)
{
    if (!c) { printf("REPLAY-ASSUME %s:%d %s\n", file, line, what); fin(77); }
}
void vfrt_assert(int c, const char *msg, const char *file, int line)
{
    if (!c) { printf("REPLAY-VIOLATED %s:%d %s\n", file, line, msg); fin(42); }
}
void vfrt_stop(void) { printf("REPLAY-END\n"); fin(0); }
void vfrt_note(const char *m) { printf("REPLAY-REACHED %s\n", m); }
void vf_harness(void);
int main(int argc, char **argv)
{
    FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
    char line[256];
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    vals = malloc(sizeof(u64) * 1000000);
    if (f) {
	while (nvals < 1000000 && fgets(line, sizeof line, f))
	    if (line[0] != '#')
		vals[nvals++] = strtoul(line, NULL, 0);
	fclose(f);
    }
    alarm(20);
    vf_harness();
    printf("REPLAY-RETURNED\n");
    fin(0);
}
