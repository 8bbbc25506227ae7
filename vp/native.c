/* Native driver: replays recorded inputs or searches for failing ones on the real code. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#define LOGMAX 4096
struct shared { int n; uint64_t v[LOGMAX]; char msg[512]; unsigned long iters, accepted; };
static struct shared *S;
static uint64_t rng, *replay; static int nreplay, pos, replaying;
static jmp_buf J;
void VP_ENTRY(void);
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull; }
static uint64_t rec(uint64_t v) { if (S->n < LOGMAX) S->v[S->n++] = v; return v; }
static const double DI[] = {0.0, -0.0, 1, -1, 2, 3, 0.5, 1e300, -1e300, 4294967296.0, 2147483648.0, -2147483649.0, 9007199254740993.0, 1e-310, 255, 256, 65536};
uint64_t vp_u64(void) {
    if (replaying) return rec(pos < nreplay ? replay[pos++] : 0);
    uint64_t r = rnd();
    switch (r % 6) {
        case 0: return rec(rnd() % 8);
        case 1: { double d = DI[rnd() % (sizeof DI / sizeof *DI)]; uint64_t u; memcpy(&u, &d, 8); return rec(u); }
        case 2: { double d = (double) (int64_t) (rnd() % 20) - 5; uint64_t u; memcpy(&u, &d, 8); return rec(u); }
        case 3: return rec(0x7ffc000000000001ull + rnd() % 4);
        case 4: return rec(rnd() & 0xffffffff);
        default: return rec(rnd());
    }
}
int64_t vp_range(int64_t lo, int64_t hi) {
    if (replaying) {
        int64_t v = (int64_t) (pos < nreplay ? replay[pos++] : (uint64_t) lo);
        if (v < lo || v > hi) longjmp(J, 1);
        return (int64_t) rec((uint64_t) v);
    }
    uint64_t w = (uint64_t) hi - (uint64_t) lo + 1, r = rnd();
    if (r % 16 == 0) return (int64_t) rec((uint64_t) lo);
    if (r % 16 == 1) return (int64_t) rec((uint64_t) hi);
    return (int64_t) rec((uint64_t) lo + (w ? rnd() % w : rnd()));
}
double vp_double(void) { uint64_t u = vp_u64(); double d; memcpy(&d, &u, 8); return d; }
void vp_assume_failed(void) { longjmp(J, 1); }
void vp_reached(const char *n) { (void) n; S->accepted++; }
void vp_assert_failed(const char *n) { snprintf(S->msg, sizeof S->msg, "contract clause violated: %s", n); _exit(42); }
static void loop(uint64_t seed, double secs, unsigned long maxit) {
    struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    for (unsigned long i = 0; i < maxit; i++) {
        rng = (seed + i) * 0x9E3779B97F4A7C15ull + 0x1234567; for (int k = 0; k < 3; k++) rnd();
        S->n = 0; S->iters++;
        struct itimerval tv = {{0, 0}, {5, 0}}; if (i % 64 == 0) setitimer(ITIMER_REAL, &tv, NULL);
        if (setjmp(J) == 0) VP_ENTRY();
        if (i % 64 == 63) { clock_gettime(CLOCK_MONOTONIC, &b); if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) / 1e9 > secs) break; }
    }
    _exit(0);
}
/* usage: prog search SEED SECS OUT | prog replay FILE */
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r"); if (!f) return 2;
        replay = malloc(sizeof(uint64_t) * LOGMAX); unsigned long long v; char line[512];
        while (fgets(line, sizeof line, f)) if (line[0] != '#' && sscanf(line, "%llu", &v) == 1 && nreplay < LOGMAX) replay[nreplay++] = v;
        fclose(f); replaying = 1;
        fflush(NULL); pid_t p = fork();
        if (p == 0) { alarm(20); if (setjmp(J) == 0) VP_ENTRY(); _exit(S->accepted ? 0 : 77); }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("replay: no violation\n"); return 0; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { printf("replay: inputs outside the precondition\n"); return 77; }
        if (WIFSIGNALED(st)) snprintf(S->msg, sizeof S->msg, "%s", WTERMSIG(st) == SIGALRM ? "does not terminate (20 s)" : strsignal(WTERMSIG(st)));
        if (!S->msg[0]) snprintf(S->msg, sizeof S->msg, "memory error or undefined behaviour reported by the sanitizer (exit %d)", WEXITSTATUS(st));
        printf("replay: FAILED %s\n", S->msg); return 1;
    }
    uint64_t seed = strtoull(argv[2], NULL, 10) * 1000003ull; double secs = atof(argv[3]);
    fflush(NULL); pid_t p = fork();
    if (p == 0) { if (argc > 5) { } loop(seed, secs, ~0ul); }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("search: %lu runs, %lu inside the precondition, no violation\n", S->iters, S->accepted); return 0; }
    if (WIFSIGNALED(st)) snprintf(S->msg, sizeof S->msg, "%s", WTERMSIG(st) == SIGALRM ? "does not terminate (5 s)" : strsignal(WTERMSIG(st)));
    if (!S->msg[0]) snprintf(S->msg, sizeof S->msg, "memory error or undefined behaviour reported by the sanitizer (exit %d)", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    FILE *f = fopen(argv[4], "w"); if (f) { fprintf(f, "# %s\n", S->msg); for (int i = 0; i < S->n; i++) fprintf(f, "%llu\n", (unsigned long long) S->v[i]); fclose(f); }
    printf("search: FAILED %s after %lu runs\n", S->msg, S->iters); return 1;
}
