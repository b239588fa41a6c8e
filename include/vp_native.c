/* Native driver linked with a unit: replays recorded draws, or looks for
 * failing draws at random (one forked child per attempt). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>

#define MAXDRAWS 200000
static struct shared { long n, reached; unsigned long long d[MAXDRAWS]; } *sh;
static FILE *vp_f;
static long vp_n;
static int fuzzing;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static void record(unsigned long long v) { if (sh && sh->n < MAXDRAWS) sh->d[sh->n++] = v; }

static unsigned long long from_file(void) {
    unsigned long long v = 0;
    if (vp_f && fscanf(vp_f, "%llu", &v) != 1) v = 0;
    vp_n++;
    return v;
}
unsigned long long vp_next(void) {
    if (!fuzzing) return from_file();
    unsigned long long v = rnd() >> 3;
    switch (rnd() % 6) {
    case 0: v &= 3; break;
    case 1: v &= 0xff; break;
    case 2: v = ~(unsigned long long)(v & 7); break;
    case 3: v = 1ULL << (v & 63); break;
    }
    record(v);
    return v;
}
/* a value within [lo, hi] when searching; the recorded one when replaying */
long vp_pick(long lo, long hi) {
    if (!fuzzing) return (long)from_file();
    unsigned long span = (unsigned long)hi - (unsigned long)lo + 1, r = rnd() >> 1;
    long v;
    switch (span > 64 ? rnd() % 5 : 4) {
    case 0: v = lo + (long)(r % 4); break;
    case 1: v = hi - (long)(r % 4); break;
    case 2: v = lo + (long)(r % 64); break;
    case 3: v = lo + (long)(r % (1UL << (1 + rnd() % 62)) % (span ? span : ~0UL)); break;
    default: v = lo + (long)(span ? r % span : r);
    }
    record((unsigned long long)v);
    return v;
}
void vp_assume_failed(const char *what, int line) {
    if (!fuzzing)
        fprintf(stderr, "REPLAY stopped: requirement does not hold: %s (line %d, after %ld draws)\n", what, line, vp_n);
    _exit(77);
}
void vp_check_failed(const char *label, const char *what, int line) {
    fprintf(stderr, "REPLAY obligation violated: %s [%s] (line %d)\n", label, what, line);
    _exit(1);
}
void vp_reached(void) { if (sh) sh->reached++; }
void VP_ENTRY(void);
int main(int argc, char **argv) {
    if (argc > 4 && !strcmp(argv[1], "fuzz")) {      /* fuzz SEED SECONDS OUT */
        uint64_t seed = strtoull(argv[2], 0, 10);
        double secs = atof(argv[3]);
        long runs = 0, dropped = 0;
        struct timespec a, b;
        sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        clock_gettime(CLOCK_MONOTONIC, &a);
        for (;;) {
            clock_gettime(CLOCK_MONOTONIC, &b);
            if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) / 1e9 > secs) break;
            sh->n = 0;
            uint64_t s = (seed * 1000003ULL + runs + 1) * 0x9E3779B97F4A7C15ULL | 1;
            pid_t p = fork();
            if (p == 0) {
                fuzzing = 1; rs = s; rnd(); rnd();
                alarm(5);
                if (!freopen("/dev/null", "w", stdout)) _exit(77);
                VP_ENTRY();
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            runs++;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) dropped++;
            else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                FILE *f = fopen(argv[4], "w");
                for (long i = 0; i < sh->n; i++) fprintf(f, "%llu\n", sh->d[i]);
                fclose(f);
                printf("FUZZ found runs=%ld discarded=%ld reached=%ld\n", runs, dropped, sh->reached);
                return 1;
            }
        }
        printf("FUZZ clean runs=%ld discarded=%ld reached=%ld\n", runs, dropped, sh->reached);
        return 0;
    }
    vp_f = argc > 1 ? fopen(argv[1], "r") : NULL;
    VP_ENTRY();
    fprintf(stderr, "REPLAY finished: every obligation holds\n");
    return 0;
}
