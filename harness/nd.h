/* Nondeterministic inputs. Under CBMC every value is arbitrary (and assigned to
 * nd_in, so that a counterexample trace lists them in order); natively they are
 * read from the replay file named on the command line, in the same order. */
#ifndef ND_H
#define ND_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

#ifdef __CPROVER__
uint64_t nondet_u64(void);
uint64_t nd_in;
static uint64_t ND(void) { nd_in = nondet_u64(); return nd_in; }
#ifdef BOUNDED_INPUTS
#define H_FIXED 1
#else
#define H_FIXED 0
#endif
#define CK(tag, cond, name) do { if (TAGS & (tag)) { __CPROVER_assert((cond), "contract: " name); } } while (0)
#define REACH(name) do { if (!NOREACH) __CPROVER_assert(0, "reach: " name); } while (0)
#define NATIVE 0
/* A buffer of n (<= cap) bytes. Bounded search: an object of constant size (cheaper for the solver) with the
 * buffer at its start or at its end, so that leaving the buffer on either side leaves the object in one case. */
#ifdef BOUNDED_INPUTS
static uint8_t* nd_alloc(size_t cap, size_t n) { uint8_t* p = malloc(cap); return (ND() & 1) ? p + (cap - n) : p; }
#else
static uint8_t* nd_alloc(size_t cap, size_t n) { return malloc(n); }
#endif
#ifndef NOREACH
#define NOREACH 0
#endif
#else
#define NATIVE 1
#define H_FIXED 1
#ifndef BOUNDED_INPUTS
#define BOUNDED_INPUTS
#endif
static uint64_t nd_vals[1 << 16]; static unsigned nd_n, nd_total;
static uint64_t ND(void) { return nd_n < nd_total ? nd_vals[nd_n++] : 0; }
/* --fuzz: the values are drawn at random, one child process per case, until one fails (its values are printed) */
#include <unistd.h>
#include <string.h>
#include <time.h>
#include <sys/wait.h>
static uint64_t nd_rnd(uint64_t* s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s; }
static void nd_fuzz(void) {
    time_t end = time(NULL) + atoi(getenv("ND_SECONDS"));
    unsigned long ran = 0, skipped = 0;
    for (uint64_t seed = 1; time(NULL) < end && (ran || skipped < 1500); seed++) {
        uint64_t s = seed * 0x9E3779B97F4A7C15u + (uint64_t)atoll(getenv("ND_SEED"));
        unsigned style = (unsigned)(nd_rnd(&s) % 4);
        nd_total = 256;
        for (unsigned i = 0; i < nd_total; i++) {
            uint64_t k = nd_rnd(&s) % 16, v = nd_rnd(&s);
            nd_vals[i] = k < 5 ? v % 4 : k < 8 ? v % 28 : k < 10 ? (style == 1 ? (unsigned char)"0xX-+19aAfFgz"[v % 13] : style == 2 ? 0x10 + v % 0x2F : v % 256) : k < 12 ? (style == 2 ? 0x30 + v % 0x23 : style == 3 ? 0x10 + v % 12 : v % 256) :
                k == 12 ? v : k == 13 ? (uint64_t)1 << v % 64 : k == 14 ? ~(uint64_t)0 - v % 3 : (uint64_t)(double)(v % 1000) ;
            if (k == 15 && style == 0) { double d = ((double)(v % 2000) - 1000) / (1 + (double)(v >> 32 & 7)); memcpy(&nd_vals[i], &d, 8); }
        }
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) { alarm(5); freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); return; }
        int st = 0;
        if (p < 0 || waitpid(p, &st, 0) < 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { skipped++; continue; }
        ran++;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 98)) {
            printf("FUZZ failed\n");
            for (unsigned i = 0; i < nd_total; i++) printf("%llu\n", (unsigned long long)nd_vals[i]);
            exit(0);
        }
    }
    printf("FUZZ ran %lu skipped %lu\n", ran, skipped);
    exit(0);
}
static void nd_load(const char* path) {
    if (strcmp(path, "--fuzz") == 0) { nd_fuzz(); return; }
    FILE* f = fopen(path, "r"); char line[512];
    if (!f) { perror(path); exit(3); }
    while (fgets(line, sizeof line, f)) {
        unsigned long long v;
        if (line[0] != '#' && nd_total < (1 << 16) && sscanf(line, "%llu", &v) == 1) nd_vals[nd_total++] = v;
    }
    fclose(f);
}
static uint8_t* nd_alloc(size_t cap, size_t n) { ND(); return malloc(n ? n : 1); }
static int h_failed;
#define CK(tag, cond, name) do { if ((TAGS & (tag)) && !(cond)) { printf("FAILED contract: %s\n", name); fflush(stdout); h_failed = 1; exit(1); } } while (0)
#define REACH(name) ((void)0)
#endif
#endif
