/* shared by the replay harnesses: history log, random numbers, time limit */
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include "fsalloc.h"

void __sanitizer_set_death_callback(void (*)(void));
static char hist[1 << 16];
static size_t histn;
static uint64_t rs;
static double t_start, t_budget;

static void reset(void) { histn = 0; hist[0] = 0; }
static void note(const char *f, ...)
{
    va_list ap;
    if (histn > sizeof hist - 300)
        histn = 0;
    va_start(ap, f);
    histn += vsnprintf(hist + histn, 256, f, ap);
    if (histn > sizeof hist - 2)
        histn = sizeof hist - 2;
    va_end(ap);
}
static void show(void)
{
    printf("FAIL input/history: %s\n", hist);
    fflush(stdout);
}
static void fail_(const char *f, ...)
{
    va_list ap;
    printf("FAIL ");
    va_start(ap, f);
    vprintf(f, ap);
    va_end(ap);
    printf("\n");
    show();
    _exit(1);
}
#define FAIL(...) fail_(__VA_ARGS__)
#define CK(c, ...) do { if (!(c)) fail_(__VA_ARGS__); } while (0)
static void on_alarm(int s)
{
    printf("FAIL the call does not return (or the code aborts), signal %d\n", s);
    show();
    _exit(1);
}
static double now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}
static void begin(void)
{
    const char *s = getenv("VERIF_SEED"), *b = getenv("SEARCH_SECONDS");
    rs = 88172645463325252ULL + (s ? strtoull(s, 0, 10) : 1) * 2654435761ULL;
    t_budget = b ? atof(b) : 20;
    t_start = now();
    signal(SIGALRM, on_alarm);
    signal(SIGABRT, on_alarm);
    signal(SIGFPE, on_alarm);
    __sanitizer_set_death_callback(show);
}
static bool more(void) { alarm(30); return now() - t_start < t_budget; }
static uint64_t rnd(void)
{
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs * 2685821657736338717ULL >> 11;
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static void hex(const char *what, const void *p, size_t n)
{
    size_t i;
    note("%s[%zu]=", what, n);
    for (i = 0; i < n && i < 80; i++)
        note("%02x", ((const uint8_t *) p)[i]);
    note(" ");
}

/* block accounting below the configured reallocator */
static long blocks;
static void *counting_realloc(void *p, size_t n)
{
    if (n == 0) {
        if (p)
            blocks--;
        free(p);
        return NULL;
    }
    void *q = realloc(p, n);
    if (!q)
        abort();
    if (!p) {
        blocks++;
        memset(q, 0xa5, n);
    }
    return q;
}
