// Delays threads at random, at their start and at their end, and counts them. Preloaded into the
// monitors so that other interleavings come up than on an idle machine.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <time.h>

static atomic_long started, finished;
static atomic_ulong state = 88172645463325252ul;

struct job {
    void *(*f)(void *);
    void *arg;
    long before, after;
};

static unsigned long next(void) {
    unsigned long x = atomic_fetch_add(&state, 0x9E3779B97F4A7C15ul);
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ul;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBul;
    return x ^ (x >> 31);
}
static void pause_us(long us) {
    if (us > 0) {
        struct timespec t = {0, us * 1000};
        nanosleep(&t, 0);
    }
}
static void *run(void *p) {
    struct job j = *(struct job *)p;
    free(p);
    pause_us(j.before);
    void *r = j.f(j.arg);
    pause_us(j.after);
    atomic_fetch_add(&finished, 1);
    return r;
}
// most threads run at once, a few are late
static long delay(void) {
    unsigned long x = next();
    switch (x % 8) {
    case 0: return 1 + (x >> 8) % 2000;
    case 1: case 2: return 1 + (x >> 8) % 100;
    default: return 0;
    }
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    struct job *j = malloc(sizeof *j);
    j->f = f;
    j->arg = arg;
    j->before = delay();
    j->after = delay() / 4;
    atomic_fetch_add(&started, 1);
    int r = real(t, a, run, j);
    if (r) {
        atomic_fetch_sub(&started, 1);
        free(j);
    }
    return r;
}
void sched_counts(long out[2]) {
    out[0] = atomic_load(&started);
    out[1] = atomic_load(&finished);
}
__attribute__((constructor)) static void seed(void) {
    const char *s = getenv("SCHED_SEED");
    if (s) state ^= (unsigned long)atol(s) * 0x2545F4914F6CDD1Dul;
}
