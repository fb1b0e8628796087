/* Preloaded into the recorder: decides when the threads the code under test
 * makes get to run.
 *
 *   SCHED_MODE=gate        none runs until one is waited for or 100 ms are over; then all at once
 *   SCHED_MODE=reverse:MS  the k-th of a batch runs MS milliseconds before the (k-1)-th
 *   SCHED_MODE=late:K:MS   the K-th of a batch runs MS milliseconds after the others
 *   SCHED_MODE=order:MS    the k-th of a batch runs MS milliseconds after the (k-1)-th
 *
 * A batch is the threads made since one was last waited for.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int mode, ms, which, made;     /* 0 none, 1 gate, 2 reverse, 3 late, 4 order */
static unsigned long batch;           /* grows when a batch is let go */

struct start { void *(*fn)(void *); void *arg; int k; unsigned long batch; };

__attribute__((constructor)) static void init(void)
{
    const char *e = getenv("SCHED_MODE");
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (!e) return;
    if (!strncmp(e, "gate", 4)) mode = 1;
    else if (sscanf(e, "reverse:%d", &ms) == 1) mode = 2;
    else if (sscanf(e, "late:%d:%d", &which, &ms) == 2) mode = 3;
    else if (sscanf(e, "order:%d", &ms) == 1) mode = 4;
}
static void nap(long n)
{
    struct timespec t = { n / 1000, (n % 1000) * 1000000 };
    if (n > 0) nanosleep(&t, NULL);
}
static void *run(void *p)
{
    struct start s = *(struct start *)p;
    free(p);
    if (mode == 1 || mode == 2) {
        struct timespec t;
        int rc = 0, n;
        clock_gettime(CLOCK_REALTIME, &t);
        t.tv_nsec += 100000000;
        if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
        pthread_mutex_lock(&mu);
        while (batch == s.batch && rc == 0) rc = pthread_cond_timedwait(&cv, &mu, &t);
        n = made;
        pthread_mutex_unlock(&mu);
        if (mode == 2 && rc == 0) nap((long)ms * (n > s.k ? n - s.k : 0));
    } else if (mode == 3) nap(s.k == which ? ms : 0);
    else if (mode == 4) nap((long)ms * s.k);
    return s.fn(s.arg);
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    struct start *s;
    if (!mode) return real_create(t, a, fn, arg);
    s = malloc(sizeof *s);
    pthread_mutex_lock(&mu);
    s->fn = fn; s->arg = arg; s->k = made++; s->batch = batch;
    pthread_mutex_unlock(&mu);
    return real_create(t, a, run, s);
}
int pthread_join(pthread_t t, void **r)
{
    if (mode) {
        pthread_mutex_lock(&mu);
        if (made) { batch++; if (mode != 2) made = 0; pthread_cond_broadcast(&cv); }
        pthread_mutex_unlock(&mu);
        if (mode == 2) {
            int rc = real_join(t, r);
            pthread_mutex_lock(&mu);
            made = 0;
            pthread_mutex_unlock(&mu);
            return rc;
        }
    }
    return real_join(t, r);
}
