/* Wall clocks of this process are off by a number of seconds (LD_PRELOAD). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static long off(void)
{
    static long v = -1;
    if (v < 0) {
        const char *o = getenv("VERIF_CLOCK_OFFSET"), *r = getenv("OMPI_COMM_WORLD_RANK");
        v = (o ? atol(o) : 0) * (r ? atol(r) : 1);
    }
    return v;
}

int clock_gettime(clockid_t id, struct timespec *t)
{
    static int (*real)(clockid_t, struct timespec *);
    int r;
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    r = real(id, t);
    if (!r && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE))
        t->tv_sec += off();
    return r;
}

time_t time(time_t *out)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out)
        *out = t.tv_sec;
    return t.tv_sec;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
