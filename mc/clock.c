/* Preloaded by checks with CLOCK = True: the process sets its own wall clock. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <sys/time.h>
#include <time.h>

static long long now_us = -1; /* microseconds since 1970, -1: the real clock */

void verif_set_clock(long long us) { now_us = us; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int (*real)(clockid_t, struct timespec *);
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    if (now_us < 0 || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE))
        return real(id, ts);
    ts->tv_sec = now_us / 1000000;
    ts->tv_nsec = now_us % 1000000 * 1000;
    return 0;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    (void)tz;
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *out)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
        *out = ts.tv_sec;
    return ts.tv_sec;
}
