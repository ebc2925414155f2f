/* Preloaded: shifts the wall clock of a process by wmv_shift seconds. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile long shift;

void wmv_clock(long seconds) { shift = seconds; }

int clock_gettime(clockid_t id, struct timespec *t)
{
    static int (*real)(clockid_t, struct timespec *);
    if (!real)
        real = dlsym(RTLD_NEXT, "clock_gettime");
    int rc = real ? real(id, t) : (int) syscall(SYS_clock_gettime, id, t);
    if (rc == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE))
        t->tv_sec += shift;
    return rc;
}

int gettimeofday(struct timeval *restrict v, void *restrict z)
{
    struct timespec t;
    (void) z;
    if (clock_gettime(CLOCK_REALTIME, &t))
        return -1;
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *p)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p)
        *p = t.tv_sec;
    return t.tv_sec;
}
