/* The real-time clock of a process, decided by the simulator (LD_PRELOAD). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int on = 0;
static long long script[4096];
static int count = 0;
static long long reads = 0;
static long long step = 0;

void simclock_set(const long long *values, int n, long long tick)
{
    count = n > 4096 ? 4096 : n;
    for (int i = 0; i < count; i++)
        script[i] = values[i];
    reads = 0;
    step = tick;
    on = count > 0;
}

long long simclock_reads(void) { return reads; }

/* the value of the i-th reading: the script, then ticking on from its end */
long long simclock_value(long long i)
{
    if (i < count)
        return script[i];
    return script[count - 1] + (i - count + 1) * step;
}

static long long now(void)
{
    return simclock_value(__atomic_fetch_add(&reads, 1, __ATOMIC_SEQ_CST));
}

static void split(long long ns, struct timespec *ts)
{
    long long s = ns / 1000000000, r = ns % 1000000000;
    if (r < 0) {
        r += 1000000000;
        s -= 1;
    }
    ts->tv_sec = s;
    ts->tv_nsec = r;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)) {
        split(now(), ts);
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void)tz;
    if (on)
        split(now(), &ts);
    else
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

int timespec_get(struct timespec *ts, int base)
{
    if (base != TIME_UTC)
        return 0;
    clock_gettime(CLOCK_REALTIME, ts);
    return base;
}

time_t time(time_t *out)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
        *out = ts.tv_sec;
    return ts.tv_sec;
}
