/* Simulated wall clock: interposes the libc real-time clock (LD_PRELOAD). Off until simclock_set() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <sys/time.h>
#include <time.h>

static volatile int enabled = 0;
static volatile int64_t now_ns = 0;
static volatile int64_t tick_ns = 0;
static volatile int64_t reads = 0;

void simclock_set(int64_t ns, int64_t tick) { now_ns = ns; tick_ns = tick; enabled = 1; }
void simclock_off(void) { enabled = 0; }
int64_t simclock_reads(void) { return reads; }
int64_t simclock_now(void) { return now_ns; }

static int64_t sim_read(void) { int64_t v = now_ns; now_ns += tick_ns; reads++; return v; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    static int (*real)(clockid_t, struct timespec *) = 0;
    if (enabled && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t v = sim_read();
        int64_t s = v / 1000000000, n = v % 1000000000;
        if (n < 0) { n += 1000000000; s--; }
        ts->tv_sec = s; ts->tv_nsec = n;
        return 0;
    }
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, ts);
}

int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    int rc = clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return rc;
}

time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
