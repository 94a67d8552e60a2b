// Preloaded: the wall clock stands at $MC_NOW seconds, or starts there and goes
// on by $MC_STEP seconds whenever it is read.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
int clock_gettime(clockid_t id, struct timespec* t) {
  static int (*real)(clockid_t, struct timespec*);
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  int r = real(id, t);
  const char* n = getenv("MC_NOW");
  if (n && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    static long reads;
    const char* step = getenv("MC_STEP");
    t->tv_sec = atoll(n) + (step ? atoll(step) * __atomic_fetch_add(&reads, 1, __ATOMIC_RELAXED) : 0);
  }
  return r;
}
time_t time(time_t* t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
int gettimeofday(struct timeval* t, void* z) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
