// A calendar that stands still: documents without a date get the present one.
#pragma once
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
extern "C" {
constexpr long STILL = 1700000000;
int clock_gettime(clockid_t id, struct timespec *t) noexcept {
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    t->tv_sec = STILL;
    t->tv_nsec = 0;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}
time_t time(time_t *t) noexcept {
  if (t != nullptr) *t = STILL;
  return STILL;
}
int gettimeofday(struct timeval *t, void * /*zone*/) noexcept {
  if (t != nullptr) *t = {STILL, 0};
  return 0;
}
}
