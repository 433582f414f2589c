// Shared pieces of the native replay drivers: they use only the public API of the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <signal.h>
#include <chrono>
static const char *g_what = "start";
static std::string g_hist;
[[maybe_unused]] static void on_alarm(int) {
  const char *m = "FAIL: call does not return (watchdog) during: ";
  (void)!write(1, m, strlen(m));
  (void)!write(1, g_what, strlen(g_what));
  (void)!write(1, "\n", 1);
  _exit(1);
}
[[maybe_unused]] static void watchdog(unsigned s) {
  signal(SIGALRM, on_alarm);
  alarm(s);
}
#define FAILF(...)                                                                                                      \
  do {                                                                                                                  \
    printf("FAIL: ");                                                                                                   \
    printf(__VA_ARGS__);                                                                                                \
    printf("\n  in: %s\n  history: %s\n", g_what, g_hist.size() > 3000 ? (g_hist.substr(0, 300) + " ... " + g_hist.substr(g_hist.size() - 2500)).c_str() : g_hist.c_str()); \
    fflush(stdout);                                                                                                     \
    _exit(1);                                                                                                           \
  } while (0)
#define REQUIRE(c, ...)                                                                                                 \
  do {                                                                                                                  \
    if (!(c)) FAILF(__VA_ARGS__);                                                                                       \
  } while (0)
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t next() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s * 0x2545F4914F6CDD1Dull;
  }
  uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
};
struct Clock {
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double s() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
