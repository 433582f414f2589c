// Replay of the power-of-two helpers (public API only).
#include "common.hpp"
#include "cler_utils.hpp"
static bool p2(size_t x) { int n = 0; for (int i = 0; i < 64; ++i) n += (x >> i) & 1; return n == 1; }
static void one(size_t x) {
  REQUIRE(cler::is_power_of_2(x) == p2(x), "is_power_of_2(%zu) is %d", x, (int)cler::is_power_of_2(x));
  size_t f = cler::floor2p2(x);
  if (x == 0) REQUIRE(f == 0, "floor2p2(0) is %zu", f);
  else REQUIRE(p2(f) && f <= x && x - f < f, "floor2p2(%zu) is %zu", x, f);
  if (x <= (size_t(1) << 63)) {
    size_t c = cler::ceil2p2(x);
    REQUIRE(p2(c) && c >= x && (c == 1 || c / 2 < x), "ceil2p2(%zu) is %zu", x, c);
  }
}
int main(int argc, char **argv) {
  Rng r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  double secs = argc > 2 ? atof(argv[2]) : 3;
  watchdog(secs + 60);
  for (size_t x = 0; x < 100000; ++x) one(x);
  for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) for (int d = -2; d <= 2; ++d) { one((size_t(1) << i) + d); one((size_t(1) << i) + (size_t(1) << j) + d); }
  for (size_t d = 0; d < 1000; ++d) one(~size_t(0) - d);
  Clock c; do for (int i = 0; i < 10000; ++i) one(r.next() >> r.below(64)); while (c.s() < secs);
  puts("PASS");
}
