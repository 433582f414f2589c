// Native replay driver for concurrent use of one channel: one producer, one consumer, built with ThreadSanitizer.
// usage: queue_mt SEED SECONDS
#include "cler.hpp"
#include "common.hpp"
#include <thread>
#include <atomic>
#include <vector>
#include <memory>
static std::atomic<int> bad{0};
static char badmsg[256];
#define MT(c, ...)                                          \
  do {                                                      \
    if (!(c)) {                                             \
      if (!bad.exchange(1)) snprintf(badmsg, 256, __VA_ARGS__); \
      return;                                               \
    }                                                       \
  } while (0)
typedef uint32_t T;
template <class Q> void producer(Q &q, size_t cap, bool dbf, uint32_t total, uint64_t seed) {
  Rng rg(seed);
  uint32_t id = 0;
  std::vector<T> tmp(cap + 4);
  while (id < total && !bad.load(std::memory_order_relaxed)) {
    size_t left = total - id;
    switch (rg.below(7)) {
    case 0: { T v = id; if (q.try_push(v)) id++; break; }
    case 1: if (q.try_push(T(id))) id++; break;
    case 2: { T v = id; q.push(v); id++; break; }
    case 3: q.push(T(id)); id++; break;
    case 4: {
      size_t n = std::min(left, (size_t)rg.below(cap + 3));
      for (size_t i = 0; i < n; i++) tmp[i] = id + (T)i;
      id += (uint32_t)q.writeN(tmp.data(), n);
      break;
    }
    case 5: {
      T *a, *b; size_t x, y;
      size_t n = q.peek_write(a, x, b, y);
      MT(n <= cap, "peek_write reports %zu of %zu", n, cap);
      n = std::min(n, left);
      for (size_t i = 0; i < n; i++) (i < x ? a[i] : b[i - x]) = id + (T)i;
      q.commit_write(n);
      id += (uint32_t)n;
      break;
    }
    case 6:
      if (dbf) {
        auto [p, n] = q.write_dbf();
        MT(n <= cap, "write_dbf reports %zu of %zu", n, cap);
        n = std::min(n, left);
        for (size_t i = 0; i < n; i++) p[i] = id + (T)i;
        q.commit_write(n);
        id += (uint32_t)n;
      } else
        MT(q.size() <= cap && q.space() <= cap, "size/space out of range");
      break;
    }
  }
}
template <class Q> void consumer(Q &q, size_t cap, bool dbf, uint32_t total, uint64_t seed) {
  Rng rg(seed);
  uint32_t id = 0;
  std::vector<T> tmp(cap + 4);
  while (id < total && !bad.load(std::memory_order_relaxed)) {
    switch (rg.below(7)) {
    case 0: case 1: { T v; if (q.try_pop(v)) { MT(v == id, "try_pop got %u, expected %u", v, id); id++; } break; }
    case 2: { T v; q.pop(v); MT(v == id, "pop got %u, expected %u", v, id); id++; break; }
    case 3: {
      size_t n = rg.below(cap + 3), k = q.readN(tmp.data(), n);
      for (size_t i = 0; i < k; i++) { MT(tmp[i] == id, "readN got %u, expected %u", tmp[i], id); id++; }
      break;
    }
    case 4: {
      const T *a, *b; size_t x, y;
      size_t n = q.peek_read(a, x, b, y);
      MT(n <= cap, "peek_read reports %zu of %zu", n, cap);
      for (size_t i = 0; i < n; i++) { T v = i < x ? a[i] : b[i - x]; MT(v == id, "peek_read got %u, expected %u", v, id); id++; }
      q.commit_read(n);
      break;
    }
    case 5:
      if (dbf) {
        auto [p, n] = q.read_dbf();
        for (size_t i = 0; i < n; i++) { MT(p[i] == id, "read_dbf got %u, expected %u", p[i], id); id++; }
        q.commit_read(n);
        break;
      }
      // fall through
    case 6: {
      size_t n = q.size();
      MT(n <= cap, "size %zu of %zu", n, cap);
      break;
    }
    }
  }
}
template <size_t N> void round_(size_t capreq, uint64_t seed, uint32_t total) {
  std::unique_ptr<dro::SPSCQueue<T, N>> q(new dro::SPSCQueue<T, N>(N ? 0 : capreq));
  size_t cap = q->capacity();
  bool dbf = q->is_doubly_mapped();
  char w[96];
  snprintf(w, sizeof w, "capacity %zu %s seed %llu", cap, dbf ? "doubly-mapped" : "ordinary", (unsigned long long)seed);
  g_hist = w;
  std::thread a([&] { producer(*q, cap, dbf, total, seed); });
  std::thread b([&] { consumer(*q, cap, dbf, total, seed * 31 + 7); });
  a.join();
  b.join();
}
int main(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  double secs = argc > 2 ? atof(argv[2]) : 5;
  watchdog((unsigned)secs + 40);
  g_what = "concurrent producer/consumer run";
  Clock ck;
  uint64_t r = 0;
  // leave when a mismatch was seen, even if the other thread is stuck in a blocking call
  std::thread([&] {
    for (;;) {
      if (bad.load()) {
        printf("FAIL: %s\n  in: %s %s\n", badmsg, g_what, g_hist.c_str());
        fflush(stdout);
        _exit(1);
      }
      usleep(20000);
    }
  }).detach();
  do {
    round_<0>(1 + (r % 5), seed + r, 3000);
    round_<0>(16, seed + r, 5000);
    round_<3>(0, seed + r, 3000);
    round_<0>(1023, seed + r, 60000);
    r++;
  } while (ck.s() < secs);
  printf("PASS rounds=%llu\n", (unsigned long long)r);
  fflush(stdout);
  _exit(0);
}
