// Native replay driver for the channel properties: random histories against a deque, public API only.
// usage: queue SEED SECONDS GROUP     GROUP: fifo cap batch views ctor
#include "cler.hpp"
#include "common.hpp"
#include <complex>
#include <deque>
#include <vector>
#include <memory>
struct P12 { uint32_t a, b, c; };
struct P3 { uint8_t a[3]; };
struct P20 { uint64_t a; uint32_t b; uint32_t c; uint32_t d; };
template <class T> T mk(uint32_t id) {
  T t;
  unsigned char b[sizeof(T)];
  for (size_t i = 0; i < sizeof(T); i++) b[i] = (unsigned char)((id >> (8 * (i % 4))) ^ (i / 4) * 37);
  memcpy((void *)&t, b, sizeof(T));
  return t;
}
template <> float mk<float>(uint32_t id) { return (float)(id & 0xffffff); }
template <> std::complex<float> mk<std::complex<float>>(uint32_t id) { return {(float)(id & 0xffffff), -(float)(id & 0xfffff)}; }
template <class T> bool same(const T &a, const T &b) { return !memcmp((const void *)&a, (const void *)&b, sizeof(T)); }
static bool G_fifo, G_cap, G_batch, G_views, G_ctor;

// type-erased view of a queue or channel, so that one history driver per element type is compiled
template <class T> struct IQ {
  virtual ~IQ() = default;
  virtual size_t size() = 0;
  virtual size_t space() = 0;
  virtual bool try_push(const T &v) = 0;
  virtual bool try_push(T &&v) = 0;
  virtual void push(const T &v) = 0;
  virtual void push(T &&v) = 0;
  virtual bool try_pop(T &v) = 0;
  virtual void pop(T &v) = 0;
  virtual size_t writeN(const T *p, size_t n) = 0;
  virtual size_t readN(T *p, size_t n) = 0;
  virtual size_t peek_write(T *&a, size_t &b, T *&c, size_t &d) = 0;
  virtual size_t peek_read(const T *&a, size_t &b, const T *&c, size_t &d) = 0;
  virtual void commit_read(size_t n) = 0;
  virtual void commit_write(size_t n) = 0;
  virtual std::pair<const T *, size_t> read_dbf() = 0;
  virtual std::pair<T *, size_t> write_dbf() = 0;
};
template <class T, class Q> struct AQ : IQ<T> {
  Q &q;
  explicit AQ(Q &x) : q(x) {}
  size_t size() override { return q.size(); }
  size_t space() override { return q.space(); }
  bool try_push(const T &v) override { return q.try_push(v); }
  bool try_push(T &&v) override { return q.try_push(std::move(v)); }
  void push(const T &v) override { q.push(v); }
  void push(T &&v) override { q.push(std::move(v)); }
  bool try_pop(T &v) override { return q.try_pop(v); }
  void pop(T &v) override { q.pop(v); }
  size_t writeN(const T *p, size_t n) override { return q.writeN(p, n); }
  size_t readN(T *p, size_t n) override { return q.readN(p, n); }
  size_t peek_write(T *&a, size_t &b, T *&c, size_t &d) override { return q.peek_write(a, b, c, d); }
  size_t peek_read(const T *&a, size_t &b, const T *&c, size_t &d) override { return q.peek_read(a, b, c, d); }
  void commit_read(size_t n) override { q.commit_read(n); }
  void commit_write(size_t n) override { q.commit_write(n); }
  std::pair<const T *, size_t> read_dbf() override { return q.read_dbf(); }
  std::pair<T *, size_t> write_dbf() override { return q.write_dbf(); }
};
template <class T> void history(IQ<T> &q, size_t C, bool dbf, Rng &rg, int steps) {
  std::deque<uint32_t> m;
  uint32_t id = 1;
  char tmp[96];
  size_t last_view = 0;
  g_hist.clear();
  snprintf(tmp, sizeof tmp, "[elem %zu bytes, capacity %zu, %s]", sizeof(T), C, dbf ? "doubly-mapped" : "ordinary");
  g_hist = tmp;
  auto occupancy = [&]() {
    size_t n = q.size(), sp = q.space();
    REQUIRE(n == m.size(), "size() is %zu, %zu elements are inside", n, m.size());
    REQUIRE(sp == C - m.size(), "space() is %zu, expected %zu", sp, C - m.size());
  };
  for (int s = 0; s < steps; s++) {
    int op = (int)rg.below(14);
    // bias towards filling or draining for long runs
    size_t big = rg.below(4) == 0 ? C + 3 : rg.below(3) == 0 ? rg.below(C + 2) : rg.below(6);
    snprintf(tmp, sizeof tmp, " %d:%zu", op, big);
    if (g_hist.size() < 20000) g_hist += tmp;
    switch (op) {
    case 0: {
      g_what = "try_push(const T&)";
      T v = mk<T>(id), c = v;
      bool ok = q.try_push(c);
      REQUIRE(ok == (m.size() < C), "try_push returned %d with %zu of %zu inside", ok, m.size(), C);
      if (ok) m.push_back(id++);
      REQUIRE(same(c, v), "try_push changed its argument");
      break;
    }
    case 1: {
      g_what = "try_push(T&&)";
      bool ok = q.try_push(mk<T>(id));
      REQUIRE(ok == (m.size() < C), "try_push returned %d with %zu of %zu inside", ok, m.size(), C);
      if (ok) m.push_back(id++);
      break;
    }
    case 2:
      g_what = "push(const T&)";
      if (m.size() < C) {
        T v = mk<T>(id);
        q.push(v);
        m.push_back(id++);
      }
      break;
    case 3:
      g_what = "push(T&&)";
      if (m.size() < C) {
        q.push(mk<T>(id));
        m.push_back(id++);
      }
      break;
    case 4: {
      g_what = "try_pop";
      T canary = mk<T>(0xdeadbeef), v = canary;
      bool ok = q.try_pop(v);
      REQUIRE(ok == !m.empty(), "try_pop returned %d with %zu inside", ok, m.size());
      if (ok) {
        REQUIRE(same(v, mk<T>(m.front())), "try_pop delivered the wrong element");
        m.pop_front();
      } else
        REQUIRE(same(v, canary), "failed try_pop changed its argument");
      break;
    }
    case 5:
      g_what = "pop";
      if (!m.empty()) {
        T v;
        q.pop(v);
        REQUIRE(same(v, mk<T>(m.front())), "pop delivered the wrong element");
        m.pop_front();
      }
      break;
    case 6: case 7: {
      g_what = "writeN";
      std::unique_ptr<T[]> src(new T[big ? big : 1]);
      for (size_t i = 0; i < big; i++) src[i] = mk<T>(id + (uint32_t)i);
      size_t want = std::min(big, C - m.size());
      size_t k = q.writeN(src.get(), big);
      REQUIRE(k == want, "writeN(%zu) returned %zu, expected %zu", big, k, want);
      for (size_t i = 0; i < big; i++) REQUIRE(same(src[i], mk<T>(id + (uint32_t)i)), "writeN changed its source");
      for (size_t i = 0; i < k; i++) m.push_back(id + (uint32_t)i);
      id += (uint32_t)k;
      break;
    }
    case 8: case 9: {
      g_what = "readN";
      std::unique_ptr<T[]> dst(new T[big ? big : 1]);
      for (size_t i = 0; i < big; i++) dst[i] = mk<T>(0xabad1dea);
      size_t want = std::min(big, m.size());
      size_t k = q.readN(dst.get(), big);
      REQUIRE(k == want, "readN(%zu) returned %zu, expected %zu", big, k, want);
      for (size_t i = 0; i < k; i++) {
        REQUIRE(same(dst[i], mk<T>(m.front())), "readN delivered the wrong element at %zu of %zu", i, k);
        m.pop_front();
      }
      for (size_t i = k; i < big; i++) REQUIRE(same(dst[i], mk<T>(0xabad1dea)), "readN wrote beyond the returned count");
      break;
    }
    case 10: {
      g_what = "peek_write";
      T *p1, *p2;
      size_t s1, s2;
      size_t tot = q.peek_write(p1, s1, p2, s2);
      REQUIRE(tot == C - m.size(), "peek_write reports %zu, expected %zu", tot, C - m.size());
      REQUIRE(s1 + s2 == tot, "peek_write parts %zu+%zu do not add up to %zu", s1, s2, tot);
      REQUIRE((s1 == 0 || p1) && (s2 == 0 || p2), "peek_write: a non-empty part is null");
      size_t k = rg.below(3) == 0 ? tot : rg.below(tot + 1);
      for (size_t i = 0; i < k; i++) (i < s1 ? p1[i] : p2[i - s1]) = mk<T>(id + (uint32_t)i);
      occupancy();
      q.commit_write(k);
      for (size_t i = 0; i < k; i++) m.push_back(id + (uint32_t)i);
      id += (uint32_t)k;
      break;
    }
    case 11: {
      g_what = "peek_read";
      const T *p1, *p2;
      size_t s1, s2;
      size_t tot = q.peek_read(p1, s1, p2, s2);
      REQUIRE(tot == m.size(), "peek_read reports %zu, expected %zu", tot, m.size());
      REQUIRE(s1 + s2 == tot, "peek_read parts %zu+%zu do not add up to %zu", s1, s2, tot);
      REQUIRE((s1 == 0 || p1) && (s2 == 0 || p2), "peek_read: a non-empty part is null");
      for (size_t i = 0; i < tot; i++)
        REQUIRE(same(i < s1 ? p1[i] : p2[i - s1], mk<T>(m[i])), "peek_read shows the wrong element at %zu", i);
      occupancy();
      size_t k = rg.below(3) == 0 ? tot : rg.below(tot + 1);
      q.commit_read(k);
      for (size_t i = 0; i < k; i++) m.pop_front();
      break;
    }
    case 12: {
      g_what = "write_dbf / size-guided commit_write";
      if (dbf) {
        auto [p, n] = q.write_dbf();
        REQUIRE(n == C - m.size(), "write_dbf reports %zu, expected %zu", n, C - m.size());
        REQUIRE(n == 0 || p != nullptr, "write_dbf null");
        size_t k = rg.below(3) == 0 ? n : rg.below(n + 1);
        for (size_t i = 0; i < k; i++) p[i] = mk<T>(id + (uint32_t)i);
        q.commit_write(k);
        for (size_t i = 0; i < k; i++) m.push_back(id + (uint32_t)i);
        id += (uint32_t)k;
      }
      break;
    }
    case 13:
      if (dbf && rg.below(2)) {
        g_what = "read_dbf";
        auto [p, n] = q.read_dbf();
        REQUIRE(n == m.size(), "read_dbf reports %zu, expected %zu", n, m.size());
        REQUIRE(n == 0 || p != nullptr, "read_dbf null");
        for (size_t i = 0; i < n; i++) REQUIRE(same(p[i], mk<T>(m[i])), "read_dbf shows the wrong element at %zu of %zu", i, n);
        size_t k = rg.below(3) == 0 ? n : rg.below(n + 1);
        q.commit_read(k);
        for (size_t i = 0; i < k; i++) m.pop_front();
      } else {
        g_what = "commit_read(size()) without a view";
        size_t k = q.size();
        REQUIRE(k == m.size(), "size() is %zu, expected %zu", k, m.size());
        k = rg.below(2) ? k : rg.below(k + 1);
        q.commit_read(k);
        for (size_t i = 0; i < k; i++) m.pop_front();
      }
      break;
    }
    (void)last_view;
    occupancy();
  }
  g_what = "final drain";
  T v;
  while (q.try_pop(v)) {
    REQUIRE(!m.empty(), "an element was invented");
    REQUIRE(same(v, mk<T>(m.front())), "wrong element while draining");
    m.pop_front();
  }
  REQUIRE(m.empty(), "%zu elements were lost", m.size());
}
// only SPSCQueue has empty/capacity
template <class T, size_t N> void one(size_t cap, Rng &rg, int steps) {
  {
    dro::SPSCQueue<T, N> q(cap);
    size_t C = q.capacity();
    bool dbf = q.is_doubly_mapped();
    g_what = "construction";
    REQUIRE(C >= (N ? N : cap) && (dbf || C == (N ? N : cap)), "constructed for %zu, capacity is %zu", N ? N : cap, C);
    REQUIRE(q.size() == 0 && q.empty() && q.space() == C, "a new queue is not empty");
    AQ<T, dro::SPSCQueue<T, N>> a(q);
    history<T>(a, C, dbf, rg, steps);
    REQUIRE(q.capacity() == C, "capacity changed");
  }
  {
    cler::Channel<T, N> *c;
    if constexpr (N == 0) c = new cler::Channel<T, N>(cap);
    else c = new cler::Channel<T, N>();
    std::unique_ptr<cler::Channel<T, N>> own(c);
    cler::ChannelBase<T> *b = c;
    size_t C = b->space();
    g_what = "channel construction";
    REQUIRE(b->size() == 0, "a new channel is not empty");
    REQUIRE(C >= (N ? N : cap), "channel constructed for %zu has space %zu", cap, C);
    bool dbf = C != (N ? N : cap) || (N == 0 && (cap + 1) * sizeof(T) >= cler::DOUBLY_MAPPED_MIN_SIZE && cler::platform::supports_doubly_mapped_buffers());
    dbf = dbf && dro::SPSCQueue<T, N>(cap).is_doubly_mapped();
    AQ<T, cler::ChannelBase<T>> a(*b);
    history<T>(a, C, dbf, rg, steps);
  }
}
template <class T> void all(Rng &rg, int steps) {
  size_t caps[] = {1, 2, 3, 4, 5, 7, 8, 15, 16, 33};
  for (size_t c : caps) one<T, 0>(c, rg, steps);
  one<T, 1>(0, rg, steps);
  one<T, 2>(0, rg, steps);
  one<T, 7>(0, rg, steps);
  one<T, 16>(0, rg, steps);
  one<T, 0>(4096 / sizeof(T) - 1 + rg.below(3), rg, steps / 4);
  one<T, 0>(4096 / sizeof(T) * (1 + rg.below(4)) + rg.below(5), rg, steps / 4);
}
int main(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  double secs = argc > 2 ? atof(argv[2]) : 5;
  watchdog((unsigned)secs + 60);
  Clock ck;
  uint64_t round = 0;
  do {
    Rng rg(seed + round);
    int steps = 120;
    all<float>(rg, steps);
    all<uint8_t>(rg, steps);
    all<P12>(rg, steps);
    all<P20>(rg, steps);
    round++;
  } while (ck.s() < secs);
  printf("PASS rounds=%llu\n", (unsigned long long)round);
  return 0;
}
