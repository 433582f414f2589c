// Replay of the stream blocks' contracts (C14, C15) through the public interface: outputs are channels of our own that
// record every access, grow their space and feed the inputs between any two calls; inputs are the blocks' real channels.
#include "common.hpp"
#include <complex>
#include <deque>
#include <functional>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#include "cler.hpp"
#include "math/add.hpp"
#include "math/gain.hpp"
#include "math/complex_demux.hpp"
#include "math/frequency_shift.hpp"
#include "utils/fanout.hpp"
#include "utils/throughput.hpp"
#include "utils/throttle.hpp"
#include "noise/awgn.hpp"
#include "sinks/sink_null.hpp"
#include "sources/source_cw.hpp"
#include "sources/source_chirp.hpp"
using cler::Empty; using cler::Error; using cler::Result; typedef std::complex<float> cf; typedef std::complex<double> cd;
static Rng R{1};
static std::function<void()> peer;          // acts before every look at an output
static void act() { if (peer) { auto p = peer; peer = nullptr; p(); peer = p; } }
template <class T> struct Out : cler::ChannelBase<T> {
  std::vector<T> ring; size_t head = 0, used = 0, cap; std::vector<T> got; bool zero = false; bool flow = true;
  std::unique_ptr<T[]> buf; size_t offered = 0, known = 0;
  Out(size_t c) : cap(c), buf(new T[c + 8]) {}
  size_t room() { act(); if (R.below(2)) used -= R.below(used + 1); size_t n = cap - used; if (n == 0) zero = true; if (n > known) known = n; return cap - used; }
  size_t size() const override { return used; }
  size_t space() const override { return const_cast<Out *>(this)->room(); }
  void put(const T &v) { got.push_back(v); ++used; }
  void push(const T &v) override { REQUIRE(used < cap || room() > 0, "a block waits inside push"); if (used == cap) --used; put(v); }
  void pop(T &) override { FAILF("a block reads its output"); }
  bool try_push(const T &v) override { if (room() == 0) return false; put(v); return true; }
  bool try_pop(T &) override { FAILF("a block reads its output"); return false; }
  size_t writeN(const T *d, size_t n) override { size_t k = std::min(n, room()); for (size_t i = 0; i < k; ++i) put(d[i]); return k; }
  size_t readN(T *, size_t) override { FAILF("a block reads its output"); return 0; }
  size_t peek_write(T *&a, size_t &n, T *&b, size_t &m) override { offered = room(); n = offered / 2 + offered % 2; m = offered - n; a = buf.get(); b = buf.get() + n; return offered; }
  size_t peek_read(const T *&, size_t &, const T *&, size_t &) override { FAILF("a block reads its output"); return 0; }
  void commit_read(size_t) override { FAILF("a block reads its output"); }
  void commit_write(size_t n) override { REQUIRE(n <= offered, "%zu samples committed, %zu offered", n, offered); for (size_t i = 0; i < n; ++i) put(buf[i]); offered -= n; }
  std::pair<const T *, std::size_t> read_dbf() override { FAILF("a block reads its output"); return {nullptr, 0}; }
  std::pair<T *, std::size_t> write_dbf() override {
    offered = room();
    memset((void *)buf.get(), 0x5a, (cap + 8) * sizeof(T));     // the offered memory holds anything
    return {buf.get(), offered};
  }
};
template <class T> static T val();
template <> float val<float>() { switch (R.below(10)) { case 0: return 0; case 1: return -0.0f; case 2: return 1e15f; case 3: return -1e-40f; default: return (float)(int)(R.next() % 20001) / 7.0f - 1400.0f; } }
template <> int val<int>() { return (int)(R.next() % 20001) - 10000; }
template <> unsigned char val<unsigned char>() { return (unsigned char)R.next(); }
template <> cf val<cf>() { float a = val<float>(), b = val<float>(); return cf(a, b); }
template <> cd val<cd>() { return cd(val<float>(), val<float>()); }
static bool same(float a, float b) { return a == b || (a != a && b != b); }
static bool same(int a, int b) { return a == b; }
static bool same(unsigned char a, unsigned char b) { return a == b; }
static bool same(cf a, cf b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
static bool same(cd a, cd b) { return !memcmp(&a, &b, sizeof a); }
template <class T> struct Feed { cler::Channel<T> *in; std::vector<T> all; size_t base = 0; T at(size_t i) const { REQUIRE(base + i < all.size(), "a sample comes out that never went in"); return all[base + i]; }
  void feed(size_t n) { for (size_t i = 0; i < n; ++i) { T v = val<T>(); if (in->try_push(v)) all.push_back(v); else break; } } };
static bool flow = true, value = true;
// one block: k inputs, outputs, a step, a check of output sample i
static bool copies;   // the block under test emits its input bit for bit
template <class T> static void drive(const char *nm, std::vector<cler::Channel<T> *> ins, std::vector<std::function<size_t()>> outn, std::function<Result<Empty, Error>()> step,
                                     std::function<bool(size_t, size_t, std::vector<Feed<T>> &)> good, bool idle_ok, std::function<bool()> outzero, std::function<void()> clear, size_t cap, size_t rounds) {
  g_what = nm;
  std::vector<Feed<T>> f(ins.size());
  for (size_t i = 0; i < ins.size(); ++i) f[i].in = ins[i];
  size_t done = 0;
  peer = [&] { for (auto &x : f) if (R.below(3) == 0) x.feed(R.below(cap / 3 + 2)); };
  for (size_t r = 0; r < rounds; ++r) {
    for (auto &x : f) if (R.below(4)) x.feed(R.below(3) ? R.below(cap + 1) : R.below(4));
    clear();
    bool inzero = false; std::vector<size_t> before, fed;
    for (auto &x : f) { before.push_back(x.in->size()); fed.push_back(x.all.size()); inzero |= x.in->size() == 0; }
    size_t o0 = outn.empty() ? 0 : outn[0]();
    auto res = step();
    if (!flow) {
      size_t m = outn[0]() - o0; for (auto &q : outn) m = std::min(m, q() - o0);
      for (size_t i = 0; i < m; ++i) REQUIRE(good(o0 + i, i, f), "%s: sample %zu of a step of %zu is wrong", nm, i, m);
      for (size_t k = 0; k < f.size(); ++k) f[k].base += before[k] + (f[k].all.size() - fed[k]) - f[k].in->size();
      done += m; continue;
    }
    size_t moved = outn.empty() ? before[0] + (f[0].all.size() - fed[0]) - f[0].in->size() : outn[0]() - o0;
    for (size_t k = 0; k < outn.size(); ++k) REQUIRE(outn[k]() - o0 == moved, "%s: output %zu gains %zu samples, output 0 gains %zu", nm, k, outn[k]() - o0, moved);
    for (size_t k = 0; k < f.size(); ++k) { size_t lost = before[k] + (f[k].all.size() - fed[k]) - f[k].in->size(); REQUIRE(lost == moved, "%s: input %zu loses %zu samples, the outputs gain %zu", nm, k, lost, moved); }
    if (res.is_err()) {
      auto e = res.unwrap_err();
      REQUIRE(moved == 0, "%s: %zu samples moved by a step that reports '%s'", nm, moved, cler::to_str(e));
      bool oz = outzero();
      REQUIRE((e == Error::NotEnoughSamples && inzero) || (e == Error::NotEnoughSpace && oz) || (e == Error::NotEnoughSpaceOrSamples && (inzero || oz)), "%s: reports '%s' with input %s and output %s", nm, cler::to_str(e), inzero ? "empty" : "available", oz ? "full" : "free");
    } else if (!idle_ok) REQUIRE(moved > 0, "%s: succeeds without moving a sample", nm);
    if (moved == 0) REQUIRE(inzero || outzero() , "%s: stands still with input and room", nm);
    for (size_t i = 0; i < moved && !outn.empty() && (value || copies); ++i) REQUIRE(good(o0 + i, i, f), "%s: sample %zu (position %zu of a step of %zu) is wrong", nm, done + i, i, moved);
    for (auto &x : f) x.base += moved;
    done += moved;
  }
  REQUIRE(done > 0, "%s: nothing ever moved", nm);
  peer = nullptr;
}
template <class T, class B, class F> static void one(const char *nm, B &b, cler::Channel<T> *in, size_t k, F fn, bool idle_ok, size_t cap, size_t ocap, size_t rounds) {
  Out<T> o(ocap); std::vector<cler::Channel<T> *> ins; for (size_t i = 0; i < k; ++i) ins.push_back(in + i);
  drive<T>(nm, ins, {[&] { return o.got.size(); }}, [&] { return b.procedure(&o); },
           [&](size_t q, size_t i, std::vector<Feed<T>> &f) { return same(o.got[q], fn(i, f)); }, idle_ok, [&] { return o.zero; }, [&] { o.zero = false; if (R.below(3)) o.used = R.below(o.cap + 1); }, cap, rounds);
}
template <class T> static size_t dbf() { return cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T); }
template <class T> static void gain(const char *nm, size_t n, size_t rounds) { T g = val<T>(); GainBlock<T> b("b", g, n); one<T>(nm, b, &b.in, 1, [g](size_t i, std::vector<Feed<T>> &f) { return f[0].at(i) * g; }, false, n ? n : dbf<T>(), 1 + R.below(2 * (n ? n : 600)), rounds); }
template <class T> static bool sums(T got, std::vector<T> xs) { std::sort(xs.begin(), xs.end(), [](const T &a, const T &b) { return memcmp(&a, &b, sizeof a) < 0; });
  do { T s{}; for (auto &x : xs) s += x; if (same(got, s)) return true; T u = xs[0]; for (size_t i = 1; i < xs.size(); ++i) u += xs[i]; if (same(got, u)) return true; }
  while (std::next_permutation(xs.begin(), xs.end(), [](const T &a, const T &b) { return memcmp(&a, &b, sizeof a) < 0; })); return false; }
template <class T> static void add(const char *nm, size_t k, size_t n, size_t rounds) {
  AddBlock<T> b("b", k, n); Out<T> o(1 + R.below(2 * n)); std::vector<cler::Channel<T> *> ins; for (size_t i = 0; i < k; ++i) ins.push_back(&b.in[i]);
  drive<T>(nm, ins, {[&] { return o.got.size(); }}, [&] { return b.procedure(&o); },
           [&](size_t q, size_t i, std::vector<Feed<T>> &f) { std::vector<T> xs; for (auto &x : f) xs.push_back(x.at(i)); return sums(o.got[q], xs); }, false, [&] { return o.zero; }, [&] { o.zero = false; if (R.below(3)) o.used = R.below(o.cap + 1); }, n, rounds);
}
template <class T, size_t K, size_t... I> static void fan_(const char *nm, size_t n, size_t rounds, std::index_sequence<I...>) {
  FanoutBlock<T> b("b", K, n); std::vector<std::unique_ptr<Out<T>>> o; std::vector<std::function<size_t()>> outn;
  for (size_t i = 0; i < K; ++i) { o.emplace_back(new Out<T>(1 + R.below(2 * n))); auto p = o.back().get(); outn.push_back([p] { return p->got.size(); }); }
  drive<T>(nm, {&b.in}, outn, [&] { return b.procedure(static_cast<cler::ChannelBase<T> *>(o[I].get())...); },
           [&](size_t q, size_t i, std::vector<Feed<T>> &f) { T s = f[0].at(i); for (auto &x : o) if (memcmp(&x->got[q], &s, sizeof(T))) return false; return true; }, true,
           [&] { bool z = false; for (auto &x : o) z |= x->zero; return z; }, [&] { for (auto &x : o) { x->zero = false; if (R.below(3)) x->used = R.below(x->cap + 1); } }, n, rounds);
}
template <class T, size_t K> static void fan(const char *nm, size_t n, size_t rounds) { fan_<T, K>(nm, n, rounds, std::make_index_sequence<K>{}); }
template <class T> static void thru(const char *nm, size_t n, size_t rounds) { ThroughputBlock<T> b("b", n); one<T>(nm, b, &b.in, 1, [](size_t i, std::vector<Feed<T>> &f) { return f[0].at(i); }, true, n, 1 + R.below(2 * n), rounds); }
template <class T> static void throttle(const char *nm, size_t n, size_t rounds) { ThrottleBlock<T> b("b", 100000000, n); one<T>(nm, b, &b.in, 1, [](size_t i, std::vector<Feed<T>> &f) { return f[0].at(i); }, false, n, 1 + R.below(2 * n), rounds * 4); }
static void demux(int mode, size_t n, size_t rounds) {
  ComplexToMagPhaseBlock b("b", mode ? ComplexToMagPhaseBlock::RealImag : ComplexToMagPhaseBlock::MagPhase, n); size_t c = n ? n : dbf<cf>(); Out<float> p(1 + R.below(2 * c)), q(1 + R.below(2 * c));
  drive<cf>(mode ? "splitter (real, imaginary)" : "splitter (magnitude, phase)", {&b.in}, {[&] { return p.got.size(); }, [&] { return q.got.size(); }}, [&] { return b.procedure(&p, &q); },
            [&](size_t j, size_t i, std::vector<Feed<cf>> &f) { cf x = f[0].at(i); return mode ? same(p.got[j], x.real()) && same(q.got[j], x.imag()) : same(p.got[j], std::abs(x)) && same(q.got[j], std::arg(x)); }, false,
            [&] { return p.zero || q.zero; }, [&] { p.zero = q.zero = false; if (R.below(3)) p.used = R.below(p.cap + 1); if (R.below(3)) q.used = R.below(q.cap + 1); }, c, rounds);
}
static size_t recv_n; static size_t recv(cler::Channel<float> *c, void *ctx) { REQUIRE(ctx == &recv_n, "callback context lost"); recv_n = R.below(c->size() + 1); return recv_n; }
template <class T> static void source(const char *nm, std::function<Result<Empty, Error>(cler::ChannelBase<T> *)> step, std::function<Result<Empty, Error>(cler::ChannelBase<T> *)> whole, size_t rounds) {
  std::vector<T> all;
  for (size_t r = 0; r < rounds; ++r) {
    Out<T> o(1 + R.below(3000)); if (R.below(3)) o.used = R.below(o.cap + 1);
    auto res = step(&o);
    if (res.is_err()) REQUIRE(res.unwrap_err() == Error::NotEnoughSpace && o.zero && o.got.empty(), "%s: reports a shortage that is not there, or emits and fails", nm);
    else REQUIRE(!o.got.empty(), "%s: succeeds without emitting", nm);
    all.insert(all.end(), o.got.begin(), o.got.end());
  }
  // the same source, asked once for everything: one unbroken sequence either way
  Out<T> o(all.size() + 1); size_t n = 0;
  while (n < all.size()) { auto res = whole(&o); REQUIRE(res.is_ok(), "%s: fails with room for %zu samples", nm, o.cap); n = o.got.size(); }
  for (size_t i = 0; i < all.size(); ++i) REQUIRE(std::abs(all[i] - o.got[i]) < 0.02, "%s: sample %zu differs when the same sequence is made in one step", nm, i);
}
int main(int argc, char **argv) {
  const char *part = argc > 3 ? argv[3] : "all"; if (!strcmp(part, "flow")) value = false; if (!strcmp(part, "value")) flow = false;
  double secs = argc > 2 ? atof(argv[2]) : 3; R = Rng{(uint64_t)(argc > 1 ? atoi(argv[1]) : 1) * 77 + 5};
  Clock ck; size_t rounds = 0;
  do {
    size_t ns[] = {1, 2, 3, 7, 64, 511, 1024}; size_t n = ns[R.below(7)], k = 40;
    gain<float>("gain", n, k); gain<int>("gain", n, k); gain<cf>("gain", R.below(4) ? n : 0, k);
    demux(0, 512 + R.below(700), k); demux(1, R.below(2) ? 0 : 512 + R.below(700), k);
    add<float>("sum of 2", 2, 1024 + R.below(100), k); add<float>("sum of 3", 3, 1024, k); add<int>("sum of 4", 4, 1024 + R.below(3000), k); add<cf>("sum of 2", 2, 512 + R.below(100), k);
    if (!flow) { ++rounds; continue; }
    copies = true;
    fan<float, 1>("fan-out to 1", 1024, k); fan<float, 2>("fan-out to 2", 1024 + R.below(2000), k); fan<float, 3>("fan-out to 3", 1024, k); fan<cd, 2>("fan-out to 2", 256 + R.below(99), k); fan<unsigned char, 2>("fan-out to 2", 4096 + R.below(99), k);
    thru<float>("pass-through", 1024 + R.below(99), k); thru<cd>("pass-through", 300, k); thru<unsigned char>("pass-through", 5000, k);
    throttle<float>("throttle", 1 + R.below(9), k); throttle<cf>("throttle", 1 + R.below(9), k);
    { FrequencyShiftBlock b("b", 0.0, 1000.0, n); one<cf>("frequency shift by 0", b, &b.in, 1, [](size_t i, std::vector<Feed<cf>> &f) { return f[0].at(i) * cf(1, 0); }, false, n, 1 + R.below(2 * n), k); }
    { NoiseAWGNBlock<float> b("b", 0.0f, n); one<float>("noise of 0", b, &b.in, 1, [](size_t i, std::vector<Feed<float>> &f) { return f[0].at(i) + 0.0f; }, false, n, 1 + R.below(2 * n), k); }
    { NoiseAWGNBlock<cf> b("b", 0.0f, n); one<cf>("noise of 0", b, &b.in, 1, [](size_t i, std::vector<Feed<cf>> &f) { return f[0].at(i) + cf(0, 0); }, false, n, 1 + R.below(2 * n), k); }
    { SinkNullBlock<float> b("b", nullptr, nullptr, n); Feed<float> f; f.in = &b.in; for (int i = 0; i < 40; ++i) { f.feed(R.below(n + 1)); b.procedure(); REQUIRE(b.in.size() == 0, "null sink leaves samples behind"); } }
    { SinkNullBlock<float> b("b", recv, &recv_n, n); Feed<float> f; f.in = &b.in; for (int i = 0; i < 40; ++i) { f.feed(R.below(n + 1)); size_t s = b.in.size(); b.procedure(); REQUIRE(b.in.size() == s - recv_n, "null sink takes %zu of the %zu samples its callback took", s - b.in.size(), recv_n); } }
    { SourceCWBlock<float> b("b", 1.0f, 10.0f, 1000), c("c", 1.0f, 10.0f, 1000); source<float>("tone", [&](cler::ChannelBase<float> *o) { return b.procedure(o); }, [&](cler::ChannelBase<float> *o) { return c.procedure(o); }, 30); }
    { SourceCWBlock<cf> b("b", 1.0f, 10.0f, 1000), c("c", 1.0f, 10.0f, 1000); source<cf>("tone", [&](cler::ChannelBase<cf> *o) { return b.procedure(o); }, [&](cler::ChannelBase<cf> *o) { return c.procedure(o); }, 30); }
    { SourceChirpBlock<float> b("b", 1.0f, 10.0f, 100.0f, 1000, 0.5f), c("c", 1.0f, 10.0f, 100.0f, 1000, 0.5f); source<float>("chirp", [&](cler::ChannelBase<float> *o) { return b.procedure(o); }, [&](cler::ChannelBase<float> *o) { return c.procedure(o); }, 30); }
    { SourceChirpBlock<cf> b("b", 1.0f, 10.0f, 100.0f, 1000, 0.5f), c("c", 1.0f, 10.0f, 100.0f, 1000, 0.5f); source<cf>("chirp", [&](cler::ChannelBase<cf> *o) { return b.procedure(o); }, [&](cler::ChannelBase<cf> *o) { return c.procedure(o); }, 30); }
    copies = false;
    ++rounds;
  } while (ck.s() < secs);
  std::printf("PASS rounds=%zu\n", rounds);
}
