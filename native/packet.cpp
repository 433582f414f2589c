// Replay of the packet blocks' contracts (C16) through the public interface, over UNIX datagram sockets in a scratch directory.
#include "common.hpp"
#include <array>
#include <deque>
#include <atomic>
#include <memory>
#include <thread>
#include <set>
#include <vector>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include "cler.hpp"
#include "udp/source_udp.hpp"
#include "udp/sink_udp.hpp"
#include "blob.hpp"
using cler::Empty; using cler::Error;
static Rng R{1};
static std::string dir;
typedef std::array<uint8_t, 24> Arr;
static int sock(const std::string &bind_to) {
  int s = ::socket(AF_UNIX, SOCK_DGRAM, 0); REQUIRE(s >= 0, "driver: no socket");
  if (!bind_to.empty()) { sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, bind_to.c_str()); unlink(a.sun_path); REQUIRE(!bind(s, (sockaddr *)&a, sizeof a), "driver: cannot bind"); }
  return s;
}
static bool tell(int s, const std::string &to, const std::vector<uint8_t> &d, bool maybe) {
  sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, to.c_str());
  ssize_t k = sendto(s, d.data(), d.size(), MSG_DONTWAIT, (sockaddr *)&a, sizeof a);
  REQUIRE(maybe || k == (ssize_t)d.size(), "driver: cannot send");
  return k == (ssize_t)d.size();
}
static std::vector<uint8_t> packet(size_t n) { std::vector<uint8_t> v(n); for (auto &x : v) x = (uint8_t)R.next(); return v; }
// --- slab histories
static void slab_history() {
  g_what = "slab history";
  size_t n = 1 + R.below(20), m = 1 + R.below(70);
  Slab s(n, m); std::vector<std::pair<Blob, uint8_t>> out; std::set<size_t> used; uint8_t mark = 1; uint8_t *base = nullptr;
  REQUIRE(s.capacity() == n && s.max_blob_size() == m && s.available_slots() == n, "a new slab offers %zu of %zu slots of %zu bytes", s.available_slots(), n, m);
  for (int k = 0; k < 300; ++k) {
    if (R.below(2)) {
      auto r = s.take_slot();
      REQUIRE(r.is_ok() == (out.size() < n), "take %s with %zu of %zu slots out", r.is_ok() ? "succeeds" : "fails", out.size(), n);
      if (r.is_err()) continue;
      Blob b = r.unwrap();
      REQUIRE(b.len == m && b.slot_idx < n && b.owner_slab == &s, "slot %zu of %zu, length %zu", b.slot_idx, n, b.len);
      REQUIRE(used.insert(b.slot_idx).second, "slot %zu is handed out twice", b.slot_idx);
      if (!base) base = b.data - b.slot_idx * m;
      for (auto &o : out) REQUIRE(b.data + m <= o.first.data || o.first.data + m <= b.data, "two slots overlap");
      REQUIRE((size_t)(b.data - base) + m <= n * m, "slot outside the slab");
      memset(b.data, mark, m); out.push_back({b, mark++});
    } else if (!out.empty()) {
      size_t i = R.below(out.size()); auto p = out[i]; out.erase(out.begin() + i);
      for (size_t j = 0; j < m; ++j) REQUIRE(p.first.data[j] == p.second, "slot contents change while it is out");
      used.erase(p.first.slot_idx); p.first.release(); REQUIRE(p.first.owner_slab == nullptr, "a released packet still names its slab");
    }
    REQUIRE(s.available_slots() == n - out.size(), "%zu slots available, %zu of %zu out", s.available_slots(), out.size(), n);
  }
}
// --- receiving
template <class T> struct Out : cler::ChannelBase<T> {
  std::vector<T> got; size_t room = 0;
  size_t size() const override { return 0; }
  size_t space() const override { return room; }
  void push(const T &v) override { REQUIRE(room > 0, "push without room"); --room; got.push_back(v); }
  void pop(T &) override { FAILF("a source reads its output"); }
  bool try_push(const T &v) override { if (!room) return false; --room; got.push_back(v); return true; }
  bool try_pop(T &) override { FAILF("a source reads its output"); return false; }
  size_t writeN(const T *d, size_t n) override { size_t k = std::min(n, room); for (size_t i = 0; i < k; ++i) got.push_back(d[i]); room -= k; return k; }
  size_t readN(T *, size_t) override { FAILF("a source reads its output"); return 0; }
  std::unique_ptr<T[]> mem; size_t offered = 0;
  size_t peek_write(T *&a, size_t &n, T *&b, size_t &m) override { mem.reset(new T[room + 1]); offered = n = room; a = mem.get(); b = nullptr; m = 0; return n; }
  size_t peek_read(const T *&, size_t &, const T *&, size_t &) override { FAILF("a source reads its output"); return 0; }
  void commit_read(size_t) override { FAILF("a source reads its output"); }
  void commit_write(size_t n) override { REQUIRE(n <= offered, "commit of more than offered"); for (size_t i = 0; i < n; ++i) got.push_back(mem[i]); room -= n; }
  std::pair<const T *, std::size_t> read_dbf() override { FAILF("a source reads its output"); return {nullptr, 0}; }
  std::pair<T *, std::size_t> write_dbf() override { mem.reset(new T[room + 1]); offered = room; return {mem.get(), room}; }
};
static std::vector<std::vector<uint8_t>> accepted; static int ctx;
template <class T> static std::vector<uint8_t> bytes(const T &v);
template <> std::vector<uint8_t> bytes(const Blob &b) { return std::vector<uint8_t>(b.data, b.data + b.len); }
template <> std::vector<uint8_t> bytes(const Arr &b) { return std::vector<uint8_t>(b.begin(), b.end()); }
template <class T> static bool fine(const T &v, void *c) { REQUIRE(c == &ctx, "validation context lost"); return bytes(v)[0] % 3 != 0; }
template <class T> static void seen(const T &v, void *c) { REQUIRE(c == &ctx, "callback context lost"); accepted.push_back(bytes(v)); }
template <class T> static void source() {
  constexpr bool blob = std::is_same_v<T, Blob>;
  g_what = blob ? "receiving packets" : "receiving arrays";
  size_t slots = 1 + R.below(9), mx = 8 + R.below(60); bool val = R.below(2);
  std::string path = dir + "/rx";
  SourceUDPSocketBlock<T> b("rx", UDPBlock::SocketType::UNIX_DGRAM, path, val ? fine<T> : nullptr, seen<T>, &ctx, mx, slots);
  int s = sock(""); Out<T> o; accepted.clear();
  std::vector<std::vector<uint8_t>> good, all; std::vector<T> held;
  auto make = [&](bool ok) { auto v = packet(blob ? 1 + R.below(mx) : 24); if (ok) v[0] = 1; return v; };
  auto step = [&](size_t room) {                          // a reception always finds something to end on
    tell(s, path, {}, true);
    o.room = room; size_t a0 = accepted.size(), g0 = o.got.size();
    auto res = b.procedure(&o);
    if (res.is_err()) REQUIRE(res.unwrap_err() == Error::NotEnoughSpace && room == 0, "receiving reports '%s'", cler::to_str(res.unwrap_err()));
    REQUIRE(accepted.size() - a0 == o.got.size() - g0, "%zu datagrams accepted in a step, %zu handed on", accepted.size() - a0, o.got.size() - g0);
    for (size_t i = g0; i < o.got.size(); ++i) { auto x = bytes(o.got[i]); REQUIRE(x == accepted[i], "datagram %zu is handed on with other contents", i); all.push_back(x); held.push_back(o.got[i]); }
    if constexpr (blob) for (size_t i = 0; i < held.size(); ++i) for (size_t k = 0; k < i; ++k) REQUIRE(held[i].slot_idx != held[k].slot_idx, "slot handed out twice");
  };
  auto drop = [&](size_t k) { if constexpr (blob) held[k].release(); held.erase(held.begin() + k); };
  size_t n = R.below(8);
  for (size_t i = 0; i < n; ++i) {
    if (R.below(6) == 0) tell(s, path, std::vector<uint8_t>(blob ? mx + 1 : 25, 1), true);        // too long: refused
    else if (R.below(6) == 0) tell(s, path, {}, true);
    else { auto v = make(false); if (tell(s, path, v, true) && (!val || v[0] % 3)) good.push_back(v); }
  }
  for (int k = 0; k < 60 && all.size() < good.size(); ++k) {
    step(R.below(5));
    while (held.size() && R.below(3)) drop(R.below(held.size()));
    if (held.size() >= slots) drop(0);
  }
  REQUIRE(all.size() == good.size(), "%zu of %zu acceptable datagrams handed on", all.size(), good.size());
  for (size_t i = 0; i < all.size(); ++i) REQUIRE(all[i] == good[i], "datagram %zu arrives altered or out of order", i);
  while (held.size()) drop(0);
  if (blob) {                                              // every slot is back
    for (int k = 0; k < 200 && held.size() < slots; ++k) { tell(s, path, make(true), true); step(slots - held.size()); }
    REQUIRE(held.size() == slots, "only %zu of %zu slots come back", held.size(), slots);
    size_t g = o.got.size(); step(1); REQUIRE(o.got.size() == g, "more packets are out than there are slots");
    while (held.size()) drop(0);
  }
  ::close(s);
}
// --- sending
static std::vector<std::vector<uint8_t>> told;
template <class T> static void sent(const T &v, void *c) { REQUIRE(c == &ctx, "callback context lost"); told.push_back(bytes(v)); }
template <class T> static void sink() {
  constexpr bool blob = std::is_same_v<T, Blob>;
  g_what = blob ? "sending packets" : "sending arrays";
  std::string path = dir + "/tx"; bool reach = R.below(4) != 0;
  int s = sock(path);
  SinkUDPSocketBlock<T> b("tx", UDPBlock::SocketType::UNIX_DGRAM, path, sent<T>, &ctx, 64);
  Slab slab(40, 50);
  for (int r = 0; r < 10; ++r) {
    size_t n = R.below(9); std::vector<std::vector<uint8_t>> want; told.clear();
    for (size_t i = 0; i < n; ++i) {
      if constexpr (blob) { auto t = slab.take_slot(); REQUIRE(t.is_ok(), "slots are lost by the sending block: %zu of 40 left", slab.available_slots()); Blob x = t.unwrap(); x.len = 1 + R.below(50); for (size_t k = 0; k < x.len; ++k) x.data[k] = (uint8_t)R.next(); want.push_back(bytes(x)); b.in.push(x); }
      else { Arr x; for (auto &k : x) k = (uint8_t)R.next(); want.push_back(bytes(x)); b.in.push(x); }
    }
    if (!reach) { ::close(s); s = -1; unlink(path.c_str()); }
    auto res = b.procedure();
    if (reach || n == 0) {
      REQUIRE(res.is_ok(), "sending fails");
      REQUIRE(b.in.size() == 0, "packets stay behind");
      if (reach) for (auto &w : want) { uint8_t buf[100]; ssize_t k = recv(s, buf, 100, MSG_DONTWAIT); REQUIRE(k == (ssize_t)w.size() && !memcmp(buf, w.data(), w.size()), "a packet is sent with other contents or out of order"); }
      if (reach) { uint8_t x; REQUIRE(recv(s, &x, 1, MSG_DONTWAIT) < 0, "a packet is sent twice"); REQUIRE(told == want, "send callback out of step"); }
    } else REQUIRE(res.is_err() && res.unwrap_err() == Error::TERM_IOError, "a send failure is not reported");
    if constexpr (blob) REQUIRE(slab.available_slots() == 40 - b.in.size(), "%zu of 40 slots are back, %zu packets still queued", slab.available_slots(), b.in.size());
    if (!reach) break;
  }
  if (s >= 0) ::close(s);
}
// --- receiving in one thread, using and releasing in another
static bool fine_mt(const Blob &v, void *) { return v.data[0] % 3 != 0; }
static void threads(double secs) {
  g_what = "one thread receives, one releases";
  Clock ck; size_t rounds = 0;
  do {
    std::string path = dir + "/rx"; size_t slots = 1 + R.below(6), mx = 16, n = 400;
    SourceUDPSocketBlock<Blob> b("rx", UDPBlock::SocketType::UNIX_DGRAM, path, fine_mt, nullptr, nullptr, mx, slots);
    cler::Channel<Blob> c(64); std::atomic<size_t> taken{0}; std::atomic<bool> done{false}; std::vector<std::vector<uint8_t>> good, got;
    std::thread rx([&] { while (!done) { auto r = b.procedure(&c); REQUIRE(r.is_ok() || r.unwrap_err() == Error::NotEnoughSpace, "receiving fails"); } });
    std::thread use([&] {
      Blob x; std::vector<Blob> hold;
      while (!done || c.size()) {
        if (!c.try_pop(x)) { for (auto &h : hold) h.release(); hold.clear(); std::this_thread::yield(); continue; }
        for (auto &h : hold) REQUIRE(h.slot_idx != x.slot_idx && h.data != x.data, "slot %zu is handed out while it is in use", x.slot_idx);
        got.push_back(bytes(x)); ++taken; hold.push_back(x);
        if (hold.size() >= slots || got.size() % 3) { for (auto &h : hold) { REQUIRE(bytes(h) == got[got.size() - hold.size() + (&h - &hold[0])], "a packet changes while it is in use"); h.release(); } hold.clear(); }
      }
      for (auto &h : hold) h.release();
    });
    int s = sock(""); sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, path.c_str());
    for (size_t i = 0; i < n; ++i) {
      std::vector<uint8_t> v = R.below(8) ? packet(1 + R.below(mx)) : packet(R.below(2) ? 0 : mx + 4);
      REQUIRE(sendto(s, v.data(), v.size(), 0, (sockaddr *)&a, sizeof a) == (ssize_t)v.size(), "driver: cannot send");
      if (v.size() && v.size() <= mx && v[0] % 3) good.push_back(v);
    }
    Clock w;
    while (taken < good.size()) { tell(s, path, {}, true); std::this_thread::yield(); REQUIRE(w.s() < 20, "%zu of %zu acceptable datagrams arrive, then nothing more", (size_t)taken, good.size()); }
    done = true; for (int i = 0; i < 3; ++i) tell(s, path, {}, true);
    std::atomic<bool> joined{false}; std::thread wake([&] { while (!joined) { tell(s, path, {}, true); std::this_thread::yield(); } });
    rx.join(); joined = true; wake.join(); use.join();
    REQUIRE(got == good, "the packets received by another thread are altered or out of order");
    ::close(s); ++rounds;
  } while (ck.s() < secs);
  printf("PASS rounds=%zu\n", rounds);
}
int main(int argc, char **argv) {
  double secs = argc > 2 ? atof(argv[2]) : 3; R = Rng{(uint64_t)(argc > 1 ? atoi(argv[1]) : 1) * 31 + 9};
  watchdog((unsigned)secs + 60);
  char t[] = "/tmp/vpktXXXXXX"; REQUIRE(mkdtemp(t), "driver: no scratch directory"); dir = t;
  atexit([] { unlink((dir + "/rx").c_str()); unlink((dir + "/tx").c_str()); rmdir(dir.c_str()); });
  if (argc > 3 && !strcmp(argv[3], "mt")) { threads(secs); return 0; }
  Clock ck; size_t rounds = 0;
  do { for (int i = 0; i < 20; ++i) slab_history(); source<Blob>(); source<Arr>(); sink<Blob>(); sink<Arr>(); ++rounds; } while (ck.s() < secs);
  printf("PASS rounds=%zu\n", rounds);
}
