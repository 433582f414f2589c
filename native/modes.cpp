// Replay of the Mode S decoder and detectors against an independent description of the format (public interface only).
#include "common.hpp"
#include <cmath>
#include <ctime>
#include <vector>
#include <memory>
#include <algorithm>
#include "desktop_blocks/adsb/modes.h"
#include "desktop_blocks/adsb/modes_2400.h"
typedef std::vector<unsigned char> Msg;
static unsigned bits(const Msg &m, int a, int n) { unsigned r = 0; for (int i = a; i < a + n; ++i) r = r << 1 | ((m[i / 8] >> (7 - i % 8)) & 1); return r; }
static void flip(Msg &m, int j) { m[j / 8] ^= 1 << (7 - j % 8); }
static bool islong(int df) { return df == 16 || df == 17 || df == 19 || df == 20 || df == 21; }
// remainder of the message (without parity) by the Mode S generator polynomial
static uint32_t crc(const Msg &m, int n) {
  uint32_t r = 0;
  for (int i = 0; i < n - 24; ++i) {
    unsigned b = ((r >> 23) ^ bits(m, i, 1)) & 1;
    r = (r << 1) & 0xffffff;
    if (b) r ^= 0xfff409;
  }
  return r;
}
static bool valid(const Msg &m, int n) { return crc(m, n) == bits(m, n - 24, 24); }
static void seal(Msg &m, int n, uint32_t ap = 0) { uint32_t c = crc(m, n) ^ ap; m[n / 8 - 3] = c >> 16; m[n / 8 - 2] = c >> 8; m[n / 8 - 1] = c; }
static std::string hex(const Msg &m) { std::string s; char b[4]; for (auto c : m) { snprintf(b, 4, "%02x", c); s += b; } return s; }
static Msg rnd(Rng &r, int df) { Msg m(14); for (auto &c : m) c = r.next(); if (df >= 0) m[0] = df << 3 | (m[0] & 7); return m; }
struct Guarded {  // state and results sit between guard bytes; every byte outside the fields a call may change is compared
  std::unique_ptr<mode_s_t> s{new mode_s_t};
  Guarded() { memset(s.get(), 0xa5, sizeof(mode_s_t)); mode_s_init(s.get()); }
};
static mode_s_msg decode(mode_s_t *s, const Msg &m, int fill) {
  unsigned char *p = (unsigned char *)malloc(14);
  memcpy(p, m.data(), 14);
  mode_s_msg *o = (mode_s_msg *)malloc(sizeof(mode_s_msg));
  memset(o, fill, sizeof *o);
  mode_s_decode(s, o, p);
  REQUIRE(!memcmp(p, m.data(), 14), "decoding %s changed the caller's message", hex(m).c_str());
  mode_s_msg r = *o;
  free(o); free(p);
  return r;
}
#define EQ(field, want) REQUIRE((long)(o.field) == (long)(want), "message %s (after repair %s): " #field " is %ld, the format says %ld", hex(in).c_str(), hex(m).c_str(), (long)(o.field), (long)(want))
static bool seen(const mode_s_t *, uint32_t a, const std::vector<uint32_t> &known) { return a && std::find(known.begin(), known.end(), a) != known.end(); }
// check one decode; known: addresses that must be accepted
static void check(mode_s_t *s, const Msg &in, std::vector<uint32_t> &known, bool fresh) {
  mode_s_t before = *s;
  mode_s_msg o = decode(s, in, 0x5a);
  int df = bits(in, 0, 5), n = islong(df) ? 112 : 56;
  Msg m = in;
  int eb = -1;
  bool ok = valid(in, n);
  if (!ok && s->fix_errors && (df == 11 || df == 17)) {
    for (int j = 0; j < n && eb < 0; ++j) { Msg t = in; flip(t, j); if (valid(t, n)) { eb = j; m = t; ok = true; } }
    if (eb < 0 && s->aggressive && df == 17)
      for (int j = 0; j < n && eb < 0; ++j) for (int i = j + 1; i < n && eb < 0; ++i) { Msg t = in; flip(t, j); flip(t, i); if (valid(t, n)) { eb = j | i << 8; m = t; ok = true; } }
  }
  EQ(msgtype, df);
  EQ(msgbits, n);
  EQ(errorbit, eb);
  REQUIRE(!memcmp(o.msg, m.data(), n / 8), "message %s: stored as %s, expected %s", hex(in).c_str(), hex(Msg(o.msg, o.msg + 14)).c_str(), hex(m).c_str());
  EQ(crc, eb == -1 ? bits(in, n - 24, 24) : crc(m, n));
  uint32_t a = bits(m, 8, 24);
  bool tail = true;
  if (df == 11 || df == 17) {
    EQ(crcok, ok);
    if (ok && eb == -1) { known.push_back(a); } else tail = false;
  } else {
    tail = false;
    bool ap = df == 0 || df == 4 || df == 5 || df == 16 || df == 20 || df == 21 || df == 24;
    uint32_t r = crc(m, n) ^ bits(m, n - 24, 24);
    if (!ap || !seen(s, r, known)) { if (fresh || !ap) EQ(crcok, 0); }
    if (o.crcok) { REQUIRE(ap && r, "message %s of type %d accepted without an address", hex(in).c_str(), df); a = r; REQUIRE(seen(s, r, known), "message %s accepted for address %06x never seen", hex(in).c_str(), r); }
  }
  if (!tail) REQUIRE(!memcmp(&before, s, sizeof before), "decoding %s without a valid checksum changed the recently seen addresses or the configuration", hex(in).c_str());
  else REQUIRE(before.fix_errors == s->fix_errors && before.aggressive == s->aggressive && before.check_crc == s->check_crc, "decoding changed the configuration");
  EQ(aa1, a >> 16); EQ(aa2, a >> 8 & 255); EQ(aa3, a & 255);
  EQ(ca, bits(m, 5, 3)); EQ(fs, bits(m, 5, 3)); EQ(dr, bits(m, 8, 5)); EQ(um, bits(m, 13, 6));
  EQ(metype, bits(m, 32, 5)); EQ(mesub, bits(m, 37, 3));
  EQ(phase_corrected, 0);
  auto b = [&](int k) { return (int)bits(m, 19 + k, 1); };
  EQ(identity, (b(5) * 4 + b(3) * 2 + b(1)) * 1000 + (b(11) * 4 + b(9) * 2 + b(7)) * 100 + (b(4) * 4 + b(2) * 2 + b(0)) * 10 + b(12) * 4 + b(10) * 2 + b(8));
  int alt = 0, unit = 0;
  if (df == 0 || df == 4 || df == 16 || df == 20) {
    bool mb = bits(m, 25, 1), q = bits(m, 27, 1);
    unit = mb;
    if (!mb && q) alt = (int)(bits(m, 19, 6) << 5 | bits(m, 26, 1) << 4 | bits(m, 28, 4)) * 25 - 1000;
  }
  int me = bits(m, 32, 5), sub = bits(m, 37, 3);
  if (df == 17 && me >= 9 && me <= 18 && bits(m, 47, 1)) alt = (int)(bits(m, 40, 7) << 4 | bits(m, 48, 4)) * 25 - 1000;
  EQ(altitude, alt); EQ(unit, unit);
  if (df == 17 && me >= 1 && me <= 4) {
    static const char *cs = "?ABCDEFGHIJKLMNOPQRSTUVWXYZ????? ???????????????0123456789??????";
    EQ(aircraft_type, me - 1);
    for (int i = 0; i < 8; ++i) EQ(flight[i], cs[bits(m, 40 + 6 * i, 6)]);
    EQ(flight[8], 0);
  }
  if (df == 17 && me >= 9 && me <= 18) {
    EQ(fflag != 0, bits(m, 53, 1)); EQ(tflag != 0, bits(m, 52, 1));
    EQ(raw_latitude, bits(m, 54, 17)); EQ(raw_longitude, bits(m, 71, 17));
  }
  if (df == 17 && me == 19 && (sub == 1 || sub == 2)) {
    EQ(ew_dir, bits(m, 45, 1)); EQ(ew_velocity, bits(m, 46, 10)); EQ(ns_dir, bits(m, 56, 1)); EQ(ns_velocity, bits(m, 57, 10));
    EQ(vert_rate_source, bits(m, 67, 1)); EQ(vert_rate_sign, bits(m, 68, 1)); EQ(vert_rate, bits(m, 69, 9));
    int e = bits(m, 46, 10), nn = bits(m, 57, 10);
    EQ(velocity, (int)std::sqrt((double)(e * e + nn * nn)));
    double h = std::atan2(bits(m, 45, 1) ? -e : e, bits(m, 56, 1) ? -nn : nn) * 180 / M_PI;
    if (!o.velocity) { EQ(heading, 0); } else {
      REQUIRE(o.heading >= 0 && o.heading <= 360, "message %s: heading %d", hex(m).c_str(), o.heading);
      double d = std::fabs(std::remainder(o.heading - h, 360.0));
      REQUIRE(d <= 1.001, "message %s: heading %d, the velocity points to %f", hex(m).c_str(), o.heading, h);
    }
  }
  if (df == 17 && me == 19 && (sub == 3 || sub == 4)) { EQ(heading_is_valid != 0, bits(m, 45, 1)); EQ(heading, (int)(bits(m, 46, 7) * (360.0 / 128))); }
  // the report is a function of the message (and of the addresses seen), not of what the memory held before
  mode_s_t again = before;
  mode_s_msg o2 = decode(&again, in, 0xc3);
#define SAME(f) REQUIRE(!memcmp(&o.f, &o2.f, sizeof o.f), "message %s: " #f " reports what the memory held before", hex(in).c_str())
  SAME(msg); SAME(msgbits); SAME(msgtype); SAME(crcok); SAME(crc); SAME(errorbit); SAME(aa1); SAME(aa2); SAME(aa3); SAME(phase_corrected); SAME(ca); SAME(metype); SAME(mesub); SAME(heading_is_valid);
  SAME(heading); SAME(aircraft_type); SAME(fflag); SAME(tflag); SAME(raw_latitude); SAME(raw_longitude); SAME(flight); SAME(ew_dir); SAME(ew_velocity); SAME(ns_dir); SAME(ns_velocity); SAME(vert_rate_source);
  SAME(vert_rate_sign); SAME(vert_rate); SAME(velocity); SAME(fs); SAME(dr); SAME(um); SAME(identity); SAME(altitude); SAME(unit);
}
static void run_decode(Rng &r, double secs) {
  Clock c;
  g_what = "decoding messages";
  for (int df = 0; df < 32; ++df) { Guarded g; std::vector<uint32_t> k; Msg z(14, 0); z[0] = df << 3; check(g.s.get(), z, k, true); seal(z, islong(df) ? 112 : 56); check(g.s.get(), z, k, true); }
  // every single flipped bit of a valid message is found and repaired
  for (int df : {11, 17}) { int n = islong(df) ? 112 : 56; Msg m = rnd(r, df); seal(m, n); for (int j = 0; j < n; ++j) { Guarded g; std::vector<uint32_t> k; Msg t = m; flip(t, j); check(g.s.get(), t, k, true); } }
  int rounds = 0;
  do {
    Guarded g;
    std::vector<uint32_t> known;
    g.s->fix_errors = r.below(4) != 0;
    g.s->aggressive = r.below(20) == 0;
    int steps = g.s->aggressive ? 3 : 60;
    for (int i = 0; i < steps; ++i) {
      static const int dfs[] = {17, 17, 17, 17, 11, 0, 4, 5, 16, 20, 21, 24};
      int df = r.below(3) ? dfs[r.below(12)] : r.below(32), n = islong(df) ? 112 : 56;
      Msg m = rnd(r, df);
      if (df == 17 && r.below(3)) m[4] = (r.below(2) ? 19 << 3 | r.below(8) : r.below(20) << 3 | r.below(8));
      if (df == 17 && r.below(6) == 0) for (int k = 5; k < 9; ++k) m[k] = r.below(2) ? 0 : m[k] & 0x80;
      uint32_t ap = 0;
      if (df != 11 && df != 17) ap = known.empty() || !r.below(3) ? r.next() & 0xffffff : known[r.below(known.size())];
      if (r.below(5)) seal(m, n, ap);
      for (int e = r.below(4) ? 0 : r.below(3); e > 0; --e) flip(m, r.below(n));
      if (bits(m, 0, 5) != (unsigned)df) m[0] = df << 3 | (m[0] & 7);
      // an address that shares a cache line may have been displaced: only acceptance is checked then
      check(g.s.get(), m, known, known.empty());
      // the most recent address is still there: a reply of that aircraft is accepted
      if ((df == 11 || df == 17) && valid(m, n) && bits(m, 8, 24)) {
        int d2 = dfs[5 + r.below(7)], n2 = islong(d2) ? 112 : 56;
        Msg t = rnd(r, d2);
        seal(t, n2, bits(m, 8, 24));
        mode_s_msg o = decode(g.s.get(), t, 1);
        REQUIRE(o.crcok && (uint32_t)(o.aa1 << 16 | o.aa2 << 8 | o.aa3) == bits(m, 8, 24), "a reply %s of the aircraft %06x seen just now is not accepted", hex(t).c_str(), bits(m, 8, 24));
      }
    }
    // addresses older than the time to live do not count
    {
      uint32_t a = 1 + r.below(0xffffff);
      Msg m = rnd(r, 17);
      m[1] = a >> 16; m[2] = a >> 8; m[3] = a;
      seal(m, 112);
      decode(g.s.get(), m, 0);
      for (auto &w : g.s->icao_cache) if (w == a) { (&w)[1] = (uint32_t)time(nullptr) - 62; break; }
      Msg t = rnd(r, 4);
      seal(t, 56, a);
      REQUIRE(!decode(g.s.get(), t, 0).crcok, "address %06x last seen 62 s ago is still trusted", a);
    }
    ++rounds;
  } while (c.s() < secs);
  printf("PASS rounds=%d\n", rounds);
}
// ---------------------------------------------------------------- detectors
struct Report { Msg raw; int n; mode_s_msg mm; };
struct Sink { std::vector<Report> got; const uint16_t *buf; };
static void on(mode_s_t *, mode_s_msg *mm, void *c) { ((Sink *)c)->got.push_back({Msg(mm->msg, mm->msg + 14), mm->msgbits, *mm}); }
static void put(std::vector<uint16_t> &v, size_t at, const Msg &m, int n, int hi, int lo) {
  for (int i = 0; i < 16; ++i) v[at + i] = lo;
  for (int i : {0, 2, 7, 9}) v[at + i] = hi;
  for (int i = 0; i < n; ++i) { bool b = bits(m, i, 1); v[at + 16 + 2 * i] = b ? hi : lo; v[at + 17 + 2 * i] = b ? lo : hi; }
}
static std::vector<Report> detect(mode_s_t *s, const std::vector<uint16_t> &v, bool fast) {
  size_t n = v.size();
  uint16_t *p = (uint16_t *)malloc(n * 2 ? n * 2 : 1);
  if (n) memcpy(p, v.data(), n * 2);
  Sink k{{}, p};
  if (fast) mode_s_detect_2400(s, p, n, on, &k); else mode_s_detect(s, p, n, on, &k);
  REQUIRE(n == 0 || !memcmp(p, v.data(), n * 2), "the detector changed the samples of a buffer of %zu", n);
  free(p);
  return k.got;
}
// chips (0.5 us) sampled at 2.4 MHz: a sample covers 5 of 6 units of a chip
static std::vector<uint16_t> sample24(const std::vector<uint16_t> &chips, int phase) {
  std::vector<uint16_t> o;
  for (size_t t = phase; t + 5 <= chips.size() * 6; t += 5) { double a = 0; for (size_t u = t; u < t + 5; ++u) a += chips[u / 6]; o.push_back((uint16_t)(a / 5)); }
  return o;
}
static void run_detect(Rng &r, double secs) {
  Clock c;
  size_t rounds = 0, hits = 0, hits24 = 0;
  g_what = "short and empty buffers";
  for (int fast = 0; fast < 2; ++fast)
    for (size_t n = 0; n < 640; ++n) {
      Guarded g;
      std::vector<uint16_t> v(n);
      for (size_t i = 0; i < n; ++i) v[i] = (n & 1) ? r.next() & 0xfff : (i % 2 ? 0 : 65535);
      detect(g.s.get(), v, fast);
    }
  do {
    Guarded g;
    g.s->aggressive = r.below(8) == 0;
    g.s->check_crc = r.below(8) != 0;
    int lo = r.below(600), hi = lo + 12000 + r.below(30000);
    g_what = "messages at 2 MHz";
    {
      size_t n = 240 + r.below(900);
      std::vector<uint16_t> v(n);
      for (auto &x : v) x = r.below(3) == 0 ? r.below(lo + 1) : lo;
      struct Put { size_t at; Msg m; int n; };
      std::vector<Put> ps;
      size_t at = r.below(3) ? r.below(40) : n - 240;
      while (at + 240 <= n) {
        int df = r.below(2) ? 17 : 11, b = islong(df) ? 112 : 56;
        Msg m = rnd(r, df);
        seal(m, b);
        if (r.below(3) == 0) flip(m, 5 + r.below(b - 5));
        put(v, at, m, b, hi, lo);
        ps.push_back({at, m, b});
        at += 242 + r.below(60);
        if (at + 240 > n && ps.size() < 4 && r.below(2) && n - 240 >= ps.back().at + 241) at = n - 240;
      }
      auto got = detect(g.s.get(), v, false);
      // every message that lies completely inside and is not cut by the end is reported exactly once, the reports are messages of the signal in order
      std::vector<Msg> want;
      for (auto &p : ps) {
        if (p.at + 240 >= n) continue;
        Guarded t;
        mode_s_msg o = decode(t.s.get(), p.m, 0);
        REQUIRE(o.crcok, "driver: message not valid");
        want.push_back(Msg(o.msg, o.msg + p.n / 8));
      }
      std::vector<Msg> have;
      for (auto &x : got) if (x.mm.crcok && (x.mm.msgtype == 17 || x.mm.msgtype == 11)) have.push_back(Msg(x.raw.begin(), x.raw.begin() + x.n / 8));
      size_t k = 0;
      for (auto &h : have) if (k < want.size() && h == want[k]) ++k;
      if (g.s->check_crc) {
        REQUIRE(k == want.size(), "%zu messages at 2 MHz in a buffer of %zu samples, %zu of them reported in order (%zu reports)", want.size(), n, k, have.size());
        for (auto &w : want) { size_t q = std::count(have.begin(), have.end(), w), e = std::count(want.begin(), want.end(), w); REQUIRE(q <= e, "message %s was sent %zu times and reported %zu times", hex(w).c_str(), e, q); }
        for (auto &x : got) REQUIRE(x.mm.crcok, "a message without a valid checksum was reported");
      }
      hits += k;
    }
    g_what = "messages at 2.4 MHz";
    {
      std::vector<uint16_t> ch(700 + r.below(300), lo);
      std::vector<Msg> sent;
      size_t at = 10 + r.below(30);
      while (at + 260 <= ch.size()) {
        int df = r.below(2) ? 17 : 11, b = islong(df) ? 112 : 56;
        Msg m = rnd(r, df);
        seal(m, b);
        put(ch, at, m, b, hi, lo);
        sent.push_back(m);
        at += 260 + r.below(60);
      }
      auto v = sample24(ch, r.below(5));
      if (r.below(2)) v.resize(r.below(v.size() + 1));
      auto got = detect(g.s.get(), v, true);
      for (size_t i = 0; i < got.size(); ++i) {
        auto &x = got[i];
        REQUIRE(x.mm.crcok, "a message without a valid checksum was reported");
        if (x.mm.msgtype == 17 || x.mm.msgtype == 11) REQUIRE(valid(x.raw, x.n), "reported message %s does not carry its checksum", hex(x.raw).c_str());
      }
      hits24 += got.size();
      if (v.size() == sample24(ch, 0).size() && got.size() < 1) hits24 += 0;
    }
    g_what = "noise";
    for (int fast = 0; fast < 2; ++fast) {
      size_t n = r.below(1500);
      std::vector<uint16_t> v(n);
      for (auto &x : v) x = r.next() >> r.below(14);
      for (int k = r.below(10); k > 0 && n > 20; --k) { size_t a = r.below(n - 18); for (int i = 0; i < 16; ++i) v[a + i] = r.below(100); for (int i : {0, 2, 7, 9}) v[a + i] = 40000 + r.below(20000); }
      auto got = detect(g.s.get(), v, fast);
      if (g.s->check_crc) for (auto &x : got) REQUIRE(x.mm.crcok, "a message without a valid checksum was reported");
    }
    ++rounds;
  } while (c.s() < secs);
  REQUIRE(hits24 > rounds / 4, "only %zu messages found at 2.4 MHz in %zu rounds", hits24, rounds);
  printf("PASS rounds=%zu found=%zu/%zu\n", rounds, hits, hits24);
}
int main(int argc, char **argv) {
  Rng r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  double secs = argc > 2 ? atof(argv[2]) : 3;
  watchdog(secs + 100);
  if (argc > 3 && !strcmp(argv[3], "detect")) run_detect(r, secs); else run_decode(r, secs);
}
