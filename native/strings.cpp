// Replay of the bounded-string contract against std::string (public API only).
#include "common.hpp"
#include "cler_embeddable_string.hpp"
template <size_t N> static void check(const cler::EmbeddableString<N> &s, const std::string &want, const char *what) {
  std::string w = want.substr(0, N - 1);
  REQUIRE(strnlen(s.c_str(), N) < N, "%s: not terminated within its limit %zu", what, N);
  REQUIRE(w == s.c_str(), "%s: text is '%s', expected '%s' (limit %zu)", what, s.c_str(), w.c_str(), N);
  REQUIRE(s.length() == w.size(), "%s: length() is %zu, expected %zu (limit %zu)", what, s.length(), w.size(), N);
  REQUIRE(s.empty() == w.empty(), "%s: empty() is %d for '%s'", what, (int)s.empty(), w.c_str());
  const char *c = s;
  REQUIRE(w == c, "%s: conversion gives '%s', expected '%s'", what, c, w.c_str());
}
template <size_t N> static void round_(Rng &r, size_t n) {
  typedef cler::EmbeddableString<N> S;
  auto text = [&](size_t k) { std::string t; for (size_t i = 0; i < k; ++i) t += (char)(1 + r.below(255)); return t; };
  size_t lim[] = {0, 1, N >= 2 ? N - 2 : 0, N - 1, N, N + 1, 2 * N, (size_t)r.below(3 * N + 2), n};
  for (size_t k : lim) {
    std::string t = text(k), u = text(lim[r.below(9)]);
    char *heap = new char[t.size() + 1];
    memcpy(heap, t.c_str(), t.size() + 1);
    S a(heap), b(t), c, d(a), e((const char *)nullptr), f(u);
    delete[] heap;
    check<N>(a, t, "of_cstr"); check<N>(b, t, "of_string"); check<N>(c, "", "default"); check<N>(d, t, "copy"); check<N>(e, "", "of null");
    c = f; check<N>(c, u, "assign"); check<N>(f, u, "assign source");
    c = a; check<N>(c, t, "assign over");
    S &self = c; c = self; check<N>(c, t, "self assign");
    c = u.c_str(); check<N>(c, u, "assign text");
    c = c.c_str(); check<N>(c, u, "assign own text");
    std::string ta = t.substr(0, N - 1), tu = u.substr(0, N - 1);
    check<N>(a + u.c_str(), ta + u, "plus text"); check<N>(a + f, ta + tu, "plus"); check<N>(a + a, ta + ta, "plus itself");
    check<N>(a + a.c_str(), ta + ta, "plus own text"); check<N>(a + f + u.c_str() + a, (((ta + tu).substr(0, N - 1) + u).substr(0, N - 1) + ta), "chain");
    check<N>(a, t, "left operand unchanged"); check<N>(f, u, "right operand unchanged");
    c = c + c; check<N>(c, tu + tu, "c = c + c");
    S g = a + f; c = g; g = S("x"); check<N>(c, ta + tu, "independent copy");
    S h(static_cast<S &&>(d)); check<N>(h, t, "move");
  }
}
int main(int argc, char **argv) {
  Rng r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  double secs = argc > 2 ? atof(argv[2]) : 3;
  watchdog(secs + 60);
  Clock c; size_t n = 0;
  do {
    round_<64>(r, r.below(300)); round_<1>(r, r.below(9)); round_<2>(r, r.below(9)); round_<8>(r, r.below(40)); round_<33>(r, r.below(99)); round_<256>(r, r.below(1999));
    ++n;
  } while (c.s() < secs);
  printf("PASS rounds=%zu\n", n);
}
