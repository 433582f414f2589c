// Replay of the result/error contract (public API only).
#include "common.hpp"
#include "cler.hpp"
#include <memory>
#include <set>
#include <vector>
using cler::Error; using cler::Result;
static const Error ALL[] = {Error::OK, Error::Unknown, Error::NotEnoughSamples, Error::NotEnoughSpace, Error::NotEnoughSpaceOrSamples, Error::ProcedureError,
  Error::BadData, Error::TERMINATE_FLOWGRAPH, Error::TERM_InvalidChannelIndex, Error::TERM_ProcedureError, Error::TERM_IOError, Error::TERM_EOFReached};
template <class T> static void ok_(Result<T, Error> &r, const T &v, const char *w) {
  REQUIRE(r.is_ok() && !r.is_err(), "%s: holds a value but is_ok=%d is_err=%d", w, r.is_ok(), r.is_err());
  REQUIRE(r.unwrap() == v, "%s: unwrap gives another value", w);
  bool t = false; try { (void)r.unwrap_err(); } catch (const std::exception &) { t = true; }
  REQUIRE(t, "%s: unwrap_err on a value was not refused", w);
}
template <class T> static void err_(Result<T, Error> &r, Error e, const char *w) {
  REQUIRE(!r.is_ok() && r.is_err(), "%s: holds an error but is_ok=%d is_err=%d", w, r.is_ok(), r.is_err());
  REQUIRE(r.unwrap_err() == e, "%s: unwrap_err gives another error", w);
  bool t = false; try { (void)r.unwrap(); } catch (const std::exception &) { t = true; }
  REQUIRE(t, "%s: unwrap on an error was not refused", w);
}
template <class T> static void all_(const T &v, const T &v2, const char *w) {
  typedef Result<T, Error> R; g_what = w;
  for (Error e : ALL) {
    R a(v), b(e), c(a), d(b); ok_(a, v, "value"); err_(b, e, "error"); ok_(c, v, "copy"); err_(d, e, "copy");
    R m(std::move(c)), n(std::move(d)); ok_(m, v, "move"); err_(n, e, "move");
    R x(v2); x = a; ok_(x, v, "assign"); x = b; err_(x, e, "assign"); x = R(v2); ok_(x, v2, "assign"); x = std::move(n); err_(x, e, "move assign"); x = R(v); ok_(x, v, "assign");
    R &self = x; x = self; ok_(x, v, "self assign");
    x.unwrap() = v2; ok_(x, v2, "unwrap is the stored object");
    ok_(a, v, "source"); err_(b, e, "source");
  }
}
int main(int argc, char **argv) {
  Rng r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  double secs = argc > 2 ? atof(argv[2]) : 3;
  watchdog(secs + 60);
  Clock c;
  all_<cler::Empty>({}, {}, "Empty"); all_<bool>(false, true, "bool false"); all_<bool>(true, false, "bool true");
  do {
    all_<size_t>(r.next(), r.next(), "size_t"); all_<int>((int)r.below(9), 3, "int"); all_<double>(0.5 * r.below(99), -1.0, "double");
    all_<std::string>(std::string(r.below(60), 'x'), "other text that does not fit in place.........", "string");
    all_<std::vector<int>>(std::vector<int>(r.below(9), 4), {1, 2}, "vector"); all_<std::shared_ptr<int>>(std::make_shared<int>(4), nullptr, "shared_ptr");
  } while (c.s() < secs);
  std::set<std::string> seen;
  for (int k = 0; k < 12; ++k) {
    REQUIRE(cler::is_fatal(ALL[k]) == (k >= 7), "is_fatal(%s) is %d", cler::to_str(ALL[k]), (int)cler::is_fatal(ALL[k]));
    std::string t = cler::to_str(ALL[k]);
    REQUIRE(!t.empty(), "error %d has no description", k);
    if (k != 0 && k != 1 && k != 7) REQUIRE(seen.insert(t).second && t != cler::to_str(Error::Unknown), "error %d shares its description '%s'", k, t.c_str());
  }
  puts("PASS");
}
