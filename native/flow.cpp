// Replay of the execution loop's, back-off's and worker pool's contracts through the public API: a task policy of our own
// keeps the task bodies and runs them one at a time in this thread, so every call, sleep and stop is observed exactly.
#include "common.hpp"
#include "cler.hpp"
#include "task_policies/cler_task_policy_base.hpp"
#include <functional>
#include <memory>
#include <vector>
#include <cmath>
using cler::Empty; using cler::Error; using cler::Result;
enum Out { OK, STARVED, SOFT, FATAL };
static const char *part = "all";
static bool want(const char *p) { return !strcmp(part, "all") || !strcmp(part, p); }
struct Task { std::function<void()> f; int id = -1; };
static std::vector<std::function<void()>> started; static std::vector<int> joined;
static struct Watch *W;
static void on_sleep(size_t us); static void on_relax(); static int pinned = -1;
struct Policy : cler::TaskPolicyBase<Policy> {
  using task_type = Task;
  template <class F> static Task create_task(F &&f) { started.push_back(std::function<void()>(std::forward<F>(f))); Task t; t.id = (int)started.size() - 1; return t; }
  static void join_task(Task &t) { joined.push_back(t.id); }
  static void yield() {}
  static void sleep_us(size_t us) { on_sleep(us); }
  static void relax() { on_relax(); }
  static void pin_to_core(size_t c) { pinned = (int)c; }
};
struct Block;
struct Watch {
  Rng r{1}; cler::FlowGraphConfig cfg;
  std::function<void()> stop; std::function<const cler::BlockExecutionStats &(size_t)> stats; std::function<bool()> stopped;
  size_t n = 0; bool pool = false;
  long budget = 0; long after_stop = 0; bool stop_seen = false;      // a stop was requested while a call was under way
  std::vector<std::vector<Out>> phase;
  std::vector<long> calls, ok, bad, cons, burst; std::vector<double> cur; std::vector<bool> dead, must_sleep, success_run; std::vector<int> halv;
  std::vector<int> turns; int last = -1; Out last_out = OK; long callbacks = 0; long fatals = 0; long idle = 0; void *ctx = nullptr; int cb_ok = 1;
  double p_ok = .5, p_starve = .45, p_soft = .05, p_fatal = 0; long relaxes = 0; long sleeps = 0;
  long runlen = 0; Out run = OK;
  void reset(size_t N) {
    n = N; calls.assign(N, 0); ok = bad = cons = burst = calls; cur.assign(N, 0); dead.assign(N, false); must_sleep = dead; success_run = dead; turns.clear(); last = -1; callbacks = fatals = 0; idle = 0;
    stop_seen = false; relaxes = sleeps = 0; runlen = 0; cb_ok = 1;
  }
  Out next() {
    if (runlen > 0) { --runlen; return run; }
    double x = (double)(r.next() >> 11) / 9007199254740992.0;
    Out o = x < p_fatal ? FATAL : x < p_fatal + p_soft ? SOFT : x < p_fatal + p_soft + p_starve ? STARVED : OK;
    if ((o == OK || o == STARVED) && r.below(8) == 0) { run = o; runlen = r.below(30); }
    return o;
  }
  void before(size_t b) {
    REQUIRE(!stop_seen, "block %zu is called after the stop request", b);
    REQUIRE(!dead[b], "block %zu is called again after its fatal error", b);
    REQUIRE(fatals == 0, "block %zu is called after a fatal error stopped the graph", b);
    if (must_sleep[b]) FAILF("block %zu starved %ld times in a row (threshold %zu) and is called again without a sleep", b, cons[b], cfg.adaptive_sleep_fail_threshold);
    if (cfg.adaptive_sleep) {
      double c = stats(b).current_adaptive_sleep_us.load();
      if (c != cur[b]) {
        REQUIRE(success_run[b] && c == cur[b] * 0.5, "back-off of block %zu changes from %g to %g us without a sleep and other than by halving on progress", b, cur[b], c);
        cur[b] = c; success_run[b] = false;
      }
      // end of a tick with progress is visible through the failure count and the decay
      bool more = last == (int)b && last_out == OK && burst[b] < (long)cfg.max_calls_per_tick;
      if (!more && ok[b]) { REQUIRE(stats(b).consecutive_fails.load() == (size_t)cons[b], "block %zu made progress but its failure count is %zu (expected %ld)", b, stats(b).consecutive_fails.load(), cons[b]); }
    }
  }
  Out call(size_t b) {
    before(b);
    ++calls[b];
    if (pool) {
      if (last == (int)b && last_out == OK && burst[b] < (long)cfg.max_calls_per_tick) ++burst[b];
      else { turns.push_back((int)b); burst[b] = 1; }
    } else if (last_out == OK && burst[b] < (long)cfg.max_calls_per_tick) ++burst[b]; else burst[b] = 1;
    Out o = next();
    if (o == OK) { ++ok[b]; cons[b] = 0; success_run[b] = true; }
    else ++bad[b];
    if (o == STARVED) { ++cons[b]; if (cfg.adaptive_sleep && cons[b] > (long)cfg.adaptive_sleep_fail_threshold) must_sleep[b] = true; }
    if (o == FATAL) { ++fatals; dead[b] = true; }
    last = (int)b; last_out = o;
    if (--budget <= 0 && o != FATAL) { stop(); stop_seen = true; }
    return o;
  }
  void sleep(size_t us) {
    ++sleeps;
    REQUIRE(cfg.adaptive_sleep, "adaptive sleep is off but the loop sleeps %zu us", us);
    REQUIRE(last >= 0 && last_out == STARVED, "sleep that no starved call explains");
    size_t b = (size_t)last;
    REQUIRE(cons[b] > (long)cfg.adaptive_sleep_fail_threshold, "block %zu sleeps after %ld starved calls in a row, threshold %zu", b, cons[b], cfg.adaptive_sleep_fail_threshold);
    REQUIRE((double)us <= cfg.adaptive_sleep_max_us, "sleep of %zu us exceeds the maximum of %g us", us, cfg.adaptive_sleep_max_us);
    double c = stats(b).current_adaptive_sleep_us.load(), p = cur[b];
    if (success_run[b]) p *= 0.5 ;
    REQUIRE(c <= cfg.adaptive_sleep_max_us && (size_t)c == us, "sleeps %zu us but records %g us", us, c);
    if (cur[b] > 0 && cfg.adaptive_sleep_multiplier >= 1.25) {
      double m = cfg.adaptive_sleep_multiplier;
      REQUIRE(c == cfg.adaptive_sleep_max_us || (c >= p * m * 0.94 && c <= cur[b] * m * 1.06), "back-off of block %zu goes from %g to %g us (multiplier %g, maximum %g)", b, cur[b], c, m, cfg.adaptive_sleep_max_us);
    } else if (cur[b] == 0) REQUIRE(c > 0 || cfg.adaptive_sleep_max_us <= 0, "back-off never starts");
    cur[b] = c; must_sleep[b] = false; success_run[b] = false;
  }
  void relax() { ++relaxes; if (pool && ++idle > 200 && !stop_seen) { bool any = false; for (auto c : calls) any |= c > 0; if (!any) { stop(); stop_seen = true; } } }
};
static void on_sleep(size_t us) { W->sleep(us); }
static void on_relax() { W->relax(); }
struct Block : cler::BlockBase {
  size_t idx; Rng e{7}; cler::Channel<float> in{64};
  Block(size_t i) : cler::BlockBase(("block number " + std::to_string(i)).c_str()), idx(i) {}
  Result<Empty, Error> procedure(cler::ChannelBase<float> *out) {
    REQUIRE(out == expect, "block %zu is called with another block's output", idx);
    switch (W->call(idx)) {
      case OK: return Empty{};
      case STARVED: { Error k[] = {Error::NotEnoughSamples, Error::NotEnoughSpace, Error::NotEnoughSpaceOrSamples}; return k[e.below(3)]; }
      case SOFT: { Error k[] = {Error::ProcedureError, Error::BadData, Error::Unknown}; return k[e.below(3)]; }
      default: { Error k[] = {Error::TERMINATE_FLOWGRAPH, Error::TERM_ProcedureError, Error::TERM_IOError, Error::TERM_EOFReached, Error::TERM_InvalidChannelIndex}; return k[e.below(5)]; }
    }
  }
  cler::ChannelBase<float> *expect = nullptr;
};
static void on_term(void *c) {
  ++W->callbacks; if (c != W->ctx) W->cb_ok = 0;
  REQUIRE(W->fatals == 1, "termination callback without a fatal error");
  REQUIRE(W->stopped(), "termination callback runs while the graph is not stopped");
}
template <size_t N, size_t... I> static auto make(std::vector<std::unique_ptr<Block>> &b, std::index_sequence<I...>) {
  return std::make_unique<cler::FlowGraph<Policy, std::conditional_t<true, cler::BlockRunner<Block, cler::ChannelBase<float>>, std::integral_constant<size_t, I>>...>>(cler::BlockRunner(b[I].get(), &b[(I + 1) % N]->in)...);
}
template <size_t N> static void graph(Rng &r, Watch &w) {
  std::vector<std::unique_ptr<Block>> b;
  for (size_t i = 0; i < N; ++i) b.push_back(std::make_unique<Block>(i));
  for (size_t i = 0; i < N; ++i) b[i]->expect = &b[(i + 1) % N]->in;
  auto g = make<N>(b, std::make_index_sequence<N>{});
  int ctx; w.ctx = &ctx;
  bool cb = r.below(4) != 0;
  if (cb) g->set_on_err_terminate_cb(on_term, &ctx);
  w.stop = [&] { g->stop(); }; w.stats = [&](size_t i) -> const cler::BlockExecutionStats & { return g->stats()[i]; }; w.stopped = [&] { return g->is_stopped(); };
  w.cfg = cler::FlowGraphConfig{};
  w.pool = N >= 3 && r.below(2);
  size_t workers = 2 + r.below(N + 2);
  w.cfg.scheduler = w.pool ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock;
  w.cfg.num_workers = workers;
  w.cfg.adaptive_sleep = want("sleep") ? r.below(5) != 0 : r.below(3) == 0;
  double mul[] = {1.25, 1.5, 2, 3.7}; w.cfg.adaptive_sleep_multiplier = mul[r.below(4)];
  double mx[] = {0.5, 1, 7.5, 100, 5000, 0}; w.cfg.adaptive_sleep_max_us = mx[r.below(6)];
  size_t th[] = {0, 1, 3, 10}; w.cfg.adaptive_sleep_fail_threshold = th[r.below(4)];
  w.cfg.collect_detailed_stats = r.below(2);
  size_t mc[] = {1, 2, 4, 7}; w.cfg.max_calls_per_tick = mc[r.below(4)];
  w.cfg.pin_workers = r.below(2);
  bool per_block = !w.pool || workers >= N;
  static char buf[200];
  snprintf(buf, 200, "N=%zu %s workers=%zu adaptive=%d mult=%g max=%g threshold=%zu calls=%zu stats=%d", N, w.pool ? "pool" : "per block", workers, w.cfg.adaptive_sleep, w.cfg.adaptive_sleep_multiplier, w.cfg.adaptive_sleep_max_us, w.cfg.adaptive_sleep_fail_threshold, w.cfg.max_calls_per_tick, w.cfg.collect_detailed_stats);
  g_what = buf;
  std::vector<int> owner(N, -1);
  if (per_block) w.pool = false;
  size_t ntask = 1; bool again = false;
  for (size_t t = 0; t < ntask; again = !again, t += again ? 0 : 1) {   // every task twice: a second run starts afresh
    w.reset(N);
    started.clear(); joined.clear(); pinned = -1;
    for (size_t i = 0; i < N; ++i) { w.cur[i] = g->stats()[i].current_adaptive_sleep_us.load(); w.cons[i] = (long)g->stats()[i].consecutive_fails.load(); }
    double a = (double)r.below(100) / 100, z = (double)r.below(100) / 100;
    w.p_ok = a; w.p_starve = (1 - a) * z; w.p_soft = (1 - a) * (1 - z) * .5; w.p_fatal = r.below(2) ? 0 : .02;
    g->run(w.cfg);
    ntask = started.size();
    REQUIRE(ntask > 0 && (per_block ? ntask == N : ntask <= workers), "%zu tasks for %zu workers and %zu blocks", ntask, workers, N);
    REQUIRE(!g->is_stopped(), "graph is stopped right after run");
    w.budget = 30 + (long)r.below(300) + (per_block ? 0 : 40 * (long)N);
    w.r = Rng(r.next());
    auto tasks = started;
    tasks[t]();
    bool any = false;
    for (size_t i = 0; i < N; ++i) any |= w.calls[i] > 0;
    REQUIRE(g->is_stopped(), "the task ends although nobody stopped the graph");
    REQUIRE(w.fatals == 0 || !cb || w.callbacks == 1, "%ld termination callbacks for one fatal error", w.callbacks);
    REQUIRE(w.cb_ok, "termination callback gets another context");
    g->stop();
    if (per_block) {
      for (size_t i = 0; i < N; ++i) if (w.calls[i]) { REQUIRE(owner[i] < 0 || owner[i] == (int)t, "block %zu runs on two tasks", i); owner[i] = (int)t; }
      int c = 0; for (size_t i = 0; i < N; ++i) c += w.calls[i] > 0;
      REQUIRE(c == 1, "a task of its own runs %d blocks", c);
    } else {
      if (w.cfg.pin_workers) REQUIRE(pinned == (int)t, "worker %zu is pinned to core %d", t, pinned);
      for (size_t i = 0; i < N; ++i) if (w.calls[i]) { REQUIRE(owner[i] < 0 || owner[i] == (int)t, "block %zu runs on workers %d and %zu", i, owner[i], t); owner[i] = (int)t; }
      // fair turns: the blocks of this worker come round in a fixed cycle
      std::vector<int> seen;
      for (int x : w.turns) { bool f = false; for (int y : seen) f |= x == y; if (!f) seen.push_back(x); else break; }
      for (size_t i = 0; i < w.turns.size(); ++i)
        REQUIRE(seen.size() == 1 || w.turns[i] == seen[i % seen.size()], "block %d gets the turn of block %d (turn %zu)", w.turns[i], seen[i % seen.size()], i);
      if (!w.fatals) for (size_t i = 0; i < N; ++i) if (w.calls[i] && w.turns.size() > seen.size() * 2) { bool f = false; for (int y : seen) f |= y == (int)i; REQUIRE(f, "block %zu is skipped in the first round", i); }
    }
    if (w.cfg.collect_detailed_stats) for (size_t i = 0; i < N; ++i) if (w.calls[i]) {
      auto &s = g->stats()[i];
      REQUIRE(s.successful_procedures == (size_t)w.ok[i] && s.failed_procedures == (size_t)w.bad[i], "block %zu: counted %zu successes and %zu failures of %ld and %ld", i, s.successful_procedures, s.failed_procedures, w.ok[i], w.bad[i]);
      REQUIRE(!strcmp(s.name.c_str(), b[i]->name()), "block %zu: statistics under the name '%s'", i, s.name.c_str());
    }
    std::vector<int> js = joined;
    for (size_t k = 0; k < ntask; ++k) { int c = 0; for (int j : js) c += j == (int)k; REQUIRE(c >= 1, "stop does not wait for task %zu", k); }
  }
}
// who owns what: every worker runs for a while with blocks that always succeed or starve
template <size_t N> static void partition(Rng &r, Watch &w) {
  for (size_t workers = 2; workers <= N + 2; ++workers) {
    std::vector<std::unique_ptr<Block>> b;
    for (size_t i = 0; i < N; ++i) b.push_back(std::make_unique<Block>(i));
    for (size_t i = 0; i < N; ++i) b[i]->expect = &b[(i + 1) % N]->in;
    auto g = make<N>(b, std::make_index_sequence<N>{});
    w.stop = [&] { g->stop(); }; w.stats = [&](size_t i) -> const cler::BlockExecutionStats & { return g->stats()[i]; }; w.stopped = [&] { return g->is_stopped(); };
    w.cfg = cler::FlowGraphConfig{}; w.pool = workers < N; w.cfg.scheduler = cler::SchedulerType::FixedThreadPool; w.cfg.num_workers = workers; w.cfg.max_calls_per_tick = 1 + r.below(3); w.cfg.collect_detailed_stats = r.below(2);
    static char buf[100]; snprintf(buf, 100, "partition N=%zu workers=%zu", N, workers); g_what = buf;
    std::vector<int> owner(N, -1);
    size_t nt = 1;
    for (size_t t = 0; t < nt; ++t) {
      w.reset(N); started.clear(); joined.clear(); w.p_ok = r.below(2) ? 1 : 0; w.p_starve = 1 - w.p_ok; w.p_soft = w.p_fatal = 0;
      g->run(w.cfg); nt = started.size(); w.budget = 12 * (long)N; w.r = Rng(r.next());
      if (workers >= N) REQUIRE(nt == N, "%zu tasks for %zu blocks and %zu workers", nt, N, workers);
      auto tasks = started; tasks[t](); g->stop();
      size_t got = 0;
      for (size_t i = 0; i < N; ++i) if (w.calls[i]) { REQUIRE(owner[i] < 0, "block %zu runs on workers %d and %zu", i, owner[i], t); owner[i] = (int)t; ++got; }
      size_t eff = nt;
      REQUIRE(got <= (N + eff - 1) / eff, "worker %zu of %zu has %zu of %zu blocks", t, eff, got, N);
    }
    for (size_t i = 0; i < N; ++i) { REQUIRE(owner[i] >= 0, "block %zu runs on no worker", i); if (i) REQUIRE(owner[i] == owner[i - 1] || owner[i] > owner[i - 1], "blocks of worker %d are not consecutive", owner[i]); }
  }
}
int main(int argc, char **argv) {
  Rng r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  double secs = argc > 2 ? atof(argv[2]) : 3;
  if (argc > 3) part = argv[3];
  watchdog(secs + 60);
  Watch w; W = &w; Clock c; long n = 0;
  auto drop = [&] { w.stop = nullptr; };
  do {
    if (want("pool")) { partition<2>(r, w); partition<3>(r, w); partition<5>(r, w); partition<8>(r, w); partition<9>(r, w); partition<13>(r, w); partition<31>(r, w); drop(); }
    for (int i = 0; i < 40; ++i) { graph<1>(r, w); graph<2>(r, w); graph<3>(r, w); graph<5>(r, w); graph<9>(r, w); graph<11>(r, w); ++n; }
  } while (c.s() < secs);
  printf("PASS rounds=%ld\n", n);
}
