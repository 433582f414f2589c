// Verification harness: a flowgraph of three and one of nine blocks over a task policy and block bodies that are contracts.
// No logic of its own.
#include "cler.hpp"
#include "task_policies/cler_task_policy_base.hpp"
#define EXP extern "C" __attribute__((used))
extern "C" int blk_proc(void *blk, void *out);
extern "C" void tp_sleep(size_t);
extern "C" void tp_relax();
extern "C" void tp_pin(size_t);
extern "C" void tp_join(void *);
extern "C" void tp_begin();
extern "C" uint64_t tp_end();
struct Task { uint64_t id; };
struct Policy : cler::TaskPolicyBase<Policy> {
  using task_type = Task;
  template <class F> static Task create_task(F &&f) { tp_begin(); f(); Task t; t.id = tp_end(); return t; }
  static void join_task(Task &t) { tp_join(&t); }
  static void yield() { tp_relax(); }
  static void sleep_us(size_t us) { tp_sleep(us); }
  static void relax() { tp_relax(); }
  static void pin_to_core(size_t c) { tp_pin(c); }
};
struct B : cler::BlockBase {
  B() : cler::BlockBase("b") {}
  cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<float> *o) {
    int e = blk_proc(this, o);
    if (e < 0) return cler::Empty{};
    return static_cast<cler::Error>(e);
  }
};
typedef cler::BlockRunner<B, cler::ChannelBase<float>> BR;
typedef cler::FlowGraph<Policy, BR, BR, BR> G3;
typedef cler::FlowGraph<Policy, BR, BR, BR, BR, BR, BR, BR, BR, BR, BR> G10;
typedef cler::FlowGraphConfig Cfg;
#define ERR(n) EXP int e__##n() { return (int)cler::Error::n; }
ERR(NotEnoughSamples) ERR(NotEnoughSpace) ERR(NotEnoughSpaceOrSamples) ERR(TERMINATE_FLOWGRAPH) ERR(TERM_EOFReached) ERR(TERM_IOError) ERR(TERM_ProcedureError) ERR(TERM_InvalidChannelIndex)
ERR(OK) ERR(Unknown) ERR(ProcedureError) ERR(BadData)
EXP size_t f__sizeof_b() { return sizeof(B); }
EXP size_t f__sizeof_cfg() { return sizeof(Cfg); }
EXP void f__cfg_ctor(Cfg *c) { new (c) Cfg(); }
EXP void *f__at_c_scheduler(Cfg *c) { return &c->scheduler; }
EXP void *f__at_c_num_workers(Cfg *c) { return &c->num_workers; }
EXP void *f__at_c_adaptive(Cfg *c) { return &c->adaptive_sleep; }
EXP void *f__at_c_mult(Cfg *c) { return &c->adaptive_sleep_multiplier; }
EXP void *f__at_c_max(Cfg *c) { return &c->adaptive_sleep_max_us; }
EXP void *f__at_c_threshold(Cfg *c) { return &c->adaptive_sleep_fail_threshold; }
EXP void *f__at_c_detailed(Cfg *c) { return &c->collect_detailed_stats; }
EXP void *f__at_c_calls(Cfg *c) { return &c->max_calls_per_tick; }
EXP void *f__at_c_pin(Cfg *c) { return &c->pin_workers; }
#define GRAPH(T, G)                                                                                     \
  EXP size_t T##__sizeof() { return sizeof(G); }                                                        \
  EXP size_t T##__n() { return G::_N; }                                                                 \
  EXP void T##__exec(G *g, size_t i, const Cfg *c, bool *r) { *r = g->execute_block_at_index(i, *c); }  \
  EXP void T##__worker(G *g, size_t w, const Cfg *c) { g->run_fixed_thread_pool_worker(w, *c); }        \
  EXP void T##__run(G *g, const Cfg *c) { g->run(*c); }                                                 \
  EXP void T##__stop(G *g) { g->stop(); }                                                               \
  EXP bool T##__is_stopped(G *g) { return g->is_stopped(); }                                            \
  EXP void T##__dtor(G *g) { g->~G(); }                                                                 \
  EXP void T##__set_cb(G *g, void (*f)(void *), void *c) { g->set_on_err_terminate_cb(f, c); }          \
  EXP void *T##__at_stop(G *g) { return &g->_stop_flag; }                                               \
  EXP void *T##__at_config(G *g) { return &g->_config; }                                                \
  EXP void *T##__at_cb(G *g) { return &g->_on_err_terminate_cb; }                                       \
  EXP void *T##__at_ctx(G *g) { return &g->_on_err_terminate_context; }                                 \
  EXP void *T##__at_active(G *g) { return &g->_active_task_count; }                                     \
  EXP void *T##__at_tasks(G *g) { return &g->_tasks; }                                                  \
  EXP void *T##__at_stats(G *g) { return &g->_stats; }                                                  \
  EXP void *T##__at_sched(G *g) { return &g->fixed_thread_pool_scheduler; }                             \
  EXP void *T##__at_queues(G *g) { return &g->fixed_thread_pool_scheduler.queues; }                     \
  EXP void *T##__at_q_blocks(G *g) { return &g->fixed_thread_pool_scheduler.queues[0].blocks; }         \
  EXP void *T##__at_q_count(G *g) { return &g->fixed_thread_pool_scheduler.queues[0].count; }           \
  EXP void *T##__at_q_current(G *g) { return &g->fixed_thread_pool_scheduler.queues[0].current; }       \
  EXP void *T##__at_q1(G *g) { return &g->fixed_thread_pool_scheduler.queues[1]; }                      \
  EXP size_t T##__nq() { return sizeof(G::fixed_thread_pool_scheduler.queues) / sizeof(G::fixed_thread_pool_scheduler.queues[0]); } \
  EXP void *T##__at_owner(G *g) { return &g->fixed_thread_pool_scheduler.block_owner; }                 \
  EXP void *T##__at_s_blocks(G *g) { return &g->fixed_thread_pool_scheduler.num_blocks; }               \
  EXP void *T##__at_s_workers(G *g) { return &g->fixed_thread_pool_scheduler.num_workers; }             \
  EXP void T##__init(G *g, size_t b, size_t w) { g->fixed_thread_pool_scheduler.initialize(b, w); }     \
  EXP bool T##__next(G *g, size_t w, size_t *o) { return g->fixed_thread_pool_scheduler.get_next_block(w, *o); } \
  EXP bool T##__owns(G *g, size_t w, size_t b) { return g->fixed_thread_pool_scheduler.is_block_owner(w, b); }
GRAPH(g3, G3)
GRAPH(g10, G10)
#define TPB(T, G, I) EXP void T##__tpb##I(G *g, const Cfg *c) { g->template run_block_at_index_thread_per_block<I>(*c); } \
  EXP void *T##__at_block##I(G *g) { return &std::get<I>(g->_runners).block; } \
  EXP void *T##__at_out##I(G *g) { return &std::get<0>(std::get<I>(g->_runners).outputs); } \
  EXP void *T##__at_stat##I(G *g) { return &g->_stats[I]; }
TPB(g3, G3, 0) TPB(g3, G3, 1) TPB(g3, G3, 2)
EXP void *g10__at_block0(G10 *g) { return &std::get<0>(g->_runners).block; }
EXP void *g10__at_block1(G10 *g) { return &std::get<1>(g->_runners).block; }
EXP void *g10__at_out0(G10 *g) { return &std::get<0>(std::get<0>(g->_runners).outputs); }
typedef cler::BlockExecutionStats St;
EXP size_t s__sizeof() { return sizeof(St); }
EXP void *s__at_ok(St *s) { return &s->successful_procedures; }
EXP void *s__at_bad(St *s) { return &s->failed_procedures; }
EXP void *s__at_cur(St *s) { return &s->current_adaptive_sleep_us; }
EXP void *s__at_fails(St *s) { return &s->consecutive_fails; }
EXP void *s__at_name(St *s) { return &s->name; }
EXP size_t s__name_size() { return sizeof(((St *)0)->name); }
// a scheduler large enough for every graph size
typedef G3::FixedThreadPoolScheduler<248, cler::DEFAULT_MAX_WORKERS> Sched;
typedef Sched SchedG;
struct SG { Sched fixed_thread_pool_scheduler; };
EXP size_t sg__sizeof() { return sizeof(SG); }
EXP size_t sg__maxb() { return 248; }
EXP size_t sg__nq() { return cler::DEFAULT_MAX_WORKERS; }
EXP void *sg__at_q_blocks(SG *g) { return &g->fixed_thread_pool_scheduler.queues[0].blocks; }
EXP void *sg__at_q_count(SG *g) { return &g->fixed_thread_pool_scheduler.queues[0].count; }
EXP void *sg__at_q_current(SG *g) { return &g->fixed_thread_pool_scheduler.queues[0].current; }
EXP void *sg__at_q1(SG *g) { return &g->fixed_thread_pool_scheduler.queues[1]; }
EXP void *sg__at_owner(SG *g) { return &g->fixed_thread_pool_scheduler.block_owner; }
EXP void *sg__at_s_blocks(SG *g) { return &g->fixed_thread_pool_scheduler.num_blocks; }
EXP void sg__init(SG *g, size_t b, size_t w) { g->fixed_thread_pool_scheduler.initialize(b, w); }
EXP bool sg__next(SG *g, size_t w, size_t *o) { return g->fixed_thread_pool_scheduler.get_next_block(w, *o); }
EXP bool sg__owns(SG *g, size_t w, size_t b) { return g->fixed_thread_pool_scheduler.is_block_owner(w, b); }
