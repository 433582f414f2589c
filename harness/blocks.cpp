// Verification harness: exposes the real stream blocks to the symbolic front end. It contains no copy of their logic.
#include <complex>
#include <stdexcept>
#include <cstring>
#include "add.hpp"
#include "gain.hpp"
#include "complex_demux.hpp"
#include "frequency_shift.hpp"
#include "fanout.hpp"
#include "throughput.hpp"
#include <thread>
#include "throttle.hpp"
#include "awgn.hpp"
#include "sinks/sink_null.hpp"
#include "sources/source_cw.hpp"
#include "sources/source_chirp.hpp"
#define EXP extern "C" __attribute__((used, noinline))
typedef std::complex<float> cf;
typedef std::complex<double> cd;
template <class R> static int code(R &&r) { return r.is_ok() ? -1 : (int)r.unwrap_err(); }
#define E(N) EXP int e__##N() { return (int)cler::Error::N; }
E(NotEnoughSamples) E(NotEnoughSpace) E(NotEnoughSpaceOrSamples)
#define CH(t) cler::ChannelBase<t>
#define BASE(B, ...) EXP size_t B##__sizeof() { return sizeof(__VA_ARGS__); } \
  typedef __VA_ARGS__ B##_t;
#define P1(B, t) EXP int B##__proc(B##_t *b, CH(t) *o) { return code(b->procedure(o)); }
#define P2(B, t) EXP int B##__proc(B##_t *b, CH(t) *o, CH(t) *p) { return code(b->procedure(o, p)); }
#define P3(B, t) EXP int B##__proc(B##_t *b, CH(t) *o, CH(t) *p, CH(t) *q) { return code(b->procedure(o, p, q)); }
#define P0(B) EXP int B##__proc(B##_t *b) { return code(b->procedure()); }
// gain
#define GAIN(B, t) BASE(B, GainBlock<t>) P1(B, t) EXP void B##__ctor(void *p, const t *g, size_t n) { new (p) B##_t("b", *g, n); } \
  EXP void B##__ref(t *r, const t *x, const t *g) { *r = *x * *g; }
GAIN(gain_f, float) GAIN(gain_i, int) GAIN(gain_c, cf)
// add
#define ADD(B, t) BASE(B, AddBlock<t>) P1(B, t) EXP void B##__ctor(void *p, size_t k, size_t n) { new (p) B##_t("b", k, n); } \
  EXP void B##__ref(t *r, const t *x, const t *y) { *r = *x + *y; }
ADD(add_f, float) ADD(add_i, int) ADD(add_c, cf)
// fan-out
#define FAN(B, t, K) BASE(B, FanoutBlock<t>) P##K(B, t) EXP void B##__ctor(void *p, size_t n) { new (p) B##_t("b", K, n); }
FAN(fan1_f, float, 1) FAN(fan2_f, float, 2) FAN(fan3_f, float, 3) FAN(fan2_d, cd, 2) FAN(fan2_b, unsigned char, 2)
// pass-through
#define THRU(B, t) BASE(B, ThroughputBlock<t>) P1(B, t) EXP void B##__ctor(void *p, size_t n) { new (p) B##_t("b", n); } \
  EXP size_t B##__passed(B##_t *b) { return b->samples_passed(); }
THRU(thru_f, float) THRU(thru_d, cd) THRU(thru_b, unsigned char)
#define THR(B, t) BASE(B, ThrottleBlock<t>) P1(B, t) EXP void B##__ctor(void *p, size_t sps, size_t n) { new (p) B##_t("b", sps, n); }
THR(throt_f, float) THR(throt_c, cf)
// splitter
BASE(demux, ComplexToMagPhaseBlock)
P2(demux, float)
EXP void demux__ctor(void *p, int mode, size_t n) { new (p) demux_t("b", mode ? ComplexToMagPhaseBlock::RealImag : ComplexToMagPhaseBlock::MagPhase, n); }
EXP void demux__ref(float *a, float *b, const cf *x, int mode) { *a = mode ? x->real() : std::abs(*x); *b = mode ? x->imag() : std::arg(*x); }
// others: conservation only
BASE(shift, FrequencyShiftBlock) P1(shift, cf) EXP void shift__ctor(void *p, double f, double r, size_t n) { new (p) shift_t("b", f, r, n); }
BASE(awgn_f, NoiseAWGNBlock<float>) P1(awgn_f, float) EXP void awgn_f__ctor(void *p, float s, size_t n) { new (p) awgn_f_t("b", s, n); }
BASE(awgn_c, NoiseAWGNBlock<cf>) P1(awgn_c, cf) EXP void awgn_c__ctor(void *p, float s, size_t n) { new (p) awgn_c_t("b", s, n); }
BASE(null_f, SinkNullBlock<float>) P0(null_f)
extern "C" size_t user__receive(cler::Channel<float> *c, void *ctx);
EXP void null_f__ctor(void *p, size_t n) { new (p) null_f_t("b", nullptr, nullptr, n); }
BASE(nullcb_f, SinkNullBlock<float>) P0(nullcb_f)
EXP void nullcb_f__ctor(void *p, void *ctx, size_t n) { new (p) nullcb_f_t("b", user__receive, ctx, n); }
#define CW(B, t) BASE(B, SourceCWBlock<t>) P1(B, t) EXP void B##__ctor(void *p, float a, float f, size_t sps) { new (p) B##_t("b", a, f, sps); }
CW(cw_f, float) CW(cw_c, cf)
#define CHIRP(B, t) BASE(B, SourceChirpBlock<t>) P1(B, t) EXP void B##__ctor(void *p, float a, float f, float g, size_t sps, float d) { new (p) B##_t("b", a, f, g, sps, d); }
CHIRP(chirp_f, float) CHIRP(chirp_c, cf)
