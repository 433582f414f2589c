// Verification harness: instantiates the real queue and channel for several element types and gives each
// method a C name.  Contains no logic of its own.
#include "cler.hpp"
struct P12 { uint32_t a, b, c; };
#define EXP extern "C" __attribute__((used))

#define QUEUE(TAG, T, N)                                                                                        \
  typedef dro::SPSCQueue<T, N> Q_##TAG;                                                                         \
  EXP size_t TAG##__sizeof() { return sizeof(Q_##TAG); }                                                        \
  EXP void *TAG##__at_w(Q_##TAG *q) { return &q->writer_.writeIndex_; }                                         \
  EXP void *TAG##__at_rc(Q_##TAG *q) { return &q->writer_.readIndexCache_; }                                    \
  EXP void *TAG##__at_r(Q_##TAG *q) { return &q->reader_.readIndex_; }                                          \
  EXP void *TAG##__at_wc(Q_##TAG *q) { return &q->reader_.writeIndexCache_; }                                   \
  EXP void *TAG##__at_cc(Q_##TAG *q) { return &q->reader_.capacityCache_; }                                     \
  EXP void TAG##__push(Q_##TAG *q, const T *v) { q->push(*v); }                                                 \
  EXP void TAG##__push_rv(Q_##TAG *q, T *v) { q->push(std::move(*v)); }                                         \
  EXP bool TAG##__try_push(Q_##TAG *q, const T *v) { return q->try_push(*v); }                                  \
  EXP bool TAG##__try_push_rv(Q_##TAG *q, T *v) { return q->try_push(std::move(*v)); }                          \
  EXP void TAG##__pop(Q_##TAG *q, T *v) { q->pop(*v); }                                                         \
  EXP bool TAG##__try_pop(Q_##TAG *q, T *v) { return q->try_pop(*v); }                                          \
  EXP size_t TAG##__size(Q_##TAG *q) { return q->size(); }                                                      \
  EXP bool TAG##__empty(Q_##TAG *q) { return q->empty(); }                                                      \
  EXP size_t TAG##__capacity(Q_##TAG *q) { return q->capacity(); }                                              \
  EXP size_t TAG##__space(Q_##TAG *q) { return q->space(); }                                                    \
  EXP bool TAG##__is_doubly_mapped(Q_##TAG *q) { return q->is_doubly_mapped(); }                                \
  EXP size_t TAG##__writeN(Q_##TAG *q, const T *s, size_t n) { return q->writeN(s, n); }                        \
  EXP size_t TAG##__readN(Q_##TAG *q, T *d, size_t n) { return q->readN(d, n); }                                \
  EXP size_t TAG##__peek_write(Q_##TAG *q, T **p1, size_t *s1, T **p2, size_t *s2) { return q->peek_write(*p1, *s1, *p2, *s2); } \
  EXP size_t TAG##__peek_read(Q_##TAG *q, const T **p1, size_t *s1, const T **p2, size_t *s2) { return q->peek_read(*p1, *s1, *p2, *s2); } \
  EXP void TAG##__commit_read(Q_##TAG *q, size_t n) { q->commit_read(n); }                                      \
  EXP void TAG##__commit_write(Q_##TAG *q, size_t n) { q->commit_write(n); }                                    \
  EXP void TAG##__read_dbf(Q_##TAG *q, const T **p, size_t *n) { auto r = q->read_dbf(); *p = r.first; *n = r.second; } \
  EXP void TAG##__write_dbf(Q_##TAG *q, T **p, size_t *n) { auto r = q->write_dbf(); *p = r.first; *n = r.second; }

#define HEAPQ(TAG, T)                                                                                           \
  QUEUE(TAG, T, 0)                                                                                              \
  EXP void *TAG##__at_cap(Q_##TAG *q) { return (void *)&q->capacity_; }                                         \
  EXP void *TAG##__at_buf(Q_##TAG *q) { return &q->buffer_; }                                                   \
  EXP void *TAG##__at_dm(Q_##TAG *q) { return &q->is_doubly_mapped_; }
#define STACKQ(TAG, T, N)                                                                                       \
  QUEUE(TAG, T, N)                                                                                              \
  EXP void *TAG##__stackbuf(Q_##TAG *q) { return q->buffer_.data(); }                                           \
  EXP size_t TAG##__stackcells(Q_##TAG *q) { return q->buffer_.size(); }

HEAPQ(qf, float)
HEAPQ(qc, std::complex<float>)
HEAPQ(qb, uint8_t)
HEAPQ(qp, P12)
STACKQ(sf, float, 7)
STACKQ(sp, P12, 1)

#define CHAN(TAG, T, N)                                                                                         \
  typedef cler::Channel<T, N> C_##TAG;                                                                          \
  EXP void *TAG##__queue(C_##TAG *c) { return &c->_queue; }                                                     \
  EXP size_t TAG##__csizeof() { return sizeof(C_##TAG); }                                                       \
  EXP void TAG##__push(C_##TAG *c, const T *v) { c->C_##TAG::push(*v); }                                        \
  EXP bool TAG##__try_push(C_##TAG *c, const T *v) { return c->C_##TAG::try_push(*v); }                         \
  EXP void TAG##__pop(C_##TAG *c, T *v) { c->C_##TAG::pop(*v); }                                                \
  EXP bool TAG##__try_pop(C_##TAG *c, T *v) { return c->C_##TAG::try_pop(*v); }                                 \
  EXP size_t TAG##__size(C_##TAG *c) { return c->C_##TAG::size(); }                                             \
  EXP size_t TAG##__space(C_##TAG *c) { return c->C_##TAG::space(); }                                           \
  EXP size_t TAG##__writeN(C_##TAG *c, const T *s, size_t n) { return c->C_##TAG::writeN(s, n); }               \
  EXP size_t TAG##__readN(C_##TAG *c, T *d, size_t n) { return c->C_##TAG::readN(d, n); }                       \
  EXP size_t TAG##__peek_write(C_##TAG *c, T **p1, size_t *s1, T **p2, size_t *s2) { return c->C_##TAG::peek_write(*p1, *s1, *p2, *s2); } \
  EXP size_t TAG##__peek_read(C_##TAG *c, const T **p1, size_t *s1, const T **p2, size_t *s2) { return c->C_##TAG::peek_read(*p1, *s1, *p2, *s2); } \
  EXP void TAG##__commit_read(C_##TAG *c, size_t n) { c->C_##TAG::commit_read(n); }                             \
  EXP void TAG##__commit_write(C_##TAG *c, size_t n) { c->C_##TAG::commit_write(n); }                           \
  EXP void TAG##__read_dbf(C_##TAG *c, const T **p, size_t *n) { auto r = c->C_##TAG::read_dbf(); *p = r.first; *n = r.second; } \
  EXP void TAG##__write_dbf(C_##TAG *c, T **p, size_t *n) { auto r = c->C_##TAG::write_dbf(); *p = r.first; *n = r.second; }
CHAN(cf, float, 0)
