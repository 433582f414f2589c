// Verification harness: names for the doubly mapped region and for channel construction.  No logic of its own.
#include "cler.hpp"
#define EXP extern "C" __attribute__((used))
typedef cler::vmem::DoublyMappedAllocation D;
EXP size_t v__sizeof() { return sizeof(D); }
EXP void v__ctor(D *d) { new (d) D(); }
EXP void v__dtor(D *d) { d->~D(); }
EXP bool v__create(D *d, size_t n) { return d->create(n); }
EXP void v__move(D *d, D *o) { new (d) D(std::move(*o)); }
EXP void v__massign(D *d, D *o) { *d = std::move(*o); }
EXP void *v__data(const D *d) { return d->data(); }
EXP void *v__second_mapping(const D *d) { return d->second_mapping(); }
EXP size_t v__size(const D *d) { return d->size(); }
EXP bool v__valid(const D *d) { return d->valid(); }
EXP bool p__supports() { return cler::platform::supports_doubly_mapped_buffers(); }
EXP size_t p__page() { return cler::platform::get_page_size(); }

struct P12 { uint32_t a, b, c; };
extern "C" void nt_ctor(void *);
extern "C" void nt_dtor(void *);
struct NT { uint32_t x, y; NT() : x(0xC0FFEE) { nt_ctor(this); } ~NT() noexcept { nt_dtor(this); } NT(const NT &) = default; NT &operator=(const NT &) = default; };
#define Q(TAG, T, N)                                                                                   \
  typedef dro::SPSCQueue<T, N> Q_##TAG;                                                                \
  EXP size_t TAG##__sizeof() { return sizeof(Q_##TAG); }                                               \
  EXP size_t TAG##__esz() { return sizeof(T); }                                                        \
  EXP void TAG##__ctor(Q_##TAG *q, size_t n) { new (q) Q_##TAG(n); }                                   \
  EXP void TAG##__dtor(Q_##TAG *q) { q->~Q_##TAG(); }                                                  \
  EXP void *TAG##__at_w(Q_##TAG *q) { return &q->writer_.writeIndex_; }                                \
  EXP void *TAG##__at_rc(Q_##TAG *q) { return &q->writer_.readIndexCache_; }                           \
  EXP void *TAG##__at_r(Q_##TAG *q) { return &q->reader_.readIndex_; }                                 \
  EXP void *TAG##__at_wc(Q_##TAG *q) { return &q->reader_.writeIndexCache_; }                          \
  EXP void *TAG##__at_cc(Q_##TAG *q) { return &q->reader_.capacityCache_; }                            \
  EXP size_t TAG##__ring(Q_##TAG *q) { return q->capacity_; }                                          \
  EXP void *TAG##__slot0(Q_##TAG *q) { return q->get_buffer_ptr(); }                                   \
  EXP size_t TAG##__capacity(Q_##TAG *q) { return q->capacity(); }                                     \
  EXP size_t TAG##__size(Q_##TAG *q) { return q->size(); }                                             \
  EXP bool TAG##__empty(Q_##TAG *q) { return q->empty(); }                                             \
  EXP size_t TAG##__space(Q_##TAG *q) { return q->space(); }                                           \
  EXP bool TAG##__dm(Q_##TAG *q) { return q->is_doubly_mapped(); }
Q(hf, float, 0)
Q(hb, uint8_t, 0)
Q(hp, P12, 0)
Q(hn, NT, 0)
Q(kf, float, 7)
Q(kp, P12, 1)
Q(kn, NT, 3)
typedef cler::Channel<float, 0> CH;
typedef cler::Channel<float, 7> CK;
EXP size_t ch__sizeof() { return sizeof(CH); }
EXP void *ch__queue(CH *c) { return &c->_queue; }
EXP void ch__ctor(CH *c, size_t n) { new (c) CH(n); }
EXP void ch__dtor(CH *c) { c->~CH(); }
EXP size_t ck__sizeof() { return sizeof(CK); }
EXP void *ck__queue(CK *c) { return &c->_queue; }
EXP void ck__ctor(CK *c) { new (c) CK(); }
EXP void ck__dtor(CK *c) { c->~CK(); }
