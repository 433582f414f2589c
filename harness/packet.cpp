// Verification harness: exposes the real packet pool and datagram blocks to the symbolic front end. It contains no copy of their logic.
#include <array>
#include <new>
#include "udp/source_udp.hpp"
#include "udp/sink_udp.hpp"
#include "../desktop_blocks/blob.cpp"
#include "../desktop_blocks/udp/shared.cpp"
#define EXP extern "C" __attribute__((used, noinline))
typedef std::array<uint8_t, 24> Arr;
typedef cler::Result<Blob, cler::Error> TR;
typedef UDPBlock::GenericDatagramSocket Sock;
template <class R> static int code(R &&r) { return r.is_ok() ? -1 : (int)r.unwrap_err(); }
#define E(N) EXP int e__##N() { return (int)cler::Error::N; }
E(NotEnoughSpace) E(NotEnoughSamples) E(NotEnoughSpaceOrSamples) E(TERM_IOError) E(ProcedureError)
#define OFF(N, T, F) EXP void *N(T *p) { return (void *)&p->F; }
// pool
EXP size_t slab__sizeof() { return sizeof(Slab); }
OFF(slab__q, Slab, _free_slots) OFF(slab__n, Slab, _num_slots) OFF(slab__max, Slab, _max_blob_size) OFF(slab__data, Slab, _data)
EXP void slab__ctor(void *p, size_t n, size_t m) { new (p) Slab(n, m); }
EXP int slab__take(Slab *s, Blob *o) { auto r = s->take_slot(); if (r.is_err()) return code(r); *o = r.unwrap(); return -1; }
EXP void slab__give(Slab *s, size_t i) { s->release_slot(i); }
EXP size_t slab__capacity(Slab *s) { return s->capacity(); }
EXP size_t slab__maxsize(Slab *s) { return s->max_blob_size(); }
EXP size_t slab__available(Slab *s) { return s->available_slots(); }
EXP size_t blob__sizeof() { return sizeof(Blob); }
OFF(blob__data, Blob, data) OFF(blob__len, Blob, len) OFF(blob__idx, Blob, slot_idx) OFF(blob__owner, Blob, owner_slab)
EXP void blob__release(Blob *b) { b->release(); }
EXP size_t tr__sizeof() { return sizeof(TR); }
EXP void tr__ok(TR *r, uint8_t *d, size_t n, size_t i, Slab *s) { new (r) TR(Blob{d, n, i, s}); }
EXP void tr__err(TR *r, int e) { new (r) TR((cler::Error)e); }
// receiving block
#define RX(B, T) typedef SourceUDPSocketBlock<T> B##_t; EXP size_t B##__sizeof() { return sizeof(B##_t); } \
  OFF(B##__sock, B##_t, _socket) OFF(B##__slab, B##_t, _slab) OFF(B##__validate, B##_t, _validate) OFF(B##__vctx, B##_t, _validate_context) OFF(B##__cb, B##_t, _callback) OFF(B##__cbctx, B##_t, _callback_context) \
  EXP int B##__proc(B##_t *b, cler::ChannelBase<T> *o) { return code(b->procedure(o)); }
RX(rx_b, Blob) RX(rx_a, Arr)
OFF(rx_b__spare, rx_b_t, _spare) OFF(rx_b__has, rx_b_t, _has_spare)
extern "C" bool user__validate_b(const Blob &, void *); extern "C" bool user__validate_a(const Arr &, void *);
extern "C" void user__seen_b(const Blob &, void *); extern "C" void user__seen_a(const Arr &, void *);
EXP void rx_b__set(rx_b_t *b, int v, int c, void *vc, void *cc) { b->_validate = v ? user__validate_b : nullptr; b->_validate_context = vc; b->_callback = c ? user__seen_b : nullptr; b->_callback_context = cc; }
EXP void rx_a__set(rx_a_t *b, int v, int c, void *vc, void *cc) { b->_validate = v ? user__validate_a : nullptr; b->_validate_context = vc; b->_callback = c ? user__seen_a : nullptr; b->_callback_context = cc; }
// sending block
#define TX(B, T) typedef SinkUDPSocketBlock<T> B##_t; EXP size_t B##__sizeof() { return sizeof(B##_t); } \
  OFF(B##__sock, B##_t, _socket) OFF(B##__in, B##_t, in) \
  EXP int B##__proc(B##_t *b) { return code(b->procedure()); }
TX(tx_b, Blob) TX(tx_a, Arr)
EXP void tx_b__set(tx_b_t *b, int c, void *cc) { b->_callback = c ? user__seen_b : nullptr; b->_callback_context = cc; }
EXP void tx_a__set(tx_a_t *b, int c, void *cc) { b->_callback = c ? user__seen_a : nullptr; b->_callback_context = cc; }
EXP void tx__new(void *p, void *q, const std::string &d) { new (p) tx_b_t("b", UDPBlock::SocketType::UNIX_DGRAM, d, nullptr, nullptr, 8); new (q) tx_a_t("a", UDPBlock::SocketType::UNIX_DGRAM, d, nullptr, nullptr, 8); }
// socket
EXP size_t sock__sizeof() { return sizeof(Sock); }
OFF(sock__fd, Sock, _sockfd) OFF(sock__type, Sock, _type) OFF(sock__in4, Sock, _dest_inet) OFF(sock__in6, Sock, _dest_inet6) OFF(sock__un, Sock, _dest_un)
#define K(N, V) EXP long k__##N() { return (long)(V); }
K(INET, UDPBlock::SocketType::INET_UDP) K(INET6, UDPBlock::SocketType::INET6_UDP) K(UNIX, UDPBlock::SocketType::UNIX_DGRAM)
K(s4, sizeof(sockaddr_in)) K(s6, sizeof(sockaddr_in6)) K(su, sizeof(sockaddr_un)) K(AGAIN, EAGAIN) K(WOULDBLOCK, EWOULDBLOCK) K(INTR, EINTR) K(MSGSIZE, EMSGSIZE) K(TRUNC, MSG_TRUNC)
EXP long sock__recv(Sock *s, uint8_t *p, size_t n, int f) { return s->recv(p, n, f); }
EXP long sock__send(Sock *s, const uint8_t *p, size_t n) { return s->send(p, n); }
OFF(msg__iov, struct msghdr, msg_iov) OFF(msg__iovlen, struct msghdr, msg_iovlen) OFF(msg__flags, struct msghdr, msg_flags) OFF(iov__base, struct iovec, iov_base) OFF(iov__len, struct iovec, iov_len)
