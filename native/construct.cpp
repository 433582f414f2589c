// Replay of the construction contract: storage is tracked through the allocator and (linker --wrap) the mapping calls.
#include "common.hpp"
#include "cler.hpp"
#include <map>
#include <set>
#include <vector>
#include <new>
#include <complex>
#include <sys/wait.h>
#include <cstdarg>
static bool tracing; static uint64_t fail_mask; static int calls;
static bool inject() { return tracing && calls < 64 && ((fail_mask >> calls++) & 1); }
struct Blk { char *p; size_t n; bool live; };
static Blk blks[4096]; static int nblk;
static int fds[64], nfd; static std::pair<char *, size_t> maps[64]; static int nmap;
static const size_t RZ = 256;
static void *take(size_t n, size_t al) {
  if (tracing && (n > (1ull << 31) || inject())) throw std::bad_alloc();
  if (n > (1ull << 40)) throw std::bad_alloc();
  if (al < 64) al = 64;
  char *raw = (char *)aligned_alloc(al, (n + 2 * RZ + 2 * al) / al * al + al);
  if (!raw) throw std::bad_alloc();
  size_t off = (RZ + al - 1) / al * al;
  ((size_t *)raw)[0] = off;
  char *p = raw + off;
  ((size_t *)(p - 32))[0] = off; ((size_t *)(p - 32))[1] = n; ((size_t *)(p - 32))[2] = 0xFEEDFACEu;
  memset(p + n, 0xA5, 64); memset(p - 40, 0xA5, 8);
  if (tracing) { REQUIRE(nblk < 4096, "too many blocks"); blks[nblk++] = {p, n, true}; }
  return p;
}
static void give(void *q, size_t n, bool sized) {
  if (!q) return;
  char *p = (char *)q;
  size_t *h = (size_t *)(p - 32);
  if (tracing) {
    bool f = false;
    for (int i = nblk; i-- > 0;) if (blks[i].p == p && blks[i].live) { blks[i].live = false; f = true; break; }
    if (f) {
      REQUIRE(!sized || n == h[1], "storage of %zu bytes released as %zu bytes", h[1], n);
      for (int i = 0; i < 64; ++i) REQUIRE((unsigned char)p[h[1] + i] == 0xA5, "write past the end of the storage");
      for (int i = 1; i <= 8; ++i) REQUIRE((unsigned char)p[-32 - i] == 0xA5, "write before the storage");
    } else for (int i = 0; i < nblk; ++i) REQUIRE(blks[i].p != p, "storage released twice");
  }
  REQUIRE(h[2] == 0xFEEDFACEu, "released pointer is not the start of a block");
  h[2] = 0;
  free(p - h[0]);
}
void *operator new(size_t n) { return take(n, 16); }
void *operator new[](size_t n) { return take(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void *p) noexcept { give(p, 0, false); }
void operator delete[](void *p) noexcept { give(p, 0, false); }
void operator delete(void *p, size_t n) noexcept { give(p, n, true); }
void operator delete[](void *p, size_t n) noexcept { give(p, n, true); }
void operator delete(void *p, std::align_val_t) noexcept { give(p, 0, false); }
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_close(int); int __real_ftruncate(int, off_t); long __real_syscall(long, ...);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
  if (!tracing) return __real_mmap(a, n, p, f, fd, o);
  f &= ~(MAP_HUGETLB | (63 << 26));
  if (inject() || n > (1ull << 34)) { errno = ENOMEM; return MAP_FAILED; }
  void *r = __real_mmap(a, n, p, f, fd, o);
  if (r != MAP_FAILED && !(f & MAP_FIXED)) { REQUIRE(nmap < 64, "mappings pile up"); maps[nmap++] = {(char *)r, n}; }
  return r;
}
int __wrap_munmap(void *a, size_t n) {
  if (!tracing) return __real_munmap(a, n);
  for (int i = 0; i < nmap; ++i) if (maps[i].first == a) { REQUIRE(maps[i].second == n, "munmap of %zu bytes of a mapping of %zu", n, maps[i].second); maps[i] = maps[--nmap]; return __real_munmap(a, n); }
  FAILF("munmap of something that is not mapped here");
}
int __wrap_close(int fd) {
  if (!tracing) return __real_close(fd);
  for (int i = 0; i < nfd; ++i) if (fds[i] == fd) { fds[i] = fds[--nfd]; return __real_close(fd); }
  FAILF("close of a descriptor that is not open here");
}
int __wrap_ftruncate(int fd, off_t n) { if (inject() || n > (1ll << 34)) { errno = ENOSPC; return -1; } return __real_ftruncate(fd, n); }
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (tracing && n == __NR_memfd_create) {
    if (inject()) { errno = ENFILE; return -1; }
    long r = __real_syscall(n, a, b);
    if (r >= 0) { REQUIRE(nfd < 64, "descriptors pile up"); fds[nfd++] = (int)r; }
    return r;
  }
  return __real_syscall(n, a, b, c, d, e, f);
}
int __wrap_shm_open(const char *, int, mode_t) { errno = EACCES; return -1; }
int __wrap_shm_unlink(const char *) { return 0; }
}
static void clean(const char *w) {
  for (int i = 0; i < nblk; ++i) REQUIRE(!blks[i].live, "%s: storage of %zu bytes is never released", w, blks[i].n);
  nblk = 0;
  REQUIRE(!nmap && !nfd, "%s: %d mappings and %d descriptors stay", w, nmap, nfd);
}
// element types
template <size_t S> struct Raw { unsigned char b[S]; };
static size_t live_count; static std::vector<bool> *seen;
static long born, died;
struct NT {
  uint32_t magic, val;
  NT() : magic(0x600DC0DE), val(0) { ++born; }
  NT(uint32_t v) : magic(0x600DC0DE), val(v) { ++born; }
  NT(const NT &o) : magic(0x600DC0DE), val(o.val) { ++born; }
  NT &operator=(const NT &o) { REQUIRE(magic == 0x600DC0DE, "assignment to an element that was never constructed"); val = o.val; return *this; }
  ~NT() noexcept { REQUIRE(magic == 0x600DC0DE, "destruction of an element that is not constructed"); magic = 0; ++died; }
};
struct Big : NT { unsigned char pad[992]; Big() : pad{} {} Big(uint32_t v) : NT(v), pad{} {} };
template <class T> static T mk(uint32_t v) { T t; memset(&t, 0, sizeof t); memcpy(&t, &v, sizeof(T) < 4 ? sizeof(T) : 4); return t; }
template <> NT mk<NT>(uint32_t v) { return NT(v); }
template <> Big mk<Big>(uint32_t v) { return Big(v); }
template <class T> static bool same(const T &t, uint32_t v) { uint32_t x = 0; size_t k = sizeof(T) < 4 ? sizeof(T) : 4; memcpy(&x, &t, k); return x == (k == 4 ? v : v & ((1u << 8 * k) - 1)); }
template <> bool same<NT>(const NT &t, uint32_t v) { return t.val == v; }
template <> bool same<Big>(const Big &t, uint32_t v) { return t.val == v; }
template <class T, size_t N> static void use(dro::SPSCQueue<T, N> &q, size_t n, bool support, const char *w) {
  size_t cap = q.capacity(), ring = cap + 1;
  bool dm = q.is_doubly_mapped();
  REQUIRE(cap >= n, "%s: capacity %zu for a request of %zu", w, cap, n);
  if (N || !support || (n + 1) * sizeof(T) < 4096) REQUIRE(cap == n, "%s: capacity %zu for a request of %zu (exact expected)", w, cap, n);
  REQUIRE(q.size() == 0 && q.empty() && q.space() == cap, "%s: not empty when new", w);
  REQUIRE(!dm || !N, "%s: fixed storage claims to be doubly mapped", w);
  T *p1, *p2; size_t n1, n2;
  size_t tot = q.peek_write(p1, n1, p2, n2);
  REQUIRE(tot == cap && n1 + n2 == cap, "%s: free slots of a new channel are %zu of %zu", w, tot, cap);
  T *base = p1;
  if (dm) {
    REQUIRE(nmap == 1 && (char *)base == maps[0].first, "%s: slot 0 is not the start of the mapping", w);
    REQUIRE(maps[0].second == 2 * ring * sizeof(T), "%s: mapping of %zu bytes for a ring of %zu bytes", w, maps[0].second, ring * sizeof(T));
    auto v = q.write_dbf();
    REQUIRE(v.first == base && v.second == cap, "%s: contiguous view of a new channel", w);
    for (size_t i : {(size_t)0, ring / 2, ring - 1}) {
      volatile unsigned char *a = (unsigned char *)(base + i), *b = (unsigned char *)(base + i + ring);
      size_t o = sizeof(T) - 1; unsigned char old = a[o];
      if (!std::is_trivially_constructible_v<T>) continue;
      a[o] = 0x5A; REQUIRE(b[o] == 0x5A, "%s: slot %zu and its mirror differ", w, i);
      b[o] = 0xC3; REQUIRE(a[o] == 0xC3, "%s: slot %zu and its mirror differ", w, i); a[o] = old;
    }
  } else {
    REQUIRE(nmap == 0 && nfd == 0, "%s: ordinary storage keeps a mapping", w);
    if (!N) {
      bool in = false;
      for (int i = 0; i < nblk; ++i) if (blks[i].live && (char *)base >= blks[i].p && (char *)(base + ring) <= blks[i].p + blks[i].n) in = true;
      REQUIRE(in, "%s: the storage does not cover every slot", w);
    } else REQUIRE((char *)base >= (char *)&q && (char *)(base + ring) <= (char *)(&q + 1), "%s: fixed storage lies outside the channel", w);
  }
  if (cap > 300000) return;
  for (int round = 0; round < 3; ++round) {
    for (size_t i = 0; i < cap; ++i) REQUIRE(q.try_push(mk<T>((uint32_t)(i * 2654435761u + round))), "%s: refuses element %zu of %zu", w, i, cap);
    REQUIRE(!q.try_push(mk<T>(1)), "%s: stores more than its capacity", w);
    REQUIRE(q.size() == cap && q.space() == 0, "%s: full but size %zu of %zu", w, q.size(), cap);
    for (size_t i = 0; i < cap; ++i) { T t = mk<T>(0); REQUIRE(q.try_pop(t) && same(t, (uint32_t)(i * 2654435761u + round)), "%s: element %zu of %zu lost or altered", w, i, cap); }
    T t = mk<T>(0);
    REQUIRE(!q.try_pop(t), "%s: gives an element it never got", w);
    if (q.try_push(mk<T>(7))) (void)q.try_pop(t);   // rotate
  }
}
template <class T> static void heap(Rng &r, size_t n, bool support, uint64_t mask, const char *w) {
  static char buf[100]; snprintf(buf, 100, "%s n=%zu mask=%llx dm=%d", w, n, (unsigned long long)mask, support); g_what = buf;
  clean("before"); born = died = 0; fail_mask = mask; calls = 0; tracing = true;
  try {
    dro::SPSCQueue<T> q(n);
    fail_mask = 0;
    use<T, 0>(q, n, support, w);
  } catch (const std::exception &) { REQUIRE(mask || n > (1ull << 31) / sizeof(T) / 2, "%s: construction for %zu elements throws", w, n); }
  tracing = true;
  clean(buf);
  REQUIRE(born == died, "%s: %ld elements constructed, %ld destroyed", w, born, died);
  tracing = false;
}
template <class T, size_t N> static void fixed(bool support, const char *w) {
  g_what = w; clean("before"); born = died = 0; fail_mask = 0; calls = 0; tracing = true;
  { auto *s = new std::aligned_storage_t<sizeof(dro::SPSCQueue<T, N>) + 128, 128>; memset(s, 0xEE, sizeof *s);
    auto *q = new (s) dro::SPSCQueue<T, N>(); use<T, N>(*q, N, support, w); q->~SPSCQueue();
    for (size_t i = sizeof(*q); i < sizeof *s; ++i) REQUIRE(((unsigned char *)s)[i] == 0xEE, "%s: write behind the channel", w);
    delete s; }
  clean(w); REQUIRE(born == died, "%s: %ld elements constructed, %ld destroyed", w, born, died); tracing = false;
}
template <class T> static void sweep(Rng &r, bool support, const char *w) {
  size_t e = sizeof(T), pg = 4096;
  std::vector<size_t> ns;
  for (size_t k : {(size_t)1, (size_t)2, (size_t)3, (size_t)100}) ns.push_back(k);
  for (size_t b : {pg, 2 * pg, 3 * pg, 16 * pg}) for (long d = -3; d <= 3; ++d) { long v = (long)(b / e) + d; if (v >= 1) ns.push_back((size_t)v); }
  if (e <= 12) for (size_t b : {(size_t)2 << 20, ((size_t)2 << 20) + pg, (size_t)3 << 20}) for (long d = -2; d <= 1; ++d) ns.push_back(b / e + d);
  for (int i = 0; i < 6; ++i) ns.push_back(1 + r.below(20000 / (e < 64 ? 1 : e / 32)));
  for (size_t n : ns) { heap<T>(r, n, support, 0, w); if ((n + 1) * e >= pg || r.below(4) == 0) { heap<T>(r, n, support, 1ull << r.below(10), w); heap<T>(r, n, support, r.next() & r.next(), w); heap<T>(r, n, support, ~0ull, w); } }
  size_t M = ~(size_t)0;
  for (size_t n : {M, M - 1, M - 2, M - 63, M - 64, M - 129, M / 2, M / 2 + 1, M / e, M / e - 1, M / e + 1, M / e - 2, M / e - 130, M / 2 / e, M / 2 / e - 1, M / 2 / e + 1, M / e - pg, (M - pg) / e, ((size_t)1 << 63) / e, ((size_t)1 << 63) / e - 1, (size_t)1 << 60, (size_t)1 << 52})
    if (n > (1ull << 31)) { bool threw = false; clean("before"); fail_mask = 0; calls = 0; tracing = true; static char b2[80]; snprintf(b2, 80, "%s impossible n=%zu", w, n); g_what = b2;
      try { dro::SPSCQueue<T> q(n); } catch (const std::exception &) { threw = true; }
      REQUIRE(threw, "%s: capacity %zu is accepted", w, n); clean(b2); tracing = false; }
}
static void all(uint64_t seed, bool support, double secs) {
  Rng r(seed); Clock c;
  do {
    sweep<float>(r, support, "float"); sweep<uint8_t>(r, support, "byte"); sweep<Raw<12>>(r, support, "12 bytes"); sweep<std::complex<double>>(r, support, "16 bytes");
    sweep<Raw<3>>(r, support, "3 bytes"); sweep<Raw<24>>(r, support, "24 bytes"); sweep<Raw<5000>>(r, support, "5000 bytes"); sweep<NT>(r, support, "constructed"); sweep<Big>(r, support, "constructed, large");
    fixed<float, 1>(support, "fixed 1"); fixed<float, 7>(support, "fixed 7"); fixed<uint8_t, 255>(support, "fixed bytes"); fixed<Raw<12>, 1023>(support, "fixed 12 bytes"); fixed<NT, 3>(support, "fixed constructed"); fixed<Big, 5>(support, "fixed large"); fixed<Raw<3>, 2000>(support, "fixed 3 bytes");
    // the channel wrappers
    g_what = "channels"; clean("before"); fail_mask = 0; calls = 0; tracing = true;
    { cler::Channel<float> a(100); cler::Channel<float, 7> b; cler::Channel<float> d(5000); REQUIRE(a.space() == 100 && a.size() == 0 && b.space() == 7 && b.size() == 0 && d.space() >= 5000, "channel capacities"); }
    clean("channels"); tracing = false;
  } while (c.s() < secs);
}
int main(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  double secs = argc > 2 ? atof(argv[2]) : 3;
  watchdog(secs + 100);
  (void)cler::platform::get_page_size();
  fflush(stdout);
  pid_t p = fork();
  if (!p) {   // a system where double mapping is not supported
    tracing = true; fail_mask = ~0ull; calls = 0;
    REQUIRE(!cler::platform::supports_doubly_mapped_buffers(), "double mapping is reported although every system call fails");
    tracing = false; all(seed + 1, false, secs / 3); fflush(stdout); _exit(0);
  }
  bool s = cler::platform::supports_doubly_mapped_buffers();
  all(seed, s, secs);
  int st; waitpid(p, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("FAIL: without support for double mapping\n"); return 1; }
  printf("PASS support=%d\n", s);
}
