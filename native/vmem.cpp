// Replay of the doubly mapped region's contract with injected system-call failures.
// Every system call the code makes goes through the stand-ins below (linker --wrap): they track what is live, refuse (and
// report) anything that touches what this program does not own, and fail on demand.
#include "common.hpp"
#include <fcntl.h>
#include "cler.hpp"
#include <map>
#include <set>
#include <sys/wait.h>
#include <cstdarg>
static std::set<int> fds; static std::map<char *, size_t> maps; static std::set<FILE *> files; static int names;
static uint64_t fail_mask; static int calls; static bool tracing; static bool drop_huge;
static bool inject() { return tracing && calls < 64 && ((fail_mask >> calls++) & 1); }
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_close(int); int __real_ftruncate(int, off_t);
long __real_syscall(long, ...); int __real_shm_open(const char *, int, mode_t); int __real_shm_unlink(const char *); FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
int __real_memfd_create(const char *, unsigned);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
  if (!tracing) return __real_mmap(a, n, p, f, fd, o);
  if (drop_huge) f &= ~(MAP_HUGETLB | (63 << 26));
  if (f & MAP_FIXED) {
    bool in = false;
    for (auto &m : maps) if ((char *)a >= m.first && (char *)a + n <= m.first + m.second) in = true;
    REQUIRE(in, "mmap(MAP_FIXED) at an address range this region does not own");
    REQUIRE(fd < 0 || fds.count(fd), "mmap of a descriptor that is not open here");
  }
  if (inject()) { errno = ENOMEM; return MAP_FAILED; }
  void *r = __real_mmap(a, n, p, f, fd, o);
  if (r != MAP_FAILED && !(f & MAP_FIXED)) maps[(char *)r] = n;
  return r;
}
int __wrap_munmap(void *a, size_t n) {
  if (!tracing) return __real_munmap(a, n);
  auto it = maps.find((char *)a);
  REQUIRE(it != maps.end(), "munmap of an address range that is not mapped here (double release?)");
  REQUIRE(it->second == n, "munmap of %zu bytes of a mapping of %zu bytes", n, it->second);
  maps.erase(it);
  return __real_munmap(a, n);
}
int __wrap_close(int fd) {
  if (!tracing) return __real_close(fd);
  REQUIRE(fds.count(fd), "close(%d): not a descriptor opened here (double close?)", fd);
  fds.erase(fd);
  return __real_close(fd);
}
int __wrap_ftruncate(int fd, off_t n) {
  if (!tracing) return __real_ftruncate(fd, n);
  REQUIRE(fds.count(fd), "ftruncate of a descriptor that is not open here");
  if (inject()) { errno = ENOSPC; return -1; }
  return __real_ftruncate(fd, n);
}
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (tracing && n == __NR_memfd_create) {
    if (inject()) { errno = ENFILE; return -1; }
    long r = __real_syscall(n, a, b);
    if (r >= 0) fds.insert((int)r);
    return r;
  }
  return __real_syscall(n, a, b, c, d, e, f);
}
int __wrap_memfd_create(const char *n, unsigned f) {
  if (inject()) return -1;
  int r = __real_memfd_create(n, f);
  if (tracing && r >= 0) fds.insert(r);
  return r;
}
// no real shared-memory names: an anonymous file stands in, the name is only counted
int __wrap_shm_open(const char *, int, mode_t) {
  if (inject()) { errno = EEXIST; return -1; }
  int r = (int)__real_syscall(__NR_memfd_create, "standin", 1);
  if (tracing && r >= 0) { fds.insert(r); ++names; }
  return r;
}
int __wrap_shm_unlink(const char *) { if (tracing) { REQUIRE(names > 0, "shm_unlink of a name that was not created here"); --names; } return 0; }
FILE *__wrap_fopen(const char *p, const char *m) {
  if (inject()) return nullptr;
  FILE *f = __real_fopen(p, m);
  if (tracing && f) files.insert(f);
  return f;
}
int __wrap_fclose(FILE *f) { if (tracing) { REQUIRE(files.count(f), "fclose of a stream that is not open here"); files.erase(f); } return __real_fclose(f); }
}
typedef cler::vmem::DoublyMappedAllocation D;
static void clean(const char *w) {
  REQUIRE(fds.empty(), "%s: %zu descriptors stay open", w, fds.size());
  REQUIRE(maps.empty(), "%s: %zu mappings stay", w, maps.size());
  REQUIRE(files.empty(), "%s: a stream stays open", w);
  REQUIRE(names == 0, "%s: a shared-memory name stays", w);
}
static void view(D &d, size_t n, const char *w) {
  REQUIRE(d.valid(), "%s: not valid", w);
  size_t s = d.size(), pg = sysconf(_SC_PAGESIZE);
  REQUIRE(s >= n && s - n < pg, "%s: size %zu for a request of %zu", w, s, n);
  char *p = (char *)d.data();
  REQUIRE(p && d.second_mapping() == p + s, "%s: second view is not adjacent", w);
  auto it = maps.find(p);
  REQUIRE(it != maps.end() && it->second == 2 * s, "%s: mapping is not two views long", w);
  for (size_t i : {(size_t)0, s / 2, s - 1, n - 1, n / 3}) {
    p[i] = (char)(i * 7 + 1); REQUIRE(p[i + s] == (char)(i * 7 + 1), "%s: byte %zu differs between the views", w, i);
    p[i + s] = (char)(i + 9); REQUIRE(p[i] == (char)(i + 9), "%s: byte %zu differs between the views", w, i);
  }
}
static void empty(D &d, const char *w) { REQUIRE(!d.valid() && !d.data() && !d.second_mapping() && d.size() == 0, "%s: not empty", w); }
static void mk(D &d, size_t n, bool &ok, const char *w) {
  ok = d.create(n);
  if (ok) view(d, n, w); else empty(d, w);
}
static void history(Rng &r, uint64_t mask) {
  tracing = false;
  bool low = r.below(6) == 0;             // descriptor 0 is free: the next file gets it
  int keep = low ? fcntl(0, F_DUPFD, 100) : -1;
  if (low) ::close(0);
  fail_mask = mask; calls = 0; drop_huge = r.below(2); tracing = true;
  size_t pg = sysconf(_SC_PAGESIZE);
  auto sz = [&]() -> size_t { size_t k[] = {1, pg - 1, pg, pg + 1, 3 * pg, 2u << 20, (2u << 20) + 1, 1 + (size_t)r.below(1 << 18)}; return k[r.below(8)]; };
  {
    D a, b; bool oa, ob;
    size_t n = sz(), m = sz();
    empty(a, "new");
    mk(a, n, oa, "create");
    if (!oa) clean("failed create");
    switch (r.below(6)) {
      case 0: mk(a, m, oa, "create again"); n = m; if (!oa) clean("failed second create"); break;
      case 1: { D c(std::move(a)); empty(a, "moved from"); if (oa) view(c, n, "moved to"); else empty(c, "moved to"); mk(a, m, ob, "create after move"); if (oa) view(c, n, "still"); break; }
      case 2: mk(b, m, ob, "second region"); b = std::move(a); empty(a, "assigned from"); if (oa) view(b, n, "assigned to"); else empty(b, "assigned to"); REQUIRE(maps.size() == (size_t)oa, "the former region of an assignment stays mapped"); break;
      case 3: { D &self = a; a = std::move(self); if (oa) view(a, n, "self assigned"); else empty(a, "self assigned"); break; }
      case 4: mk(b, m, ob, "second region"); if (oa) view(a, n, "first region"); { D c(std::move(b)); b = std::move(c); if (ob) view(b, m, "moved there and back"); } break;
      default: break;
    }
  }
  clean("destroyed");
  tracing = false;
  if (keep >= 0) { dup2(keep, 0); ::close(keep); }
}
int main(int argc, char **argv) {
  Rng r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  double secs = argc > 2 ? atof(argv[2]) : 3;
  watchdog(secs + 100);
  (void)cler::platform::get_page_size();
  // the support probe caches its answer: one child per failure pattern
  for (int k = -1; k < 20; ++k) {
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      fail_mask = k < 0 ? 0 : k < 8 ? 1ull << k : k < 16 ? 3ull << (k - 8) : ~0ull << (k - 16); tracing = true; calls = 0; g_what = "support probe";
      bool s = cler::platform::supports_doubly_mapped_buffers();
      clean("support probe");
      REQUIRE(cler::platform::supports_doubly_mapped_buffers() == s, "support answer changes");
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("FAIL: support probe with failure pattern %d\n", k); return 1; }
  }
  Clock c; size_t n = 0;
  for (int rep = 0; rep < 8; ++rep) { history(r, 0); for (int i = 0; i < 20; ++i) { history(r, 1ull << i); for (int j = i + 1; j < 20; ++j) history(r, (1ull << i) | (1ull << j)); } }
  do { uint64_t m = 0; for (int i = 0; i < 24; ++i) if (r.below(5) == 0) m |= 1ull << i; history(r, r.below(4) ? m : r.next()); ++n; } while (c.s() < secs);
  printf("PASS histories=%zu\n", n);
}
