// Simulated heap (fixed address arena, garbage-filled, shadow-checked) and the
// runtime behind -fsanitize=thread instrumentation: every access of the code
// under test to shared memory is a scheduling point and is checked here.
#include "internal.h"
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <algorithm>

static u8 *const ARENA = (u8 *)0x100000000000ull; static const size_t ASZ = 4ull << 30;
static u8 *const SHADOW = (u8 *)0x180000000000ull; static const size_t SSZ = ASZ / 8;
static size_t brk_; static u64 hrng; static u64 alloc_no; static size_t live_bytes, peak_bytes;
struct Blk { size_t off, len; u64 no; bool live; int fiber; };
static vector<Blk> blks; // ordered by off
static const u8 SH_RZ = 0xfa, SH_FREED = 0xfd;

void heap_global_init() {
  void *p = mmap(ARENA, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  void *q = mmap(SHADOW, SSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED || q == MAP_FAILED) { perror("mmap arena"); _exit(3); }
}
void heap_run_init(u64 seed) { brk_ = 64; hrng = seed * 0x9e3779b97f4a7c15ull | 1; blks.clear(); blks.reserve(1024); live_bytes = peak_bytes = 0; alloc_no = 0; }
bool in_arena(const void *p) { return (u64)p - (u64)ARENA < ASZ; }
static Blk *find_blk(size_t off) {
  auto it = std::upper_bound(blks.begin(), blks.end(), off, [](size_t o, const Blk &b) { return o < b.off; });
  if (it == blks.begin()) return nullptr;
  return &*--it;
}
// the shadow of fresh arena is 0 ("addressable"); everything at or above brk_ is out of bounds
static void set_shadow(size_t off, size_t len) { // off 16-aligned
  size_t full = len / 8; memset(SHADOW + off / 8, 0, full); size_t pos = off / 8 + full;
  if (len % 8) SHADOW[pos++] = len % 8;
  size_t end = (off + len + 16 + 15) / 16 * 2 + 2; // at least one redzone
  while (pos < end) SHADOW[pos++] = SH_RZ;
}
void *sim_malloc(size_t n) {
  if (n > (512u << 20)) { fatal_violation("*", "huge-allocation", "allocation of %zu bytes requested", n); }
  size_t off = (brk_ + 15) & ~(size_t)15; size_t tot = (n + 16 + 15) / 16 * 16 + 16;
  if (off + tot + 4096 > ASZ) discard_run("arena exhausted");
  for (size_t i = (brk_ + 7) / 8; i < off / 8; i++) SHADOW[i] = SH_RZ;
  set_shadow(off, n); brk_ = off + tot;
  u8 *p = ARENA + off;
  size_t g = n < 65536 ? n : 65536; // garbage fill: uninitialised reads become visible
  size_t i = 0;
  for (; i + 8 <= g; i += 8) { hrng ^= hrng << 13; hrng ^= hrng >> 7; hrng ^= hrng << 17; u64 v = hrng | 0x0101010101010101ull; memcpy(p + i, &v, 8); }
  for (; i < g; i++) p[i] = 0xa7;
  blks.push_back({off, n, ++alloc_no, true, fiber_self()}); live_bytes += n; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void *p = sim_malloc(n); memset(p, 0, n); return p;
}
void sim_free(void *p) {
  if (!p) return;
  if (!in_arena(p)) fatal_violation("*", "bad-free", "free of a pointer that is not from the heap");
  size_t off = (u8 *)p - ARENA; Blk *b = find_blk(off);
  if (!b || b->off != off) fatal_violation("*", "bad-free", "free of a pointer that is not the start of a block");
  if (!b->live) fatal_violation("*", "double-free", "block of %zu bytes freed twice", b->len);
  b->live = false; live_bytes -= b->len;
  memset(SHADOW + off / 8, SH_FREED, (b->len + 7) / 8);
  size_t g = b->len < 65536 ? b->len : 65536; memset(p, 0xdf, g);
}
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  if (!in_arena(p)) fatal_violation("*", "bad-free", "realloc of a pointer that is not from the heap");
  size_t off = (u8 *)p - ARENA; Blk *b = find_blk(off);
  if (!b || b->off != off || !b->live) fatal_violation("*", "bad-free", "realloc of an invalid or freed block");
  size_t ol = b->len; void *q = sim_malloc(n); memcpy(q, p, ol < n ? ol : n); sim_free(p); return q;
}
static inline bool bad(u64 a, size_t n) {
  size_t off = a - (u64)ARENA;
  if (off + n > brk_) return true;
  size_t last = off + n - 1;
  for (size_t g = off / 8; g <= last / 8; g++) {
    u8 s = SHADOW[g];
    if (!s) continue;
    if (s >= 8) return true;
    size_t e = g == last / 8 ? last % 8 : 7;
    if (e >= s) return true;
  }
  return false;
}
[[noreturn]] static void report_bad(u64 a, size_t n, bool w, const char *what) {
  size_t off = a - (u64)ARENA; Blk *b = find_blk(off);
  const char *cls = b && !b->live && off < b->off + b->len ? "use-after-free" : "heap-overflow";
  fatal_violation("*", cls, "%s of %zu bytes %s (block of %zu bytes, offset %lld) in %s", w ? "write" : "read", n, cls[0] == 'u' ? "after free" : "out of bounds", b ? b->len : 0, b ? (long long)(off - b->off) : -1ll, what);
}
void heap_check(const void *p, size_t n, bool w, const char *what) {
  if (!n) return;
  u64 a = (u64)p;
  if (a < 65536) fatal_violation("*", "null-deref", "%s of %zu bytes at NULL in %s", w ? "write" : "read", n, what);
  if (a - (u64)ARENA < ASZ && bad(a, n)) report_bad(a, n, w, what);
}
bool heap_is_live(const void *p) { if (!in_arena(p)) return true; Blk *b = find_blk((u8 *)p - ARENA); return b && b->live; }
size_t heap_live_blocks() { size_t n = 0; for (auto &b : blks) n += b.live; return n; }
size_t heap_live_bytes() { return live_bytes; }
size_t heap_peak(bool reset) { size_t r = peak_bytes; if (reset) peak_bytes = live_bytes; return r; }
u64 heap_mark() { return alloc_no; }
string heap_leaks_since(u64 mark, size_t *count) {
  string s; size_t n = 0; for (auto &b : blks) if (b.live && b.no > mark) { if (n++ < 6) s += strf(" #%llu:%zuB", (unsigned long long)b.no, b.len); }
  if (count) *count = n;
  return s;
}

// ------------------------------------------------------------------ instrumentation runtime
static inline __attribute__((always_inline)) void acc(void *p, size_t n, bool w) {
  u64 a = (u64)p;
  if (is_fiber_stack(a)) return;
  if (!g_in_sim) return;
  mem_point();   // scheduling point before the access
  if (a - (u64)ARENA < ASZ) { if (__builtin_expect(bad(a, n), 0)) report_bad(a, n, w, fiber_name(fiber_self())); }
  else if (a < 65536) fatal_violation("*", "null-deref", "%s of %zu bytes at NULL in %s", w ? "write" : "read", n, fiber_name(fiber_self()));
}
static void copy_sched(void *d, const void *s, size_t n, bool mv) {
  if (!n) return;
  heap_check(s, n, false, "memcpy"); heap_check(d, n, true, "memcpy");
  bool shared = !is_fiber_stack((u64)d) || !is_fiber_stack((u64)s);
  if (!g_in_sim || !shared || (mv && (u8 *)d < (u8 *)s + n && (u8 *)s < (u8 *)d + n)) { if (g_in_sim && shared) mem_point(); memmove(d, s, n); return; }
  // a copy is not atomic: other threads may run between its parts
  size_t step = n <= 64 ? 8 : (n + 3) / 4, i = 0;
  while (i < n) { mem_point(); size_t k = n - i < step ? n - i : step; memmove((u8 *)d + i, (const u8 *)s + i, k); i += k; }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *p) { acc(p, N, false); } void __tsan_write##N(void *p) { acc(p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { acc(p, N, false); } void __tsan_unaligned_write##N(void *p) { acc(p, N, true); } \
  void __tsan_volatile_read##N(void *p) { acc(p, N, false); } void __tsan_volatile_write##N(void *p) { acc(p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void *p) { acc(p, N, false); } void __tsan_unaligned_volatile_write##N(void *p) { acc(p, N, true); } \
  void __tsan_read_write##N(void *p) { acc(p, N, false); acc(p, N, true); } void __tsan_unaligned_read_write##N(void *p) { acc(p, N, false); acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { heap_check(p, n, false, "range"); mem_point(); }
void __tsan_write_range(void *p, unsigned long n) { heap_check(p, n, true, "range"); mem_point(); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { copy_sched(d, s, n, false); return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { copy_sched(d, s, n, true); return d; }
void *__tsan_memset(void *d, int c, size_t n) { heap_check(d, n, true, "memset"); if (!is_fiber_stack((u64)d)) mem_point(); return memset(d, c, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { copy_sched(d, s, n, false); return d; }
void *sim_memmove(void *d, const void *s, size_t n) { copy_sched(d, s, n, true); return d; }
void *sim_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { heap_check(a, n, false, "memcmp"); heap_check(b, n, false, "memcmp"); mem_point(); return memcmp(a, b, n); }
#define ATOMIC(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { acc((void *)a, sizeof(T), false); return *a; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((void *)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, u8) ATOMIC(16, uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int) { mem_point(); }
void __tsan_atomic_signal_fence(int) {}
char *sim_strdup(const char *s) { heap_check(s, 1, false, "strdup"); size_t n = strlen(s) + 1; heap_check(s, n, false, "strdup"); char *p = (char *)sim_malloc(n); memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
int sim_posix_memalign(void **pp, size_t al, size_t n) { void *p = sim_malloc(n + al); *pp = p; return ((u64)p % al) ? (*pp = (void *)(((u64)p + al - 1) / al * al), 0) : 0; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
size_t sim_malloc_usable_size(void *p) { Blk *b = find_blk((u8 *)p - ARENA); return b ? b->len : 0; }
int sim_vasprintf(char **out, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2); *out = (char *)sim_malloc(n + 1); vsnprintf(*out, n + 1, f, ap); return n; }
int sim_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(out, f, ap); va_end(ap); return n; }
void sim_assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/'); fatal_violation("*", "assert", "assertion `%s' failed in %s (%s)", e, fn, b ? b + 1 : file); (void)line;
}
void sim_abort() { fatal_violation("*", "abort", "abort() called"); }
}
