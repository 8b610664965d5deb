// An allocator that never hands out the same bytes twice, leaves room around every block, fills new and returned blocks
// with a pattern, and records, for every block, which of its bytes instrumented code touches: the lowest and the highest
// offset while the block is held, touches after it was given back, and how often it was given back.  Code under test is
// compiled with -fsanitize=thread and linked with this file in place of the sanitizer's library.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ostream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

long vf_sc = 0;
extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
namespace {
struct Blk { size_t a, n; long lo, hi; int late, frees; bool live, dirty; };
const size_t ARENA = (size_t)24 << 30, NB = (size_t)1 << 23;
char* arena = 0; size_t used = 0; Blk* B = 0; size_t nb = 0, first = 0; long held = 0;
long marks[64]; int nmarks = 0;
volatile char lk = 0;
struct Lock { Lock() { while (__atomic_test_and_set(&lk, __ATOMIC_ACQUIRE)); } ~Lock() { __atomic_clear(&lk, __ATOMIC_RELEASE); } };
unsigned char pat = 0xff;
void die(const char* m) { if (write(2, m, strlen(m))) {} _exit(77); }
void* get(size_t n, size_t al, bool fill) {
  Lock l;
  if (!arena) {
    arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    B = (Blk*)mmap(0, NB * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || B == (Blk*)MAP_FAILED) die("no arena\n");
  }
  size_t z = n < 256 ? 256 : n > (1 << 20) ? (1 << 20) : n;
  if (al < 16) al = 16;
  size_t p = ((size_t)arena + used + z + al - 1) / al * al;
  if (n > ARENA || p + n + z > (size_t)arena + ARENA || nb == NB) die("arena exhausted\n");
  used = p + n + z - (size_t)arena;
  B[nb++] = Blk{p, n, 0, 0, 0, 0, true, true}; held += n;
  if (fill) __real_memset((void*)p, pat, n);
  return (void*)p;
}
// the block that an address belongs to, or lies next to
Blk* at(size_t p) {
  if (!arena || p < (size_t)arena || p >= (size_t)arena + used || !nb) return 0;
  size_t lo = 0, hi = nb;                      // the last block that starts at or before p
  while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (B[m].a <= p) lo = m; else hi = m; }
  if (lo + 1 < nb && p >= B[lo].a + B[lo].n && B[lo + 1].a - p <= p - (B[lo].a + B[lo].n)) ++lo;
  return B + lo;
}
void put(void* q) {
  if (!q) return;
  Lock l; size_t p = (size_t)q; Blk* b = at(p);
  if (!b) return;
  b->dirty = true;
  if (b->a != p) { b->frees += 9; return; }
  if (b->frees++ == 0) { b->live = false; held -= b->n; __real_memset(q, 0xfb, b->n); }
}
inline void touch(const void* q, size_t n) {
  if (!arena || (size_t)q < (size_t)arena || (size_t)q >= (size_t)arena + ARENA || !n) return;
  Lock l; Blk* b = at((size_t)q); if (!b) return;
  long lo = (long)((size_t)q - b->a), hi = lo + (long)n;
  b->dirty = true;
  if (!b->live) { ++b->late; return; }
  if (b->lo == 0 && b->hi == 0) { b->lo = lo; b->hi = hi; }
  else { if (lo < b->lo) b->lo = lo; if (hi > b->hi) b->hi = hi; }
}
size_t sizeOf(void* q) { Lock l; Blk* b = at((size_t)q); return b && b->a == (size_t)q ? b->n : 0; }
}
extern "C" {
void* malloc(size_t n) { return get(n, 16, true); }
void free(void* p) { put(p); }
void* calloc(size_t a, size_t b) { if (a && b > ARENA / a) return 0; return get(a * b, 16, false); }
void* realloc(void* p, size_t n) { void* q = get(n, 16, true); if (p) { size_t m = sizeOf(p); __real_memcpy(q, p, m < n ? m : n); put(p); } return q; }
void* memalign(size_t al, size_t n) { return get(n, al, true); }
void* aligned_alloc(size_t al, size_t n) { return get(n, al, true); }
int posix_memalign(void** p, size_t al, size_t n) { *p = get(n, al, true); return 0; }
size_t malloc_usable_size(void* p) { return p ? sizeOf(p) : 0; }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
#define RW(n) void __tsan_read##n(void* p) { touch(p, n); } void __tsan_write##n(void* p) { touch(p, n); } \
  void __tsan_unaligned_read##n(void* p) { touch(p, n); } void __tsan_unaligned_write##n(void* p) { touch(p, n); } \
  void __tsan_volatile_read##n(void* p) { touch(p, n); } void __tsan_volatile_write##n(void* p) { touch(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch(p, n); }
void __tsan_write_range(void* p, size_t n) { touch(p, n); }
void __tsan_vptr_update(void** p, void*) { touch(p, 8); }
void __tsan_vptr_read(void** p) { touch(p, 8); }
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T* p, int) { touch((void*)p, sizeof(T)); return __atomic_load_n(p, 5); } \
void __tsan_atomic##b##_store(volatile T* p, T v, int) { touch((void*)p, sizeof(T)); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { touch((void*)p, sizeof(T)); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { touch((void*)p, sizeof(T)); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { touch((void*)p, sizeof(T)); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { touch((void*)p, sizeof(T)); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { touch((void*)p, sizeof(T)); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { touch((void*)p, sizeof(T)); return __atomic_fetch_xor(p, v, 5); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { touch((void*)p, sizeof(T)); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { touch((void*)p, sizeof(T)); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __wrap_memcpy(void* d, const void* s, size_t n) { touch(s, n); touch(d, n); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { touch(s, n); touch(d, n); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { touch(d, n); return __real_memset(d, c, n); }
}
void vf_given(void* p) { put(p); }
void vf_mark() { if (nmarks < 64) marks[nmarks++] = held; }
// what happened since the last report: [size, lowest, highest, late, returned, how many such blocks]
int vf_heap(char* out, int cap) {
  struct T { size_t n; long lo, hi; int late, frees, k; };
  static T* t = 0; static const size_t NT = 20000; static uint32_t* h = 0; static const size_t NH = 65536;
  if (!t) { t = (T*)mmap(0, NT * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); h = (uint32_t*)mmap(0, NH * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  __real_memset((void*)h, 0, NH * 4); size_t k = 0;
  while (first < nb && B[first].frees && !B[first].dirty) ++first;
  for (size_t i = 0; i < nb; ++i) {
    Blk& b = B[i]; if (!b.dirty) continue;
    size_t x = (b.n * 31 + (size_t)b.lo * 131 + (size_t)b.hi * 7 + b.late * 17 + b.frees * 3) % NH;
    for (;; x = (x + 1) % NH) {
      if (!h[x]) { if (k == NT) break; t[k] = T{b.n, b.lo, b.hi, b.late, b.frees, 1}; h[x] = ++k; break; }
      T& y = t[h[x] - 1]; if (y.n == b.n && y.lo == b.lo && y.hi == b.hi && y.late == b.late && y.frees == b.frees) { ++y.k; break; }
    }
    b.dirty = false; b.lo = b.hi = 0; b.late = 0;
  }
  int p = snprintf(out, cap, "\"e\":\"heap\",\"b\":[");
  auto lim = [](long x) { return x > 2000000000L ? 2000000000L : x < -2000000000L ? -2000000000L : x; };
  for (size_t i = 0; i < k && p < cap - 400; ++i) p += snprintf(out + p, cap - p, "%s[%ld,%ld,%ld,%d,%d,%d]", i ? "," : "", lim(t[i].n), lim(t[i].lo), lim(t[i].hi), t[i].late > 9999 ? 9999 : t[i].late, t[i].frees, t[i].k);
  p += snprintf(out + p, cap - p, "],\"held\":[");
  for (int i = 0; i < nmarks && p < cap - 100; ++i) p += snprintf(out + p, cap - p, "%s%ld", i ? "," : "", lim(marks[i]));
  p += snprintf(out + p, cap - p, "],\"w\":%d", (int)(2 + k / 4));
  nmarks = 0;
  return p;
}
static char text[1 << 20];
void vf_hb(std::ostream& o) { vf_heap(text, sizeof text); o << "{\"sc\":" << vf_sc << "," << text << "}" << std::endl; }
