// An OpenMP runtime that runs one thread at a time, switches between threads where a seed says so (at every
// instrumented memory access and every runtime call), and records what each thread reads and writes between
// synchronisation points.  The code under test is compiled with -fopenmp -fsanitize=thread and linked with this
// library only (a shared one, so that its own uses of templates are not those of the code under test).  A runtime function that is missing here makes the link fail; one used in an unsupported way exits with 77.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
#include <algorithm>
#include <set>
#include <iostream>
#include "omprt.h"

// ------------------------------------------------------------------ memory that is never handed out twice
static char* arena = 0; static size_t used = 0; static const size_t ARENA = (size_t)6 << 30;
static void* bump(size_t n, size_t al) {
  if (!arena) arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t p = __sync_fetch_and_add(&used, n + al + 32);
  if (p + n + al + 32 > ARENA) { static const char m[] = "arena exhausted\n"; if (write(2, m, sizeof m - 1)) {} if (getenv("VF_ABORT")) abort(); _exit(77); }
  size_t q = ((size_t)arena + p + 16 + al - 1) / al * al;
  ((size_t*)q)[-1] = n;
  return (void*)q;
}
extern "C" {
void* malloc(size_t n) { return bump(n, 16); }
void free(void*) {}
void* calloc(size_t a, size_t b) { return bump(a * b, 16); }
void* realloc(void* p, size_t n) { void* q = bump(n, 16); if (p) { size_t m = ((size_t*)p)[-1]; __builtin_memcpy(q, p, m < n ? m : n); } return q; }
void* memalign(size_t al, size_t n) { return bump(n, al < 16 ? 16 : al); }
void* aligned_alloc(size_t al, size_t n) { return bump(n, al < 16 ? 16 : al); }
int posix_memalign(void** p, size_t al, size_t n) { *p = bump(n, al < 16 ? 16 : al); return 0; }
size_t malloc_usable_size(void* p) { return p ? ((size_t*)p)[-1] : 0; }
}

// ------------------------------------------------------------------ recording
struct Acc { size_t a, b; char k; };           // bytes [a, b); r, w, or atomic R, W
struct Event { std::string e; int t; std::vector<int> k; long m; std::vector<Acc> acc; };
static std::vector<Event> events;
static bool active = false;                    // a parallel region is running
static int nextlid = 1; static long nsw = 0, nacc = 0;

struct Team;
struct Task { void (*fn)(void*); void* data; int lid, parent; Team* team; bool done, started; struct Group* grp; std::vector<std::pair<size_t, bool>> dep; std::vector<Task*> pred; };
struct Group { int lid; int open; Group* up; std::vector<int> kids; };
struct Vt {
  int slot; sem_t sem; pthread_t th; std::function<bool()> cond; bool live = false, has = false;
  void (*fn)(void*) = 0; void* data = 0;
  Team* team = 0; int tnum = 0; int lid = 0; Group* grp = 0; long ws = 0; bool insingle = false; int taskdepth = 0;
  std::vector<Acc> acc; std::vector<long> chunk;
};
struct Ws { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int left = 0; long single = 0; void* copy = 0; bool stat = false; bool up = true; long ordered = 0; };
struct Team { int n; Team* up; std::vector<Vt*> m; int arrived = 0; long gen = 0; std::map<long, Ws> ws; std::vector<Task*> tasks; int open = 0; int level = 0; int done = 0; };

static struct League { int n = 1, at = 0, base = 0; std::vector<int> kids; bool on = false; bool was = false; size_t frame = 0; std::map<std::pair<int, int>, int> lids; } lg;
static const size_t STK = 4 << 20, MAXW = 64; static char* stacks = 0;
static std::vector<Vt*> all; static Vt* cur = 0; static Vt mainvt; static Team* outer = 0;
static uint64_t rs = 88172645463325252ull; static int nthreads = 4, policy = 0, preempt = 0, starve = -1, nteams = 1;
static uint32_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 32); }

static void boot() {
  if (cur) return;
  outer = new Team(); outer->n = 1; outer->up = 0; outer->m.push_back(&mainvt);
  sem_init(&mainvt.sem, 0, 0); mainvt.slot = 0; mainvt.live = true; mainvt.team = outer; cur = &mainvt; all.push_back(&mainvt);
}
static void flush(Vt* v) {
  if (v->acc.empty()) return;
  Event e; e.e = "acc"; e.t = v->lid; e.m = 0;
  std::sort(v->acc.begin(), v->acc.end(), [](const Acc& x, const Acc& y) { return x.k != y.k ? x.k < y.k : x.a != y.a ? x.a < y.a : x.b < y.b; });
  for (auto& x : v->acc)
    if (!e.acc.empty() && e.acc.back().k == x.k && e.acc.back().a == x.a && e.acc.back().b == x.b) ; else e.acc.push_back(x);
  v->acc.clear(); events.push_back(e);
}
static void emit(const char* n, int t, std::vector<int> k = {}, long m = 0) { Event e; e.e = n; e.t = t; e.k = k; e.m = m; events.push_back(e); }

static void stuck(const char* why) {
  fprintf(stdout, "{\"sc\":%ld,\"e\":\"dead\"}\n", vf_sc); fflush(stdout); fprintf(stderr, "%s\n", why); _exit(70);
}
static bool runnable(Vt* v) { return v->live && (!v->cond || v->cond()); }
static Vt* choose(bool other) {
  std::vector<Vt*> c;
  for (auto v : all) if (!(other && v == cur) && runnable(v)) c.push_back(v);
  if (c.empty()) return 0;
  if (starve >= 0 && c.size() > 1) for (size_t i = 0; i < c.size(); ++i) if (c[i]->tnum == starve) { c.erase(c.begin() + i); break; }
  if (policy == 1) return c.front();
  if (policy == 2) return c.back();
  return c[rnd() % c.size()];
}
static void to(Vt* n) { Vt* me = cur; if (n == me) return; ++nsw; cur = n; sem_post(&n->sem); while (sem_wait(&me->sem)) {} }
static void wait_for(std::function<bool()> c) {
  Vt* me = cur; me->cond = c;
  if (!c()) { Vt* n = choose(true); if (!n) stuck("no thread can run"); to(n); }
  else if (rnd() % 2) { Vt* n = choose(false); if (n) to(n); }
  me->cond = nullptr;
}
static void maybe_switch() {
  if (!active || !preempt) return;
  if (rnd() % preempt == 0) { Vt* n = choose(true); if (n) to(n); }
}
static void* body(void* p) {
  Vt* v = (Vt*)p;
  for (;;) {
    while (sem_wait(&v->sem)) {}
    v->fn(v->data);
    flush(v); v->team->done++; v->live = false;
    Vt* n = choose(true); if (!n) stuck("no thread can run"); ++nsw; cur = n; sem_post(&n->sem);
  }
  return 0;
}
static Vt* worker(size_t k) {
  if (!stacks) stacks = (char*)mmap(0, STK * MAXW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (k >= MAXW) { fprintf(stderr, "unsupported: so many threads\n"); _exit(77); }
  while (all.size() <= k) {
    Vt* v = new Vt(); v->slot = all.size(); sem_init(&v->sem, 0, 0); all.push_back(v);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stacks + STK * v->slot, STK); pthread_create(&v->th, &a, body, v);
  }
  return all[k];
}

// ------------------------------------------------------------------ instrumented accesses
static inline void touch(void* p, size_t n, char k) {
  if (!active || !n) return;
  ++nacc;
  if (nacc > 400000000) stuck("too many steps");
  maybe_switch();
  auto& v = cur->acc; size_t a = (size_t)p;
  // the teams of a league run one after the other here: what lives on a stack inside a team is the team's own
  if (lg.on && ((a < lg.frame && a > lg.frame - (64 << 20)) || (stacks && a >= (size_t)stacks && a < (size_t)stacks + STK * MAXW))) a += (size_t)(lg.at + 1) << 48;
  if (!v.empty() && v.back().k == k && v.back().a == a && v.back().b == a + n) return;
  v.push_back(Acc{a, a + n, k});
  if (v.size() > 20000) { std::sort(v.begin(), v.end(), [](const Acc& x, const Acc& y) { return x.k != y.k ? x.k < y.k : x.a != y.a ? x.a < y.a : x.b < y.b; });
    v.erase(std::unique(v.begin(), v.end(), [](const Acc& x, const Acc& y) { return x.k == y.k && x.a == y.a && x.b == y.b; }), v.end()); }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
#define RW(n) void __tsan_read##n(void* p) { touch(p, n, 'r'); } void __tsan_write##n(void* p) { touch(p, n, 'w'); } \
  void __tsan_unaligned_read##n(void* p) { touch(p, n, 'r'); } void __tsan_unaligned_write##n(void* p) { touch(p, n, 'w'); } \
  void __tsan_volatile_read##n(void* p) { touch(p, n, 'r'); } void __tsan_volatile_write##n(void* p) { touch(p, n, 'w'); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch(p, n, 'r'); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, 'w'); }
void __tsan_vptr_update(void** p, void* v) { touch(p, 8, 'w'); }
void __tsan_vptr_read(void** p) { touch(p, 8, 'r'); }
}
static void sync_on(size_t m) { Vt* v = cur; flush(v); emit("acq", v->lid, {}, (long)m); emit("rel", v->lid, {}, (long)m); }
static void atomic_access(volatile void* p, size_t n, bool w) { if (!active) return; touch((void*)p, n, w ? 'W' : 'R'); sync_on((size_t)p); }
extern "C" {
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T* p, int) { atomic_access((volatile void*)p, sizeof(T), false); return *p; } \
void __tsan_atomic##b##_store(volatile T* p, T v, int) { atomic_access(p, sizeof(T), true); *p = v; } \
T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { atomic_access(p, sizeof(T), true); T o = *p; *p = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { atomic_access(p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { atomic_access(p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { atomic_access(p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { atomic_access(p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { atomic_access(p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { atomic_access(p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { atomic_access(p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// block operations of the code under test (--wrap)
#define __real_memcpy memcpy
#define __real_memmove memmove
#define __real_memset memset
void* __wrap_memcpy(void* d, const void* s, size_t n) { touch((void*)s, n, 'r'); touch(d, n, 'w'); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { touch((void*)s, n, 'r'); touch(d, n, 'w'); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { touch(d, n, 'w'); return __real_memset(d, c, n); }
}

// ------------------------------------------------------------------ tasks
static void run_task(Task* t) {
  Vt* v = cur; flush(v);
  int keep = v->lid; Group* g = v->grp;
  t->started = true; v->lid = t->lid; v->grp = 0; v->taskdepth++;
  for (auto p : t->pred) emit("join", t->lid, {p->lid});
  t->fn(t->data);
  flush(v); v->lid = keep; v->grp = g; v->taskdepth--;
  t->done = true; t->team->open--;
  if (t->grp) { t->grp->open--; }
}
static Task* ready(Team* tm) {
  std::vector<Task*> c;
  for (auto t : tm->tasks) if (!t->started) { bool ok = true; for (auto p : t->pred) ok = ok && p->done; if (ok) c.push_back(t); }
  if (c.empty()) return 0;
  return policy == 1 ? c.front() : policy == 2 ? c.back() : c[rnd() % c.size()];
}
// run tasks until the condition holds
static void drain(std::function<bool()> fin) {
  Team* tm = cur->team;
  while (!fin()) {
    Task* t = ready(tm);
    if (t) run_task(t);
    else wait_for([=] { return fin() || ready(tm); });
  }
}
static void barrier() {
  Vt* v = cur; Team* tm = v->team;
  flush(v);
  if (!active) return;
  if (tm->n == 1) { drain([=] { return tm->open == 0; }); std::vector<int> k; for (auto t : tm->tasks) k.push_back(t->lid); if (!k.empty()) emit("join", v->lid, k); tm->tasks.clear(); return; }
  long g = tm->gen;
  tm->arrived++;
  drain([=] { return tm->gen != g || (tm->arrived == tm->n && tm->open == 0); });
  if (tm->gen == g) {
    std::vector<int> k; for (auto m : tm->m) k.push_back(m->lid);
    for (auto t : tm->tasks) k.push_back(t->lid);
    flush(v);
    emit("bar", -1, k); tm->tasks.clear(); tm->arrived = 0; tm->gen++;
  }
  wait_for([=] { return tm->gen != g; });
}
static void parallel(void (*fn)(void*), void* data, unsigned n) {
  boot();
  Vt* v = cur; Team* old = v->team; int otn = v->tnum; long ows = v->ws; Group* og = v->grp; bool was = active;
  if (n == 0) n = nthreads;
  if (old->level >= 1) n = 1;
  Team* tm = new Team(); tm->n = n; tm->up = old; tm->level = old->level + 1;
  flush(v);
  active = true;
  v->team = tm; v->tnum = 0; v->ws = 0; v->grp = 0;
  tm->m.push_back(v);
  std::vector<int> kids;
  if (n > 1) {
    for (unsigned i = 1; i < n; ++i) { Vt* w = worker(i); w->fn = fn; w->data = data; w->team = tm; w->tnum = i; w->ws = 0; w->grp = 0; w->cond = nullptr; w->acc.clear(); tm->m.push_back(w);
      int& id = lg.lids[{lg.on ? lg.kids[lg.at] : -1, (int)i}]; if (!id) id = nextlid++; w->lid = id; kids.push_back(w->lid); }
    emit("fork", v->lid, kids);
    for (unsigned i = 1; i < n; ++i) tm->m[i]->live = true;
    if (policy != 1) { Vt* nx = choose(false); if (nx) to(nx); }
  }
  fn(data);
  flush(v);
  // implicit barrier at the end: the others finish, then the remaining tasks
  wait_for([=] { return tm->done == (int)n - 1; });
  drain([=] { return tm->open == 0; });
  flush(v);
  for (auto t : tm->tasks) kids.push_back(t->lid);
  if (!kids.empty()) emit("join", v->lid, kids);
  v->team = old; v->tnum = otn; v->ws = ows; v->grp = og; active = was;
}

// ------------------------------------------------------------------ work sharing
static Ws& share() { Vt* v = cur; return v->team->ws[v->ws]; }
static bool loop_start(long s, long e, long incr, long chunk, bool stat, long* a, long* b);
static bool loop_next(long* a, long* b) {
  Vt* v = cur; Ws& w = share();
  maybe_switch();
  if (w.stat) {
    if (v->chunk.empty()) return false;
    long c = v->chunk.back(); v->chunk.pop_back();
    *a = w.next + c * w.chunk * w.incr; *b = *a + w.chunk * w.incr;
    if (w.incr > 0 ? *b > w.end : *b < w.end) *b = w.end;
    return true;
  }
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  *a = w.next; *b = w.next + w.chunk * w.incr;
  if (w.incr > 0 ? *b > w.end : *b < w.end) *b = w.end;
  w.next = *b;
  return true;
}
static bool loop_start(long s, long e, long incr, long chunk, bool stat, long* a, long* b) {
  boot(); Vt* v = cur; v->ws++;
  Ws& w = share();
  long cnt = incr > 0 ? (e > s ? (e - s + incr - 1) / incr : 0) : (s > e ? (s - e - incr - 1) / -incr : 0);
  if (!w.init) {
    w.init = true; w.stat = stat; w.next = s; w.end = e; w.incr = incr;
    if (stat && chunk <= 0) chunk = cnt ? (cnt + v->team->n - 1) / v->team->n : 1;
    w.chunk = chunk > 0 ? chunk : 1;
  }
  if (stat) { v->chunk.clear(); long nc = (cnt + w.chunk - 1) / w.chunk; for (long c = nc - 1; c >= 0; --c) if (c % v->team->n == v->tnum) v->chunk.push_back(c); }
  return loop_next(a, b);
}
static void loop_end() { barrier(); }
struct PLoop { void (*fn)(void*); void* data; long s, e, i, c; bool stat; };
static void ploop(void* p) {
  PLoop* q = (PLoop*)p; Vt* v = cur; Ws& w = v->team->ws[v->ws + 1];
  (void)w;
  q->fn(q->data);
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { fprintf(stderr, "unsupported: task reductions\n"); _exit(77); }
void GOMP_barrier() { boot(); barrier(); }
#define LOOP(name, stat) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, stat, a, b); } \
bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next(a, b); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long* a, unsigned long* b) { return loop_start((long)s, (long)e, (long)i, (long)c, stat, (long*)a, (long*)b); } \
bool GOMP_loop_ull_##name##_next(unsigned long* a, unsigned long* b) { return loop_next((long*)a, (long*)b); }
LOOP(static, true) LOOP(dynamic, false) LOOP(guided, false) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, false)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, false, a, b); } \
bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next(a, b); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long* a, unsigned long* b) { return loop_start((long)s, (long)e, (long)i, 1, false, (long*)a, (long*)b); } \
bool GOMP_loop_ull_##name##_next(unsigned long* a, unsigned long* b) { return loop_next((long*)a, (long*)b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { loop_end(); }
void GOMP_loop_end_nowait() {}
static void ploop_run(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) {
  // the outlined function only asks for the next chunks: the share is set up before the team starts
  struct L { void (*fn)(void*); void* d; long s, e, i, c; } l = {fn, d, s, e, i, c};
  parallel([](void* p) { L* q = (L*)p; Vt* v = cur; v->ws++; Ws& w = share();
      if (!w.init) { w.init = true; w.stat = false; w.next = q->s; w.end = q->e; w.incr = q->i; w.chunk = q->c > 0 ? q->c : 1; }
      q->fn(q->d); }, &l, n);
}
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop_run(fn, d, n, s, e, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop_run(fn, d, n, s, e, i, 1); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

bool GOMP_single_start() { boot(); Vt* v = cur; v->ws++; maybe_switch(); Ws& w = share(); if (w.init) return false; w.init = true; return true; }
void* GOMP_single_copy_start() { boot(); Vt* v = cur; v->ws++; maybe_switch(); Team* tm = v->team; long k = v->ws;
  if (!tm->ws[k].init) { tm->ws[k].init = true; return 0; } barrier(); return tm->ws[k].copy; }
void GOMP_single_copy_end(void* d) { share().copy = d; barrier(); }
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, false, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { ploop_run(fn, d, n, 1, (long)c + 1, 1, 1); }

// locks
static std::map<size_t, int> held;
static void lock(size_t m) { boot(); maybe_switch(); wait_for([=] { return !held[m]; }); held[m] = 1; if (active) { flush(cur); emit("acq", cur->lid, {}, (long)m); } }
static void unlock(size_t m) { if (active) { flush(cur); emit("rel", cur->lid, {}, (long)m); } held[m] = 0; maybe_switch(); }
void GOMP_critical_start() { lock(1); }
void GOMP_critical_end() { unlock(1); }
void GOMP_critical_name_start(void** p) { lock((size_t)p); }
void GOMP_critical_name_end(void** p) { unlock((size_t)p); }
void GOMP_atomic_start() { lock(2); }
void GOMP_atomic_end() { unlock(2); }
void omp_init_lock(void* p) { held[(size_t)p] = 0; }
void omp_destroy_lock(void* p) {}
void omp_set_lock(void* p) { lock((size_t)p); }
void omp_unset_lock(void* p) { unlock((size_t)p); }
int omp_test_lock(void* p) { boot(); if (held[(size_t)p]) return 0; lock((size_t)p); return 1; }
void omp_init_lock_(void* p) { omp_init_lock(p); }
void omp_destroy_lock_(void* p) {}
void omp_set_lock_(void* p) { lock((size_t)p); }
void omp_unset_lock_(void* p) { unlock((size_t)p); }
int omp_test_lock_(void* p) { return omp_test_lock(p); }

// tasks
static void add_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool now, void** depend, bool dep) {
  boot(); Vt* v = cur; Team* tm = v->team;
  if (!active || (now && !dep)) { 
    if (cpy) { char* b = (char*)bump(size + align, align < 16 ? 16 : align); cpy(b, data); fn(b); } else fn(data);
    return; }
  char* b = (char*)bump(size + 16, align < 16 ? 16 : align);
  if (cpy) cpy(b, data); else __real_memcpy(b, data, size);
  flush(v);
  Task* t = new Task(); t->fn = fn; t->data = b; t->lid = nextlid++; t->parent = v->lid; t->team = tm; t->done = t->started = false; t->grp = v->grp;
  if (dep) {
    size_t n = (size_t)depend[0], out = (size_t)depend[1], at = 2;
    if (n == 0) { if ((size_t)depend[3] || (size_t)depend[4]) { if ((size_t)depend[4]) { fprintf(stderr, "unsupported: depend objects\n"); _exit(77); } } n = (size_t)depend[1]; out = (size_t)depend[2] + (size_t)depend[3]; at = 5; }
    for (size_t i = 0; i < n; ++i) t->dep.push_back({(size_t)depend[at + i], i < out});
    for (auto p : tm->tasks) if (p->parent == t->parent) { bool hit = false; for (auto& x : p->dep) for (auto& y : t->dep) if (x.first == y.first && (x.second || y.second)) hit = true; if (hit) t->pred.push_back(p); }
  }
  tm->tasks.push_back(t); tm->open++;
  if (t->grp) { t->grp->open++; t->grp->kids.push_back(t->lid); }
  emit("fork", v->lid, {t->lid});
  if (now) { drain([=] { for (auto p : t->pred) if (!p->done) return false; return true; }); if (!t->started) run_task(t); else drain([=] { return t->done; }); flush(v); emit("join", v->lid, {t->lid}); }
  maybe_switch();
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool iff, unsigned flags, void** depend, int, void*) {
  if (flags & (1u << 13)) { fprintf(stderr, "unsupported: detach\n"); _exit(77); }
  add_task(fn, data, cpy, size, align, !iff, depend, flags & 8);
}
void GOMP_taskwait() {
  boot(); if (!active) return; Vt* v = cur; Team* tm = v->team; int me = v->lid;
  flush(v);
  drain([=] { for (auto t : tm->tasks) if (t->parent == me && !t->done) return false; return true; });
  std::vector<int> k; for (auto t : tm->tasks) if (t->parent == me) k.push_back(t->lid);
  if (!k.empty()) emit("join", v->lid, k);
}
void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
void GOMP_taskyield() { maybe_switch(); }
void GOMP_taskgroup_start() { boot(); Vt* v = cur; Group* g = new Group(); g->lid = v->lid; g->open = 0; g->up = v->grp; v->grp = g; }
void GOMP_taskgroup_end() { Vt* v = cur; Group* g = v->grp; flush(v); drain([=] { return g->open == 0; }); if (!g->kids.empty()) emit("join", v->lid, g->kids); v->grp = g->up; }
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num, int, long s, long e, long step) {
  if (flags & (1u << 12)) { fprintf(stderr, "unsupported: task reductions\n"); _exit(77); }
  boot();
  long cnt = step > 0 ? (e > s ? (e - s + step - 1) / step : 0) : (s > e ? (s - e - step - 1) / -step : 0);
  if (!cnt) return;
  long per = (flags & (1u << 9)) ? (long)num : 0, nt = (flags & (1u << 9)) ? 0 : (long)num;
  if (per > 0) nt = (cnt + per - 1) / per;
  if (nt <= 0) nt = cur->team->n * 2;
  if (nt > cnt) nt = cnt;
  bool grp = !(flags & (1u << 11));
  if (grp) GOMP_taskgroup_start();
  long at = s;
  for (long k = 0; k < nt; ++k) {
    long n = cnt / nt + (k < cnt % nt);
    char* b = (char*)bump(size + 16, align < 16 ? 16 : align);
    if (cpy) cpy(b, data); else __real_memcpy(b, data, size);
    ((long*)b)[0] = at; ((long*)b)[1] = at + n * step; at += n * step;
    add_task(fn, b, 0, size, align, !(flags & (1u << 10)), 0, false);
  }
  if (grp) GOMP_taskgroup_end();
}
void GOMP_ordered_start() { fprintf(stderr, "unsupported: ordered\n"); _exit(77); }
void GOMP_ordered_end() {}

// target regions run on the host; the teams of a league are concurrent with one another
static void call_target(void (*fn)(void*), size_t n, void** host, size_t* sizes, unsigned short* kinds) {
  boot();
  for (size_t i = 0; i < n; ++i)
    if ((kinds[i] & 0xff) == 12 && sizes[i]) { void* p = bump(sizes[i], 64); __real_memcpy(p, host[i], sizes[i]); host[i] = p; }
  size_t keep = lg.frame; char here; lg.frame = (size_t)&here;
  fn((void*)host);
  lg.frame = keep;
}
void GOMP_target_ext(int, void (*fn)(void*), size_t n, void** host, size_t* sizes, unsigned short* kinds, unsigned, void**, void**) { call_target(fn, n, host, sizes, kinds); }
void GOMP_target_data_ext(int, size_t, void**, size_t*, unsigned short*) {}
void GOMP_target_end_data() {}
void GOMP_target_update_ext(int, size_t, void**, size_t*, unsigned short*, unsigned, void**) {}
void GOMP_target_enter_exit_data(int, size_t, void**, size_t*, unsigned short*, unsigned, void**) {}
bool GOMP_teams4(unsigned lo, unsigned hi, unsigned limit, bool first) {
  boot(); Vt* v = cur;
  if (v->team->level > 0) { fprintf(stderr, "unsupported: teams in parallel\n"); _exit(77); }
  if (first) {
    lg.n = lo ? (int)lo : hi && (int)hi < nteams ? (int)hi : nteams; lg.at = 0; lg.base = v->lid; lg.on = true; lg.was = active; lg.kids.clear();
    flush(v);
    std::vector<int> k; for (int i = 0; i < lg.n; ++i) k.push_back(nextlid++);
    lg.kids = k; emit("fork", v->lid, k); active = true; v->lid = k[0];
    return true;
  }
  flush(v);
  if (++lg.at < lg.n) { v->lid = lg.kids[lg.at]; return true; }
  v->lid = lg.base; lg.on = false; lg.at = 0; active = lg.was; emit("join", v->lid, lg.kids);
  return false;
}
static int teamnum() { return lg.on ? lg.at : 0; }
static int numteams() { return lg.on ? lg.n : 1; }
static int lvl() { boot(); return cur->team->level; }

#define Q(ret, name, expr) ret name() { boot(); return (expr); } ret name##_() { boot(); return (expr); }
Q(int, omp_get_thread_num, cur->tnum)
Q(int, omp_get_num_threads, cur->team->n)
Q(int, omp_get_max_threads, nthreads)
Q(int, omp_get_num_procs, 8)
Q(int, omp_in_parallel, cur->team->level > 0 && cur->team->n > 1)
Q(int, omp_get_level, cur->team->level)
Q(int, omp_get_active_level, cur->team->n > 1)
Q(int, omp_get_dynamic, 0)
Q(int, omp_get_nested, 0)
Q(int, omp_get_thread_limit, 1024)
Q(int, omp_get_max_active_levels, 1)
Q(int, omp_get_num_devices, 0)
Q(int, omp_get_default_device, 0)
Q(int, omp_get_initial_device, 0)
Q(int, omp_is_initial_device, 1)
Q(int, omp_get_team_num, teamnum())
Q(int, omp_get_num_teams, numteams())
Q(double, omp_get_wtime, 0.001 * nsw)
Q(double, omp_get_wtick, 0.001)
void omp_set_num_threads(int n) { if (n > 0) nthreads = n > 16 ? 16 : n; }
void omp_set_num_threads_(int* n) { omp_set_num_threads(*n); }
void omp_set_dynamic(int) {}
void omp_set_dynamic_(int*) {}
void omp_set_nested(int) {}
void omp_set_nested_(int*) {}
void omp_set_schedule(int, int) {}
void omp_set_schedule_(int*, int*) {}
void omp_set_default_device(int) {}
}

// ------------------------------------------------------------------ what the harness calls
long vf_sc = 0;
void vf_omp(int threads, long seed, int pol, int pre, int star, int teams) {
  boot(); nthreads = threads; rs = 88172645463325252ull ^ ((uint64_t)seed * 0x9E3779B97F4A7C15ull); for (int i = 0; i < 8; ++i) rnd();
  policy = pol; preempt = pre; starve = star; nteams = teams;
}
void vf_hb(std::ostream& o) {
  for (auto v : all) { if (v->live) flush(v); v->acc.clear(); }
  // split the recorded intervals into the pieces between their end points
  std::vector<size_t> cut;
  for (auto& e : events) for (auto& a : e.acc) { cut.push_back(a.a); cut.push_back(a.b); }
  std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
  std::vector<int> who(cut.size(), -1), ids(cut.size(), 0); std::vector<char> many(cut.size(), 0), wr(cut.size(), 0);
  auto at = [&](size_t x) { return (size_t)(std::lower_bound(cut.begin(), cut.end(), x) - cut.begin()); };
  for (auto& e : events) for (auto& a : e.acc)
    for (size_t i = at(a.a), j = at(a.b); i < j; ++i) { if (who[i] < 0) who[i] = e.t; else if (who[i] != e.t) many[i] = 1; if (a.k == 'w' || a.k == 'W') wr[i] = 1; }
  // locations of the same history are one
  int id = 0; std::vector<int> lid(cut.size(), 0);
  std::map<std::string, int> same; std::vector<std::string> hist(cut.size()); 
  { int n = 0; for (auto& e : events) { ++n; for (auto& a : e.acc) for (size_t i = at(a.a), j = at(a.b); i < j; ++i) if (many[i] && wr[i]) hist[i] += std::to_string(n) + a.k; } }
  for (size_t i = 0; i < cut.size(); ++i) if (many[i] && wr[i]) { auto it = same.find(hist[i]); if (it == same.end()) { same[hist[i]] = ++id; lid[i] = id; } else lid[i] = it->second; }
  std::map<int, int> tn; auto T = [&](int t) { auto it = tn.find(t); if (it != tn.end()) return it->second; int k = (int)tn.size() + 1; tn[t] = k; return k; };
  std::map<long, int> ln; auto Lk = [&](long m) { auto it = ln.find(m); if (it != ln.end()) return it->second; int k = (int)ln.size() + 1; ln[m] = k; return k; };
  for (auto& e : events) {
    if (e.e == "acc") {
      std::set<int> r, w, ar, aw;
      for (auto& a : e.acc) for (size_t i = at(a.a), j = at(a.b); i < j; ++i) if (lid[i]) (a.k == 'r' ? r : a.k == 'w' ? w : a.k == 'R' ? ar : aw).insert(lid[i]);
      if (r.empty() && w.empty() && ar.empty() && aw.empty()) continue;
      o << "{\"sc\":" << vf_sc << ",\"e\":\"acc\",\"t\":" << T(e.t);
      auto p = [&](const char* n, std::set<int>& s) { o << ",\"" << n << "\":["; bool f = true; for (int x : s) { o << (f ? "" : ",") << x; f = false; } o << ']'; };
      p("r", r); p("w", w); p("ar", ar); p("aw", aw);
      o << "}\n";
    } else {
      o << "{\"sc\":" << vf_sc << ",\"e\":\"" << e.e << "\"";
      if (e.t >= 0) o << ",\"t\":" << T(e.t);
      if (e.e == "acq" || e.e == "rel") o << ",\"m\":" << Lk(e.m);
      else { o << ",\"k\":["; for (size_t i = 0; i < e.k.size(); ++i) o << (i ? "," : "") << T(e.k[i]); o << ']'; }
      o << "}\n";
    }
  }
  o << "{\"sc\":" << vf_sc << ",\"e\":\"runs\",\"threads\":" << tn.size() << ",\"loc\":" << id << ",\"sw\":" << nsw << ",\"acc\":" << nacc << "}\n";
  o.flush(); events.clear(); nsw = 0; nacc = 0;
}
