#define OMPI_SKIP_MPICXX
#include <mpi.h>
#include "mockmpi.h"
#include "heapmark.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <poll.h>
#include <random>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

enum Op { INIT = 1, FINALIZE, ALLOC, FREE, CREATE, ALLOCATE, WFREE, FENCE, GET, PUT, BARRIER, REDUCE, ALLREDUCE, BCAST, GATHER, GATHERV, ALLGATHER, ABORT, LOG, PRE, DUP };
static const char* NAMES[] = {"", "init", "finalize", "alloc", "free", "create", "allocate", "wfree", "fence", "get", "put", "barrier", "reduce", "allreduce", "bcast", "gather", "gatherv", "allgather", "abort", "log", "pre", "dup"};
struct Req { int op; int pad; long a[10]; long n; };
struct Rep { int kind; int pad; long n; long addr; long val; };   // 0 finish, 1 read, 2 write
static bool rdall(int fd, void* p, size_t n) { char* c = (char*) p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; } return true; }
static bool wrall(int fd, const void* p, size_t n) { const char* c = (const char*) p; while (n) { ssize_t k = send(fd, c, n, MSG_NOSIGNAL); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; } return true; }

// ------------------------------------------------------------------ the side of a rank
static int cfd = -1, crank = 0, cnp = 1; static bool cinit = false, cfini = false; static double wclock = 0, wcost = 0, waside = 0; static bool wset = false;
static std::vector<char> cres;
static long rpc(int op, std::initializer_list<long> a, const void* data = 0, long n = 0) {
  Req q; memset(&q, 0, sizeof q); q.op = op; int i = 0; for (long x : a) q.a[i++] = x; q.n = n;
  if (!wrall(cfd, &q, sizeof q) || (n && !wrall(cfd, data, n))) _exit(97);
  for (;;) {
    Rep r; if (!rdall(cfd, &r, sizeof r)) _exit(97);
    if (r.kind == 1) { if (!wrall(cfd, (void*) r.addr, r.n)) { std::vector<char> z(r.n); wrall(cfd, z.data(), r.n); } }
    else if (r.kind == 2) { cres.resize(r.n); rdall(cfd, cres.data(), r.n); memcpy((void*) r.addr, cres.data(), r.n); }
    else { cres.resize(r.n); if (r.n) rdall(cfd, cres.data(), r.n); return r.val; }
  }
}
void mockLog(const std::string& s) { rpc(LOG, {}, s.data(), s.size()); }
int mockRank() { return crank; }
static long tsize(MPI_Datatype t) {
  if (t == MPI_DOUBLE || t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG_INT || t == MPI_UNSIGNED_LONG_LONG || t == MPI_AINT || t == MPI_INT64_T || t == MPI_UINT64_T) return 8;
  if (t == MPI_INT || t == MPI_FLOAT || t == MPI_UNSIGNED || t == MPI_INT32_T || t == MPI_UINT32_T) return 4;
  if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT) return 2;
  if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_C_BOOL || t == MPI_CXX_BOOL) return 1;
  return 8;
}
static int tcode(MPI_Datatype t) { return t == MPI_DOUBLE ? 0 : t == MPI_INT ? 1 : t == MPI_FLOAT ? 2 : (t == MPI_LONG || t == MPI_LONG_LONG_INT) ? 3 : (t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG) ? 4 : 5; }
static int ocode(MPI_Op o) { return o == MPI_SUM ? 0 : o == MPI_MAX ? 1 : o == MPI_MIN ? 2 : o == MPI_PROD ? 3 : o == MPI_LAND ? 4 : o == MPI_LOR ? 5 : 6; }
static void up() { if (!cinit || cfini) rpc(PRE, {cfini ? 2 : 1}); }
static long wid(MPI_Win w) { long x = (long) w; return x >= 0x1000 && x < 0x100000 ? x - 0x1000 : -1; }
extern "C" {
int MPI_Init(int*, char***) { cinit = true; rpc(INIT, {}); return 0; }
int MPI_Init_thread(int*, char***, int req, int* prov) { cinit = true; if (prov) *prov = req; rpc(INIT, {}); return 0; }
int MPI_Initialized(int* f) { *f = cinit; return 0; }
int MPI_Finalized(int* f) { *f = cfini; return 0; }
int MPI_Finalize() { up(); rpc(FINALIZE, {}); cfini = true; return 0; }
int MPI_Abort(MPI_Comm, int code) { rpc(ABORT, {code}); _exit(96); }
int MPI_Comm_rank(MPI_Comm c, int* r) { up(); *r = c == MPI_COMM_SELF ? 0 : crank; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { up(); *s = c == MPI_COMM_SELF ? 1 : cnp; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { up(); rpc(DUP, {}); *d = c; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return 0; }
int MPI_Info_create(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info*) { return 0; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "mock"); *n = 4; return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int) tsize(t); return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint) p; return 0; }
double MPI_Wtime() { return wset ? wclock : wclock += 0.001; }
double MPI_Wtick() { return 0.001; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { up(); void* m = malloc(n ? n : 1); memset(m, 0x7f, n); *(void**) p = m; rpc(ALLOC, {(long) m, (long) n}); wclock += waside; return 0; }
int MPI_Free_mem(void* p) { up(); long n = rpc(FREE, {(long) p}); if (n > 0) { memset(p, 0x7f, n); if (vf_given) vf_given(p); } return 0; }   // the memory is kept, so that later uses do not crash
int MPI_Win_create(void* b, MPI_Aint n, int unit, MPI_Info, MPI_Comm, MPI_Win* w) { up(); *w = (MPI_Win) (0x1000 + rpc(CREATE, {(long) b, (long) n, unit})); return 0; }
int MPI_Win_allocate(MPI_Aint n, int unit, MPI_Info, MPI_Comm, void* p, MPI_Win* w) { up(); void* m = malloc(n ? n : 1); memset(m, 0x7f, n); *(void**) p = m; *w = (MPI_Win) (0x1000 + rpc(ALLOCATE, {(long) m, (long) n, unit})); return 0; }
int MPI_Win_free(MPI_Win* w) { up(); rpc(WFREE, {wid(*w)}); *w = MPI_WIN_NULL; return 0; }
int MPI_Win_fence(int a, MPI_Win w) { up(); rpc(FENCE, {wid(w), a}); return 0; }
int MPI_Get(void* o, int n, MPI_Datatype t, int target, MPI_Aint disp, int, MPI_Datatype, MPI_Win w) { up(); rpc(GET, {wid(w), (long) o, (long) n * tsize(t), target, (long) disp}); wclock += wcost; return 0; }
int MPI_Put(const void* o, int n, MPI_Datatype t, int target, MPI_Aint disp, int, MPI_Datatype, MPI_Win w) { up(); rpc(PUT, {wid(w), (long) o, (long) n * tsize(t), target, (long) disp}); wclock += wcost; return 0; }
int MPI_Barrier(MPI_Comm) { up(); rpc(BARRIER, {}); return 0; }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm) { up(); const void* b = s == MPI_IN_PLACE ? r : s; rpc(REDUCE, {n, tcode(t), ocode(o), root}, b, n * tsize(t)); if (crank == root && cres.size()) memcpy(r, cres.data(), cres.size()); return 0; }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm) { up(); const void* b = s == MPI_IN_PLACE ? r : s; rpc(ALLREDUCE, {n, tcode(t), ocode(o), 0}, b, n * tsize(t)); if (cres.size()) memcpy(r, cres.data(), cres.size()); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) { up(); rpc(BCAST, {n, tcode(t), 0, root}, b, crank == root ? n * tsize(t) : 0); if (crank != root && cres.size()) memcpy(b, cres.data(), cres.size()); return 0; }
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, int root, MPI_Comm) { up(); wclock += waside; std::string own; const void* b = s == MPI_IN_PLACE ? (const char*) r + crank * n * tsize(t) : s; rpc(GATHER, {n, tcode(t), 0, root}, b, n * tsize(t)); if (crank == root && cres.size()) memcpy(r, cres.data(), cres.size()); return 0; }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm) { up(); if (s == MPI_IN_PLACE) { n = rn; t = rt; s = (char*) r + crank * n * tsize(t); } rpc(ALLGATHER, {n, tcode(t), 0, 0}, s, n * tsize(t)); if (cres.size()) memcpy(r, cres.data(), cres.size()); return 0; }
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* r, const int* cnt, const int* dsp, MPI_Datatype rt, int root, MPI_Comm) {
  up(); rpc(GATHERV, {0, tcode(t), 0, root}, s, n * tsize(t));
  if (crank == root) { long at = 0; for (int k = 0; k < cnp; ++k) { long b = cnt[k] * tsize(rt); if (at + b > (long) cres.size()) break; memcpy((char*) r + dsp[k] * tsize(rt), cres.data() + at, b); at += b; } }
  return 0;
}
}

// ------------------------------------------------------------------ the coordinator
namespace {
struct Mem { long id, n; bool live; };
struct Xfer { int id, origin, target, win; long ep, oaddr, n, disp; bool put, bad; std::vector<char> data; };
struct Win {
  std::vector<long> base, size, unit; std::vector<int> f, st;      // fences entered; 0 not created, 1 live, 2 freed
  std::vector<int> lastNS, ret;                                    // last fence had NOSUCCEED; fences returned
  std::vector<std::vector<char>> snap, seen; std::vector<bool> open;
};
struct Coll { int op = 0; std::vector<std::vector<char>> data; std::vector<bool> in; std::vector<long> a; int win = 0; };
struct Rank { pid_t pid = 0; int fd = -1; enum { RUN, WAIT, DONE, DEAD } st = RUN; Req q; std::vector<char> data; int coll = 0; int fin = 0; };
struct World {
  MockOptions o; std::vector<Rank> R; std::vector<Win> W; std::vector<Coll> C; std::vector<Xfer> X; std::vector<std::map<long, Mem>> M; std::vector<long> nmem;
  std::mt19937 rng; int bad = 0; long events = 0; int nx = 0; std::vector<int> prio; size_t pos = 0; bool quiet = false; int coin = 0;
  void ev(const std::string& s) { ++events; std::cout << o.prefix << s << "}\n"; }
  bool readMem(int r, long addr, long n, std::vector<char>& out) { out.assign(n, 0); if (n <= 0) return true; Rep p = {1, 0, n, addr, 0}; return wrall(R[r].fd, &p, sizeof p) && rdall(R[r].fd, out.data(), n); }
  void writeMem(int r, long addr, const std::vector<char>& d) { if (d.empty()) return; Rep p = {2, 0, (long) d.size(), addr, 0}; wrall(R[r].fd, &p, sizeof p); wrall(R[r].fd, d.data(), d.size()); }
  void finish(int r, long val, const std::vector<char>& d = {}) { Rep p = {0, 0, (long) d.size(), 0, val}; wrall(R[r].fd, &p, sizeof p); if (d.size()) wrall(R[r].fd, d.data(), d.size()); R[r].st = Rank::RUN; }
  bool wok(int r, long w) { return w >= 0 && w < (long) W.size() && W[w].st[r] == 1; }
  static std::string num(long x) { return std::to_string(x); }
  long memOf(int r, long addr, long n) { for (auto& m : M[r]) if (m.second.live && addr >= m.first && addr + n <= m.first + std::max(m.second.n, 1L)) return m.second.id; return 0; }

  bool freed(int r, long addr) { for (auto& m : M[r]) if (!m.second.live && addr >= m.first && addr < m.first + std::max(m.second.n, 1L)) return true; return false; }
  // receive the next request of a running rank and record it
  void receive(int r) {
    Rank& k = R[r]; struct pollfd pf = {k.fd, POLLIN, 0};
    for (;;) {
      int n = poll(&pf, 1, (int) (o.timeout * 1000));
      if (n == 0) { ev("\"e\":\"hang\",\"r\":" + num(r)); kill(k.pid, SIGKILL); waitpid(k.pid, 0, 0); k.st = Rank::DEAD; ++bad; return; }
      if (!rdall(k.fd, &k.q, sizeof k.q)) {
        int s = 0; waitpid(k.pid, &s, 0); k.pid = 0;
        if (WIFEXITED(s) && WEXITSTATUS(s) == 0) { ev("\"e\":\"exit\",\"r\":" + num(r)); k.st = Rank::DONE; }
        else { ev("\"e\":\"dead\",\"r\":" + num(r) + ",\"s\":" + num(WIFSIGNALED(s) ? WTERMSIG(s) : 1000 + WEXITSTATUS(s))); k.st = Rank::DEAD; ++bad; }
        return;
      }
      k.data.resize(k.q.n); if (k.q.n) rdall(k.fd, k.data.data(), k.q.n);
      if (k.q.op == LOG) { ev(std::string(k.data.begin(), k.data.end()) + ",\"r\":" + num(r)); finish(r, 0); continue; }
      break;
    }
    k.st = Rank::WAIT; stores(r); entry(r);
  }
  // exposed memory that the rank changed while an epoch is open
  void stores(int r) {
    for (size_t w = 0; w < W.size(); ++w) if (W[w].st[r] == 1 && W[w].open[r] && W[w].size[r] > 0) {
      std::vector<char> now; readMem(r, W[w].base[r], W[w].size[r], now);
      if (now != W[w].snap[r]) {
        long lo = -1, hi = 0, u = std::max(W[w].unit[r], 1L); for (long i = 0; i < (long) now.size(); ++i) if (now[i] != W[w].snap[r][i]) { if (lo < 0) lo = i; hi = i; }
        ev("\"e\":\"store\",\"r\":" + num(r) + ",\"w\":" + num(w + 1) + ",\"lo\":" + num(lo / u) + ",\"hi\":" + num(hi / u + 1)); W[w].snap[r] = now;
      }
    }
  }
  std::string R_(int r) { return ",\"r\":" + num(r); }
  void entry(int r) {
    Rank& k = R[r]; Req& q = k.q; std::string e = std::string("\"e\":\"") + NAMES[q.op] + "\"" + R_(r);
    long w = q.a[0];
    switch (q.op) {
      case ALLOC: M[r][q.a[0]] = Mem{++nmem[r], q.a[1], true}; ev(e + ",\"a\":" + num(nmem[r]) + ",\"n\":" + num(q.a[1])); break;
      case FREE: { auto it = M[r].find(q.a[0]); bool ok = it != M[r].end() && it->second.live; ev(e + ",\"a\":" + num(ok ? it->second.id : 0)); k.q.a[9] = ok ? it->second.n : 0; if (ok) it->second.live = false; break; }
      case GET: case PUT: {
        long u = wok(r, w) ? std::max(W[w].unit[r], 1L) : 8;
        ev(e + ",\"w\":" + num(w + 1) + ",\"t\":" + num(q.a[3]) + ",\"d\":" + num(q.a[4]) + ",\"n\":" + num(q.a[2] / u));
        Xfer x; x.id = ++nx; x.origin = r; x.target = (int) q.a[3]; x.win = (int) w; x.oaddr = q.a[1]; x.n = q.a[2]; x.put = q.op == PUT;
        bool ok = wok(r, w) && x.target >= 0 && x.target < o.np && W[w].st[x.target] == 1;
        x.disp = ok ? q.a[4] * W[w].unit[x.target] : 0; x.ep = ok ? W[w].f[r] : 0;
        x.bad = !ok || x.disp < 0 || x.n < 0 || x.disp + x.n > W[w].size[x.target];
        if (!x.bad && x.put) readMem(r, x.oaddr, x.n, x.data);
        if (!x.bad && !x.put) { std::vector<char> nan(x.n); for (long i = 0; i + 8 <= x.n; i += 8) { unsigned long v = 0x7ff8dead00000000UL + i; memcpy(&nan[i], &v, 8); } writeMem(r, x.oaddr, nan); x.data = nan; refresh(r, x.oaddr); }
        if (!x.bad) X.push_back(x);
        break; }
      case FENCE: {
        int a = (int) q.a[1]; bool pre = a & MPI_MODE_NOPRECEDE, ns = a & MPI_MODE_NOSUCCEED;
        // exposed memory differs from what it was at the last fence of this process
        bool wr = false;
        if (wok(r, w) && W[w].size[r] > 0) { std::vector<char> now; readMem(r, W[w].base[r], W[w].size[r], now); wr = !W[w].seen[r].empty() && now != W[w].seen[r]; W[w].seen[r] = now; }
        ev(e + ",\"w\":" + num(w + 1) + ",\"pre\":" + (pre ? "true" : "false") + ",\"ns\":" + (ns ? "true" : "false") + ",\"nput\":" + ((a & MPI_MODE_NOPUT) ? "true" : "false") + ",\"nst\":" + ((a & MPI_MODE_NOSTORE) ? "true" : "false") +
           ",\"wr\":" + (wr ? "true" : "false") + ",\"s\":\"fence" + num(w + 1) + (pre ? "p" : "") + (ns ? "s" : "") + "\"");
        if (wok(r, w)) {
          Win& v = W[w]; v.f[r]++; v.lastNS[r] = ns; v.open[r] = false;
          if (!ns) { v.open[r] = true; readMem(r, v.base[r], v.size[r], v.snap[r]); if (o.expose) {
            std::string s = "\"e\":\"expose\"" + R_(r) + ",\"w\":" + num(w + 1) + ",\"v\":["; for (long i = 0; i + 8 <= (long) v.snap[r].size(); i += 8) { double d; memcpy(&d, &v.snap[r][i], 8); s += (i ? "," : "") + num(fabs(d) < 1e8 && d == floor(d) ? (long) d : -2000000000L); } ev(s + "]"); } }
        }
        break; }
      case CREATE: case ALLOCATE: case WFREE: case BARRIER: case REDUCE: case ALLREDUCE: case BCAST: case GATHER: case GATHERV: case ALLGATHER: case FINALIZE: case DUP: {
        int i = k.coll++; if ((int) C.size() <= i) { C.resize(i + 1); C[i].data.resize(o.np); C[i].in.assign(o.np, false); C[i].op = q.op; }
        C[i].in[r] = true; C[i].data[r] = k.data;
        std::string s = NAMES[q.op];
        if (q.op == CREATE || q.op == ALLOCATE) {
          if (!C[i].win) { W.emplace_back(); Win& v = W.back(); v.base.resize(o.np); v.size.resize(o.np); v.unit.resize(o.np); v.f.assign(o.np, 0); v.st.assign(o.np, 0); v.lastNS.assign(o.np, 1); v.ret.assign(o.np, 0); v.snap.resize(o.np); v.seen.resize(o.np); v.open.assign(o.np, false); C[i].win = (int) W.size(); }
          Win& v = W[C[i].win - 1]; v.base[r] = q.a[0]; v.size[r] = q.a[1]; v.unit[r] = q.a[2]; v.st[r] = 1;
          long a = q.op == CREATE ? memOf(r, q.a[0], q.a[1]) : 0;
          e += ",\"w\":" + num(C[i].win) + ",\"n\":" + num(q.a[1] / std::max(q.a[2], 1L)) + ",\"a\":" + num(a) + ",\"known\":" + (q.op == CREATE && !a && freed(r, q.a[0]) ? "false" : "true"); s += num(q.a[2]);
        } else if (q.op == WFREE) { e += ",\"w\":" + num(w + 1); s += num(w + 1); if (wok(r, w)) { W[w].st[r] = 2; W[w].open[r] = false; } }
        else if (q.op >= REDUCE && q.op <= ALLGATHER) for (int j = 0; j < 4; ++j) s += "." + num(q.a[j]);
        ev(e + ",\"s\":\"" + s + "\"");
        break; }
      default: ev(e);
    }
  }
  void refresh(int r, long) { for (auto& v : W) if (v.st[r] == 1 && v.open[r]) readMem(r, v.base[r], v.size[r], v.snap[r]); }
  bool allIn(int i) { for (int r = 0; r < o.np; ++r) if (!C[i].in[r]) return false; return true; }
  bool ready(int r) {
    Req& q = R[r].q;
    switch (q.op) {
      case FENCE: {
        if (!wok(r, q.a[0])) return true; Win& v = W[q.a[0]]; bool pre = q.a[1] & MPI_MODE_NOPRECEDE;
        if (!pre) for (auto& x : X) if (x.win == q.a[0] && x.ep < v.f[r]) return false;
        if (!pre || !o.weak) for (int k = 0; k < o.np; ++k) if (v.f[k] < v.f[r]) return false;
        return true; }
      case REDUCE: case GATHER: case GATHERV: if (o.weak && r != q.a[3]) return true; return allIn(R[r].coll - 1);
      case BCAST: if (o.weak && q.a[3] >= 0 && q.a[3] < o.np) return r == q.a[3] || C[R[r].coll - 1].in[q.a[3]]; return allIn(R[r].coll - 1);
      case CREATE: case ALLOCATE: case WFREE: case BARRIER: case ALLREDUCE: case ALLGATHER: case FINALIZE: case DUP: return allIn(R[r].coll - 1);
    }
    return true;
  }
  bool mayRun(const Xfer& x) { Win& v = W[x.win]; return v.f[x.target] >= x.ep; }
  void transfer(size_t i) {
    Xfer x = X[i]; X.erase(X.begin() + i); Win& v = W[x.win];
    std::string t = R_(x.origin) + ",\"w\":" + num(x.win + 1) + ",\"t\":" + num(x.target) + ",\"d\":" + num(x.disp / std::max(v.unit[x.target], 1L)) + ",\"n\":" + num(x.n / std::max(v.unit[x.target], 1L));
    if (R[x.origin].st != Rank::WAIT || R[x.target].st != Rank::WAIT) { ev("\"e\":\"lost\"" + t); return; }
    std::vector<char> d;
    if (!x.put) {
      readMem(x.origin, x.oaddr, x.n, d); if (d != x.data) ev("\"e\":\"clobber\"" + t);
      readMem(x.target, v.base[x.target] + x.disp, x.n, d); writeMem(x.origin, x.oaddr, d); refresh(x.origin, 0);
    } else { writeMem(x.target, v.base[x.target] + x.disp, x.data); refresh(x.target, 0); }
    ev("\"e\":\"exec\"" + t);
  }
  template <class T> static void red(std::vector<char>& acc, const std::vector<char>& b, int op) {
    for (size_t i = 0; i + sizeof(T) <= acc.size() && i + sizeof(T) <= b.size(); i += sizeof(T)) { T x, y; memcpy(&x, &acc[i], sizeof x); memcpy(&y, &b[i], sizeof y);
      x = op == 0 ? x + y : op == 1 ? std::max(x, y) : op == 2 ? std::min(x, y) : op == 3 ? x * y : op == 4 ? T(x && y) : T(x || y); memcpy(&acc[i], &x, sizeof x); }
  }
  void complete(int r) {
    Req& q = R[r].q; std::vector<char> out; long val = 0; int i = R[r].coll - 1;
    bool logged = true;
    switch (q.op) {
      case CREATE: case ALLOCATE: val = C[i].win - 1; break;
      case FREE: val = q.a[9]; break;
      case REDUCE: case ALLREDUCE: if (q.op == ALLREDUCE || r == q.a[3]) { out = C[i].data[0]; for (int k = 1; k < o.np; ++k) switch (q.a[1]) { case 0: red<double>(out, C[i].data[k], (int) q.a[2]); break; case 1: red<int>(out, C[i].data[k], (int) q.a[2]); break; case 2: red<float>(out, C[i].data[k], (int) q.a[2]); break; case 3: red<long>(out, C[i].data[k], (int) q.a[2]); break; default: red<unsigned long>(out, C[i].data[k], (int) q.a[2]); } } break;
      case BCAST: if (q.a[3] >= 0 && q.a[3] < o.np && r != q.a[3]) out = C[i].data[q.a[3]]; break;
      case GATHER: case GATHERV: if (r != q.a[3]) break;  // fall through
      case ALLGATHER: for (auto& d : C[i].data) out.insert(out.end(), d.begin(), d.end()); break;
      case ALLOC: case GET: case PUT: case INIT: case PRE: case ABORT: logged = false; break;
    }
    if (logged && q.op != FREE) ev("\"e\":\"ret\"" + R_(r));
    finish(r, val, out);
  }
  int choose(std::vector<int>& c) { return c[rng() % c.size()]; }
  void loop() {
    for (int r = 0; r < o.np; ++r) receive(r);
    for (;;) {
      if (events > o.maxEvents) { ev("\"e\":\"endless\",\"r\":0"); ++bad; return; }
      std::vector<int> rr, xx; int live = 0;
      for (int r = 0; r < o.np; ++r) if (R[r].st == Rank::WAIT) { ++live; if (ready(r)) rr.push_back(r); }
      for (size_t i = 0; i < X.size(); ++i) if (mayRun(X[i])) xx.push_back((int) i);
      if (!live) return;
      if (rr.empty() && xx.empty()) { std::string s = "\"e\":\"stuck\",\"r\":0,\"at\":["; for (int r = 0; r < o.np; ++r) s += std::string(r ? "," : "") + "\"" + (R[r].st == Rank::WAIT ? NAMES[R[r].q.op] : R[r].st == Rank::DONE ? "done" : "dead") + "\""; ev(s + "]"); ++bad; return; }
      int x = -1, r = -1;
      if (o.policy == "script") for (int k : rr) if (R[k].q.op != FENCE && R[k].q.op != GET && R[k].q.op != PUT) { r = k; break; }
      if (o.policy == "script" && r < 0 && pos < o.script.size()) {
        int s = o.script[pos++];
        if (s >= 0) { if (std::find(rr.begin(), rr.end(), s) == rr.end()) continue; r = s; }
        else { for (int i : xx) if (X[i].origin == -1 - s) { x = i; break; } if (x < 0) continue; }
      }
      else if (r >= 0) {}
      else if (o.policy == "eager" || (o.policy == "prio" && !coin)) { if (xx.size()) x = xx[0]; }
      else if (o.policy == "lazy" || o.policy == "prio") { if (rr.empty()) x = choose(xx); }
      else { size_t k = rng() % (rr.size() + xx.size()); if (k < xx.size()) x = xx[k]; else r = rr[k - xx.size()]; }
      if (x < 0 && r < 0 && rr.empty()) x = choose(xx);
      if (x >= 0) { transfer(x); continue; }
      if (r < 0) {
        if (o.policy == "prio") { if (rng() % 20 == 0) std::shuffle(prio.begin(), prio.end(), rng); r = *std::min_element(rr.begin(), rr.end(), [&](int a, int b) { return prio[a] < prio[b]; }); }
        else if (o.policy == "eager") r = rr[0]; else r = choose(rr);
      }
      complete(r); receive(r);
    }
  }
};
}
int mockWorld(const MockOptions& o, int (*rankMain)(int, int)) {
  World w; w.o = o; w.rng.seed(o.seed); w.R.resize(o.np); w.M.resize(o.np); w.nmem.assign(o.np, 0); w.coin = o.seed & 1; for (int r = 0; r < o.np; ++r) w.prio.push_back(r); std::shuffle(w.prio.begin(), w.prio.end(), w.rng);
  std::cout.flush(); fflush(stdout); fflush(stderr); pid_t me = getpid();
  for (int r = 0; r < o.np; ++r) {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(1); }
    pid_t p = fork(); if (p < 0) { perror("fork"); exit(1); }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(1);
      for (int k = 0; k < r; ++k) close(w.R[k].fd); close(sv[0]); cfd = sv[1]; crank = r; cnp = o.np;
      if (o.clock.size() > 2 * (size_t) r + 1) { wset = true; wclock = o.clock[2 * r]; wcost = o.clock[2 * r + 1]; waside = o.aside; }
      int rc = rankMain(r, o.np); std::cout.flush(); std::cerr.flush(); fflush(stdout); _exit(rc);
    }
    close(sv[1]); w.R[r].pid = p; w.R[r].fd = sv[0];
  }
  w.loop();
  for (auto& k : w.R) { if (k.pid > 0) { kill(k.pid, SIGKILL); waitpid(k.pid, 0, 0); } close(k.fd); }
  std::cout.flush();
  return w.bad;
}
