// Native replay runtime.  The harness bitcode that the symbolic executor
// judged is compiled to machine code (with LLVM's ThreadSanitizer pass for
// access hooks) and run against the real libstdc++ on one concrete case: the
// solver's input values, allocation faults and thread schedule.  Threads are
// coroutines switched at the recorded points.
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <unordered_map>
#include <cxxabi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
extern "C" { char __libc_single_threaded = 0; }
enum { MAXT = 4 };
struct In { char k; std::string name; long long v; };
static std::vector<In> ins; static size_t inPos; static std::map<std::string, long long> params;
struct Sw { u64 tid, count, next; }; static std::vector<Sw> sws; static size_t swPos;
static bool quiet_ = false;
[[noreturn]] static void out(int code) { fflush(stdout); _exit(code); }
[[noreturn]] static void viol(const char *m) { printf("REPLAY VIOLATION %s\n", m); out(1); }
[[noreturn]] static void diverge(const char *m) { printf("REPLAY DIVERGED %s\n", m); out(3); }
// ---- heap
static u8 *H; static const u64 HS = 1ull << 31; static u64 hTop = 4096; struct Al { u64 base, size; int state; }; static std::vector<Al> &als = *new std::vector<Al>; static u32 *gran; static long live = 0; static int fill = 0xBE;
static long budget = 0, used = 0;
static void *halloc(size_t n, size_t al) {
  if (!H) { H = (u8 *)mmap(0, HS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); gran = (u32 *)mmap(0, HS / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); als.push_back({0, 0, 0}); }
  if (al < 16) al = 16; u64 b = (hTop + 64 + al - 1) & ~(u64)(al - 1); if (al == 16 && (b & 31) == 0) b += 16; hTop = b + n + 64; if (hTop >= HS) diverge("replay heap exhausted");
  u32 id = als.size(); als.push_back({b, n, 1}); for (u64 g = b / 16; g <= (b + (n ? n - 1 : 0)) / 16; g++) gran[g] = id; memset(H + b, fill, n); live++; return H + b; }
static void chk(const void *p, size_t n, bool w) {
  u64 a = (u64)p; if (a < 65536) viol(w ? "memory error: write near null" : "memory error: read near null"); if (!H || a < (u64)H || a >= (u64)H + HS) return; u64 o = a - (u64)H; u32 id = gran[o / 16];
  if (!id) viol("memory error: heap access out of bounds"); Al &x = als[id]; if (o < x.base || o + n > x.base + x.size) viol("memory error: heap access out of bounds"); if (x.state != 1) viol(w ? "memory error: write after free" : "memory error: read after free"); }
// ---- threads
struct Th { ucontext_t uc; int st; void (*fn)(void *); void *arg; u64 sync; u64 vc[MAXT]; int held; void *waitM; int waitJ; char eh[16]; std::vector<char> stk; u64 swCount; };
static Th th[MAXT]; static int nth = 1, cur = 0; static bool mt = false; static long locks = 0;
struct Mx { u32 magic, kind, owner, count; }; static const u32 MAGIC = 0x4d555458, MDEAD = 0x44454144;
struct V { u64 c[MAXT] = {0, 0, 0, 0}; }; static std::unordered_map<u64, V> avc, mvc;
struct Sh { int wt = 0; u64 wc = 0, r[MAXT] = {0}, aw[MAXT] = {0}, ar[MAXT] = {0}; }; static std::unordered_map<u64, Sh> sh;
static void join_(u64 *d, const u64 *s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void tick() { th[cur].vc[cur]++; }
static void switchTo(int n) { int p = cur; memcpy(th[p].eh, __cxxabiv1::__cxa_get_globals(), 16); memcpy(__cxxabiv1::__cxa_get_globals(), th[n].eh, 16); cur = n; swapcontext(&th[p].uc, &th[n].uc); }
static bool mfree(void *m, int t) { Mx *x = (Mx *)m; return x->owner == 0 || ((int)x->owner == t + 1 && x->kind == 1); }
static bool en(int t) { if (th[t].st != 1) return false; if (th[t].waitM && !mfree(th[t].waitM, t)) return false; if (th[t].waitJ && th[th[t].waitJ - 1].st != 2) return false; return true; }
static int anyOther() { for (int i = 0; i < nth; i++) if (i != cur && en(i)) return i; return -1; }
static void syncPoint(void *m, int j) {
  Th &t = th[cur]; t.waitM = m; t.waitJ = j;
  if (swPos < sws.size() && sws[swPos].tid == (u64)cur && sws[swPos].count == t.sync) { int n = (int)sws[swPos++].next; if (!en(n)) diverge("scheduled thread not runnable"); switchTo(n); }
  while (!en(cur)) { int n = anyOther(); if (n < 0) viol("deadlock: every live thread is blocked"); switchTo(n); }
  th[cur].waitM = 0; th[cur].waitJ = 0; th[cur].sync++; }
static void race(const void *p, size_t n, int kind) {
  if (!mt) return; u64 me = th[cur].vc[cur]; const u64 *vc = th[cur].vc;
  for (size_t k = 0; k < n; k++) { Sh &s = sh[(u64)p + k]; bool bad = s.wc && s.wt != cur && s.wc > vc[s.wt];
    for (int t = 0; t < nth && !bad; t++) if (t != cur) { if (kind == 1) bad |= s.r[t] > vc[t] || s.aw[t] > vc[t] || s.ar[t] > vc[t]; else if (kind == 0) bad |= s.aw[t] > vc[t]; else if (kind == 3) bad |= s.r[t] > vc[t]; }
    if (bad) viol("data race");
    if (kind == 0) s.r[cur] = me; else if (kind == 1) { s.wt = cur; s.wc = me; } else if (kind == 2) s.ar[cur] = me; else s.aw[cur] = me; } }
static void tramp() { int me = cur; th[me].fn(th[me].arg); th[me].st = 2; int n = -1; if (swPos < sws.size() && sws[swPos].tid == (u64)me && sws[swPos].count == (~0ull >> 1)) n = (int)sws[swPos++].next; if (n < 0 || !en(n)) n = anyOther(); if (n < 0) viol("deadlock: a thread finished and no other can run"); switchTo(n); abort(); }
static bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } static bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
extern "C" {
long long sx_int(const char *name, long long lo, long long hi) { if (lo == hi) return lo; while (inPos < ins.size() && ins[inPos].k == 'v') inPos++; if (inPos >= ins.size()) diverge("no more inputs"); In &i = ins[inPos++]; if (i.k != 'i' || i.name != name) diverge("input order"); return i.v; }
void sx_assume(int c) { if (!c) diverge("assumption false"); }
void sx_assert(int c, const char *m) { if (!c) { std::string s = std::string("property: ") + m; viol(s.c_str()); } }
void sx_fail(const char *m) { std::string s = std::string("property: ") + m; viol(s.c_str()); }
void sx_reach(const char *) {}
void sx_trace(long long t, long long v) { if (!quiet_) printf("t %lld %lld\n", t, v); }
long long sx_param(const char *n, long long d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
void sx_fault_budget(int n) { budget = n; }
int sx_fault(void) { if (!budget) return 0; while (inPos < ins.size() && ins[inPos].k == 'v') inPos++; if (inPos >= ins.size()) diverge("no more faults"); In &i = ins[inPos++]; if (i.k != 'f') diverge("fault order"); if (i.v) { budget--; used++; } return (int)i.v; }
long long sx_faults_used(void) { return used; }
long long sx_heap_live(void) { return live; }
void *sx_malloc(size_t n, size_t a) { return halloc(n, a); }
void sx_free(void *p) { if (!p) return; u64 a = (u64)p; if (!H || a < (u64)H || a >= (u64)H + HS) viol("memory error: free of invalid pointer"); u64 o = a - (u64)H; u32 id = gran[o / 16]; if (!id || als[id].base != o) viol("memory error: free of invalid pointer"); Al &x = als[id]; if (x.state != 1) viol("memory error: double free"); race(p, x.size > 1024 ? 1024 : x.size, 1); x.state = 2; live--; memset(p, 0xDD, x.size); }
int sx_thread(void (*fn)(void *), void *arg) { int id = nth++; if (id >= MAXT) abort(); Th &t = th[id]; mt = true; t.st = 1; t.fn = fn; t.arg = arg; t.sync = 0; memcpy(t.vc, th[cur].vc, sizeof t.vc); t.vc[id] = th[cur].vc[id] + 1; tick(); t.stk.resize(1 << 20); getcontext(&t.uc); t.uc.uc_stack.ss_sp = t.stk.data(); t.uc.uc_stack.ss_size = t.stk.size(); t.uc.uc_link = 0; makecontext(&t.uc, tramp, 0); return id; }
void sx_join(int id) { syncPoint(0, id + 1); join_(th[cur].vc, th[id].vc); bool all = true; for (int i = 0; i < nth; i++) if (i != cur && th[i].st == 1) all = false; if (all) mt = false; }
int sx_self(void) { return cur; }
void sx_point(void) { syncPoint(0, 0); }
int sx_mutexes_held(void) { return th[cur].held; }
long long sx_lock_count(void) { return locks; }
long long sx_concrete(long long v) { return v; }
int sxn_mutexattr_init(u32 *a) { *a = 0; return 0; } int sxn_mutexattr_settype(u32 *a, int k) { *a = k; return 0; } int sxn_mutexattr_destroy(u32 *) { return 0; }
int sxn_mutex_init(Mx *m, const u32 *a) { chk(m, 40, true); race(m, 40, 1); m->magic = MAGIC; m->kind = a ? *a : 0; m->owner = m->count = 0; return 0; }
static void mck(Mx *m) { chk(m, 40, true); if (m->magic == MDEAD) viol("mutex error: use of a destroyed mutex"); if (m->magic == 0) { m->magic = MAGIC; m->kind = m->owner = m->count = 0; } else if (m->magic != MAGIC) viol("mutex error: use of an uninitialised mutex"); }
static void take(Mx *m) { m->owner = cur + 1; m->count++; th[cur].held++; locks++; join_(th[cur].vc, mvc[(u64)m].c); }
int sxn_mutex_lock(Mx *m) { mck(m); if ((int)m->owner == cur + 1 && m->kind != 1) viol("deadlock: thread locks a mutex it already holds"); syncPoint(m, 0); mck(m); take(m); return 0; }
int sxn_mutex_trylock(Mx *m) { mck(m); syncPoint(0, 0); mck(m); if (!mfree(m, cur)) return 16; take(m); return 0; }
int sxn_mutex_unlock(Mx *m) { mck(m); if ((int)m->owner != cur + 1) viol("mutex error: unlock of a mutex this thread does not hold"); th[cur].sync++; if (--m->count == 0) m->owner = 0; th[cur].held--; V &v = mvc[(u64)m]; memcpy(v.c, th[cur].vc, sizeof v.c); tick(); return 0; }
int sxn_mutex_destroy(Mx *m) { mck(m); if (m->owner) viol("mutex error: destruction of a locked mutex"); race(m, 40, 1); m->magic = MDEAD; return 0; }
void *sxn_new(size_t n) { if (sx_fault()) throw std::bad_alloc(); return halloc(n, 16); }
void *sxn_new_al(size_t n, size_t a) { if (sx_fault()) throw std::bad_alloc(); return halloc(n, a); }
void *sxn_new_nt(size_t n, const std::nothrow_t &) { if (sx_fault()) return 0; return halloc(n, 16); }
void *sxn_malloc(size_t n) { if (sx_fault()) return 0; return halloc(n, 16); }
void *sxn_newa(size_t n) { return sxn_new(n); } void sxn_free(void *p) { sx_free(p); } void sxn_deletea(void *p) { sx_free(p); } void sxn_delete_sza(void *p, size_t) { sx_free(p); } void sxn_delete_nt(void *p, const std::nothrow_t &) { sx_free(p); }
void sxn_delete(void *p) { sx_free(p); } void sxn_delete_sz(void *p, size_t) { sx_free(p); } void sxn_delete_sz_al(void *p, size_t, size_t) { sx_free(p); }
// ---- access hooks
#define RW(N) void __tsan_read##N(void *p) { chk(p, N, false); race(p, N, 0); } void __tsan_write##N(void *p) { chk(p, N, true); race(p, N, 1); } void __tsan_unaligned_read##N(void *p) { __tsan_read##N(p); } void __tsan_unaligned_write##N(void *p) { __tsan_write##N(p); } void __tsan_read_write##N(void *p) { __tsan_read##N(p); __tsan_write##N(p); } void __tsan_unaligned_read_write##N(void *p) { __tsan_read_write##N(p); } \
  void __tsan_volatile_read##N(void *p) { __tsan_read##N(p); } void __tsan_volatile_write##N(void *p) { __tsan_write##N(p); } void __tsan_unaligned_volatile_read##N(void *p) { __tsan_read##N(p); } void __tsan_unaligned_volatile_write##N(void *p) { __tsan_write##N(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { chk(p, 8, true); race(p, 8, 1); } void __tsan_vptr_read(void **p) { chk(p, 8, false); race(p, 8, 0); }
void __tsan_read_range(void *p, size_t n) { chk(p, n, false); race(p, n, 0); } void __tsan_write_range(void *p, size_t n) { chk(p, n, true); race(p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { chk(s, n, false); chk(d, n, true); race(s, n, 0); race(d, n, 1); } return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) { chk(d, n, true); race(d, n, 1); } return memset(d, c, n); }
static void aRmw(volatile void *p, size_t n, int mo) { chk((void *)p, n, true); syncPoint(0, 0); chk((void *)p, n, true); if (mt) { race((void *)p, n, 3); V &v = avc[(u64)p]; if (isAcq(mo)) join_(th[cur].vc, v.c); if (isRel(mo)) { join_(v.c, th[cur].vc); tick(); } } }
#define AT(B, TY) \
  TY __tsan_atomic##B##_load(const volatile TY *p, int mo) { chk((void *)p, B / 8, false); syncPoint(0, 0); chk((void *)p, B / 8, false); if (mt) { race((void *)p, B / 8, 2); if (isAcq(mo)) { join_(th[cur].vc, avc[(u64)p].c); if (B == 64 && avc.count((u64)p + 4)) join_(th[cur].vc, avc[(u64)p + 4].c); } } return *p; } \
  void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) { chk((void *)p, B / 8, true); syncPoint(0, 0); chk((void *)p, B / 8, true); if (mt) { race((void *)p, B / 8, 3); V &x = avc[(u64)p]; if (isRel(mo)) { memcpy(x.c, th[cur].vc, sizeof x.c); tick(); } else memset(x.c, 0, sizeof x.c); } *p = v; } \
  TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int mo) { aRmw(p, B / 8, mo); TY o = *p; *p = v; return o; } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int mo) { aRmw(p, B / 8, mo); TY o = *p; *p = o + v; return o; } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int mo) { aRmw(p, B / 8, mo); TY o = *p; *p = o - v; return o; } \
  TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int mo) { aRmw(p, B / 8, mo); TY o = *p; *p = o & v; return o; } \
  TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int mo) { aRmw(p, B / 8, mo); TY o = *p; *p = o | v; return o; } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int mo) { aRmw(p, B / 8, mo); TY o = *p; *p = o ^ v; return o; } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY d, int mo, int fmo) { chk((void *)p, B / 8, true); syncPoint(0, 0); chk((void *)p, B / 8, true); TY o = *p; bool eq = o == e; if (mt) { race((void *)p, B / 8, eq ? 3 : 2); V &v = avc[(u64)p]; if (isAcq(eq ? mo : fmo)) join_(th[cur].vc, v.c); if (eq && isRel(mo)) { join_(v.c, th[cur].vc); tick(); } } if (eq) *p = d; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
static void onSig(int s) { const char *m = s == SIGALRM ? "REPLAY VIOLATION no termination\n" : "REPLAY VIOLATION crash (signal)\n"; fflush(stdout); (void)!write(1, m, strlen(m)); _exit(1); }
static void onTerm() { viol("std::terminate called"); }
int main(int argc, char **argv) { *(volatile char *)&__libc_single_threaded = 0;   // the C library sets it at start
  FILE *f = fopen(argv[1], "r"); if (!f) return 2; static char line[4096]; std::string entry;
  while (fgets(line, sizeof line, f)) { char a[256]; long long v, w, x; if (sscanf(line, "entry %255s", a) == 1) entry = a; else if (sscanf(line, "param %255s %lld", a, &v) == 2) params[a] = v; else if (line[0] == 'i' && line[1] == ' ') { sscanf(line, "i %255s %lld", a, &v); ins.push_back({'i', a, v}); } else if (line[0] == 'f' && line[1] == ' ') { sscanf(line, "f %255s %lld", a, &v); ins.push_back({'f', a, v}); } else if (line[0] == 's' && line[1] == ' ') { sscanf(line, "s %lld %lld %lld", &v, &w, &x); sws.push_back({(u64)v, (u64)w, (u64)x}); } else if (!strncmp(line, "end", 3)) break; }
  fclose(f); if (getenv("SX_FILL")) fill = atoi(getenv("SX_FILL"));
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str()); if (!fn) { printf("no entry %s\n", entry.c_str()); return 2; }
  static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0); struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGTRAP, &sa, 0); sigaction(SIGALRM, &sa, 0); alarm(30);
  std::set_terminate(onTerm); for (int i = 0; i < MAXT; i++) th[i].vc[i] = 1; th[0].st = 1; memset(th[0].eh, 0, 16);
  fn(); printf("REPLAY OK\n"); out(0);
}
