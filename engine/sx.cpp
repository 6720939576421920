// sx: a symbolic executor for LLVM 18 IR, deciding path conditions with Z3.
//
//   sx MODULE.bc --entry F --out DIR [--workers N] [--preempt B] [--deadline S]
//      [--param name=value]... [--maxsteps N] [--samples N]
//
// One path is interpreted at a time; every mutation of machine state goes
// through an undo trail, so a fork is a choice point (depth-first).  Idle
// cores take the oldest pending choice point of a running worker (fork(2)).
// Inputs, allocation faults and the thread schedule are solver variables.
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <execinfo.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64; typedef int32_t i32;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options
static std::string gEntry, gOut; static int gWorkers = 8, gPreempt = 2, gSamples = 6, gMaxViol = 6;
static double gDeadline = 600; static u64 gMaxSteps = 20000000; static std::map<std::string, i64> gParams;
static int gVerbose = 0; static u64 gSeed = 1;

// ---------------------------------------------------------------- shared stats
enum { MAXLABEL = 256, NCLASS = 1 << 16 };
struct Shared {
  std::atomic<int> active, stop, timeout, unknown, crashed, newShared;
  std::atomic<u64> paths, killed, forks, schedForks, faultForks, steps, queries, qsat, qunsat, qunk, qcached, solverUs, nviol, samples, asserts, symAsserts, incomplete, maxDepth, races, preemptLimited, syncPoints;
  std::atomic<u64> label[MAXLABEL];
  std::atomic<u64> hist[64];
  char incompleteMsg[512];
  std::atomic<u64> cls[NCLASS];      // object class key -> high bit: shared
};
static Shared *SH;
static u8 *COV; static u64 nOps = 0;

// ---------------------------------------------------------------- values
struct Val { u64 c; Z3_ast e; };
static Z3_context Z; static Z3_sort BVS[65]; static Z3_sort BOOL;
static inline u64 maskw(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline i64 sext(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline Val C(u64 v) { return Val{v, nullptr}; }

struct PathKill {};        // path ends silently (infeasible, or finished)

// ---------------------------------------------------------------- trail
struct TE { u64 *p; u64 old; };
static std::vector<TE> trail; static bool trailOn = true;
static inline void T64(u64 *p, u64 v) { if (*p != v) { if (trailOn) trail.push_back({p, *p}); *p = v; } }
static size_t instrTrail = 0;

static std::vector<Z3_ast> owned;
static Z3_ast O(Z3_ast a) { if (!a) { fprintf(stderr, "z3 null ast\n"); abort(); } Z3_inc_ref(Z, a); owned.push_back(a); return a; }
static std::vector<Z3_ast> pc;                    // path condition
static std::unordered_map<Z3_ast, bool> lits; static std::vector<Z3_ast> litLog;
static void addLit(Z3_ast a, bool v) { if (lits.emplace(a, v).second) litLog.push_back(a); }
static Z3_model model = nullptr;                  // satisfies pc (completion 0)
static void setModel(Z3_model m) { if (m) Z3_model_inc_ref(Z, m); if (model) Z3_model_dec_ref(Z, model); model = m; }

struct Input { Z3_ast e; std::string name; i64 lo; unsigned w; int kind; };  // kind 0 input, 1 fault, 2 sched, 3 undef
static std::vector<Input> inputs; static u64 nInputs = 0;   // nInputs trailed
struct TraceEv { i64 tag; Val v; };
static std::vector<TraceEv> traceBuf; static u64 nTrace = 0;
struct SchedEv { u64 tid, count, next; };
static std::vector<SchedEv> schedBuf; static u64 nSched = 0;

struct Choice {
  int kind;                 // 0 branch, 1 choose
  size_t mark, pcLen, litLen, ownedLen; u64 bump, steps;
  Z3_ast alt; Z3_model altModel;
  int next, n;
};
static std::vector<Choice> choices; static int pending = -1; static u64 cpBump = 0;
static size_t maxDepth = 0; static u64 stepsPath = 0, lSync = 0, lLim = 0; static bool usesThreads = false;

// ---------------------------------------------------------------- solver
static Z3_solver solver; static std::vector<Z3_ast> sstack;
static void ssync() {
  size_t k = 0; while (k < sstack.size() && k < pc.size() && sstack[k] == pc[k]) k++;
  if (sstack.size() > k) { Z3_solver_pop(Z, solver, sstack.size() - k); sstack.resize(k); }
  for (; k < pc.size(); k++) { Z3_solver_push(Z, solver); Z3_solver_assert(Z, solver, pc[k]); sstack.push_back(pc[k]); }
}
// returns 1 sat (model in *m, caller owns a ref), 0 unsat, -1 unknown
static int queryFull(Z3_ast extra, Z3_model *m) {
  double t0 = now(); ssync();
  Z3_solver_push(Z, solver); if (extra) Z3_solver_assert(Z, solver, extra);
  Z3_lbool r = Z3_solver_check(Z, solver);
  if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(Z, solver); Z3_model_inc_ref(Z, *m); }
  Z3_solver_pop(Z, solver, 1);
  SH->queries++; SH->solverUs += (u64)((now() - t0) * 1e6);
  if (r == Z3_L_TRUE) { SH->qsat++; return 1; } if (r == Z3_L_FALSE) { SH->qunsat++; return 0; }
  SH->qunk++; SH->unknown = 1; return -1;
}
// Only the constraints that share variables (transitively) with the queried
// condition matter; the answer to such a slice is kept, keyed by its terms.
static std::unordered_map<Z3_ast, u32> varId; static std::vector<Z3_ast> varAst;
static std::unordered_map<Z3_ast, std::vector<u32>> varsMemo;
static const std::vector<u32> &varsOf(Z3_ast a) {
  auto it = varsMemo.find(a); if (it != varsMemo.end()) return it->second;
  std::vector<u32> out; 
  if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, ap);
    if (n == 0) { if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_UNINTERPRETED) { auto v = varId.find(a); if (v == varId.end()) { Z3_inc_ref(Z, a); v = varId.emplace(a, (u32)varAst.size()).first; varAst.push_back(a); } out.push_back(v->second); } }
    else for (unsigned i = 0; i < n; i++) { const std::vector<u32> &x = varsOf(Z3_get_app_arg(Z, ap, i)); out.insert(out.end(), x.begin(), x.end()); }
  }
  std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
  Z3_inc_ref(Z, a); return varsMemo.emplace(a, std::move(out)).first->second;
}
struct CacheEnt { int r; std::vector<std::pair<u32, Z3_ast>> val; };
static std::map<std::vector<Z3_ast>, CacheEnt> qcache; static Z3_solver solver2; 
static int query(Z3_ast extra, Z3_model *m) {
  if (!extra) return queryFull(extra, m);
  const std::vector<u32> &ev = varsOf(extra); static std::vector<u8> in; std::vector<u32> set(ev); if (in.size() < varAst.size() + 64) in.resize(varAst.size() + 256); 
  for (u32 v : ev) in[v] = 1;
  std::vector<Z3_ast> key; std::vector<const std::vector<u32> *> pv(pc.size()); for (size_t i = 0; i < pc.size(); i++) pv[i] = &varsOf(pc[i]); if (in.size() < varAst.size() + 64) in.resize(varAst.size() + 256);
  std::vector<u8> used(pc.size(), 0);
  for (bool more = true; more;) { more = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : *pv[i]) if (in[v]) { hit = true; break; } if (!hit) continue; used[i] = 1; key.push_back(pc[i]); for (u32 v : *pv[i]) if (!in[v]) { in[v] = 1; set.push_back(v); more = true; } } }
  for (u32 v : set) in[v] = 0;
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(extra);
  auto it = qcache.find(key);
  if (it != qcache.end()) SH->qcached++;
  else {
    double t0 = now(); Z3_solver_push(Z, solver2); for (Z3_ast a : key) Z3_solver_assert(Z, solver2, a);
    Z3_lbool r = Z3_solver_check(Z, solver2); CacheEnt c; c.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (c.r == 1) { Z3_model mm = Z3_solver_get_model(Z, solver2); Z3_model_inc_ref(Z, mm); for (u32 v : set) { Z3_ast x; if (!Z3_model_eval(Z, mm, varAst[v], true, &x)) abort(); Z3_inc_ref(Z, x); c.val.push_back({v, x}); } Z3_model_dec_ref(Z, mm); }
    Z3_solver_pop(Z, solver2, 1);
    SH->queries++; SH->solverUs += (u64)((now() - t0) * 1e6);
    if (c.r == 1) SH->qsat++; else if (c.r == 0) SH->qunsat++; else { SH->qunk++; SH->unknown = 1; return -1; }
    if (qcache.size() > 400000) { for (auto &e : qcache) for (auto &v : e.second.val) Z3_dec_ref(Z, v.second); qcache.clear(); }
    it = qcache.emplace(std::move(key), std::move(c)).first;
  }
  if (it->second.r != 1 || !m) return it->second.r;
  Z3_model nm = Z3_mk_model(Z); Z3_model_inc_ref(Z, nm);
  for (auto &v : it->second.val) { in[v.first] = 1; Z3_add_const_interp(Z, nm, Z3_get_app_decl(Z, Z3_to_app(Z, varAst[v.first])), v.second); }
  if (model) { unsigned n = Z3_model_get_num_consts(Z, model); for (unsigned i = 0; i < n; i++) { Z3_func_decl d = Z3_model_get_const_decl(Z, model, i); Z3_ast a = Z3_mk_app(Z, d, 0, nullptr); Z3_inc_ref(Z, a); auto vi = varId.find(a); if (vi == varId.end() || !in[vi->second]) { Z3_ast x = Z3_model_get_const_interp(Z, model, d); if (x) Z3_add_const_interp(Z, nm, d, x); } Z3_dec_ref(Z, a); } }
  for (auto &v : it->second.val) in[v.first] = 0;
  *m = nm; return 1;
}
static bool evalBool(Z3_model m, Z3_ast e) {
  Z3_ast r; if (!m) { static Z3_model em = nullptr; if (!em) { em = Z3_mk_model(Z); Z3_model_inc_ref(Z, em); } m = em; }
  if (!Z3_model_eval(Z, m, e, true, &r)) { fprintf(stderr, "eval failed\n"); abort(); }
  Z3_inc_ref(Z, r); bool b = Z3_get_bool_value(Z, r) == Z3_L_TRUE; Z3_dec_ref(Z, r); return b;
}
static u64 evalBV(Z3_model m, Z3_ast e) {
  Z3_ast r; if (!m) { static Z3_model em = nullptr; if (!em) { em = Z3_mk_model(Z); Z3_model_inc_ref(Z, em); } m = em; }
  if (!Z3_model_eval(Z, m, e, true, &r)) { fprintf(stderr, "eval failed\n"); abort(); }
  Z3_inc_ref(Z, r); u64 v = 0; 
  if (Z3_get_sort_kind(Z, Z3_get_sort(Z, r)) == Z3_BOOL_SORT) v = Z3_get_bool_value(Z, r) == Z3_L_TRUE;
  else if (!Z3_get_numeral_uint64(Z, r, &v)) { fprintf(stderr, "eval: not a numeral\n"); abort(); }
  Z3_dec_ref(Z, r); return v;
}
static Val mk(Z3_ast e0, unsigned w) {
  O(e0); Z3_ast s = O(Z3_simplify(Z, e0));
  if (w == 1) { Z3_lbool b = Z3_get_bool_value(Z, s); if (b == Z3_L_TRUE) return C(1); if (b == Z3_L_FALSE) return C(0); }
  else if (Z3_get_ast_kind(Z, s) == Z3_NUMERAL_AST) { u64 v = 0; if (Z3_get_numeral_uint64(Z, s, &v)) return C(v); }
  return Val{0, s};
}
static Z3_ast ex(Val v, unsigned w) {
  if (v.e) return v.e;
  if (w == 1) return O(v.c & 1 ? Z3_mk_true(Z) : Z3_mk_false(Z));
  return O(Z3_mk_unsigned_int64(Z, maskw(v.c, w), BVS[w]));
}
static Z3_ast mkNot(Z3_ast a) { return O(Z3_simplify(Z, O(Z3_mk_not(Z, a)))); }
static void pcAdd(Z3_ast a) { pc.push_back(a); addLit(a, true); }

static void pushChoice(Choice c) {
  c.mark = instrTrail; c.pcLen = pc.size(); c.litLen = litLog.size(); c.ownedLen = owned.size();
  extern u64 bumpTop; c.bump = bumpTop; cpBump = bumpTop; c.steps = stepsPath;
  choices.push_back(c); trailOn = true; if (choices.size() > maxDepth) maxDepth = choices.size();
}
// Decide a boolean condition on this path; forks when both sides are feasible.
static bool decide(Val v) {
  if (!v.e) return v.c & 1;
  auto it = lits.find(v.e); if (it != lits.end()) return it->second;
  bool b = evalBool(model, v.e);
  Z3_ast pos = v.e, neg = mkNot(v.e);
  { auto i2 = lits.find(neg); if (i2 != lits.end()) return !i2->second; }
  Z3_ast taken = b ? pos : neg, other = b ? neg : pos;
  Z3_model m2 = nullptr; int r = query(other, &m2);
  if (r < 0) throw PathKill();
  if (r == 0) { addLit(pos, b); addLit(neg, !b); return b; }
  SH->forks++;
  Choice c{}; c.kind = 0; c.alt = other; c.altModel = m2; pushChoice(c);
  pcAdd(taken); addLit(other, false);
  return b;
}
static u64 conc(Val v, unsigned w) {
  if (!v.e) return v.c;
  u64 x = evalBV(model, v.e);
  if (w == 1) return decide(v);
  Val eq = mk(Z3_mk_eq(Z, v.e, O(Z3_mk_unsigned_int64(Z, x, BVS[w]))), 1);
  if (decide(eq)) return x;
  // only reached when the literal was already known false: try again
  for (int i = 0; i < 4096; i++) {
    Z3_model m2 = nullptr; int r = query(nullptr, &m2); if (r <= 0) throw PathKill();
    setModel(m2); Z3_model_dec_ref(Z, m2); x = evalBV(model, v.e);
    eq = mk(Z3_mk_eq(Z, v.e, O(Z3_mk_unsigned_int64(Z, x, BVS[w]))), 1);
    if (decide(eq)) return x;
  }
  throw PathKill();
}
static int choose(int n) {
  if (pending >= 0) { int p = pending; pending = -1; return p; }
  if (n > 1) { Choice c{}; c.kind = 1; c.next = 1; c.n = n; c.altModel = model; if (model) Z3_model_inc_ref(Z, model); pushChoice(c); }
  return 0;
}

// ---------------------------------------------------------------- memory
// Address space: 64KB slots; an object starts 0x1000 (+16 for default heap
// alignment) into its first slot; slots are never reused within a path.
static const u64 SLOT0 = 0x1000000000ull; enum { SLOTBITS = 16, MAXSLOT = 1 << 22 };
static const u64 ARENA = 1ull << 30;
struct SymB { u64 e; u64 idx; };          // byte idx of expression e (whose width is a multiple of 8)
static u8 *D, *M; static SymB *S;
struct ShadowB { u16 wt, wc, r[4], aw[4], ar[4]; u16 pad[2]; };  // 32 bytes
static ShadowB *SW;
u64 bumpTop = 64;
enum { LIVE = 1, FREED = 2, DEADSTK = 3 }; enum { KGLOBAL = 0, KCONST, KHEAP, KSTACK, KFUNC };
struct Obj { u64 base, size, off, state, kind, next, cls, tmask, site, swInit; };
static Obj *objs; static u64 nObjs = 1; static u32 *slotObj; static u64 nSlots = 0;
struct Func; static std::unordered_map<u64, Func *> funcAt;
static std::vector<std::string> gSiteName;
static u64 heapLive = 0, faultBudget = 0, faultsUsed = 0, lockCount = 0, nFaultPts = 0;

static u64 newObj(u64 size, u64 align, int kind, u64 site, u64 cls) {
  u64 i = nObjs; T64(&nObjs, i + 1);
  if (i >= (1u << 22)) { fprintf(stderr, "too many objects\n"); abort(); }
  u64 al = align < 16 ? 16 : align;
  u64 pad = (kind == KHEAP && al == 16) ? 0x1010 : 0x1000;
  u64 ns = (size + pad + 0x1000 + 0xffff) >> SLOTBITS;
  u64 s = nSlots; if (s + ns >= MAXSLOT) { fprintf(stderr, "address space exhausted\n"); abort(); }
  T64(&nSlots, s + ns);
  for (u64 k = 0; k < ns; k++) slotObj[s + k] = (u32)i;
  u64 off = (bumpTop + 15) & ~15ull; u64 sz = (size + 15) & ~15ull; if (!sz) sz = 16;
  if (off + sz >= ARENA) { fprintf(stderr, "arena exhausted\n"); abort(); }
  T64(&bumpTop, off + sz);
  memset(M + off, 2, sz);
  Obj &o = objs[i]; u64 *f = (u64 *)&o; Obj n{SLOT0 + (s << SLOTBITS) + pad, size, off, LIVE, (u64)kind, 0, cls, 0, site, 0};
  u64 *g = (u64 *)&n; for (unsigned k = 0; k < sizeof(Obj) / 8; k++) f[k] = g[k];   // index >= nObjs at any older choice point
  return i;
}
static inline Obj *objOf(u64 a) {
  u64 s = (a - SLOT0) >> SLOTBITS; if (a < SLOT0 || s >= nSlots) return nullptr; return &objs[slotObj[s]];
}
[[noreturn]] static void violation(const std::string &msg, Z3_model m = nullptr);
[[noreturn]] static void incomplete(const std::string &msg);

static void logRange(u64 off, u64 n) {
  if (!trailOn || off >= cpBump || !n) return;
  for (u64 a = off & ~7ull; a < off + n; a += 8) {
    trail.push_back({(u64 *)(D + a), *(u64 *)(D + a)});
    u64 mm = *(u64 *)(M + a); trail.push_back({(u64 *)(M + a), mm});
    if (mm & 0x0101010101010101ull) for (int k = 0; k < 8; k++) if (M[a + k] == 1) {
      trail.push_back({&S[a + k].e, S[a + k].e}); trail.push_back({&S[a + k].idx, S[a + k].idx}); }
  }
}

// ---------------------------------------------------------------- threads
enum { MAXT = 4, MAXFR = 4096, MAXREG = 1 << 17 };
struct Op;
struct Frame { Func *f; u64 pc, reg, ret, allocas; };
struct Thread { u64 st, nfr, regTop, waitMutex, waitJoin, granted, parked, vc[MAXT], sync, held, excObj, excSel, noCls; };
static Thread *T; static Frame *FR[MAXT]; static Val *RG[MAXT];
static u64 cur = 0, nThreads = 1, preempts = 0, mtOn = 0;
static Frame &top() { return FR[cur][T[cur].nfr - 1]; }
struct VC { u64 c[MAXT]; }; static VC *vcs; static u64 nVcs = 1; enum { MAXVC = 1 << 18 };
struct AT { u64 addr, vc; }; static AT *atab; enum { NAT = 1 << 16 };
static u64 newVc() { u64 i = nVcs; if (i >= MAXVC) { fprintf(stderr, "vc exhausted\n"); abort(); } T64(&nVcs, i + 1); for (int k = 0; k < MAXT; k++) vcs[i].c[k] = 0; return i; }
static u64 atomVc(u64 addr) {
  u64 h = (addr * 0x9E3779B97F4A7C15ull) >> 48;
  for (u64 k = 0; k < NAT; k++) { AT &t = atab[(h + k) & (NAT - 1)]; if (t.addr == addr) return t.vc; if (!t.addr) { u64 v = newVc(); T64(&t.addr, addr); T64(&t.vc, v); return v; } }
  abort();
}
static void vcJoin(u64 *dst, const u64 *src) { for (int k = 0; k < MAXT; k++) if (src[k] > dst[k]) T64(&dst[k], src[k]); }
static void vcAcq(u64 v) { vcJoin(T[cur].vc, vcs[v].c); }
static void tick() { T64(&T[cur].vc[cur], T[cur].vc[cur] + 1); if (T[cur].vc[cur] > 65000) incomplete("vector clock overflow"); }
static void vcRel(u64 v) { for (int k = 0; k < MAXT; k++) T64(&vcs[v].c[k], T[cur].vc[k]); tick(); }
static void vcRelJoin(u64 v) { vcJoin(vcs[v].c, T[cur].vc); tick(); }

static void clsTouch(Obj &o) {
  u64 m = o.tmask | (1u << cur);
  if (m != o.tmask) { T64(&o.tmask, m); if ((m & (m - 1)) && o.cls) {
      std::atomic<u64> &c = SH->cls[o.cls]; u64 old = c.fetch_or(1ull << 63); if (!(old >> 63)) SH->newShared = 1; } }
}
static void shLog(u64 off) { if (trailOn && off < cpBump) { u64 *p = (u64 *)&SW[off]; for (int k = 0; k < 4; k++) trail.push_back({p + k, p[k]}); } }
// kind: 0 read 1 write 2 atomic read 3 atomic write
static void raceCheck(Obj &o, u64 addr, u64 n, int kind, const char *what = nullptr) {
  clsTouch(o); if (!o.swInit) { memset(&SW[o.off], 0, ((o.size + 15) & ~15ull) * sizeof(ShadowB)); T64(&o.swInit, 1); }
  u64 off = o.off + (addr - o.base); const u64 *vc = T[cur].vc; u16 me = (u16)vc[cur];
  for (u64 k = 0; k < n; k++) {
    ShadowB &s = SW[off + k]; bool bad = false;
    if (s.wc && s.wt != cur && s.wc > vc[s.wt]) bad = true;
    for (unsigned t = 0; t < nThreads && !bad; t++) if (t != cur) {
      if (kind == 1) bad |= s.r[t] > vc[t] || s.aw[t] > vc[t] || s.ar[t] > vc[t];
      else if (kind == 0) bad |= s.aw[t] > vc[t];
      else if (kind == 3) bad |= s.r[t] > vc[t];
    }
    if (bad) { SH->races++; violation(std::string("data race: ") + (what ? what : kind == 0 ? "read" : kind == 1 ? "write" : kind == 2 ? "atomic read" : "atomic write")); }
    if (kind == 0 && s.r[cur] == me) continue; if (kind == 1 && s.wt == cur && s.wc == me) continue;
    shLog(off + k);
    if (kind == 0) s.r[cur] = me; else if (kind == 1) { s.wt = (u16)cur; s.wc = me; } else if (kind == 2) s.ar[cur] = me; else s.aw[cur] = me;
  }
}

static std::string addrDesc(u64 a) {
  Obj *o = objOf(a); char b[200];
  if (!o) { snprintf(b, sizeof b, "0x%llx (%s)", (unsigned long long)a, a < 4096 ? "null" : "wild"); return b; }
  const char *k[] = {"global", "constant", "heap object", "stack object", "function"};
  snprintf(b, sizeof b, "%s #%ld size %llu offset %lld%s", k[o->kind], (long)(o - objs), (unsigned long long)o->size, (long long)(a - o->base), o->state == FREED ? " (freed)" : o->state == DEADSTK ? " (dead frame)" : "");
  return b;
}
static Obj &access(u64 a, u64 n, bool write) {
  Obj *o = objOf(a);
  if (!o || a < o->base || a + n > o->base + o->size || o->kind == KFUNC) violation(std::string("memory error: out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + addrDesc(a));
  if (o->state != LIVE) violation(std::string("memory error: use after ") + (o->kind == KHEAP ? "free" : "scope exit") + ", " + (write ? "write" : "read") + " at " + addrDesc(a));
  if (write && o->kind == KCONST) violation("memory error: write to constant");
  return *o;
}
static Z3_ast freshVar(const char *nm, Z3_sort s) { return O(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), s)); }
static u64 nUndef = 0;
static Val loadRaw(u64 off, u64 n, unsigned w) {
  bool sym = false, und = false; for (u64 k = 0; k < n; k++) { if (M[off + k] == 1) sym = true; else if (M[off + k] == 2) und = true; }
  if (und) {
    logRange(off, n);
    for (u64 k = 0; k < n;) { if (M[off + k] != 2) { k++; continue; } u64 j = k; while (j < n && M[off + j] == 2) j++;
      char nm[40]; snprintf(nm, sizeof nm, "undef!%llu", (unsigned long long)nUndef); T64(&nUndef, nUndef + 1);
      Z3_ast v = freshVar(nm, BVS[8 * (j - k)]);
      for (u64 q = k; q < j; q++) { M[off + q] = 1; S[off + q] = {(u64)v, q - k}; }
      k = j; }
    sym = true;
  }
  if (!sym) { u64 v = 0; memcpy(&v, D + off, n); return C(maskw(v, w)); }
  Z3_ast r = nullptr;
  for (u64 k = 0; k < n;) {
    Z3_ast piece; u64 j = k + 1;
    if (M[off + k] == 1) {
      Z3_ast e = (Z3_ast)S[off + k].e; u64 i0 = S[off + k].idx; unsigned ew = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e));
      while (j < n && M[off + j] == 1 && (Z3_ast)S[off + j].e == e && S[off + j].idx == i0 + (j - k)) j++;
      piece = (i0 == 0 && 8 * (j - k) == ew) ? e : O(Z3_mk_extract(Z, (unsigned)(8 * (i0 + j - k) - 1), (unsigned)(8 * i0), e));
    } else { while (j < n && M[off + j] == 0) j++; u64 v = 0; memcpy(&v, D + off + k, j - k); piece = O(Z3_mk_unsigned_int64(Z, v, BVS[8 * (j - k)])); }
    r = r ? O(Z3_mk_concat(Z, piece, r)) : piece; k = j;
  }
  if (w == 8 * n) return mk(r, w);
  if (w == 1) return mk(Z3_mk_eq(Z, O(Z3_mk_extract(Z, 0, 0, r)), O(Z3_mk_unsigned_int64(Z, 1, BVS[1]))), 1);
  return mk(Z3_mk_extract(Z, w - 1, 0, r), w);
}
static void storeRaw(u64 off, u64 n, unsigned w, Val v) {
  logRange(off, n);
  if (!v.e) { u64 x = maskw(v.c, w); memcpy(D + off, &x, n); memset(M + off, 0, n); return; }
  Z3_ast e = v.e;
  if (w == 1) e = O(Z3_mk_ite(Z, e, O(Z3_mk_unsigned_int64(Z, 1, BVS[8 * n])), O(Z3_mk_unsigned_int64(Z, 0, BVS[8 * n]))));
  else if (w < 8 * n) e = O(Z3_mk_zero_ext(Z, 8 * n - w, e));
  for (u64 k = 0; k < n; k++) { M[off + k] = 1; S[off + k] = {(u64)e, k}; }
}
static Val load(u64 a, u64 n, unsigned w) { Obj &o = access(a, n, false); if (mtOn) raceCheck(o, a, n, 0); return loadRaw(o.off + (a - o.base), n, w); }
static void store(u64 a, u64 n, unsigned w, Val v) { Obj &o = access(a, n, true); if (mtOn) raceCheck(o, a, n, 1); storeRaw(o.off + (a - o.base), n, w, v); }
static u64 rd64(u64 a) { Val v = load(a, 8, 64); return conc(v, 64); }
static u64 rd32(u64 a) { Val v = load(a, 4, 32); return conc(v, 32); }
static std::string rdStr(u64 a) { std::string s; for (int k = 0; k < 400; k++) { Obj &o = access(a + k, 1, false); u8 m = M[o.off + (a + k - o.base)]; if (m) break; char ch = (char)D[o.off + (a + k - o.base)]; if (!ch) break; s += ch; } return s; }

// ---------------------------------------------------------------- program
enum K : u16 { BIN, ICMP, SELECT, ZEXT, SEXT, TRUNC, MOV, GEP, LOAD, STORE, ALLOCA, BR, CBR, SWITCH, RET, CALL, INVOKE, LPAD, RESUME, UNREACH, CMPX, RMW, FENCE, ALOAD, ASTORE, UNSUP, FBIN, FCMP, SITOFP, FPTOSI, NOP };
struct Edge { u32 pc; std::vector<std::pair<i32, i32>> mv; };
struct Arg { i32 src; u64 byval; u64 byalign; };
enum CK { CDIRECT, CINDIRECT, CBUILTIN };
struct CallInfo { CK ck; Func *fn = nullptr; int bi = 0; i32 callee = 0; std::vector<Arg> args; std::vector<u8> aw; Edge normal, unwind; unsigned retw = 0; u64 label = ~0ull; std::string name; Function *F = nullptr; };
struct LPInfo { bool cleanup; struct Cl { bool filter; u64 ti; std::vector<u64> f; }; std::vector<Cl> cl; };
struct GepInfo { i64 k; std::vector<std::pair<i32, std::pair<unsigned, i64>>> var; };
struct SwInfo { std::vector<std::pair<u64, Edge>> cs; Edge def; };
struct BrInfo { Edge t, f; };
struct Op { u16 k; u16 sub; u16 w, w2; i32 dst, a, b, c; u64 imm; void *p; u32 loc; u32 id; };
struct Func { Function *F; std::string name; std::vector<Op> ops; std::vector<Val> consts; u32 nregs = 0, nargs = 0; std::vector<u32> argLeaves; bool decoded = false; u64 addr = 0; };
static std::unordered_map<const Function *, Func *> funcs;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static const DataLayout *DL; static Module *Mod;
struct Loc { std::string file; unsigned line; std::string fn; };
static std::vector<Loc> locs; static std::map<std::pair<const void *, unsigned>, u32> locIdx;
static std::vector<Func *> opFunc;
static std::map<std::string, int> labelIdx; static std::vector<std::string> labels;
static std::map<u64, u64> tiId;

static unsigned leafCount(Type *t) {
  if (t->isVoidTy()) return 0; if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : s->elements()) n += leafCount(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leafCount(a->getElementType()); return 1;
}
struct Leaf { Type *t; u64 off; };
static void leaves(Type *t, u64 off, std::vector<Leaf> &o) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + sl->getElementOffset(i), o); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, o); return; }
  if (!t->isVoidTy()) o.push_back({t, off});
}
static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0;
}
static u64 constVal(const Constant *c);
static void constLeaves(const Constant *c, std::vector<Val> &o) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); constLeaves(e, o); } return; }
  o.push_back(C(constVal(c)));
}
static u64 constGep(const GEPOperator *g) {
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "non-constant gep constexpr\n"); abort(); }
  return constVal(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
}
static u64 constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return i->getValue().trunc(64).getZExtValue(); return i->getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); abort(); } return it->second; }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    unsigned w = widthOf(c->getType());
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: return constGep(cast<GEPOperator>(e));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast: return maskw(constVal(e->getOperand(0)), w);
      case Instruction::Add: return maskw(constVal(e->getOperand(0)) + constVal(e->getOperand(1)), w);
      case Instruction::Sub: return maskw(constVal(e->getOperand(0)) - constVal(e->getOperand(1)), w);
      case Instruction::And: return constVal(e->getOperand(0)) & constVal(e->getOperand(1));
      case Instruction::ICmp: { u64 a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); switch (e->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } } break;
      case Instruction::Select: return constVal(e->getOperand(0)) & 1 ? constVal(e->getOperand(1)) : constVal(e->getOperand(2));
      default: break;
    }
  }
  if (c->isNullValue()) return 0;
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); abort();
}
static void initMem(u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) { u64 n = DL->getTypeStoreSize(t); memset(D + off, 0, n); memset(M + off, 0, n); return; }
  if (isa<ConstantAggregateZero>(c)) { u64 n = DL->getTypeAllocSize(t); memset(D + off, 0, n); memset(M + off, 0, n); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(D + off, r.data(), r.size()); memset(M + off, 0, r.size()); return; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { memset(D + off, 0, DL->getTypeAllocSize(t)); memset(M + off, 0, DL->getTypeAllocSize(t)); auto *sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(off + sl->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(off + i * es, a->getOperand(i)); return; }
  u64 v = constVal(c), n = DL->getTypeStoreSize(t); if (n > 8) { fprintf(stderr, "wide const init\n"); abort(); }
  memcpy(D + off, &v, n); memset(M + off, 0, n);
}

// ---------------------------------------------------------------- builtins
enum BI { B_none, B_int, B_assume, B_assert, B_fail, B_reach, B_trace, B_param, B_malloc, B_free, B_faultbudget, B_fault, B_faultsused, B_heaplive, B_thread, B_join, B_self, B_point, B_held, B_lockcount, B_concrete, B_unwind, B_excadj,
  B_minit, B_mlock, B_mtry, B_munlock, B_mdestroy, B_mainit, B_masettype, B_madestroy, B_memcpy, B_memset, B_nop, B_ret0, B_ehtypeid, B_terminate, B_umax, B_umin, B_smax, B_smin, B_abs, B_uaddo, B_usubo, B_umulo, B_saddo, B_ssubo, B_smulo, B_usubsat, B_ctpop, B_ctlz, B_cttz, B_bswap, B_fshl, B_fshr, B_trap, B_objsize, B_ident, B_uaddsat, B_stacksave, B_isconst, B_ptrmask, B_expect };
static std::map<std::string, int> biName = {
  {"sx_int", B_int}, {"sx_assume", B_assume}, {"sx_assert", B_assert}, {"sx_fail", B_fail}, {"sx_reach", B_reach}, {"sx_trace", B_trace}, {"sx_param", B_param},
  {"sx_malloc", B_malloc}, {"sx_free", B_free}, {"sx_fault_budget", B_faultbudget}, {"sx_fault", B_fault}, {"sx_faults_used", B_faultsused}, {"sx_heap_live", B_heaplive},
  {"sx_thread", B_thread}, {"sx_join", B_join}, {"sx_self", B_self}, {"sx_point", B_point}, {"sx_mutexes_held", B_held}, {"sx_lock_count", B_lockcount}, {"sx_concrete", B_concrete},
  {"sx_unwind", B_unwind}, {"sx_exc_adj", B_excadj},
  {"pthread_mutex_init", B_minit}, {"pthread_mutex_lock", B_mlock}, {"pthread_mutex_trylock", B_mtry}, {"pthread_mutex_unlock", B_munlock}, {"pthread_mutex_destroy", B_mdestroy},
  {"pthread_mutexattr_init", B_mainit}, {"pthread_mutexattr_settype", B_masettype}, {"pthread_mutexattr_destroy", B_madestroy},
  {"memcpy", B_memcpy}, {"memmove", B_memcpy}, {"memset", B_memset}, {"__cxa_atexit", B_ret0}, {"_ZSt9terminatev", B_terminate}, {"abort", B_terminate}, {"__cxa_pure_virtual", B_terminate}, {"__cxa_call_unexpected", B_terminate}};
static int intrinsicBI(Intrinsic::ID id) {
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_memcpy; case Intrinsic::memset: return B_memset;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return B_nop;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return B_ret0;
    case Intrinsic::eh_typeid_for: return B_ehtypeid; case Intrinsic::umax: return B_umax; case Intrinsic::umin: return B_umin; case Intrinsic::smax: return B_smax; case Intrinsic::smin: return B_smin; case Intrinsic::abs: return B_abs;
    case Intrinsic::uadd_with_overflow: return B_uaddo; case Intrinsic::usub_with_overflow: return B_usubo; case Intrinsic::umul_with_overflow: return B_umulo; case Intrinsic::sadd_with_overflow: return B_saddo; case Intrinsic::ssub_with_overflow: return B_ssubo; case Intrinsic::smul_with_overflow: return B_smulo;
    case Intrinsic::usub_sat: return B_usubsat; case Intrinsic::uadd_sat: return B_uaddsat; case Intrinsic::ctpop: return B_ctpop; case Intrinsic::ctlz: return B_ctlz; case Intrinsic::cttz: return B_cttz; case Intrinsic::bswap: return B_bswap; case Intrinsic::fshl: return B_fshl; case Intrinsic::fshr: return B_fshr; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return B_trap;
    case Intrinsic::objectsize: return B_objsize; case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: return B_ident; case Intrinsic::is_constant: return B_isconst; case Intrinsic::ptrmask: return B_ptrmask;
    default: return B_none;
  }
}

// ---------------------------------------------------------------- decoding
static Func *getFunc(Function *F) { auto it = funcs.find(F); if (it != funcs.end()) return it->second; Func *f = new Func; f->F = F; f->name = F->getName().str(); funcs[F] = f; return f; }
static u32 locOf(Instruction &I, Func *f) {
  const DILocation *dl = I.getDebugLoc().get(); std::string file, fn; unsigned line = 0;
  if (dl) { file = dl->getFilename().str(); if (!file.empty() && file[0] != '/') file = dl->getDirectory().str() + "/" + file; line = dl->getLine(); if (auto *sp = dl->getScope()->getSubprogram()) fn = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str(); }
  std::pair<const void *, unsigned> key{dl ? (const void *)dl : (const void *)f, 0}; auto it = locIdx.find(key); if (it != locIdx.end()) return it->second;
  locs.push_back({file, line, fn.empty() ? f->name : fn}); return locIdx[key] = (u32)locs.size() - 1;
}
static void decode(Func *f, std::vector<Function *> &work) {
  if (f->decoded) return; f->decoded = true; Function *F = f->F;
  std::unordered_map<const Value *, i32> reg; std::unordered_map<const BasicBlock *, u32> bbpc;
  std::map<u64, i32> ccache; u32 nr = 0;
  for (auto &A : F->args()) { reg[&A] = nr; unsigned n = leafCount(A.getType()); f->argLeaves.push_back(n); nr += n; }
  f->nargs = nr;
  for (auto &B : *F) for (auto &I : B) { unsigned n = leafCount(I.getType()); if (n) { reg[&I] = nr; nr += n; } }
  i32 tmp = nr; nr += 2; (void)tmp; f->nregs = nr;
  auto cst = [&](u64 v) -> i32 { auto it = ccache.find(v); if (it != ccache.end()) return it->second; f->consts.push_back(C(v)); i32 i = ~(i32)(f->consts.size() - 1); ccache[v] = i; return i; };
  std::set<const Constant *> visited;
  auto noteFuncs = [&](const Constant *c) {
    std::vector<const Constant *> st{c};
    while (!st.empty()) { const Constant *x = st.back(); st.pop_back(); if (!visited.insert(x).second) continue;
      if (auto *fn = dyn_cast<Function>(x)) work.push_back(const_cast<Function *>(fn));
      else if (auto *gv = dyn_cast<GlobalVariable>(x)) { if (gv->hasInitializer()) st.push_back(gv->getInitializer()); }
      else if (auto *ga = dyn_cast<GlobalAlias>(x)) st.push_back(ga->getAliasee());
      else for (auto &o : x->operands()) if (auto *oc = dyn_cast<Constant>(&*o)) st.push_back(oc); }
  };
  auto leafOp = [&](const Value *v, unsigned i) -> i32 {
    if (auto *c = dyn_cast<Constant>(v)) { noteFuncs(c); std::vector<Val> o; constLeaves(c, o); return cst(o[i].c); }
    auto it = reg.find(v); if (it == reg.end()) { if (isa<MetadataAsValue>(v)) return cst(0); fprintf(stderr, "no reg\n"); abort(); } return it->second + (i32)i; };
  struct Fix { Edge *e; const BasicBlock *from, *to; }; std::vector<Fix> fixes;
  auto emit = [&](Instruction &I, K k) -> Op & { Op o{}; o.k = k; o.loc = locOf(I, f); o.dst = -1; auto it = reg.find(&I); if (it != reg.end()) o.dst = it->second; o.w = widthOf(I.getType()); o.id = (u32)opFunc.size(); opFunc.push_back(f); f->ops.push_back(o); return f->ops.back(); };
  for (auto &B : *F) {
    bbpc[&B] = f->ops.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      if (I.getType()->isVectorTy()) { emit(I, UNSUP).p = &I; continue; }
      bool vecop = false; for (auto &o : I.operands()) if (o->getType()->isVectorTy()) vecop = true; if (vecop) { emit(I, UNSUP).p = &I; continue; }
      if (auto *b = dyn_cast<BinaryOperator>(&I)) {
        if (b->getType()->isFloatingPointTy()) { Op &o = emit(I, FBIN); o.sub = b->getOpcode(); o.a = leafOp(b->getOperand(0), 0); o.b = leafOp(b->getOperand(1), 0); }
        else if (widthOf(b->getType()) > 64) emit(I, UNSUP).p = &I;
        else { Op &o = emit(I, BIN); o.sub = b->getOpcode(); o.a = leafOp(b->getOperand(0), 0); o.b = leafOp(b->getOperand(1), 0); }
      } else if (auto *c = dyn_cast<ICmpInst>(&I)) { Op &o = emit(I, ICMP); o.sub = c->getPredicate(); o.w = widthOf(c->getOperand(0)->getType()); o.a = leafOp(c->getOperand(0), 0); o.b = leafOp(c->getOperand(1), 0); if (o.w > 64) { o.k = UNSUP; o.p = &I; } }
      else if (auto *c = dyn_cast<FCmpInst>(&I)) { Op &o = emit(I, FCMP); o.sub = c->getPredicate(); o.w = widthOf(c->getOperand(0)->getType()); o.a = leafOp(c->getOperand(0), 0); o.b = leafOp(c->getOperand(1), 0); }
      else if (auto *s = dyn_cast<SelectInst>(&I)) { std::vector<Leaf> L; leaves(I.getType(), 0, L); for (unsigned i = 0; i < L.size(); i++) { Op &o = emit(I, SELECT); o.dst = reg[&I] + i; o.w = widthOf(L[i].t); o.w2 = L[i].t->isPointerTy(); o.a = leafOp(s->getCondition(), 0); o.b = leafOp(s->getTrueValue(), i); o.c = leafOp(s->getFalseValue(), i); } }
      else if (auto *c = dyn_cast<CastInst>(&I)) {
        unsigned sw = widthOf(c->getSrcTy()), dw = widthOf(c->getDestTy()); K k; 
        switch (c->getOpcode()) { case Instruction::ZExt: k = ZEXT; break; case Instruction::SExt: k = SEXT; break; case Instruction::Trunc: k = TRUNC; break; case Instruction::SIToFP: case Instruction::UIToFP: k = SITOFP; break; case Instruction::FPToSI: case Instruction::FPToUI: k = FPTOSI; break;
          case Instruction::FPExt: case Instruction::FPTrunc: k = UNSUP; break;
          default: k = sw == dw ? MOV : sw < dw ? ZEXT : TRUNC; }
        if (sw > 64 || dw > 64 || !sw || !dw) k = UNSUP; Op &o = emit(I, k); o.a = leafOp(c->getOperand(0), 0); o.w = dw; o.w2 = sw; o.sub = c->getOpcode(); if (k == UNSUP) o.p = &I;
      } else if (auto *fz = dyn_cast<FreezeInst>(&I)) { unsigned n = leafCount(I.getType()); for (unsigned i = 0; i < n; i++) { Op &o = emit(I, MOV); o.dst = reg[&I] + i; o.a = leafOp(fz->getOperand(0), i); } }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        GepInfo *gi = new GepInfo{0, {}}; 
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) gi->k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { i64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) gi->k += sc * ci->getSExtValue(); else gi->var.push_back({leafOp(ix, 0), {widthOf(ix->getType()), sc}}); } }
        Op &o = emit(I, GEP); o.a = leafOp(g->getPointerOperand(), 0); o.p = gi;
      } else if (auto *l = dyn_cast<LoadInst>(&I)) {
        std::vector<Leaf> L; leaves(I.getType(), 0, L); bool bad = false; for (auto &x : L) if (!widthOf(x.t) || widthOf(x.t) > 64) bad = true; if (bad) { emit(I, UNSUP).p = &I; continue; }
        for (unsigned i = 0; i < L.size(); i++) { Op &o = emit(I, l->isAtomic() ? ALOAD : LOAD); o.dst = reg[&I] + i; o.w = widthOf(L[i].t); o.w2 = DL->getTypeStoreSize(L[i].t); o.a = leafOp(l->getPointerOperand(), 0); o.imm = L[i].off; o.sub = (u16)l->getOrdering(); }
      } else if (auto *s = dyn_cast<StoreInst>(&I)) {
        std::vector<Leaf> L; leaves(s->getValueOperand()->getType(), 0, L); bool bad = false; for (auto &x : L) if (!widthOf(x.t) || widthOf(x.t) > 64) bad = true; if (bad) { emit(I, UNSUP).p = &I; continue; }
        for (unsigned i = 0; i < L.size(); i++) { Op &o = emit(I, s->isAtomic() ? ASTORE : STORE); o.w = widthOf(L[i].t); o.w2 = DL->getTypeStoreSize(L[i].t); o.a = leafOp(s->getPointerOperand(), 0); o.b = leafOp(s->getValueOperand(), i); o.imm = L[i].off; o.sub = (u16)s->getOrdering(); }
      } else if (auto *a = dyn_cast<AllocaInst>(&I)) { Op &o = emit(I, ALLOCA); o.imm = DL->getTypeAllocSize(a->getAllocatedType()); o.a = leafOp(a->getArraySize(), 0); o.w2 = a->getAlign().value(); }
      else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { Op &o = emit(I, BR); BrInfo *bi = new BrInfo; o.p = bi; fixes.push_back({&bi->t, &B, br->getSuccessor(0)}); }
        else { Op &o = emit(I, CBR); o.a = leafOp(br->getCondition(), 0); BrInfo *bi = new BrInfo; o.p = bi; fixes.push_back({&bi->t, &B, br->getSuccessor(0)}); fixes.push_back({&bi->f, &B, br->getSuccessor(1)}); }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        SwInfo *si = new SwInfo; Op &o = emit(I, SWITCH); o.a = leafOp(sw->getCondition(), 0); o.w = widthOf(sw->getCondition()->getType()); o.p = si; si->cs.resize(sw->getNumCases()); unsigned n = 0;
        for (auto &cs : sw->cases()) { si->cs[n].first = cs.getCaseValue()->getZExtValue(); fixes.push_back({&si->cs[n].second, &B, cs.getCaseSuccessor()}); n++; } fixes.push_back({&si->def, &B, sw->getDefaultDest()});
      } else if (auto *r = dyn_cast<ReturnInst>(&I)) { Op &o = emit(I, RET); o.w = r->getReturnValue() ? leafCount(r->getReturnValue()->getType()) : 0; std::vector<i32> *v = new std::vector<i32>; for (unsigned i = 0; i < o.w; i++) v->push_back(leafOp(r->getReturnValue(), i)); f->ops.back().p = v; }
      else if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        CallInfo *ci = new CallInfo; bool inv = isa<InvokeInst>(I);
        Value *cv = cb->getCalledOperand()->stripPointerCasts(); Function *cf = dyn_cast<Function>(cv); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cf = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); ci->ck = CBUILTIN; ci->bi = ia->getAsmString().empty() ? B_nop : B_none; ci->name = "inline asm"; }
        else if (cf) {
          ci->F = cf; ci->name = cf->getName().str(); int bi = 0; if (cf->isIntrinsic()) bi = intrinsicBI(cf->getIntrinsicID()); else { auto it = biName.find(ci->name); if (it != biName.end()) bi = it->second; }
          if (bi || cf->isIntrinsic() || cf->isDeclaration()) { ci->ck = CBUILTIN; ci->bi = bi; if (!bi && !cf->isIntrinsic()) ci->fn = nullptr; }
          else { ci->ck = CDIRECT; ci->fn = getFunc(cf); work.push_back(cf); }
        } else { ci->ck = CINDIRECT; }
        if (ci->ck == CINDIRECT) ci->callee = leafOp(cb->getCalledOperand(), 0);
        bool skipArgs = ci->ck == CBUILTIN && ci->bi == B_nop;
        if (!skipArgs) for (unsigned i = 0; i < cb->arg_size(); i++) { Value *av = cb->getArgOperand(i); if (isa<MetadataAsValue>(av)) continue; unsigned n = leafCount(av->getType()); std::vector<Leaf> L; leaves(av->getType(), 0, L);
          for (unsigned k = 0; k < n; k++) { Arg ar{leafOp(av, k), 0, 0}; if (cb->isByValArgument(i)) { ar.byval = DL->getTypeAllocSize(cb->getParamByValType(i)); ar.byalign = cb->getParamAlign(i).valueOrOne().value(); } ci->args.push_back(ar); ci->aw.push_back(widthOf(L[k].t)); } }
        if (ci->bi == B_reach) { StringRef s; if (getConstantStringInfo(cb->getArgOperand(0), s)) { auto it = labelIdx.find(s.str()); if (it == labelIdx.end()) { labels.push_back(s.str()); it = labelIdx.emplace(s.str(), (int)labels.size() - 1).first; } ci->label = it->second; } else { fprintf(stderr, "sx_reach needs a literal\n"); abort(); } }
        if (ci->bi == B_thread) usesThreads = true;
        Op &o = emit(I, inv ? INVOKE : CALL); o.p = ci; o.w2 = leafCount(I.getType());
        if (inv) { fixes.push_back({&ci->normal, &B, cast<InvokeInst>(I).getNormalDest()}); fixes.push_back({&ci->unwind, &B, cast<InvokeInst>(I).getUnwindDest()}); }
      } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
        LPInfo *li = new LPInfo; li->cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { LPInfo::Cl c; c.filter = lp->isFilter(i); if (c.filter) { Constant *k = lp->getClause(i); c.ti = 0; for (unsigned q = 0; q < k->getType()->getArrayNumElements(); q++) c.f.push_back(constVal(k->getAggregateElement(q))); } else c.ti = constVal(lp->getClause(i)); li->cl.push_back(c); }
        Op &o = emit(I, LPAD); o.p = li;
      } else if (auto *r = dyn_cast<ResumeInst>(&I)) { Op &o = emit(I, RESUME); o.a = leafOp(r->getValue(), 0); }
      else if (isa<UnreachableInst>(I)) emit(I, UNREACH);
      else if (auto *e = dyn_cast<ExtractValueInst>(&I)) {
        Type *t = e->getAggregateOperand()->getType(); unsigned off = 0; for (unsigned ix : e->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) off += leafCount(st->getElementType(q)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * leafCount(t); } }
        for (unsigned i = 0; i < leafCount(I.getType()); i++) { Op &o = emit(I, MOV); o.dst = reg[&I] + i; o.a = leafOp(e->getAggregateOperand(), off + i); }
      } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        Type *t = I.getType(); unsigned off = 0; for (unsigned ix : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) off += leafCount(st->getElementType(q)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * leafCount(t); } }
        unsigned n = leafCount(I.getType()), m = leafCount(t); for (unsigned i = 0; i < n; i++) { Op &o = emit(I, MOV); o.dst = reg[&I] + i; o.a = (i >= off && i < off + m) ? leafOp(iv->getInsertedValueOperand(), i - off) : leafOp(iv->getAggregateOperand(), i); }
      } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { Op &o = emit(I, CMPX); o.a = leafOp(cx->getPointerOperand(), 0); o.b = leafOp(cx->getCompareOperand(), 0); o.c = leafOp(cx->getNewValOperand(), 0); o.w = widthOf(cx->getCompareOperand()->getType()); o.sub = (u16)cx->getSuccessOrdering(); o.w2 = (u16)cx->getFailureOrdering(); }
      else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { Op &o = emit(I, RMW); o.a = leafOp(rm->getPointerOperand(), 0); o.b = leafOp(rm->getValOperand(), 0); o.sub = (u16)rm->getOrdering(); o.w2 = (u16)rm->getOperation(); }
      else if (isa<FenceInst>(I)) emit(I, FENCE);
      else emit(I, UNSUP).p = &I;
    }
  }
  for (auto &x : fixes) { x.e->pc = bbpc[x.to]; for (auto &P : x.to->phis()) { Value *v = P.getIncomingValueForBlock(x.from); unsigned n = leafCount(P.getType()); for (unsigned i = 0; i < n; i++) x.e->mv.push_back({reg[&P] + (i32)i, leafOp(v, i)}); } }
}

// ---------------------------------------------------------------- reporting
static const Loc *curLoc() { if (!T[cur].nfr) return nullptr; Frame &fr = top(); if (fr.pc < fr.f->ops.size()) return &locs[fr.f->ops[fr.pc].loc]; return nullptr; }
static std::string stackStr() {
  std::string s; for (i64 i = (i64)T[cur].nfr - 1; i >= 0; i--) { Frame &fr = FR[cur][i]; const Loc &l = locs[fr.f->ops[fr.pc].loc]; std::string d = demangle(l.fn); if (d.size() > 160) d = d.substr(0, 157) + "..."; s += "stack " + d + " at " + l.file + ":" + std::to_string(l.line) + "\n"; if (s.size() > 8000) break; } return s; }
static void writeCase(FILE *f, Z3_model m, const std::string &msg) {
  fprintf(f, "entry %s\nmsg %s\n", gEntry.c_str(), msg.c_str());
  if (auto *l = curLoc()) fprintf(f, "loc %s:%u\n", l->file.c_str(), l->line);
  for (auto &p : gParams) fprintf(f, "param %s %lld\n", p.first.c_str(), (long long)p.second);
  fprintf(f, "preempt %d\n", gPreempt);
  for (u64 i = 0; i < nInputs; i++) { Input &in = inputs[i]; u64 v = evalBV(m, in.e); i64 x = in.kind == 0 && in.w > 100 ? sext(v, in.w - 100) : in.kind == 2 ? (i64)v : in.lo + (i64)v; fprintf(f, "%s %s %lld\n", in.kind == 0 ? "i" : in.kind == 1 ? "f" : "v", in.name.c_str(), (long long)x); }
  for (u64 i = 0; i < nSched; i++) fprintf(f, "s %llu %llu %llu\n", (unsigned long long)schedBuf[i].tid, (unsigned long long)schedBuf[i].count, (unsigned long long)schedBuf[i].next);
  for (u64 i = 0; i < nTrace; i++) { TraceEv &t = traceBuf[i]; u64 v = t.v.e ? evalBV(m, t.v.e) : t.v.c; fprintf(f, "t %lld %lld\n", (long long)t.tag, (long long)v); }
  std::string st = stackStr(); fputs(st.c_str(), f); fprintf(f, "end\n");
}
static void emitViolation(const std::string &msg, Z3_model m) {
  u64 n = SH->nviol++; if (n >= 200) { SH->stop = 1; return; }
  std::string fn = gOut + "/viol_" + std::to_string(n) + ".case"; FILE *f = fopen(fn.c_str(), "w"); if (f) { writeCase(f, m, msg); fclose(f); }
  if (gVerbose) { writeCase(stderr, m, "VIOL " + msg); }
  if ((int)n + 1 >= gMaxViol) SH->stop = 1;
}
static void violation(const std::string &msg, Z3_model m) {
  Z3_model mm = m; if (!mm) { if (query(nullptr, &mm) != 1) throw PathKill(); }
  emitViolation(msg, mm); if (!m) Z3_model_dec_ref(Z, mm);
  throw PathKill();
}
static void incomplete(const std::string &msg) {
  if (SH->incomplete++ == 0) { std::string s = msg; if (T[cur].nfr) s += "\n" + stackStr(); strncpy(SH->incompleteMsg, s.c_str(), 500); }
  SH->stop = 1; throw PathKill();
}

// ---------------------------------------------------------------- interpreter
static inline Val rv(Frame &fr, i32 r) { return r >= 0 ? RG[cur][fr.reg + r] : fr.f->consts[~r]; }
static inline void wv(Frame &fr, i32 r, Val v) { Val *p = &RG[cur][fr.reg + r]; T64(&p->c, v.c); T64((u64 *)&p->e, (u64)v.e); }
static void go(Frame &fr, const Edge &e) {
  size_t n = e.mv.size();
  if (n == 1) { Val v = rv(fr, e.mv[0].second); wv(fr, e.mv[0].first, v); }
  else if (n) { Val t[64]; std::vector<Val> big; Val *p = t; if (n > 64) { big.resize(n); p = big.data(); } for (size_t i = 0; i < n; i++) p[i] = rv(fr, e.mv[i].second); for (size_t i = 0; i < n; i++) wv(fr, e.mv[i].first, p[i]); }
  T64(&fr.pc, e.pc);
}
static Val binop(unsigned op, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return C(maskw(x + y, w)); case Instruction::Sub: return C(maskw(x - y, w)); case Instruction::Mul: return C(maskw(x * y, w));
      case Instruction::And: return C(x & y); case Instruction::Or: return C(x | y); case Instruction::Xor: return C(x ^ y);
      case Instruction::Shl: return C(y >= w ? 0 : maskw(x << y, w)); case Instruction::LShr: return C(y >= w ? 0 : x >> y); case Instruction::AShr: return C(maskw((u64)(sext(x, w) >> (y >= w ? w - 1 : y)), w));
      case Instruction::UDiv: if (!y) violation("division by zero"); return C(x / y); case Instruction::URem: if (!y) violation("division by zero"); return C(x % y);
      case Instruction::SDiv: if (!y) violation("division by zero"); if (sext(y, w) == -1) return C(maskw(0 - x, w)); return C(maskw((u64)(sext(x, w) / sext(y, w)), w));
      case Instruction::SRem: if (!y) violation("division by zero"); if (sext(y, w) == -1) return C(0); return C(maskw((u64)(sext(x, w) % sext(y, w)), w));
    }
  }
  Z3_ast p = ex(a, w), q = ex(b, w), r = nullptr;
  if (w == 1) { Z3_ast v[2] = {p, q}; switch (op) { case Instruction::And: case Instruction::Mul: r = Z3_mk_and(Z, 2, v); break; case Instruction::Or: r = Z3_mk_or(Z, 2, v); break; case Instruction::Xor: case Instruction::Add: case Instruction::Sub: r = Z3_mk_xor(Z, p, q); break; default: incomplete("i1 binop"); } return mk(r, 1); }
  if ((op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem)) {
    if (decide(mk(Z3_mk_eq(Z, q, O(Z3_mk_unsigned_int64(Z, 0, BVS[w]))), 1))) violation("division by zero"); }
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, p, q); break; case Instruction::Sub: r = Z3_mk_bvsub(Z, p, q); break; case Instruction::Mul: r = Z3_mk_bvmul(Z, p, q); break;
    case Instruction::And: r = Z3_mk_bvand(Z, p, q); break; case Instruction::Or: r = Z3_mk_bvor(Z, p, q); break; case Instruction::Xor: r = Z3_mk_bvxor(Z, p, q); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, p, q); break; case Instruction::LShr: r = Z3_mk_bvlshr(Z, p, q); break; case Instruction::AShr: r = Z3_mk_bvashr(Z, p, q); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, p, q); break; case Instruction::URem: r = Z3_mk_bvurem(Z, p, q); break; case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, p, q); break; case Instruction::SRem: r = Z3_mk_bvsrem(Z, p, q); break;
    default: incomplete("binop");
  }
  return mk(r, w);
}
static Val icmp(unsigned pred, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; i64 s = sext(x, w), t = sext(y, w);
    switch (pred) { case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y); case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y); case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y);
      case CmpInst::ICMP_SLT: return C(s < t); case CmpInst::ICMP_SLE: return C(s <= t); case CmpInst::ICMP_SGT: return C(s > t); case CmpInst::ICMP_SGE: return C(s >= t); }
  }
  Z3_ast p = ex(a, w), q = ex(b, w), r;
  if (w == 1) { if (pred == CmpInst::ICMP_EQ) r = Z3_mk_iff(Z, p, q); else if (pred == CmpInst::ICMP_NE) r = Z3_mk_xor(Z, p, q); else if (pred == CmpInst::ICMP_ULT) { Z3_ast v[2] = {O(Z3_mk_not(Z, p)), q}; r = Z3_mk_and(Z, 2, v); } else if (pred == CmpInst::ICMP_UGT) { Z3_ast v[2] = {O(Z3_mk_not(Z, q)), p}; r = Z3_mk_and(Z, 2, v); } else incomplete("i1 icmp"); return mk(r, 1); }
  switch (pred) { case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, p, q); break; case CmpInst::ICMP_NE: r = Z3_mk_not(Z, O(Z3_mk_eq(Z, p, q))); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, p, q); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, p, q); break; case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, p, q); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, p, q); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, p, q); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, p, q); break; case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, p, q); break; default: r = Z3_mk_bvsge(Z, p, q); break; }
  return mk(r, 1);
}
static Val iteV(Val c, Val a, Val b, unsigned w) { if (!c.e) return c.c & 1 ? a : b; if (a.e == b.e && a.c == b.c) return a; return mk(Z3_mk_ite(Z, c.e, ex(a, w), ex(b, w)), w); }
static Val zextV(Val a, unsigned sw, unsigned dw) {
  if (!a.e) return C(a.c); if (sw == 1) return dw == 1 ? a : mk(Z3_mk_ite(Z, a.e, O(Z3_mk_unsigned_int64(Z, 1, BVS[dw])), O(Z3_mk_unsigned_int64(Z, 0, BVS[dw]))), dw); return mk(Z3_mk_zero_ext(Z, dw - sw, a.e), dw); }
static Val sextV(Val a, unsigned sw, unsigned dw) {
  if (!a.e) return C(maskw((u64)sext(a.c, sw), dw)); if (sw == 1) return mk(Z3_mk_ite(Z, a.e, O(Z3_mk_unsigned_int64(Z, maskw(~0ull, dw), BVS[dw])), O(Z3_mk_unsigned_int64(Z, 0, BVS[dw]))), dw); return mk(Z3_mk_sign_ext(Z, dw - sw, a.e), dw); }
static Val truncV(Val a, unsigned sw, unsigned dw) {
  if (!a.e) return C(maskw(a.c, dw)); if (dw == 1) return mk(Z3_mk_eq(Z, O(Z3_mk_extract(Z, 0, 0, a.e)), O(Z3_mk_unsigned_int64(Z, 1, BVS[1]))), 1); return mk(Z3_mk_extract(Z, dw - 1, 0, a.e), dw); }

static u64 ptrOf(Val v, const char *what) {
  if (!v.e) return v.c;
  std::string s = Z3_ast_to_string(Z, v.e); if (s.find("undef!") != std::string::npos) violation(std::string("memory error: ") + what + " through an uninitialised pointer");
  return conc(v, 64);
}
static void popFrame() {
  Thread &t = T[cur]; Frame &fr = FR[cur][t.nfr - 1];
  for (u64 o = fr.allocas; o; o = objs[o].next) T64(&objs[o].state, DEADSTK);
  T64(&t.regTop, fr.reg); T64(&t.nfr, t.nfr - 1);
}
static void pushFrame(u64 tid, Func *f, u64 ret) {
  Thread &t = T[tid]; if (!f->decoded) { fprintf(stderr, "call of undecoded function %s\n", f->name.c_str()); incomplete("undecoded function " + f->name); }
  if (t.nfr + 1 >= MAXFR || t.regTop + f->nregs + 64 >= MAXREG) violation("stack overflow (unbounded recursion)");
  Frame &fr = FR[tid][t.nfr]; T64((u64 *)&fr.f, (u64)f); T64(&fr.pc, 0); T64(&fr.reg, t.regTop); T64(&fr.ret, ret); T64(&fr.allocas, 0);
  T64(&t.nfr, t.nfr + 1); T64(&t.regTop, t.regTop + f->nregs);
}
static u64 siteHash() { u64 h = 1469598103934665603ull; Thread &t = T[cur]; for (u64 i = 0; i < t.nfr; i++) { Frame &fr = FR[cur][i]; h = (h ^ fr.f->ops[fr.pc].id) * 1099511628211ull; } return h; }
static u64 clsOf() { // class index for the current allocation context
  if (!usesThreads) return 0;
  u64 h = siteHash(); h &= ~(1ull << 63); if (!h) h = 1; u64 i = h % NCLASS;
  for (int k = 0; k < NCLASS; k++, i = (i + 1) % NCLASS) { if (!i) continue; u64 v = SH->cls[i].load(); if ((v & ~(1ull << 63)) == h) return i; if (!v) { u64 z = 0; if (SH->cls[i].compare_exchange_strong(z, h)) return i; if ((z & ~(1ull << 63)) == h) return i; } }
  abort();
}
static u64 frameAlloca(Frame &fr, u64 size, u64 align) {
  u64 o = newObj(size, align, KSTACK, 0, clsOf()); objs[o].next = fr.allocas; T64(&fr.allocas, o);
  return objs[o].base; }

// ---- scheduling
struct SchedVar { };
static bool mutexFree(u64 m, u64 tid) {
  Obj *o = objOf(m); if (!o || o->state != LIVE) return true; u64 off = o->off + (m - o->base); u32 owner; memcpy(&owner, D + off + 8, 4); u32 kind; memcpy(&kind, D + off + 4, 4);
  return owner == 0 || (owner == tid + 1 && kind == 1); }
static bool enabled(u64 t) { Thread &x = T[t]; if (x.st != 1) return false; if (x.waitMutex && !mutexFree(x.waitMutex, t)) return false; if (x.waitJoin && T[x.waitJoin - 1].st != 2) return false; return true; }
static void pushInput(Z3_ast e, const std::string &name, i64 lo, unsigned w, int kind) {
  Input in{e, name, lo, w, kind}; if (nInputs < inputs.size()) inputs[nInputs] = in; else inputs.push_back(in); T64(&nInputs, nInputs + 1); }
static void schedTo(u64 chosen, bool atEnd) {
  if (chosen == cur) return; SchedEv ev{cur, atEnd ? ~0ull >> 1 : T[cur].sync, chosen}; if (nSched < schedBuf.size()) schedBuf[nSched] = ev; else schedBuf.push_back(ev); T64(&nSched, nSched + 1);
  T64(&cur, chosen); if (T[chosen].parked) { T64(&T[chosen].granted, 1); T64(&T[chosen].parked, 0); } }
static int chooseSched(const std::vector<u64> &opts) {
  if (opts.size() == 1) return 0;
  if (pending < 0) SH->schedForks += opts.size() - 1;
  int i = choose((int)opts.size());
  char nm[32]; snprintf(nm, sizeof nm, "sched!%llu", (unsigned long long)nInputs); Z3_ast v = freshVar(nm, BVS[8]);
  pushInput(v, nm, 0, 8, 2); pcAdd(O(Z3_mk_eq(Z, v, O(Z3_mk_unsigned_int64(Z, opts[i], BVS[8])))));
  return i; }   // the constraint is on a fresh variable: the cached model stays good for every program expression
static bool syncPoint(u64 mutexAddr, u64 join, u64 objAddr) {
  Thread &t = T[cur];
  if (t.granted) { T64(&t.granted, 0); T64(&t.waitMutex, 0); T64(&t.waitJoin, 0); T64(&t.sync, t.sync + 1); return true; }
  if (objAddr && mtOn) { Obj *o = objOf(objAddr); if (o && o->cls && !(SH->cls[o->cls].load(std::memory_order_relaxed) >> 63)) { T64(&t.sync, t.sync + 1); return true; } }
  bool others = false; for (u64 i = 0; i < nThreads; i++) if (i != cur && T[i].st == 1) others = true;
  T64(&t.waitMutex, mutexAddr); T64(&t.waitJoin, join);
  bool me = enabled(cur);
  if (!others && me) { T64(&t.waitMutex, 0); T64(&t.waitJoin, 0); T64(&t.sync, t.sync + 1); return true; }
  lSync++;
  std::vector<u64> opts; if (me) opts.push_back(cur);
  if (!me || (int)preempts < gPreempt) for (u64 i = 0; i < nThreads; i++) if (i != cur && enabled(i)) opts.push_back(i);
  if (opts.empty()) violation(mutexAddr ? "deadlock: every live thread is blocked (thread waits for a mutex)" : "deadlock: every live thread is blocked (join)");
  if (me && opts.size() == 1) { bool lim = false; for (u64 i = 0; i < nThreads; i++) if (i != cur && enabled(i)) lim = true; if (lim) lLim++; }
  int i = chooseSched(opts);
  if (opts[i] == cur) { T64(&t.waitMutex, 0); T64(&t.waitJoin, 0); T64(&t.sync, t.sync + 1); return true; }
  if (me) T64(&preempts, preempts + 1);
  T64(&t.parked, 1); schedTo(opts[i], false); return false;
}
static void threadExit() {
  Thread &t = T[cur]; T64(&t.st, 2); 
  std::vector<u64> opts; bool live = false; for (u64 i = 0; i < nThreads; i++) { if (T[i].st == 1) live = true; if (enabled(i)) opts.push_back(i); }
  if (opts.empty()) { if (live) violation("deadlock: a thread finished and no other can run"); throw PathKill(); }
  int i = chooseSched(opts); schedTo(opts[i], true);
}
static bool allDoneBut(u64 me) { for (u64 i = 0; i < nThreads; i++) if (i != me && T[i].st == 1) return false; return true; }

// ---- exceptions
static std::string kindOf(u64 ti) { // class of a type_info by its vtable symbol
  static std::unordered_map<u64, std::string> vt; if (vt.empty()) for (auto &g : gaddr) { StringRef n = g.first->getName(); if (n.starts_with("_ZTVN10__cxxabiv1")) vt[g.second + 16] = n.str(); }
  Obj *o = objOf(ti); if (!o || o->size < 8 || M[o->off]) return ""; u64 v; memcpy(&v, D + o->off + (ti - o->base), 8); auto it = vt.find(v); return it == vt.end() ? "" : it->second; }
static u64 peek64(u64 a) { Obj *o = objOf(a); if (!o || a < o->base || a + 8 > o->base + o->size) return 0; u64 v; memcpy(&v, D + o->off + (a - o->base), 8); return v; }
static bool upcast(u64 from, u64 to, u64 &ptr) {
  if (from == to) return true; std::string k = kindOf(from);
  if (k.find("__si_class") != std::string::npos) return upcast(peek64(from + 16), to, ptr);
  if (k.find("__vmi_class") != std::string::npos) { u64 n = peek64(from + 16) >> 32; for (u64 i = 0; i < n; i++) { u64 b = peek64(from + 24 + 16 * i); i64 of = (i64)peek64(from + 32 + 16 * i); u64 p = ptr; i64 off = of >> 8; if (!(of & 2)) continue; if (of & 1) { if (!ptr) { off = 0; } else { u64 vp = peek64(ptr); off = (i64)peek64(vp + off); } } p = ptr + off; if (upcast(b, to, p)) { ptr = p; return true; } } }
  return false; }
static bool canCatch(u64 thrown, u64 ti, u64 obj, u64 &adj) { adj = obj; if (!ti) return true; return upcast(thrown, ti, adj); }
static u64 typeId(u64 ti) { auto it = tiId.find(ti); return it->second; }
// header directly before the object: [obj-8] adjusted pointer, [obj-16] type_info
static void rawSet64(u64 a, u64 v) { Obj *o = objOf(a); u64 off = o->off + (a - o->base); logRange(off, 8); memcpy(D + off, &v, 8); memset(M + off, 0, 8); }
static void unwindFrom(u64 obj, u64 nfrStart) { // frames [0,nfrStart) may handle
  Thread &t = T[cur]; u64 thrown = peek64(obj - 16);
  while (t.nfr > nfrStart) popFrame();
  while (t.nfr) {
    Frame &fr = FR[cur][t.nfr - 1]; Op &op = fr.f->ops[fr.pc];
    if (op.k == INVOKE) {
      CallInfo *ci = (CallInfo *)op.p; Op &lp = fr.f->ops[ci->unwind.pc]; LPInfo *li = (LPInfo *)lp.p; bool hit = false; u64 sel = 0, adj = obj;
      if (lp.k != LPAD) incomplete("invoke without landingpad");
      for (auto &c : li->cl) { if (c.filter) { bool in = false; for (u64 ft : c.f) { u64 a; if (canCatch(thrown, ft, obj, a)) in = true; } if (!in) { hit = true; sel = (u64)-1 & 0xffffffff; break; } } else if (canCatch(thrown, c.ti, obj, adj)) { hit = true; sel = typeId(c.ti); break; } }
      if (hit || li->cleanup) { if (hit) rawSet64(obj - 8, adj); T64(&t.excObj, obj); T64(&t.excSel, sel); go(fr, ci->unwind); return; }
    }
    popFrame();
  }
  violation("exception left the thread's start function");
}
static void doThrow(u64 obj) {
  Thread &t = T[cur]; u64 thrown = peek64(obj - 16); bool found = false;
  for (i64 i = (i64)t.nfr - 1; i >= 0 && !found; i--) { Frame &fr = FR[cur][i]; Op &op = fr.f->ops[fr.pc]; if (op.k != INVOKE) continue; CallInfo *ci = (CallInfo *)op.p; LPInfo *li = (LPInfo *)fr.f->ops[ci->unwind.pc].p; for (auto &c : li->cl) { u64 a; if (c.filter) { found = true; break; } if (canCatch(thrown, c.ti, obj, a)) { found = true; break; } } }
  if (!found) violation("uncaught exception (std::terminate)");
  unwindFrom(obj, t.nfr);
}

static void heapFree(u64 p) {
  if (!p) return; Obj *o = objOf(p);
  if (!o || o->kind != KHEAP || o->base != p) violation("memory error: free of invalid pointer " + addrDesc(p));
  if (o->state != LIVE) violation("memory error: double free of " + addrDesc(p));
  if (mtOn) raceCheck(*o, o->base, o->size > 1024 ? 1024 : o->size, 1, "free");
  T64(&o->state, FREED); T64(&heapLive, heapLive - 1); }

static u32 mget(u64 m, int i) { Obj *o = objOf(m); u32 v; memcpy(&v, D + o->off + (m - o->base) + 4 * i, 4); return v; }
static void mset(u64 m, int i, u32 v) { Obj *o = objOf(m); u64 off = o->off + (m - o->base) + 4 * i; logRange(off, 4); memcpy(D + off, &v, 4); memset(M + off, 0, 4); }
enum { MAGIC = 0x4d555458, MDEAD = 0x44454144 };
static void mcheck(u64 m, bool write) {
  Obj &o = access(m, 40, true); if (mtOn && write) clsTouch(o); u64 off = o.off + (m - o.base);
  if (M[off]) violation("mutex error: use of an uninitialised mutex"); u32 mg = mget(m, 0);
  if (mg == MDEAD) violation("mutex error: use of a destroyed mutex");
  if (mg == 0) { if (!write) return; mset(m, 0, MAGIC); for (int i = 1; i < 4; i++) mset(m, i, 0); mset(m, 4, (u32)newVc()); }
  else if (mg != MAGIC) violation("mutex error: not a mutex"); }


static void finishPath();
static std::string symName(u64 a) { return rdStr(a); }

// returns false when the instruction must not advance (thread switched / unwound / frame pushed)
static bool builtin(Frame &fr, Op &op, CallInfo *ci) {
  auto A = [&](unsigned i) { return rv(fr, ci->args[i].src); };
  auto CA = [&](unsigned i) { Val v = A(i); return conc(v, ci->aw[i]); };
  auto ret = [&](Val v) { if (op.dst >= 0) wv(fr, op.dst, v); };
  unsigned w = ci->args.size() ? ci->aw[0] : 64;
  switch (ci->bi) {
    case B_int: {
      i64 lo = (i64)CA(1), hi = (i64)CA(2); std::string nm = symName(CA(0)); if (lo > hi) throw PathKill(); if (lo == hi) { ret(C((u64)lo)); return true; }
      u64 ord = 0; for (u64 k = 0; k < nInputs; k++) ord += inputs[k].kind == 0 && inputs[k].name == nm;
      char b[160]; snprintf(b, sizeof b, "%s!%llu:%llx", nm.c_str(), (unsigned long long)ord, (unsigned long long)(hi - lo)); 
      unsigned bw = 1; bool sg = lo < 0;
      if (sg) { while (bw < 64 && (lo < -(1ll << (bw - 1)) || hi > (1ll << (bw - 1)) - 1)) bw++; } else { while (bw < 64 && (u64)hi > maskw(~0ull, bw)) bw++; }
      if (bw == 1) bw = 2;
      Z3_ast v = freshVar(b, BVS[bw]);
      u64 flo = sg ? (u64)(-(1ll << (bw - 1))) : 0, fhi = sg ? (1ull << (bw - 1)) - 1 : maskw(~0ull, bw);
      Z3_ast L = O(Z3_mk_unsigned_int64(Z, maskw((u64)lo, bw), BVS[bw])), H = O(Z3_mk_unsigned_int64(Z, maskw((u64)hi, bw), BVS[bw]));
      if ((u64)lo != flo) pcAdd(O(sg ? Z3_mk_bvsge(Z, v, L) : Z3_mk_bvuge(Z, v, L)));
      if ((u64)hi != fhi) pcAdd(O(sg ? Z3_mk_bvsle(Z, v, H) : Z3_mk_bvule(Z, v, H)));
      { if (lo > 0 || hi < 0) { Z3_model m2; if (query(pc.back(), &m2) != 1) throw PathKill(); setModel(m2); Z3_model_dec_ref(Z, m2); if (!evalBool(model, (u64)lo != flo ? O(sg ? Z3_mk_bvsge(Z, v, L) : Z3_mk_bvuge(Z, v, L)) : pc.back())) { fprintf(stderr, "sx_int model\n"); abort(); } } }
      pushInput(v, nm, 0, sg ? bw + 100 : bw, 0);
      Val z = bw == 64 ? Val{0, v} : sg ? sextV(Val{0, v}, bw, 64) : zextV(Val{0, v}, bw, 64);
      ret(z); return true; }
    case B_assume: { Val c = icmp(CmpInst::ICMP_NE, A(0), C(0), ci->aw[0]); if (!c.e) { if (!c.c) { SH->killed++; throw PathKill(); } return true; }
      if (evalBool(model, c.e)) { pcAdd(c.e); return true; } Z3_model m; int r = query(c.e, &m); if (r != 1) { SH->killed++; throw PathKill(); } pcAdd(c.e); setModel(m); Z3_model_dec_ref(Z, m); return true; }
    case B_assert: { SH->asserts++; Val c = icmp(CmpInst::ICMP_NE, A(0), C(0), ci->aw[0]); if (!c.e) { if (!c.c) violation("property: " + rdStr(CA(1))); return true; }
      auto it = lits.find(c.e); if (it != lits.end()) { if (!it->second) violation("property: " + rdStr(CA(1))); return true; }
      SH->symAsserts++; Z3_ast n = mkNot(c.e); Z3_model m; int r = query(n, &m); if (r < 0) throw PathKill(); if (r == 0) { addLit(c.e, true); addLit(n, false); return true; }
      std::string msg = "property: " + rdStr(CA(1)); Z3_model_dec_ref(Z, m); pc.push_back(n); if (query(nullptr, &m) == 1) { emitViolation(msg, m); Z3_model_dec_ref(Z, m); } pc.pop_back();
      if (!evalBool(model, c.e)) { Z3_model m2; r = query(c.e, &m2); if (r != 1) throw PathKill(); setModel(m2); Z3_model_dec_ref(Z, m2); } pcAdd(c.e); return true; }
    case B_fail: violation("property: " + rdStr(CA(0)));
    case B_reach: SH->label[ci->label]++; return true;
    case B_trace: { TraceEv e{(i64)CA(0), A(1)}; if (nTrace < traceBuf.size()) traceBuf[nTrace] = e; else traceBuf.push_back(e); T64(&nTrace, nTrace + 1); return true; }
    case B_param: { std::string n = rdStr(CA(0)); auto it = gParams.find(n); ret(it != gParams.end() ? C((u64)it->second) : A(1)); return true; }
    case B_malloc: { u64 n = CA(0), al = CA(1); if (n > (1u << 26)) violation("allocation of unreasonable size"); u64 o = newObj(n, al, KHEAP, op.loc, clsOf()); T64(&heapLive, heapLive + 1); ret(C(objs[o].base)); return true; }
    case B_free: heapFree(ptrOf(A(0), "free")); return true;
    case B_faultbudget: T64(&faultBudget, CA(0)); return true;
    case B_fault: { if (!faultBudget) { ret(C(0)); return true; } 
      int r = choose(2); if (r == 0) SH->faultForks++; char b[32]; snprintf(b, sizeof b, "fault!%llu", (unsigned long long)nInputs); Z3_ast v = freshVar(b, BVS[8]); pushInput(v, "fault", 0, 8, 1); pcAdd(O(Z3_mk_eq(Z, v, O(Z3_mk_unsigned_int64(Z, r, BVS[8])))));
      if (r) { T64(&faultBudget, faultBudget - 1); T64(&faultsUsed, faultsUsed + 1); } ret(C(r)); return true; }
    case B_faultsused: ret(C(faultsUsed)); return true;
    case B_heaplive: ret(C(heapLive)); return true;
    case B_thread: { if (nThreads >= MAXT) incomplete("too many threads"); u64 fa = ptrOf(A(0), "call"); Val arg = A(1); auto it = funcAt.find(fa); if (it == funcAt.end()) incomplete("sx_thread: not a function");
      u64 id = nThreads; if (!mtOn) T64(&mtOn, 1);
      T64(&nThreads, id + 1); Thread &t = T[id]; T64(&t.st, 1); T64(&t.nfr, 0); T64(&t.regTop, 0); T64(&t.waitMutex, 0); T64(&t.waitJoin, 0); T64(&t.granted, 0); T64(&t.parked, 0); T64(&t.sync, 0); T64(&t.held, 0);
      for (int k = 0; k < MAXT; k++) T64(&t.vc[k], T[cur].vc[k]); T64(&t.vc[id], T[cur].vc[id] + 1); tick(); pushFrame(id, it->second, 0); u64 sv = cur; T64(&cur, id); wv(FR[id][0], 0, arg); T64(&cur, sv); ret(C(id)); return true; }
    case B_join: { u64 id = CA(0); if (!syncPoint(0, id + 1, 0)) return false; vcJoin(T[cur].vc, T[id].vc); if (allDoneBut(cur)) T64(&mtOn, 0); return true; }
    case B_self: ret(C(cur)); return true;
    case B_point: return syncPoint(0, 0, 0);
    case B_held: ret(C(T[cur].held)); return true;
    case B_lockcount: ret(C(lockCount)); return true;
    case B_concrete: ret(C(CA(0))); return true;
    case B_excadj: ret(C(peek64(CA(0) - 8))); return true;
    case B_unwind: doThrow(CA(0)); return false;
    case B_mainit: { u64 p = CA(0); access(p, 4, true); store(p, 4, 32, C(0)); ret(C(0)); return true; }
    case B_masettype: { u64 p = CA(0); store(p, 4, 32, C(CA(1))); ret(C(0)); return true; }
    case B_madestroy: ret(C(0)); return true;
    case B_minit: { u64 m = CA(0), at = CA(1); u32 kind = at ? (u32)rd32(at) : 0; Obj &o = access(m, 40, true); (void)o; if (mtOn) raceCheck(o, m, 40, 1); for (int i = 0; i < 10; i++) mset(m, i, 0); mset(m, 0, MAGIC); mset(m, 1, kind); mset(m, 4, (u32)newVc()); ret(C(0)); return true; }
    case B_mlock: { u64 m = ptrOf(A(0), "lock"); mcheck(m, false); u32 ow = mget(m, 2), kind = mget(m, 1);
      if (ow == cur + 1 && kind != 1) violation("deadlock: thread locks a mutex it already holds");
      if (!syncPoint(m, 0, 0)) return false; mcheck(m, true);
      ow = mget(m, 2); if (ow && ow != cur + 1) { fprintf(stderr, "lock granted while owned\n"); abort(); }
      mset(m, 2, (u32)cur + 1); mset(m, 3, mget(m, 3) + 1); T64(&T[cur].held, T[cur].held + 1); T64(&lockCount, lockCount + 1); vcAcq(mget(m, 4)); ret(C(0)); return true; }
    case B_mtry: { u64 m = ptrOf(A(0), "trylock"); mcheck(m, false); if (!syncPoint(0, 0, 0)) return false; mcheck(m, true); u32 ow = mget(m, 2), kind = mget(m, 1);
      if (ow && !(ow == cur + 1 && kind == 1)) { ret(C(16)); return true; }
      mset(m, 2, (u32)cur + 1); mset(m, 3, mget(m, 3) + 1); T64(&T[cur].held, T[cur].held + 1); T64(&lockCount, lockCount + 1); vcAcq(mget(m, 4)); ret(C(0)); return true; }
    case B_munlock: { u64 m = ptrOf(A(0), "unlock"); mcheck(m, true); if (mget(m, 2) != cur + 1) violation("mutex error: unlock of a mutex this thread does not hold");
      T64(&T[cur].sync, T[cur].sync + 1); u32 c = mget(m, 3) - 1; mset(m, 3, c); if (!c) mset(m, 2, 0); T64(&T[cur].held, T[cur].held - 1); vcRel(mget(m, 4)); ret(C(0)); return true; }
    case B_mdestroy: { u64 m = ptrOf(A(0), "destroy"); mcheck(m, true); if (mget(m, 2)) violation("mutex error: destruction of a locked mutex"); if (mtOn) { Obj &o = access(m, 40, true); raceCheck(o, m, 40, 1, "mutex destroy"); } mset(m, 0, MDEAD); ret(C(0)); return true; }
    case B_memcpy: { u64 d = ptrOf(A(0), "write"), s = ptrOf(A(1), "read"), n = CA(2); if (ci->F && !ci->F->isIntrinsic()) ret(C(d)); if (!n) return true; Obj &so = access(s, n, false); Obj &dO = access(d, n, true); if (mtOn) { raceCheck(so, s, n, 0); raceCheck(dO, d, n, 1); }
      u64 a = so.off + (s - so.base), b = dO.off + (d - dO.base); logRange(b, n); bool sym = memchr(M + a, 1, n) != nullptr; memmove(D + b, D + a, n); if (sym) memmove(S + b, S + a, n * sizeof(SymB)); memmove(M + b, M + a, n); return true; }
    case B_memset: { u64 d = ptrOf(A(0), "write"); Val v = A(1); u64 n = CA(2); if (ci->F && !ci->F->isIntrinsic()) { ret(C(d)); v = truncV(v, 32, 8); } if (!n) return true; Obj &dO = access(d, n, true); if (mtOn) raceCheck(dO, d, n, 1); u64 b = dO.off + (d - dO.base);
      if (v.e) { for (u64 k = 0; k < n; k++) storeRaw(b + k, 1, 8, v); } else { logRange(b, n); memset(D + b, (int)v.c, n); memset(M + b, 0, n); } return true; }
    case B_nop: if (op.dst >= 0) ret(ci->args.size() ? A(0) : C(0)); return true;
    case B_ret0: ret(C(0)); return true;
    case B_isconst: ret(C(0)); return true;
    case B_ident: ret(A(0)); return true;
    case B_objsize: ret(C(~0ull)); return true;
    case B_ptrmask: ret(binop(Instruction::And, A(0), A(1), 64)); return true;
    case B_ehtypeid: ret(C(typeId(CA(0)))); return true;
    case B_terminate: violation("std::terminate / abort called");
    case B_trap: violation("trap");
    case B_umax: ret(iteV(icmp(CmpInst::ICMP_UGT, A(0), A(1), w), A(0), A(1), w)); return true;
    case B_umin: ret(iteV(icmp(CmpInst::ICMP_ULT, A(0), A(1), w), A(0), A(1), w)); return true;
    case B_smax: ret(iteV(icmp(CmpInst::ICMP_SGT, A(0), A(1), w), A(0), A(1), w)); return true;
    case B_smin: ret(iteV(icmp(CmpInst::ICMP_SLT, A(0), A(1), w), A(0), A(1), w)); return true;
    case B_abs: ret(iteV(icmp(CmpInst::ICMP_SLT, A(0), C(0), w), binop(Instruction::Sub, C(0), A(0), w), A(0), w)); return true;
    case B_uaddo: { Val s = binop(Instruction::Add, A(0), A(1), w); wv(fr, op.dst, s); wv(fr, op.dst + 1, icmp(CmpInst::ICMP_ULT, s, A(0), w)); return true; }
    case B_usubo: { Val s = binop(Instruction::Sub, A(0), A(1), w), o = icmp(CmpInst::ICMP_ULT, A(0), A(1), w); wv(fr, op.dst, s); wv(fr, op.dst + 1, o); return true; }
    case B_umulo: { u64 x = CA(0), y = CA(1); unsigned __int128 p = (unsigned __int128)x * y; wv(fr, op.dst, C(maskw((u64)p, w))); wv(fr, op.dst + 1, C((p >> w) != 0)); return true; }
    case B_saddo: case B_ssubo: case B_smulo: { i64 x = sext(CA(0), w), y = sext(CA(1), w); __int128 p = ci->bi == B_saddo ? (__int128)x + y : ci->bi == B_ssubo ? (__int128)x - y : (__int128)x * y; u64 r = maskw((u64)p, w); wv(fr, op.dst, C(r)); wv(fr, op.dst + 1, C((__int128)sext(r, w) != p)); return true; }
    case B_usubsat: ret(iteV(icmp(CmpInst::ICMP_ULT, A(0), A(1), w), C(0), binop(Instruction::Sub, A(0), A(1), w), w)); return true;
    case B_uaddsat: { Val s = binop(Instruction::Add, A(0), A(1), w); ret(iteV(icmp(CmpInst::ICMP_ULT, s, A(0), w), C(maskw(~0ull, w)), s, w)); return true; }
    case B_ctpop: ret(C(__builtin_popcountll(CA(0)))); return true;
    case B_ctlz: { u64 x = CA(0); ret(C(x ? __builtin_clzll(x) - (64 - w) : w)); return true; }
    case B_cttz: { u64 x = CA(0); ret(C(x ? __builtin_ctzll(x) : w)); return true; }
    case B_bswap: ret(C(__builtin_bswap64(CA(0)) >> (64 - w))); return true;
    case B_fshl: case B_fshr: { u64 x = CA(0), y = CA(1), s = CA(2) % w; if (ci->bi == B_fshr) s = s ? w - s : 0; u64 r; if (ci->bi == B_fshr && CA(2) % w == 0) r = y; else r = s ? maskw((x << s) | (y >> (w - s)), w) : x; ret(C(r)); return true; }
    default: break;
  }
  incomplete("unmodelled function or intrinsic: " + ci->name);
}

static bool isAcq(unsigned o) { AtomicOrdering a = (AtomicOrdering)o; return a == AtomicOrdering::Acquire || a == AtomicOrdering::AcquireRelease || a == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(unsigned o) { AtomicOrdering a = (AtomicOrdering)o; return a == AtomicOrdering::Release || a == AtomicOrdering::AcquireRelease || a == AtomicOrdering::SequentiallyConsistent; }
static bool finished = false;

static void step() {
  Frame &fr = top(); Op &op = fr.f->ops[fr.pc]; if (choices.empty()) trail.clear(); instrTrail = trail.size();
  if (!COV[op.id]) COV[op.id] = 1;
  switch (op.k) {
    case BIN: wv(fr, op.dst, binop(op.sub, rv(fr, op.a), rv(fr, op.b), op.w)); break;
    case ICMP: wv(fr, op.dst, icmp(op.sub, rv(fr, op.a), rv(fr, op.b), op.w)); break;
    case SELECT: { Val c = rv(fr, op.a), a = rv(fr, op.b), b = rv(fr, op.c); if (c.e && op.w2 && !(a.c == b.c && a.e == b.e)) wv(fr, op.dst, decide(c) ? a : b); else wv(fr, op.dst, iteV(c, a, b, op.w)); break; }
    case ZEXT: wv(fr, op.dst, zextV(rv(fr, op.a), op.w2, op.w)); break;
    case SEXT: wv(fr, op.dst, sextV(rv(fr, op.a), op.w2, op.w)); break;
    case TRUNC: wv(fr, op.dst, truncV(rv(fr, op.a), op.w2, op.w)); break;
    case MOV: wv(fr, op.dst, rv(fr, op.a)); break;
    case GEP: { GepInfo *g = (GepInfo *)op.p; Val v = rv(fr, op.a); if (g->k) v = v.e ? binop(Instruction::Add, v, C((u64)g->k), 64) : C(v.c + (u64)g->k);
      for (auto &x : g->var) { Val i = sextV(rv(fr, x.first), x.second.first, 64); if (x.second.second != 1) i = binop(Instruction::Mul, i, C((u64)x.second.second), 64); v = binop(Instruction::Add, v, i, 64); } wv(fr, op.dst, v); break; }
    case LOAD: { u64 a = ptrOf(rv(fr, op.a), "read") + op.imm; wv(fr, op.dst, load(a, op.w2, op.w)); break; }
    case STORE: { u64 a = ptrOf(rv(fr, op.a), "write") + op.imm; store(a, op.w2, op.w, rv(fr, op.b)); break; }
    case ALLOCA: { u64 n = conc(rv(fr, op.a), 64); wv(fr, op.dst, C(frameAlloca(fr, op.imm * n, op.w2))); break; }
    case BR: go(fr, ((BrInfo *)op.p)->t); return;
    case CBR: { bool b = decide(rv(fr, op.a)); BrInfo *bi = (BrInfo *)op.p; go(fr, b ? bi->t : bi->f); return; }
    case SWITCH: { SwInfo *s = (SwInfo *)op.p; Val v = rv(fr, op.a); if (!v.e) { for (auto &c : s->cs) if (c.first == v.c) { go(fr, c.second); return; } go(fr, s->def); return; }
      for (auto &c : s->cs) if (decide(icmp(CmpInst::ICMP_EQ, v, C(c.first), op.w))) { go(fr, c.second); return; } go(fr, s->def); return; }
    case RET: {
      Val r[16]; std::vector<i32> *v = (std::vector<i32> *)op.p; unsigned n = op.w; if (n > 16) incomplete("wide return"); for (unsigned i = 0; i < n; i++) r[i] = rv(fr, (*v)[i]);
      popFrame(); Thread &t = T[cur];
      if (!t.nfr) { if (cur == 0) { finished = true; return; } threadExit(); return; }
      Frame &cf = top(); Op &co = cf.f->ops[cf.pc]; for (unsigned i = 0; i < n && co.dst >= 0; i++) wv(cf, co.dst + i, r[i]);
      if (co.k == INVOKE) go(cf, ((CallInfo *)co.p)->normal); else T64(&cf.pc, cf.pc + 1); return; }
    case CALL: case INVOKE: {
      CallInfo *ci = (CallInfo *)op.p; Func *fn = ci->fn;
      if (ci->ck == CINDIRECT) { u64 a = ptrOf(rv(fr, ci->callee), "call"); auto it = funcAt.find(a); if (it == funcAt.end()) violation("memory error: call through an invalid function pointer " + addrDesc(a)); fn = it->second;
        if (fn->F->isDeclaration()) { auto bn = biName.find(fn->name); if (bn == biName.end()) incomplete("indirect call of unmodelled function " + fn->name); incomplete("indirect builtin call " + fn->name); } }
      if (ci->ck == CBUILTIN) { u64 c0 = cur, n0 = T[cur].nfr; if (!builtin(fr, op, ci)) return; (void)c0; (void)n0; if (op.k == INVOKE) go(fr, ci->normal); else T64(&fr.pc, fr.pc + 1); return; }
      // evaluate arguments in the caller, then push
      Val av[64]; unsigned na = ci->args.size(); if (na > 64) incomplete("too many arguments"); 
      for (unsigned i = 0; i < na; i++) { av[i] = rv(fr, ci->args[i].src); if (ci->args[i].byval) (void)ptrOf(av[i], "read"); }
      if (fn->nargs > na) incomplete("call with too few arguments: " + fn->name); 
      u64 bv[64]; bool anyb = false; for (unsigned i = 0; i < na; i++) if (ci->args[i].byval) { anyb = true; bv[i] = ptrOf(av[i], "read"); }
      pushFrame(cur, fn, 0); Frame &nf = top();
      if (anyb) for (unsigned i = 0; i < na; i++) if (ci->args[i].byval) { u64 n = ci->args[i].byval; u64 d = frameAlloca(nf, n, ci->args[i].byalign); Obj &so = access(bv[i], n, false); Obj &dO = *objOf(d); if (mtOn) raceCheck(so, bv[i], n, 0); u64 a = so.off + (bv[i] - so.base), b = dO.off; memcpy(D + b, D + a, n); memcpy(S + b, S + a, n * sizeof(SymB)); memcpy(M + b, M + a, n); av[i] = C(d); }
      for (unsigned i = 0; i < fn->nargs; i++) wv(nf, i, av[i]); return; }
    case LPAD: wv(fr, op.dst, C(T[cur].excObj)); wv(fr, op.dst + 1, C(T[cur].excSel)); break;
    case RESUME: { u64 o = conc(rv(fr, op.a), 64); unwindFrom(o, T[cur].nfr - 1); return; }
    case UNREACH: violation("unreachable code executed (undefined behaviour)");
    case FENCE: break;
    case ALOAD: { u64 a = ptrOf(rv(fr, op.a), "read"); Obj &o = access(a, op.w2, false); if (!syncPoint(0, 0, a)) return; if (o.state != LIVE) access(a, op.w2, false); if (mtOn) { raceCheck(o, a, op.w2, 2); if (isAcq(op.sub)) { vcAcq(atomVc(a)); if (op.w2 == 8) vcAcq(atomVc(a + 4)); } } /* libstdc++ reads two counts at once */ wv(fr, op.dst, loadRaw(o.off + (a - o.base), op.w2, op.w)); break; }
    case ASTORE: { u64 a = ptrOf(rv(fr, op.a), "write"); Obj &o = access(a, op.w2, true); if (!syncPoint(0, 0, a)) return; if (o.state != LIVE) access(a, op.w2, true); if (mtOn) { raceCheck(o, a, op.w2, 3); u64 v = atomVc(a); if (isRel(op.sub)) vcRel(v); else for (int k = 0; k < MAXT; k++) T64(&vcs[v].c[k], 0); } storeRaw(o.off + (a - o.base), op.w2, op.w, rv(fr, op.b)); break; }
    case RMW: { u64 a = ptrOf(rv(fr, op.a), "write"); unsigned n = op.w / 8; if (op.w == 1) n = 1; Obj &o = access(a, n, true); if (!syncPoint(0, 0, a)) return; if (o.state != LIVE) access(a, n, true); if (mtOn) { raceCheck(o, a, n, 3); u64 v = atomVc(a); if (isAcq(op.sub)) vcAcq(v); if (isRel(op.sub)) vcRelJoin(v); }
      Val old = loadRaw(o.off + (a - o.base), n, op.w), b = rv(fr, op.b), nv; switch (op.w2) { case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, b, op.w); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, b, op.w); break; case AtomicRMWInst::And: nv = binop(Instruction::And, old, b, op.w); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, b, op.w); break; case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, b, op.w); break; default: incomplete("atomicrmw kind"); }
      storeRaw(o.off + (a - o.base), n, op.w, nv); wv(fr, op.dst, old); break; }
    case CMPX: { u64 a = ptrOf(rv(fr, op.a), "write"); unsigned n = op.w / 8; Obj &o = access(a, n, true); if (!syncPoint(0, 0, a)) return; if (o.state != LIVE) access(a, n, true);
      Val old = loadRaw(o.off + (a - o.base), n, op.w); bool eq = decide(icmp(CmpInst::ICMP_EQ, old, rv(fr, op.b), op.w));
      if (mtOn) { raceCheck(o, a, n, eq ? 3 : 2); u64 v = atomVc(a); if (isAcq(eq ? op.sub : op.w2)) vcAcq(v); if (eq && isRel(op.sub)) vcRelJoin(v); }
      if (eq) storeRaw(o.off + (a - o.base), n, op.w, rv(fr, op.c)); wv(fr, op.dst, old); wv(fr, op.dst + 1, C(eq)); break; }
    case FBIN: { Val a = rv(fr, op.a), b = rv(fr, op.b); if (a.e || b.e || op.w != 64) incomplete("symbolic floating point"); double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); switch (op.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: incomplete("fp op"); } u64 v; memcpy(&v, &r, 8); wv(fr, op.dst, C(v)); break; }
    case FCMP: { Val a = rv(fr, op.a), b = rv(fr, op.b); if (a.e || b.e || op.w != 64) incomplete("symbolic floating point"); double x, y; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); bool r; switch (op.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; default: incomplete("fcmp"); } wv(fr, op.dst, C(r)); break; }
    case SITOFP: { Val a = rv(fr, op.a); if (a.e || op.w != 64) incomplete("symbolic floating point"); double r = op.sub == Instruction::SIToFP ? (double)sext(a.c, op.w2) : (double)a.c; u64 v; memcpy(&v, &r, 8); wv(fr, op.dst, C(v)); break; }
    case FPTOSI: { Val a = rv(fr, op.a); if (a.e || op.w2 != 64) incomplete("symbolic floating point"); double x; memcpy(&x, &a.c, 8); wv(fr, op.dst, C(maskw(op.sub == Instruction::FPToSI ? (u64)(i64)x : (u64)x, op.w))); break; }
    default: { std::string s; raw_string_ostream os(s); if (op.p) ((Instruction *)op.p)->print(os); incomplete("unsupported instruction: " + os.str()); }
  }
  T64(&fr.pc, fr.pc + 1);
}

static double tEnd = 0; static u64 histHash = 0;
static void runPath() {
  u64 n = 0;
  try {
    finished = false;
    while (!finished) {
      step(); n++; 
      if ((n & 0xfff) == 0) { if (SH->stop) break; if (now() > tEnd) { SH->timeout = 1; SH->stop = 1; break; } }
      stepsPath++;
      if (stepsPath > gMaxSteps) violation("no termination: a path exceeds " + std::to_string(gMaxSteps) + " instructions");
    }
    if (finished) {
      SH->paths++;
      for (u64 i = 1; i < nThreads; i++) if (T[i].st == 1) incomplete("harness: entry returned with a live thread");
      u64 p = SH->paths; bool pick = p == 1 || ((p * 0x9E3779B97F4A7C15ull + gSeed * 77777) >> 40) % 97 == 0 || p == 2;
      if (pick && (int)SH->samples.load() < gSamples) { u64 k = SH->samples++; if ((int)k < gSamples) { Z3_model m; if (query(nullptr, &m) == 1) { std::string fn = gOut + "/sample_" + std::to_string(k) + ".case"; FILE *f = fopen(fn.c_str(), "w"); if (f) { Thread sv = T[cur]; T[cur].nfr = 0; writeCase(f, m, "path completed"); T[cur].nfr = sv.nfr; fclose(f); } Z3_model_dec_ref(Z, m); } } }
    }
  } catch (PathKill &) {}
  SH->steps += n; SH->syncPoints += lSync; SH->preemptLimited += lLim; lSync = lLim = 0; u64 d = SH->maxDepth; while (maxDepth > d && !SH->maxDepth.compare_exchange_weak(d, maxDepth)) {}
}
static void undoTo(const Choice &c) {
  while (trail.size() > c.mark) { TE &e = trail.back(); *e.p = e.old; trail.pop_back(); }
  stepsPath = c.steps; pc.resize(c.pcLen); while (litLog.size() > c.litLen) { lits.erase(litLog.back()); litLog.pop_back(); }
  // solver stack must not hold asts we are about to release
  { size_t k = 0; while (k < sstack.size() && k < pc.size() && sstack[k] == pc[k]) k++; if (sstack.size() > k) { Z3_solver_pop(Z, solver, sstack.size() - k); sstack.resize(k); } }
  while (owned.size() > c.ownedLen) { Z3_dec_ref(Z, owned.back()); owned.pop_back(); }
}
static void recompute() { trailOn = true; cpBump = choices.empty() ? 0 : choices.back().bump; }
static bool takeTop() {
  if (choices.empty()) return false;
  Choice &c = choices.back(); undoTo(c);
  if (c.kind == 0) { Z3_ast alt = c.alt; Z3_model m = c.altModel; choices.pop_back(); recompute(); pcAdd(alt); addLit(mkNot(alt), false); setModel(m); Z3_model_dec_ref(Z, m); }
  else { pending = c.next++; bool last = c.next == c.n; setModel(c.altModel); if (last) { if (c.altModel) Z3_model_dec_ref(Z, c.altModel); choices.pop_back(); } recompute(); }
  instrTrail = trail.size(); return true;
}
static std::vector<pid_t> kids;
static void reap(bool wait) { for (size_t i = 0; i < kids.size();) { int st; pid_t r = waitpid(kids[i], &st, wait ? 0 : WNOHANG); if (r == kids[i]) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { SH->crashed++; SH->stop = 1; } kids.erase(kids.begin() + i); } else i++; } }
static void explore() {
  bool more = true;
  while (more) {
    runPath(); if (SH->stop) break;
    if (now() > tEnd) { if (!choices.empty()) { SH->timeout = 1; SH->stop = 1; } break; }
    while (choices.size() > 1 || (choices.size() == 1 && choices[0].kind == 1 && choices[0].n - choices[0].next > 1)) {
      int a = SH->active.load(); if (a >= gWorkers) break; if (!SH->active.compare_exchange_strong(a, a + 1)) continue;
      pid_t p = fork();
      if (p < 0) { SH->active--; break; }
      if (p == 0) { kids.clear(); choices.resize(1); SH->label[0].load(); maxDepth = 0; break; }
      kids.push_back(p); 
      if (choices[0].altModel) Z3_model_dec_ref(Z, choices[0].altModel);
      choices.erase(choices.begin()); if (choices.empty()) break;
    }
    reap(false);
    more = takeTop();
  }
  SH->active--; reap(true);
}

static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }
static void *priv(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }
static std::string jstr(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

#include <execinfo.h>
static void onCrash(int s) { void *b[40]; int n = backtrace(b, 40); fprintf(stderr, "sx: signal %d\n", s); backtrace_symbols_fd(b, n, 2); _exit(100); }
int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage\n"); return 2; }
  std::string mod = argv[1];
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") gEntry = nx(); else if (a == "--out") gOut = nx(); else if (a == "--workers") gWorkers = atoi(argv[++i]); else if (a == "--preempt") gPreempt = atoi(argv[++i]); else if (a == "--deadline") gDeadline = atof(argv[++i]); else if (a == "--maxsteps") gMaxSteps = atoll(argv[++i]); else if (a == "--samples") gSamples = atoi(argv[++i]); else if (a == "--maxviol") gMaxViol = atoi(argv[++i]); else if (a == "--seed") gSeed = atoll(argv[++i]); else if (a == "-v") gVerbose = 1;
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); gParams[p.substr(0, e)] = atoll(p.c_str() + e + 1); } else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; } }
  double t0 = now(); tEnd = t0 + gDeadline;
  for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(sg, onCrash);
  LLVMContext ctx; SMDiagnostic err; auto M0 = parseIRFile(mod, err, ctx); if (!M0) { err.print("sx", errs()); return 2; }
  Mod = M0.get(); DL = &Mod->getDataLayout();
  SH = (Shared *)shm(sizeof(Shared));
  D = (u8 *)priv(ARENA); M = (u8 *)priv(ARENA); S = (SymB *)priv(ARENA * sizeof(SymB)); SW = (ShadowB *)priv(ARENA * sizeof(ShadowB));
  objs = (Obj *)priv((1ull << 22) * sizeof(Obj)); slotObj = (u32 *)priv(MAXSLOT * 4); T = (Thread *)priv(sizeof(Thread) * MAXT); for (int i = 0; i < MAXT; i++) { FR[i] = (Frame *)priv(sizeof(Frame) * MAXFR); RG[i] = (Val *)priv(sizeof(Val) * MAXREG); }
  vcs = (VC *)priv(sizeof(VC) * MAXVC); atab = (AT *)priv(sizeof(AT) * NAT);
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, z3err);
  BOOL = Z3_mk_bool_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, BOOL)); for (int i = 1; i <= 64; i++) { BVS[i] = Z3_mk_bv_sort(Z, i); Z3_inc_ref(Z, Z3_sort_to_ast(Z, BVS[i])); }
  solver2 = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, solver2); solver = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, solver); { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), 50000000); Z3_solver_set_params(Z, solver, p); Z3_solver_set_params(Z, solver2, p); Z3_params_dec_ref(Z, p); }
  // addresses
  for (auto &F : *Mod) { if (F.isIntrinsic()) continue; u64 o = newObj(16, 16, KFUNC, 0, 0); gaddr[&F] = objs[o].base; Func *f = getFunc(&F); f->addr = objs[o].base; funcAt[f->addr] = f; }
  for (auto &G : Mod->globals()) { u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 64; if (G.isDeclaration()) sz = std::max<u64>(sz, 128); u64 al = std::max<u64>(16, G.getAlign().valueOrOne().value()); u64 o = newObj(sz, al, KGLOBAL, 0, 0); gaddr[&G] = objs[o].base; memset(M + objs[o].off, 0, sz); memset(D + objs[o].off, 0, sz); }
  for (auto &G : Mod->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) { Obj *o = objOf(gaddr[&G]); initMem(o->off, G.getInitializer()); if (G.isConstant()) o->kind = KCONST; }
  { u64 id = 1; for (auto &G : Mod->globals()) tiId[gaddr[&G]] = id++; tiId[0] = id++; }
  // decode what the entry and the global constructors reach
  Function *E = Mod->getFunction(gEntry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", gEntry.c_str()); return 2; }
  std::vector<Function *> ctors; if (auto *g = Mod->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) { std::vector<std::pair<u64, Function *>> v; for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(&*o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) ctors.push_back(p.second); }
  std::vector<Function *> work{E};
  auto drain = [&]() { while (!work.empty()) { Function *f = work.back(); work.pop_back(); if (f->isDeclaration()) continue; decode(getFunc(f), work); } };
  drain(); // labels reachable from the entry alone
  size_t nl = labels.size(); for (auto *c : ctors) work.push_back(c); drain(); if (nl > MAXLABEL) { fprintf(stderr, "too many labels\n"); return 2; }
  nOps = opFunc.size(); COV = (u8 *)shm(nOps + 1);
  for (int i = 0; i < MAXT; i++) T[i].vc[i] = 1;
  T[0].st = 1;
  try { for (auto *c : ctors) { pushFrame(0, getFunc(c), 0); finished = false; while (!finished) step(); } } catch (PathKill &) { fprintf(stderr, "global constructor failed: %s\n", SH->incompleteMsg); }
  finished = false;
  int rounds = 0; int fullPre = gPreempt; double tr0 = now();
  bool threaded = Mod->getFunction("sx_thread") != nullptr; (void)threaded;
  std::string roundsLog;
  for (;; rounds++) {
    // round 0 (preemption bound 0) only discovers which allocation classes are shared between threads
    gPreempt = rounds == 0 && fullPre > 0 ? 0 : fullPre;
    SH->newShared = 0; SH->paths = SH->killed = SH->forks = SH->schedForks = SH->faultForks = SH->samples = 0; SH->syncPoints = 0; SH->preemptLimited = 0; for (auto &l : SH->label) l = 0;
    SH->active = 1; fflush(stdout);
    pid_t p = fork(); if (p < 0) { perror("fork"); return 2; }
    if (p == 0) { Func *f = getFunc(E); pushFrame(0, f, 0); explore(); _exit(0); }
    int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) SH->crashed++;
    roundsLog += (rounds ? ", " : "") + std::to_string(SH->paths.load());
    if (SH->nviol || SH->stop || SH->crashed) break;
    if (rounds == 0 && SH->schedForks == 0 && SH->syncPoints == 0) break;   // sequential
    if (rounds > 0 && !SH->newShared) break;
    if (rounds > 8) { SH->incomplete++; strcpy(SH->incompleteMsg, "sharing fixpoint not reached"); break; }
  }
  (void)tr0;
  // report
  std::map<std::string, std::pair<u64, u64>> fcov; std::map<std::string, std::set<unsigned>> lines; u64 covOps = 0;
  for (auto &pf : funcs) for (auto &op : pf.second->ops) { const Loc &l = locs[op.loc]; bool c = COV[op.id]; covOps += c; if (l.file.find("/boost/signals2/") == std::string::npos) continue; std::string d = l.fn; auto &x = fcov[d]; x.second++; x.first += c; if (c) lines[l.file].insert(l.line); }
  std::string missing; for (size_t i = 0; i < nl; i++) if (!SH->label[i]) missing += (missing.empty() ? "" : ",") + labels[i];
  std::string rf = gOut + "/result.json"; FILE *f = fopen(rf.c_str(), "w"); if (!f) { perror(rf.c_str()); return 2; }
  fprintf(f, "{\"entry\":%s,\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"sched_forks\":%llu,\"fault_forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"asserts\":%llu,\"symbolic_asserts\":%llu,\"violations\":%llu,\"timeout\":%d,\"crashed\":%d,\"incomplete\":%llu,\"incomplete_msg\":%s,\"missing_labels\":%s,\"labels\":%zu,\"max_depth\":%llu,\"rounds\":%d,\"rounds_paths\":%s,\"preempt\":%d,\"sync_points\":%llu,\"wall_s\":%.3f,\"samples\":%llu",
    jstr(gEntry).c_str(), (unsigned long long)SH->paths, (unsigned long long)SH->killed, (unsigned long long)SH->forks, (unsigned long long)SH->schedForks, (unsigned long long)SH->faultForks, (unsigned long long)SH->steps, (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, (unsigned long long)SH->qcached, SH->solverUs / 1e6, (unsigned long long)SH->asserts, (unsigned long long)SH->symAsserts, (unsigned long long)SH->nviol, (int)SH->timeout, (int)SH->crashed, (unsigned long long)SH->incomplete, jstr(SH->incompleteMsg).c_str(), jstr(missing).c_str(), nl, (unsigned long long)SH->maxDepth, rounds + 1, jstr(roundsLog).c_str(), gPreempt, (unsigned long long)SH->syncPoints, now() - t0, (unsigned long long)std::min<u64>(SH->samples, gSamples));
  fprintf(f, ",\"functions\":["); bool first = true; for (auto &x : fcov) if (x.second.first) { fprintf(f, "%s%s", first ? "" : ",", jstr(x.first).c_str()); first = false; } fprintf(f, "]");
  fprintf(f, ",\"lines\":{"); first = true; for (auto &x : lines) { fprintf(f, "%s%s:[", first ? "" : ",", jstr(x.first).c_str()); bool f2 = true; for (unsigned l : x.second) { fprintf(f, "%s%u", f2 ? "" : ",", l); f2 = false; } fprintf(f, "]"); first = false; } fprintf(f, "}}\n"); fclose(f);
  printf("%s: paths=%llu killed=%llu forks=%llu sched=%llu queries=%llu(+%llu cached) solver=%.1fs steps=%llu viol=%llu wall=%.1fs depth=%llu rounds=%d%s%s%s%s\n", gEntry.c_str(), (unsigned long long)SH->paths, (unsigned long long)SH->killed, (unsigned long long)SH->forks, (unsigned long long)SH->schedForks, (unsigned long long)SH->queries, (unsigned long long)SH->qcached, SH->solverUs / 1e6, (unsigned long long)SH->steps, (unsigned long long)SH->nviol, now() - t0, (unsigned long long)SH->maxDepth, rounds + 1, SH->timeout ? " TIMEOUT" : "", SH->crashed ? " CRASHED" : "", SH->incomplete ? (std::string(" INCOMPLETE ") + SH->incompleteMsg).c_str() : "", missing.empty() ? "" : (" UNREACHED " + missing).c_str());
  return 0;
}
