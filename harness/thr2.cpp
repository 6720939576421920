// C16, C17, C18, C24 (threads): visibility, tracked lifetime, blocking and
// combiner replacement under every schedule within the preemption bound.
#include "common.hpp"
#include <atomic>
#include <memory>
struct TLog { int n; int id[32]; void clear() { n = 0; } };
static TLog tlog[4];
struct TFn { int id; explicit TFn(int i) : id(i) {} void operator()(int) const { TLog &l = tlog[sx_self()]; if (l.n < 32) l.id[l.n++] = id; } bool operator==(const TFn &o) const { return id == o.id; } };
typedef bs2::signal<void(int)> Sig; typedef Sig::slot_type Slot;
// ---- C16
enum { M_D0, M_DG, M_DF, M_DALL, M_CB, M_CF, M_CG, M_DC, M_N };
static const int order[] = {6, 0, 1, 2, 7, 3, 5};   // documented order of all ids: front, ungrouped? (see rank)
struct Vis { Sig sig; bs2::connection c[8]; int op[2][2]; std::atomic<int> begun[2][2], done[2][2]; int nops[2]; bs2::connection made[2][2]; };
static Vis *V;
// ids: 0 ungrouped back, 1 group 1, 2 group 2, 3 ungrouped back; 10+2t+k connected by thread t op k
static void modify(int t) {
  for (int k = 0; k < V->nops[t]; k++) {
    V->begun[t][k].store(1); int id = 10 + 2 * t + k;
    switch (V->op[t][k]) {
      case M_D0: V->c[0].disconnect(); break;
      case M_DG: V->sig.disconnect(1); break;
      case M_DF: V->sig.disconnect(TFn(0)); break;
      case M_DALL: V->sig.disconnect_all_slots(); break;
      case M_CB: V->made[t][k] = V->sig.connect(TFn(id)); break;
      case M_CF: V->made[t][k] = V->sig.connect(TFn(id), bs2::at_front); break;
      case M_CG: V->made[t][k] = V->sig.connect(1, TFn(id)); break;
      case M_DC: V->c[2].disconnect(); break;
    }
    V->done[t][k].store(1);
  }
}
// does operation op (by thread t, index k) disconnect slot id?
static bool hits(int op, int id) { switch (op) { case M_D0: case M_DF: return id == 0; case M_DG: return id == 1 || false; case M_DALL: return true; case M_DC: return id == 2; } return false; }
static bool adds(int op) { return op == M_CB || op == M_CF || op == M_CG; }
static int rank(int id, int op) { int r = id == 1 ? 10 : id == 2 ? 20 : id == 0 ? 30 : id == 3 ? 31 : op == M_CF ? 0 : op == M_CG ? 11 : 40; return r; }
static int g_thr;   // number of modifying threads
static void invokeAndCheck() {
  int done0[2][2], beg1[2][2], beg0[2][2];
  for (int t = 0; t < g_thr; t++) for (int k = 0; k < V->nops[t]; k++) { done0[t][k] = V->done[t][k].load(); beg0[t][k] = V->begun[t][k].load(); }
  TLog &l = tlog[sx_self()]; l.clear(); V->sig(3);
  for (int t = 0; t < g_thr; t++) for (int k = 0; k < V->nops[t]; k++) beg1[t][k] = V->begun[t][k].load();
  for (int id = 0; id < 4; id++) {
    int cnt = 0; for (int i = 0; i < l.n; i++) cnt += l.id[i] == id; bool must0 = false, may0 = false;
    for (int t = 0; t < g_thr; t++) for (int k = 0; k < V->nops[t]; k++) if (hits(V->op[t][k], id)) { if (done0[t][k]) must0 = true; if (beg1[t][k]) may0 = true; }
    CHECK(cnt <= 1, "a slot was called twice by one invocation"); CHECK(!must0 || cnt == 0, "an invocation that started after the disconnect returned calls the slot"); CHECK(may0 || cnt == 1, "a slot connected throughout was not called");
  }
  for (int t = 0; t < g_thr; t++) for (int k = 0; k < V->nops[t]; k++) if (adds(V->op[t][k])) {
    int id = 10 + 2 * t + k, cnt = 0; for (int i = 0; i < l.n; i++) cnt += l.id[i] == id; bool killed = false;
    for (int u = 0; u < g_thr; u++) for (int j = 0; j < V->nops[u]; j++) if (beg1[u][j] && (V->op[u][j] == M_DALL || (V->op[u][j] == M_DG && V->op[t][k] == M_CG))) killed = true;
    CHECK(cnt <= 1, "a slot was called twice by one invocation"); CHECK(beg1[t][k] || cnt == 0, "called before it was connected"); if (done0[t][k] && !killed) CHECK(cnt == 1, "an invocation that started after connect returned does not call the slot");
  }
  for (int i = 0; i + 1 < l.n; i++) { int a = l.id[i], b = l.id[i + 1]; int oa = a >= 10 ? V->op[(a - 10) / 2][(a - 10) % 2] : 0, ob = b >= 10 ? V->op[(b - 10) / 2][(b - 10) % 2] : 0; int ra = rank(a, oa), rb = rank(b, ob); CHECK(ra <= rb, "order of calls in a concurrent invocation"); }
}
static int g_inv;
static void bodyMod(void *p) { modify((int)(long)p); }
static void bodyInv(void *) { for (int i = 0; i < g_inv; i++) invokeAndCheck(); }
static void vis(int thr, int nops, int inv, int lo, int hi) {
  { V = new Vis; g_thr = thr; g_inv = inv; V->c[0] = V->sig.connect(TFn(0)); V->c[1] = V->sig.connect(1, TFn(1)); V->c[2] = V->sig.connect(2, TFn(2)); V->c[3] = V->sig.connect(TFn(3));
    if (pick("pre", 2)) { bs2::connection x = V->sig.connect(1, TFn(50), bs2::at_front); x.disconnect(); }     // an uncollected record
    for (int t = 0; t < 2; t++) { V->nops[t] = t < thr ? nops : 0; for (int k = 0; k < nops; k++) { V->begun[t][k].store(0); V->done[t][k].store(0); if (t < thr) V->op[t][k] = lo + pick("op", hi - lo); } }
    int a = sx_thread(bodyMod, (void *)0L), b = thr > 1 ? sx_thread(bodyMod, (void *)1L) : -1;
    bodyInv(0); sx_join(a); if (b >= 0) sx_join(b);
    invokeAndCheck(); TLog &l = tlog[sx_self()]; CHECK(V->sig.num_slots() == (std::size_t)l.n, "num_slots() after the threads finished");
    delete V; sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void vis_one() { vis(1, (int)sx_param("nops", 2), (int)sx_param("inv", 2), 0, M_N); }
extern "C" void vis_two() { vis(2, (int)sx_param("nops", 1), (int)sx_param("inv", 1), 0, M_N); }
// two invokers and one modifier
static void bodyInv1(void *) { invokeAndCheck(); }
extern "C" void vis_inv2() {
  { V = new Vis; g_thr = 1; V->c[0] = V->sig.connect(TFn(0)); V->c[1] = V->sig.connect(1, TFn(1)); V->c[2] = V->sig.connect(2, TFn(2)); V->c[3] = V->sig.connect(TFn(3)); V->nops[0] = 1; V->nops[1] = 0; V->begun[0][0].store(0); V->done[0][0].store(0); V->op[0][0] = pick("op", M_N);
    int a = sx_thread(bodyInv1, 0), b = sx_thread(bodyInv1, 0); modify(0); sx_join(a); sx_join(b); invokeAndCheck(); delete V; sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// an invocation that ends by cleaning up the slots disconnected during it, while another thread changes the signal
static bs2::connection g_vc[4]; struct Cleaner { int id; void operator()(int) const { TLog &l = tlog[sx_self()]; if (l.n < 32) l.id[l.n++] = id; g_vc[1].disconnect(); g_vc[2].disconnect(); } bool operator==(const Cleaner &o) const { return id == o.id; } };
static Sig *VS; static int vcount(int id) { TLog &l = tlog[sx_self()]; int k = 0; for (int i = 0; i < l.n; i++) k += l.id[i] == id; return k; }
static void bodyClean(void *) { tlog[sx_self()].clear(); (*VS)(1); CHECK(vcount(0) <= 1 && vcount(3) <= 1 && vcount(7) <= 1, "a slot was called twice by one invocation"); }
extern "C" void vis_cleanup() {
  { VS = new Sig; g_vc[0] = VS->connect(Cleaner{0}); g_vc[1] = VS->connect(TFn(1)); g_vc[2] = VS->connect(TFn(2)); bool more = pick("more", 2); if (more) g_vc[3] = VS->connect(3, TFn(3)); int op = pick("op", 8), n = (int)sx_param("inv", 1);
    int t = sx_thread(bodyClean, 0), t2 = n > 1 ? sx_thread(bodyClean, 0) : -1; bool has7 = false, no0 = false, no3 = !more; bs2::connection k;
    switch (op) {
      case 0: k = VS->connect(TFn(7)); has7 = true; break; case 1: k = VS->connect(TFn(7), bs2::at_front); has7 = true; break; case 2: k = VS->connect(3, TFn(7), bs2::at_front); has7 = true; break;
      case 3: g_vc[0].disconnect(); no0 = true; break; case 4: VS->disconnect(3); no3 = true; break; case 5: VS->disconnect_all_slots(); no0 = no3 = true; break; case 6: VS->disconnect(TFn(3)); no3 = true; break; case 7: VS->num_slots(); break;
    }
    tlog[sx_self()].clear(); (*VS)(2); CHECK(vcount(7) == has7, "an invocation that started after connect returned does not call the slot"); CHECK(vcount(0) == !no0 && vcount(3) == !no3, "an invocation calls a slot disconnected before it, or misses a connected one");
    sx_join(t); if (t2 >= 0) sx_join(t2); tlog[sx_self()].clear(); (*VS)(3); CHECK(vcount(7) == has7, "a connection made during a cleanup is lost"); CHECK(vcount(0) == !no0 && vcount(3) == !no3 && vcount(1) == 0 + (g_vc[1].connected() ? 1 : 0), "calls after the threads finished"); CHECK(VS->num_slots() == (size_t)tlog[sx_self()].n, "num_slots() after the threads finished");
    if (has7) CHECK(k.connected(), "a connection made during a cleanup is lost"); delete VS; for (int i = 0; i < 4; i++) g_vc[i] = bs2::connection(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// several disconnects of one connection: the function object dies once
static std::atomic<int> g_fnlive; struct CntFn { int id; CntFn(int i) : id(i) { g_fnlive++; } CntFn(const CntFn &o) : id(o.id) { g_fnlive++; } ~CntFn() { CHECK(sx_mutexes_held() == 0, "a function object is destroyed while a library lock is held"); g_fnlive--; } void operator()(int) const { CHECK(g_fnlive > 0, "dead slot called"); } bool operator==(const CntFn &o) const { return id == o.id; } };
static Sig *S; static bs2::connection g_c; static int g_how[3];
static void disc(int how) { switch (how) { case 0: g_c.disconnect(); break; case 1: { bs2::scoped_connection s(g_c); break; } case 2: S->disconnect(4); break; case 3: S->disconnect_all_slots(); break; case 4: S->disconnect(CntFn(1)); break; case 5: (*S)(1); break; case 6: { bs2::connection c = S->connect(CntFn(2)); c.disconnect(); break; } } }
static void bodyD(void *p) { disc(g_how[(long)p]); }
extern "C" void disc_once() {
  { S = new Sig; g_c = S->connect(4, CntFn(1)); bs2::connection k = S->connect(CntFn(3)); CHECK(g_fnlive == 2, "copies of the function objects"); int n = (int)sx_param("thr", 2); for (int i = 0; i < n; i++) g_how[i] = pick("how", 7);
    int t1 = sx_thread(bodyD, (void *)1L), t2 = n > 2 ? sx_thread(bodyD, (void *)2L) : -1; bodyD((void *)0L); sx_join(t1); if (t2 >= 0) sx_join(t2);
    bool gone = false, all = false; for (int i = 0; i < n; i++) { if (g_how[i] <= 4) gone = true; if (g_how[i] == 3) all = true; }
    CHECK(g_c.connected() == !gone, "disconnected"); CHECK(k.connected() == !all, "other slot"); CHECK(g_fnlive == !gone + !all, "function objects alive after concurrent disconnects"); CHECK(S->num_slots() == (std::size_t)(!gone + !all), "num_slots"); delete S; CHECK(g_fnlive == 0, "function objects leaked"); g_c = bs2::connection(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C17
static std::atomic<int> g_dead; static bool g_lockdtor;
struct Ob { int v; Ob() : v(7) {} ~Ob() { CHECK(sx_mutexes_held() == 0, "a tracked object is destroyed while a library lock is held"); v = 0; g_dead++; } };
struct UseFn { int id; Ob *p; void operator()(int) const { CHECK(p->v == 7, "a slot runs without its tracked object"); sx_point(); CHECK(p->v == 7, "a tracked object died during the call"); TLog &l = tlog[sx_self()]; if (l.n < 32) l.id[l.n++] = id; } bool operator==(const UseFn &o) const { return id == o.id; } };
static boost::shared_ptr<Ob> g_own, g_own2; static std::shared_ptr<Ob> g_sown, g_sown2; static bs2::connection g_t, g_u; static int g_op[3]; static std::atomic<int> g_reset, g_relbegun;
static void trop(int op) {
  switch (op) {
    case 0: { int done = g_dead.load(); TLog &l = tlog[sx_self()]; l.clear(); (*S)(1); int tr = 0, pl = 0; for (int i = 0; i < l.n; i++) { if (l.id[i] == 9) pl++; else if (l.id[i] != 8) tr++; } CHECK(pl == 2, "slots without tracking are called exactly once"); CHECK(!done || tr == 0, "called after the object was destroyed"); break; }
    case 1: g_t.connected(); break;
    case 2: g_t.disconnect(); break;
    case 3: S->num_slots(); break;
    case 4: S->empty(); break;
    case 5: { bs2::connection c = S->connect(2, TFn(8)); c.disconnect(); break; }
    case 6: { boost::shared_ptr<Ob> mine = g_own2; mine.reset(); std::shared_ptr<Ob> mine2 = g_sown2; mine2.reset(); break; }
    case 7: { bs2::shared_connection_block b(g_t); b.unblock(); break; }
    case 8: g_u.blocked(); break;
    case 9: { TLog &l = tlog[sx_self()]; l.clear(); try { Slot s((UseFn{1, 0})); } catch (...) {} break; }
  }
}
static void bodyT(void *p) { trop(g_op[(long)p]); }
static void rel(void *) { g_relbegun.store(1); g_own.reset(); g_sown.reset(); if (!g_reset.load()) g_reset.store(1); }
static void tracked(int thr, int nops, bool foreign = false, int fill = 0) {
  { S = new Sig; g_dead = 0; boost::shared_ptr<int> fl(new int(0)); if (foreign) g_sown = std::shared_ptr<Ob>(new Ob); else g_own.reset(new Ob); Ob *p = foreign ? g_sown.get() : g_own.get(); S->connect(TFn(9)); if (foreign) { Slot a((UseFn{1, p})); a.track_foreign(g_sown); g_t = S->connect(a); Slot b((UseFn{2, p})); std::weak_ptr<Ob> w(g_sown); b.track(fl).track_foreign(w).track_foreign(g_sown); g_u = S->connect(3, b); }
    else { Slot a((UseFn{1, p})); for (int i = 0; i < fill; i++) a.track(fl); a.track(g_own); g_t = S->connect(a); Slot b((UseFn{2, p})); b.track(g_own).track(boost::weak_ptr<void>(g_own)); g_u = S->connect(3, b); } S->connect(TFn(9));
    bool two = pick("two", 2); if (two) { g_own2 = g_own; g_sown2 = g_sown; }
    for (int i = 0; i < thr; i++) { g_op[i] = pick("op", nops); if (!two && g_op[i] == 6) sx_assume(0); }
    g_reset.store(0);
    if (two) g_reset.store(-1);
    int a = sx_thread(rel, 0), b = sx_thread(bodyT, (void *)0L), c = thr > 1 ? sx_thread(bodyT, (void *)1L) : -1;
    sx_join(a); sx_join(b); if (c >= 0) sx_join(c);
    if (two) { CHECK(g_dead == 0, "destroyed with an owner left"); g_own2.reset(); g_sown2.reset(); }
    CHECK(g_dead == 1, "a tracked object was not destroyed exactly once, right after its last owner and call");
    TLog &l = tlog[sx_self()]; l.clear(); (*S)(1); CHECK(l.n == 2, "calls after the object is gone"); CHECK(!g_t.connected() && !g_u.connected(), "connected after the object is gone"); CHECK(S->num_slots() == 2, "num_slots");
    delete S; g_t = g_u = bs2::connection(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void tracked_one() { tracked(1, 9); }
extern "C" void tracked_std() { tracked(1, 9, true); }
extern "C" void tracked_many() { tracked(1, 5, false, 11); }
extern "C" void tracked_two() { tracked(2, 9); }
// ---- C18
static std::atomic<int> g_blocked[2]; static bs2::shared_connection_block *g_pb; static int g_bop[3];
static int callN() { TLog &l = tlog[sx_self()]; l.clear(); (*S)(1); int k = 0, o = 0; for (int i = 0; i < l.n; i++) { k += l.id[i] == 1; o += l.id[i] == 2; } CHECK(o == 1, "a slot that is not blocked is called exactly once"); CHECK(k <= 1, "called twice"); return k; }
static void bop(int op) {
  switch (op) {
    case 0: { bs2::shared_connection_block b(g_c); CHECK(b.blocking() && g_c.blocked(), "blocking"); CHECK(callN() == 0, "an invocation started while a block is held calls the slot"); break; }
    case 1: { bs2::shared_connection_block b(g_c), d(b); b.unblock(); CHECK(d.blocking() && !b.blocking() && g_c.blocked(), "a copy holds its own share"); CHECK(callN() == 0, "blocked through a copy"); break; }
    case 2: { bs2::shared_connection_block b(g_c, false); b.block(); b.unblock(); b.block(); CHECK(g_c.blocked(), "blocked again"); b = bs2::shared_connection_block(); break; }
    case 3: { int k = callN(); sx_trace(9, k); break; }
    case 4: { bs2::shared_connection_block d(*g_pb); CHECK(d.blocking() && g_c.blocked(), "copy of a held block"); CHECK(callN() == 0, "blocked"); break; }    // copies from a block another thread owns (read only)
    case 5: { g_c.disconnect(); CHECK(g_c.blocked(), "disconnected is blocked"); CHECK(callN() == 0, "disconnected"); break; }
  }
}
static void bodyB(void *p) { bop(g_bop[(long)p]); }
static void blocks(int n, bool held) {
  { S = new Sig; g_c = S->connect(1, TFn(1)); bs2::connection o = S->connect(TFn(2)); bs2::shared_connection_block keep(g_c, held); g_pb = &keep; bool disc = false;
    for (int i = 0; i < n; i++) { g_bop[i] = pick("op", 6); if (g_bop[i] == 4 && !held) sx_assume(0); disc |= g_bop[i] == 5; }
    int t1 = sx_thread(bodyB, (void *)1L), t2 = n > 2 ? sx_thread(bodyB, (void *)2L) : -1; bodyB((void *)0L); sx_join(t1); if (t2 >= 0) sx_join(t2);
    CHECK(g_c.blocked() == (held || disc), "blocked() after all threads released their blocks"); CHECK(callN() == !(held || disc), "call after all threads released"); keep.unblock(); CHECK(g_c.blocked() == disc && callN() == !disc, "after the last unblock"); CHECK(!o.blocked(), "other slot"); delete S; g_c = bs2::connection(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void blocks2() { blocks(2, pick("held", 2)); }
extern "C" void blocks3() { blocks(3, pick("held", 2)); }
// a block acquired (flag) in one thread, invocations in another, then released
static bs2::shared_connection_block *g_blk; static std::atomic<int> g_acq, g_relb, g_acqb, g_rels;
static void blkOwner(void *) { g_acqb.store(1); g_blk->block(); g_acq.store(1); sx_point(); g_relb.store(1); g_blk->unblock(); g_rels.store(1); }
extern "C" void block_window() {
  { S = new Sig; g_c = S->connect(TFn(1)); S->connect(TFn(2)); bs2::shared_connection_block b(g_c, false); g_blk = &b; g_acqb.store(0); g_acq.store(0); g_relb.store(0); g_rels.store(0); int t = sx_thread(blkOwner, 0);
    for (int i = 0; i < 2; i++) { int a0 = g_acq.load(), r0 = g_rels.load(); bool bl = g_c.blocked(); int k = callN(); int r1 = g_relb.load(), a1 = g_acqb.load();
      if (a0 && !r1) { CHECK(k == 0, "the slot is called while the block is held"); CHECK(bl, "blocked() while the block is held"); }
      if (!a1 || r0) { CHECK(k == 1, "the slot is not called although no block is held"); CHECK(!bl, "blocked() although no block is held"); } }
    sx_join(t); CHECK(callN() == 1 && !g_c.blocked(), "released"); delete S; g_c = bs2::connection(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C24, threads: each invocation uses one combiner throughout, the old or the new one
struct TComb { typedef int result_type; int tag; TComb(int t = 0) : tag(t) {} TComb(const TComb &o) : tag(o.tag) {} TComb &operator=(const TComb &o) { tag = o.tag; return *this; } ~TComb() { tag = -5; } template <class It> int operator()(It a, It b) const { int t = tag, n = 0; for (; a != b; ++a) { *a; n++; CHECK(tag == t, "the combiner changed while it was running"); } return t * 100 + n; } };
typedef bs2::signal<void(int), TComb> CSig; static CSig *C; static int g_cop[2]; static std::atomic<int> g_set, g_setb; static bs2::connection g_cc;
static void setc(void *) { g_setb.store(1); C->set_combiner(TComb(2)); g_set.store(1); CHECK(C->combiner().tag == 2, "combiner() after set_combiner returned"); bs2::connection c; switch (g_cop[1]) { case 0: break; case 1: c = C->connect(TFn(5)); c.disconnect(); break; case 2: C->connect(1, TFn(5)); break; case 3: g_cc.disconnect(); C->connect(TFn(6)); break; case 4: C->set_combiner(TComb(2)); break; } }
extern "C" void comb_thr() {
  { C = new CSig(TComb(1)); g_cc = C->connect(TFn(0)); C->connect(1, TFn(1)); C->connect(TFn(2)); g_set.store(0); g_setb.store(0); g_cop[0] = pick("op0", 3); g_cop[1] = pick("op1", 5); int extra = g_cop[1] == 2 || g_cop[0] == 1, less = 0; int t = sx_thread(setc, 0);
    for (int i = 0; i < 2; i++) { int s0 = g_set.load(); int r = (*C)(1); int b1 = g_setb.load(); int tag = r / 100, n = r % 100; CHECK(tag == 1 || tag == 2, "combiner of an invocation"); if (s0) CHECK(tag == 2, "an invocation that started after set_combiner returned uses the old combiner"); if (!b1) CHECK(tag == 1 && n == 3 + (i && g_cop[0] == 1), "before set_combiner"); CHECK(n >= 2 && n <= 5, "slots"); if (i == 0 && g_cop[0] == 1) C->connect(TFn(7)); if (i == 0 && g_cop[0] == 2) { TComb k = C->combiner(); CHECK(k.tag == 1 || k.tag == 2, "combiner()"); } }
    sx_join(t); (void)extra; (void)less; int want = 3 + (g_cop[0] == 1) + (g_cop[1] == 2); CHECK((*C)(1) == 200 + want, "slots or combiner after set_combiner"); CHECK(C->num_slots() == (std::size_t)want, "num_slots"); delete C; g_cc = bs2::connection(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C30, threads: a signal is destroyed (or cleared, or replaced by move) by one thread while others use its connections, blocks and the signals it is connected to
static boost::shared_ptr<Sig> g_ds; static Sig *g_outer; static bs2::connection g_dc[3], g_do, g_dcf; static boost::shared_ptr<Ob> g_dtr; static int g_dop[3], g_dhow; static std::atomic<int> g_gone; static bool g_held[3];   // an invocation of the outer signal in progress in the other thread may still hold the inner one
static void dop(int op, bool g_held) {
  switch (op) {
    case 0: { int d = g_gone.load(); bool k = g_dc[0].connected(); if (d && !g_held) CHECK(!k, "connected after the signal was destroyed"); break; }
    case 1: { int d = g_gone.load(); bool k = g_dc[1].blocked(); if (d && !g_held) CHECK(k, "a connection of a destroyed signal is not blocked"); break; }
    case 2: g_dc[0].disconnect(); CHECK(!g_dc[0].connected(), "connected after disconnect"); break;
    case 3: { bs2::shared_connection_block b(g_dc[1]); CHECK(b.blocking(), "blocking"); bs2::shared_connection_block c(b); b.unblock(); break; }
    case 4: { bs2::scoped_connection s(g_dc[2]); s.connected(); break; }
    case 5: { int d = g_gone.load(); TLog &l = tlog[sx_self()]; l.clear(); (*g_outer)(1); int in = 0, own = 0; for (int i = 0; i < l.n; i++) { in += l.id[i] < 4; own += l.id[i] == 9; } CHECK(own == 1, "the outer signal's own slot"); if (d && !g_held) CHECK(in == 0, "a slot of a destroyed signal is called"); break; }
    case 6: { bs2::connection a(g_dc[2]), b; b = a; CHECK(a == b && b == g_dc[2], "copies"); b.disconnect(); break; }
    case 7: g_dtr.reset(); g_dc[2].connected(); break;
    case 8: g_do.connected(); g_outer->num_slots(); g_dcf.connected(); break;
    case 9: g_outer->connect(TFn(7)).disconnect(); break;
  }
}
static void bodyDop(void *p) { dop(g_dop[(long)p], g_held[(long)p]); }
static void destroySig() { switch (g_dhow) { case 0: g_ds.reset(); break; case 1: *g_ds = Sig(); break; case 2: { Sig t; t.swap(*g_ds); break; } case 3: { Sig t(std::move(*g_ds)); g_ds.reset(); break; } } g_gone.store(1); }
static void destroyThr(int n) {
  { g_gone = 0; g_dead = 0; g_ds.reset(new Sig); g_outer = new Sig; g_dtr.reset(new Ob); g_dc[0] = g_ds->connect(TFn(0)); g_dc[1] = g_ds->connect(1, TFn(1)); { Slot sl((TFn(2))); sl.track(g_dtr); g_dc[2] = g_ds->connect(sl); } g_dcf = g_ds->connect(2, CntFn(5)); g_fnlive.load(); g_do = g_outer->connect(*g_ds); g_outer->connect(TFn(9)); g_dhow = pick("how", n > 2 ? 1 : 4);
    g_held[1] = g_held[2] = false; for (int i = 1; i < n; i++) { g_dop[i] = pick("op", 10); if (g_dop[i] == 5) g_held[3 - i] = true; } if (n > 2) sx_assume(g_dop[1] <= g_dop[2] && !(g_dop[1] == 7 && g_dop[2] == 7));
    int t1 = sx_thread(bodyDop, (void *)1L), t2 = n > 2 ? sx_thread(bodyDop, (void *)2L) : -1; destroySig(); if (!g_held[1] && !g_held[2]) CHECK(g_fnlive == 0, "a function object of a destroyed signal survives"); sx_join(t1); if (t2 >= 0) sx_join(t2);
    for (int i = 0; i < 3; i++) CHECK(!g_dc[i].connected() && g_dc[i].blocked(), "a connection of a destroyed signal"); CHECK(!g_do.connected(), "a chained connection of a destroyed signal"); TLog &l = tlog[sx_self()]; l.clear(); (*g_outer)(2); CHECK(l.n == 1 && l.id[0] == 9, "the outer signal"); CHECK(g_outer->num_slots() == 1, "num_slots"); if (g_ds) { g_ds->connect(TFn(3)); l.clear(); (*g_ds)(3); CHECK(l.n == 1, "the emptied signal is usable"); }
    g_dtr.reset(); CHECK(g_dead == 1, "a tracked object"); g_ds.reset(); delete g_outer; for (int i = 0; i < 3; i++) g_dc[i] = bs2::connection(); g_do = g_dcf = bs2::connection(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void destroy_thr() { destroyThr(2); }
extern "C" void destroy_thr3() { destroyThr(3); }
