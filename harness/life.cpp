// C11, C13, C14, C28, C30: exceptions, life times, locks, memory.
#define SX_LIVE_FN
#include "reent.hpp"
static bool g_lockCheck = true, g_exact; static int g_temp;
void Fn::fnDestroyed(int id) { if (g_lockCheck) CHECK(sx_mutexes_held() == 0, "a slot function is destroyed while a library lock is held"); if (R) for (int d = 0; d < R->depth; d++) if (R->fr[d].cur == id) CHECK(g_live[id] > 0, "a slot function is destroyed while it is running"); }
static void hook(int id, int x) { CHECK(sx_mutexes_held() == 0, "a slot runs while a library lock is held"); R->onCall(id, x); CHECK(sx_mutexes_held() == 0, "a slot runs while a library lock is held"); }
// exactly one function object per connected or running slot
static void lives(int) {
  if (!g_exact) return;
  for (int i = 0; i < R->n; i++) { bool run = false; for (int d = 0; d < R->depth; d++) if (R->fr[d].cur == i) run = true; CHECK(g_live[i] == (R->live[i] || run ? 1 : 0), R->live[i] ? "the function object of a connected slot is gone or duplicated" : "the function object of a disconnected idle slot is not destroyed"); }
}
#define P(n, d) (int)sx_param(n, d)
static void life(int mask, int pre, int acts, int calls, bool between, bool stop = false, bool track = false) {
  { Re r; R = &r; r.trackPick = track; r.mayStop = stop; g_hook = hook; g_exact = true; r.onEntry = lives; r.glo = 0; r.ghi = 2; r.mask = mask;
    for (int i = 0; i < pre; i++) r.step(pick("pre", 2) ? O_GB : O_UB);
    lives(0); r.acts = acts;
    for (int k = 0; k < calls; k++) { r.invoke(k); lives(0); if (between && r.acts > 0) { r.mask = mask & ~(M(A_DSELF) | M(A_THROW) | M(A_EXP) | M(A_DTHROW) | M(A_DEXP)); r.act(-1); r.mask = mask; lives(0); } }
    r.acts = 0; r.checkState(); lives(0); r.invoke(9); r.step(O_UB); r.invoke(10); r.checkState(); lives(0); CHECK(sx_mutexes_held() == 0, "a lock is still held");
    g_hook = 0; sx_reach("end"); }
  R = 0; for (int i = 0; i < 12; i++) CHECK(g_live[i] == 0, "function objects survive their signal");
  CHECK(TagComb::made == 0, "combiner copies leaked"); CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C11
extern "C" void ex_slots() { life(M(A_THROW) | M(A_EXP), P("pre", 3), P("acts", 3), 3, false); }
extern "C" void ex_nested() { life(M(A_THROW) | M(A_EXP) | M(A_INV) | M(A_UB), P("pre", 2), P("acts", 3), 2, false); }
extern "C" void ex_mixed() { life(M(A_THROW) | M(A_EXP) | M(A_D) | M(A_GF) | M(A_BLK), P("pre", 2), P("acts", 3), 2, true); }
extern "C" void ex_disc() { life(M(A_THROW) | M(A_DTHROW) | M(A_DEXP) | M(A_INV), P("pre", 2), P("acts", 2), 2, false); }
// slots that track objects and throw
extern "C" void ex_track() { life(M(A_THROW) | M(A_EXP) | M(A_DTHROW) | M(A_DEXP), P("pre", 3), P("acts", 2), 2, false, false, true); }
// ---- C13
extern "C" void fn_life() { life(M(A_UB) | M(A_GF) | M(A_D) | M(A_DSELF) | M(A_DALL) | M(A_INV), P("pre", 2), P("acts", 3), 2, true); }
extern "C" void fn_life_fn() { life(M(A_DF) | M(A_DG) | M(A_GB) | M(A_BLK) | M(A_INV), P("pre", 2), P("acts", 3), 2, true); }
extern "C" void fn_life_comb() { life(M(A_COMB) | M(A_UB) | M(A_DSELF) | M(A_INV), P("pre", 2), P("acts", 3), 2, true); }
// slots that disconnect themselves or others and throw; combiners that stop early
extern "C" void fn_life_ex() { life(M(A_THROW) | M(A_DTHROW) | M(A_EXP) | M(A_DEXP) | M(A_INV), P("pre", 2), P("acts", 2), 2, false); }
extern "C" void fn_life_stop() { life(M(A_DSELF) | M(A_D) | M(A_GF) | M(A_INV), P("pre", 2), P("acts", 3), 2, false, true); }
extern "C" void fn_life_track() { life(M(A_EXP) | M(A_DSELF) | M(A_D) | M(A_DF) | M(A_INV), P("pre", 2), P("acts", 2), 2, false, false, true); }
// handles, blocks and tracked objects in between; the signal destroyed at any point
extern "C" void fn_handles() {
  { typedef bs2::signal<void(int)> Sig; boost::shared_ptr<Sig> s(new Sig); bs2::connection c[3], copy; bs2::shared_connection_block b; boost::shared_ptr<int> tr(new int(1)); bool on[3] = {true, true, true}; R = 0; g_hook = 0;
    { Sig::slot_type sl((Fn(0))); CHECK(g_live[0] == 1, "a slot object holds one copy"); c[0] = s->connect(sl); CHECK(g_live[0] == 2, "the signal holds its own copy"); } CHECK(g_live[0] == 1, "the slot object is destroyed");
    c[1] = s->connect(1, Fn(1), bs2::at_front); { Sig::slot_type sl((Fn(2))); sl.track(tr); c[2] = s->connect(sl); }
    int len = P("len", 3);
    for (int k = 0; k < len; k++) {
      switch (pick("op", 8)) {
        case 0: { int i = pick("d", 3); c[i].disconnect(); on[i] = false; break; }
        case 1: copy = c[pick("c", 3)]; break;
        case 2: { int i = pick("b", 3); b = bs2::shared_connection_block(c[i]); break; }
        case 3: tr.reset(); on[2] = false; if (pick("q", 2)) c[2].connected(); else if (s) s->num_slots(); break;
        case 4: if (s) (*s)(1); break;
        case 5: s.reset(); on[0] = on[1] = on[2] = false; break;
        case 6: { bs2::scoped_connection sc(c[0]); if (pick("rel", 2)) sc.release(); else on[0] = false; break; }
        case 7: if (s) { bs2::connection t = s->connect(Fn(3)); t.disconnect(); } break;
      }
      for (int i = 0; i < 3; i++) CHECK(g_live[i] == (on[i] ? 1 : 0), "function object destroyed with the connection, and only then"); CHECK(g_live[3] == 0, "function object of a disconnected slot");
    }
    s.reset(); for (int i = 0; i < 3; i++) CHECK(g_live[i] == 0, "function objects survive their signal"); for (int i = 0; i < 3; i++) CHECK(!c[i].connected() && c[i].blocked(), "after the signal"); c[1].disconnect(); b.unblock(); b.block();
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C14
static boost::shared_ptr<bs2::signal<void(int)> > g_sig; static int g_dtors;
struct UseIt { ~UseIt() { g_dtors++; CHECK(sx_mutexes_held() == 0, "a tracked object is destroyed while a library lock is held"); if (g_sig && g_dtors < 3) { g_sig->num_slots(); g_sig->connect(Fn(20)).disconnect(); } } };
struct FnDtor { int id; boost::shared_ptr<UseIt> u; FnDtor(int i) : id(i), u(new UseIt) {} void operator()(int) const { g_log.add(id, 0); } bool operator==(const FnDtor &o) const { return id == o.id; } };
struct FnExtHelper { Fn f; FnExtHelper() : f(21) {} void operator()(const bs2::connection &, int) const {} };
// function objects and tracked objects whose destructors use the signal
extern "C" void locks_dtor() {
  { typedef bs2::signal<void(int)> Sig; g_sig.reset(new Sig); g_dtors = 0; R = 0; g_hook = 0; bs2::connection c[3]; Sig &s = *g_sig;
    { FnDtor f0(0), f1(1); c[0] = s.connect(f0); c[1] = s.connect(4, f1); } boost::shared_ptr<UseIt> tr(new UseIt); { Sig::slot_type sl((Fn(2))); sl.track(tr); c[2] = s.connect(sl); }
    int len = P("len", 2);
    for (int k = 0; k < len; k++) switch (pick("op", 11)) {
      case 0: c[pick("d", 3)].disconnect(); break; case 1: s.disconnect_all_slots(); break; case 2: s.disconnect(4); break; case 3: s(1); break; case 4: tr.reset(); break; case 5: s.num_slots(); s.empty(); break;
      case 6: { bs2::scoped_connection k2(s.connect(FnDtor(7))); break; } case 7: s.connect(2, FnDtor(8)); break; case 8: { bs2::connection e = s.connect_extended(FnExtHelper()); e.disconnect(); break; } case 9: { bs2::shared_connection_block b(c[0]); s(2); c[0].disconnect(); break; } case 10: c[2].connected(); c[0].blocked(); break; }
    { boost::shared_ptr<bs2::signal<void(int)> > last; last.swap(g_sig); last.reset(); } tr.reset(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// more than ten function objects released by one operation
extern "C" void locks_many() {
  { typedef bs2::signal<void(int)> Sig; Sig s; R = 0; g_hook = 0; int n = 8 + pick("n", P("n", 5)); boost::shared_ptr<int> tr(new int(1)); bs2::connection last;
    for (int i = 0; i < n; i++) { Sig::slot_type sl((Fn(i))); sl.track(tr); last = i & 1 ? s.connect(sl) : s.connect(i % 3, sl); }
    int how = pick("how", 6); bool keep = pick("keep", 2); Sig::slot_type plain((Fn(30)));
    if (how < 4) tr.reset();
    switch (how) {
      case 0: s.connect(plain); s.connect(plain); break;                             // cleanup of two records each
      case 1: s(1); break;                                                           // full cleanup after the call
      case 2: s.num_slots(); break;
      case 3: struct Conn { Sig *s; void operator()(int) const { s->connect(Fn(31)); } }; { Conn k = {&s}; bs2::connection c = s.connect(5, k, bs2::at_front); s(1); s(1); c.disconnect(); } break;   // list in use: every expired slot goes at once
      case 4: s.disconnect_all_slots(); break;
      case 5: { Sig t; t.swap(s); } break;
    }
    (void)keep; if (how == 1 || how == 2 || how == 3 || how == 4 || how == 5) for (int i = 0; i < n; i++) CHECK(g_live[i] == 0, "function object of a disconnected slot is not destroyed");
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// a slot that connects while the list is in use and many tracked slots have expired meanwhile
static bs2::signal<void(int)> *g_s2; static boost::shared_ptr<int> g_tr; struct DropConn { int how; void operator()(int) const { CHECK(sx_mutexes_held() == 0, "lock held in a slot"); g_tr.reset(); if (how == 0) g_s2->connect(Fn(31)); if (how == 1) g_s2->connect(1, Fn(31), bs2::at_front); if (how == 2) g_s2->set_combiner(bs2::optional_last_value<void>()); } };
extern "C" void locks_inuse() {
  { typedef bs2::signal<void(int)> Sig; Sig s; g_s2 = &s; R = 0; g_hook = 0; int n = 9 + pick("n", P("n", 4)); g_tr.reset(new int(1)); DropConn d = {pick("how", 3)}; s.connect(d);
    for (int i = 0; i < n; i++) { Sig::slot_type sl((Fn(i))); sl.track(g_tr); s.connect(i % 2, sl, i & 2 ? bs2::at_front : bs2::at_back); }
    bs2::connection z = s.connect(0, d, bs2::at_front); g_log.clear(); s(1); CHECK(g_log.n <= n + 1, "calls"); for (int i = 0; i < n; i++) CHECK(g_live[i] == 0, "function object of an expired slot survives"); z.disconnect(); s(2); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// the combiner, and everything it can pull, runs without locks
struct LockComb { typedef int result_type; template <class It> int operator()(It a, It b) const { int k = 0; CHECK(sx_mutexes_held() == 0, "the combiner runs while a library lock is held"); for (; a != b; ++a) { CHECK(sx_mutexes_held() == 0, "the combiner runs while a library lock is held"); if (pick("pull", 2)) { *a; k++; } CHECK(sx_mutexes_held() == 0, "the combiner runs while a library lock is held"); } return k; } };
extern "C" void locks_comb() {
  { bs2::signal<void(int), LockComb> s; R = 0; g_hook = 0; boost::shared_ptr<int> tr(new int(1)); bs2::connection c[4]; for (int i = 0; i < 4; i++) { bs2::signal<void(int), LockComb>::slot_type sl((Fn(i))); if (i == 1) sl.track(tr); c[i] = i & 1 ? s.connect(1, sl) : s.connect(sl); }
    if (pick("exp", 2)) tr.reset(); if (pick("dis", 2)) c[2].disconnect(); bs2::shared_connection_block b(c[3], pick("blk", 2)); s(1); int r = s(2); CHECK(r <= 4, "pulled"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void locks_slots() { life(M(A_UB) | M(A_DSELF) | M(A_D) | M(A_DALL) | M(A_COMB) | M(A_QRY), P("pre", 3), P("acts", 2), 2, true); }
// ---- C30
extern "C" void sig_destroy() {
  { typedef bs2::signal<void(int)> Sig; boost::shared_ptr<Sig> in(new Sig), out(new Sig); R = 0; g_hook = 0; boost::shared_ptr<int> tr(new int(2)); bs2::connection c[4]; boost::shared_ptr<bs2::scoped_connection> sc; boost::shared_ptr<bs2::shared_connection_block> b;
    c[0] = in->connect(Fn(0)); { Sig::slot_type sl((Fn(1))); sl.track(tr); c[1] = in->connect(1, sl); } c[2] = out->connect(*in); c[3] = out->connect(Fn(3)); sc.reset(new bs2::scoped_connection(in->connect(Fn(4)))); b.reset(new bs2::shared_connection_block(c[0], pick("blk", 2))); bs2::connection weak = *sc;
    bool done[6] = {false, false, false, false, false, false};
    for (int k = 0; k < P("len", 4); k++) { int w = pick("what", 7); if (w < 6 && done[w]) sx_assume(0); if (w < 6) done[w] = true;
      switch (w) { case 0: in.reset(); break; case 1: out.reset(); break; case 2: sc.reset(); break; case 3: b.reset(); break; case 4: tr.reset(); break; case 5: c[0].disconnect(); break; case 6: if (out) (*out)(1); else if (in) (*in)(1); break; }
      bool l0 = in && !done[5], l1 = in && tr, l2 = in && out, l3 = !!out, l4 = in && sc; CHECK(c[0].connected() == l0 && c[1].connected() == l1 && c[2].connected() == l2 && c[3].connected() == l3 && weak.connected() == l4, "connected() after a destruction");
      CHECK(g_live[0] == l0 && g_live[3] == l3 && g_live[4] == l4 && g_live[1] == l1, "function objects destroyed with the signal or slot"); if (b) { b->block(); b->unblock(); } }
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// a chained or shared signal destroyed while it is being invoked
static boost::shared_ptr<bs2::signal<void(int)> > g_in, g_out; static int g_kill;
struct Killer { int id; void operator()(int) const { g_log.add(id, 0); if (g_kill == id) { if (pick("which", 2)) g_in.reset(); else { bs2::signal<void(int)> *o = 0; (void)o; g_in->disconnect_all_slots(); g_in.reset(); } if (pick("more", 2) && g_out) g_out->connect(Fn(9)); } } };
extern "C" void sig_inflight() {
  { typedef bs2::signal<void(int)> Sig; R = 0; g_hook = 0; g_in.reset(new Sig); g_out.reset(new Sig); g_kill = pick("kill", 4); bs2::connection c[5]; c[0] = g_in->connect(Killer{0}); c[1] = g_in->connect(1, Killer{1}); c[2] = g_out->connect(*g_in); c[3] = g_out->connect(0, Killer{2}); c[4] = g_out->connect(Killer{3}); bool again = pick("again", 2); if (again) g_out->connect(*g_in);
    g_log.clear(); (*g_out)(1);
    CHECK(g_log.n >= 2, "the outer signal's own slots run"); CHECK(!g_in == true || g_kill > 3, "killed"); CHECK(!c[0].connected() && !c[1].connected() && !c[2].connected(), "connections of a destroyed signal are not connected once the invocation ended"); CHECK(c[3].connected() && c[4].connected(), "the outer signal keeps its slots");
    g_log.clear(); g_kill = -1; (*g_out)(2); CHECK(g_log.id[0] == 2, "later calls"); for (int i = 0; i < g_log.n; i++) CHECK(g_log.id[i] != 0 && g_log.id[i] != 1, "a slot of a destroyed signal is called"); g_out.reset(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
