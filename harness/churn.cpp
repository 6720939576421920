// C28: memory under endless connect/disconnect churn.  A word of symbolic
// letters is repeated; after every letter the heap and the live function
// objects are bounded by the number of live connections, never by the past.
#define SX_LIVE_FN
#include "common.hpp"
void Fn::fnDestroyed(int) { CHECK(sx_mutexes_held() == 0, "a function object is destroyed under a library lock"); }
#define P(n, d) (int)sx_param(n, d)
static void fin() { CHECK(sx_heap_live() == 0, "memory leaked"); CHECK(sx_mutexes_held() == 0, "a lock is still held"); }
typedef bs2::signal<void(int)> Sig;
enum { LIVE = 3 };
struct Churn {
  Sig s; bs2::connection c[LIVE]; boost::shared_ptr<int> own[LIVE]; int n, id; bool inside, sawExpiry; long base, peak, half; int rounds, fresh;
  Churn() : n(0), id(0), inside(false), sawExpiry(false), base(0), peak(0), half(-1), rounds(0), fresh(0) {}
  int fns() { int k = 0; for (int i = 0; i < 8; i++) k += g_live[i]; return k; }
  void conn(int w, bool tr) {
    if (n == LIVE) return; boost::shared_ptr<int> o; if (tr) o.reset(new int(1)); Sig::slot_type sl((Fn(id))); id = (id + 1) & 7; if (tr) sl.track(o);
    switch (w) { case 0: c[n] = s.connect(sl); break; case 1: c[n] = s.connect(sl, bs2::at_front); break; case 2: c[n] = s.connect(0, sl); break; case 3: c[n] = s.connect(1, sl, bs2::at_front); break; case 4: c[n] = s.connect(-1, sl); break; case 5: fresh++; c[n] = s.connect(fresh & 1 ? 10 + fresh : -10 - fresh, sl, fresh & 2 ? bs2::at_front : bs2::at_back); break; }
    own[n] = o; n++; }
  void drop(int i) { for (int k = i; k + 1 < n; k++) { c[k] = c[k + 1]; own[k] = own[k + 1]; } n--; c[n] = bs2::connection(); own[n].reset(); }
  void sweep() { for (int i = 0; i < n;) if (c[i].connected()) i++; else drop(i); }
  void letter(int l) {
    switch (l) {
      case 0: conn(0, false); break; case 1: conn(1, false); break; case 2: conn(2, false); break; case 3: conn(3, false); break; case 4: conn(4, false); break;
      case 5: if (n) { c[0].disconnect(); drop(0); } break;
      case 6: if (n) { c[n - 1].disconnect(); drop(n - 1); } break;
      case 7: s.disconnect(0); sweep(); break;
      case 8: conn(0, true); break;
      case 9: for (int i = 0; i < n; i++) if (own[i]) { own[i].reset(); sawExpiry = true; drop(i); break; } break;
      case 10: if (!inside) s(1); break;
      case 11: s.num_slots(); s.empty(); break;
      case 12: if (n) { bs2::shared_connection_block b(c[0]); } break;
      case 13: s.set_combiner(s.combiner()); break;
      case 14: s.disconnect_all_slots(); sweep(); break;
      case 15: if (n) { Fn f(id); { bs2::scoped_connection sc(s.connect(f, bs2::at_front)); } id = (id + 1) & 7; } break;
      case 16: conn(5, false); break;
    }
    check();
  }
  void check() {
    long h = sx_heap_live() - base; if (h > peak) peak = h; int f = fns();
    CHECK((int)s.num_slots() == n, "num_slots"); if (!inside) CHECK(sawExpiry ? f <= 5 * LIVE + 6 : f == n, "function objects of disconnected idle slots are kept");
    CHECK(h <= sx_param("bound", 80) && (half < 0 || h <= half + 12), "memory grows with the number of past connections"); }
};
extern "C" void churn_word() { { for (int i = 0; i < 8; i++) g_live[i] = 0; g_hook = 0; long b = sx_heap_live(); Churn k; k.base = b; int len = P("len", 3), w[6]; for (int i = 0; i < len; i++) w[i] = pick("letter", P("letters", 17)); for (int r = 0; r < P("rep", 48); r++) { if (r == P("rep", 48) / 2) k.half = k.peak; for (int i = 0; i < len; i++) k.letter(w[i]); } sx_trace(9, k.peak); sx_reach("end"); } fin(); }
// churn by a slot, within a single invocation that never ends
static Churn *g_k; static int g_w[6];
static void hookChurn(int id, int) { if (id != 7 || g_k->inside) return; g_k->inside = true; for (int r = 0; r < P("rep", 48); r++) { if (r == P("rep", 48) / 2) g_k->half = g_k->peak; for (int i = 0; i < P("len", 2); i++) g_k->letter(g_w[i]); } g_k->inside = false; }
extern "C" void churn_inside() { { for (int i = 0; i < 8; i++) g_live[i] = 0; long b = sx_heap_live(); Churn k; g_k = &k; k.base = b; k.id = 7; k.conn(pick("first", 5), false); bs2::connection keep = k.c[0]; for (int i = 0; i < P("len", 2); i++) g_w[i] = pick("letter", 17); g_hook = hookChurn; k.s(1); g_hook = 0; k.sawExpiry = true; k.check(); k.s(2); k.s(2); CHECK((int)k.s.num_slots() == k.n, "num_slots"); sx_reach("end"); } fin(); }
// many records become disconnected at once; later connects, or invocations, give their memory back
extern "C" void churn_burst() {
  { for (int i = 0; i < 8; i++) g_live[i] = 0; g_hook = 0; long b = sx_heap_live(); Sig s; int n = P("n", 24), where = pick("where", 3), how = pick("how", 4), then = pick("then", 5), rounds = pick("rounds", 2); bs2::connection c[64]; boost::shared_ptr<int> own(new int(1)); bs2::connection live = s.connect(Fn(0), where ? bs2::at_back : bs2::at_front);
    for (int r = 0; r <= rounds; r++) {
      own.reset(new int(1)); for (int i = 0; i < n; i++) { Sig::slot_type sl((Fn(1 + i % 7))); if (how == 3) sl.track(own); c[i] = where == 0 ? s.connect(sl) : where == 1 ? s.connect(sl, bs2::at_front) : s.connect(i % 3, sl); } bs2::connection last = s.connect(Fn(0));
      if (how == 0) for (int i = 0; i < n; i++) c[i].disconnect(); if (how == 1) for (int i = n; i-- > 0;) s.disconnect(Fn(1 + i % 7)); if (how == 2) { if (where == 2) for (int g = 0; g < 3; g++) s.disconnect(g); else for (int i = 0; i < n; i++) c[i].disconnect(); } if (how == 3) own.reset();
      int f = 0; for (int i = 0; i < 8; i++) f += g_live[i]; CHECK(s.num_slots() == 2, "num_slots"); if (how != 3) CHECK(f == 2, "function objects of disconnected slots are kept"); for (int i = 0; i < n; i++) c[i] = bs2::connection();
      switch (then) { case 0: for (int k = 0; k < 3 * n; k++) { bs2::connection x = s.connect(Fn(2)); x.disconnect(); } break; case 1: for (int k = 0; k < 3 * n; k++) { bs2::connection x = s.connect(Fn(2), bs2::at_front); x.disconnect(); } break; case 2: s(1); if (how == 3) s(1); break; case 3: for (int k = 0; k < 3 * n; k++) { bs2::connection x = s.connect(k & 1, Fn(2)); x.disconnect(); } break; case 4: s(1); s(1); for (int k = 0; k < n; k++) { bs2::connection x = s.connect(Fn(3)); x.disconnect(); s(k); } break; }
      long h = sx_heap_live() - b; sx_trace(8, h); CHECK(h <= sx_param("bound", 80), "disconnected records are not reclaimed"); last.disconnect(); }
    CHECK(live.connected() && s.num_slots() == 1, "the live slot"); sx_reach("end"); }
  fin();
}
// handles to disconnected slots may stay; they do not keep function objects or tracked objects
extern "C" void churn_handles() {
  { for (int i = 0; i < 8; i++) g_live[i] = 0; g_hook = 0; Sig s; int n = P("n", 8); bs2::connection c[32]; bs2::shared_connection_block bl(bs2::connection(), false); boost::shared_ptr<int> own(new int(1)); boost::weak_ptr<int> w(own); int how = pick("how", 5), inv = pick("inv", 2), blk = pick("blk", 2);
    for (int i = 0; i < n; i++) { Sig::slot_type sl((Fn(i & 7))); sl.track(own); c[i] = s.connect(sl); if (inv) s(1); if (blk) bl = bs2::shared_connection_block(c[i]); if (how == 0) c[i].disconnect(); else if (how == 1) s.disconnect(Fn(i & 7)); else if (how == 2) s.disconnect_all_slots(); else if (how == 3) { bs2::scoped_connection sc(c[i]); } else { Sig t; t.swap(s); } }
    int f = 0; for (int i = 0; i < 8; i++) f += g_live[i]; CHECK(f == 0, "function objects of disconnected slots are kept"); CHECK(w.use_count() == 1, "tracked"); CHECK(s.empty(), "empty"); sx_reach("end"); }
  fin();
}
