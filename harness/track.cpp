// C06 and C07: tracked objects. Every kind of tracking, any number of objects
// around the internal buffer sizes, any of them expired at any step.
#include "common.hpp"
#include <boost/signals2/trackable.hpp>
#include <boost/bind/bind.hpp>
#include <memory>
typedef bs2::signal<void(int)> Sig; typedef Sig::slot_type Slot;
static int g_obj_live[40], g_obj_dead[40];
struct Ob { int id; explicit Ob(int i) : id(i) { g_obj_live[i]++; } ~Ob() { g_obj_live[id]--; g_obj_dead[id]++; } };
struct Trk : bs2::trackable { void m(int x) const { g_log.add(77, x); } };
enum { K_SHARED, K_WEAK, K_FOREIGN_S, K_FOREIGN_W, K_SIGNAL, K_SLOT, K_NKINDS };
// one tracked object of any kind
struct Owner {
  int kind; boost::shared_ptr<Ob> b; std::shared_ptr<Ob> f; Sig *s = 0; boost::shared_ptr<Sig> ss;
  void make(int k, int id, Slot &slot) {
    kind = k;
    switch (k) {
      case K_SHARED: b.reset(new Ob(id)); slot.track(b); break;
      case K_WEAK: b.reset(new Ob(id)); { boost::weak_ptr<void> w(b); slot.track(w); } break;
      case K_FOREIGN_S: f = std::shared_ptr<Ob>(new Ob(id)); slot.track_foreign(f); break;
      case K_FOREIGN_W: f = std::shared_ptr<Ob>(new Ob(id)); { std::weak_ptr<Ob> w(f); slot.track_foreign(w); } break;
      case K_SIGNAL: s = new Sig; slot.track(*s); break;
      case K_SLOT: { b.reset(new Ob(id)); Slot other((Fn(99))); other.track(b); slot.track(other); break; }
    }
  }
  void drop() { b.reset(); f.reset(); delete s; s = 0; }
  ~Owner() { drop(); }
};
static void checkSig(Sig &sig, bs2::connection &c, bool on, const char *) {
  int q = pick("q", 3);                         // which query sees the expiry first
  if (q == 0) { CHECK(c.connected() == on, "connected() with an expired tracked object"); CHECK(c.blocked() == !on, "blocked()"); }
  if (q == 1) { CHECK(sig.num_slots() == (on ? 3u : 2u), "num_slots() with an expired tracked object"); CHECK(!sig.empty(), "empty()"); }
  g_log.clear(); sig(4); CHECK(g_log.n == (on ? 3 : 2), "a slot with an expired tracked object was called, or a live one was not");
  int w = 0; CHECK(g_log.id[w++] == 0, "order"); if (on) CHECK(g_log.id[w++] == 1, "order"); CHECK(g_log.id[w++] == 2, "order");
  CHECK(c.connected() == on, "connected() after the call"); CHECK(sig.num_slots() == (on ? 3u : 2u), "num_slots() after the call");
}
// any number and kind of tracked objects; at each step any one may expire
extern "C" void expiry() {
  { int N = (int)sx_param("n", 3); int n = 1 + pick("n", N); Sig sig; Slot slot((Fn(1))); Owner o[4]; bool gone = false;
    for (int i = 0; i < n; i++) o[i].make(pick("kind", K_NKINDS), i, slot);
    Slot copy(slot);
    int when = pick("when", 4), who = pick("who", n);
    if (when == 0) { o[who].drop(); gone = true; }            // expired before connecting
    sig.connect(Fn(0)); bs2::connection c = sig.connect(slot); sig.connect(Fn(2));
    if (when == 1) { o[who].drop(); gone = true; }
    checkSig(sig, c, !gone, "");
    if (when == 2) { o[who].drop(); gone = true; }
    // a direct call of the slot object
    g_log.clear(); bool threw = false; try { if (pick("cp", 2)) copy(9); else { const Slot &k = slot; k(9); } } catch (const bs2::expired_slot &) { threw = true; }
    CHECK(threw == gone, "calling a slot object whose tracked object expired"); CHECK(g_log.n == (gone ? 0 : 1), "direct call"); CHECK(slot.expired() == gone, "slot::expired()");
    if (when == 3) { o[who].drop(); gone = true; }
    if (pick("more", 2)) { bs2::connection d = sig.connect(Fn(3)); d.disconnect(); }   // cleanup in between
    checkSig(sig, c, !gone, "");
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// tracked objects carried over: by extended slots, slots tracking slots, conversions, assignments; any one of several objects expires
struct ExtFn { int id; void operator()(const bs2::connection &c, int x) const { CHECK(c.connected(), "connected"); g_log.add(id, x); } };
typedef bs2::slot<void(int), std::function<void(int)> > OtherSlot;
static void trk(Slot &s, Owner &o, int k, int id) { o.make(k, id, s); }
extern "C" void expiry_via() {
  { int N = (int)sx_param("n", 3), n = 1 + pick("n", N); Sig sig; Owner o[5]; bool gone = false; Slot in((Fn(1))); for (int i = 0; i < n; i++) trk(in, o[i], pick("kind", K_NKINDS), i);
    Sig::extended_slot_type es((ExtFn{1})); bool ext = false; Slot use((Fn(1))); boost::shared_ptr<Ob> first(new Ob(30)), last(new Ob(31)); bool extra = pick("extra", 2);
    int via = pick("via", 9); int when = pick("when", 3), who = pick("who", n + 2); if (who >= n && !extra) sx_assume(0);
    switch (via) {
      case 0: if (extra) use.track(first); use.track(in); if (extra) use.track(last); break;
      case 1: { Slot mid((Fn(98))); if (extra) mid.track(first); mid.track(in); use.track(mid); if (extra) use.track(last); break; }
      case 2: { OtherSlot t(in); Slot u(t); use = u; if (extra) { use.track(first); use.track(last); } break; }
      case 3: use = in; if (extra) use.track(first).track(last); break;
      case 8: use = in; use.track(use); if (extra) use.track(first).track(last); break;   // itself
      case 4: { OtherSlot t((Fn(97))); if (extra) t.track(first); t.track(in); use.track(t); if (extra) use.track(last); break; }
      case 5: case 6: case 7: ext = true; if (extra) es.track(first); es.track(in); if (extra) es.track(last); if (via == 6) { Sig::extended_slot_type c(es); es = c; } break;
    }
    if (!extra) { first.reset(); last.reset(); }
    #define DROP() { gone = true; if (who < n) o[who].drop(); else if (who == n) first.reset(); else last.reset(); }
    if (when == 0) DROP();
    sig.connect(Fn(0)); bs2::connection c; if (!ext) c = via & 1 ? sig.connect(1, use, bs2::at_front) : sig.connect(use); else c = via == 7 ? sig.connect_extended(1, es, bs2::at_front) : sig.connect_extended(es, bs2::at_back); sig.connect(Fn(2));
    if (when == 1) DROP();
    for (int r = 0; r < 2; r++) { int q = pick("q", 3); if (q == 0) CHECK(c.connected() == !gone, "connected() with an expired tracked object"); if (q == 1) CHECK(sig.num_slots() == (gone ? 2u : 3u), "num_slots() with an expired tracked object"); g_log.clear(); sig(4); int k = 0; for (int i = 0; i < g_log.n; i++) k += g_log.id[i] == 1; CHECK(g_log.n == (gone ? 2 : 3) && k == !gone, "a slot with an expired tracked object was called, or a live one was not"); CHECK(c.connected() == !gone, "connected()"); if (r == 0 && when == 2) DROP(); }
    if (!ext) { bool threw = false; g_log.clear(); try { use(3); } catch (const bs2::expired_slot &) { threw = true; } CHECK(threw == gone && g_log.n == !gone, "calling the slot"); CHECK(use.expired() == gone, "expired()"); } else CHECK(es.expired() == gone, "expired()");
    for (int i = 0; i < n; i++) { o[i].drop(); CHECK(!g_obj_live[i], "a slot keeps a tracked object alive"); } first.reset(); last.reset(); CHECK(!g_obj_live[30] && !g_obj_live[31], "a slot keeps a tracked object alive"); CHECK(!c.connected(), "all expired"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// the same with many objects, any one expires
extern "C" void expiry_many() {
  { static const int sizes[] = {9, 11, 13, 17, 21, 24}; int n = sizes[pick("n", (int)sx_param("sizes", 4))], w = pick("who", n), via = pick("via", 6); bool early = pick("early", 2); Sig sig; Slot in((Fn(1))); boost::shared_ptr<Ob> o[32]; std::shared_ptr<Ob> f[32];
    for (int i = 0; i < n; i++) { if (i % 4 == 3) { f[i] = std::shared_ptr<Ob>(new Ob(i)); in.track_foreign(f[i]); } else { o[i].reset(new Ob(i)); if (i % 4 == 1) { boost::weak_ptr<void> k(o[i]); in.track(k); } else in.track(o[i]); } }
    if (early) { o[w].reset(); f[w].reset(); }
    sig.connect(Fn(0)); bs2::connection c; Sig::extended_slot_type es((ExtFn{1}));
    switch (via) {
      case 0: { Slot u((Fn(1))); u.track(in); c = sig.connect(u); break; }
      case 1: es.track(in); c = sig.connect_extended(es); break;
      case 2: { OtherSlot t(in); Slot u(t); c = sig.connect(1, u, bs2::at_front); break; }
      case 3: es.track(in); { Sig::extended_slot_type k(es); c = sig.connect_extended(2, k, bs2::at_front); } break;
      case 4: { Slot u((Fn(1))); boost::shared_ptr<Ob> q(new Ob(31)); u.track(q); u = in; c = sig.connect(u); CHECK(in.tracked_objects().size() == (size_t)n, "tracked_objects()"); break; }
      case 5: c = sig.connect(in); break;
    }
    sig.connect(Fn(2)); if (!early) { CHECK(c.connected(), "connected() with all tracked objects alive"); g_log.clear(); sig(1); CHECK(g_log.n == 3, "a slot whose tracked objects live is not called"); o[w].reset(); f[w].reset(); CHECK(!g_obj_live[w], "a slot keeps a tracked object alive"); }
    if (pick("q", 2)) CHECK(!c.connected(), "connected() with an expired tracked object"); g_log.clear(); sig(4); CHECK(g_log.n == 2 && g_log.id[0] != 1 && g_log.id[1] != 1, "a slot with an expired tracked object was called, or a live one was not"); CHECK(!c.connected() && sig.num_slots() == 2, "connected() after the call"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// an object at any position of a long list expires
extern "C" void expiry_long() {
  { static const int sizes[] = {8, 9, 10, 11, 12, 20, 21, 30}; int n = sizes[pick("n", (int)sx_param("sizes", 5))]; Sig sig; Slot slot((Fn(1))); boost::shared_ptr<Ob> o[32]; std::shared_ptr<Ob> f[32];
    for (int i = 0; i < n; i++) { if (i % 3 == 1) { f[i] = std::shared_ptr<Ob>(new Ob(i)); slot.track_foreign(f[i]); } else { o[i].reset(new Ob(i)); slot.track(o[i]); } }
    int w1 = pick("who", n);
    sig.connect(Fn(0)); bs2::connection c = sig.connect(slot); sig.connect(Fn(2)); checkSig(sig, c, true, "");
    for (int i = 0; i < n; i++) CHECK(g_obj_live[i] == 1, "a tracked object died");
    o[w1].reset(); f[w1].reset(); CHECK(g_obj_live[w1] == 0, "an object is kept alive by a slot that is not running");
    checkSig(sig, c, false, "");
    for (int i = 0; i < n; i++) { o[i].reset(); f[i].reset(); CHECK(g_obj_live[i] == 0, "an object is kept alive by a disconnected slot"); }
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// several slots share tracked objects, mixed with groups; a history of drops, queries and calls
extern "C" void expiry_hist() {
  { enum { NS = 4, NO = 3 }; Sig sig; boost::shared_ptr<Ob> o[NO]; bs2::connection c[NS]; int mask[NS]; bool live[NO];
    for (int i = 0; i < NO; i++) { o[i].reset(new Ob(i)); live[i] = true; }
    for (int s = 0; s < NS; s++) { Slot sl((Fn(s))); mask[s] = s == 0 ? 0 : s == NS - 1 ? 7 : 1 + pick("mask", 6); for (int i = 0; i < NO; i++) if (mask[s] >> i & 1) sl.track(o[i]); c[s] = pick("grp", 2) ? sig.connect(s, sl) : sig.connect(100, sl); }
    int len = (int)sx_param("len", 3);
    for (int k = 0; k < len; k++) {
      switch (pick("op", 4)) {
        case 0: { int i = pick("drop", NO); o[i].reset(); live[i] = false; CHECK(g_obj_live[i] == 0, "kept alive"); break; }
        case 1: g_log.clear(); sig(1); break;
        case 2: { std::size_t n = sig.num_slots(); sx_trace(1, n); break; }
        case 3: { int s = pick("q", NS); sx_trace(2, c[s].connected()); break; }
      }
    }
    int exp = 0; for (int i = 0; i < NO; i++) if (!live[i]) exp |= 1 << i;
    int w = 0; bool seen[NS]; for (int s = 0; s < NS; s++) seen[s] = false;
    g_log.clear(); sig(1);
    for (int s = 0; s < NS; s++) { bool on = !(mask[s] & exp); w += on; CHECK(c[s].connected() == on, "connected()"); }
    for (int k = 0; k < g_log.n; k++) { int s = g_log.id[k]; CHECK(!(mask[s] & exp) && !seen[s], "an expired slot was called"); seen[s] = true; }
    CHECK(g_log.n == w, "a live slot was not called"); CHECK(sig.num_slots() == (std::size_t)w, "num_slots()"); CHECK(sig.empty() == (w == 0), "empty()");
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C07
static boost::shared_ptr<Ob> g_o[40]; static std::shared_ptr<Ob> g_f[40]; static int g_n, g_mode, g_who; static bool g_checkAfter;
struct Boom {};
struct Dropper { int id; void operator()(int x) const {
    g_log.add(id, x);
    if (id == 1) {                               // the tracking slot
      for (int i = 0; i < g_n; i++) CHECK(g_obj_live[i] == 1, "a tracked object is dead while its slot runs");
      if (g_mode & 1) for (int i = 0; i < g_n; i++) if (g_who < 0 || g_who == i) { g_o[i].reset(); g_f[i].reset(); }
      for (int i = 0; i < g_n; i++) CHECK(g_obj_live[i] == 1, "a tracked object died during its slot's call");
      if (g_mode & 2) throw Boom();
    }
    if (id == 2 && g_checkAfter) for (int i = 0; i < g_n; i++) if (!g_o[i] && !g_f[i]) CHECK(g_obj_live[i] == 0, "a tracked object outlives its slot's call");
  } };
static void keepalive(int n, int who, bool viaNested) {
  g_n = n; g_who = who; g_mode = pick("mode", 4); g_checkAfter = true;
  { Sig sig; Slot slot((Dropper{1})); for (int i = 0; i < n; i++) { if (i % 4 == 3) { g_f[i] = std::shared_ptr<Ob>(new Ob(i)); slot.track_foreign(g_f[i]); } else { g_o[i].reset(new Ob(i)); slot.track(g_o[i]); } }
    sig.connect(Dropper{0}); bs2::connection c = sig.connect(slot); sig.connect(Dropper{2});
    Sig outer; if (viaNested) outer.connect(sig); Sig &call = viaNested ? outer : sig;
    { bs2::shared_connection_block blk(c); CHECK(c.connected(), "connected"); if (pick("bcall", 2)) { g_log.clear(); call(1); CHECK(g_log.n == 2, "blocked call"); } }
    bool threw = false; g_log.clear(); try { call(5); } catch (Boom) { threw = true; }
    CHECK(threw == !!(g_mode & 2), "exception"); CHECK(g_log.n == (threw ? 2 : 3), "calls");
    for (int i = 0; i < n; i++) CHECK(g_obj_live[i] == ((g_o[i] || g_f[i]) ? 1 : 0), "the library owns a tracked object after the invocation");
    bool dropped = g_mode & 1; CHECK(c.connected() == !dropped, "connected after release");
    g_mode = 0; g_log.clear(); call(6); CHECK(g_log.n == (dropped ? 2 : 3), "calls after release");
    for (int i = 0; i < n; i++) { g_o[i].reset(); g_f[i].reset(); CHECK(g_obj_live[i] == 0 && g_obj_dead[i] == 1, "a tracked object is not destroyed with its last owner"); }
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void keep_small() { int n = 1 + pick("n", 3); keepalive(n, pick("who", n + 1) - 1, false); }
extern "C" void keep_long() { static const int sizes[] = {9, 10, 11, 12, 20, 21, 30}; int n = sizes[pick("n", (int)sx_param("sizes", 4))]; int w = pick("who", 4); keepalive(n, w == 0 ? -1 : w == 1 ? 0 : w == 2 ? n - 1 : n / 2, false); }
extern "C" void keep_nested() { int n = 1 + pick("n", 2); keepalive(n, -1, true); }
// owners released by an earlier slot, by the combiner between slots, or by another slot's call; a slot object called directly
static int g_rel;
struct Rel { int id; void operator()(int x) const { g_log.add(id, x); if (g_rel == id) g_o[0].reset(); if (id == 1 || id == 3) CHECK(g_obj_live[0] == 1, "tracked object dead during a call"); } };
extern "C" void keep_release() {
  { Sig sig; g_o[0].reset(new Ob(0)); Slot a((Rel{1})), b((Rel{3})); a.track(g_o[0]); b.track(g_o[0]); bs2::connection c[5];
    c[0] = sig.connect(Rel{0}); c[1] = sig.connect(a); c[2] = sig.connect(Rel{2}); c[3] = sig.connect(b); c[4] = sig.connect(Rel{4}); bs2::shared_connection_block blk; if (pick("blk", 2)) blk = bs2::shared_connection_block(c[pick("b", 5)]);
    bool bl[5]; for (int i = 0; i < 5; i++) bl[i] = c[i].blocked();
    g_rel = pick("rel", 6); g_log.clear(); sig(1);
    int w = 0; bool dead = false; for (int i = 0; i < 5; i++) { if (bl[i] || (dead && (i == 1 || i == 3))) continue; CHECK(w < g_log.n && g_log.id[w] == i, "wrong slots called"); w++; if (g_rel == i) dead = true; }
    CHECK(w == g_log.n, "too many slots called"); CHECK(g_obj_live[0] == (dead ? 0 : 1), "lifetime"); CHECK(c[1].connected() == !dead && c[3].connected() == !dead, "connected");
    g_o[0].reset(); CHECK(g_obj_live[0] == 0, "kept alive"); blk.unblock(); g_rel = -1; g_log.clear(); sig(1); CHECK(g_log.n == 3, "later calls");
    // direct call of a slot object
    g_o[0].reset(new Ob(0)); { Slot d((Rel{1})); d.track(g_o[0]); g_rel = 1; g_log.clear(); d(3); CHECK(g_log.n == 1 && g_obj_live[0] == 0, "direct call"); bool t = false; try { d(3); } catch (const bs2::expired_slot &) { t = true; } CHECK(t && g_log.n == 1, "expired direct call"); }
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// a tracked object is owned by the library only while its own slot runs, whatever became of the slots before and after
struct SkipSlot { int id; void operator()(int x) const { g_log.add(id, x); CHECK(g_obj_live[id] == 1, "a tracked object is dead while its slot runs");
    if (g_rel >> id & 1) for (int i = 0; i < g_n; i++) if (g_who >> i & 1) { g_o[i].reset(); CHECK(i == id || g_obj_live[i] == 0, "a tracked object of a slot that is not running is kept alive"); }
    CHECK(g_obj_live[id] == 1, "a tracked object died during its slot's call"); } };
extern "C" void keep_skip() {
  { int n = g_n = (int)sx_param("n", 3); Sig sig; bs2::connection c[5]; bs2::shared_connection_block b[5]; int st[5]; bool on[5]; boost::shared_ptr<int> second[5];
    for (int i = 0; i < n; i++) { g_o[i].reset(new Ob(i)); second[i].reset(new int(i)); Slot sl((SkipSlot{i})); if (pick("ord", 2)) { sl.track(g_o[i]); sl.track(second[i]); } else { sl.track(second[i]); sl.track(g_o[i]); } c[i] = sig.connect(sl); on[i] = true; }
    for (int i = 0; i < n; i++) { st[i] = pick("st", 4); if (st[i] == 1) b[i] = bs2::shared_connection_block(c[i]); if (st[i] == 2) { c[i].disconnect(); } if (st[i] == 3) second[i].reset(); on[i] = st[i] < 2; }
    g_rel = 1 << pick("at", n); g_who = 1 + pick("rel", (1 << n) - 1); bool dead[5] = {false, false, false, false, false};
    for (int r = 0; r < 2; r++) {
      g_log.clear(); sig(7); int w = 0;
      for (int i = 0; i < n; i++) { if (!on[i] || st[i] == 1 || dead[i]) continue; CHECK(w < g_log.n && g_log.id[w] == i, "wrong slots called"); w++; if (g_rel >> i & 1) for (int k = 0; k < n; k++) if (g_who >> k & 1) dead[k] = true; }
      CHECK(g_log.n == w, "too many slots called"); for (int i = 0; i < n; i++) { CHECK(g_obj_live[i] == (g_o[i] ? 1 : 0), "the library owns a tracked object after the invocation"); CHECK(!g_o[i] == dead[i], "released"); CHECK(c[i].connected() == (on[i] && !dead[i]), "connected()"); }
    }
    for (int i = 0; i < n; i++) { g_o[i].reset(); CHECK(g_obj_live[i] == 0 && g_obj_dead[i] == 1, "a tracked object is not destroyed with its last owner"); }
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
