// C12: operations that fail half way (exhausted memory, throwing copies and comparisons).
#include "common.hpp"
#define P(n, d) (int)sx_param(n, d)
struct Fail {};
static inline void mayFail() { if (sx_fault()) throw Fail(); }
// a slot function whose copies may throw; Pad decides whether boost::function stores it inline
template <int Pad> struct FF {
  int id; char pad[Pad];
  explicit FF(int i) : id(i) { g_live[i]++; } FF(const FF &o) : id(o.id) { mayFail(); g_live[id]++; } ~FF() { g_live[id]--; id = -1; }
  void operator()(int x) const { int i = id; g_log.add(i, x); if (g_hook) g_hook(i, x); CHECK(id == i, "function object destroyed while running"); }
  bool operator==(const FF &o) const { return id == o.id; }
};
struct FExt { FF<1> f; explicit FExt(int i) : f(i) {} void operator()(const bs2::connection &c, int x) const { CHECK(c.connected(), "extended connection"); f(x); } };
struct Key { int g; explicit Key(int i = 0) : g(i) {} Key(const Key &o) : g(o.g) { mayFail(); } Key &operator=(const Key &o) { mayFail(); g = o.g; return *this; } };
struct KeyLess { bool operator()(const Key &a, const Key &b) const { mayFail(); return a.g < b.g; } };
struct FComb { typedef void result_type; int tag; static int made; explicit FComb(int t = 0) : tag(t) { made++; } FComb(const FComb &o) : tag(o.tag) { mayFail(); made++; } FComb &operator=(const FComb &o) { mayFail(); tag = o.tag; return *this; } ~FComb() { made--; } template <class It> void operator()(It a, It b) const { for (; a != b; ++a) { try { *a; } catch (const bs2::expired_slot &) {} } } };
int FComb::made = 0;
typedef bs2::signal<void(int), FComb, Key, KeyLess> Sig;
struct FModel {
  enum { MAX = 16 };
  Sig sig; bs2::connection con[MAX]; int n = 0, meta[MAX], g[MAX]; bool live[MAX]; int ord[MAX], no = 0; boost::shared_ptr<int> tr;
  FModel() : sig(FComb(1)), tr(new int(0)) {}
  void place(int id, int m, int gr, bool front) {
    int at = 0; for (; at < no; at++) { int o = ord[at]; bool before = meta[o] != m ? meta[o] < m : m == 1 && g[o] != gr ? g[o] < gr : !front; if (!before) break; }
    for (int k = no; k > at; k--) ord[k] = ord[k - 1]; ord[at] = id; no++; meta[id] = m; g[id] = gr; live[id] = true;
  }
  void drop(int id) { live[id] = false; for (int k = 0; k < no; k++) if (ord[k] == id) { for (int j = k; j + 1 < no; j++) ord[j] = ord[j + 1]; no--; break; } }
  // what: 0 back, 1 front, 2.. group (what/2-1) at back or front;  how: 0 plain, 1 padded, 2 extended, 3 prepared slot, 4 tracked
  bs2::connection op(int id, int what, int how) {
    bs2::connect_position p = what & 1 ? bs2::at_front : bs2::at_back; bool gr = what >= 2; Key k(what / 2 - 1);
    switch (how) {
      case 0: return gr ? sig.connect(k, FF<1>(id), p) : sig.connect(FF<1>(id), p);
      case 1: return gr ? sig.connect(k, FF<40>(id), p) : sig.connect(FF<40>(id), p);
      case 2: return gr ? sig.connect_extended(k, FExt(id), p) : sig.connect_extended(FExt(id), p);
      default: { Sig::slot_type s((FF<1>(id))); s.track(tr); return gr ? sig.connect(k, s, p) : sig.connect(s, p); }
    }
  }
  void placed(int id, int what) { place(id, what < 2 ? (what & 1 ? 0 : 2) : 1, what / 2 - 1, what & 1); }
  void check(int x) {
    g_log.clear(); sig(x); CHECK(g_log.n == no, "number of slots called"); for (int k = 0; k < no; k++) CHECK(g_log.id[k] == ord[k] && g_log.arg[k] == x, "slots called in order");
    CHECK((int)sig.num_slots() == no && sig.empty() == (no == 0), "num_slots"); for (int i = 0; i < n; i++) CHECK(con[i].connected() == live[i], "connected()");
  }
  // every slot is still where it was: new members of each group go to its ends
  void settle() {
    check(50); int nw = P("after", 2) == 2 ? pick("after", 2) + 1 : pick("after", 6); con[n] = op(n, nw, 0); placed(n, nw); n++; check(51);
    con[n] = op(n, 3, 3); placed(n, 3); n++; check(52);
    sig.disconnect(Key(0)); for (int i = 0; i < n; i++) if (live[i] && meta[i] == 1 && g[i] == 0) drop(i); check(53);
    con[n] = op(n, 2, 0); placed(n, 2); n++; con[n] = op(n, 5, 0); placed(n, 5); n++; con[n] = op(n, 0, 0); placed(n, 0); n++; check(54); check(55);
  }
};
static void fin() { for (int i = 0; i < 128; i++) CHECK(g_live[i] == 0, "function objects leaked"); CHECK(FComb::made == 0, "combiner copies leaked"); CHECK(sx_heap_live() == 0, "memory leaked"); CHECK(sx_mutexes_held() == 0, "a lock is still held"); }
static int liveFns() { int s = 0; for (int i = 0; i < 128; i++) s += g_live[i]; return s; }
// run op with nf symbolic failures armed; true if it failed
template <class F> static bool armed(int nf, F f) {
  bool failed = false; int before = (int)sx_faults_used(); sx_fault_budget(nf);
  try { f(); } catch (const Fail &) { failed = true; } catch (const std::bad_alloc &) { failed = true; }
  sx_fault_budget(0); CHECK(sx_mutexes_held() == 0, "a lock is still held after a failed operation"); int used = (int)sx_faults_used() - before;
  if (failed) CHECK(used > 0, "an operation failed although nothing went wrong"); else sx_reach("success"); if (failed) sx_reach("failure");
  return failed;
}
static void pre(FModel &m, int n, bool gone) {
  for (int i = 0; i < n; i++) { int w = pick("pre", 6); m.con[m.n] = m.op(m.n, w, i == 1 ? 3 : 0); m.placed(m.n, w); m.n++; }
  if (gone) { int k = pick("gone", n + 1); if (k < n) { m.con[k].disconnect(); m.drop(k); } else if (n > 1 && pick("exp", 2)) { m.tr.reset(); m.drop(1); } if (pick("inv", 2)) m.sig(1); }
  if (!m.tr) m.tr.reset(new int(1));
}
static void oneOp(FModel &m, int nf, int hows) {
  int w = P("wh", 6) == 6 ? pick("where", 6) : 2 * pick("where", 2), how = pick("how", hows); int fns = liveFns(); int id = m.n; bs2::connection c;
  bool failed = armed(nf, [&] { c = m.op(id, w, how); });
  if (failed) { CHECK(liveFns() <= fns, "a failed connect leaves a function object behind"); CHECK(g_live[id] == 0, "a failed connect leaves a function object behind"); CHECK(!c.connected(), "connection of a failed connect"); }
  else { m.con[m.n] = c; m.placed(m.n, w); m.n++; CHECK(g_live[id] == 1, "one function object per slot"); }
}
extern "C" void fault_connect() { { FModel m; pre(m, P("pre", 2), true); oneOp(m, P("nf", 1), 5); m.settle(); sx_reach("end"); } fin(); }
extern "C" void fault_groups() { { FModel m; int n = P("pre", 3); for (int i = 0; i < n; i++) { int w = 2 + pick("pre", 6); m.con[i] = m.op(i, w, 0); m.placed(i, w); m.n++; } int w = 2 + pick("where", 6); bs2::connection c; int id = m.n; if (!armed(P("nf", 1), [&] { c = m.op(id, w, 0); })) { m.con[id] = c; m.placed(id, w); m.n++; } m.settle(); sx_reach("end"); } fin(); }
// the failing operation is made by a slot while its signal is being invoked
static FModel *g_m; static int g_nf; static bool g_done;
static void hookOp(int, int) { if (g_done) return; if (!pick("now", 2)) return; g_done = true; int keep[32], n = g_log.n; for (int i = 0; i < n; i++) keep[i] = g_log.id[i]; oneOp(*g_m, g_nf, 3); }
extern "C" void fault_inuse() {
  { FModel m; pre(m, P("pre", 2), false); g_m = &m; g_nf = P("nf", 1); g_done = false; int snap[16], k = m.no; for (int i = 0; i < k; i++) snap[i] = m.ord[i]; g_hook = hookOp; g_log.clear(); m.sig(7); g_hook = 0; CHECK(g_log.n == k, "the invocation in progress is disturbed"); for (int i = 0; i < k; i++) CHECK(g_log.id[i] == snap[i], "the invocation in progress is disturbed"); m.settle(); sx_reach("end"); }
  fin();
}
// cleanup of several disconnected slots fails half way
extern "C" void fault_cleanup() {
  { FModel m; int n = P("pre", 4); for (int i = 0; i < n; i++) { int w = 2 + pick("pre", 2) * 2; m.con[i] = m.op(i, w, 0); m.placed(i, w); m.n++; }
    if (pick("inv0", 2)) { bs2::connection t = m.sig.connect(FF<1>(20)); t.disconnect(); m.con[0].disconnect(); m.drop(0); }
    for (int i = 0; i < n; i++) if (m.live[i] && pick("dis", 2)) { m.con[i].disconnect(); m.drop(i); }
    oneOp(m, P("nf", 1), 1); oneOp(m, 0, 1); m.check(3); m.settle(); sx_reach("end"); }
  fin();
}
// more expired slots than the garbage buffer holds, collected by a failing connect while the list is in use
static int g_many; static void hookMany(int id, int) { if (id || g_done) return; g_done = true; g_m->tr.reset(); for (int i = 1; i <= g_many; i++) g_m->drop(i); g_m->tr.reset(new int(5)); oneOp(*g_m, 1, 1); }
extern "C" void fault_many() {
  { FModel m; g_m = &m; g_done = false; g_many = P("n", 12); m.con[0] = m.op(0, 1, 0); m.placed(0, 1); m.n++; for (int i = 1; i <= g_many; i++) { m.con[i] = m.op(i, i & 1 ? 0 : 2, 3); m.placed(i, i & 1 ? 0 : 2); m.n++; }
    int in = pick("in", 2); if (in) { g_hook = hookMany; m.sig(1); g_hook = 0; } else { m.tr.reset(); for (int i = 1; i <= g_many; i++) m.drop(i); m.tr.reset(new int(5)); oneOp(m, 1, 1); }
    oneOp(m, 0, 1); m.check(9); sx_reach("end"); }
  fin();
}
// an invocation or a query meets a failing allocation, copy or comparison, also while it collects slots disconnected during it
static int g_victims, g_at; static void hookDrop(int id, int) { if (id != g_at || g_done) return; g_done = true; for (int i = 0; i < g_m->n; i++) if (g_victims >> i & 1) { g_m->con[i].disconnect(); g_m->drop(i); } if (g_victims >> 8 & 1) { g_m->tr.reset(); for (int i = 0; i < g_m->n; i++) if (i == 1) g_m->drop(i); } if (g_victims >> 9 & 1) { int id2 = g_m->n; sx_fault_budget(0); g_m->con[id2] = g_m->op(id2, 2, 0); g_m->placed(id2, 2); g_m->n++; sx_fault_budget(1); } }
extern "C" void fault_invoke() {
  { FModel m; g_m = &m; g_done = false; int n = P("pre", 4); for (int i = 0; i < n; i++) { int w = i == 0 ? 1 + 2 * pick("pre0", 2) : 2 * pick("pre", 3); m.con[i] = m.op(i, w, i == 1 ? 3 : 0); m.placed(i, w); m.n++; } int k = 0;
    if (pick("early", 2)) { int e = m.ord[0]; m.con[e].disconnect(); m.drop(e); } int what = pick("what", 6); g_at = what < 2 ? pick("at", n) : -1; g_victims = what < 2 ? pick("vic", 1 << n) | pick("exp", 2) << 8 | pick("con", 2) << 9 : 0; bool f; int snap[16]; k = m.no; for (int i = 0; i < k; i++) snap[i] = m.ord[i]; g_hook = hookDrop; g_log.clear();
    switch (what) {
      case 0: case 1: f = armed(1, [&] { if (what) { const Sig &c = m.sig; c(7); } else m.sig(7); }); { int j = 0; for (int i = 0; i < g_log.n; i++) { while (j < k && snap[j] != g_log.id[i]) { CHECK(g_done && !m.live[snap[j]], "an invocation skips a connected slot"); j++; } CHECK(j < k, "an invocation calls a slot out of turn"); j++; } if (!f) for (; j < k; j++) CHECK(!m.live[snap[j]], "an invocation that reported no failure missed a slot"); } break;
      case 2: f = armed(1, [&] { CHECK(m.sig.num_slots() == (size_t)m.no, "num_slots"); }); break;
      case 3: f = armed(1, [&] { CHECK(m.con[1].connected() == m.live[1], "connected()"); CHECK(m.sig.empty() == !m.no, "empty()"); }); break;
      case 4: { int i = pick("d", n); f = armed(1, [&] { m.con[i].disconnect(); }); CHECK(!f, "disconnect() fails"); m.drop(i); break; }
      case 5: f = armed(1, [&] { m.sig.disconnect_all_slots(); }); CHECK(!f, "disconnect_all_slots() fails"); for (int i = 0; i < n; i++) m.drop(i); break;
    }
    g_hook = 0; if (!m.tr) m.tr.reset(new int(1)); m.check(8); m.settle(); sx_reach("end"); }
  fin();
}
// many tracked objects, copies of results: the invocation itself needs memory
extern "C" void fault_call() {
  { typedef bs2::signal<int(int), bs2::last_value<int> > SI; SI sig; struct R { static int a(int x) { g_log.add(1, x); return 10; } static int b(int x) { g_log.add(2, x); return 20; } }; int nt = 9 + pick("nt", 5); boost::shared_ptr<int> o[14]; SI::slot_type s(&R::b); for (int i = 0; i < nt; i++) { o[i].reset(new int(i)); s.track(o[i]); }
    sig.connect(&R::a); bs2::connection c = sig.connect(1, s); g_log.clear(); int r = 0; bool direct = pick("direct", 2); bool f = armed(1, [&] { r = direct ? s(5) : sig(5); }); if (!f) CHECK(r == (direct ? 20 : 10) && g_log.n == (direct ? 1 : 2), "result"); else CHECK(g_log.n <= 1, "a failed call");
    for (int i = 0; i < nt; i++) CHECK(o[i].use_count() == 1, "a failed call keeps a tracked object alive"); g_log.clear(); CHECK(sig(6) == 10 && g_log.n == 2 && c.connected(), "the signal after a failed call"); o[pick("who", nt)].reset(); CHECK(!c.connected(), "expired"); CHECK(sig(7) == 10, "last"); sx_reach("end"); }
  fin();
}
// construction of slots, tracking, copies; signals; set_combiner
extern "C" void fault_slot() {
  { FModel m; int what = pick("what", 8); int nf = P("nf", 1); boost::shared_ptr<int> keep(new int(3)); std::shared_ptr<int> fk(new int(4));
    if (what == 0) armed(nf, [&] { Sig::slot_type s((FF<1>(1))); });
    if (what == 1) armed(nf, [&] { Sig::slot_type s((FF<40>(1))); Sig::slot_type t(s); t.track(keep); t = s; });
    if (what >= 2 && what <= 5) { Sig::slot_type s((FF<1>(0))); int k = P("k", 3); for (int i = 0; i < k; i++) if (pick("f", 2)) s.track_foreign(fk); else s.track(keep);
      Sig::slot_type t((FF<1>(2))); boost::shared_ptr<int> other(new int(5)); size_t before = s.tracked_objects().size(); bool f = false;
      if (what == 2) f = armed(nf, [&] { s.track(other); }); if (what == 3) f = armed(nf, [&] { s.track_foreign(fk); }); if (what == 4) f = armed(nf, [&] { s.track(t); }); if (what == 5) f = armed(nf, [&] { Sig::slot_type u(s); s.track(u); });
      if (f && what != 5) CHECK(s.tracked_objects().size() == before, "a failed track() changes the slot"); if (what == 2 && !f) CHECK(s.tracked_objects().size() == before + 1, "track() adds one");
      m.con[0] = m.sig.connect(s); m.placed(0, 0); m.n = 1; if (what == 2 && !f) { other.reset(); m.drop(0); } m.check(1); s = t; }
    if (what == 6) { boost::shared_ptr<Sig> p; bool f = armed(nf, [&] { p.reset(new Sig(FComb(2), KeyLess())); }); if (!f) { (*p)(1); CHECK(p->empty(), "a new signal has no slots"); } }
    if (what == 7) { m.con[0] = m.op(0, 2, 0); m.placed(0, 2); m.n = 1; int old = m.sig.combiner().tag; bool f = armed(nf, [&] { m.sig.set_combiner(FComb(9)); }); CHECK(m.sig.combiner().tag == (f ? old : 9), "combiner after set_combiner"); f = armed(nf, [&] { FComb c(m.sig.combiner()); }); }
    m.settle(); sx_reach("end"); }
  fin();
}
// signals connected to signals, and blocks, under exhausted memory
extern "C" void fault_chain() {
  { typedef bs2::signal<void(int)> S; S out; boost::shared_ptr<S> in(new S); struct { void operator()(int) const {} } dummy; (void)dummy; in->connect(FF<1>(1)); bs2::connection c; int nf = P("nf", 1); bool grp = pick("g", 2);
    bool f = armed(nf, [&] { c = grp ? out.connect(3, *in, bs2::at_front) : out.connect(*in); }); CHECK(c.connected() == !f, "connected()"); CHECK(out.num_slots() == (f ? 0u : 1u), "num_slots"); g_log.clear(); out(4); CHECK(g_log.n == (f ? 0 : 1), "calls");
    if (!f) { bool b = false; bs2::shared_connection_block k(c, false); bool g = armed(nf, [&] { if (pick("lk", 2)) k.block(); else { bs2::shared_connection_block k2(c); k = k2; } b = true; }); CHECK(c.blocked() == (b && !g), "blocked()"); CHECK(k.blocking() == (b && !g), "blocking()"); }
    in.reset(); CHECK(!c.connected() && out.empty(), "inner signal gone"); sx_reach("end"); }
  fin();
}
