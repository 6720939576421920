// C22, C23: signals as slots of signals; moving and swapping signals.
#include "common.hpp"
#include <boost/ref.hpp>
#include <utility>
#define P(n, d) (int)sx_param(n, d)
static void fin() { CHECK(sx_heap_live() == 0, "memory leaked"); }
// a combiner that returns all results as one number, and one that returns the last
struct Sum { typedef int result_type; int tag; explicit Sum(int t = 0) : tag(t) {} template <class It> int operator()(It a, It b) const { int s = tag; for (; a != b; ++a) { try { s = (int)((unsigned)s * 31u + (unsigned)*a); } catch (const bs2::expired_slot &) { CHECK(0, "a combiner sees expired_slot from a chained signal"); } } return s; } };
struct IFn { int id; int operator()(int x) const { g_log.add(id, x); if (g_hook) g_hook(id, x); return (int)((unsigned)x + 1000u * (unsigned)id); } bool operator==(const IFn &o) const { return id == o.id; } };
typedef bs2::signal<int(int), Sum> ISig;
// ---- C22: node i may be connected to nodes with smaller index only (no cycles)
struct Net {
  enum { N = 3, E = 10 };
  boost::shared_ptr<ISig> s[N]; bool alive[N]; int tag[N];
  struct Edge { int from, to, id, m, g; bool on; bs2::connection c; bool block; bs2::shared_connection_block b; } e[E]; int ne = 0; int ord[N][E], no[N];
  Net() { for (int i = 0; i < N; i++) { tag[i] = i * 7; s[i].reset(new ISig(Sum(tag[i]))); alive[i] = true; no[i] = 0; } }
  void place(int k, int from, bool front) { Edge &x = e[k]; int *o = ord[from], &n = no[from], p = 0; for (; p < n; p++) { Edge &y = e[o[p]]; bool before = y.m != x.m ? y.m < x.m : x.m == 1 && y.g != x.g ? y.g < x.g : !front; if (!before) break; } for (int j = n; j > p; j--) o[j] = o[j - 1]; o[p] = k; n++; }
  void add(int from, int to, int id, int where, int how) {
    Edge &x = e[ne]; x.from = from; x.to = to; x.id = id; x.on = true; x.block = false; bool front = where & 1; x.m = where >= 2 ? 1 : front ? 0 : 2; x.g = where / 2; bs2::connect_position p = front ? bs2::at_front : bs2::at_back; ISig &f = *s[from];
    if (to < 0) { IFn fn = {id}; x.c = where >= 2 ? f.connect(x.g, fn, p) : f.connect(fn, p); }
    else if (how == 0) x.c = where >= 2 ? f.connect(x.g, *s[to], p) : f.connect(*s[to], p);
    else if (how == 1) { ISig::slot_type sl(boost::ref(*s[to])); x.c = where >= 2 ? f.connect(x.g, sl, p) : f.connect(sl, p); }
    else { const ISig &cs = *s[to]; ISig::slot_type sl(cs); ISig::slot_type cp(sl); x.c = where >= 2 ? f.connect(x.g, cp, p) : f.connect(cp, p); }
    place(ne, from, front); ne++;
  }
  void off(int k) { if (!e[k].on) return; e[k].on = false; int *o = ord[e[k].from], &n = no[e[k].from]; for (int p = 0; p < n; p++) if (o[p] == k) { for (int j = p; j + 1 < n; j++) o[j] = o[j + 1]; n--; break; } }
  void kill(int i) { alive[i] = false; for (int k = 0; k < ne; k++) if (e[k].from == i || e[k].to == i) off(k); }
  CallLog want;
  int run(int i, int x) { unsigned r = tag[i]; for (int p = 0; p < no[i]; p++) { Edge &y = e[ord[i][p]]; if (y.block) continue; if (y.to < 0) { want.add(y.id, x); r = r * 31u + (unsigned)x + 1000u * (unsigned)y.id; } else r = r * 31u + (unsigned)run(y.to, x); } return (int)r; }
  void check() {
    for (int k = 0; k < ne; k++) CHECK(e[k].c.connected() == e[k].on, "connected() of a chained connection");
    for (int i = 0; i < N; i++) if (alive[i]) { CHECK((int)s[i]->num_slots() == no[i], "num_slots"); int x = 3 + i; want.clear(); int r = run(i, x); g_log.clear(); int got = i & 1 ? (*boost::const_pointer_cast<const ISig>(s[i]))(x) : (*s[i])(x); CHECK(got == r, "the result of the inner signal is the slot's result"); CHECK(g_log.n == want.n, "slots reached through the chain"); for (int k = 0; k < want.n; k++) CHECK(g_log.id[k] == want.id[k] && g_log.arg[k] == x, "chained calls in order with the same arguments"); }
  }
  void pickAdd(int how) { int k = pick("edge", 5); int w = pick("where", 4) % 6; if (ne >= E) return; switch (k) { case 0: if (alive[0] && alive[1]) add(0, 1, 0, w, how); break; case 1: if (alive[1] && alive[2]) add(1, 2, 0, w, how); break; case 2: if (alive[0] && alive[2]) add(0, 2, 0, w, how); break; case 3: if (alive[1]) add(1, -1, ne, w, 0); break; case 4: if (alive[2]) add(2, -1, ne, w, 0); break; } }
};
static Net *W;
extern "C" void chain_hist() {
  { Net n; W = &n; g_hook = 0; n.add(2, -1, 9, 0, 0); int len = P("len", 3);
    for (int k = 0; k < len; k++) {
      switch (pick("op", 6)) {
        case 0: case 1: n.pickAdd(k % 3); break;
        case 2: { int i = pick("kill", 3); n.s[i].reset(); n.kill(i); break; }
        case 3: { int j = pick("dis", n.ne); n.e[j].c.disconnect(); n.off(j); break; }
        case 4: { int i = pick("ds", 3), j = pick("inner", 3); if (n.alive[i] && n.alive[j]) { n.s[i]->disconnect(*n.s[j]); for (int q = 0; q < n.ne; q++) if (n.e[q].from == i && n.e[q].to == j) n.off(q); } break; }
        case 5: { int j = pick("blk", n.ne); if (n.e[j].block) { n.e[j].b.unblock(); n.e[j].block = false; } else { n.e[j].b = bs2::shared_connection_block(n.e[j].c); n.e[j].block = true; } break; }
      }
      n.check();
    }
    sx_reach("end"); }
  fin();
}
// deep and wide: fixed topologies, any node destroyed, any connection cut or blocked
extern "C" void chain_topo() {
  { Net n; W = &n; g_hook = 0; int how = pick("how", 3); n.add(2, -1, 1, 0, 0); n.add(2, -1, 2, 3, 0); n.add(1, 2, 0, pick("w", 4), how); n.add(1, -1, 3, 0, 0); n.add(0, 1, 0, pick("w", 4), how); n.add(0, 2, 0, pick("w", 2), (how + 1) % 3); n.add(0, -1, 4, 0, 0); n.check();
    for (int k = 0; k < P("len", 2); k++) { switch (pick("op", 3)) { case 0: { int i = pick("kill", 3); n.s[i].reset(); n.kill(i); break; } case 1: { int j = pick("dis", 7); n.e[j].c.disconnect(); n.off(j); break; } case 2: { int j = pick("blk", 7); n.e[j].b = bs2::shared_connection_block(n.e[j].c); n.e[j].block = true; break; } } n.check(); }
    sx_reach("end"); }
  fin();
}
// one signal connected to another several times, in groups and not, next to other signals and functions; disconnected by signal
extern "C" void chain_dup() {
  { enum { E = 6 }; ISig out(Sum(1)), in0(Sum(2)), in1(Sum(3)); ISig *in[2] = {&in0, &in1}; g_hook = 0; IFn f0 = {1}, f1 = {2}; in0.connect(f0); in1.connect(f1); int n = P("n", 4), to[E], g[E]; bool on[E]; bs2::connection c[E];
    for (int i = 0; i < n; i++) { to[i] = pick("to", 3); g[i] = pick("g", 2); on[i] = true; int how = i % 3; if (to[i] == 2) { IFn f = {3}; c[i] = g[i] ? out.connect(1, f) : out.connect(f); } else if (how == 0) c[i] = g[i] ? out.connect(1, *in[to[i]]) : out.connect(*in[to[i]]); else { ISig::slot_type sl(boost::ref(*in[to[i]])); ISig::slot_type s2(*in[to[i]]); c[i] = g[i] ? out.connect(1, how == 1 ? sl : s2) : out.connect(how == 1 ? sl : s2); } }
    for (int k = 0; k < P("len", 2); k++) { switch (pick("op", 5)) { case 0: case 1: { int j = pick("in", 2); if (pick("cst", 2)) { const ISig &cs = *in[j]; out.disconnect(cs); } else out.disconnect(*in[j]); for (int i = 0; i < n; i++) if (to[i] == j) on[i] = false; break; } case 2: { IFn f = {3}; out.disconnect(f); for (int i = 0; i < n; i++) if (to[i] == 2) on[i] = false; break; } case 3: { int i = pick("h", n); c[i].disconnect(); on[i] = false; break; } case 4: out.disconnect(1); for (int i = 0; i < n; i++) if (g[i]) on[i] = false; break; }
      int live = 0; for (int i = 0; i < n; i++) { CHECK(c[i].connected() == on[i], "disconnecting a signal drops exactly the connections to it"); live += on[i]; } CHECK((int)out.num_slots() == live, "num_slots"); }
    unsigned r = 1; int w = 0; for (int p = 1; p >= 0; p--) for (int i = 0; i < n; i++) if (on[i] && g[i] == p) { w++; unsigned v = to[i] == 2 ? 4u + 3000u : (to[i] ? 3u : 2u) * 31u + 4u + 1000u * (to[i] ? 2u : 1u); r = r * 31u + v; } g_log.clear(); int got = out(4); CHECK(g_log.n == w && got == (int)r, "calls through the remaining connections"); sx_reach("end"); }
  fin();
}
// the inner signal is destroyed, cleared or disconnected by a slot while the outer one is being invoked
static int g_when, g_do; static bool g_did;
static void hookKill(int id, int) {
  if (id != g_when || g_did) return; g_did = true; Net &n = *W;
  switch (g_do) { case 0: n.s[1].reset(); break; case 1: n.s[2].reset(); break; case 2: n.e[2].c.disconnect(); break; case 3: n.s[0]->disconnect(*n.s[1]); break; case 4: n.s[1]->disconnect_all_slots(); break; case 5: n.s[1].reset(); n.s[2].reset(); break; case 6: n.s[1]->connect(*n.s[2]); break; }
}
extern "C" void chain_inflight() {
  { Net n; W = &n; g_did = false; int how = pick("how", 3); n.add(2, -1, 1, 0, 0); n.add(2, -1, 2, 0, 0); n.add(0, 1, 0, pick("w0", 4), how); n.add(1, 2, 0, pick("w1", 4), how); n.add(1, -1, 3, 0, 0); n.add(1, -1, 4, 1, 0); n.add(0, -1, 5, 0, 0); n.add(0, -1, 6, 1, 0); g_when = 1 + pick("when", 6); g_do = pick("do", 7);
    boost::weak_ptr<ISig> w1(n.s[1]), w2(n.s[2]); g_hook = hookKill; g_log.clear(); int pre = n.no[0]; (void)pre; bool exc = false; (*n.s[0])(5); CHECK(!exc, "no exception"); g_hook = 0;
    int seen[8] = {0}; bool dead1 = false, dead2 = false, after = false; for (int k = 0; k < g_log.n; k++) { int id = g_log.id[k]; seen[id]++; CHECK(seen[id] == 1 || g_do == 6, "a slot ran twice"); }
    (void)dead1; (void)dead2; (void)after; CHECK(seen[5] == 1 && seen[6] == 1, "the outer signal's own slots run");
    if (g_do == 0 || g_do == 5) { CHECK(w1.expired(), "the connection keeps the inner signal alive"); n.kill(1); } if (g_do == 1 || g_do == 5) { CHECK(w2.expired(), "the connection keeps the inner signal alive"); n.kill(2); } if (g_do == 2 || g_do == 3) n.off(2); if (g_do == 4) for (int k = 0; k < n.ne; k++) if (n.e[k].from == 1) n.off(k); if (g_do == 6) { Net::Edge &x = n.e[n.ne]; x.from = 1; x.to = 2; x.id = 0; x.m = 2; x.g = 0; x.on = true; x.block = false; n.place(n.ne, 1, false); n.ne++; x.c = bs2::connection(); n.ne--; /* no handle kept */ for (int i = 0; i < 3; i++) { n.want.clear(); int r = n.run(i, 8); g_log.clear(); CHECK((*n.s[i])(8) == r && g_log.n == n.want.n, "a chain made during an invocation"); } sx_reach("end"); W = 0; return; }
    n.check(); sx_reach("end"); }
  fin();
}
// argument and result types pass through: references, move-only references, void, optional
struct VOuter { static int last; }; static int g_v;
static void incr(int &x, long y) { x += (int)y; g_v++; }
static std::string *dummy_;
extern "C" void chain_types() {
  { bs2::signal<void(int &, long)> o, i; i.connect(&incr); o.connect(i); o.connect(0, boost::ref(i)); i.connect(&incr); int v = 1; g_v = 0; long d = sx_int("d", -1000, 1000); o(v, d); CHECK(v == 1 + 4 * d && g_v == 4, "arguments by reference through a chain");
    bs2::signal<boost::optional<int>(int)> a; typedef bs2::signal<int(int)> B; B b; IFn f = {2}; b.connect(f); a.connect(b); boost::optional<boost::optional<int> > r = a(4); CHECK(r && *r && **r == 2004, "result of a signal with another result type"); b.disconnect_all_slots(); r = a(5); CHECK(r && !*r, "empty result of the inner signal"); { B c; c.connect(f); a.connect(c); } CHECK(a.num_slots() == 1, "temporary inner signal");
    bs2::signal<void()> v0, v1; v0.connect(v1); struct Cnt { int *n; void operator()() const { ++*n; } }; int n = 0; Cnt c = {&n}; v1.connect(c); v0(); v0.connect(v1, bs2::at_front); v0(); CHECK(n == 3, "no arguments");
    bs2::signal<void(int)> t0, t1; bs2::connection k; { bs2::signal<void(int)> in; in.connect(Fn(1)); bs2::signal<void(int)>::slot_type s(in); k = t0.connect(s); t1.connect(s); g_log.clear(); t0(1); t1(2); CHECK(g_log.n == 2, "two outer signals"); } CHECK(!k.connected() && t0.empty() && t1.empty(), "both drop the inner signal"); t0(1); t1(1);
    { bs2::signal<void(int)> in; struct W2 { bs2::signal<void(int)> *s; void operator()(int x) const { (*s)(x); } }; W2 w = {&in}; bs2::signal<void(int)>::slot_type s(w); s.track(in); in.connect(Fn(3)); k = t0.connect(s); g_log.clear(); t0(4); CHECK(g_log.n == 1 && k.connected(), "slot tracking a signal"); } CHECK(!k.connected(), "slot tracking a destroyed signal"); t0(2); sx_reach("end"); }
  fin();
}
// ---- C23
struct Dir { bool rev; explicit Dir(bool r = false) : rev(r) {} bool operator()(int a, int b) const { return rev ? b < a : a < b; } };
struct Mv {
  typedef bs2::signal<int(int), Sum, int, Dir> S; enum { N = 3, MAXC = 12 };
  boost::shared_ptr<S> s[N]; bool nul[N]; int tag[N]; bool rev[N]; int ord[N][MAXC], no[N];     // model, by content
  bs2::connection c[MAXC]; bs2::shared_connection_block b[MAXC]; int m[MAXC], g[MAXC]; bool on[MAXC], blk[MAXC]; int n = 0; S outer; bs2::connection oc[2]; bool ochain[2]; int chained[2];
  Mv() : outer(Sum(0)) { for (int i = 0; i < N; i++) { tag[i] = 10 + i; rev[i] = i == 1; nul[i] = false; no[i] = 0; s[i].reset(new S(Sum(tag[i]), Dir(rev[i]))); } }
  void conn(int i, int where) { if (n >= MAXC || nul[i]) return; int id = n++; bool front = where & 1; m[id] = where >= 2 ? 1 : front ? 0 : 2; g[id] = where / 2; on[id] = true; blk[id] = false; IFn f = {id}; bs2::connect_position p = front ? bs2::at_front : bs2::at_back; c[id] = where >= 2 ? s[i]->connect(g[id], f, p) : s[i]->connect(f, p);
    int *o = ord[i], p2 = 0; for (; p2 < no[i]; p2++) { int y = o[p2]; bool before = m[y] != m[id] ? m[y] < m[id] : m[id] == 1 && g[y] != g[id] ? (g[y] < g[id]) != rev[i] : !front; if (!before) break; } for (int j = no[i]; j > p2; j--) o[j] = o[j - 1]; o[p2] = id; no[i]++; }
  void clear(int i) { for (int p = 0; p < no[i]; p++) on[ord[i][p]] = false; no[i] = 0; for (int k = 0; k < 2; k++) if (chained[k] == i) chained[k] = -1; }
  void xfer(int from, int to) { tag[to] = tag[from]; rev[to] = rev[from]; nul[to] = nul[from]; no[to] = no[from]; for (int p = 0; p < no[from]; p++) ord[to][p] = ord[from][p]; no[from] = 0; nul[from] = true; for (int k = 0; k < 2; k++) if (chained[k] == from) chained[k] = to; }
  void swp(int i, int j) { if (i == j) return; std::swap(tag[i], tag[j]); std::swap(rev[i], rev[j]); std::swap(nul[i], nul[j]); std::swap(no[i], no[j]); for (int p = 0; p < MAXC; p++) std::swap(ord[i][p], ord[j][p]); for (int k = 0; k < 2; k++) { if (chained[k] == i) chained[k] = j; else if (chained[k] == j) chained[k] = i; } }
  void off(int id) { if (!on[id]) return; on[id] = false; for (int i = 0; i < N; i++) for (int p = 0; p < no[i]; p++) if (ord[i][p] == id) { for (int j = p; j + 1 < no[i]; j++) ord[i][j] = ord[i][j + 1]; no[i]--; return; } }
  int want(int i, int x) { unsigned r = tag[i]; for (int p = 0; p < no[i]; p++) if (!blk[ord[i][p]]) r = r * 31u + (unsigned)x + 1000u * (unsigned)ord[i][p]; return (int)r; }
  void check() {
    for (int i = 0; i < N; i++) if (s[i]) { CHECK(s[i]->null() == nul[i], "null()"); CHECK((int)s[i]->num_slots() == no[i] && s[i]->empty() == (no[i] == 0), "num_slots after a move or swap"); if (nul[i]) continue; CHECK(s[i]->combiner().tag == tag[i], "the combiner moves along"); g_log.clear(); CHECK((*s[i])(2) == want(i, 2), "result after a move or swap"); int k = 0; for (int p = 0; p < no[i]; p++) if (!blk[ord[i][p]]) { CHECK(g_log.n > k && g_log.id[k] == ord[i][p], "the slots move along, in order"); k++; } CHECK(g_log.n == k, "slots called"); }
    for (int id = 0; id < n; id++) { CHECK(c[id].connected() == on[id], "connected() after a move or swap"); CHECK(c[id].blocked() == (!on[id] || blk[id]), "blocked() after a move or swap"); }
    unsigned r = 0; for (int k = 0; k < 2; k++) { CHECK(oc[k].connected() == (chained[k] >= 0), "chained connections follow the signal"); if (chained[k] >= 0) r = r * 31u + (unsigned)want(chained[k], 6); } CHECK(outer(6) == (int)r, "a chained signal is called in its new place");
  }
};
extern "C" void move_hist() {
  { Mv v; g_hook = 0; int pre = P("pre", 3); chainInit: v.chained[0] = 0; v.chained[1] = 1; v.oc[0] = v.outer.connect(*v.s[0]); v.oc[1] = v.outer.connect(*v.s[1]); for (int k = 0; k < pre; k++) { v.conn(0, k == 0 ? 2 : k == 1 ? 4 : 0); v.conn(1, k == 0 ? 2 : k == 1 ? 4 : 3); } v.b[1] = bs2::shared_connection_block(v.c[1]); v.blk[1] = true; v.check(); int len = P("len", 3);
    for (int k = 0; k < len; k++) {
      switch (pick("op", 8)) {
        case 0: { int i = pick("i", 3), j = pick("j", 3); if (!v.s[i] || !v.s[j]) break; v.s[i]->swap(*v.s[j]); v.swp(i, j); break; }
        case 1: { int i = pick("i", 3), j = pick("j", 3); if (!v.s[i] || !v.s[j]) break; using std::swap; swap(*v.s[i], *v.s[j]); v.swp(i, j); break; }
        case 2: { int i = pick("i", 3), j = pick("j", 3); if (!v.s[i] || !v.s[j]) break; *v.s[i] = std::move(*v.s[j]); if (i != j) { v.clear(i); v.xfer(j, i); } break; }
        case 3: { int i = pick("i", 3), j = pick("j", 3); if (i == j || !v.s[j]) break; boost::shared_ptr<Mv::S> t(new Mv::S(std::move(*v.s[j]))); v.s[i] = t; v.clear(i); v.xfer(j, i); break; }
        case 4: { int i = pick("i", 3); if (v.s[i]) v.conn(i, pick("w", 6)); break; }
        case 5: { int id = pick("d", v.n); v.c[id].disconnect(); v.off(id); break; }
        case 6: { int i = pick("i", 3); v.s[i].reset(); v.clear(i); v.nul[i] = true; break; }
        case 7: { int i = pick("i", 3); if (!v.s[i]) break; if (pick("all", 2)) { v.s[i]->disconnect_all_slots(); for (int p = v.no[i]; p > 0; p--) v.off(v.ord[i][p - 1]); } else { v.s[i]->disconnect(1); for (int id = 0; id < v.n; id++) if (v.on[id] && v.m[id] == 1 && v.g[id] == 1) for (int p = 0; p < v.no[i]; p++) if (v.ord[i][p] == id) { v.off(id); break; } } break; }
      }
      v.check();
    }
    v.b[1].unblock(); v.blk[1] = false; v.check(); sx_reach("end"); }
  fin();
}
// moving a signal that is being invoked through a chain, scoped connections across moves, swaps of signals holding garbage
extern "C" void move_misc() {
  { typedef bs2::signal<void(int)> S; S a, b; bs2::scoped_connection sc(a.connect(Fn(1))); bs2::connection d = a.connect(2, Fn(2)); a.connect(1, Fn(3), bs2::at_front); b.connect(Fn(4)); for (int i = 0; i < 3; i++) { bs2::connection t = a.connect(i, Fn(9)); if (pick("g", 2)) a(0); t.disconnect(); } boost::shared_ptr<int> tr(new int(1)); S::slot_type sl((Fn(5))); sl.track(tr); b.connect(0, sl);
    S c(std::move(a)); CHECK(a.null() && a.num_slots() == 0 && a.empty() && c.num_slots() == 3, "moved from"); a.disconnect_all_slots(); a.disconnect(1); a.disconnect(Fn(1)); c.swap(b); g_log.clear(); b(1); CHECK(g_log.n == 3 && g_log.id[0] == 3 && g_log.id[1] == 2 && g_log.id[2] == 1, "moved slots"); g_log.clear(); c(1); CHECK(g_log.n == 2 && g_log.id[0] == 5 && g_log.id[1] == 4, "swapped slots"); b.connect(1, Fn(6)); b.connect(1, Fn(7), bs2::at_front); g_log.clear(); b(1); CHECK(g_log.n == 5 && g_log.id[0] == 7 && g_log.id[1] == 3 && g_log.id[2] == 6, "groups of a moved signal");
    a = std::move(b); CHECK(b.null() && a.num_slots() == 5 && sc.connected() && d.connected(), "connections survive"); if (pick("drop", 2)) tr.reset(); c = std::move(a); CHECK(a.null() && c.num_slots() == 5, "move assignment replaces"); d.disconnect(); CHECK(c.num_slots() == 4, "disconnect through an old handle"); a = S(); CHECK(!a.null() && a.empty(), "a moved-from signal can be assigned to"); a.connect(Fn(8)); g_log.clear(); a(2); CHECK(g_log.n == 1, "and used"); a.swap(a); g_log.clear(); a(3); CHECK(g_log.n == 1, "self swap"); S *ap = &a; a = std::move(*ap); g_log.clear(); a(3); CHECK(g_log.n == 1, "self move assignment"); sc.disconnect(); CHECK(c.num_slots() == 3, "scoped connection after moves"); CHECK(a == a && !(a == c), "=="); sx_reach("end"); }
  fin();
}
// a signal moved, assigned to, swapped or destroyed by a slot while it is being invoked through another signal
static ISig *g_a, *g_b; static boost::shared_ptr<ISig> g_m; static int g_mv, g_at; static bool g_moved; static boost::shared_ptr<ISig> g_pa, g_pb;
static void hookMove(int id, int) { if (id != g_at || g_moved) return; g_moved = true; switch (g_mv) { case 0: *g_pa = std::move(*g_pb); break; case 1: *g_pb = std::move(*g_pa); break; case 2: g_pa->swap(*g_pb); break; case 3: g_m.reset(new ISig(std::move(*g_pa))); break; case 4: { ISig t(std::move(*g_pa)); break; } case 5: *g_pa = ISig(Sum(9)); break; case 6: { using std::swap; swap(*g_pb, *g_pa); g_pb.reset(); break; } case 7: g_pa.reset(); break; } }
extern "C" void move_inflight() {
  { ISig out(Sum(1)); g_pa.reset(new ISig(Sum(2))); g_pb.reset(new ISig(Sum(3))); bs2::connection c[6]; bs2::connection oa[2], ob; g_moved = false; g_mv = pick("mv", 8); g_at = 1 + pick("at", 3);
    IFn f[6] = {{0}, {1}, {2}, {3}, {4}, {5}}; c[1] = g_pa->connect(0, f[1]); c[2] = g_pa->connect(1, f[2]); c[3] = g_pa->connect(f[3]); c[4] = g_pb->connect(f[4]); c[5] = g_pb->connect(2, f[5]); bool twice = pick("twice", 2); bs2::shared_connection_block blk(c[2], pick("blk", 2)); sx_assume(!(blk.blocking() && g_at == 2)); bool held = blk.blocking();
    oa[0] = out.connect(*g_pa); if (twice) oa[1] = out.connect(3, *g_pb); g_hook = hookMove; g_log.clear(); out(6); g_hook = 0; CHECK(g_moved, "the moving slot ran");
    int seen[6] = {0}; for (int k = 0; k < g_log.n; k++) seen[g_log.id[k]]++; for (int i = 1; i <= 3; i++) CHECK(seen[i] == !(i == 2 && held), "an invocation in progress finishes with the slots it started with"); CHECK(seen[4] == twice && seen[5] == twice, "the other signal");
    // where the contents of a and b are now: 0 gone, 1 in *g_pa, 2 in *g_pb, 3 in *g_m
    int A = 1, B = 2; switch (g_mv) { case 0: A = 0; B = 1; break; case 1: A = 2; B = 0; break; case 2: A = 2; B = 1; break; case 3: A = 3; break; case 4: A = 0; break; case 5: A = 0; break; case 6: A = 0; B = 1; break; case 7: A = 0; break; }
    CHECK(oa[0].connected() == (A > 0), "a chained connection follows the contents of its signal"); if (twice) CHECK(oa[1].connected() == (B > 0), "a chained connection follows the contents of its signal"); for (int i = 1; i <= 5; i++) CHECK(c[i].connected() == ((i <= 3 ? A : B) > 0), "connections of an assigned-to signal are disconnected, all others kept"); CHECK(c[2].blocked() == (!A || held), "blocked");
    ISig *at[4] = {0, g_pa.get(), g_pb.get(), g_m.get()}; if (A) { CHECK(at[A]->num_slots() == 3 && at[A]->combiner().tag == 2, "contents moved"); g_log.clear(); (*at[A])(7); CHECK(g_log.n == 3 - held && g_log.id[0] == 1, "slots moved"); } if (B) { CHECK(at[B]->num_slots() == 2 && at[B]->combiner().tag == 3, "contents moved"); g_log.clear(); (*at[B])(7); CHECK(g_log.n == 2 && g_log.id[0] == 5, "slots moved"); }
    g_log.clear(); out(8); CHECK(g_log.n == (A ? 3 - held : 0) + (twice && B ? 2 : 0), "later invocations of the outer signal"); if (g_pa && g_mv == 5) CHECK(g_pa->combiner().tag == 9 && g_pa->empty(), "assigned"); g_pa.reset(); g_pb.reset(); g_m.reset(); CHECK(out.empty(), "all gone"); for (int i = 1; i < 6; i++) CHECK(!c[i].connected(), "gone"); sx_reach("end"); }
  fin();
}
