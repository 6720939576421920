// C09, C10: combiners.
#include "common.hpp"
#include <boost/signals2/last_value.hpp>
#include <string>
static int g_ret[16], g_beh[16], g_calls[16];
struct Boom { int v; };
struct RFn { int id; int operator()(int x) const { g_log.add(id, x); g_calls[id]++; if (g_beh[id] == 1) throw bs2::expired_slot(); if (g_beh[id] == 2) throw Boom{id}; return g_ret[id]; } };
struct VFn { int id; void operator()(int x) const { g_log.add(id, x); g_calls[id]++; if (g_beh[id] == 1) throw bs2::expired_slot(); if (g_beh[id] == 2) throw Boom{id}; } };
static int sym(const char *n) { return (int)sx_int(n, -2147483647 - 1, 2147483647); }
// ---- C09: a combiner that pulls in an arbitrary pattern
static int g_pos_slot[16], g_npos, g_budget, g_x, g_exp[16];
struct Puller {
  typedef long result_type; long tag; explicit Puller(long t = 0) : tag(t) {}
  template <class It> long operator()(It first, It last) const {
    int p = 0; bool called = false;
    CHECK(g_log.n == 0, "a slot ran before the combiner asked for it");
    for (int k = 0; k < g_budget; k++) {
      bool end = first == last; CHECK(end == (p >= g_npos), "the range does not end after the last callable slot"); CHECK((first != last) == !end, "!= disagrees with ==");
      if (end) break;
      int id = g_pos_slot[p], n = g_log.n;
      switch (pick("pull", 6)) {
        case 0: { int v = *first; CHECK(v == g_ret[id], "dereferencing does not give the slot's result"); CHECK(g_log.n == n + !called, "dereference runs the slot exactly once per position"); CHECK(g_log.id[g_log.n - 1] == id && g_log.arg[g_log.n - 1] == g_x, "wrong slot or argument"); called = true; break; }
        case 1: ++first; p++; CHECK(g_log.n == n, "advancing runs a slot"); called = false; break;
        case 2: { int v = *first, u = *first; CHECK(u == v && v == g_ret[id], "two dereferences disagree"); CHECK(g_log.n == n + !called, "second dereference runs the slot again"); called = true; break; }
        case 3: { It c(first); int v = *c; CHECK(v == g_ret[id] && *first == v, "copy of the iterator sees another result"); CHECK(g_log.n == n + !called, "copy of the iterator runs the slot again"); CHECK(c == first, "copy equal"); called = true; break; }
        case 4: { int v = *first++; CHECK(v == g_ret[id], "*it++ result"); CHECK(g_log.n == n + !called, "*it++ runs the slot once"); p++; called = false; break; }
        case 5: return tag + 1000 + p;
      }
    }
    return tag + p;
  }
};
extern "C" void pull() {
  { int N = 1 + pick("n", (int)sx_param("n", 3)); bs2::signal<int(int), Puller> sig((Puller(5))); bs2::connection c[8]; bs2::shared_connection_block b[8]; g_npos = 0;
    for (int i = 0; i < N; i++) { c[i] = sig.connect(RFn{i}); g_ret[i] = sym("r"); }
    for (int i = 0; i < N; i++) { int s = pick("st", 3); if (s == 1) c[i].disconnect(); else if (s == 2) b[i] = bs2::shared_connection_block(c[i]); else g_pos_slot[g_npos++] = i; }
    g_budget = (int)sx_param("budget", 5); g_x = sym("x"); g_log.clear(); long r = sig(g_x);
    CHECK(r >= 5 && (r <= 5 + g_npos || (r >= 1005 && r <= 1005 + g_npos)), "the combiner's value is not the value of the invocation");
    g_log.clear(); g_budget = 0; const bs2::signal<int(int), Puller> &cs = sig; CHECK(cs(1) == 5, "const call"); CHECK(g_log.n == 0, "slots run without being asked for");
    CHECK(sig.combiner().tag == 5, "combiner()"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// void slots under a combiner with a result; result types that own memory
struct VoidPull { typedef int result_type; template <class It> int operator()(It a, It b) const { int k = 0; for (; a != b; ++a) { if (pick("do", 2)) { *a; *a; k++; } } return k; } };
extern "C" void pull_void() {
  { int N = 1 + pick("n", 3); bs2::signal<void(int), VoidPull> sig; for (int i = 0; i < N; i++) { sig.connect(VFn{i}); g_calls[i] = 0; } g_log.clear(); int r = sig(3); CHECK(r == g_log.n, "void slots called once per position"); for (int i = 0; i < N; i++) CHECK(g_calls[i] <= 1, "a void slot ran twice"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
struct Big { int *p; Big() : p(new int(-1)) {} explicit Big(int v) : p(new int(v)) {} Big(const Big &o) : p(new int(*o.p)) {} Big &operator=(const Big &o) { *p = *o.p; return *this; } ~Big() { delete p; } };
struct BFn { int id; Big operator()() const { g_log.add(id, 0); return Big(g_ret[id]); } };
struct SumBig { typedef Big result_type; template <class It> Big operator()(It a, It b) const { Big s(0); for (; a != b; ++a) if (pick("take", 2)) *s.p += *(*a).p + *a->p * 0; return s; } };
extern "C" void pull_owning() {
  { int N = pick("n", 4); bs2::signal<Big(), SumBig> sig; int want = 0; for (int i = 0; i < N; i++) { g_ret[i] = (int)sx_int("r", -1000, 1000); sig.connect(BFn{i}); } g_log.clear(); Big r = sig(); for (int k = 0; k < g_log.n; k++) want += g_ret[g_log.id[k]]; CHECK(*r.p == want, "sum of the results pulled"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// combiner without result; stateful combiner; slots returning references
struct NoResult { typedef void result_type; int *n; explicit NoResult(int *p = 0) : n(p) {} template <class It> void operator()(It a, It b) const { for (; a != b; ++a) { *a; ++*n; } } };
struct Count { typedef int result_type; int k; explicit Count(int s = 0) : k(s) {} template <class It> int operator()(It a, It b) { for (; a != b; ++a) k += *a; return k; } };
static int g_cell[4]; struct RefFn { int id; int &operator()() const { g_log.add(id, 0); return g_cell[id]; } };
struct LastRef { typedef int *result_type; template <class It> int *operator()(It a, It b) const { int *p = 0; for (; a != b; ++a) { int &r = *a; p = &r; r++; } return p; } };
extern "C" void pull_kinds() {
  { int n = 0; bs2::signal<int(int), NoResult> s1((NoResult(&n))); int N = pick("n", 4); for (int i = 0; i < N; i++) { s1.connect(RFn{i}); g_ret[i] = (int)sx_int("r", -1000, 1000); } g_log.clear(); s1(1); CHECK(n == N && g_log.n == N, "void combiner");
    bs2::signal<int(int), Count> s2((Count(7))); int w = 7; for (int i = 0; i < N; i++) { s2.connect(RFn{i}); w += g_ret[i]; } CHECK(s2(1) == w, "value of the invocation");
    bs2::signal<int &(), LastRef> s3; for (int i = 0; i < N; i++) { s3.connect(RefFn{i}); g_cell[i] = 0; } int *p = s3(); CHECK(p == (N ? &g_cell[N - 1] : 0), "reference results"); for (int i = 0; i < N; i++) CHECK(g_cell[i] == 1, "reference results refer to the slot's object"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C10
enum { ST_LIVE, ST_EXP, ST_BOOM, ST_BLK, ST_DISC, ST_N };
template <class Sig, class F> static void lastv(Sig &sig, int n, bs2::connection *c, bs2::shared_connection_block *b, bool boom, int &lastok, int &ncalled, int &thrower, int *st) {
  lastok = -1; ncalled = 0; thrower = -1;
  for (int i = 0; i < n; i++) { g_beh[i] = 0; g_ret[i] = sym("r"); F f = {i}; c[i] = sig.connect(f); }
  for (int i = 0; i < n; i++) { st[i] = pick("st", ST_N); if (st[i] == ST_BOOM && !boom) sx_assume(0); if (st[i] == ST_EXP) g_beh[i] = 1; if (st[i] == ST_BOOM) g_beh[i] = 2; if (st[i] == ST_BLK) b[i] = bs2::shared_connection_block(c[i]); if (st[i] == ST_DISC) c[i].disconnect(); }
  for (int i = 0; i < n; i++) { if (thrower >= 0 || st[i] == ST_BLK || st[i] == ST_DISC) continue; ncalled++; if (st[i] == ST_LIVE) lastok = i; if (st[i] == ST_BOOM) thrower = i; }
}
static void post(int n, bs2::connection *c, int *st, int thrower, int ncalled) {
  CHECK(g_log.n == ncalled, "number of slots called"); int w = 0;
  for (int i = 0; i < n; i++) { bool called = st[i] != ST_BLK && st[i] != ST_DISC && (thrower < 0 || i <= thrower); if (called) CHECK(g_log.id[w++] == i, "slots called in order"); CHECK(c[i].connected() == !(st[i] == ST_DISC || (called && st[i] == ST_EXP)), "connected() after the call"); }
}
extern "C" void optional_last() {
  { bs2::signal<int(int)> sig; bs2::connection c[8]; bs2::shared_connection_block b[8]; int st[8], ok, nc, th; int n = pick("n", 1 + (int)sx_param("n", 3)); lastv<bs2::signal<int(int)>, RFn>(sig, n, c, b, true, ok, nc, th, st);
    g_log.clear(); int who = -1; boost::optional<int> r; try { r = sig(2); } catch (Boom e) { who = e.v; }
    CHECK(who == th, "another exception than the slot's reaches the caller"); if (th < 0) { CHECK(!!r == (ok >= 0), "result present iff a slot completed"); if (r) CHECK(*r == g_ret[ok], "result of the last completed slot"); } post(n, c, st, th, nc); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void last_val() {
  typedef bs2::signal<int(int), bs2::last_value<int> > S; { S sig; bs2::connection c[8]; bs2::shared_connection_block b[8]; int st[8], ok, nc, th; int n = pick("n", 1 + (int)sx_param("n", 3)); lastv<S, RFn>(sig, n, c, b, true, ok, nc, th, st);
    g_log.clear(); int who = -1; bool none = false; int r = 0; try { r = sig(2); } catch (Boom e) { who = e.v; } catch (const bs2::no_slots_error &) { none = true; }
    CHECK(who == th, "another exception than the slot's reaches the caller"); if (th < 0) { CHECK(none == (ok < 0), "no_slots_error iff no slot completed"); if (!none) CHECK(r == g_ret[ok], "result of the last completed slot"); } post(n, c, st, th, nc); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
template <class S> static void lastvoid() {
  { S sig; bs2::connection c[8]; bs2::shared_connection_block b[8]; int st[8], ok, nc, th; int n = pick("n", 1 + (int)sx_param("n", 3)); lastv<S, VFn>(sig, n, c, b, true, ok, nc, th, st);
    g_log.clear(); int who = -1; try { sig(2); } catch (Boom e) { who = e.v; } CHECK(who == th, "exception"); post(n, c, st, th, nc); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void optional_void() { lastvoid<bs2::signal<void(int)> >(); }
extern "C" void last_void() { lastvoid<bs2::signal<void(int), bs2::last_value<void> > >(); }
extern "C" void last_owning() {   // results that own memory; failing to be copied is C11
  { bs2::signal<Big()> sig; int n = pick("n", 4); for (int i = 0; i < n; i++) { g_ret[i] = sym("r"); sig.connect(BFn{i}); } boost::optional<Big> r = sig(); CHECK(!!r == (n > 0), "present"); if (r) CHECK(*r->p == g_ret[n - 1], "last value");
    bs2::signal<Big(), bs2::last_value<Big> > s2; for (int i = 0; i < n; i++) s2.connect(BFn{i}); bool none = false; try { Big x = s2(); CHECK(*x.p == g_ret[n - 1], "last value"); } catch (const bs2::no_slots_error &) { none = true; } CHECK(none == (n == 0), "no_slots_error"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
