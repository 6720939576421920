#include "hist.hpp"
typedef std::less<int> Less; typedef std::greater<int> Greater;
struct Dir { int flip; explicit Dir(int f = 0) : flip(f) {} bool operator()(int a, int b) const { return flip ? b < a : a < b; } };
typedef bool (*CmpPtr)(int, int);
static bool ptrGreater(int a, int b) { return a > b; }
// ---- C01
extern "C" void order_less() { { History<Less> h((Less())); h.run((int)sx_param("len", 4), BIT_UB | BIT_UF | BIT_GB | BIT_GF, false); sx_reach("end"); } CHECK(sx_heap_live() == 0, "memory leaked"); }
extern "C" void order_greater() { { History<Greater> h((Greater())); h.run((int)sx_param("len", 3), BIT_UB | BIT_UF | BIT_GB | BIT_GF, false); sx_reach("end"); } }
extern "C" void order_stateful() { { Dir d((int)sx_concrete(sx_int("flip", 0, 1))); History<Dir> h(d); h.run((int)sx_param("len", 3), BIT_UB | BIT_GB | BIT_GF, false); sx_reach("end"); } }
extern "C" void order_fnptr() { { History<CmpPtr> h(&ptrGreater); h.run((int)sx_param("len", 3), BIT_UB | BIT_GB | BIT_GF, false); sx_reach("end"); } }
// order is kept while members of groups are disconnected and reconnected
extern "C" void order_churn() { { History<Less> h((Less())); h.handleCheck = false; int pre = (int)sx_param("pre", 2); for (int i = 0; i < pre; i++) h.step(pick("pre", 2) ? O_GF : O_GB); h.run((int)sx_param("len", 3), BIT_GB | BIT_GF | BIT_HD | BIT_GD | BIT_INV, false); sx_reach("end"); } }
extern "C" void order_wide() { { History<Less> h((Less())); h.glo = -2147483647 - 1; h.ghi = 2147483647; h.run((int)sx_param("len", 3), BIT_GB | BIT_GF, false); sx_reach("end"); } }
// ---- C02
extern "C" void once_hist() { { History<Less> h((Less())); h.run((int)sx_param("len", 4), BIT_UB | BIT_GB | BIT_HD | BIT_INV | BIT_BL | BIT_UN, true); sx_reach("end"); } CHECK(sx_heap_live() == 0, "memory leaked"); }
extern "C" void once_front() { { History<Less> h((Less())); h.run((int)sx_param("len", 3), BIT_UB | BIT_UF | BIT_GF | BIT_AD | BIT_INV | BIT_HD, true); sx_reach("end"); } }
// many slots, any two of them disconnected or blocked, calls before and after
extern "C" void once_many() {
  { int N = (int)sx_param("n", 12); bs2::signal<void(int)> sig; bs2::connection c[40]; bool on[40], bl[40];
    for (int i = 0; i < N; i++) { c[i] = sig.connect(Fn(i)); on[i] = true; bl[i] = false; }
    if (pick("pre", 2)) { g_log.clear(); sig(1); CHECK(g_log.n == N, "slots called before any change"); }
    int a = pick("a", N), b = pick("b", N); c[a].disconnect(); on[a] = false;
    bs2::shared_connection_block blk(c[b]); bl[b] = true;
    int k = pick("k", 3); if (k == 1) sig(0); if (k == 2) { c[(a + 1) % N].disconnect(); on[(a + 1) % N] = false; }
    c[N] = sig.connect(Fn(N)); on[N] = true; bl[N] = false;
    for (int r = 0; r < 3; r++) {
      g_log.clear(); sig(5 + r); int w = 0, live = 0;
      for (int i = 0; i <= N; i++) { live += on[i]; if (on[i] && !bl[i]) { CHECK(g_log.id[w] == i, "wrong slot called"); CHECK(g_log.arg[w] == 5 + r, "wrong argument"); w++; } }
      CHECK(g_log.n == w, "a slot was skipped or called twice"); CHECK(sig.num_slots() == (std::size_t)live, "num_slots"); CHECK(!sig.empty(), "empty");
    }
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C03
extern "C" void disc_hist() { { History<Less> h((Less())); h.run((int)sx_param("len", 4), BIT_UB | BIT_GB | BIT_HD | BIT_GD | BIT_INV, true); sx_reach("end"); } }
extern "C" void disc_fn() { { History<Less> h((Less())); h.dupFns = true; h.run((int)sx_param("len", 3), BIT_UB | BIT_GB | BIT_HD | BIT_FD | BIT_AD, true); sx_reach("end"); } }
extern "C" void disc_group() { { History<Less> h((Less())); for (int i = 0; i < (int)sx_param("pre", 3); i++) h.step(pick("pre", 3) == 0 ? O_UB : O_GB); h.run((int)sx_param("len", 2), BIT_GD | BIT_GB | BIT_HD, true); sx_reach("end"); } }
extern "C" void disc_greater() { { Dir d((int)sx_concrete(sx_int("flip", 0, 1))); History<Dir> h(d); for (int i = 0; i < 2; i++) h.step(O_GB); h.run((int)sx_param("len", 2), BIT_GD | BIT_GB | BIT_UB, true); sx_reach("end"); } }
// extended slots and plain slots mixed, equal functions connected several times, disconnected by function
struct Ext { int id; void operator()(const bs2::connection &, int x) const { g_log.add(10 + id, x); } bool operator==(const Ext &o) const { return id == o.id; } };
extern "C" void disc_ext() {
  { enum { MAX = 5 }; typedef bs2::signal<void(int)> Sig; Sig sig; int n = (int)sx_param("n", 3); bs2::connection c[MAX]; int id[MAX]; bool ext[MAX], on[MAX], grp[MAX];
    for (int i = 0; i < n; i++) { ext[i] = pick("ext", 2); id[i] = pick("fn", 2); grp[i] = pick("grp", 2); on[i] = true;
      if (ext[i]) { Ext e = {id[i]}; c[i] = grp[i] ? sig.connect_extended(3, Sig::extended_slot_type(e)) : sig.connect_extended(Sig::extended_slot_type(e)); } else { Fn f(id[i]); c[i] = grp[i] ? sig.connect(3, f) : sig.connect(f); } }
    int len = (int)sx_param("len", 2);
    for (int k = 0; k < len; k++) {
      switch (pick("op", 4)) {
        case 0: { Ext e = {pick("de", 2)}; sig.disconnect(e); for (int i = 0; i < n; i++) if (ext[i] && id[i] == e.id) on[i] = false; break; }
        case 1: { int f = pick("df", 2); sig.disconnect(Fn(f)); for (int i = 0; i < n; i++) if (!ext[i] && id[i] == f) on[i] = false; break; }
        case 2: { int i = pick("h", n); c[i].disconnect(); on[i] = false; break; }
        case 3: sig.disconnect(3); for (int i = 0; i < n; i++) if (grp[i]) on[i] = false; break;
      }
      for (int i = 0; i < n; i++) CHECK(c[i].connected() == on[i], "connected()");
    }
    g_log.clear(); sig(2); int w = 0;
    for (int p = 0; p < 2; p++) for (int i = 0; i < n; i++) if (on[i] && grp[i] == !p) { CHECK(w < g_log.n && g_log.id[w] == id[i] + (ext[i] ? 10 : 0), "wrong slots called after disconnecting by function"); w++; }
    CHECK(g_log.n == w, "calls"); CHECK(sig.num_slots() == (std::size_t)w, "num_slots"); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
static int g_fp[3]; static void fp0(int) { g_fp[0]++; } static void fp1(int) { g_fp[1]++; }
struct Obj { int n; void operator()(int) { n++; } };
inline bool operator==(const Obj &a, const Obj &b) { return &a == &b; }
// function pointers, references, expired handles, handles that outlive the signal, copies of handles
extern "C" void disc_kinds() {
  { typedef bs2::signal<void(int)> Sig; Sig *s = new Sig; Obj o; o.n = 0; g_fp[0] = g_fp[1] = 0;
    bs2::connection c[5]; c[0] = s->connect(&fp0); c[1] = s->connect(&fp1); c[2] = s->connect(boost::ref(o)); c[3] = s->connect(3, &fp0); c[4] = s->connect(Fn(4));
    bool on[5] = {true, true, true, true, true}; bs2::connection copy[5]; for (int i = 0; i < 5; i++) copy[i] = c[i];
    int len = (int)sx_param("len", 2);
    for (int k = 0; k < len; k++) {
      switch (pick("op", 8)) {
        case 0: s->disconnect(&fp0); on[0] = on[3] = false; break;
        case 1: s->disconnect(&fp1); on[1] = false; break;
        case 2: s->disconnect(boost::ref(o)); on[2] = false; break;
        case 3: s->disconnect(3); on[3] = false; break;
        case 4: copy[4].disconnect(); on[4] = false; break;
        case 5: (*s)(1); break;
        case 6: s->disconnect(4); break;           // no such group
        case 7: { bs2::connection d; d.disconnect(); CHECK(!d.connected(), "default connection is connected"); c[2].disconnect(); c[2].disconnect(); on[2] = false; break; }
      }
      for (int i = 0; i < 5; i++) { CHECK(c[i].connected() == on[i], "connected()"); CHECK(copy[i].connected() == on[i], "connected() of a copy"); }
    }
    g_fp[0] = g_fp[1] = 0; o.n = 0; g_log.clear(); (*s)(2);
    CHECK(g_fp[0] == on[0] + on[3] && g_fp[1] == on[1] && o.n == on[2] && g_log.n == on[4], "calls after disconnecting");
    delete s;
    for (int i = 0; i < 5; i++) { CHECK(!c[i].connected(), "connected after the signal is gone"); c[i].disconnect(); copy[i].disconnect(); }
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// ---- C04
extern "C" void block_hist() { { History<Less> h((Less())); h.run((int)sx_param("len", 4), BIT_UB | BIT_GB | BIT_HD | BIT_BL | BIT_UN | BIT_INV, true); sx_reach("end"); } }
struct BlockPool {
  typedef bs2::signal<void(int)> Sig; enum { NB = 3, NC = 2 };
  boost::optional<Sig> sig; bs2::connection con[NC]; bool live[NC]; boost::optional<bs2::shared_connection_block> b[NB]; int tgt[NB]; bool hold[NB];
  BlockPool() { sig = boost::in_place(); for (int i = 0; i < NC; i++) { con[i] = sig->connect(Fn(i)); live[i] = true; } for (int i = 0; i < NB; i++) { tgt[i] = -1; hold[i] = false; } }
  void check() {
    for (int i = 0; i < NB; i++) if (b[i]) { CHECK(b[i]->blocking() == hold[i], "blocking() wrong"); if (tgt[i] >= 0) CHECK(b[i]->connection() == con[tgt[i]], "connection() wrong"); else CHECK(!b[i]->connection().connected(), "connection() of a block without one"); }
    for (int c = 0; c < NC; c++) { bool h = false; for (int i = 0; i < NB; i++) if (b[i] && hold[i] && tgt[i] == c) h = true; CHECK(con[c].blocked() == (!live[c] || h), "connection::blocked() wrong"); CHECK(con[c].connected() == live[c], "connected() wrong"); }
    if (sig) { g_log.clear(); (*sig)(1); int w = 0; for (int c = 0; c < NC; c++) { bool h = false; for (int i = 0; i < NB; i++) if (b[i] && hold[i] && tgt[i] == c) h = true; if (live[c] && !h) { CHECK(w < g_log.n && g_log.id[w] == c, "a slot that is not blocked was not called in its place"); w++; } } CHECK(g_log.n == w, "a blocked slot was called"); }
  }
  void step() {
    switch (pick("op", 8)) {
      case 0: { int i = pick("i", NB), c = pick("c", NC + 1); bool ib = pick("ib", 2); b[i] = boost::none; if (c < NC) b[i] = bs2::shared_connection_block(con[c], ib); else b[i] = bs2::shared_connection_block(bs2::connection(), ib); tgt[i] = c < NC ? c : -1; hold[i] = ib; break; }
      case 1: { int i = pick("i", NB), j = pick("j", NB); sx_assume(b[j] && i != j); b[i] = boost::none; b[i] = boost::in_place(boost::cref(*b[j])); tgt[i] = tgt[j]; hold[i] = hold[j]; break; }
      case 2: { int i = pick("i", NB), j = pick("j", NB); sx_assume(b[j] && b[i]); *b[i] = *b[j]; tgt[i] = tgt[j]; hold[i] = hold[j]; break; }
      case 3: { int i = pick("i", NB); sx_assume(!!b[i]); b[i]->block(); hold[i] = true; break; }
      case 4: { int i = pick("i", NB); sx_assume(!!b[i]); b[i]->unblock(); hold[i] = false; break; }
      case 5: { int i = pick("i", NB); sx_assume(!!b[i]); b[i] = boost::none; hold[i] = false; break; }
      case 6: { int c = pick("c", NC); con[c].disconnect(); live[c] = false; break; }
      case 7: sig = boost::none; for (int c = 0; c < NC; c++) live[c] = false; break;
    }
  }
};
extern "C" void block_pool() { { BlockPool p; int len = (int)sx_param("len", 3); for (int k = 0; k < len; k++) { p.step(); if (k + 1 < len && (int)sx_param("each", 0)) p.check(); } p.check(); sx_reach("end"); } CHECK(sx_heap_live() == 0, "memory leaked"); }
// many blocks on one connection: blocked exactly while any of them blocks
extern "C" void block_many() {
  { enum { NB = 5 }; bs2::signal<void(int)> sig; bs2::connection c = sig.connect(Fn(0)); int nb = (int)sx_param("nb", 4); boost::optional<bs2::shared_connection_block> b[NB]; bool hold[NB];
    for (int i = 0; i < nb; i++) { hold[i] = pick("hold", 2); b[i] = bs2::shared_connection_block(c, hold[i]); }
    int len = (int)sx_param("len", 3);
    for (int k = 0; k <= len; k++) {
      bool any = false; for (int i = 0; i < nb; i++) { any |= hold[i]; if (b[i]) CHECK(b[i]->blocking() == hold[i], "blocking()"); }
      CHECK(c.blocked() == any, "blocked() although no block is held, or not blocked although one is"); g_log.clear(); sig(k); CHECK(g_log.n == !any, "a blocked slot was called, or an unblocked one was not");
      if (k == len) break;
      int i = pick("i", nb); sx_assume(!!b[i]);
      switch (pick("op", 4)) { case 0: b[i]->block(); hold[i] = true; break; case 1: b[i]->unblock(); hold[i] = false; break; case 2: b[i] = boost::none; hold[i] = false; break; case 3: { int j = pick("j", nb); sx_assume(b[j] && i != j); *b[i] = *b[j]; hold[i] = hold[j]; break; } }
    }
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
// groups emptied and refilled: each removed record is collected at once
extern "C" void order_refill() {
  { History<Less> h((Less())); h.handleCheck = false; h.glo = 0; h.ghi = (int)sx_param("groups", 2) - 1; int pre = (int)sx_param("pre", 3), drop = (int)sx_param("drop", 2), post = (int)sx_param("post", 2);
    for (int i = 0; i < pre; i++) h.connect(1, false, pick("g", h.ghi + 1));
    for (int i = 0; i < drop; i++) { int k = pick("h", pre); sx_assume(h.live[k]); h.con[k].disconnect(); h.drop(k); h.invokeAndCheck(i); }
    for (int i = 0; i < post; i++) { int f = pick("f", 2); h.connect(1, f, pick("g", h.ghi + 1)); h.invokeAndCheck(i); }
    h.checkState(); sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
