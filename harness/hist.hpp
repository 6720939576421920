// A bounded symbolic history of operations on one signal, next to a plain
// array model of what the documentation promises.
#pragma once
#include "common.hpp"
#include <functional>
#include <boost/utility/in_place_factory.hpp>
enum OpKind { O_UB, O_UF, O_GB, O_GF, O_HD, O_GD, O_AD, O_FD, O_BL, O_UN, O_INV, O_NOPS };
enum { BIT_UB = 1 << O_UB, BIT_UF = 1 << O_UF, BIT_GB = 1 << O_GB, BIT_GF = 1 << O_GF, BIT_HD = 1 << O_HD, BIT_GD = 1 << O_GD, BIT_AD = 1 << O_AD, BIT_FD = 1 << O_FD, BIT_BL = 1 << O_BL, BIT_UN = 1 << O_UN, BIT_INV = 1 << O_INV };
template <class Compare, class Combiner = bs2::optional_last_value<void> > struct History {
  typedef bs2::signal<void(int), Combiner, int, Compare> Sig;
  enum { MAX = 12 };
  Sig sig; Compare cmp;
  int n = 0;                                   // connections made so far
  bs2::connection con[MAX]; bs2::shared_connection_block blk[MAX];
  bool live[MAX]; int blocks[MAX]; int kind[MAX]; int grp[MAX]; int fid[MAX];  // kind 0 front, 1 grouped, 2 back
  int ord[MAX]; int no = 0;                    // ids in call order (only live ones)
  int glo = -8, ghi = 7;                       // range of the symbolic groups
  bool dupFns = false, handleCheck = true, trackPick = false; boost::shared_ptr<int> own;
  explicit History(const Compare &c, const Combiner &cb = Combiner()) : sig(cb, c), cmp(c) {}
  // -1: a before b's bucket, 0 same bucket, 1 after
  int bucket(int a, int b) {
    if (kind[a] != kind[b]) return kind[a] < kind[b] ? -1 : 1;
    if (kind[a] != 1) return 0;
    if (cmp(grp[a], grp[b])) return -1; if (cmp(grp[b], grp[a])) return 1; return 0;
  }
  void modelInsert(int i, bool front) {
    int p = 0;
    if (front) while (p < no && bucket(ord[p], i) < 0) p++;
    else while (p < no && bucket(ord[p], i) <= 0) p++;
    for (int k = no; k > p; k--) ord[k] = ord[k - 1];
    ord[p] = i; no++;
  }
  void modelRemove(int i) { for (int p = 0; p < no; p++) if (ord[p] == i) { for (int k = p; k + 1 < no; k++) ord[k] = ord[k + 1]; no--; return; } }
  void drop(int i) { if (live[i]) { live[i] = false; modelRemove(i); } }
  void connect(int k, bool front, int g) {
    int i = n++; live[i] = true; blocks[i] = 0; kind[i] = k; grp[i] = g; fid[i] = i;
    if (dupFns) fid[i] = pick("fn", 2);
    if (trackPick) { int t = pick("trk", 3); if (t) { if (!own) own.reset(new int(5)); connectTracked(i, k, front, g, t); modelInsert(i, front); return; } }
    Fn f(fid[i]);
    if (k == 1) { if (front) con[i] = sig.connect(g, f, bs2::at_front); else con[i] = sig.connect(g, f); }
    else if (k == 0) con[i] = sig.connect(f, bs2::at_front);
    else con[i] = sig.connect(f);
    modelInsert(i, front);
  }
  // the slot tracks an object that lives as long as the signal, once or twice
  void connectTracked(int i, int k, bool front, int g, int t) {
    typename Sig::slot_type sl((Fn(fid[i]))); sl.track(own); if (t == 2) { boost::weak_ptr<void> w(own); sl.track(w); }
    bs2::connect_position p = front ? bs2::at_front : bs2::at_back; con[i] = k == 1 ? sig.connect(g, sl, p) : sig.connect(sl, p);
  }
  void connectPos(int k, bool front, int g) {   // every combination of position and grouping
    connect(k, front, g);
  }
  int invs = 0;
  void call(int x) { if (invs++ & 1) { const Sig &c = sig; c(x); } else sig(x); }      // both overloads of operator()
  void invokeAndCheck(int x) {
    g_log.clear(); call(x);
    int w = 0; int want[MAX];
    for (int p = 0; p < no; p++) if (!blocks[ord[p]]) want[w++] = ord[p];
    CHECK(g_log.n == w, "number of slots called differs from the connected unblocked slots");
    for (int k = 0; k < w; k++) { CHECK(g_log.id[k] == fid[want[k]], "slots called out of the documented order"); CHECK(g_log.arg[k] == x, "slot called with a wrong argument"); }
    sx_trace(100, g_log.n); for (int k = 0; k < g_log.n; k++) sx_trace(101, g_log.id[k]);
  }
  void checkState() {
    CHECK(sig.num_slots() == (std::size_t)no, "num_slots differs from the number of connected slots");
    CHECK(sig.empty() == (no == 0), "empty() differs from the absence of connected slots");
    if (handleCheck) for (int i = 0; i < n; i++) {
      CHECK(con[i].connected() == live[i], "connection::connected() is wrong");
      CHECK(con[i].blocked() == (!live[i] || blocks[i] > 0), "connection::blocked() is wrong");
    }
  }
  void step(int op) {
    switch (op) {
      case O_UB: connect(2, false, 0); break;
      case O_UF: connect(0, true, 0); break;
      case O_GB: connect(1, false, (int)sx_int("g", glo, ghi)); break;
      case O_GF: connect(1, true, (int)sx_int("g", glo, ghi)); break;
      case O_HD: { sx_assume(n > 0); int i = pick("h", n); con[i].disconnect(); drop(i); break; }
      case O_GD: { int g = (int)sx_int("dg", glo, ghi); sig.disconnect(g);
        for (int i = 0; i < n; i++) if (live[i] && kind[i] == 1 && !cmp(g, grp[i]) && !cmp(grp[i], g)) drop(i); break; }
      case O_AD: sig.disconnect_all_slots(); for (int i = 0; i < n; i++) drop(i); break;
      case O_FD: { int f = pick("df", dupFns ? 2 : MAX); sig.disconnect(Fn(f)); for (int i = 0; i < n; i++) if (fid[i] == f) drop(i); break; }
      case O_BL: { sx_assume(n > 0); int i = pick("b", n); if (!blk[i].blocking()) { if (blocks[i] == 0) blk[i] = bs2::shared_connection_block(con[i]); else blk[i].block(); blocks[i] = 1; } break; }
      case O_UN: { sx_assume(n > 0); int i = pick("u", n); blk[i].unblock(); blocks[i] = 0; break; }
      case O_INV: invokeAndCheck((int)sx_int("x", -2147483647 - 1, 2147483647)); break;
    }
  }
  void run(int len, int mask, bool checkEach) {
    int ops[O_NOPS], m = 0; for (int o = 0; o < O_NOPS; o++) if (mask >> o & 1) ops[m++] = o;
    for (int s = 0; s < len; s++) { step(ops[pick("op", m)]); if (checkEach) checkState(); }
    checkState(); invokeAndCheck((int)sx_int("x", -2147483647 - 1, 2147483647)); checkState();
  }
};
