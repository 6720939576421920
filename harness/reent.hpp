// What slots do to their own signal while it is being invoked.
// The model keeps, per invocation in progress, the slot list it started with
// and checks every call against it as it happens.
#pragma once
#include "hist.hpp"
// a combiner that notices being replaced or destroyed while it runs
struct TagComb {
  typedef void result_type; int tag; static int made;
  explicit TagComb(int t = 0) : tag(t) { made++; } TagComb(const TagComb &o) : tag(o.tag) { made++; } TagComb &operator=(const TagComb &o) { tag = o.tag; return *this; } ~TagComb() { made--; tag = -1; }
  template <class It> void operator()(It a, It b) const;
};
int TagComb::made = 0;
typedef std::less<int> Less;
struct Frame { int snap[12]; int n, pos, x, tag, cur; bool stopped; };
struct Boom { int v; };
struct Re : History<Less, TagComb> {
  Frame fr[4]; bool mayStop = false; int depth = 0, acts = 0, maxDepth = 2, mask = 0, curTag = 0, thrown = 0, caught = 0; void (*onEntry)(int) = 0;
  Re() : History<Less, TagComb>(Less()) {}
  bool callable(int i) { return live[i] && !blocks[i]; }
  void invoke(int x) {
    Frame &f = fr[depth++]; f.n = no; f.pos = 0; f.x = x; f.tag = curTag; f.cur = -1; f.stopped = false; for (int k = 0; k < no; k++) f.snap[k] = ord[k];
    int d = depth; bool fin = true;
    try { call(x); }
    catch (const Boom &b) { fin = false; CHECK(thrown > 0 && b.v == thrown, "another exception than the one thrown"); CHECK(depth >= d, "frames"); depth = d; int v = b.v; depth--; if (depth > 0 && pick("pass", 2)) throw; caught++; thrown = 0; return; }
    catch (const bs2::expired_slot &) { CHECK(0, "expired_slot reaches the caller although the combiner handles it"); }
    CHECK(fin && depth == d, "frames"); 
    if (!f.stopped) for (int k = f.pos; k < f.n; k++) CHECK(!callable(f.snap[k]), "an invocation missed a slot that was connected throughout");
    depth--;
  }
  void onCall(int id, int x) {
    Frame &f = fr[depth - 1]; CHECK(x == f.x, "wrong argument"); int k = f.pos; while (k < f.n && !callable(f.snap[k])) k++;
    CHECK(k < f.n, "an invocation calls a slot that was disconnected, blocked, or connected after it began"); CHECK(f.snap[k] == id, "an invocation calls a slot out of turn"); f.pos = k + 1; f.cur = id; struct Ret { Frame &f; ~Ret() { f.cur = -1; } } ret = {f}; if (onEntry) onEntry(id);
    if (acts <= 0) return;
    act(id);
  }
  void act(int self);
};
static Re *R;
template <class It> void TagComb::operator()(It a, It b) const {
  int t = tag; CHECK(t == R->fr[R->depth - 1].tag, "the invocation does not use the combiner in effect when it started");
  for (; a != b; ++a) { try { *a; } catch (const bs2::expired_slot &) { } CHECK(tag == t, "the combiner changed while it was running"); if (R->mayStop && R->acts > 0 && pick("stop", 2)) { R->acts--; R->fr[R->depth - 1].stopped = true; return; } }
}
enum { A_UB, A_UF, A_GB, A_GF, A_DSELF, A_D, A_DG, A_DALL, A_DF, A_BLK, A_UNB, A_QRY, A_COMB, A_INV, A_N, A_THROW, A_EXP, A_DTHROW, A_DEXP, A_ALL };
#define M(x) (1 << (x))
void Re::act(int self) {
  int ops[A_ALL], m = 0; for (int o = 0; o < A_ALL; o++) if (mask >> o & 1) ops[m++] = o;
  int k = pick("act", m + 1); if (k == m) return; acts--;
  int o = ops[k];
  switch (o) {
    case A_UB: if (n < MAX) connect(2, false, 0); break;
    case A_UF: if (n < MAX) connect(0, true, 0); break;
    case A_GB: if (n < MAX) connect(1, false, (int)sx_int("g", glo, ghi)); break;
    case A_GF: if (n < MAX) connect(1, true, (int)sx_int("g", glo, ghi)); break;
    case A_DSELF: con[self].disconnect(); drop(self); CHECK(!con[self].connected(), "connected() inside the slot"); break;
    case A_D: { int i = pick("d", n); con[i].disconnect(); drop(i); break; }
    case A_DG: { int g = (int)sx_int("dg", glo, ghi); sig.disconnect(g); for (int i = 0; i < n; i++) if (live[i] && kind[i] == 1 && grp[i] == g) drop(i); break; }
    case A_DALL: sig.disconnect_all_slots(); for (int i = 0; i < n; i++) drop(i); break;
    case A_DF: { int i = pick("df", n); sig.disconnect(Fn(i)); drop(i); break; }
    case A_BLK: { int i = pick("b", n); if (!blk[i].blocking()) { blk[i] = bs2::shared_connection_block(con[i]); blocks[i] = 1; } break; }
    case A_UNB: { int i = pick("u", n); blk[i].unblock(); blocks[i] = 0; break; }
    case A_QRY: checkState(); break;
    case A_COMB: sig.set_combiner(TagComb(++curTag)); CHECK(sig.combiner().tag == curTag, "combiner() after set_combiner"); break;
    case A_THROW: thrown++; { Boom b = {thrown}; throw b; }
    case A_EXP: drop(self); throw bs2::expired_slot();      // the library disconnects the slot
    case A_DTHROW: { int i = pick("dt", n); con[i].disconnect(); drop(i); thrown++; Boom b = {thrown}; throw b; }
    case A_DEXP: { int i = pick("dt", n); con[i].disconnect(); drop(i); drop(self); throw bs2::expired_slot(); }
    case A_INV: if (depth < maxDepth) invoke(100 + acts); break;
  }
}
