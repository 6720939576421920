// One signal with slots of every flavour (position, group, extended or plain,
// tracked objects of several kinds, equal functions), every operation on it, at
// top level or from inside its slots, next to a plain model of the documentation.
#pragma once
#include "common.hpp"
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>
#include <memory>
enum { NSLOT = 10, NFN = 48, NOBJ = 4 };
static int g_fn[NFN], g_obj[NOBJ];            // live copies of each function, live objects
static void noLock(const char *m) { CHECK(sx_mutexes_held() == 0, m); }
struct World; static World *W;
struct WComb {                                // pulls the results as the world says
  typedef int result_type; int tag, used; static int made;
  explicit WComb(int t = 0) : tag(t), used(0) { made++; } WComb(const WComb &o) : tag(o.tag), used(o.used) { made++; } WComb &operator=(const WComb &o) { tag = o.tag; used = o.used; return *this; } ~WComb() { made--; tag = -1; }
  template <class It> int operator()(It a, It b); template <class It> int operator()(It a, It b) const { return const_cast<WComb *>(this)->operator()(a, b); }
};
int WComb::made = 0;
struct Tk : bs2::trackable { Tk() { g_obj[3]++; } ~Tk() { g_obj[3]--; } };
struct WF {
  int id; explicit WF(int i) : id(i) { g_fn[i]++; } WF(const WF &o) : id(o.id) { g_fn[id]++; } ~WF() { g_fn[id]--; id = -1; noLock("a slot function is destroyed while a library lock is held"); }
  int operator()(int x) const; int operator()(int x, Tk &) const { return (*this)(x); }
  bool operator==(const WF &o) const { return id == o.id; }
};
struct WX { WF f; explicit WX(int i) : f(i) {} int operator()(const bs2::connection &c, int x) const; bool operator==(const WX &o) const { return f == o.f; } };
struct TObj { int k; explicit TObj(int i) : k(i) { g_obj[k]++; } TObj(const TObj &o) : k(o.k) { g_obj[k]++; } ~TObj() { g_obj[k]--; noLock("a tracked object is destroyed while a library lock is held"); } void operator()(int) const {} };
#ifdef W_SIG
typedef W_SIG Sig;
#else
typedef bs2::signal<int(int), WComb> Sig;
#endif
enum { W_CON, W_DH, W_DSELF, W_DG, W_DALL, W_DF, W_DFX, W_BLK, W_UNB, W_REL, W_QRY, W_COMB, W_INV, W_THROW, W_EXP, W_MOVE, W_SCO, W_ALL };
#define B(x) (1 << (x))
enum { PL_UB = 1, PL_UF = 2, PL_GB = 4, PL_GF = 8 };
struct Boom { int v; }; struct StdBoom : std::exception { int v; explicit StdBoom(int x) : v(x) {} }; struct BadW : boost::bad_weak_ptr { int v; explicit BadW(int x) : v(x) {} };
struct WFrame { int snap[NSLOT], n, pos, x, tag, cur, calls, last; bool stopped; };
struct World {
  Sig *sig; bs2::connection con[NSLOT]; bs2::shared_connection_block blk[NSLOT][2];
  bool live[NSLOT], ext[NSLOT]; int kind[NSLOT], grp[NSLOT], fid[NSLOT], trk[NSLOT], n, ord[NSLOT], no;
  boost::shared_ptr<TObj> o0; std::shared_ptr<TObj> o1; boost::shared_ptr<bs2::signal<void(int)> > o2; boost::shared_ptr<Tk> o3; bool owned[NOBJ];
  WFrame fr[4]; int depth, maxDepth, acts, mask, curTag, used, thrown, invs, ng, nfn, ntrk, trks[8]; unsigned places, exts; bool mayStop, maySkip;
  World() : n(0), no(0), o0(new TObj(0)), o1(new TObj(1)), o2(new bs2::signal<void(int)>), o3(new Tk), depth(0), maxDepth(2), acts(0), mask(0), curTag(0), used(0), thrown(0), invs(0), ng(2), nfn(0), ntrk(1), places(PL_UB), exts(0), mayStop(false), maySkip(false) {
    o2->connect(TObj(2)); sig = new Sig; trks[0] = 0; for (int j = 0; j < NOBJ; j++) owned[j] = true; for (int i = 0; i < NSLOT; i++) for (int q = 0; q < 2; q++) blk[i][q].unblock(); W = this; }
  void track(int a, int b = -1, int c = -1, int d = -1) { if (a >= 0) trks[ntrk++] = a; if (b >= 0) trks[ntrk++] = b; if (c >= 0) trks[ntrk++] = c; if (d >= 0) trks[ntrk++] = d; }
  // ---- the model
  int bucket(int a, int b) { if (kind[a] != kind[b]) return kind[a] < kind[b] ? -1 : 1; if (kind[a] != 1 || grp[a] == grp[b]) return 0; return grp[a] < grp[b] ? -1 : 1; }
  void insert(int i, bool front) { int p = 0; if (front) while (p < no && bucket(ord[p], i) < 0) p++; else while (p < no && bucket(ord[p], i) <= 0) p++; for (int k = no; k > p; k--) ord[k] = ord[k - 1]; ord[p] = i; no++; live[i] = true; }
  void drop(int i) { if (!live[i]) return; live[i] = false; for (int p = 0; p < no; p++) if (ord[p] == i) { for (int k = p; k + 1 < no; k++) ord[k] = ord[k + 1]; no--; return; } }
  int blocks(int i) { return blk[i][0].blocking() + blk[i][1].blocking(); }
  bool runs(int i) { for (int d = 0; d < depth; d++) if (fr[d].cur == i) return true; return false; }
  bool held(int j) { for (int d = 0; d < depth; d++) if (fr[d].cur >= 0 && (trk[fr[d].cur] >> j & 1)) return true; return false; }
  // tracked objects live exactly as long as a user or a running slot holds them
  void sync() {
    for (int j = 0; j < NOBJ; j++) {
      if (owned[j]) CHECK(g_obj[j] > 0, "an object with an owner is destroyed");
      else if (j < 3 && held(j)) CHECK(g_obj[j] > 0, "a tracked object is destroyed while a slot that tracks it runs");
      else CHECK(g_obj[j] == 0, "the library keeps a tracked object alive after the call");
      if (g_obj[j] == 0) for (int i = 0; i < n; i++) if (trk[i] >> j & 1) drop(i);
    }
  }
  bool callable(int i) { return live[i] && !blocks(i); }
  // ---- operations
  void connect() {
    if (n >= NSLOT) return;
    int i = n++, place = 0, pm[4], np = 0; for (int k = 0; k < 4; k++) if (places >> k & 1) pm[np++] = k; place = pm[np > 1 ? pick("place", np) : 0];
    ext[i] = exts == 2 || (exts && pick("ext", 2)); int t = trks[ntrk > 1 ? pick("trk", ntrk) : 0]; fid[i] = (nfn ? pick("fn", nfn) : i) + (ext[i] ? 16 : 0); grp[i] = place >= 2 && ng > 1 ? pick("grp", ng) : 0; trk[i] = t; kind[i] = place == 0 ? 2 : place == 1 ? 0 : 1;
    bs2::connect_position p = place & 1 ? bs2::at_front : bs2::at_back; bool g = place >= 2; if (ext[i] && (t & 8)) sx_assume(0); sync(); bool alive = true; for (int j = 0; j < NOBJ; j++) if (t >> j & 1) alive = alive && owned[j]; sx_assume(alive);
    if (ext[i]) { Sig::extended_slot_type s((WX(fid[i]))); trackAll(s, t & 7); con[i] = g ? sig->connect_extended(grp[i], s, p) : sig->connect_extended(s, p); }
    else if (t & 8) { fid[i] += 32; Sig::slot_type s(boost::bind<int>(WF(fid[i]), boost::placeholders::_1, boost::ref(*o3))); trackAll(s, t); con[i] = g ? sig->connect(grp[i], s, p) : sig->connect(s, p); }
    else if (!t) { WF f(fid[i]); con[i] = g ? sig->connect(grp[i], f, p) : sig->connect(f, p); }
    else { Sig::slot_type s((WF(fid[i]))); trackAll(s, t); con[i] = g ? sig->connect(grp[i], s, p) : sig->connect(s, p); }
    insert(i, place & 1);
  }
  template <class S> void trackAll(S &s, int t) { if (t & 1) s.track(o0); if (t & 2) s.track_foreign(o1); if (t & 4) s.track(*o2); }
  void release(int j) { owned[j] = false; if (j == 0) o0.reset(); if (j == 1) o1.reset(); if (j == 2) o2.reset(); if (j == 3) o3.reset(); sync(); }
  void checkComb() { CHECK(sig->combiner().tag == curTag, "combiner() is not the combiner last set"); CHECK(sig->combiner().used == used, "the combiner's state is lost"); }
  void checkState(int first = 0) {
    sync(); checkComb(); if (first == 1) for (int i = 0; i < n; i++) checkBlocked(i); if (first == 2) for (int i = n; i-- > 0;) CHECK(con[i].connected() == live[i], "connection::connected() is wrong"); CHECK(sig->num_slots() == (std::size_t)no, "num_slots differs from the number of connected slots"); CHECK(sig->empty() == (no == 0), "empty() differs from the absence of connected slots");
    for (int i = 0; i < n; i++) { CHECK(con[i].connected() == live[i], "connection::connected() is wrong"); CHECK(con[i].blocked() == (!live[i] || blocks(i) > 0), "connection::blocked() is wrong"); }
    for (int f = 0; f < NFN; f++) { int w = 0; for (int i = 0; i < n; i++) if (fid[i] == f && (live[i] || runs(i))) w++; CHECK(g_fn[f] == w, "function objects other than those of the connected and running slots"); }
    sync();
  }
  void checkBlocked(int i) { CHECK(con[i].blocked() == (!live[i] || blocks(i) > 0), "connection::blocked() is wrong"); }
  void move() {
    switch (pick("mv", 3)) {
      case 0: { Sig *t = new Sig(std::move(*sig)); CHECK(sig->null() && sig->empty() && sig->num_slots() == 0, "moved-from signal"); delete sig; sig = t; break; }
      case 1: { Sig *t = new Sig(WComb(900)); bs2::connection k = t->connect(WF(47)); sig->swap(*t); CHECK(sig->num_slots() == 1 && k.connected(), "swapped signal"); delete sig; CHECK(!k.connected(), "slots of a destroyed signal"); sig = t; break; }
      case 2: { Sig *t = new Sig(WComb(901)); bs2::connection k = t->connect(WF(46)); *t = std::move(*sig); CHECK(!k.connected(), "connection of a move-assigned-to signal"); delete sig; sig = t; break; }
    }
    checkComb();
  }
  bool caught(int v, int d) { CHECK(thrown > 0 && v == thrown, "another exception than the one thrown"); CHECK(depth >= d, "frames"); depth = d - 1; sync(); if (depth > 0 && pick("pass", 2)) return true; thrown = 0; return false; }
  void invoke(int x) {
    sync(); WFrame &f = fr[depth++]; f.n = no; f.pos = 0; f.x = x; f.tag = curTag; f.cur = -1; f.calls = 0; f.stopped = false; for (int k = 0; k < no; k++) f.snap[k] = ord[k];
    int d = depth, r = 0; bool fin = true;
    try { if (invs++ & 1) { const Sig &c = *sig; r = c(x); } else r = (*sig)(x); }
    catch (const Boom &b) { if (caught(b.v, d)) throw; return; }
    catch (const bs2::expired_slot &) { CHECK(0, "expired_slot reaches the caller although the combiner handles it"); }
    catch (const StdBoom &b) { if (caught(b.v, d)) throw; return; }
    catch (const BadW &b) { if (caught(b.v, d)) throw; return; }
    CHECK(fin && depth == d, "frames"); depth--; sync();
    CHECK(r == f.calls + 100 * f.tag, "the result of the invocation is not the combiner's");
    if (!f.stopped) for (int k = f.pos; k < f.n; k++) CHECK(!callable(f.snap[k]), "an invocation missed a slot that was connected throughout");
  }
  int next(WFrame &f) { int k = f.pos; while (k < f.n && !callable(f.snap[k])) k++; return k; }
  int enter(int id, int x, const bs2::connection *c) {
    noLock("a slot runs while a library lock is held");
    WFrame &f = fr[depth - 1]; CHECK(x == f.x, "wrong argument"); f.cur = -1;
    int k0 = f.pos; while (k0 < f.n && !(callable(f.snap[k0]) && tracksAlive(f.snap[k0]))) k0++; if (k0 < f.n) f.cur = f.snap[k0]; sync();
    int k = next(f); CHECK(k < f.n, "an invocation calls a slot that was disconnected, blocked, expired, or connected after it began"); int i = f.snap[k]; CHECK(fid[i] == id, "an invocation calls a slot out of turn"); f.pos = k + 1; f.calls++; f.cur = i; sync();
    if (c) { CHECK(*c == con[i], "an extended slot receives another connection"); CHECK(c->connected(), "the connection received by a connected slot"); }
    CHECK(g_fn[id] > 0, "the function that runs is destroyed");
    struct Ret { WFrame &f; ~Ret() { f.cur = -1; } } ret = {f};
    while (acts > 0 && act(i)) { }
    CHECK(g_fn[id] > 0, "the function that runs was destroyed"); noLock("a slot runs while a library lock is held"); sync();
    f.last = id * 3 + f.calls; return f.last;
  }
  bool tracksAlive(int i) { for (int j = 0; j < NOBJ; j++) if ((trk[i] >> j & 1) && g_obj[j] == 0) return false; return true; }
  bool act(int self) {
    int ops[W_ALL], m = 0; for (int o = 0; o < W_ALL; o++) if (mask >> o & 1) { if (self < 0 && (o == W_DSELF || o == W_THROW || o == W_EXP)) continue; if (self >= 0 && o == W_MOVE) continue; ops[m++] = o; }
    int k = pick("act", self < 0 ? m : m + 1); if (k == m) return false; if (self >= 0) acts--; else noLock("a library lock is held outside the library");
    switch (ops[k]) {
      case W_CON: connect(); break;
      case W_DH: { sx_assume(n > 0); int i = pick("d", n); con[i].disconnect(); drop(i); CHECK(!con[i].connected(), "connected() after disconnect()"); break; }
      case W_DSELF: con[self].disconnect(); drop(self); break;
      case W_DG: { int g = pick("dg", ng); sig->disconnect(g); for (int i = 0; i < n; i++) if (kind[i] == 1 && grp[i] == g) drop(i); break; }
      case W_DALL: sig->disconnect_all_slots(); for (int i = 0; i < n; i++) drop(i); break;
      case W_DF: { int f = nfn ? pick("df", nfn) : pick("df", n ? n : 1); { WF k(f); sig->disconnect(k); } for (int i = 0; i < n; i++) if (fid[i] == f) drop(i); break; }
      case W_DFX: { int f = (nfn ? pick("df", nfn) : pick("df", n ? n : 1)) + 16; { WX k(f); sig->disconnect(k); } for (int i = 0; i < n; i++) if (fid[i] == f) drop(i); break; }
      case W_BLK: { sx_assume(n > 0); int i = pick("b", n), q = blk[i][0].blocking() ? 1 : 0; if (invs & 1) blk[i][q] = bs2::shared_connection_block(con[i]); else { bs2::shared_connection_block t(con[i], false); t.block(); blk[i][q] = t; } sync(); checkBlocked(i); break; }
      case W_UNB: { sx_assume(n > 0); int i = pick("u", n); sx_assume(blocks(i) > 0); blk[i][blk[i][0].blocking() ? 0 : 1].unblock(); sync(); checkBlocked(i); break; }
      case W_REL: { int js[NOBJ], nj = 0; for (int j = 0; j < NOBJ; j++) { bool u = false; for (int t = 0; t < ntrk; t++) u = u || (trks[t] >> j & 1); if (u && owned[j]) js[nj++] = j; } sx_assume(nj > 0); release(js[pick("rel", nj)]); break; }
      case W_QRY: checkState(pick("first", 3)); break;
      case W_COMB: sig->set_combiner(WComb(++curTag)); used = 0; checkComb(); break;
      case W_INV: if (depth < maxDepth) invoke((int)sx_int("x", -2147483647 - 1, 2147483647)); break;
      case W_THROW: { thrown++; Boom b = {thrown}; switch (pick("what", 3)) { case 0: throw b; case 1: throw StdBoom(thrown); default: throw BadW(thrown); } }
      case W_EXP: drop(self); throw bs2::expired_slot();
      case W_MOVE: move(); break;
      case W_SCO: { sx_assume(n > 0); int i = pick("sc", n); bs2::scoped_connection s(con[i]); bs2::scoped_connection t(std::move(s)); if (pick("keep", 2)) { bs2::connection c = t.release(); CHECK(c == con[i], "release()"); } else drop(i); break; }
    }
    return true;
  }
  // ---- a whole history
  void run(int pre, int len, int inside) {
    for (int i = 0; i < pre; i++) connect();
    int m = mask; acts = inside;
    for (int k = 0; k < len; k++) act(-1);
    mask = m; acts = 0; int fin = pick("fin", 2); if (fin) checkState(1);
    invoke(1); invoke(2); checkState(); exts = 0; ntrk = 1; places = PL_UB; nfn = 0; connect(); invoke(3); checkState(); noLock("a library lock is held outside the library");
    delete sig; sig = 0; for (int i = 0; i < n; i++) { CHECK(!con[i].connected() && con[i].blocked(), "connections of a destroyed signal"); con[i].disconnect(); }
    for (int f = 0; f < NFN; f++) CHECK(g_fn[f] == 0, "function objects survive their signal"); CHECK(WComb::made == 0, "combiner copies leaked");
  }
};
inline int WF::operator()(int x) const { int i = id; int r = W->enter(i, x, 0); CHECK(id == i, "a slot function was destroyed while running"); return r; }
inline int WX::operator()(const bs2::connection &c, int x) const { return W->enter(f.id, x, &c); }
template <class It> int WComb::operator()(It a, It b) {
  int t = tag, d = W->depth; if (t == W->curTag) W->used++; used++; WFrame &f = W->fr[d - 1]; CHECK(t == f.tag, "the invocation does not use the combiner in effect when it started"); noLock("the combiner runs while a library lock is held");
  for (; a != b; ++a) {
    if (W->maySkip && W->acts > 0 && pick("skip", 2)) { W->acts--; W->sync(); int k = W->next(f); CHECK(k < f.n, "the range has more positions than callable slots"); f.pos = k + 1; continue; }
    int c = f.calls; try { int v = *a; CHECK(f.calls == c + 1, "dereferencing a position does not call one slot"); CHECK(v == f.last, "wrong result"); CHECK(*a == v && f.calls == c + 1, "dereferencing a position again"); } catch (const bs2::expired_slot &) { }
    CHECK(tag == t && W->depth == d, "the combiner changed while it was running"); noLock("the combiner runs while a library lock is held");
    if (W->mayStop && W->acts > 0 && pick("stop", 2)) { W->acts--; f.stopped = true; break; }
  }
  if (t == W->curTag) W->used++; used++;
  return f.calls + 100 * t;
}
