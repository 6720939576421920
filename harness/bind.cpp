// C25, C26, C27: trackable objects, extended slots, slot objects.
#include "common.hpp"
#include <boost/signals2/trackable.hpp>
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>
#include <functional>
#include <memory>
#define P(n, d) (int)sx_param(n, d)
static void fin() { CHECK(sx_heap_live() == 0, "memory leaked"); CHECK(sx_mutexes_held() == 0, "a lock is still held"); }
using namespace boost::placeholders;
// ---- C25
struct Tk : bs2::trackable { int id; explicit Tk(int i) : id(i) {} ~Tk() { id = -1; } void f(int x) { CHECK(id >= 0, "a slot runs on a destroyed trackable object"); g_log.add(id, x); if (g_hook) { int i = id; g_hook(i, x); } } void cf(int x) const { CHECK(id >= 0, "a slot runs on a destroyed trackable object"); g_log.add(id, x); } void two(Tk *o, int x) { CHECK(id >= 0 && o->id >= 0, "a slot runs on a destroyed trackable object"); g_log.add(id, x); } void operator()(int x) const { cf(x); } };
struct Dt : Tk { int more; explicit Dt(int i) : Tk(i), more(1) {} };
struct Two2 { int pad; virtual ~Two2() {} Two2() : pad(3) {} }; struct Mt : Two2, Tk { explicit Mt(int i) : Tk(i) {} };
static void freeFn(const Tk &t, int x) { t.cf(x); } static void freePtr(Tk *t, Tk &u, int x) { CHECK(u.id >= 0, "a slot runs on a destroyed trackable object"); t->f(x); }
typedef bs2::signal<void(int)> Sig; typedef Sig::slot_type Slot;
static Slot mk(int form, Tk *t, Tk *u, Dt *d, Mt *m) {
  switch (form) {
    case 0: return Slot(boost::bind(&Tk::f, t, _1));
    case 1: return Slot(boost::bind(&Tk::f, boost::ref(*t), _1));
    case 2: return Slot(boost::bind(&freeFn, boost::cref(*t), _1));
    case 3: return Slot(boost::bind(&freePtr, t, boost::ref(*u), _1));
    case 4: return Slot(&Tk::f, t, _1);
    case 5: return Slot(boost::bind(&Tk::two, t, u, _1));
    case 6: return Slot(boost::ref(*t));
    case 7: return Slot(boost::bind(&Tk::cf, d, _1));
    case 8: return Slot(boost::bind(&Tk::f, m, _1));
    case 9: return Slot(boost::bind(&freeFn, boost::cref(*t), boost::bind(std::plus<int>(), _1, 0)));
    case 10: { const Tk *c = t; return Slot(boost::bind(&Tk::cf, c, _1)); }
    default: { Slot s(boost::bind(&Tk::f, t, _1)); Slot r((Fn(90))); r.track(s); s = r; return Slot(s); }
  }
}
static int owner(int form, bool second) { switch (form) { case 3: case 5: return second ? 1 : 0; case 7: return second ? -1 : 2; case 8: return second ? -1 : 3; default: return second ? -1 : 0; } }
struct Objs { boost::shared_ptr<Tk> t, u; boost::shared_ptr<Dt> d; boost::shared_ptr<Mt> m; Objs() : t(new Tk(10)), u(new Tk(11)), d(new Dt(12)), m(new Mt(13)) {} bool dead(int i) { return i == 0 ? !t : i == 1 ? !u : i == 2 ? !d : i == 3 ? !m : false; } void kill(int i) { if (i == 0) t.reset(); if (i == 1) u.reset(); if (i == 2) d.reset(); if (i == 3) m.reset(); } };
extern "C" void trk_forms() {
  { Sig s; Objs o; int form = pick("form", 12); int f2 = pick("form2", 12); g_hook = 0; Slot copy(mk(form, o.t.get(), o.u.get(), o.d.get(), o.m.get())); bs2::connection c = s.connect(copy), e = s.connect(1, mk(f2, o.t.get(), o.u.get(), o.d.get(), o.m.get())); bs2::connection plain = s.connect(Fn(1));
    for (int k = 0; k < P("len", 2); k++) {
      int w = pick("what", 6); if (w < 4) o.kill(w); else if (w == 4) { if (o.t && o.u) { *o.t = *o.u; o.t->id = 10; Tk tmp(*o.t); Tk tmp2(tmp); tmp = *o.u; } if (o.d) { Dt x(*o.d); x.id = 0; } } else if (pick("v", 2)) { if (o.t) { boost::shared_ptr<Tk> n(new Tk(*o.t)); n->id = 14; o.u = n; } }
      bool l1 = !o.dead(owner(form, false)) && !o.dead(owner(form, true)), l2 = !o.dead(owner(f2, false)) && !o.dead(owner(f2, true)); (void)l2;
      // an object replaced by a copy is another object
      static bool replaced; if (k == 0) replaced = false; if (w == 5 && o.u && o.u->id == 14) replaced = true; if (replaced && owner(form, true) == 1) l1 = false; if (replaced && owner(f2, true) == 1) l2 = false;
      CHECK(c.connected() == l1 && e.connected() == l2, "a slot is connected exactly while its trackable objects live"); CHECK(plain.connected(), "other slots stay"); CHECK(s.num_slots() == (size_t)(1 + l1 + l2), "num_slots"); g_log.clear(); s(3); CHECK(g_log.n == 1 + l1 + l2, "a slot bound to a destroyed trackable object is called, or a live one is not");
      bool threw = false; g_log.clear(); try { copy(4); } catch (const bs2::expired_slot &) { threw = true; } CHECK(threw == !l1 && g_log.n == (l1 ? 1 : 0), "calling a slot whose trackable object is gone");
    }
    sx_reach("end"); }
  fin();
}
// destroyed by a slot during the invocation, also by the slot bound to it
static bs2::connection g_inC[4]; static Sig *g_inS; static Objs *g_o; static int g_when, g_which; static void hookTk(int id, int) { if (id == g_when) { boost::shared_ptr<Tk> *p = g_which ? &g_o->u : &g_o->t; CHECK(p->use_count() <= 1, "calling a slot owns its trackable object"); p->reset(); CHECK(!g_inC[g_which ? 3 : 1].connected(), "a slot stays connected after its trackable object was destroyed"); CHECK(g_inC[g_which ? 3 : 1].blocked(), "blocked()"); CHECK(g_inS->num_slots() == 4, "num_slots() after a trackable object was destroyed in a slot"); } }
extern "C" void trk_inflight() {
  { Sig s; Objs o; g_o = &o; bs2::connection c[4]; g_hook = hookTk; g_inS = &s; int fa = pick("fa", 3), fb = pick("fb", 3); c[0] = s.connect(Fn(1)); c[1] = s.connect(mk(fa == 2 ? 4 : fa, o.t.get(), o.u.get(), 0, 0)); c[2] = s.connect(Fn(2)); c[3] = s.connect(mk(fb == 2 ? 4 : fb, o.u.get(), o.t.get(), 0, 0)); s.connect(Fn(3)); for (int k = 0; k < 4; k++) g_inC[k] = c[k]; static const int whens[] = {1, 2, 3, 10, 11}; g_when = whens[pick("when", 5)]; g_which = pick("which", 2);
    g_log.clear(); s(1); int exp = 5; int seenT = 0, seenU = 0; for (int k = 0; k < g_log.n; k++) { seenT += g_log.id[k] == 10; seenU += g_log.id[k] == 11; } (void)exp;
    bool tRuns = !(g_which == 0 && g_when == 1) , uRuns = !(g_which == 1 && (g_when == 1 || g_when == 2 || g_when == 10)); CHECK(fa == 2 || seenT == (tRuns && fa != 2 ? 1 : seenT), "the slot runs while its object lives"); if (fa < 2) CHECK(seenT == tRuns, "slots bound to a trackable object run exactly while it lives"); if (fb < 2) CHECK(seenU == uRuns, "slots bound to a trackable object run exactly while it lives");
    g_hook = 0; bool goneT = !o.t, goneU = !o.u; CHECK(c[1].connected() == !goneT && c[3].connected() == !goneU, "connected()"); g_log.clear(); s(2); CHECK(g_log.n == 5 - goneT - goneU, "later calls"); for (int k = 0; k < 4; k++) g_inC[k] = bs2::connection(); sx_reach("end"); }
  fin();
}
extern "C" void trk_copy() {
  { Sig s; int n = 0; Tk *a = new Tk(1), *b = new Tk(2); bs2::connection ca = s.connect(boost::bind(&Tk::f, a, _1)), cb = s.connect(boost::bind(&Tk::f, b, _1)); g_hook = 0; bool la = true, lb = true; Tk *c = 0;
    for (int k = 0; k < P("len", 4); k++) { switch (pick("op", 6)) { case 0: if (a && b) *a = *b; break; case 1: if (a) { delete c; c = new Tk(*a); } break; case 2: if (c && b) *b = *c; break; case 3: delete c; c = 0; break; case 4: delete a; a = 0; la = false; break; case 5: delete b; b = 0; lb = false; break; } CHECK(ca.connected() == la && cb.connected() == lb, "copying and assigning trackable objects moves no connections"); g_log.clear(); s(1); CHECK(g_log.n == la + lb, "calls"); n++; }
    delete a; delete b; delete c; CHECK(s.empty(), "all disconnected"); sx_reach("end"); }
  fin();
}
// functions bound to signals and trackable objects together
typedef bs2::signal<int(int)> SigI; static void callS(SigI &a, int x) { g_log.add(60, x); a(x); } static void callST(SigI &a, Tk &t, int x) { g_log.add(61, x); t.cf(x); a(x); } static void callTS(Tk *t, SigI *a, int x) { g_log.add(62, x); t->cf(x); (*a)(x); } static void callSS(SigI &a, SigI *b, int x) { g_log.add(63, x); a(x); (*b)(x); }
static void callTT(Tk &a, const Tk &b, Tk *c, int x) { g_log.add(64, x); a.cf(x); b.cf(x); c->cf(x); } struct FoS { SigI *a; void m(SigI &b, int x) { g_log.add(65, x); b(x); (void)a; } };
extern "C" void trk_sigs() {
  { Sig s; SigI *a = new SigI, *b = new SigI; Tk *t = new Tk(20), *u = new Tk(21), *v = new Tk(22); FoS fo = {a}; g_hook = 0; int form = pick("form", 9); boost::shared_ptr<int> ex(new int(1)); bool extra = pick("extra", 2); unsigned uses = 0; Slot sl((Fn(1)));
    switch (form) {   // uses: 1 a, 2 b, 4 t, 8 u, 16 v
      case 0: sl = Slot(boost::bind(&callS, boost::ref(*a), _1)); uses = 1; break;
      case 1: sl = Slot(boost::bind(&callST, boost::ref(*a), boost::ref(*t), _1)); uses = 1 | 4; break;
      case 2: sl = Slot(boost::bind(&callTS, t, b, _1)); uses = 2 | 4; break;
      case 3: sl = Slot(boost::bind(&callSS, boost::ref(*a), b, _1)); uses = 3; break;
      case 4: sl = Slot(boost::bind(&callTT, boost::ref(*t), boost::cref(*u), v, _1)); uses = 4 | 8 | 16; break;
      case 5: sl = Slot(boost::bind(&FoS::m, &fo, boost::ref(*b), _1)); uses = 2; break;
      case 6: sl = Slot(boost::ref(*a)); uses = 1; break;
      case 7: sl = Slot(&callST, boost::ref(*b), boost::ref(*u), _1); uses = 2 | 8; break;
      case 8: sl = Slot(boost::bind(&Tk::two, t, u, boost::bind(std::plus<int>(), _1, 0))); uses = 4 | 8; break;
    }
    if (extra) sl.track(ex); bs2::connection c = pick("grp", 2) ? s.connect(1, sl) : s.connect(sl); CHECK(c.connected(), "connected"); g_log.clear(); s(3); CHECK(form == 6 || g_log.n > 0, "a slot whose objects live is not called");
    int w = pick("who", 6); if (w == 5 && !extra) sx_assume(0); bool gone = w == 5 || (uses >> w & 1);
    switch (w) { case 0: delete a; a = 0; break; case 1: delete b; b = 0; break; case 2: delete t; t = 0; break; case 3: delete u; u = 0; break; case 4: delete v; v = 0; break; case 5: ex.reset(); break; }
    if (pick("q", 2)) CHECK(c.connected() == !gone, "a slot is connected exactly while the signals and trackable objects bound to it live"); g_log.clear(); bool act = form != 6; s(4); CHECK((g_log.n > 0) == (!gone && act), "a slot bound to a destroyed object is called, or a live one is not"); CHECK(s.num_slots() == (size_t)!gone, "num_slots");
    bool threw = false; try { sl(5); } catch (const bs2::expired_slot &) { threw = true; } CHECK(threw == gone, "calling the slot object"); delete a; delete b; delete t; delete u; delete v; sx_reach("end"); }
  fin();
}
// ---- C26
struct Ext { int id, act; void operator()(const bs2::connection &c, int x) const; bool operator==(const Ext &o) const { return id == o.id; } };
static bs2::connection g_con[8]; static bool g_early; static Sig *g_s; static bs2::shared_connection_block g_blk(bs2::connection(), false); static int g_depth;
void Ext::operator()(const bs2::connection &c, int x) const {
  g_log.add(id, x); if (!g_early) CHECK(c == g_con[id], "the connection given is not the slot's own"); CHECK(c.connected(), "an extended slot's connection is connected while it is called first");
  switch (act) { case 1: c.disconnect(); CHECK(!c.connected() && !g_con[id].connected(), "disconnected itself"); break; case 2: g_blk = bs2::shared_connection_block(c); break; case 3: if (g_depth < 1) { g_depth++; (*g_s)(x + 1); g_depth--; } break; case 4: { bs2::connection k(c); k = g_con[id]; CHECK(k == c, "copies"); break; } case 5: if (g_depth < 1) { g_depth++; c.disconnect(); (*g_s)(x + 1); g_depth--; } break; }
}
extern "C" void ext_slots() {
  { Sig s; g_s = &s; g_early = false; g_depth = 0; int n = P("n", 3); g_blk = bs2::shared_connection_block(bs2::connection(), false); int act[4], where[4]; boost::shared_ptr<int> tr(new int(1)); bool tracked = pick("tr", 2);
    for (int i = 0; i < n; i++) { act[i] = i == n - 1 ? 0 : pick("act", 6); where[i] = pick("where", 4); Ext e = {i, act[i]}; Sig::extended_slot_type es(e); if (i == 0 && tracked) es.track(tr); bs2::connect_position p = where[i] & 1 ? bs2::at_front : bs2::at_back; g_con[i] = where[i] < 2 ? s.connect_extended(es, p) : s.connect_extended(1, es, p); CHECK(g_con[i].connected() && s.num_slots() == (size_t)(i + 1), "connected"); }
    g_con[n] = s.connect(Fn(n));
    int ord[4], no = 0; for (int pass = 0; pass < 4; pass++) { static const int seq[] = {1, 3, 2, 0}; int w = seq[pass]; if (w & 1) { for (int i = n - 1; i >= 0; i--) if (where[i] == w) ord[no++] = i; } else for (int i = 0; i < n; i++) if (where[i] == w) ord[no++] = i; }
    bool nest = false, dis[4] = {0}, blkd[4] = {0}; for (int i = 0; i < n; i++) { if (act[i] == 3 || act[i] == 5) nest = true; }
    g_log.clear(); s(1); if (!nest) { CHECK(g_log.n == n + 1, "every extended slot is called once"); int k = 0; bool ok = true; for (int i = 0; i < g_log.n; i++) if (g_log.id[i] != n) { ok &= g_log.id[i] == ord[k]; k++; } CHECK(ok, "positions and groups of extended slots"); }
    int lastBlk = -1; for (int k = 0; k < no; k++) { int i = ord[k]; if (act[i] == 1 || act[i] == 5) dis[i] = true; if (act[i] == 2) lastBlk = i; } if (lastBlk >= 0 && !nest) blkd[lastBlk] = true;
    for (int i = 0; i < n; i++) CHECK(g_con[i].connected() == !dis[i], "connected after the call");
    if (!nest) { for (int i = 0; i < n; i++) CHECK(g_con[i].blocked() == (dis[i] || blkd[i]), "blocked after the call"); int exp = 1; for (int i = 0; i < n; i++) exp += !dis[i] && !blkd[i]; g_log.clear(); g_blk = g_blk; for (int i = 0; i < n; i++) if (!dis[i] && (act[i] == 2)) exp = -1; s(2); if (exp >= 0) CHECK(g_log.n == exp, "the next call"); }
    g_blk.unblock(); if (tracked) { tr.reset(); CHECK(!g_con[0].connected(), "tracked object of an extended slot"); } Ext e0 = {n - 1, 0}; s.disconnect(e0); CHECK(!g_con[n - 1].connected(), "disconnecting an extended slot by its function"); g_log.clear(); s(3); for (int i = 0; i < g_log.n; i++) CHECK(g_log.id[i] != n - 1, "called after being disconnected"); sx_reach("end"); }
  for (int i = 0; i < 8; i++) { CHECK(!g_con[i].connected(), "connections of a destroyed signal"); g_con[i] = bs2::connection(); } g_blk = bs2::shared_connection_block(bs2::connection(), false); fin();
}
// connected by a slot, from another thread, bound member functions, results
static int g_calls; struct SelfDis { int limit; void operator()(const bs2::connection &c, int) const { if (++g_calls == limit) c.disconnect(); } };
struct Mem { int id; void ext(const bs2::connection &c, int x) { CHECK(c.connected(), "connected"); g_log.add(id, x); } int res(const bs2::connection &c, int x, int y) { return c.connected() ? x * 10 + y : -1; } };
struct ConnExt { Sig *s; void operator()(int) const { if (g_calls++ == 0) { SelfDis d = {3}; bs2::connection c = s->connect_extended(d); CHECK(c.connected(), "connected"); } } };
extern "C" void ext_misc() {
  { Sig s; g_s = &s; g_hook = 0; Mem m = {5}; int lim = 1 + pick("lim", 3); g_calls = 0; SelfDis d = {lim}; bs2::connection c = s.connect_extended(d, bs2::at_front); for (int k = 0; k < 4; k++) { CHECK(c.connected() == (k < lim), "disconnects itself at the chosen call"); s(k); } CHECK(g_calls == lim, "calls until disconnected");
    c = s.connect_extended(Sig::extended_slot_type(&Mem::ext, &m, _1, _2)); g_log.clear(); s(7); CHECK(g_log.n == 1 && g_log.id[0] == 5 && g_log.arg[0] == 7, "member function"); c.disconnect(); CHECK(s.empty(), "empty"); g_calls = 0; ConnExt ce = {&s}; s.connect(ce); s(1); CHECK(g_calls == 1, "an extended slot connected during a call is not called by it"); 
    typedef bs2::signal<int(int, int), bs2::last_value<int> > S2; S2 t; t.connect_extended(3, S2::extended_slot_type(boost::bind(&Mem::res, &m, _1, _2, _3))); CHECK(t(4, 2) == 42, "result of an extended slot"); Sig::extended_slot_type es(boost::bind(&Mem::ext, &m, _1, _2)); Sig u; c = u.connect_extended(es); bs2::connection c2 = u.connect_extended(es), c3 = s.connect_extended(es); CHECK(!(c == c2) && !(c2 == c3), "one connection each"); g_log.clear(); u(1); CHECK(g_log.n == 2, "twice"); c.disconnect(); g_log.clear(); u(1); CHECK(g_log.n == 1 && c2.connected(), "the other stays"); { boost::shared_ptr<int> tr(new int(2)); boost::weak_ptr<int> w(tr); Sig::extended_slot_type e2(es); e2.track(tr); u.connect_extended(e2); CHECK(u.num_slots() == 2, "tracked"); u(1); tr.reset(); CHECK(w.expired() && u.num_slots() == 1, "an extended slot keeps nothing alive"); } sx_reach("end"); }
  fin();
}
struct ThExt { int id; void operator()(const bs2::connection &c, int) const { CHECK(c.connected() || g_early, "connected"); bs2::connection def; CHECK(!(c == def), "an extended slot gets an empty connection"); c.disconnect(); } };
static Sig *g_ts; static int g_form; static void thInv(void *) { (*g_ts)(1); } static void thConn(void *) { ThExt e = {1}; bs2::connection c; switch (g_form) { case 0: c = g_ts->connect_extended(e); break; case 1: c = g_ts->connect_extended(e, bs2::at_front); break; case 2: c = g_ts->connect_extended(1, e); break; case 3: c = g_ts->connect_extended(1, e, bs2::at_front); break; } c.blocked(); }
extern "C" void ext_thread() { { Sig s; g_ts = &s; g_form = pick("form", 4); g_early = true; ThExt e0 = {0}; bs2::connection c0 = s.connect_extended(e0); int t = sx_thread(thInv, 0); thConn(0); if (pick("again", 2)) s(2); sx_join(t); s(3); CHECK(s.empty() && !c0.connected(), "every extended slot disconnected itself through the connection it was given"); sx_reach("end"); } fin(); }
// ---- C27
static int plain(int a, int b) { g_log.add(1, a * 100 + b); return a - b; }
struct Fo { int k; int operator()(int a, int b) const { g_log.add(2, a * 100 + b); return a * k + b; } }; struct Mf { int v; int m(int a, int b) { g_log.add(3, a * 100 + b); return v + a - b; } int cm(int a) const { return v * a; } int data; };
struct Mut { int *n; int operator()(int a, int b) { ++*n; return a + b + *n; } };
static long widen(long a, short b) { return a + b; }
typedef bs2::slot<int(int, int)> S2t;
extern "C" void slot_calls() {
  { int a = (int)sx_int("a", -1000, 1000), b = (int)sx_int("b", -1000, 1000), n = 0; Mf m = {7, 9}; g_log.clear(); int form = pick("form", 9); int want = 0; Fo fo = {3}; Mut mu = {&n}; boost::shared_ptr<int> tr(new int(1)); boost::shared_ptr<Mf> sm(new Mf(m));
    S2t s = form == 0 ? S2t(&plain) : form == 1 ? S2t(fo) : form == 2 ? S2t(&Mf::m, &m, _1, _2) : form == 3 ? S2t(boost::bind(&plain, _2, _1)) : form == 4 ? S2t(mu) : form == 5 ? S2t(boost::ref(fo)) : form == 6 ? S2t(&plain, _1, 5) : form == 7 ? S2t(&widen) : S2t(&Mf::m, sm.get(), 1, _2);
    switch (form) { case 0: want = a - b; break; case 1: want = a * 3 + b; break; case 2: want = 7 + a - b; break; case 3: want = b - a; break; case 4: want = a + b + 1; break; case 5: fo.k = 4; want = a * 4 + b; break; case 6: want = a - 5; break; case 7: want = (int)((long)a + (short)b); break; case 8: want = 7 + 1 - b; break; }
    S2t t(s); S2t u(&plain); u = t; int how = pick("how", 4); S2t &x = how == 0 ? s : how == 1 ? t : u; x.track(tr); int r; if (how == 3) { const S2t &c = x; r = c(a, b); } else r = x(a, b); CHECK(r == want, "a slot returns the result of its function called with the given arguments"); sx_trace(1, r);
    for (int k = 0; k < 3; k++) { S2t &y = k == 0 ? s : k == 1 ? t : u; CHECK(y.tracked_objects().size() == (&y == &x ? 1u : 0u) && !y.expired(), "track() affects only its object"); } tr.reset(); CHECK(x.expired(), "expired()"); bool threw = false; int log = g_log.n, nn = n; try { x(a, b); } catch (const bs2::expired_slot &) { threw = true; } CHECK(threw && g_log.n == log && n == nn, "an expired slot is not called"); S2t v(x); CHECK(v.expired(), "a copy of an expired slot"); sx_reach("end"); }
  fin();
}
// histories on three slots of two types: copy, convert, assign, track, expire, call
typedef bs2::slot<void(int), boost::function<void(int)> > SA; typedef bs2::slot<void(int), std::function<void(int)> > SB; typedef bs2::slot<void(long)> SC;
extern "C" void slot_hist() {
  { enum { OBJ = 4 }; boost::shared_ptr<int> b0(new int(0)), b1(new int(1)); std::shared_ptr<int> f2(new int(2)); boost::shared_ptr<Sig> sg(new Sig); bool alive[OBJ] = {true, true, true, true}; SA a0((Fn(0))), a1((Fn(1))); SB b((Fn(2))); unsigned tr[3] = {0, 0, 0}; int fn[3] = {0, 1, 2}, cnt[3] = {0, 0, 0}; g_hook = 0;
    for (int k = 0; k < P("len", 3); k++) {
      switch (pick("op", 9)) {
        case 0: a0 = a1; tr[0] = tr[1]; fn[0] = fn[1]; cnt[0] = cnt[1]; break;
        case 1: { SB c(a0); b = c; tr[2] = tr[0]; fn[2] = fn[0]; cnt[2] = cnt[0]; break; }
        case 2: { SA c(b); a1 = c; tr[1] = tr[2]; fn[1] = fn[2]; cnt[1] = cnt[2]; break; }
        case 3: { a1 = SA(Fn(3)); tr[1] = 0; fn[1] = 3; cnt[1] = 0; break; }
        case 4: { int s = pick("s", 3), o = pick("o", 6); unsigned bit = 0; if ((o == 0 && !b0) || (o == 1 && !b1) || ((o == 2 || o == 5) && !f2) || (o == 3 && !sg)) break;
          if (s == 0) { if (o == 0) a0.track(b0); if (o == 1) a0.track(boost::weak_ptr<int>(b1)); if (o == 2) a0.track_foreign(f2); if (o == 3) a0.track(*sg); if (o == 5) a0.track_foreign(std::weak_ptr<int>(f2)); } if (s == 1) { if (o == 0) a1.track(b0); if (o == 1) a1.track(boost::weak_ptr<int>(b1)); if (o == 2) a1.track_foreign(f2); if (o == 3) a1.track(*sg); if (o == 5) a1.track_foreign(std::weak_ptr<int>(f2)); } if (s == 2) { if (o == 0) b.track(b0); if (o == 1) b.track(boost::weak_ptr<int>(b1)); if (o == 2) b.track_foreign(f2); if (o == 3) b.track(*sg); if (o == 5) b.track_foreign(std::weak_ptr<int>(f2)); }
          if (o < 4) bit = 1u << o; if (o == 5) bit = 4; if (o == 4) { if (s == 0) { a0.track(b); tr[0] |= tr[2]; cnt[0] += cnt[2]; } if (s == 1) { a1.track(a0); tr[1] |= tr[0]; cnt[1] += cnt[0]; } if (s == 2) { b.track(a1); tr[2] |= tr[1]; cnt[2] += cnt[1]; } } else { tr[s] |= bit; cnt[s]++; } break; }
        case 5: { int o = pick("x", 4); alive[o] = false; if (o == 0) b0.reset(); if (o == 1) b1.reset(); if (o == 2) f2.reset(); if (o == 3) sg.reset(); break; }
        case 6: { SA t(a0); a0 = a1; a1 = t; std::swap(tr[0], tr[1]); std::swap(fn[0], fn[1]); std::swap(cnt[0], cnt[1]); break; }
        case 7: { SA *p = &a0; a0 = *p; break; }
        case 8: { Sig t; bs2::connection c = t.connect(a0); bool ok = true; for (int o = 0; o < OBJ; o++) if ((tr[0] >> o & 1) && !alive[o]) ok = false; CHECK(c.connected() == ok, "a signal keeps the tracked objects of a slot"); g_log.clear(); t(6); CHECK(g_log.n == ok && (!ok || g_log.id[0] == fn[0]), "calling through a signal"); break; }
      }
      for (int s = 0; s < 3; s++) { bool ok = true; for (int o = 0; o < OBJ; o++) if ((tr[s] >> o & 1) && !alive[o]) ok = false; bool exp = s == 0 ? a0.expired() : s == 1 ? a1.expired() : b.expired(); int sz = (int)(s == 0 ? a0.tracked_objects().size() : s == 1 ? a1.tracked_objects().size() : b.tracked_objects().size()); CHECK(exp == !ok, "expired()"); CHECK(sz == cnt[s], "tracked objects are carried along"); g_log.clear(); bool threw = false; try { if (s == 0) a0(5); else if (s == 1) a1(5); else b(5); } catch (const bs2::expired_slot &) { threw = true; } CHECK(threw == !ok && g_log.n == (ok ? 1 : 0) && (!ok || (g_log.id[0] == fn[s] && g_log.arg[0] == 5)), "a slot calls its own function unless a tracked object expired"); }
    }
    sx_reach("end"); }
  fin();
}
// tracked objects live for the call, and no longer
static boost::shared_ptr<int> g_b; static std::shared_ptr<int> g_f; static boost::weak_ptr<int> g_wb; static std::weak_ptr<int> g_wf; static int g_drop;
static int dropper(int x) { if (g_drop & 1) g_b.reset(); if (g_drop & 2) g_f.reset(); CHECK(!g_wb.expired() && !g_wf.expired(), "a tracked object dies during the call of its slot"); if (g_drop & 4) throw 5; return x + 1; }
extern "C" void slot_keep() {
  { g_b.reset(new int(1)); g_f.reset(new int(2)); g_wb = g_b; g_wf = g_f; g_drop = pick("drop", 8); bs2::slot<int(int)> s(&dropper); s.track(g_b).track_foreign(g_f); bs2::slot<int(int)> t(s); int r = 0; bool thrown = false; try { r = pick("c", 2) ? static_cast<const bs2::slot<int(int)> &>(t)(4) : t(4); } catch (int) { thrown = true; } CHECK(thrown == !!(g_drop & 4) && (thrown || r == 5), "result"); CHECK(g_wb.expired() == !!(g_drop & 1) && g_wf.expired() == !!(g_drop & 2), "a slot keeps a tracked object alive after the call"); CHECK(s.expired() == ((g_drop & 3) != 0), "expired()"); g_b.reset(); g_f.reset(); CHECK(s.expired(), "expired"); g_wb.reset(); g_wf.reset(); sx_reach("end"); }
  fin();
}
static int noargs() { return 77; } static void refarg(int &x) { x++; } struct ConvTo { operator int() const { return 6; } };
extern "C" void slot_kinds() {
  { bs2::slot<int()> a(&noargs); CHECK(a() == 77, "no arguments"); bs2::slot<void()> av(a); av(); int v = 3; bs2::slot<void(int &)> r(&refarg); r(v); CHECK(v == 4, "reference argument"); bs2::slot<long(short), boost::function<long(short)> > c(&noargs == 0 ? boost::function<long(short)>() : boost::function<long(short)>(boost::bind(&noargs))); CHECK(c(1) == 77, "converted result");
    typedef bs2::signal<int(int, int), bs2::last_value<int> > G; G g; g.connect(G::slot_type(&plain, _1, _2)); bs2::slot<int(int, int)> gs(g); CHECK(gs(7, 2) == 5, "a slot made from a signal"); CHECK(gs.tracked_objects().size() == 1, "tracks the signal"); bs2::slot<int(int, int)> gr(boost::ref(g)); CHECK(gr(9, 2) == 7 && gr.tracked_objects().size() == 1, "a slot made from a reference to a signal"); Mf mm = {4, 11}; bs2::slot<int(int)> cm(&Mf::cm, &mm, _1); CHECK(cm(5) == 20, "const member"); boost::shared_ptr<Mf> sm(new Mf(mm)); bs2::slot<int(int)> sp(&Mf::cm, sm, _1); CHECK(sp(6) == 24 && sm.use_count() == 2, "bound shared_ptr is held, not tracked"); CHECK(sp.slot_function() && sp.slot_function()(2) == 8, "slot_function()"); bs2::slot<int(int)> s3(&plain, _1, ConvTo()); CHECK(s3(8) == 2, "bound argument converts"); sx_reach("end"); }
  fin();
}
