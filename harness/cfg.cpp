// C31, C32: every arity and configuration shows the same behaviour.  One
// symbolic history drives signals of several configurations in lock step.
#include "common.hpp"
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/signals2/signal_type.hpp>
#include <boost/bind/bind.hpp>
#include <functional>
#define P(n, d) (int)sx_param(n, d)
static void fin() { CHECK(sx_heap_live() == 0, "memory leaked"); CHECK(sx_mutexes_held() == 0, "a lock is still held"); }
// ---- configurations
static int g_umHeld, g_umLive; static long g_umLocks;
struct UserMutex { bool held; UserMutex() : held(false) { g_umLive++; } ~UserMutex() { CHECK(!held, "a user mutex is destroyed while locked"); g_umLive--; } void lock() { CHECK(!held, "a user mutex is locked twice"); held = true; g_umHeld++; g_umLocks++; } bool try_lock() { if (held) return false; lock(); return true; } void unlock() { CHECK(held, "a user mutex is unlocked that is not locked"); held = false; g_umHeld--; } private: UserMutex(const UserMutex &); UserMutex &operator=(const UserMutex &); };
struct Collect { typedef long result_type; long seed; Collect(long k = 17) : seed(k) {} template <class I> long operator()(I a, I b) const { long s = seed; for (; a != b; ++a) { try { s = s * 31 + *a; } catch (const bs2::expired_slot &) { s = s * 31 + 1000; } } return s; } };
struct Boom { int n; };
struct Rec { int id; int operator()(int x) const; bool operator==(const Rec &o) const { return id == o.id; } };
static int (*g_do)(int id, int x); int Rec::operator()(int x) const { int i = id; g_log.add(i, x); return g_do ? g_do(i, x) : i * 3 + x; }
// converts to a number that loses information, so that no other comparison can stand in for its own
struct Key { int a, b; Key(int v = 0) : a(v / 2), b(v & 1) {} operator int() const { return a; } bool operator<(const Key &o) const { return a != o.a ? a < o.a : b < o.b; } };
// groups 0, 1, 2 as numbers between integers
typedef double Half; template <class G> struct MkG { static G go(int g) { return G(g); } }; template <> struct MkG<double> { static double go(int g) { return 0.3 * g; } };
struct KeyGreater { bool operator()(const Key &x, const Key &y) const { return y < x; } };
struct Dir { int d; explicit Dir(int k = 1) : d(k) {} bool operator()(int x, int y) const { return d > 0 ? x < y : y < x; } };

typedef bs2::connection Conn;
// slot function types that count their calls
static int g_cf, g_ce; template <class Sg, int *N> struct Counting; template <class R, class... A, int *N> struct Counting<R(A...), N> : boost::function<R(A...)> { typedef boost::function<R(A...)> B; Counting() {} template <class F> Counting(const F &f) : B(f) {} Counting(const Counting &o) : B(static_cast<const B &>(o)) {} R operator()(A... a) const { ++*N; return B::operator()(a...); } };
typedef Counting<long(int), &g_cf> CFn; typedef Counting<long(const Conn &, int), &g_ce> CEFn;
typedef boost::function<long(int)> BF; typedef boost::function<long(const Conn &, int)> BEF; typedef std::function<long(int)> SF; typedef std::function<long(const Conn &, int)> SEF;
template <class F> struct FnEq { enum { v = 1 }; }; template <> struct FnEq<SF> { enum { v = 0 }; };
enum { N = 6 };
struct Obs { int n; int id[32]; long arg[32]; long res; int thrown; bool con[N], blk[N]; int slots; bool empty; };
static Conn *g_c; static int g_act, g_who, g_tgt;
struct ExtRec { int id; long operator()(const Conn &c, int x) const; };
static long act(int id, int x) { if (id == g_who) { if (g_act == 1) { Boom b = {id}; throw b; } if (g_act == 2) g_c[g_tgt].disconnect(); if (g_act == 3) { g_act = 0; bs2::shared_connection_block b(g_c[g_tgt]); b.unblock(); } if (g_act == 4) throw bs2::expired_slot(); } return id * 3 + x; }
long ExtRec::operator()(const Conn &c, int x) const { int i = id; g_log.add(100 + i, x); if (g_act == 5 && i == g_who) { c.disconnect(); return 5; } return act(i, x); }
struct IRun { virtual ~IRun() {} virtual void connect(int id, int where, int g, bool ext, const boost::shared_ptr<int> &own) = 0; virtual void discon(int i) = 0; virtual void group(int g) = 0; virtual void fn(int id) = 0; virtual void all() = 0; virtual void block(int i) = 0; virtual void comb(int k) = 0; virtual void invoke(int x, Obs &o) = 0; virtual void look(Obs &o) = 0; };
template <class S, class F> struct Run : IRun {
  typedef typename S::group_type G; S s; Conn c[N]; bs2::shared_connection_block b[N]; int fid[N];
  template <class Cmp> Run(const Cmp &cm) : s(Collect(), cm) { init(); } Run() { init(); } void init() { for (int i = 0; i < N; i++) { b[i] = bs2::shared_connection_block(Conn(), false); fid[i] = -1; } }
  void connect(int id, int w, int g, bool ext, const boost::shared_ptr<int> &own) { fid[id] = ext ? -1 : id & 1; bs2::connect_position p = w & 1 ? bs2::at_front : bs2::at_back; if (ext) { ExtRec r = {id}; typename S::extended_slot_type sl(r); if (own) sl.track(own); c[id] = w < 2 ? s.connect_extended(sl, p) : s.connect_extended(MkG<G>::go(g), sl, p); } else { Rec r = {id & 1}; typename S::slot_type sl(r); if (own) sl.track(own); c[id] = w < 2 ? s.connect(sl, p) : s.connect(MkG<G>::go(g), sl, p); } }
  void discon(int i) { c[i].disconnect(); } void group(int g) { s.disconnect(MkG<G>::go(g)); } void all() { s.disconnect_all_slots(); }
  template <bool V, class D> struct Fd { static void go(Run &r, int id) { for (int i = 0; i < N; i++) if (r.fid[i] == id) r.c[i].disconnect(); } }; template <class D> struct Fd<true, D> { static void go(Run &r, int id) { Rec f = {id}; r.s.disconnect(f); } }; void fn(int id) { Fd<FnEq<F>::v, int>::go(*this, id); }
  void block(int i) { if (b[i].blocking()) b[i] = bs2::shared_connection_block(Conn(), false); else b[i] = bs2::shared_connection_block(c[i]); } void comb(int k) { s.set_combiner(Collect(k)); CHECK(s.combiner().seed == k, "combiner()"); }
  void invoke(int x, Obs &o) { g_c = c; g_log.clear(); o.thrown = 0; o.res = -7; try { o.res = s(x); } catch (const Boom &e) { o.thrown = 1 + e.n; } catch (const bs2::expired_slot &) { o.thrown = 99; } o.n = g_log.n; for (int i = 0; i < o.n && i < 32; i++) { o.id[i] = g_log.id[i]; o.arg[i] = g_log.arg[i]; } look(o); }
  void look(Obs &o) { for (int i = 0; i < N; i++) { o.con[i] = c[i].connected(); o.blk[i] = c[i].blocked(); } o.slots = (int)s.num_slots(); o.empty = s.empty(); CHECK(g_umHeld == 0, "a user mutex is held after an operation"); CHECK(sx_mutexes_held() == 0, "a lock is held after an operation"); }
};
static void equal(const Obs &a, const Obs &b) { CHECK(a.n == b.n && a.thrown == b.thrown, "a configuration calls different slots"); CHECK(a.res == b.res, "a configuration changes the result"); bool ok = true; for (int i = 0; i < a.n && i < 32; i++) ok &= a.id[i] == b.id[i] && a.arg[i] == b.arg[i]; CHECK(ok, "a configuration changes the order or the arguments"); for (int i = 0; i < N; i++) ok &= a.con[i] == b.con[i] && a.blk[i] == b.blk[i]; CHECK(ok && a.slots == b.slots && a.empty == b.empty, "a configuration changes what is connected"); }
static void lockstep(IRun **r, int k, int len, int pre) {
  g_do = 0; boost::shared_ptr<int> own(new int(1)); int n = 0; Obs o[8]; g_act = 0;
  for (int i = 0; i < pre; i++, n++) { int w = pick("where", 4), g = w < 2 ? 0 : pick("g", 3); bool ext = pick("ext", 2), tr = i == 1; for (int j = 0; j < k; j++) r[j]->connect(n, w, g, ext, tr ? own : boost::shared_ptr<int>()); }
  for (int i = 0; i < len; i++) { int op = pick("op", 9);
    switch (op) {
      case 0: if (n < N) { int w = pick("where", 4), g = w < 2 ? 0 : pick("g", 3); bool ext = pick("ext", 2); for (int j = 0; j < k; j++) r[j]->connect(n, w, g, ext, boost::shared_ptr<int>()); n++; } break;
      case 1: { int c = pick("c", pre); for (int j = 0; j < k; j++) r[j]->discon(c); break; } case 2: { int g = pick("g", 3); for (int j = 0; j < k; j++) r[j]->group(g); break; } case 3: { int f = pick("f", 2); for (int j = 0; j < k; j++) r[j]->fn(f); break; } case 4: for (int j = 0; j < k; j++) r[j]->all(); break;
      case 5: { int c = pick("c", pre); for (int j = 0; j < k; j++) r[j]->block(c); break; } case 6: { int s = (int)sx_int("seed", 0, 1000); for (int j = 0; j < k; j++) r[j]->comb(s); break; } case 7: own.reset(); break;
      case 8: { int a = pick("act", 6), who = pick("who", 2), tgt = pick("tgt", pre); int x = (int)sx_int("x", -1000, 1000); for (int j = 0; j < k; j++) { g_act = a; g_who = who; g_tgt = tgt; r[j]->invoke(x, o[j]); } g_act = 0; for (int j = 1; j < k; j++) equal(o[0], o[j]); break; }
    }
    for (int j = 0; j < k; j++) r[j]->invoke(1, o[j]); for (int j = 1; j < k; j++) equal(o[0], o[j]); }
  sx_reach("end");
}
typedef bs2::signal<long(int), Collect> D0;
typedef bs2::signal<long(int), Collect, int, std::less<int>, BF, BEF, bs2::dummy_mutex> D1; typedef bs2::signal<long(int), Collect, int, std::less<int>, BF, BEF, UserMutex> D2;
typedef bs2::signal<long(int), Collect, Key, std::less<Key>, SF, SEF, bs2::dummy_mutex> D3; typedef bs2::signal<long(int), Collect, long, std::less<long>, CFn, CEFn, bs2::mutex> D4;
static bool less3(int a, int b) { return a < b; } typedef bs2::signal<long(int), Collect, int, bool (*)(int, int), SF, BEF, UserMutex> D5; typedef bs2::signal<long(int), Collect, int, Dir, BF, SEF, bs2::mutex> D6;
#if !defined(CFG_PART) || CFG_PART == 1
extern "C" void cfg_lock() { { Run<D0, BF> a; Run<D1, BF> b; Run<D2, BF> c; Run<D3, SF> d; IRun *r[] = {&a, &b, &c, &d}; lockstep(r, 4, P("len", 2), P("pre", 2)); } fin(); CHECK(g_umLive == 0, "user mutexes leak"); }
extern "C" void cfg_lock2() { { Run<D0, BF> a; Run<D4, CFn> b; Run<D5, SF> c(&less3); Run<D6, SF> d((Dir())); IRun *r[] = {&a, &b, &c, &d}; lockstep(r, 4, P("len", 2), P("pre", 2)); } fin(); CHECK(g_umLive == 0, "user mutexes leak"); }
#endif
#if !defined(CFG_PART) || CFG_PART == 2
// ---- arities: every argument arrives in its place, through every kind of slot
static long foldv(const long *v, int n) { return n ? v[0] * 2 + n : 11; }
static int g_vn; static long g_va[16]; static int g_vc;
struct Va { template <class... A> long operator()(const A &... a) const { long v[] = {0, (long)a...}; g_vn = sizeof...(A); g_vc++; for (int i = 0; i < g_vn; i++) g_va[i] = v[i + 1]; return foldv(v + 1, g_vn); } typedef long result_type; };
struct VaExt { typedef long result_type; template <class... A> long operator()(const Conn &c, const A &... a) const { CHECK(c.connected(), "an extended slot gets its connection"); return Va()(a...) + 1; } };
template <class... A> long vfp(A... a) { return Va()(a...); }
struct Inc { typedef void result_type; template <class... A> void operator()(A &... a) const { g_vn = sizeof...(A); g_vc++; step(1, a...); } void step(int) const {} template <class H, class... T> void step(int k, H &h, T &... t) const { h += k; step(k + 1, t...); } };
#define T0
#define T1 long
#define T2 T1, long
#define T3 T2, short
#define T4 T3, long
#define T5 T4, int
#define T6 T5, long
#define T7 T6, signed char
#define T8 T7, long
#define T9 T8, long
#define R0
#define R1 long &
#define R2 R1, long &
#define R3 R2, long &
#define R4 R3, long &
#define R5 R4, long &
#define R6 R5, long &
#define R7 R6, long &
#define R8 R7, long &
#define R9 R8, long &
#define V0
#define V1 v[0]
#define V2 V1, v[1]
#define V3 V2, v[2]
#define V4 V3, v[3]
#define V5 V4, v[4]
#define V6 V5, v[5]
#define V7 V6, v[6]
#define V8 V7, v[7]
#define V9 V8, v[8]
#define V10 V9, v[9]
#define V11 V10, v[10]
#define V12 V11, v[11]
#define B0
#define B1 , _1
#define B2 B1, _2
#define B3 B2, _3
#define B4 B3, _4
#define B5 B4, _5
#define B6 B5, _6
#define B7 B6, _7
#define B8 B7, _8
#define B9 B8, _9
using namespace boost::placeholders;
struct SumAll { typedef long result_type; int calls; SumAll() : calls(0) {} template <class I> long operator()(I a, I b) const { long s = 0; for (; a != b; ++a) s = s * 3 + *a; return s; } };
static long *g_in; static void called(int k, int n) { CHECK(g_vc == n, "number of calls"); CHECK(g_vn == k, "number of arguments"); for (int i = 0; i < k; i++) { CHECK(g_va[i] == g_in[i], "the arguments arrive in order"); g_va[i] = -1; } g_vc = 0; }
#if defined(OLD)   // without variadic templates extended slots cannot take non-const references (they are forwarded as const): does not compile
#define XREF(rs)
#define XK 1
#else
#define XREF(rs) rs.connect_extended(IncExt());
#define XK 2
#endif
#define ARITY(K) case K: { typedef bs2::signal<long(T##K), bs2::last_value<long> > S; typedef bs2::signal<long(T##K), SumAll> C; S s; C c; long f = foldv(v, K), r; g_vc = 0; Conn con; \
  CHECK(S::arity == K && S::slot_type::arity == K, "arity"); \
  switch (how) { case 0: con = s.connect(Va()); break; case 1: con = s.connect((long (*)(T##K))&vfp<T##K>); break; case 2: con = s.connect_extended(VaExt()); f++; break; case 3: con = s.connect(typename_slot_##K()); break; case 4: { Va va; con = s.connect(2, boost::ref(va)); r = s(V##K); called(K, 1); CHECK(r == f, "result"); con.disconnect(); con = s.connect(0, typename_slot_##K(), bs2::at_front); break; } case 5: con = s.connect_extended(1, VaExt(), bs2::at_front); f++; break; } \
  r = s(V##K); called(K, 1); CHECK(r == f, "result"); { const S &cs = s; r = cs(V##K); CHECK(r == f, "result of a const signal"); called(K, 1); } \
  c.connect(s); c.connect(Va()); { S q; Conn qc = c.connect(q); q.connect(Va()); r = c(V##K); CHECK(g_vc == 3, "chained"); g_vc = 1; called(K, 1); CHECK(r == (f * 3 + foldv(v, K)) * 3 + foldv(v, K), "results of chained signals"); } g_vc = 0; r = c(V##K); CHECK(r == f * 3 + foldv(v, K) && g_vc == 2, "the destroyed inner signal"); g_vc = 0; \
  { S::slot_type sl((Va())); boost::shared_ptr<int> own(new int(1)); sl.track(own); CHECK(sl(V##K) == foldv(v, K), "calling a slot"); const S::slot_type &csl = sl; called(K, 1); CHECK(csl(V##K) == foldv(v, K), "calling a const slot"); called(K, 1); S t; t.connect(sl); CHECK(t(V##K) == foldv(v, K), "result"); own.reset(); bool th = false; g_vc = 0; try { t(V##K); } catch (const bs2::no_slots_error &) { th = true; } CHECK(th && g_vc == 0 && t.empty(), "tracked"); th = false; try { sl(V##K); } catch (const bs2::expired_slot &) { th = true; } CHECK(th && g_vc == 0, "expired slot called"); t.swap(s); CHECK(t(V##K) == f && s.empty(), "swap"); con.disconnect(); CHECK(t.empty(), "disconnected"); } \
  { bs2::signal<void(R##K)> rs; rs.connect(Inc()); XREF(rs) rs.connect(boost::ref(rs_dummy(rs))); long w[12]; for (int i = 0; i < 12; i++) w[i] = v[i]; rs(V##K); for (int i = 0; i < 12; i++) CHECK(v[i] == w[i] + (i < K ? XK * (i + 1) : 0), "references reach the caller's objects"); } \
  break; }
struct IncExt { typedef void result_type; template <class... A> void operator()(const Conn &, A &... a) const { Inc()(a...); } };
struct Noop { typedef void result_type; template <class... A> void operator()(A &...) const {} };
template <class S> static Noop &rs_dummy(S &) { static Noop n; return n; }
#define SLOTK(K) static bs2::signal<long(T##K), bs2::last_value<long> >::slot_type typename_slot_##K() { typedef bs2::signal<long(T##K), bs2::last_value<long> >::slot_type SL; return SL((long (*)(T##K))&vfp<T##K> B##K); }
SLOTK(1) SLOTK(2) SLOTK(3) SLOTK(4) SLOTK(5) SLOTK(6) SLOTK(7) SLOTK(8) SLOTK(9)
static bs2::signal<long(), bs2::last_value<long> >::slot_type typename_slot_0() { return bs2::signal<long(), bs2::last_value<long> >::slot_type(boost::bind(&vfp<>)); }
extern "C" void arity() {
  { long v[12]; g_in = v; for (int i = 0; i < 12; i++) v[i] = (int)sx_int("v", -100, 100); int k = (int)sx_concrete(sx_int("arity", P("lo", 0), P("hi", 9))), how = pick("how", 6);
    switch (k) { ARITY(0) ARITY(1) ARITY(2) ARITY(3) ARITY(4) ARITY(5) ARITY(6) ARITY(7) ARITY(8) ARITY(9) }
    sx_reach("end"); }
  fin();
}
// the types a signal and its slots name: result, arguments, signature, function and comparison types
template <class A, class B> static void same(const char *m) { bool eq = std::is_same<A, B>::value; CHECK(eq, m); }
#define ARG1(S, n, T) same<typename S::template arg<n>::type, T>("arg<n>::type"); same<typename S::slot_type::template arg<n>::type, T>("arg<n>::type of the slot");
template <class S1, class S3, class S9> static void argTypes() {
  ARG1(S1, 0, char &) ARG1(S3, 0, long) ARG1(S3, 1, const Key &) ARG1(S3, 2, Key *) ARG1(S9, 0, char) ARG1(S9, 1, short) ARG1(S9, 2, int) ARG1(S9, 3, long) ARG1(S9, 4, float) ARG1(S9, 5, double) ARG1(S9, 6, bool) ARG1(S9, 7, Key) ARG1(S9, 8, void *)
  same<typename S1::argument_type, char &>("argument_type"); same<typename S1::slot_type::argument_type, char &>("argument_type of the slot"); typedef bs2::signal<int(Key, short *)> S2; same<S2::first_argument_type, Key>("first_argument_type"); same<S2::second_argument_type, short *>("second_argument_type"); same<S2::slot_type::first_argument_type, Key>("first_argument_type of the slot"); same<S2::slot_type::second_argument_type, short *>("second_argument_type of the slot");
  same<typename S1::signature_type, int(char &)>("signature_type"); same<typename S3::signature_type, void(long, const Key &, Key *)>("signature_type"); same<typename S3::slot_type::signature_type, void(long, const Key &, Key *)>("signature_type of the slot"); same<typename S1::slot_result_type, int>("slot_result_type"); same<typename S3::slot_result_type, void>("slot_result_type"); same<typename S1::result_type, long>("result_type"); same<typename S1::slot_type::result_type, int>("result_type of the slot");
  same<typename S1::group_type, Key>("group_type"); same<typename S1::group_compare_type, KeyGreater>("group_compare_type"); same<typename S1::combiner_type, Collect>("combiner_type"); same<typename S1::slot_function_type, boost::function<int(char &)> >("slot_function_type"); same<typename S1::extended_slot_function_type, boost::function<int(const Conn &, char &)> >("extended_slot_function_type"); same<typename S9::group_type, int>("group_type"); same<typename S9::group_compare_type, std::less<int> >("group_compare_type");
  CHECK(S1::arity == 1 && S3::arity == 3 && S9::arity == 9 && S9::slot_type::arity == 9 && S1::extended_slot_type::arity == 2, "arity");
}
extern "C" void arg_types() { argTypes<bs2::signal<int(char &), Collect, Key, KeyGreater>, bs2::signal<void(long, const Key &, Key *)>, bs2::signal<int(char, short, int, long, float, double, bool, Key, void *)> >(); sx_reach("end"); fin(); }
#ifndef OLD
#define T10 T9, long
#define T11 T10, long
#define T12 T11, short
#define BIG(K) case K: { typedef bs2::signal<long(T##K), bs2::last_value<long>, int, std::less<int>, std::function<long(T##K)>, std::function<long(const Conn &, T##K)> > S; S s; g_vc = 0; long f = foldv(v, K); if (how) s.connect_extended(VaExt()); else s.connect(Va()); s.connect(2, (long (*)(T##K))&vfp<T##K>); CHECK(s(V##K) == (how ? f + 1 : f) && g_vc == 2 && g_vn == K, "many arguments"); g_vc = 1; called(K, 1); break; }
extern "C" void arity_big() { { long v[12]; g_in = v; for (int i = 0; i < 12; i++) v[i] = (int)sx_int("v", -100, 100); int k = 10 + pick("k", 3), how = pick("how", 2); switch (k) { BIG(10) BIG(11) BIG(12) } sx_reach("end"); } fin(); }
#endif
#endif
#if !defined(CFG_PART) || CFG_PART == 3
// ---- signal_type: the type it names behaves as the signal with those arguments spelt out
namespace kw = bs2::keywords;
template <class T> static IRun *mkrun() { return new T; }
typedef long Sg(int);
template <class A, class F> static void pairOf(IRun *&a, IRun *&b);
#define ST(...) bs2::signal_type<__VA_ARGS__>::type
typedef std::greater<int> Gr; struct KeyG { bool operator()(const Key &x, const Key &y) const { return y < x; } };
typedef ST(Sg, kw::combiner_type<Collect>) Q0; typedef bs2::signal<Sg, Collect> X0;
typedef ST(kw::combiner_type<Collect>, kw::signature_type<Sg>, kw::mutex_type<UserMutex>) Q1; typedef bs2::signal<Sg, Collect, int, std::less<int>, BF, BEF, UserMutex> X1;
typedef ST(kw::group_compare_type<Gr>, kw::signature_type<Sg>, kw::combiner_type<Collect>) Q2; typedef bs2::signal<Sg, Collect, int, Gr> X2;
typedef ST(Sg, kw::group_type<Key>, kw::combiner_type<Collect>) Q3; typedef bs2::signal<Sg, Collect, Key> X3;
typedef ST(Sg, kw::slot_function_type<CFn>, kw::combiner_type<Collect>) Q4; typedef bs2::signal<Sg, Collect, int, std::less<int>, CFn> X4;
typedef ST(Sg, kw::extended_slot_function_type<CEFn>, kw::combiner_type<Collect>) Q5; typedef bs2::signal<Sg, Collect, int, std::less<int>, BF, CEFn> X5;
typedef ST(kw::mutex_type<UserMutex>, kw::extended_slot_function_type<CEFn>, kw::slot_function_type<CFn>, kw::group_compare_type<KeyG>, kw::group_type<Key>, kw::combiner_type<Collect>, kw::signature_type<Sg>) Q6; typedef bs2::signal<Sg, Collect, Key, KeyG, CFn, CEFn, UserMutex> X6;
typedef ST(Sg, Collect, int, Gr, CFn, CEFn, UserMutex) Q7; typedef bs2::signal<Sg, Collect, int, Gr, CFn, CEFn, UserMutex> X7;
typedef ST(Sg, kw::mutex_type<bs2::dummy_mutex>, kw::combiner_type<Collect>, kw::group_compare_type<std::greater<Key> >, kw::group_type<Key>) Q8; 
typedef ST(Sg, kw::combiner_type<Collect>, kw::group_type<Half>) Q9; typedef bs2::signal<Sg, Collect, Half> X9;
typedef ST(Sg, kw::group_type<Half>, kw::group_compare_type<std::greater<Half> >, kw::combiner_type<Collect>) Q10; typedef bs2::signal<Sg, Collect, Half, std::greater<Half> > X10;
static bool operator>(const Key &a, const Key &b) { return b < a; } typedef bs2::signal<Sg, Collect, Key, std::greater<Key>, BF, BEF, bs2::dummy_mutex> X8;
template <class Q, class X, class F> static void stPair(int len, int pre) { Run<Q, F> q; Run<X, F> x; IRun *r[] = {&q, &x}; lockstep(r, 2, len, pre); }
// the locks taken and the calls through the slot function types are counted for each of the pair
template <class Q, class X> static void stCount() { long l[2], u[2], a[2], b[2]; int live[2]; for (int k = 0; k < 2; k++) { long l0 = sx_lock_count(), u0 = g_umLocks; g_cf = g_ce = 0; g_do = 0; g_act = 0; Rec rc = {0}; ExtRec er = {1}; IRun *run = 0; (void)run; if (k == 0) { Q s; typename Q::slot_type sl(rc); s.connect(sl); typename Q::extended_slot_type el(er); s.connect_extended(typename Q::group_type(1), el); s(1); s(2); s.num_slots(); live[k] = g_umLive; } else { X s; typename X::slot_type sl(rc); s.connect(sl); typename X::extended_slot_type el(er); s.connect_extended(typename X::group_type(1), el); s(1); s(2); s.num_slots(); live[k] = g_umLive; } l[k] = sx_lock_count() - l0; u[k] = g_umLocks - u0; a[k] = g_cf; b[k] = g_ce; } CHECK(l[0] == l[1] && u[0] == u[1] && live[0] == live[1], "signal_type selects another mutex"); CHECK(a[0] == a[1] && b[0] == b[1], "signal_type selects another slot function type"); }
#define SP(K, F) case K: stCount<Q##K, X##K>(); stPair<Q##K, X##K, F>(P("len", 1), P("pre", 2)); break;
extern "C" void st_pairs() { { switch (pick("pair", 11)) { SP(0, BF) SP(1, BF) SP(2, BF) SP(3, BF) SP(4, BF) SP(5, BF) SP(6, CFn) SP(7, CFn) SP(8, BF) SP(9, BF) SP(10, BF) } } fin(); CHECK(g_umLive == 0, "user mutexes leak"); }
// the default combiner
extern "C" void st_default() { { typedef bs2::signal_type<int(int), kw::group_type<Key> >::type Q; typedef bs2::signal_type<void(), kw::mutex_type<bs2::dummy_mutex> >::type W; Q q; g_do = 0; int x = (int)sx_int("x", -50, 50); boost::optional<int> r = q(x); CHECK(!r, "the default combiner returns an empty optional without slots"); Rec rc = {pick("id", 4)}; q.connect(Key(3), rc); r = q(x); CHECK(r && *r == rc.id * 3 + x, "the default combiner returns the last result"); W w; long l0 = sx_lock_count(); int n = 0; struct Cnt { int *n; void operator()() const { ++*n; } }; Cnt c = {&n}; Conn k = w.connect(c); w(); k.disconnect(); w(); CHECK(n == 1, "void signal"); CHECK(sx_lock_count() == l0, "dummy_mutex locks nothing"); sx_reach("end"); } fin(); }
#endif
