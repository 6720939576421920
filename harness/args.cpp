// C02, C09: what slots receive: arguments by value, by reference, by pointer,
// move-only, of class type, for every number of slots and kind of slot.
#include "common.hpp"
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>
#include <functional>
#include <memory>
#include <string>
#define P(n, d) (int)sx_param(n, d)
static void fin() { CHECK(sx_heap_live() == 0, "memory leaked"); CHECK(sx_mutexes_held() == 0, "a lock is still held"); }
using namespace boost::placeholders;
// a value that notices being moved from, copied from a dead object, or changed
static int g_objs;
struct Val { int v; int *own; explicit Val(int k) : v(k), own(new int(k)) { g_objs++; } Val(const Val &o) : v(o.v), own(new int(*o.own)) { CHECK(o.own && *o.own == o.v, "an argument is copied from a moved-from object"); g_objs++; }
  Val(Val &&o) : v(o.v), own(o.own) { o.own = new int(-1); o.v = -1; g_objs++; } Val &operator=(const Val &o) { v = o.v; *own = *o.own; return *this; } Val &operator=(Val &&o) { v = o.v; std::swap(own, o.own); o.v = -1; *o.own = -1; return *this; } ~Val() { delete own; own = 0; g_objs--; } int get() const { CHECK(own && *own == v, "an argument is in pieces"); return v; } };
static int g_want[4]; static int g_calls[8];
static void seen(int id, const Val &a, const Val &b, const Val &c, int d) { g_calls[id]++; CHECK(a.get() == g_want[0] && b.get() == g_want[1] && c.get() == g_want[2] && d == g_want[3], "a slot gets other arguments than the invocation was given"); }
static const Val *g_cref; static Val *g_ref;
// slots taking everything by value (and destroying their copies), by reference, by const reference
struct ByVal { int id; int operator()(Val a, Val b, Val &c, int d) const { g_log.add(id, d); seen(id, a, b, c, d); CHECK(&c == g_ref, "a reference argument is another object"); Val x(std::move(a)); Val y(std::move(b)); a.v = 5; *a.own = 5; return id + d; } };
struct ByRef { int id; int operator()(const Val &a, const Val &b, Val &c, int d) const { g_log.add(id, d); seen(id, a, b, c, d); CHECK(&b == g_cref && &c == g_ref, "a reference argument is another object"); return id + d; } };
struct Sneaky { int id; template <class A> int operator()(A &&a, const Val &b, Val &c, int d) const { g_log.add(id, d); seen(id, a, b, c, d); return id + d; } };
struct Generic { int id; template <class A, class B, class C, class D> int operator()(A &&a, B &&b, C &&c, D &&d) const { g_log.add(id, d); seen(id, a, b, c, d); Val x(std::forward<A>(a)); return id + d; } };
static int freeVal(Val a, const Val &b, Val &c, int d) { return ByVal{4}(a, b, c, d); }
struct Meth { int id; int m(Val a, Val b, Val &c, int d) { return ByVal{id}(std::move(a), std::move(b), c, d); } };
struct ExtVal { int id; int operator()(const bs2::connection &k, Val a, const Val &b, Val &c, int d) const { CHECK(k.connected(), "connected"); return ByVal{id}(std::move(a), b, c, d); } };
struct SumInt { typedef int result_type; template <class It> int operator()(It a, It b) const { int s = 0; for (; a != b; ++a) { s = s * 7 + *a; s += 0 * *a; } return s; } };
template <class S, class B> static bs2::connection refc(S &s, const boost::reference_wrapper<ByRef> &r, boost::function<B> *) { return s.connect(r); }
template <class S, class B> static bs2::connection refc(S &s, const boost::reference_wrapper<ByRef> &r, std::function<B> *) { return s.connect(std::ref(r.get())); }
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES   // there extended slots take no non-const references
template <class Sig> static bs2::connection extc(Sig &s, int id) { return s.connect(ByVal{id}); }
#else
template <class Sig> static bs2::connection extc(Sig &s, int id) { return s.connect_extended(ExtVal{id}); }
#endif
template <class Sig> static bs2::connection conn(Sig &s, int form, int id, Meth *m, const boost::reference_wrapper<ByRef> &r) {
  switch (form) {
    case 0: return s.connect(ByVal{id}); case 1: return s.connect(ByRef{id}); case 2: return s.connect(Generic{id}); case 3: m->id = id; return s.connect(typename Sig::slot_type(&Meth::m, m, _1, _2, _3, _4)); case 4: return extc(s, id); case 5: r.get().id = id; return refc(s, r, (typename Sig::slot_function_type *)0); default: return s.connect(Sneaky{id});
  }
}
template <bool nested, class S> struct Nest { static void go(S &, S &) {} }; template <class S> struct Nest<true, S> { static void go(S &o, S &i) { o.connect(i); o.connect(0, i); } };
template <bool nested, class Sig> static void values() {
  { Sig sig, in; Meth m[4]; ByRef br[4]; int n = 1 + nested + pick("n", P("n", 3) - nested); g_want[0] = (int)sx_int("a", -1000, 1000); g_want[1] = (int)sx_int("b", -1000, 1000); g_want[2] = (int)sx_int("c", -1000, 1000); g_want[3] = (int)sx_int("d", -1000, 1000); g_objs = 0; for (int i = 0; i < 8; i++) g_calls[i] = 0;
    for (int i = 0; i < n; i++) { br[i].id = i; conn(nested && (i & 1) ? in : sig, pick("form", 7), i, &m[i], boost::ref(br[i])); } Nest<nested, Sig>::go(sig, in);
    { Val a(g_want[0]), b(g_want[1]), c(g_want[2]); g_cref = &b; g_ref = &c; g_log.clear(); int before = g_objs; if (pick("const", 2)) { const Sig &k = sig; k(a, b, c, g_want[3]); } else sig(a, b, c, g_want[3]); CHECK(g_objs == before, "copies of an argument leak"); CHECK(a.get() == g_want[0] && b.get() == g_want[1] && c.get() == g_want[2], "the caller's objects are changed");
      for (int i = 0; i < n; i++) CHECK(g_calls[i] == (nested && (i & 1) ? 2 : 1), "calls"); sig(Val(g_want[0]), b, c, g_want[3]); for (int i = 0; i < n; i++) CHECK(g_calls[i] == (nested && (i & 1) ? 4 : 2), "calls with a temporary"); }
    CHECK(g_objs == 0, "copies of an argument leak"); sx_reach("end"); }
  fin();
}
extern "C" void args_int() { values<false, bs2::signal<int(Val, const Val &, Val &, int)> >(); }
extern "C" void args_void() { values<false, bs2::signal<void(Val, const Val &, Val &, int)> >(); }
extern "C" void args_comb() { values<false, bs2::signal<int(Val, const Val &, Val &, int), SumInt> >(); }
extern "C" void args_chain() { values<true, bs2::signal<int(Val, const Val &, Val &, int), bs2::last_value<int> > >(); }
#ifndef OLD
extern "C" void args_std() { values<false, bs2::signal<int(Val, const Val &, Val &, int), bs2::optional_last_value<int>, int, std::less<int>, std::function<int(Val, const Val &, Val &, int)>, std::function<int(const bs2::connection &, Val, const Val &, Val &, int)> > >(); }
#endif
// what a slot does to a reference or pointer argument is seen by later slots and the caller
struct Push { int id; void operator()(std::string &s, std::unique_ptr<int> &u, Val *v, boost::shared_ptr<int> p) const { g_log.add(id, (long)s.size()); s += (char)('a' + id); if (u) { *u = *u * 10 + id; if (id == g_calls[7]) u.reset(); } v->v = v->v * 10 + id; *v->own = v->v; CHECK(p && *p == 3, "a shared pointer argument"); p.reset(); } };
extern "C" void args_refs() {
  { typedef bs2::signal<void(std::string &, std::unique_ptr<int> &, Val *, boost::shared_ptr<int>)> Sig; Sig sig; int n = 1 + pick("n", 3), ord[3]; g_calls[7] = pick("rel", 4); for (int i = 0; i < n; i++) { int f = pick("front", 2); sig.connect(Push{i}, f ? bs2::at_front : bs2::at_back); if (f) { for (int k = i; k > 0; k--) ord[k] = ord[k - 1]; ord[0] = i; } else ord[i] = i; }
    std::string s; std::unique_ptr<int> u(new int(0)); Val v(0); boost::shared_ptr<int> p(new int(3)); g_log.clear(); sig(s, u, &v, p); CHECK(p.use_count() == 1 && *p == 3, "the caller's pointer"); CHECK((int)s.size() == n && g_log.n == n, "length"); int w = 0, wu = 0; bool gone = false; for (int k = 0; k < n; k++) { CHECK(s[k] == (char)('a' + ord[k]) && g_log.arg[k] == k, "what one slot does to a reference argument is seen by the next"); w = w * 10 + ord[k]; if (!gone) wu = wu * 10 + ord[k]; if (ord[k] == g_calls[7]) gone = true; } CHECK(v.get() == w, "pointer argument"); CHECK(gone == !u && (gone || *u == wu), "a move-only object passed by reference"); sx_reach("end"); }
  fin();
}
// values of several sizes and alignments side by side, converted on the way in
struct Wide { double d[3]; char c; }; struct Odd { char c[5]; }; enum Color { RED = -1, BLUE = 200 };
static int g_k; struct Kinds { int id; long operator()(char a, Odd b, short c, Wide d, bool e, long long f, Color g, const char *h, float) const { g_log.add(id, a); CHECK(a == (char)g_want[0] && b.c[0] == a && b.c[4] == 'z' && c == (short)g_want[1] && d.d[2] == 2.5 && d.c == 'q' && e == (g_want[2] > 0) && f == (long long)g_want[1] * 100000000000LL && g == BLUE && h == (const char *)&g_k, "argument kinds"); return id; } };
extern "C" void args_kinds() {
  { bs2::signal<long(char, Odd, short, Wide, bool, long long, Color, const char *, float)> sig; for (int i = 0; i < 3; i++) g_want[i] = (int)sx_int("v", -100000, 100000); int n = pick("n", 4); for (int i = 0; i < n; i++) sig.connect(Kinds{i}); Odd o = {{(char)g_want[0], 0, 0, 0, 'z'}}; Wide w = {{0, 1, 2.5}, 'q'}; g_log.clear(); boost::optional<long> r = sig((char)g_want[0], o, (short)g_want[1], w, g_want[2] > 0, (long long)g_want[1] * 100000000000LL, BLUE, (const char *)&g_k, 1.5f); CHECK(g_log.n == n && !!r == (n > 0) && (!n || *r == n - 1), "calls"); sx_reach("end"); }
  fin();
}
