// C20, C21: deconstruct() and deconstruct_ptr() and their hooks.
#include "common.hpp"
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#define P(n, d) (int)sx_param(n, d)
struct Fail {};
static inline void mayFail() { if (sx_fault()) throw Fail(); }
static void fin() { sx_fault_budget(0); CHECK(sx_heap_live() == 0, "memory leaked"); }
enum Ev { CTOR = 1, POST, PRE, DTOR, DEL };
static int ev[64], nev; static void *evp[64]; static void log(int e, const void *p) { if (nev < 64) { ev[nev] = e; evp[nev] = (void *)p; } nev++; }
static int count(int e) { int n = 0; for (int i = 0; i < nev; i++) n += ev[i] == e; return n; }
static int at(int e) { for (int i = 0; i < nev; i++) if (ev[i] == e) return i; return -1; }
struct Res { int *p; Res() : p(new int(7)) {} ~Res() { CHECK(*p == 7, "member destroyed twice"); *p = 0; delete p; } };   // a member that notices double destruction
static boost::weak_ptr<void> g_weak; static int g_lastUse; static long g_pargs[4]; static int g_npargs;
#ifdef OLD
typedef const int &ZREF; enum { REFS = 0 };   // without forwarding, arguments arrive as references to const
#define LV const A
#else
typedef int &ZREF; enum { REFS = 1 };
#define LV A
#endif
template <class A> void setTo(A &x, long v) { x = v; } template <class A> void setTo(const A &, long) {}
namespace user {
class Obj {
public:
  template <class T> friend void adl_postconstruct(const boost::shared_ptr<T> &, Obj *); template <class T, class A> friend void adl_postconstruct(const boost::shared_ptr<T> &, Obj *, A); template <class T, class A, class B> friend void adl_postconstruct(const boost::shared_ptr<T> &, Obj *, LV &, B);
  friend void adl_predestruct(Obj *); friend class bs2::deconstruct_access;
  ~Obj() { log(DTOR, this); state = 9; }
  int state; Res r; long a, b, c; int *ref;
private:
  Obj() : state(0), a(-1), b(-1), c(-1), ref(0) { mayFail(); log(CTOR, this); state = 1; }
  explicit Obj(long x) : state(0), a(x), b(-1), c(-1), ref(0) { log(CTOR, this); state = 1; }
  Obj(long x, long y, ZREF z) : state(0), a(x), b(y), c(0), ref(const_cast<int *>(&z)) { mayFail(); log(CTOR, this); state = 1; }
};
template <class T> void post(const boost::shared_ptr<T> &sp, Obj *p) { CHECK(p->state == 1, "postconstruct on an object that is not fully built"); CHECK(sp.get() == p, "postconstruct gets the object and its owner"); CHECK(sp.use_count() >= 1, "owned"); log(POST, p); g_weak = boost::const_pointer_cast<typename boost::remove_const<T>::type>(sp); mayFail(); p->state = 2; }
template <class T> void adl_postconstruct(const boost::shared_ptr<T> &sp, Obj *p) { g_npargs = 0; post(sp, p); }
template <class T, class A> void adl_postconstruct(const boost::shared_ptr<T> &sp, Obj *p, A x) { g_npargs = 1; g_pargs[0] = x; post(sp, p); }
template <class T, class A, class B> void adl_postconstruct(const boost::shared_ptr<T> &sp, Obj *p, LV &x, B y) { g_npargs = 2; g_pargs[0] = x; g_pargs[1] = y; setTo(x, 77); post(sp, p); }
void adl_predestruct(Obj *p) { CHECK(p->state == 1 || p->state == 2, "predestruct on an object that is not complete"); CHECK(*p->r.p == 7, "members are alive in predestruct"); log(PRE, p); p->state = 3; }
}
// state expected after everything was released
static void released(bool built, bool posted) {
  CHECK(count(CTOR) == (built ? 1 : 0), "constructed once"); CHECK(count(DTOR) == (built ? 1 : 0), "destroyed exactly once");
  if (posted) { CHECK(count(POST) == 1 && count(PRE) == 1, "postconstruct and predestruct run exactly once"); CHECK(at(CTOR) < at(POST) && at(POST) < at(PRE) && at(PRE) < at(DTOR), "hooks run in order"); CHECK(at(DTOR) == at(PRE) + 1, "predestruct runs right before the destructor"); for (int i = 0; i < nev; i++) CHECK(evp[i] == evp[0], "hooks get the object itself"); }
  else CHECK(count(POST) <= 1 && count(PRE) <= 1, "hooks run at most once"); if (!built) CHECK(count(PRE) == 0 && count(POST) == 0, "hooks run on an object that was never built");
}
extern "C" void decon_basic() {
  { nev = 0; int z = 5; int form = pick("form", 6), use = pick("use", 4); long x = sx_int("x", -1000000, 1000000), y = sx_int("y", -5, 5); boost::shared_ptr<user::Obj> p;
    switch (form) {
      case 0: p = bs2::deconstruct<user::Obj>(); CHECK(g_npargs == 0, "args"); break;
      case 1: p = bs2::deconstruct<user::Obj>().postconstruct(); break;
      case 2: p = bs2::deconstruct<user::Obj>(x).postconstruct(y); CHECK(p->a == x, "constructor argument"); CHECK(g_npargs == 1 && g_pargs[0] == y, "postconstruct argument"); break;
      case 3: { int v = 3; p = bs2::deconstruct<user::Obj>(x, y, z).postconstruct(v, y); CHECK(p->a == x && p->b == y && p->ref == &z, "constructor arguments, by reference where declared"); CHECK(g_npargs == 2 && g_pargs[0] == 3 && g_pargs[1] == y && v == (REFS ? 77 : 3), "postconstruct arguments"); break; }
      case 4: { bs2::postconstructor_invoker<user::Obj> inv = bs2::deconstruct<user::Obj>(x); p = inv; boost::shared_ptr<user::Obj> q = inv.postconstruct(), r = inv; CHECK(q == p && r == p, "one object"); break; }
      case 5: { boost::shared_ptr<const user::Obj> cp = bs2::deconstruct<const user::Obj>(x); CHECK(cp->a == x && cp->state == 2, "const object"); p = boost::const_pointer_cast<user::Obj>(cp); break; }
    }
    CHECK(p && p->state == 2, "postconstruct ran before the user gets the object"); CHECK(count(CTOR) == 1 && count(POST) == 1 && count(PRE) == 0 && count(DTOR) == 0, "events"); CHECK(p.use_count() == 1, "the user owns the object alone"); CHECK(!g_weak.expired() && g_weak.lock() == p, "the owner given to postconstruct shares ownership");
    boost::weak_ptr<user::Obj> w(p);
    switch (use) { case 0: p.reset(); break; case 1: { boost::shared_ptr<user::Obj> q(p); p.reset(); CHECK(count(PRE) == 0, "still owned"); break; } case 2: { boost::shared_ptr<long> al(p, &p->a); p.reset(); CHECK(count(PRE) == 0 && w.lock(), "an alias owns the object"); break; } case 3: { boost::shared_ptr<void> v(p); p.reset(); CHECK(count(DTOR) == 0, "still owned"); break; } }
    released(true, true); CHECK(w.expired() && g_weak.expired(), "weak owners expire"); g_weak.reset(); sx_reach("end"); }
  fin();
}
extern "C" void decon_fault() {
  { nev = 0; int z = 5, form = pick("form", 3); int used0 = (int)sx_faults_used(); bool failed = false; sx_fault_budget(1); boost::shared_ptr<user::Obj> p;
    try { if (form == 0) p = bs2::deconstruct<user::Obj>(); if (form == 1) p = bs2::deconstruct<user::Obj>(1, 2, z).postconstruct(); if (form == 2) p = bs2::deconstruct<user::Obj>(4).postconstruct(5); }
    catch (const Fail &) { failed = true; } catch (const std::bad_alloc &) { failed = true; }
    sx_fault_budget(0); CHECK(failed == (sx_faults_used() > used0), "the exception reaches the caller"); bool built = count(CTOR) == 1; if (failed) sx_reach("failed"); CHECK(!failed == !!p, "result"); g_weak.reset(); p.reset(); released(built, !failed); sx_reach("end"); }
  fin();
}
// an object of any size and alignment, created from itself, passing itself around
struct Big { double d[5]; char tail[3]; Res r; bool posted; int sym; explicit Big(int s) : posted(false), sym(s) { CHECK(((uintptr_t)this & 15) % alignof(Big) == 0, "alignment"); for (int i = 0; i < 5; i++) d[i] = i; tail[2] = 'z'; } ~Big() { CHECK(d[4] == 4 && tail[2] == 'z' && posted, "object damaged"); log(DTOR, this); } };
static boost::shared_ptr<Big> g_keep;
void adl_postconstruct(const boost::shared_ptr<Big> &sp, Big *b) { b->posted = true; if (b->sym == 1) g_keep = sp; if (b->sym == 2) { boost::shared_ptr<Big> t(sp); t.reset(); } }
struct Esft : boost::enable_shared_from_this<Esft> { Res r; explicit Esft(int k) { if (k == 1) mayFail(); } ~Esft() { log(DTOR, this); } }; template <class T> void adl_postconstruct(const boost::shared_ptr<T> &sp, Esft *e) { boost::shared_ptr<Esft> me = e->shared_from_this(); CHECK(me == sp, "shared_from_this() in postconstruct"); log(POST, e); }
struct Nothing { Res r; int v; Nothing(int x) : v(x) {} }; template <class T> void adl_postconstruct(const boost::shared_ptr<T> &, Nothing *n) { n->v++; }   // no predestruct
namespace bs { struct B2 { int k; B2() : k(0) {} virtual ~B2() { log(DTOR, this); } }; struct D2 : B2 { Res r; ~D2() { CHECK(k == 5, "predestruct of the base hook ran"); } }; template <class T> void adl_postconstruct(const boost::shared_ptr<T> &, B2 *b) { b->k = 4; log(POST, b); } void adl_predestruct(B2 *b) { CHECK(b->k == 4, "once"); b->k = 5; log(PRE, b); } }
extern "C" void decon_kinds() {
  { nev = 0; int k = pick("kind", 4), s = pick("s", 3);
    if (k == 0) { boost::shared_ptr<Big> p = bs2::deconstruct<Big>(s); CHECK(p->posted && p->sym == s, "posted"); CHECK(p.use_count() == (s == 1 ? 2 : 1), "owners"); p.reset(); CHECK((count(DTOR) == 1) == (s != 1), "the owner kept by postconstruct keeps the object"); g_keep.reset(); CHECK(count(DTOR) == 1, "destroyed once"); }
    if (k == 1) { boost::shared_ptr<Esft> p = bs2::deconstruct<Esft>(0), q = p->shared_from_this(); CHECK(q == p && p.use_count() == 2, "shared_from_this"); p.reset(); CHECK(count(DTOR) == 0, "owned"); q.reset(); CHECK(count(DTOR) == 1 && count(POST) == 1, "destroyed once"); }
    if (k == 2) { boost::shared_ptr<Nothing> p = bs2::deconstruct<Nothing>(s); CHECK(p->v == s + 1, "postconstructed once"); }
    if (k == 3) { boost::shared_ptr<bs::B2> p = boost::shared_ptr<bs::D2>(bs2::deconstruct<bs::D2>()); CHECK(p->k == 4, "hook of a base"); p.reset(); CHECK(count(DTOR) == 1 && count(PRE) == 1, "once"); }
    sx_reach("end"); }
  fin();
}
// two objects, built, copied, released in any order
extern "C" void decon_many() {
  { nev = 0; boost::shared_ptr<user::Obj> p[3]; int made = 0, z = 1;
    for (int i = 0; i < P("len", 5); i++) switch (pick("op", 5)) { case 0: { int j = pick("j", 3); p[j] = bs2::deconstruct<user::Obj>(i, j, z); made++; CHECK(p[j]->a == i && p[j]->b == j && p[j]->state == 2, "object"); break; } case 1: p[pick("j", 3)].reset(); break; case 2: p[0] = p[1]; break; case 3: p[1].swap(p[2]); break; case 4: { boost::shared_ptr<user::Obj> q(p[2]); p[2].reset(); p[0] = q; break; } }
    for (int i = 0; i < 3; i++) p[i].reset(); g_weak.reset(); CHECK(count(CTOR) == made && count(POST) == made && count(PRE) == made && count(DTOR) == made, "each object gets its hooks once"); sx_reach("end"); }
  fin();
}
// ---- C21
static int post_fail;
struct Post : bs2::postconstructible { Res r; int st; Post() : st(1) { log(CTOR, this); } ~Post() { log(DTOR, this); CHECK(st != 9, "deleted twice"); st = 9; } protected: virtual void postconstruct() { CHECK(st == 1, "postconstruct on a complete object, once"); log(POST, this); mayFail(); st = 2; } };
struct Pred : bs2::predestructible { Res r; int st; Pred() : st(1) { log(CTOR, this); } ~Pred() { log(DTOR, this); } protected: virtual void predestruct() { CHECK(st == 1, "predestruct on a complete object, once"); log(PRE, this); st = 3; } };
struct Both : bs2::postconstructible, bs2::predestructible { Res r; int st; Both() : st(1) { log(CTOR, this); } virtual ~Both() { log(DTOR, this); } protected: virtual void postconstruct() { CHECK(st == 1, "postconstruct once"); log(POST, this); mayFail(); st = 2; } virtual void predestruct() { CHECK(st == 1 || st == 2, "predestruct once"); log(PRE, this); st = 3; } };
struct DBoth : Both { Res q; virtual void postconstruct() { Both::postconstruct(); CHECK(*q.p == 7, "derived part built"); } virtual void predestruct() { CHECK(*q.p == 7, "derived part still there"); Both::predestruct(); } };
struct Plain { Res r; Plain() { log(CTOR, this); } ~Plain() { log(DTOR, this); } };
template <class T> struct Del { void operator()(T *p) const { log(DEL, p); delete p; } };
template <class T> static void one(bool hasPost, bool hasPre) {
  nev = 0; int custom = pick("deleter", 2), cst = pick("const", 2); int used0 = (int)sx_faults_used(); bool failed = false, raw = false; boost::shared_ptr<const T> p; T *o = new T; sx_fault_budget(1);
  try { if (custom) p = bs2::deconstruct_ptr(o, Del<T>()); else if (cst) p = bs2::deconstruct_ptr<const T>(o); else p = bs2::deconstruct_ptr(o); }
  catch (const Fail &) { failed = true; } catch (const std::bad_alloc &) { failed = true; raw = true; }
  sx_fault_budget(0); (void)raw; CHECK(failed == (sx_faults_used() > used0), "the exception reaches the caller"); CHECK(count(CTOR) == 1, "made");
  if (failed) { CHECK(!p && count(DTOR) == 1, "after a failure the object is deleted exactly once"); sx_reach("failed"); }
  else {
    CHECK(p.get() == o && p.use_count() == 1, "owns the pointer given"); CHECK(count(POST) == (hasPost ? 1 : 0), "postconstruct ran once, on postconstructible objects only"); CHECK(count(PRE) == 0 && count(DTOR) == 0, "alive");
    boost::shared_ptr<const T> q(p); p.reset(); CHECK(count(PRE) == 0 && count(DTOR) == 0, "still owned"); q.reset(); CHECK(count(DTOR) == 1, "deleted exactly once"); CHECK(count(PRE) == (hasPre && !custom ? 1 : 0), "predestruct ran once, on predestructible objects only"); if (hasPre && !custom) CHECK(at(PRE) < at(DTOR), "predestruct before delete"); if (custom) CHECK(count(DEL) == 1, "the deleter given is used once"); }
  CHECK(count(POST) <= 1 && count(PRE) <= 1, "hooks run at most once");
}
extern "C" void dptr() { switch (pick("type", 5)) { case 0: one<Post>(true, false); break; case 1: one<Pred>(false, true); break; case 2: one<Both>(true, true); break; case 3: one<DBoth>(true, true); break; case 4: one<Plain>(false, false); break; } sx_reach("end"); fin(); }
extern "C" void dptr_null() { nev = 0; { boost::shared_ptr<Both> a = bs2::deconstruct_ptr(static_cast<Both *>(0)); CHECK(!a, "null"); boost::shared_ptr<Both> b = bs2::deconstruct_ptr(static_cast<Both *>(0), Del<Both>()); CHECK(!b, "null"); boost::shared_ptr<Both> c(bs2::deconstruct_ptr(new DBoth)); boost::shared_ptr<Both> d; d.swap(c); bs2::predestructing_deleter<Both> del; Both *raw = new Both; del(raw); } CHECK(count(DTOR) == 2 && count(PRE) == 2, "each deleted once"); sx_reach("end"); fin(); }
extern "C" void dptr_many() {
  nev = 0; { boost::shared_ptr<Both> p[3]; int made = 0; for (int i = 0; i < P("len", 5); i++) switch (pick("op", 4)) { case 0: p[pick("j", 3)] = bs2::deconstruct_ptr(new Both); made++; break; case 1: p[pick("j", 3)].reset(); break; case 2: p[0] = p[1]; break; case 3: { boost::shared_ptr<Both> q(p[2]); p[2] = boost::shared_ptr<Both>(bs2::deconstruct_ptr<Both>(new DBoth)); made++; break; } } for (int i = 0; i < 3; i++) p[i].reset(); CHECK(count(CTOR) == made && count(POST) == made && count(PRE) == made && count(DTOR) == made, "each object gets its hooks once"); sx_reach("end"); }
  fin();
}
// ---- argument passing: values, references, move-only, many arguments
struct Mo { int v; explicit Mo(int x) : v(x) {} Mo(Mo &&o) : v(o.v) { o.v = -1; } Mo(const Mo &) = delete; };
struct Args { long sum; int moved; const void *addr; Res r; bool posted; long psum;
  Args(long a, long b) : sum(a * 2 + b * 3), moved(0), addr(0), posted(false), psum(0) {} Args(long a, long b, long c) : sum(a * 2 + b * 3 + c * 5), moved(0), addr(0), posted(false), psum(0) {} Args(long a, long b, long c, long d) : sum(a * 2 + b * 3 + c * 5 + d * 7), moved(0), addr(0), posted(false), psum(0) {}
  Args(long a, long b, long c, long d, long e, long f, long g, long h, long i) : sum(a * 2 + b * 3 + c * 5 + d * 7 + e * 11 + f * 13 + g * 17 + h * 19 + i * 23), moved(0), addr(0), posted(false), psum(0) {}
#ifndef OLD
  Args(Mo m, int &lref, const int &cref) : sum(0), moved(m.v), addr(&cref), posted(false), psum(0) { lref++; } Args(const Mo &m, int) : sum(0), moved(m.v), addr(&m), posted(false), psum(0) {}
#endif
};
struct Ar { long s; int n; bool posted; long ps; int pn; Res r; template <class... A> explicit Ar(const A &... a) : s(0), n(0), posted(false), ps(0), pn(-1) { long v[] = {0, (long)a...}; n = sizeof...(A); for (int i = 1; i <= n; i++) s = s * 31 + v[i] * i; } };
template <class T, class... A> void adl_postconstruct(const boost::shared_ptr<T> &sp, Ar *p, const A &... a) { CHECK(sp.get() == p && !p->posted, "hook"); p->posted = true; long v[] = {0, (long)a...}; p->pn = sizeof...(A); for (int i = 1; i <= p->pn; i++) p->ps = p->ps * 31 + v[i] * i; }
static long fold(const long *a, int n) { long s = 0; for (int i = 1; i <= n; i++) s = s * 31 + a[i - 1] * i; return s; }
#define L0
#define L1 a[0]
#define L2 L1, a[1]
#define L3 L2, a[2]
#define L4 L3, a[3]
#define L5 L4, a[4]
#define L6 L5, a[5]
#define L7 L6, a[6]
#define L8 L7, a[7]
#define L9 L8, a[8]
#define CT(K) case K: { boost::shared_ptr<Ar> q = how == 1 ? boost::shared_ptr<Ar>(bs2::deconstruct<Ar>(L##K).postconstruct()) : boost::shared_ptr<Ar>(bs2::deconstruct<Ar>(L##K)); p = q; CHECK(p->n == K && p->s == fold(a, K), "constructor arguments"); CHECK(p->pn == 0, "postconstruct arguments"); break; }
#define PT(K) case K: p = bs2::deconstruct<Ar>(a[8], a[0]).postconstruct(L##K); CHECK(p->n == 2 && p->s == a[8] * 31 + a[0] * 2, "constructor arguments"); CHECK(p->pn == K && p->ps == fold(a, K), "postconstruct arguments"); break;
extern "C" void decon_arity() {
  { long a[9]; for (int i = 0; i < 9; i++) a[i] = sx_int("a", -100, 100); boost::shared_ptr<Ar> p; int n = pick("n", 10), how = pick("how", 3);
    if (how < 2) switch (n) { CT(0) CT(1) CT(2) CT(3) CT(4) CT(5) CT(6) CT(7) CT(8) CT(9) } else switch (n) { PT(0) PT(1) PT(2) PT(3) PT(4) PT(5) PT(6) PT(7) PT(8) PT(9) }
    CHECK(p->posted && p.use_count() == 1, "postconstructed"); boost::weak_ptr<Ar> w(p); p.reset(); CHECK(w.expired(), "released"); sx_reach("end"); }
  fin();
}
template <class T> void adl_postconstruct(const boost::shared_ptr<T> &, Args *p) { p->posted = true; }
template <class T> void adl_postconstruct(const boost::shared_ptr<T> &, Args *p, long a, long b, long c) { p->posted = true; p->psum = a + 10 * b + 100 * c; }
template <class T> void adl_postconstruct(const boost::shared_ptr<T> &, Args *p, long a, long b, long c, long d, long e, long f, long g, long h, long i) { p->posted = true; p->psum = a * 2 + b * 3 + c * 5 + d * 7 + e * 11 + f * 13 + g * 17 + h * 19 + i * 23; }
extern "C" void decon_args() {
  { long a[9]; for (int i = 0; i < 9; i++) a[i] = sx_int("a", -100, 100); boost::shared_ptr<Args> p; long all = a[0] * 2 + a[1] * 3 + a[2] * 5 + a[3] * 7 + a[4] * 11 + a[5] * 13 + a[6] * 17 + a[7] * 19 + a[8] * 23;
    switch (pick("form", 7)) {
      case 0: p = bs2::deconstruct<Args>(a[0], a[1]); CHECK(p->sum == a[0] * 2 + a[1] * 3, "arguments"); break;
      case 1: p = bs2::deconstruct<Args>(a[0], a[1], a[2]); CHECK(p->sum == a[0] * 2 + a[1] * 3 + a[2] * 5, "arguments"); break;
      case 2: p = bs2::deconstruct<Args>(a[0], a[1], a[2], a[3]).postconstruct(a[4], a[5], a[6]); CHECK(p->sum == a[0] * 2 + a[1] * 3 + a[2] * 5 + a[3] * 7 && p->psum == a[4] + 10 * a[5] + 100 * a[6], "arguments"); break;
      case 3: p = bs2::deconstruct<Args>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); CHECK(p->sum == all, "arguments"); break;
      case 4: p = bs2::deconstruct<Args>(1, 2).postconstruct(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); CHECK(p->psum == all, "postconstruct arguments"); break;
#ifndef OLD
      case 5: { Mo m(5); int l = 3; const int c = 4; p = bs2::deconstruct<Args>(std::move(m), l, c); CHECK(p->moved == 5 && m.v == -1 && l == 4 && p->addr == &c, "arguments keep their value category"); break; }
      case 6: { Mo m(6); p = bs2::deconstruct<Args>(m, 1); CHECK(p->moved == 6 && m.v == 6 && p->addr == &m, "an lvalue is not moved from"); break; }
#else
      default: p = bs2::deconstruct<Args>(1, 2); break;
#endif
    }
    CHECK(p->posted && p.use_count() == 1, "postconstructed"); sx_reach("end"); }
  fin();
}
