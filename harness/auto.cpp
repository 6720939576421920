// C29: the growable buffer (detail/auto_buffer.hpp) against an array model.
#include "common.hpp"
#include <boost/signals2/detail/auto_buffer.hpp>
#include <boost/variant.hpp>
#include <new>
#define P(n, d) (int)sx_param(n, d)
using boost::signals2::detail::auto_buffer; using boost::signals2::detail::store_n_objects; using boost::signals2::detail::store_n_bytes; using boost::signals2::detail::default_grow_policy;
// element kinds: trivial, class with failing copies and a live count, shared_ptr, variant of pointers as the library uses it
static int g_els; static bool g_flt;
struct El { int v; El *self; El() : v(0), self(this) { g_els++; } explicit El(int x) : v(x), self(this) { g_els++; } El(const El &o) : v(o.v), self(this) { CHECK(o.self == &o, "a dead element is copied"); if (g_flt && sx_fault()) throw 3; g_els++; } El &operator=(const El &o) { CHECK(self == this && o.self == &o, "a dead element is assigned"); v = o.v; return *this; } ~El() { CHECK(self == this, "an element is destroyed that does not live"); self = 0; g_els--; } };
struct Pod { int v; char pad[5]; };
typedef boost::variant<boost::shared_ptr<void>, boost::signals2::detail::foreign_void_shared_ptr> Var;
template <class T> struct K; 
template <> struct K<int> { static int make(int v) { return v; } static int get(const int &t) { return t; } };
template <> struct K<El> { static El make(int v) { return El(v); } static int get(const El &t) { CHECK(t.self == &t, "an element does not live"); return t.v; } };
template <> struct K<Pod> { static Pod make(int v) { Pod p = {v, {1, 2, 3, 4, (char)v}}; return p; } static int get(const Pod &t) { CHECK(t.pad[4] == (char)t.v && t.pad[0] == 1, "an element is torn"); return t.v; } };
template <> struct K<boost::shared_ptr<int> > { static boost::shared_ptr<int> make(int v) { return boost::shared_ptr<int>(new int(v)); } static int get(const boost::shared_ptr<int> &t) { return *t; } };
template <> struct K<Var> { static Var make(int v) { if (v & 1) return Var(boost::shared_ptr<void>(new int(v))); return Var(boost::signals2::detail::foreign_void_shared_ptr(boost::shared_ptr<int>(new int(v)))); } static int get(const Var &t) { const boost::shared_ptr<void> *p = boost::get<boost::shared_ptr<void> >(&t); return p ? *static_cast<int *>(p->get()) : 2; } };
enum { CAP = 48 };
struct Model { int v[CAP], n; };
template <class B> static void same(const B &b, const Model &m) {
  typedef typename B::value_type T; CHECK((int)b.size() == m.n && b.empty() == (m.n == 0), "size"); CHECK(b.capacity() >= b.size() && b.full() == (b.size() == b.capacity()), "capacity"); CHECK(b.is_valid(), "valid");
  CHECK(b.end() - b.begin() == m.n && b.cend() - b.cbegin() == m.n && b.data() == b.begin(), "iterators"); bool ok = true; int i = 0; for (typename B::const_iterator it = b.begin(); it != b.end(); ++it, ++i) ok &= K<T>::get(*it) == m.v[i]; CHECK(ok, "elements");
  if (m.n) { CHECK(K<T>::get(b.front()) == m.v[0] && K<T>::get(b.back()) == m.v[m.n - 1] && K<T>::get(b[m.n / 2]) == m.v[m.n / 2], "front, back, operator[]"); CHECK(K<T>::get(*b.rbegin()) == m.v[m.n - 1], "rbegin"); }
}
template <class T> struct Val { static int get() { return (int)sx_int("v", -100000, 100000); } };
template <> struct Val<Var> { static int get() { static int k; return (k += 2) | 1; } };        // odd: the plain pointer, whose value is visible
template <class T, class Pol> static void hist(bool faults) {
  g_els = 0; long h0 = sx_heap_live(); g_flt = false;
  { typedef auto_buffer<T, Pol> B; B *b[2] = {new B, new B}; Model m[2]; m[0].n = m[1].n = 0;
    int pre = pick("pre", 2) ? P("pre", 2) : 0; for (int i = 0; i < pre; i++) { int x = Val<T>::get(); b[1]->push_back(K<T>::make(x)); m[1].v[m[1].n++] = x; }
    for (int k = 0; k < P("len", 4); k++) {
      int w = pick("which", 2), o = !w; B &x = *b[w]; Model &q = m[w]; bool strong = false, threw = false; int op = pick("op", P("ops", 15)); if (q.n > CAP - 8) op = 6;
      T one = K<T>::make(op == 0 || op == 14 ? Val<T>::get() : 7); T many[4] = {K<T>::make(21), K<T>::make(23), K<T>::make(25), K<T>::make(27)}; int cnt = op == 1 ? 1 + pick("cnt", 4) : op == 4 ? pick("n", 3) : op == 5 || op == 11 ? 2 * pick("cap", 5) : op == 13 ? pick("sz", 5) : 0;
      const void *data = x.data(); size_t cap = x.capacity();
      if (faults) { g_flt = true; sx_fault_budget(1); }
      try {
        switch (op) {
          case 0: strong = true; x.push_back(one); break;
          case 1: strong = true; x.push_back(many, many + cnt); break;
          case 2: if (q.n) x.pop_back(); break;
          case 3: x.clear(); break;
          case 4: if (cnt > q.n) cnt = q.n; x.pop_back_n(cnt); break;
          case 5: strong = true; x.reserve(cnt); break;
          case 6: strong = true; x.shrink_to_fit(); break;
          case 7: { if (faults) { g_flt = false; sx_fault_budget(0); } B c(x); same(c, q); CHECK(q.n == 0 || c.data() != x.data(), "a copy shares storage"); c.push_back(one); CHECK((int)c.size() == q.n + 1, "size"); break; }
          case 8: if (faults) { g_flt = false; sx_fault_budget(0); } x = *b[o]; break;
          case 9: if (faults) { g_flt = false; sx_fault_budget(0); } x.swap(*b[o]); break;
          case 10: { B *p = &x; x = *p; break; }
          case 11: strong = true; x.reserve_precisely(cnt); break;
          case 12: { if (faults) { g_flt = false; sx_fault_budget(0); } B c(many, many + pick("rng", 5)); CHECK(c.size() <= c.capacity(), "capacity"); c.swap(x); *(&x) = c; c.clear(); CHECK(c.empty() && c.size() == 0, "clear"); x = c; break; }
          case 13: { if (faults) { g_flt = false; sx_fault_budget(0); } B c((typename B::size_type)cnt, one); CHECK((int)c.size() == cnt, "size"); B d((typename B::size_type)cnt); CHECK(d.empty() && (int)d.capacity() >= cnt, "capacity"); d = c; Model mc; mc.n = cnt; for (int i = 0; i < cnt; i++) mc.v[i] = K<T>::get(one); same(c, mc); same(d, mc); break; }
          case 14: strong = true; if (q.n && x.size() < x.capacity()) { x.unchecked_push_back(one); } else op = -1; break;
        }
      } catch (const std::bad_alloc &) { threw = true; } catch (int) { threw = true; }
      sx_fault_budget(0); g_flt = false; CHECK(threw == (sx_faults_used() > 0) || !strong || !threw, "exceptions");
      if (threw) { CHECK(strong, "an operation that cannot fail failed"); }
      else switch (op) {
        case 0: case 14: q.v[q.n++] = K<T>::get(one); break; case 1: for (int i = 0; i < cnt; i++) q.v[q.n++] = 21 + 2 * i; break; case 2: if (q.n) q.n--; break; case 3: q.n = 0; break; case 4: q.n -= cnt; break; case 5: case 11: CHECK((int)x.capacity() >= cnt, "reserve"); if ((size_t)cnt <= cap) CHECK(x.data() == data && x.capacity() == cap, "reserve below the capacity moves"); break;
        case 8: q = m[o]; break; case 9: std::swap(m[0], m[1]); break; case 12: q.n = 0; break; }
      same(*b[0], m[0]); same(*b[1], m[1]); CHECK(g_els <= 0 || g_els == m[0].n + m[1].n + 5, "elements alive");
    }
    delete b[0]; CHECK(g_els == 0 || g_els == m[1].n, "elements alive"); same(*b[1], m[1]); delete b[1]; CHECK(g_els == 0, "every element is destroyed exactly once"); sx_reach("end"); }
  CHECK(sx_heap_live() == h0, "memory leaked");
}
#define E(name, T, Pol, f) extern "C" void name() { hist<T, Pol>(f); }
typedef boost::shared_ptr<int> Sp;
E(buf_int, int, store_n_objects<2>, false) E(buf_int0, int, store_n_objects<0>, false) E(buf_pod, Pod, store_n_objects<3>, false) E(buf_el, El, store_n_objects<2>, false) E(buf_el0, El, store_n_objects<0>, false) E(buf_el10, El, store_n_objects<10>, false) E(buf_sp, Sp, store_n_objects<2>, false) E(buf_var, Var, store_n_objects<2>, false) E(buf_bytes, El, store_n_bytes<40>, false)
E(buf_fault, El, store_n_objects<2>, true) E(buf_fault0, El, store_n_objects<0>, true) E(buf_fault_int, int, store_n_objects<2>, true) E(buf_fault_sp, Sp, store_n_objects<2>, true)
// long growth: every element stays, through every capacity
template <class T, class Pol> static void grow() { g_els = 0; long h0 = sx_heap_live(); { auto_buffer<T, Pol> b; Model m; m.n = 0; int n = P("n", 40), cut = (int)sx_concrete(sx_int("cut", 0, n)); for (int i = 0; i < n; i++) { int x = Val<T>::get(); b.push_back(K<T>::make(x)); m.v[m.n++] = x; if (i == cut) { int k = pick("pop", 4); for (int j = 0; j < k && m.n; j++) { b.pop_back(); m.n--; } if (pick("shrink", 2)) b.shrink_to_fit(); } same(b, m); } auto_buffer<T, Pol> c(b), d; d = b; same(c, m); same(d, m); d.swap(c); same(d, m); b.clear(); m.n = 0; b.shrink_to_fit(); same(b, m); b.swap(d); same(d, m); sx_reach("end"); } CHECK(g_els == 0, "every element is destroyed exactly once"); CHECK(sx_heap_live() == h0, "memory leaked"); }
extern "C" void grow_el() { grow<El, store_n_objects<10> >(); } extern "C" void grow_int() { grow<int, store_n_objects<10> >(); } extern "C" void grow_sp() { grow<Sp, store_n_objects<1> >(); }
