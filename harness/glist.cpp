// C01, C12: the grouped list under every signal, driven directly: any history
// of insertions, erasures, range erasures, copies and clears against a plain
// array of (position kind, group, value).
#include "common.hpp"
#include <functional>
#include <boost/signals2/detail/slot_groups.hpp>
namespace d = boost::signals2::detail;
typedef d::grouped_list<int, std::less<int>, int> GL; typedef GL::group_key_type Key; typedef d::group_key_less<int, std::less<int> > KL;
struct Model {
  enum { MAX = 14 }; int v[MAX]; Key k[MAX]; int n = 0;
  static int cmp(const Key &a, const Key &b) { if (a.first != b.first) return a.first < b.first ? -1 : 1; if (a.first != d::grouped_slots) return 0; return *a.second < *b.second ? -1 : *b.second < *a.second; }
  void insert(const Key &key, int val, bool front) { int p = 0; if (front) while (p < n && cmp(k[p], key) < 0) p++; else while (p < n && cmp(k[p], key) <= 0) p++; for (int i = n; i > p; i--) { v[i] = v[i - 1]; k[i] = k[i - 1]; } v[p] = val; k[p] = key; n++; }
  void erase(int p) { for (int i = p; i + 1 < n; i++) { v[i] = v[i + 1]; k[i] = k[i + 1]; } n--; }
  int lower(const Key &key) { int p = 0; while (p < n && cmp(k[p], key) < 0) p++; return p; }
  int upper(const Key &key) { int p = 0; while (p < n && cmp(k[p], key) <= 0) p++; return p; }
};
static Key key() { int kd = pick("kd", 3); if (kd == 0) return Key(d::front_ungrouped_slots, boost::optional<int>()); if (kd == 1) return Key(d::back_ungrouped_slots, boost::optional<int>()); return Key(d::grouped_slots, boost::optional<int>((int)sx_int("g", 0, sx_param("groups", 3) - 1))); }
static void same(GL &l, Model &m, const Key &q) {
  int i = 0; for (GL::iterator it = l.begin(); it != l.end(); ++it, i++) CHECK(i < m.n && *it == m.v[i], "the grouped list is out of order"); CHECK(i == m.n, "the grouped list lost or gained an element");
  GL::iterator a = l.begin(); for (int k = 0; k < m.lower(q); k++) ++a; CHECK(l.lower_bound(q) == a, "lower_bound is not the first element of the group"); for (int k = m.lower(q); k < m.upper(q); k++) ++a; CHECK(l.upper_bound(q) == a, "upper_bound is not the end of the group");
}
static void hist(int len, bool copies) {
  { d::group_key_less<int, std::less<int> > less((std::less<int>())); GL *l = new GL(less); Model m; int pre = (int)sx_param("pre", 0), val = 0;
    for (int s = 0; s < pre; s++) { Key q = key(); l->push_back(q, val); m.insert(q, val++, false); }
    for (int s = 0; s < len; s++) {
      switch (pick("op", copies ? 6 : 4)) {
        case 0: { Key q = key(); l->push_back(q, val); m.insert(q, val++, false); break; }
        case 1: { Key q = key(); l->push_front(q, val); m.insert(q, val++, true); break; }
        case 2: { sx_assume(m.n > 0); int p = pick("p", m.n); GL::iterator it = l->begin(); for (int i = 0; i < p; i++) ++it; Key q = m.k[p]; GL::iterator nx = it; ++nx; GL::iterator r = l->erase(q, it); CHECK(r == nx, "erase does not return the next element"); m.erase(p); break; }
        case 3: { Key q = key(); l->erase(q); int a = m.lower(q), b = m.upper(q); for (int i = a; i < b; i++) m.erase(a); break; }
        case 4: { GL *c = new GL(*l); if (pick("side", 2)) { delete l; l = c; } else { c->push_back(key(), 99); delete c; } break; }
        case 5: l->clear(); m.n = 0; break;
      }
    }
    for (int k = 0; k < 3; k++) { Key q = k == 0 ? Key(d::front_ungrouped_slots, boost::optional<int>()) : k == 1 ? Key(d::back_ungrouped_slots, boost::optional<int>()) : Key(d::grouped_slots, boost::optional<int>((int)sx_int("q", 0, sx_param("groups", 3) - 1))); same(*l, m, q); }
    delete l; sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void gl_hist() { hist((int)sx_param("len", 4), false); }
extern "C" void gl_copy() { hist((int)sx_param("len", 3), true); }
