// C05: pools of connection and scoped_connection handles over two slots of one
// signal, next to a model that tracks what each handle refers to.
#include "common.hpp"
#include <boost/utility/in_place_factory.hpp>
typedef bs2::signal<void(int)> Sig;
struct Pool {
  enum { NP = 2, NS = 2, NC = 2 };
  boost::optional<Sig> sig; bool live[NC];
  boost::optional<bs2::connection> p[NP]; int pt[NP];             // -1: refers to nothing
  boost::optional<bs2::scoped_connection> s[NS]; int st[NS];
  Pool() {
    sig = boost::in_place();
    for (int i = 0; i < NP; i++) { p[i] = boost::in_place(); pt[i] = -1; }
    for (int i = 0; i < NS; i++) { s[i] = boost::in_place(); st[i] = -1; }
    for (int c = 0; c < NC; c++) live[c] = true;
    *p[0] = sig->connect(Fn(0)); pt[0] = 0; *p[1] = sig->connect(Fn(1)); pt[1] = 1;
  }
  void kill(int t) { if (t >= 0) live[t] = false; }
  bool up(int t) { return t >= 0 && live[t]; }
  bool alive(int t) { return t >= 0 && sig; }                     // the connection record still exists (nothing is ever collected: no later connect or call)
  void check(bool end) {
    for (int i = 0; i < NP; i++) if (p[i]) { CHECK(p[i]->connected() == up(pt[i]), "connected() of a connection"); CHECK(p[i]->blocked() == !up(pt[i]), "blocked() of a connection"); }
    for (int i = 0; i < NS; i++) if (s[i]) { CHECK(s[i]->connected() == up(st[i]), "connected() of a scoped_connection"); CHECK(s[i]->blocked() == !up(st[i]), "blocked() of a scoped_connection"); }
    // identity, as far as a live connection is involved
    for (int i = 0; i < NP; i++) for (int j = 0; j < NP; j++) if (p[i] && p[j]) cmp(*p[i], pt[i], *p[j], pt[j]);
    for (int i = 0; i < NS; i++) for (int j = 0; j < NP; j++) if (s[i] && p[j]) cmp(*s[i], st[i], *p[j], pt[j]);
    for (int i = 0; i < NS; i++) for (int j = 0; j < i; j++) if (s[i] && s[j]) cmp(*s[i], st[i], *s[j], st[j]);
    if (end && sig) { g_log.clear(); (*sig)(1); int w = 0; for (int c = 0; c < NC; c++) if (live[c]) { CHECK(w < g_log.n && g_log.id[w] == c, "a slot whose connection was never disconnected is gone"); w++; } CHECK(g_log.n == w, "a disconnected slot was called"); }
  }
  void cmp(const bs2::connection &a, int x, const bs2::connection &b, int y) {
    if (!up(x) && !up(y)) { CHECK(!((a < b) && (b < a)), "operator< is not antisymmetric"); CHECK((a == b) != (a != b), "== and != agree"); if (x == -1 && y == -1) CHECK(a == b, "two empty handles differ"); return; }
    CHECK((a == b) == (x == y), "operator== does not follow the identity of the connection"); CHECK((a != b) == (x != y), "operator!="); 
    CHECK((a < b || b < a) == (x != y), "operator< is not consistent with =="); CHECK(!((a < b) && (b < a)), "operator< is not antisymmetric");
  }
  void step() {
    switch (pick("op", 16)) {
      case 0: { int i = pick("i", NP), j = pick("j", NP); *p[i] = *p[j]; pt[i] = pt[j]; break; }
      case 1: { int i = pick("i", NP), j = pick("j", NP); *p[i] = std::move(*p[j]); if (i != j) { pt[i] = pt[j]; pt[j] = -1; } break; }
      case 2: { int i = pick("i", NP), j = 1 - i; p[i] = boost::none; p[i] = boost::in_place(boost::cref(*p[j])); pt[i] = pt[j]; break; }
      case 3: { bs2::connection t(std::move(*p[0])); int x = pt[0]; cmp(t, x, *p[1], pt[1]); CHECK(!p[0]->connected(), "a moved-from handle is connected"); p[0]->disconnect(); *p[0] = t; break; }
      case 4: { p[0]->swap(*p[1]); int t = pt[0]; pt[0] = pt[1]; pt[1] = t; break; }
      case 5: { int i = pick("i", NS), j = pick("j", NP); *s[i] = *p[j]; kill(st[i]); st[i] = pt[j]; break; }                                             // scoped = connection
      case 6: { int i = pick("i", NS), j = pick("j", NP); *s[i] = std::move(*p[j]); kill(st[i]); st[i] = pt[j]; pt[j] = -1; break; }
      case 7: { int i = pick("i", NS), j = pick("j", NS); *s[i] = std::move(*s[j]); if (i != j) { kill(st[i]); st[i] = st[j]; st[j] = -1; } break; }
      case 8: { int i = pick("i", NS), j = 1 - i; s[i] = boost::none; kill(st[i]); s[i] = boost::in_place(boost::ref(*p[j])); st[i] = pt[j]; break; }      // scoped(const connection&)
      case 9: { int i = pick("i", NS); bs2::scoped_connection t(std::move(*s[i])); CHECK(t.connected() == up(st[i]), "moving a scoped_connection disconnects"); CHECK(!s[i]->connected(), "the source still owns"); kill(st[i]); st[i] = -1; break; }
      case 10: { int i = pick("i", NS), j = pick("j", NP); *p[j] = s[i]->release(); pt[j] = st[i]; st[i] = -1; CHECK(p[j]->connected() == up(pt[j]), "release disconnects"); break; }
      case 11: { bs2::swap(*s[0], *s[1]); int t = st[0]; st[0] = st[1]; st[1] = t; break; }
      case 12: { int i = pick("i", NS); s[i] = boost::none; kill(st[i]); s[i] = boost::in_place(); st[i] = -1; break; }
      case 13: { int i = pick("i", NP); p[i]->disconnect(); kill(pt[i]); break; }
      case 14: { int i = pick("i", NS), j = pick("j", NP); if (pick("dir", 2)) { *p[j] = *s[i]; pt[j] = st[i]; } else { bs2::connection c(std::move(static_cast<bs2::connection &>(*s[i]))); *p[j] = c; pt[j] = st[i]; st[i] = -1; } break; }   // connection from a scoped one: copy, move
      case 15: sig = boost::none; for (int c = 0; c < NC; c++) live[c] = false; break;
    }
  }
};
extern "C" void handles() { { int len = (int)sx_param("len", 3); { Pool q; for (int k = 0; k < len; k++) q.step(); q.check(true); int dead[2]; 
      // destroy the scoped handles first: exactly their connections go
      for (int i = 0; i < 2; i++) { q.s[i] = boost::none; q.kill(q.st[i]); } q.check(true); (void)dead; } sx_reach("end"); } CHECK(sx_heap_live() == 0, "memory leaked"); }
// assigning to a scoped connection the connection it already owns
extern "C" void self_cases() {
  { Sig sig; bs2::connection c = sig.connect(Fn(0)), d = sig.connect(Fn(1)); bool lc = true;
    { bs2::scoped_connection s(c);
      switch (pick("k", 5)) {
        case 0: s = std::move(s); break;
        case 1: s.swap(s); break;
        case 2: bs2::swap(c, c); break;
        case 3: c = std::move(c); break;
        case 4: { bs2::connection r = s.release(); CHECK(r == c, "release returns another connection"); CHECK(r.connected(), "release disconnects"); s = r; CHECK(s.connected() && c.connected(), "taking back a released connection"); break; }
      }
      CHECK(s.connected() && c.connected(), "a self operation disconnects"); }
    lc = false; CHECK(!c.connected() && d.connected(), "scope exit"); g_log.clear(); sig(3); CHECK(g_log.n == 1 && g_log.id[0] == 1, "calls"); (void)lc;
    // containers of handles order and compare
    bs2::connection e = sig.connect(Fn(2)), f(e), none; CHECK(f == e && !(f < e) && !(e < f), "copies"); CHECK((d < e) != (e < d), "distinct connections are ordered one way"); CHECK(!(none == e) && none != e && none == bs2::connection(), "empty handles");
    sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
