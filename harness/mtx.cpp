// C19: the mutex classes.
#include "common.hpp"
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/signals2/mutex.hpp>
#define P(n, d) (int)sx_param(n, d)
#ifdef SX_WIN     // a critical section is recursive: its owner acquires it again
#define OWNTRY { CHECK(G->m.try_lock(), "the owner acquires its critical section again"); CHECK(sx_mutexes_held() == 2, "owned twice"); G->m.unlock(); CHECK(G->in == 0, "two threads hold the mutex"); sx_point(); CHECK(G->in == 0, "two threads hold the mutex"); }
#else
#define OWNTRY CHECK(!G->m.try_lock(), "try_lock() is true although the mutex is held")
#endif
struct Sh { bs2::mutex m, m2; long data; int in, got, tried; int prog[4][4]; int len; long sum; };
static Sh *G;
static void inside() { CHECK(G->in == 0, "two threads hold the mutex"); G->in = 1; long v = G->data; sx_point(); CHECK(G->in == 1 && G->data == v, "another thread entered the critical section"); G->data = v + 1; G->in = 0; }
static void step(int op) {
  switch (op) {
    case 0: G->m.lock(); inside(); OWNTRY; G->m.unlock(); break;
    case 1: if (G->m.try_lock()) { CHECK(sx_mutexes_held() == 1, "try_lock() is true without owning the mutex"); inside(); G->got++; G->m.unlock(); } else { CHECK(sx_mutexes_held() == 0, "try_lock() is false but owns the mutex"); } break;
    case 2: { G->m.lock(); G->m2.lock(); inside(); G->m2.unlock(); G->m.unlock(); break; }
    case 3: { bs2::detail::unique_lock<bs2::mutex> l(G->m); inside(); break; }
    case 4: { G->m2.lock(); bool g = G->m.try_lock(); if (g) { inside(); G->got++; G->m.unlock(); } G->m2.unlock(); break; }
  }
  CHECK(sx_mutexes_held() == 0, "still holding the mutex");
}
static void body(void *p) { int t = (int)(long)p; for (int k = 0; k < G->len; k++) step(G->prog[t][k]); }
static void excl(int thr, int len) {
  { G = new Sh; G->data = 0; G->in = 0; G->got = 0; G->len = len; long locks = 0, tries = 0; for (int t = 0; t < thr; t++) for (int k = 0; k < len; k++) { G->prog[t][k] = pick("op", 5); if (G->prog[t][k] == 1 || G->prog[t][k] == 4) tries++; else locks++; }
    int tid[4]; for (int t = 1; t < thr; t++) tid[t] = sx_thread(body, (void *)(long)t); body(0); for (int t = 1; t < thr; t++) sx_join(tid[t]);
    CHECK(G->data == locks + G->got, "an update made in a critical section is lost"); CHECK(G->got <= tries, "tries"); CHECK(G->m.try_lock(), "a free mutex is not acquired by try_lock()"); G->m.unlock(); delete G; sx_reach("end"); }
  CHECK(sx_heap_live() == 0, "memory leaked");
}
extern "C" void excl2() { excl(2, P("len", 1)); }
extern "C" void excl3() { excl(3, P("len", 1)); }
// lock() waits for the owner; try_lock() never does
static int g_phase; static void waiter(void *) { G->m.lock(); CHECK(G->data == 42, "what was done before the unlock is not visible"); G->data = 43; G->m.unlock(); }
static void trier(void *) { bool g = G->m.try_lock(); if (g) { CHECK(G->data == 0 || G->data == 42, "a critical section is seen half done"); G->m.unlock(); } if (g) sx_reach("acquired"); else sx_reach("busy"); }
extern "C" void waits() { { G = new Sh; G->data = 0; G->m.lock(); int t = sx_thread(waiter, 0); G->data = 41; sx_point(); G->data = 42; G->m.unlock(); sx_join(t); G->m.lock(); CHECK(G->data == 43, "visible after join and lock"); G->m.unlock(); delete G; sx_reach("end"); } CHECK(sx_heap_live() == 0, "memory leaked"); }
extern "C" void tries() { { G = new Sh; G->data = 0; int t = sx_thread(trier, 0); G->m.lock(); G->data = 41; sx_point(); G->data = 42; G->m.unlock(); sx_join(t); delete G; sx_reach("end"); } CHECK(sx_heap_live() == 0, "memory leaked"); }
// one thread: every sequence of operations on two mutexes
extern "C" void seq() {
  { bs2::mutex m[2]; bool h[2] = {false, false};
    for (int k = 0; k < P("len", 5); k++) { int i = pick("m", 2); switch (pick("op", 3)) { case 0: if (h[i]) sx_assume(0); m[i].lock(); h[i] = true; break; case 1: {
#ifdef SX_WIN
      if (h[i]) { CHECK(m[i].try_lock(), "the owner acquires its critical section again"); m[i].unlock(); break; }
#endif
      bool g = m[i].try_lock(); CHECK(g == !h[i], "try_lock() is true exactly if it acquired the mutex"); h[i] = true; break; } case 2: if (!h[i]) sx_assume(0); m[i].unlock(); h[i] = false; break; } CHECK(sx_mutexes_held() == h[0] + h[1], "mutexes owned"); }
    for (int i = 0; i < 2; i++) if (h[i]) m[i].unlock(); sx_reach("end"); }
}
// dummy_mutex: no operation blocks or locks anything
typedef bs2::signal<void(int), bs2::optional_last_value<void>, int, std::less<int>, boost::function<void(int)>, boost::function<void(const bs2::connection &, int)>, bs2::dummy_mutex> DSig;
extern "C" void dummy_ops() { bs2::dummy_mutex d; for (int k = 0; k < P("len", 4); k++) switch (pick("op", 3)) { case 0: d.lock(); break; case 1: CHECK(d.try_lock(), "dummy_mutex::try_lock()"); break; case 2: d.unlock(); break; } CHECK(sx_lock_count() == 0 && sx_mutexes_held() == 0, "dummy_mutex locks something"); sx_reach("end"); }
struct DReent { DSig *s; int id; void operator()(int x) const { g_log.add(id, x); if (x > 0 && pick("re", 2)) { bs2::connection c = s->connect(Fn(8)); (*s)(x - 1); c.disconnect(); } } };
extern "C" void dummy_signal() {
  { DSig s; bs2::connection c[4]; boost::shared_ptr<int> tr(new int(1)); c[0] = s.connect(Fn(0)); c[1] = s.connect(1, Fn(1)); DSig::slot_type sl((Fn(2))); sl.track(tr); c[2] = s.connect(sl, bs2::at_front); DReent d = {&s, 3}; c[3] = s.connect(d); bs2::shared_connection_block b;
    for (int k = 0; k < P("len", 3); k++) switch (pick("op", 11)) { case 0: s(1); break; case 1: c[pick("d", 3)].disconnect(); break; case 2: s.connect(2, Fn(4)); break; case 3: b = bs2::shared_connection_block(c[0]); c[0].blocked(); break; case 4: b.unblock(); break; case 5: s.num_slots(); s.empty(); break; case 6: tr.reset(); c[2].connected(); break; case 7: s.disconnect(1); s.disconnect(Fn(0)); break; case 8: s.set_combiner(s.combiner()); break; case 9: { DSig t; t.swap(s); t.swap(s); break; } case 10: s.disconnect_all_slots(); break; }
    sx_reach("end"); }
  CHECK(sx_lock_count() == 0, "a signal with dummy_mutex locks a mutex"); CHECK(sx_heap_live() == 0, "memory leaked");
}
