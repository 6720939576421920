// C15: any two (three) operations on one signal from different threads are
// race free, deadlock free and memory safe, and leave a consistent signal.
#include "common.hpp"
struct TFn { int id; explicit TFn(int i) : id(i) {} void operator()(int x) const; bool operator==(const TFn &o) const { return id == o.id; } };
struct TLog { int n; int id[32]; };
static TLog tlog[4];
void TFn::operator()(int) const { TLog &l = tlog[sx_self()]; if (l.n < 32) l.id[l.n++] = id; }
typedef bs2::signal<void(int)> Sig;
struct Tracked { int v; Tracked() : v(7) {} ~Tracked() { v = 0; } };
struct St {
  Sig sig; bs2::connection c0, c1, c2; boost::shared_ptr<Tracked> tr;
  int op[3]; bs2::connection mine[3];
  St() : tr(new Tracked) {
    c0 = sig.connect(TFn(0)); c1 = sig.connect(1, TFn(1)); c2 = sig.connect(1, Sig::slot_type(TFn(2)).track(tr));
    for (int i = 0; i < 3; i++) op[i] = -1;
  }
};
static St *S;
enum { NOPS = 14 };
static void doOp(int t, int op) {
  switch (op) {
    case 0: S->sig(5); break;
    case 1: S->mine[t] = S->sig.connect(TFn(10 + t)); break;
    case 2: S->mine[t] = S->sig.connect(1, TFn(10 + t), bs2::at_front); break;
    case 3: S->c0.disconnect(); break;
    case 4: { bs2::connection c(S->c1); c.disconnect(); break; }
    case 5: S->sig.disconnect_all_slots(); break;
    case 6: { bs2::shared_connection_block b(S->c0); CHECK(b.blocking(), "blocking"); bs2::shared_connection_block d(b); d.unblock(); break; }
    case 7: { bool a = S->c0.connected(), b = S->c0.blocked(); sx_trace(t, a + 2 * b); break; }
    case 8: sx_trace(t, S->sig.num_slots()); sx_trace(t, S->sig.empty()); break;
    case 9: if (t == 0) S->tr.reset(); else sx_trace(t, S->c2.connected()); break;
    case 10: S->sig.set_combiner(bs2::optional_last_value<void>()); break;
    case 11: S->sig.disconnect(1); break;
    case 12: S->sig.disconnect(TFn(0)); break;
    case 13: { bs2::optional_last_value<void> c = S->sig.combiner(); (void)c; break; }
  }
}
static void body(void *p) { int t = (int)(long)p; doOp(t, S->op[t]); }
static void final_() {
  int n = 0; n += S->c0.connected(); n += S->c1.connected(); n += S->c2.connected(); for (int i = 0; i < 3; i++) n += S->mine[i].connected();
  CHECK(S->sig.num_slots() == (std::size_t)n, "num_slots disagrees with the live connections after a concurrent run");
  TLog &l = tlog[sx_self()]; l.n = 0; S->sig(1); CHECK(l.n == n, "a later invocation does not call exactly the connected slots");
}
static void pair(int lo, int hi) {
  { S = new St; S->op[0] = lo + pick("a", hi - lo); S->op[1] = pick("b", NOPS); 
    int t = sx_thread(body, (void *)1L); body((void *)0L); sx_join(t); final_(); delete S; }
  sx_reach("end"); 
}
extern "C" void race_a() { pair(0, 3); }
extern "C" void race_b() { pair(3, 8); }
extern "C" void race_c() { pair(8, 14); }
extern "C" void race_one() { S = new St; S->op[0] = (int)sx_param("a", 0); S->op[1] = (int)sx_param("b", 0); int t = sx_thread(body, (void *)1L); body((void *)0L); sx_join(t); final_(); delete S; sx_reach("end"); CHECK(sx_heap_live() == 0, "memory leaked"); }
