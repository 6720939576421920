// C08, C24, C26: re-entrant use (model in reent.hpp).
#include "reent.hpp"
static void hook(int id, int x) { R->onCall(id, x); }
static void reent(int mask, int pre, int acts, int calls, bool grouped, bool collect) {
  { Re r; R = &r; g_hook = hook; r.glo = 0; r.ghi = 2; r.mask = mask;
    for (int i = 0; i < pre; i++) { if (grouped) r.step(pick("pre", 2) ? O_GB : O_UB); else r.step(O_UB); }
    if (collect) { r.con[0].disconnect(); r.drop(0); if (pick("inv", 2)) r.invoke(0); }   // a disconnected record, perhaps half collected
    r.acts = acts;
    for (int k = 0; k < calls; k++) r.invoke(k);
    r.acts = 0; r.checkState(); r.invoke(9); r.step(O_UB); r.invoke(10); r.checkState();
    g_hook = 0; sx_reach("end"); }
  CHECK(TagComb::made == 0, "combiner copies leaked"); CHECK(sx_heap_live() == 0, "memory leaked");
}
#define P(n, d) (int)sx_param(n, d)
extern "C" void re_all() { reent(M(A_N) - 1, P("pre", 2), P("acts", 2), 2, false, false); }
extern "C" void re_conn() { reent(M(A_UB) | M(A_GF) | M(A_DSELF) | M(A_D) | M(A_INV), P("pre", 3), P("acts", 3), 1, false, true); }
extern "C" void re_group() { reent(M(A_GB) | M(A_GF) | M(A_DG) | M(A_DALL) | M(A_INV), P("pre", 2), P("acts", 2), 2, true, false); }
extern "C" void re_comb() { reent(M(A_UB) | M(A_COMB) | M(A_INV) | M(A_DSELF), P("pre", 2), P("acts", 3), 2, false, false); }
extern "C" void re_block() { reent(M(A_BLK) | M(A_UNB) | M(A_D) | M(A_INV) | M(A_QRY), P("pre", 3), P("acts", 3), 2, false, false); }
