// Histories over every flavour of slot and every operation (model in world.hpp).
#include "world.hpp"
#define P(n, d) (int)sx_param(n, d)
struct Wd : World { ~Wd() { W = 0; } };
#define ENTRY(name, setup, mask_, pre, len, in) extern "C" void name() { { Wd w; setup; w.mask = mask_; w.run(P("pre", pre), P("len", len), P("in", in)); sx_reach("end"); } for (int j = 0; j < NOBJ; j++) CHECK(g_obj[j] == 0, "tracked objects survive"); CHECK(sx_heap_live() == 0, "memory leaked"); }
// tracked objects of every kind with blocks, groups, queries
ENTRY(w_track, w.places = PL_UB | PL_GB; w.track(1, 2, 3), B(W_REL) | B(W_BLK) | B(W_UNB) | B(W_QRY) | B(W_INV) | B(W_DH) | B(W_DG), 2, 2, 0)
ENTRY(w_kinds, w.exts = 1; w.track(1, 4, 8, 10), B(W_REL) | B(W_INV) | B(W_QRY) | B(W_BLK) | B(W_MOVE), 2, 1, 1)
// owners released from inside slots
ENTRY(w_keep, w.track(1, 2, 3), B(W_REL) | B(W_INV) | B(W_DSELF) | B(W_BLK) | B(W_QRY), 3, 1, 2)
ENTRY(w_block, w.places = PL_UB | PL_GF; w.exts = 1; w.track(1), B(W_BLK) | B(W_UNB) | B(W_DH) | B(W_DALL) | B(W_DG) | B(W_REL) | B(W_INV) | B(W_MOVE), 2, 3, 0)
ENTRY(w_block_in, w.places = PL_UB | PL_GB; w.exts = 1, B(W_BLK) | B(W_UNB) | B(W_DH) | B(W_INV) | B(W_DALL) | B(W_QRY), 2, 2, 2)
ENTRY(w_disc, w.places = PL_UB | PL_UF | PL_GB; w.exts = 1; w.nfn = 2, B(W_DH) | B(W_DG) | B(W_DALL) | B(W_DF) | B(W_DFX) | B(W_BLK) | B(W_INV) | B(W_SCO), 2, 2, 0)
ENTRY(w_disc_in, w.places = PL_UB | PL_GB; w.nfn = 2; w.track(1), B(W_DH) | B(W_DG) | B(W_DALL) | B(W_DF) | B(W_DSELF) | B(W_INV) | B(W_BLK), 2, 1, 2)
ENTRY(w_reent, w.places = PL_UB | PL_GF; w.exts = 1, B(W_CON) | B(W_DSELF) | B(W_DH) | B(W_BLK) | B(W_INV) | B(W_COMB) | B(W_QRY), 2, 1, 2)
ENTRY(w_order, w.places = 15, B(W_CON) | B(W_DH) | B(W_DG) | B(W_INV) | B(W_COMB), 2, 3, 0)
ENTRY(w_order_in, w.places = 15, B(W_CON) | B(W_DH) | B(W_DG) | B(W_INV) | B(W_COMB), 2, 2, 2)
ENTRY(w_exc, w.track(1, 2); w.exts = 1, B(W_THROW) | B(W_EXP) | B(W_DH) | B(W_REL) | B(W_INV) | B(W_BLK), 2, 2, 2)
ENTRY(w_pull, w.mayStop = w.maySkip = true; w.track(1), B(W_DSELF) | B(W_DH) | B(W_REL) | B(W_INV) | B(W_EXP), 3, 1, 3)
ENTRY(w_move, w.places = PL_UB | PL_GB; w.exts = 1; w.track(2), B(W_MOVE) | B(W_CON) | B(W_DH) | B(W_DG) | B(W_BLK) | B(W_INV) | B(W_COMB), 1, 3, 0)
ENTRY(w_comb, w.places = PL_UB | PL_GF; w.mayStop = true, B(W_COMB) | B(W_CON) | B(W_DH) | B(W_DG) | B(W_INV) | B(W_THROW), 2, 2, 2)
ENTRY(w_ext, w.places = PL_UB | PL_GF; w.exts = 2; w.track(1), B(W_CON) | B(W_DSELF) | B(W_DFX) | B(W_BLK) | B(W_INV) | B(W_REL) | B(W_THROW), 2, 1, 2)
