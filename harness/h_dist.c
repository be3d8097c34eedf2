/* C32: distribution over processes */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
#include "dist.h"
#include "distrib.h"
static void rankfn(int rank, void *arg) { DArg *a = arg; Mesh_ptr s = dist_do(rank, a);
  cm_valid(s, "distributed"); dist_check(s, rank, a->np, a->part, a->ring, &a->D[rank]); if (a->attr) { dist_atts(s, a->ad); dist_sets(s); } dist_lists(s, rank, a); MESH_Delete(s); }
static void dist(int rep, int ncat, const int *cats, int np, int maxring, int opt) {
  CM b; DArg a; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], i; static int rem; cm_build(&b, rep, k, CM_SYMX); dist_setup(&a, &b, np, maxring);
  if (opt == 1) { a.attr = 1; a.ad = sx_pick("attdim", TH(4, 0), 4); if (a.ad == 4) a.ad = MALLTYPE; for (i = 0; i < 3; i++) { a.vals[i] = vals[i] = sx_int("val", -1000, 1000); } putatts(b.m, a.ad); putsets(b.m); }
  if (opt == 2) { a.del = sx_pick("delete the input", 0, 1); a.given = sx_pick("mesh given", 0, 1) ? 1 + rep : 0; }
  sx_run_ranks(np, rankfn, &a); dist_cross(a.D, np, a.part, a.ring, 1); dist_tables(&a); if (!a.del) MESH_Delete(b.m); (void)rem; sx_check_leaks(lb, "nothing left behind"); sx_cover("end");
}
static const int c2[] = {C_TRIQUAD, C_QUAD22, C_FAN4, C_PENTTRI, C_STRIP3}, c3[] = {C_TET2, C_PYRHEX, C_PRISMTET, C_TET4, C_HEX2}, c2x3[] = {C_STRIP3, C_TRIQUAD, C_FAN4, C_QUAD22, C_PENTTRI}, c3x3[] = {C_TET3E, C_TET4, C_TET2, C_PYRHEX, C_PRISMTET};
void h_dist2_F1(void) { dist(F1, TH(2, 5), c2, 2, TH(1, 2), 0); }
void h_dist2_F4(void) { dist(F4, TH(1, 5), c2, 2, 1, 0); }
void h_dist2x3_F1(void) { dist(F1, TH(1, 5), c2x3, 3, 1, 0); }
void h_dist2x1_F1(void) { dist(F1, 2, c2, 1, 1, 1); }
void h_dist3_F1(void) { dist(F1, TH(2, 5), c3, 2, 1, 0); }
void h_dist3_F4(void) { dist(F4, TH(1, 5), c3, 2, 1, 0); }
void h_dist3x3_F1(void) { dist(F1, TH(1, 5), c3x3, 3, 1, 0); }
void h_datt2_F1(void) { dist(F1, TH(1, 5), c2, 2, 1, 1); }
void h_datt3_F1(void) { dist(F1, TH(1, 5), c3, 2, 1, 1); }
void h_datt3_F4(void) { dist(F4, TH(1, 5), c3, 2, -1, 1); }
void h_datt2x3_F1(void) { dist(F1, TH(1, 5), c2x3, 3, -1, 1); }
void h_dopt2_F1(void) { dist(F1, TH(1, 5), c2, 2, -1, 2); }
void h_dopt3_F1(void) { dist(F1, TH(1, 5), c3, 2, -1, 2); }
