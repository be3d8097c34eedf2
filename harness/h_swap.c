#include "topo.h"
static CM b; static Topo X, X0, Z; static Snap S0, S1;
static int sametop(void) { cm_snap(b.m, &S1); return cm_snap_eq(&S0, &S1, 1); }
static void swap(int rep, int lo, int hi, int opts) {
  int base = sx_live_blocks(), cat = sx_pick("mesh", lo, hi); cm_build(&b, rep, cat, opts); int D = b.c->dim;
  if (D == 2 && b.c->c[0][0] == 3 && b.c->nc > 1 && sx_pick("flip", 0, 1)) { /* one cell facing the other way */
    int k = sx_pick("cell", 0, 1); MVertex_ptr v[8]; int n = b.c->c[k][0]; List_ptr l = MF_Vertices(b.cell[k], 0, 0); for (int j = 0; j < n; j++) v[j] = List_Entry(l, j); List_Delete(l); MF_Delete(b.cell[k], 0); b.cell[k] = MF_New(b.m); MF_Set_Vertices(b.cell[k], n, v); }
  tp_classify(b.m);
  int ei = sx_pick("edge", 0, MESH_Num_Edges(b.m) - 1); MEdge_ptr e = MESH_Edge(b.m, ei), en = NULL; MFace_ptr fn[2] = {NULL, NULL};
  int gd = sx_pick("gdim", 1, 3), gi = sx_int("gid", 0, 1000); ME_Set_GEntDim(e, gd); ME_Set_GEntID(e, gi);
  { List_ptr l = ME_Faces(e); int i = 0; MFace_ptr f; while (l && (f = List_Next_Entry(l, &i))) { MF_Set_GEntDim(f, D); MF_Set_GEntID(f, gi); } if (l) List_Delete(l); }
  tp_read(b.m, &X, NULL); X0 = X; cm_snap(b.m, &S0);
  int a = X.e[ei][0], c = X.e[ei][1], f0 = -1, f1 = -1, nf = 0, p = -1, q = -1;
  for (int f = 0; f < X.nf; f++) { if (tp_next(X.fn[f], X.f[f], a, c) >= 0) { f0 = f; nf++; } else if (tp_next(X.fn[f], X.f[f], c, a) >= 0) { f1 = f; nf++; } }
  int ok = D == 2 && gd == 2 && nf == 2 && f0 >= 0 && f1 >= 0 && X.fn[f0] == 3 && X.fn[f1] == 3;
  if (ok) { for (int j = 0; j < 3; j++) { if (X.f[f0][j] != a && X.f[f0][j] != c) p = X.f[f0][j]; if (X.f[f1][j] != a && X.f[f1][j] != c) q = X.f[f1][j]; } if (tp_e(&X, p, q) >= 0) ok = 0; }
  int r = ME_Swap2D(e, &en, fn);
  if (!ok) { sx_assert(r == 0, "an edge that cannot be swapped is refused"); sx_assert(sametop(), "a refused swap changes nothing"); MESH_Delete(b.m); sx_check_leaks(base, "refused swap leaks"); sx_cover("refused"); return; }
  sx_assert(r == 1, "a swappable edge is swapped"); if (sx_pick("again", 0, 1) == 0) {
    X.ea[ei] = 0; X.fa[f0] = X.fa[f1] = 0; int k = tp_adde(&X, q, p, 2, gi), c0[3] = {a, q, p}, c1[3] = {q, c, p}, m0 = tp_addf(&X, 3, c0, 2, gi), m1 = tp_addf(&X, 3, c1, 2, gi); X.ep[k] = en; tp_read(b.m, &Z, &X); tp_match(&X, &Z, TC_ALL | TC_PTR);
    sx_assert(tp_fsgn[m0] > 0 && tp_fsgn[m1] > 0, "the new triangles face the same way as the old ones");
    sx_assert(fn[0] != fn[1] && (fn[0] == Z.fp[tp_fmap[m0]] || fn[0] == Z.fp[tp_fmap[m1]]) && (fn[1] == Z.fp[tp_fmap[m0]] || fn[1] == Z.fp[tp_fmap[m1]]), "the new triangles are returned");
    cm_valid(b.m, "after the swap"); MESH_Delete(b.m); sx_check_leaks(base, "swap leaks"); sx_cover("end");
  } else {
    MEdge_ptr e2; MFace_ptr g[2]; sx_assert(ME_Swap2D(en, &e2, g) == 1, "the swap can be undone"); X0.ep[ei] = e2; X0.fp[f0] = X0.fp[f1] = 0; tp_read(b.m, &Z, &X0); tp_match(&X0, &Z, TC_ALL | TC_PTR); for (int i = 0; i < X0.nf; i++) sx_assert(tp_fsgn[i] > 0, "swapping twice restores the original triangles"); cm_valid(b.m, "after swapping back"); MESH_Delete(b.m); sx_check_leaks(base, "swap leaks"); sx_cover("back");
  }
}
void h_swap2_F1(void) { swap(F1, C_TRI, C_STRIP3, CM_EDIR); }
void h_swap2r_F1(void) { swap(F1, C_TRI, C_STRIP3, TH(CM_ROT, CM_ROT | CM_EDIR)); }
void h_swap2_F4(void) { swap(F4, C_TRI, TH(C_TRIQUAD, C_STRIP3), CM_EDIR); }
void h_swapfan_F1(void) { swap(F1, C_FAN6, C_FAN6, CM_EDIR); }
void h_swap3_F1(void) { swap(F1, C_TET, TH(C_TET3E, C_TET6), 0); }
void h_swap3_F4(void) { swap(F4, C_TET, TH(C_TET2, C_TET6), 0); }
