#include "topo.h"
static CM b, c2; static Topo X, Z; static Snap S0, S1;
static void substv(int f, int t) { X.va[f] = 0; for (int i = 0; i < X.ne; i++) for (int k = 0; k < 2; k++) if (X.e[i][k] == f) X.e[i][k] = t; for (int i = 0; i < X.nf; i++) tp_sub(X.fn[i], X.f[i], f, t); }
static int sametop(void) { cm_snap(b.m, &S1); return cm_snap_eq(&S0, &S1, 1); }
static MSet_ptr S; static int inset1, inset2;
static void mkset(MType t, void *e1, void *e2) { S = MSet_New(b.m, "s", t); inset1 = sx_pick("in1", 0, 1); inset2 = sx_pick("in2", 0, 1); if (inset1) MSet_Add(S, e1); if (inset2) MSet_Add(S, e2); }
static void chkset(void *e1, void *e2, int merged) { int n = 0, a = 0, d = 0, i = 0; void *e; while ((e = MSet_Next_Entry(S, &i))) { n++; a += e == e1; d += e == e2; }
  if (merged) sx_assert(d == 0 && a == (inset1 || inset2) && n == a, "sets hold the merged entity once, in place of both"); else sx_assert(a == inset1 && d == inset2, "sets are unchanged by a refused merge"); }
static MVertex_ptr vm(int a, int c) { MVertex_ptr v = MVs_Merge(X.v[a], X.v[c], 0); sx_assert(v == X.v[a], "the first vertex is kept"); sx_assert((int)MEnt_Dim(X.v[c]) == -1, "the second vertex is deleted"); substv(c, a); return v; }
static void merge(int rep, int lo, int hi, int kind) {
  int base = sx_live_blocks(), cat = sx_pick("mesh", lo, hi), cat2 = sx_pick("mesh2", lo, hi); cm_build(&b, rep, cat, CM_RECORD); cm_fill(&c2, b.m, cat2, CM_RECORD); tp_classify(b.m); tp_read(b.m, &X, NULL);
  int nv1 = b.c->nv, topo = sx_pick("topoflag", 0, 1), gd1, gd2, gi1, gi2; void *dead[16]; int nd = 0;
  gi1 = sx_int("gid1", 0, 1000); gi2 = sx_int("gid2", 0, 1000);
  if (kind == 0) {
    gd1 = TH(1, sx_pick("gdim1", 0, 3)); gd2 = gd1 + sx_pick("ddim", -1, 1); sx_assume(gd2 >= 0 && gd2 <= 3);
    int a = sx_pick("v1", 0, nv1 - 1), c = nv1 + sx_pick("v2", 0, c2.c->nv - 1); if (sx_pick("swap", 0, 1)) { int t = a; a = c; c = t; }
    MV_Set_GEntDim(X.v[a], gd1); MV_Set_GEntDim(X.v[c], gd2); MV_Set_GEntID(X.v[a], gi1); MV_Set_GEntID(X.v[c], gi2); tp_read(b.m, &X, NULL); mkset(MVERTEX, X.v[a], X.v[c]); cm_snap(b.m, &S0);
    int refuse = topo && (gd1 != gd2 || gi1 != gi2); MVertex_ptr v = MVs_Merge(X.v[a], X.v[c], topo); chkset(X.v[a], X.v[c], v != NULL);
    if (refuse) { sx_assert(v == NULL, "a merge classification does not permit is refused"); sx_assert(sametop(), "a refused merge changes nothing"); }
    else { sx_assert(v == X.v[a], "permitted merge keeps the first vertex"); sx_assert((int)MEnt_Dim(X.v[c]) == -1, "the second vertex is deleted"); substv(c, a); dead[nd++] = X.v[c]; }
  } else if (kind == 1) {
    gd1 = TH(2, sx_pick("gdim1", 1, 3)); gd2 = gd1 + sx_pick("ddim", -1, 1); sx_assume(gd2 >= 1 && gd2 <= 3);
    int ne1 = 0; while (ne1 < X.ne && X.e[ne1][0] < nv1) ne1++;
    int e = sx_pick("e1", 0, ne1 - 1), g = sx_pick("e2", ne1, X.ne - 1), fl = sx_pick("flip", 0, 1), sw = sx_pick("swap", 0, 1);
    if (sw) { int t = e; e = g; g = t; }
    ME_Set_GEntDim(X.ep[e], gd1); ME_Set_GEntID(X.ep[e], gi1); ME_Set_GEntDim(X.ep[g], gd2); ME_Set_GEntID(X.ep[g], gi2); tp_read(b.m, &X, NULL);
    int p[2] = {X.e[e][0], X.e[e][1]}, q[2] = {X.e[g][fl], X.e[g][!fl]};
    cm_snap(b.m, &S0); sx_assert(MEs_Merge(X.ep[e], X.ep[g], 0) == NULL && sametop(), "edges whose vertices differ are not merged");
    for (int k = 0; k < 2; k++) { vm(p[k], q[k]); dead[nd++] = X.v[q[k]]; }
    mkset(MEDGE, X.ep[e], X.ep[g]); cm_snap(b.m, &S0); int refuse = topo && ((gd1 == gd2 && gi1 != gi2) || gd2 < gd1); MEdge_ptr r = MEs_Merge(X.ep[e], X.ep[g], topo); chkset(X.ep[e], X.ep[g], r != NULL);
    if (refuse) { sx_assert(r == NULL, "a merge classification does not permit is refused"); sx_assert(sametop(), "a refused merge changes nothing"); MESH_Delete(b.m); sx_cover("refused"); return; }
    sx_assert(r == X.ep[e], "permitted merge keeps the first edge"); sx_assert((int)MEnt_Dim(X.ep[g]) == -1, "the second edge is deleted"); X.ea[g] = 0; dead[nd++] = X.ep[g];
  } else {
    gd1 = sx_pick("gdim1", 2, 3); gd2 = sx_pick("gdim2", 2, 3); int n1 = 0; while (n1 < X.nf && X.f[n1][0] < nv1) n1++;
    int f = sx_pick("f1", 0, n1 - 1), g = sx_pick("f2", n1, X.nf - 1), sw = sx_pick("swap", 0, 1); if (sw) { int t = f; f = g; g = t; } sx_assume(X.fn[f] == X.fn[g]);
    int n = X.fn[f], s = sx_pick("rot", 0, n - 1), df = 1, dg = 1, used = 0; for (int r = 0; r < X.nr; r++) for (int k = 0; k < X.rn[r]; k++) { if (X.r[r][k] == f) { df = X.rd[r][k]; used |= 1; } if (X.r[r][k] == g) { dg = X.rd[r][k]; used |= 2; } }
    if (X.nr == 0) dg = sx_pick("opp", 0, 1);
    MF_Set_GEntDim(X.fp[f], gd1); MF_Set_GEntID(X.fp[f], gi1); MF_Set_GEntDim(X.fp[g], gd2); MF_Set_GEntID(X.fp[g], gi2); tp_read(b.m, &X, NULL);
    int p[8], q[8]; for (int j = 0; j < n; j++) { p[j] = df ? X.f[f][j] : X.f[f][n - 1 - j]; int k = ((s - j) % n + n) % n; q[j] = dg ? X.f[g][k] : X.f[g][n - 1 - k]; }
    int ee[8], eg[8]; for (int j = 0; j < n; j++) { ee[j] = tp_e(&X, p[j], p[(j + 1) % n]); eg[j] = tp_e(&X, q[j], q[(j + 1) % n]); }
    for (int j = 0; j < n; j++) { vm(p[j], q[j]); dead[nd++] = X.v[q[j]]; }
    for (int j = 0; j < n; j++) { sx_assert(MEs_Merge(X.ep[ee[j]], X.ep[eg[j]], 0) == X.ep[ee[j]], "edges are merged"); X.ea[eg[j]] = 0; dead[nd++] = X.ep[eg[j]]; }
    mkset(MFACE, X.fp[f], X.fp[g]); cm_snap(b.m, &S0); int refuse = topo && ((gd1 == gd2 && gi1 != gi2) || gd2 < gd1); MFace_ptr r = MFs_Merge(X.fp[f], X.fp[g], topo); chkset(X.fp[f], X.fp[g], r != NULL);
    if (refuse) { sx_assert(r == NULL, "a merge classification does not permit is refused"); sx_assert(sametop(), "a refused merge changes nothing"); MESH_Delete(b.m); sx_cover("refused"); return; }
    sx_assert(r == X.fp[f], "permitted merge keeps the first face"); sx_assert((int)MEnt_Dim(X.fp[g]) == -1, "the second face is deleted");
    int d = tp_cyc(n, X.f[f], n, X.f[g]); for (int i = 0; i < X.nr; i++) for (int k = 0; k < X.rn[i]; k++) if (X.r[i][k] == g) { X.r[i][k] = f; if (d < 0) X.rd[i][k] = !X.rd[i][k]; } X.fa[g] = 0; dead[nd++] = X.fp[g];
  }
  tp_read(b.m, &Z, &X); tp_match(&X, &Z, TC_ALL | TC_PTR); cm_valid(b.m, "after merging");
  for (int i = nd - 1; i >= 0; i--) { MEnt_Delete(dead[i], 0); } cm_valid(b.m, "after deleting the merged entities for good");
  MESH_Delete(b.m); sx_check_leaks(base, "merging leaks"); sx_cover("end");
}
/* reduced representations: cells take over the kept vertex */
static void mergeR(int rep, int lo, int hi) {
  int cat = sx_pick("mesh", lo, hi), cat2 = sx_pick("mesh2", lo, hi); cm_build(&b, rep, cat, CM_RECORD); cm_fill(&c2, b.m, cat2, CM_RECORD);
  int a = sx_pick("v1", 0, b.c->nv - 1), c = sx_pick("v2", 0, c2.c->nv - 1), sw = sx_pick("swap", 0, 1), topo = sx_pick("topoflag", 0, 1), gi1 = sx_int("gid1", 0, 1000), gi2 = sx_int("gid2", 0, 1000), gd1 = sx_pick("gdim1", 1, 2), gd2 = sx_pick("gdim2", 1, 2);
  MVertex_ptr v1 = b.v[a], v2 = c2.v[c]; if (sw) { MVertex_ptr t = v1; v1 = v2; v2 = t; }
  MV_Set_GEntDim(v1, gd1); MV_Set_GEntID(v1, gi1); MV_Set_GEntDim(v2, gd2); MV_Set_GEntID(v2, gi2);
  MVertex_ptr v = MVs_Merge(v1, v2, topo); int refuse = topo && (gd1 != gd2 || gi1 != gi2); sx_assert(v == (refuse ? NULL : v1), "merge is done exactly when permitted");
  sx_assert(MESH_Num_Vertices(b.m) == b.c->nv + c2.c->nv - !refuse, "one vertex fewer");
  int n1 = 0, n2 = 0, dim = b.c->dim;
  for (int s = 0; s < 2; s++) { CM *q = s ? &c2 : &b; for (int i = 0; i < q->c->nc; i++) { int n = q->c->c[i][0], d = dim; List_ptr l = d == 3 ? MR_Vertices(q->cell[i]) : MF_Vertices(q->cell[i], 1, 0); sx_assert(List_Num_Entries(l) == n, "cell keeps its vertices"); int has = 0; for (int j = 0; j < n; j++) { MVertex_ptr w = q->in[i][j]; if (w == v1 || w == v2) { has = 1; if (w == v1) n1++; else n2++; } if (!refuse && w == v2) w = v1; sx_assert(List_Entry(l, j) == w, "cells use the kept vertex in place of the merged one"); } List_Delete(l);
      if (!refuse) { List_ptr vc = d == 3 ? MV_Regions(v1) : MV_Faces(v1); sx_assert(has == (vc && List_Contains(vc, q->cell[i])), "kept vertex lists the cells of both"); if (vc) List_Delete(vc); } } }
  if (!refuse) { MEnt_Delete(v2, 0); int nc = 0; if (dim == 3) nc = MV_Num_Regions(v1); else nc = MV_Num_Faces(v1); sx_assert(nc == n1 + n2, "and only those"); }
  MESH_Delete(b.m); sx_cover("end"); /* faces MV_Faces makes up on the way belong to nobody in a reduced mesh: C29 */
}
void h_mergev2_F1(void) { merge(F1, C_TRI, TH(C_TRI, C_TRI2), 0); }
void h_mergev3_F1(void) { merge(F1, C_TET, TH(C_TET, C_TET2), 0); }
void h_mergev3_F4(void) { merge(F4, C_TET, C_TET, 0); }
void h_mergee2_F1(void) { merge(F1, C_TRI, TH(C_TRI, C_TRI2), 1); }
void h_mergee3_F1(void) { merge(F1, C_TET, C_TET, 1); }
void h_mergee3_F4(void) { merge(F4, C_TET, C_TET, 1); }
void h_mergef2_F1(void) { merge(F1, C_TRI, TH(C_TRI, C_TRI2), 2); }
void h_mergef3_F1(void) { merge(F1, C_TET, C_TET, 2); }
void h_mergef3_F4(void) { merge(F4, C_TET, C_TET, 2); }
void h_mergef3h_F1(void) { merge(F1, C_HEX, C_HEX, 2); }
void h_mergef3p_F1(void) { merge(F1, C_PRISM, C_PRISM, 2); }
void h_merge3_R1(void) { mergeR(R1, C_TET, TH(C_TET, C_TET2)); }
void h_merge3_R2(void) { mergeR(R2, C_TET, TH(C_TET, C_TET2)); }
