#include "topo.h"
#define cm_valid(m, w) (cm_types = 1, cm_valid(m, w))
static CM b; static Topo X, Z;
static double P[3][3];
static void point(int i) { P[i][0] = sx_double("px"); P[i][1] = sx_double("py"); P[i][2] = sx_double("pz"); }
static void insert(Topo *t, int a, int c, int n, int *w) { /* w[0..n-1] lie from a to c */
  for (int f = 0; f < t->nf; f++) if (t->fa[f]) { int j = tp_next(t->fn[f], t->f[f], a, c), r = 0; if (j < 0) { j = tp_next(t->fn[f], t->f[f], c, a); r = 1; } if (j < 0) continue;
    for (int k = t->fn[f] - 1; k > j; k--) t->f[f][k + n] = t->f[f][k]; for (int k = 0; k < n; k++) t->f[f][j + 1 + k] = r ? w[n - 1 - k] : w[k]; t->fn[f] += n; } }
static void fin(int base, int cls) { tp_read(b.m, &Z, &X); tp_match(&X, &Z, cls); cm_valid(b.m, "after the operation"); MESH_Delete(b.m); sx_check_leaks(base, "modification leaks"); sx_cover("end"); }
static MEdge_ptr start_edge(int rep, int lo, int hi, int opts, int *ei) { int cat = sx_pick("mesh", lo, hi); cm_build(&b, rep, cat, opts); tp_classify(b.m); *ei = sx_pick("edge", 0, MESH_Num_Edges(b.m) - 1); MEdge_ptr e = MESH_Edge(b.m, *ei); int gd = sx_pick("gdim", 1, 3); ME_Set_GEntDim(e, gd); ME_Set_GEntID(e, sx_int("gid", 0, 100000)); return e; }
static void esplit(int rep, int lo, int hi) {
  int base = sx_live_blocks(), ei; MEdge_ptr e = start_edge(rep, lo, hi, CM_EDIR, &ei); tp_read(b.m, &X, NULL);
  int multi = sx_pick("points", 0, TH(2, 3)), given = sx_pick("given", 0, 1), n = multi ? multi : 1, w[3];
  for (int i = 0; i < n; i++) point(i);
  int a = X.e[ei][0], c = X.e[ei][1], gd = X.eg[ei][0], gi = X.eg[ei][1]; void *nv[3];
  if (multi) { List_ptr l = ME_MultiSplit(e, n, given ? P : NULL); sx_assert(List_Num_Entries(l) == n + 1, "one more edge than split points"); for (int i = 0; i < n; i++) nv[i] = ME_Vertex(List_Entry(l, i), 1); for (int i = 0; i <= n; i++) sx_assert(ME_Vertex(List_Entry(l, i), 0) == (i ? nv[i - 1] : X.v[a]) && ME_Vertex(List_Entry(l, i), 1) == (i < n ? nv[i] : X.v[c]), "pieces are listed from one end to the other"); List_Delete(l); }
  else nv[0] = ME_Split(e, given ? P[0] : NULL);
  if (!given) for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) P[i][k] = X.x[a][k] + (i + 1) * (X.x[c][k] - X.x[a][k]) / (n + 1);
  for (int i = 0; i < n; i++) w[i] = tp_addv(&X, nv[i], P[i], gd, gi);
  X.ea[ei] = 0; for (int i = 0; i <= n; i++) tp_adde(&X, i ? w[i - 1] : a, i < n ? w[i] : c, gd, gi);
  insert(&X, a, c, n, w); fin(base, TC_ALL | TC_PTR);
}
static MFace_ptr start_face(int rep, int lo, int hi, int opts, int *fi) { int cat = sx_pick("mesh", lo, hi); cm_build(&b, rep, cat, opts); tp_classify(b.m); *fi = sx_pick("face", 0, MESH_Num_Faces(b.m) - 1); MFace_ptr f = MESH_Face(b.m, *fi); int gd = sx_pick("gdim", 2, 3); MF_Set_GEntDim(f, gd); MF_Set_GEntID(f, sx_int("gid", 0, 100000)); return f; }
static void repl(int old, int n, int *nu) { for (int r = 0; r < X.nr; r++) if (X.ra[r]) for (int k = 0; k < X.rn[r]; k++) if (X.r[r][k] == old) { int d = X.rd[r][k]; X.rp[r] = X.rp[r]; X.r[r][k] = nu[0]; for (int q = 1; q < n; q++) { X.r[r][X.rn[r]] = nu[q]; X.rd[r][X.rn[r]++] = d; } break; } X.fa[old] = 0; }
static void fsplit(int rep, int lo, int hi) {
  int base = sx_live_blocks(), fi; MFace_ptr f = start_face(rep, lo, hi, CM_FDIR, &fi); tp_read(b.m, &X, NULL); point(0);
  int n = X.fn[fi], gd = X.fg[fi][0], gi = X.fg[fi][1], nu[12]; MVertex_ptr v = MF_Split(f, P[0]); int w = tp_addv(&X, v, P[0], gd, gi);
  for (int j = 0; j < n; j++) { int c[3] = {w, X.f[fi][j], X.f[fi][(j + 1) % n]}; nu[j] = tp_addf(&X, 3, c, gd, gi); tp_adde(&X, w, X.f[fi][j], gd, gi); }
  repl(fi, n, nu); fin(base, TC_ALL | TC_PTR);
}
static void fsplite(int rep, int lo, int hi, int opts) {
  int base = sx_live_blocks(), fi; MFace_ptr f = start_face(rep, lo, hi, opts, &fi); tp_read(b.m, &X, NULL);
  int n = X.fn[fi], gd = X.fg[fi][0], gi = X.fg[fi][1]; sx_assume(n > 3);
  int s = sx_pick("from", 0, n - 1), l = sx_pick("len", 2, n - 2), c[2][12], m[2] = {0, 0}, nu[2];
  MEdge_ptr e = MF_Split_with_Edge(f, X.v[X.f[fi][s]], X.v[X.f[fi][(s + l) % n]]);
  for (int j = 0; j <= l; j++) c[0][m[0]++] = X.f[fi][(s + j) % n]; for (int j = l; j <= n; j++) c[1][m[1]++] = X.f[fi][(s + j) % n];
  int k = tp_adde(&X, X.f[fi][s], X.f[fi][(s + l) % n], gd, gi); X.ep[k] = e; for (int j = 0; j < 2; j++) nu[j] = tp_addf(&X, m[j], c[j], gd, gi); repl(fi, 2, nu); fin(base, TC_ALL | TC_PTR);
}
static void simp_regions(int a, int c, int third, int w) { /* tets using all given vertices: one per vertex replaced by w */
  int nr = X.nr, vs[3] = {a, c, third}, nn = third < 0 ? 2 : 3;
  for (int r = 0; r < nr; r++) if (X.ra[r] && tp_rhas(&X, r, a) && tp_rhas(&X, r, c) && (third < 0 || tp_rhas(&X, r, third))) {
    for (int q = 0; q < nn; q++) { int cy[4][12], n[4]; for (int k = 0; k < 4; k++) { n[k] = tp_outward(&X, r, k, cy[k]); tp_sub(n[k], cy[k], vs[q], w); } tp_addr(&X, 4, cy, n, X.rg[r][0], X.rg[r][1]); } X.ra[r] = 0; } }
static void esimp(int rep, int lo, int hi, int opts) {
  int base = sx_live_blocks(), ei; MEdge_ptr e = start_edge(rep, lo, hi, opts, &ei); tp_read(b.m, &X, NULL); point(0); int given = sx_pick("given", 0, 1);
  int a = X.e[ei][0], c = X.e[ei][1], gd = X.eg[ei][0], gi = X.eg[ei][1]; MVertex_ptr v = ME_Split_SimplexMesh(e, given ? P[0] : NULL);
  if (!given) for (int k = 0; k < 3; k++) P[0][k] = X.x[a][k] + (X.x[c][k] - X.x[a][k]) / 2;
  int w = tp_addv(&X, v, P[0], gd, gi), nf = X.nf; tp_adde(&X, a, w, gd, gi); tp_adde(&X, w, c, gd, gi);
  for (int f = 0; f < nf; f++) if (X.fa[f] && tp_has(3, X.f[f], a) && tp_has(3, X.f[f], c)) for (int q = 0; q < 2; q++) { int cy[3]; memcpy(cy, X.f[f], sizeof cy); tp_sub(3, cy, q ? a : c, w); tp_addf(&X, 3, cy, X.fg[f][0], X.fg[f][1]); }
  simp_regions(a, c, -1, w); X.ea[ei] = 0; for (int f = 0; f < nf; f++) if (tp_has(3, X.f[f], a) && tp_has(3, X.f[f], c)) X.fa[f] = 0;
  tp_close(&X); fin(base, TC_ALL);
}
static void fsimp(int rep, int lo, int hi, int opts) {
  int base = sx_live_blocks(), fi; MFace_ptr f = start_face(rep, lo, hi, opts, &fi); tp_read(b.m, &X, NULL); point(0);
  int gd = X.fg[fi][0], gi = X.fg[fi][1]; MVertex_ptr v = MF_Split_SimplexMesh(f, P[0]); int w = tp_addv(&X, v, P[0], gd, gi);
  for (int j = 0; j < 3; j++) { int c[3] = {w, X.f[fi][j], X.f[fi][(j + 1) % 3]}; tp_addf(&X, 3, c, gd, gi); tp_adde(&X, w, X.f[fi][j], gd, gi); }
  simp_regions(X.f[fi][0], X.f[fi][1], X.f[fi][2], w); X.fa[fi] = 0; tp_close(&X); fin(base, TC_ALL);
}
void h_esplit2_F1(void) { esplit(F1, C_TRI, TH(C_FAN4, C_PENTTRI)); }
void h_esplit3_F1(void) { esplit(F1, C_TET, TH(C_TET2, C_PRISMTET)); }
void h_esplit2_F4(void) { esplit(F4, C_TRI, TH(C_FAN4, C_PENTTRI)); }
void h_esplit3_F4(void) { esplit(F4, C_TET, TH(C_TET2, C_PRISMTET)); }
void h_fsplit2_F1(void) { fsplit(F1, C_TRI, TH(C_TRIQUAD, C_STRIP3)); }
void h_fsplit3_F1(void) { fsplit(F1, C_TET, TH(C_TET2, C_PRISMTET)); }
void h_fsplit3_F4(void) { fsplit(F4, C_TET, TH(C_TET2, C_PRISMTET)); }
void h_fsplite2_F1(void) { fsplite(F1, C_TRIQUAD, C_PENTTRI, CM_FDIR); }
void h_fsplite3_F1(void) { fsplite(F1, C_HEX, TH(C_HEX, C_PRISMTET), CM_FDIR); }
void h_fsplite3_F4(void) { fsplite(F4, C_HEX, TH(C_HEX, C_PRISMTET), CM_FDIR); }
void h_esimp2_F1(void) { esimp(F1, C_TRI, C_FAN4, CM_EDIR); }
void h_esimp3_F1(void) { esimp(F1, C_TET, TH(C_TET2, C_TET3E), CM_EDIR | TH(0, CM_FDIR)); }
void h_esimp3_F4(void) { esimp(F4, C_TET, TH(C_TET2, C_TET3E), CM_EDIR); }
void h_esimp3x_F1(void) { esimp(F1, C_TET4, TH(C_TET4, C_TET6), CM_RECORD); }
void h_fsimp2_F1(void) { fsimp(F1, C_TRI, C_FAN4, CM_EDIR); }
void h_fsimp3_F1(void) { fsimp(F1, C_TET, TH(C_TET2, C_TET3E), CM_FDIR); }
void h_fsimp3_F4(void) { fsimp(F4, C_TET, TH(C_TET2, C_TET3E), CM_FDIR); }
void h_fsimp3x_F1(void) { fsimp(F1, C_TET4, TH(C_TET4, C_TET6), CM_RECORD); }
