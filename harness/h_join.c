#include "topo.h"
#define cm_valid(m, w) (cm_types = 1, cm_valid(m, w))
static CM b, b2; static Topo X, Z, Y;
static void fin(int base, int cls) { tp_read(b.m, &Z, &X); tp_match(&X, &Z, cls); cm_valid(b.m, "after the operation"); MESH_Delete(b.m); sx_check_leaks(base, "modification leaks"); sx_cover("end"); }
static int common(int f, int g, int *e) { int c = 0; for (int j = 0; j < X.fn[f]; j++) { int a = X.f[f][j], d = X.f[f][(j + 1) % X.fn[f]]; if (tp_next(X.fn[g], X.f[g], a, d) >= 0 || tp_next(X.fn[g], X.f[g], d, a) >= 0) { c++; *e = tp_e(&X, a, d); } } return c; }
static int commonf(int r, int s, int *f) { int c = 0; for (int j = 0; j < X.rn[r]; j++) for (int k = 0; k < X.rn[s]; k++) if (X.r[r][j] == X.r[s][k]) { c++; *f = X.r[r][j]; } return c; }
static int uses(int r, int f) { for (int k = 0; k < X.rn[r]; k++) if (X.r[r][k] == f) return X.rd[r][k]; return -1; }
/* expected cycle of the union of f and g (as f is oriented) without edge (a,c) */
static int joined(int f, int g, int e, int *o) { int a = X.e[e][0], c = X.e[e][1], n = X.fn[f], m = X.fn[g], w = 0; int j = tp_next(n, X.f[f], a, c); if (j < 0) { int t = a; a = c; c = t; j = tp_next(n, X.f[f], a, c); }
  for (int k = 1; k <= n; k++) o[w++] = X.f[f][(j + k) % n];   /* c ... a */
  int q[12]; if (tp_next(m, X.f[g], c, a) >= 0) for (int k = 0; k < m; k++) q[k] = X.f[g][k]; else for (int k = 0; k < m; k++) q[k] = X.f[g][m - 1 - k];
  j = tp_next(m, q, c, a); for (int k = 2; k < m; k++) o[w++] = q[(j + k) % m]; return w; }
static void fjoin(int rep, int lo, int hi, int opts) {
  int base = sx_live_blocks(), cat = sx_pick("mesh", lo, hi); cm_build(&b, rep, cat, opts); tp_classify(b.m); tp_read(b.m, &X, NULL);
  int f = sx_pick("f", 0, X.nf - 1), g = sx_pick("g", 0, X.nf - 1), e = -1; sx_assume(f != g);
  sx_assume(common(f, g, &e) == 1);
  int gd = sx_pick("gdim", 2, 3), gd2 = sx_pick("gdim2", 2, 3), gi = sx_int("gid", 0, 1000), same = sx_pick("same", 0, 1), gi2 = same ? gi : sx_int("gid2", 0, 1000); if (!same) sx_assume(gi2 != gi);
  MF_Set_GEntDim(X.fp[f], gd); MF_Set_GEntID(X.fp[f], gi); MF_Set_GEntDim(X.fp[g], gd2); MF_Set_GEntID(X.fp[g], gi2); tp_read(b.m, &X, NULL);
  int okregs = 1, wrong = sx_pick("wrong", 0, 1); for (int r = 0; r < X.nr; r++) okregs &= (uses(r, f) >= 0) == (uses(r, g) >= 0);
  MEdge_ptr je = X.ep[e]; int we = -1; if (wrong) { for (int k = 0; k < X.ne; k++) if (k != e) { int a = X.e[k][0], c = X.e[k][1]; if (tp_next(X.fn[g], X.f[g], a, c) < 0 && tp_next(X.fn[g], X.f[g], c, a) < 0) we = k; } sx_assume(we >= 0); je = X.ep[we]; }
  MFace_ptr nf = MFs_Join(X.fp[f], X.fp[g], je);
  if (wrong || !same || gd != gd2 || !okregs) { sx_assert(nf == NULL, "a join that is not possible is refused"); fin(base, TC_ALL | TC_PTR); return; }
  sx_assert(nf != NULL, "faces of the same model entity and regions are joined");
  int c[12], n = joined(f, g, e, c), w = tp_addf(&X, n, c, gd, gi); X.fp[w] = nf; X.fa[f] = X.fa[g] = 0; X.ea[e] = 0;
  for (int r = 0; r < X.nr; r++) { int d = uses(r, f); if (d < 0) continue; int k2 = 0; for (int k = 0; k < X.rn[r]; k++) if (X.r[r][k] != f && X.r[r][k] != g) { X.r[r][k2] = X.r[r][k]; X.rd[r][k2++] = X.rd[r][k]; } X.r[r][k2] = w; X.rd[r][k2++] = d; X.rn[r] = k2; }
  fin(base, TC_ALL | TC_PTR);
}
/* split a face by an edge and join it back */
static void fback(int rep, int lo, int hi, int opts) {
  int base = sx_live_blocks(), cat = sx_pick("mesh", lo, hi); cm_build(&b, rep, cat, opts); tp_classify(b.m); tp_read(b.m, &X, NULL);
  int f = sx_pick("f", 0, X.nf - 1), n = X.fn[f]; sx_assume(n > 3); int s = sx_pick("from", 0, n - 1), l = sx_pick("len", 2, n - 2);
  MEdge_ptr e = MF_Split_with_Edge(X.fp[f], X.v[X.f[f][s]], X.v[X.f[f][(s + l) % n]]); List_ptr ef = ME_Faces(e); MFace_ptr p = List_Entry(ef, 0), q = List_Entry(ef, 1); List_Delete(ef);
  if (sx_pick("swap", 0, 1)) { MFace_ptr t = p; p = q; q = t; }
  MFace_ptr nf = MFs_Join(p, q, e); sx_assert(nf != NULL, "halves of a face are joined"); X.fp[f] = nf; fin(base, TC_ALL | TC_PTR);
}
static void rjoin(int rep, int lo, int hi, int opts) {
  int base = sx_live_blocks(), cat = sx_pick("mesh", lo, hi); cm_build(&b, rep, cat, opts); tp_classify(b.m); tp_read(b.m, &X, NULL);
  int r = sx_pick("r", 0, X.nr - 1), s = sx_pick("s", 0, X.nr - 1), f = -1; sx_assume(r != s); int nc = commonf(r, s, &f); sx_assume(nc <= 1); int giv = sx_pick("face", 0, 2); /* none, the common face, a face of neither */
  int gi = sx_int("gid", 0, 1000), same = sx_pick("same", 0, 1), gi2 = same ? gi : sx_int("gid2", 0, 1000); if (!same) sx_assume(gi2 != gi);
  MR_Set_GEntID(X.rp[r], gi); MR_Set_GEntID(X.rp[s], gi2); tp_read(b.m, &X, NULL);
  MFace_ptr jf = NULL; if (giv == 1) { sx_assume(nc == 1); jf = X.fp[f]; } if (giv == 2) { int k; for (k = 0; k < X.nf; k++) if ((uses(r, k) >= 0) != (uses(s, k) >= 0)) break; sx_assume(k < X.nf); jf = X.fp[k]; }
  MRegion_ptr nr = MRs_Join(X.rp[r], X.rp[s], jf);
  if (!same || nc != 1 || giv == 2) { sx_assert(nr == NULL, "a join that is not possible is refused"); fin(base, TC_ALL | TC_PTR); return; }
  sx_assert(nr == X.rp[r], "the first region becomes the joined one");
  int k2 = 0; for (int k = 0; k < X.rn[r]; k++) if (X.r[r][k] != f) { X.r[r][k2] = X.r[r][k]; X.rd[r][k2++] = X.rd[r][k]; } for (int k = 0; k < X.rn[s]; k++) if (X.r[s][k] != f) { X.r[r][k2] = X.r[s][k]; X.rd[r][k2++] = X.rd[s][k]; } X.rn[r] = k2; X.ra[s] = 0; X.fa[f] = 0;
  fin(base, TC_ALL | TC_PTR);
}
/* loops of edges through a hex or prism: the middle section made by splitting its upright edges and faces */
static void rsplit(int rep, int which) {
  int base = sx_live_blocks(); int cat = which == 0 ? C_HEX : which == 1 ? C_PRISM : C_HEX2; cm_build(&b, rep, cat, CM_FDIR); tp_classify(b.m);
  int n = which == 1 ? 3 : 4, bot[4], top[4]; MVertex_ptr mid[4]; MEdge_ptr lp[4], q[4];
  for (int i = 0; i < n; i++) { bot[i] = i; top[i] = which == 1 ? 3 + i : 4 + i; }
  if (which == 2) { int bb[4] = {0, 1, 2, 3}, tt[4] = {4, 5, 6, 7}; memcpy(bot, bb, sizeof bb); memcpy(top, tt, sizeof tt); }
  for (int i = 0; i < n; i++) { MEdge_ptr e = MVs_CommonEdge(b.v[bot[i]], b.v[top[i]]); mid[i] = ME_Split(e, NULL); MV_Set_GEntDim(mid[i], 1); }
  int flip = sx_pick("edgeflip", 0, n);
  for (int i = 0; i < n; i++) { MVertex_ptr vv[4] = {mid[i], mid[(i + 1) % n], b.v[bot[i]], b.v[bot[(i + 1) % n]]}; int k = 0; MFace_ptr f, ff = NULL; while ((f = MESH_Next_Face(b.m, &k))) { int c = 0; for (int z = 0; z < 4; z++) c += MF_UsesEntity(f, vv[z], MVERTEX); if (c == 4) ff = f; } sx_assert(ff != NULL, "side face"); lp[i] = i == flip ? MF_Split_with_Edge(ff, mid[(i + 1) % n], mid[i]) : MF_Split_with_Edge(ff, mid[i], mid[(i + 1) % n]); sx_assert(MF_Split_with_Edge(ff, mid[i], mid[(i + 1) % n]) == lp[i], "already connected vertices: nothing is split"); }
  cm_valid(b.m, "before splitting"); tp_read(b.m, &X, NULL);
  int rot = sx_pick("start", 0, n - 1), rev = sx_pick("reverse", 0, 1), gi = sx_int("gid", 0, 1000), jn = sx_pick("join", 0, 1);
  for (int i = 0; i < n; i++) q[i] = lp[rev ? (rot + n - i) % n : (rot + i) % n];
  /* the first edge must be traversed from its vertex 0 to its vertex 1 */
  MEdge_ptr e0 = q[0]; MVertex_ptr v1 = ME_Vertex(e0, 1); sx_assume(ME_Vertex(q[1], 0) == v1 || ME_Vertex(q[1], 1) == v1);
  MRegion_ptr r = NULL; int ri = -1; for (int k = 0; k < X.nr; k++) { int c = 0; for (int i = 0; i < n; i++) c += tp_rhas(&X, k, cm_vidx(&b, b.v[bot[i]])); if (c == n) { r = X.rp[k]; ri = k; } }
  MR_Set_GEntID(r, gi); X.rg[ri][1] = gi;
  MFace_ptr nf = MR_Split_with_EdgeLoop(r, n, q);
  int cyc[12]; for (int i = 0; i < n; i++) cyc[i] = tp_v(&X, mid[i]); int w = tp_addf(&X, n, cyc, 3, gi); X.fp[w] = nf;
  /* lower part: oriented faces of r having a bottom vertex; new face oriented opposite to them along the section */
  int lo = X.nr++, up = X.nr++; X.rn[lo] = X.rn[up] = 0; X.ra[lo] = X.ra[up] = 1; X.rg[lo][0] = X.rg[up][0] = 3; X.rg[lo][1] = X.rg[up][1] = gi; X.rp[lo] = X.rp[up] = 0;
  for (int k = 0; k < X.rn[ri]; k++) { int f = X.r[ri][k], isl = 0; for (int i = 0; i < n; i++) if (tp_has(X.fn[f], X.f[f], cm_vidx(&b, b.v[bot[i]]))) isl = 1; int t = isl ? lo : up; X.r[t][X.rn[t]] = f; X.rd[t][X.rn[t]++] = X.rd[ri][k]; }
  int dl = -1; for (int k = 0; k < X.rn[lo]; k++) { int o[12], m = tp_outward(&X, lo, k, o); if (tp_next(m, o, cyc[0], cyc[1]) >= 0) dl = 0; if (tp_next(m, o, cyc[1], cyc[0]) >= 0) dl = 1; }
  sx_assert(dl >= 0, "section edge lies on the lower part"); X.r[lo][X.rn[lo]] = w; X.rd[lo][X.rn[lo]++] = dl; X.r[up][X.rn[up]] = w; X.rd[up][X.rn[up]++] = !dl; X.ra[ri] = 0;
  if (!jn) { fin(base, TC_ALL | TC_PTR); return; }
  cm_valid(b.m, "after splitting"); MRegion_ptr r0 = MF_Region(nf, 0), r1 = MF_Region(nf, 1), res; int sw = sx_pick("swap", 0, 1); if (sw) { MRegion_ptr t = r0; r0 = r1; r1 = t; } res = MRs_Join(r0, r1, nf); sx_assert(res == r0, "joined"); X.ra[lo] = X.ra[up] = 0; X.ra[ri] = 1; X.rp[ri] = res; X.fa[w] = 0; fin(base, TC_ALL | TC_PTR);
}
void h_fjoin2_F1(void) { fjoin(F1, C_TRI2, TH(C_QUAD22, C_STRIP3), CM_EDIR); }
void h_fjoin3_F1(void) { fjoin(F1, C_HEX, TH(C_HEX, C_HEX2), CM_FDIR); }
void h_fjoin3p_F1(void) { fjoin(F1, C_PYRHEX, TH(C_PYRHEX, C_PRISMTET), CM_FDIR); }
void h_fjoin3_F4(void) { fjoin(F4, C_HEX, TH(C_HEX, C_PYRHEX), CM_FDIR); }
void h_fback2_F1(void) { fback(F1, C_TRIQUAD, C_PENTTRI, CM_EDIR); }
void h_fback3_F1(void) { fback(F1, C_HEX, TH(C_HEX2, C_PRISMTET), CM_FDIR); }
void h_fback3_F4(void) { fback(F4, C_HEX, TH(C_HEX, C_PRISMTET), CM_FDIR); }
void h_rjoin_F1(void) { rjoin(F1, C_TET, C_TET3E, CM_FDIR); }
void h_rjoinx_F1(void) { rjoin(F1, C_HEX2, C_PRISMTET, CM_FDIR); }
void h_rjoin_F4(void) { rjoin(F4, C_TET2, TH(C_TET3E, C_PRISMTET), CM_FDIR); }
void h_rjoint_F1(void) { rjoin(F1, C_TET4, TH(C_TET4, C_TET6), CM_FDIR); }
void h_rsplit_hex_F1(void) { rsplit(F1, 0); }
void h_rsplit_prism_F1(void) { rsplit(F1, 1); }
void h_rsplit_hex2_F1(void) { rsplit(F1, 2); }
void h_rsplit_hex_F4(void) { rsplit(F4, 0); }
