#include "topo.h"
#define cm_valid(m, w) (cm_types = 1, cm_valid(m, w))
static CM b; static Topo X, Y, Z; static Snap S0, S1;
static int sametop(void) { cm_snap(b.m, &S1); return cm_snap_eq(&S0, &S1, 1); }
static int eto[TN * 2], fto[TN];   /* representative of the merged group */
static int emrg[TN * 2], fmrg[TN];
static int samev(int n, int *a, int m, int *c) { if (n != m) return 0; for (int i = 0; i < n; i++) if (!tp_has(m, c, a[i])) return 0; return 1; }
static int uses_e(Topo *t, int f, int a, int c) { return tp_next(t->fn[f], t->f[f], a, c) >= 0 || tp_next(t->fn[f], t->f[f], c, a) >= 0; }
static int nrv(Topo *t, int r) { int n = 0; for (int v = 0; v < t->nv; v++) n += tp_rhas(t, r, v); return n; }
static int clash;   /* a merge would join two model entities of the same dimension */
static void pick_class(int *ga, int *gb, void **pa, void *pb, int keepb) { (void)keepb; if (gb[0] < ga[0]) { ga[0] = gb[0]; ga[1] = gb[1]; *pa = pb; } else if (gb[0] == ga[0]) { if (gb[1] != ga[1]) { clash = 1; ga[0] = ANYC; } *pa = 0; } }
/* contract e (vd onto vk) in Y; 0: the contraction is no valid mesh, nothing claimed */
static int contract(Topo *t, int e, int vd, int vk) {
  int i, j, k; clash = 0;
  for (i = 0; i < t->nf; i++) if (t->fa[i]) { int hd = tp_has(t->fn[i], t->f[i], vd), hk = tp_has(t->fn[i], t->f[i], vk); if (hd && hk && !uses_e(t, i, vd, vk)) return 0; }
  for (i = 0; i < t->nr; i++) if (t->ra[i]) { int hd = tp_rhas(t, i, vd), hk = tp_rhas(t, i, vk), he = 0; for (k = 0; k < t->rn[i]; k++) he |= uses_e(t, t->r[i][k], vd, vk); if (hd && hk && !he) return 0; if (he && nrv(t, i) == 4) t->ra[i] = 0; }
  t->va[vd] = 0; t->ea[e] = 0;
  for (i = 0; i < t->nf; i++) if (t->fa[i]) { tp_sub(t->fn[i], t->f[i], vd, vk); int n = 0; for (j = 0; j < t->fn[i]; j++) if (t->f[i][j] != t->f[i][(j + 1) % t->fn[i]]) t->f[i][n++] = t->f[i][j]; t->fn[i] = n; if (n < 3) t->fa[i] = 0; }
  for (i = 0; i < t->nr; i++) if (t->ra[i]) { for (k = j = 0; k < t->rn[i]; k++) if (t->fa[t->r[i][k]]) { t->r[i][j] = t->r[i][k]; t->rd[i][j++] = t->rd[i][k]; } t->rn[i] = j;
    int deg = 0; for (k = 0; k < j; k++) for (int q = 0; q < k; q++) deg |= samev(t->fn[t->r[i][k]], t->f[t->r[i][k]], t->fn[t->r[i][q]], t->f[t->r[i][q]]); if (deg) { if (j > 2) return 0; t->ra[i] = 0; } else if (j < 4) return 0; }
  for (i = 0; i < t->ne; i++) if (t->ea[i]) for (k = 0; k < 2; k++) if (t->e[i][k] == vd) t->e[i][k] = vk;
  for (i = 0; i < t->ne; i++) if (t->ea[i]) for (j = i + 1; j < t->ne; j++) if (t->ea[j] && ((t->e[i][0] == t->e[j][0] && t->e[i][1] == t->e[j][1]) || (t->e[i][0] == t->e[j][1] && t->e[i][1] == t->e[j][0]))) { if (emrg[i]) return 0; emrg[i] = 1; pick_class(t->eg[i], t->eg[j], &t->ep[i], t->ep[j], 0); t->ea[j] = 0; }
  for (i = 0; i < t->nf; i++) if (t->fa[i]) for (j = i + 1; j < t->nf; j++) if (t->fa[j]) { int d = tp_cyc(t->fn[i], t->f[i], t->fn[j], t->f[j]); if (!d) { if (samev(t->fn[i], t->f[i], t->fn[j], t->f[j])) return 0; continue; } if (b.c->dim == 2 || fmrg[i]) return 0; fmrg[i] = 1; pick_class(t->fg[i], t->fg[j], &t->fp[i], t->fp[j], 0); t->fa[j] = 0; for (int r = 0; r < t->nr; r++) for (k = 0; k < t->rn[r]; k++) if (t->r[r][k] == j) { t->r[r][k] = i; if (d < 0) t->rd[r][k] = !t->rd[r][k]; } }
  for (i = 0; i < t->nf; i++) if (t->fa[i]) { int s[2] = {0, 0}; for (int r = 0; r < t->nr; r++) if (t->ra[r]) for (k = 0; k < t->rn[r]; k++) if (t->r[r][k] == i) s[t->rd[r][k]]++; if (s[0] > 1 || s[1] > 1) return 0; }
  if (b.c->dim == 2) for (i = 0; i < t->ne; i++) if (t->ea[i]) { int n = 0; for (j = 0; j < t->nf; j++) if (t->fa[j]) n += uses_e(t, j, t->e[i][0], t->e[i][1]); if (n > 2) return 0; }
  return 1;
}
static int external(Topo *t, int v, int D) { if (D == 2) { for (int i = 0; i < t->ne; i++) if (t->ea[i] && (t->e[i][0] == v || t->e[i][1] == v)) { int n = 0; for (int j = 0; j < t->nf; j++) if (t->fa[j]) n += uses_e(t, j, t->e[i][0], t->e[i][1]); if (n < 2) return 1; } return 0; }
  for (int i = 0; i < t->nf; i++) if (t->fa[i] && tp_has(t->fn[i], t->f[i], v)) { int n = 0; for (int r = 0; r < t->nr; r++) if (t->ra[r]) for (int k = 0; k < t->rn[r]; k++) n += t->r[r][k] == i; if (n == 1) return 1; } return 0; }
static void coll(int rep, int lo, int hi, int opts) {
  int base = sx_live_blocks(), cat = sx_pick("mesh", lo, hi), i, k; cm_build(&b, rep, cat, opts); int D = b.c->dim, kind = sx_pick("classes", 0, 1); void *p;
  if (kind == 0) { i = 0; while ((p = MESH_Next_Vertex(b.m, &i))) { MV_Set_GEntDim(p, D); MV_Set_GEntID(p, 1); } i = 0; while ((p = MESH_Next_Edge(b.m, &i))) { ME_Set_GEntDim(p, D); ME_Set_GEntID(p, 1); } i = 0; while ((p = MESH_Next_Face(b.m, &i))) { MF_Set_GEntDim(p, D); MF_Set_GEntID(p, 1); } i = 0; while ((p = MESH_Next_Region(b.m, &i))) { MR_Set_GEntDim(p, D); MR_Set_GEntID(p, 1); } }
  else tp_classify(b.m);
  int ei = sx_pick("edge", 0, MESH_Num_Edges(b.m) - 1), keep = sx_pick("keep", 0, 2), topo = sx_pick("topoflag", 0, 1);
  MEdge_ptr e = MESH_Edge(b.m, ei); MVertex_ptr w[2] = {ME_Vertex(e, 0), ME_Vertex(e, 1)};
  if (kind == 0 && topo) { /* one other edge and one face anywhere on the model boundary */
    int cl = sx_pick("odim", 1, D == 2 ? 2 : 5); if (cl < 4) { int oe = sx_pick("other", 0, MESH_Num_Edges(b.m) - 1); ME_Set_GEntDim(MESH_Edge(b.m, oe), cl); ME_Set_GEntID(MESH_Edge(b.m, oe), 2); }
    else { int of = sx_pick("oface", 0, MESH_Num_Faces(b.m) - 1), fd = cl - 2; MF_Set_GEntDim(MESH_Face(b.m, of), fd); MF_Set_GEntID(MESH_Face(b.m, of), 2); } }
  if (topo) { static const int vd2[3][2] = {{1, 1}, {1, 2}, {2, 1}}; int q = sx_pick("vdims", 0, 2); for (k = 0; k < 2; k++) { MV_Set_GEntDim(w[k], vd2[q][k]); MV_Set_GEntID(w[k], sx_int("vid", 0, 100)); } }
  for (k = 0; k < 2; k++) MV_Set_GlobalID(w[k], sx_int("vgid", 0, 100));
  tp_read(b.m, &X, NULL); cm_snap(b.m, &S0);
  int vd = tp_v(&X, w[0]), vk = tp_v(&X, w[1]), d0 = X.vg[vd][0], d1 = X.vg[vk][0], ok = 1;
  if (keep == 1) { int t = vd; vd = vk; vk = t; }
  if (topo) { if (d0 == d1) { if (X.vg[vd][1] != X.vg[vk][1]) ok = 0; } else if (X.vg[vd][0] < X.vg[vk][0]) { if (keep) ok = 0; else { int t = vd; vd = vk; vk = t; } } }
  List_ptr del = NULL, mrg = NULL; MVertex_ptr in = keep ? w[keep - 1] : NULL, kept;
  memset(emrg, 0, sizeof emrg); memset(fmrg, 0, sizeof fmrg); Y = X; int valid = contract(&Y, ei, vd, vk); sx_assume(valid);
  if (topo && clash) ok = 0;
  kept = ME_Collapse(e, in, topo, &del, &mrg);
  if (!ok) { sx_assert(kept == NULL, "a collapse that classification does not permit is refused"); sx_assert(sametop(), "a refused collapse changes nothing"); if (del) sx_assert(List_Num_Entries(del) == 0, "a refused collapse reports nothing deleted"); if (del) List_Delete(del); if (mrg) List_Delete(mrg); MESH_Delete(b.m); sx_check_leaks(base, "refused collapse leaks"); sx_cover("refused"); return; }
  sx_assert(kept == w[0] || kept == w[1], "a permitted collapse returns one of the two vertices");
  if (keep) sx_assert(kept == in, "the requested vertex is kept");
  if (!keep && topo && d0 != d1) sx_assert(kept == X.v[vk], "the vertex on the lower-dimensional model entity is kept");
  if (!keep && !topo) { int x0 = external(&X, vd, D), x1 = external(&X, vk, D); if (x0 && !x1) sx_assert(kept == w[0], "the boundary vertex is kept"); if (x1 && !x0) sx_assert(kept == w[1], "the boundary vertex is kept"); }
  if (kept != X.v[vk]) { int t = vd; vd = vk; vk = t; Y = X; memset(emrg, 0, sizeof emrg); memset(fmrg, 0, sizeof fmrg); sx_assert(contract(&Y, ei, vd, vk), "model"); }
  tp_read(b.m, &Z, &Y); tp_match(&Y, &Z, TC_ALL | TC_PTR); cm_valid(b.m, "after collapsing");
  /* exactly the deleted entities are reported */
  int nd = 0, n = List_Num_Entries(del), c = 0; sx_assert(!list_has_dups(del), "no deleted entity is reported twice");
  for (i = 0; i < X.nv; i++) if (X.va[i] && MEnt_Dim(X.v[i]) == MDELETED) { nd++; c += List_Contains(del, X.v[i]); } for (i = 0; i < X.ne; i++) if (MEnt_Dim(X.ep[i]) == MDELETED) { nd++; c += List_Contains(del, X.ep[i]); }
  for (i = 0; i < X.nf; i++) if (MEnt_Dim(X.fp[i]) == MDELETED) { nd++; c += List_Contains(del, X.fp[i]); } for (i = 0; i < X.nr; i++) if (MEnt_Dim(X.rp[i]) == MDELETED) { nd++; c += List_Contains(del, X.rp[i]); }
  sx_assert(c == nd && n == nd, "exactly the deleted entities are reported"); sx_assert(List_Contains(del, e) && List_Contains(del, X.v[vd]), "the edge and the vertex are among them");
  int np = List_Num_Entries(mrg), want = 1; for (i = 0; i < X.ne; i++) want += emrg[i]; for (i = 0; i < X.nf; i++) want += fmrg[i]; sx_assert(np == 2 * want, "every merged pair is reported");
  for (i = 0; i < np; i += 2) { void *x = List_Entry(mrg, i), *y = List_Entry(mrg, i + 1); int xd = 0; for (k = 0; k < n; k++) xd |= List_Entry(del, k) == x; sx_assert(xd, "the first of a merged pair is the deleted one"); sx_assert(MEnt_Dim(y) != MDELETED && MEnt_OrigDim(x) == MEnt_Dim(y), "the second of a merged pair lives");
    if (MEnt_Dim(y) == MEDGE) { int p0 = -1, q0 = -1; for (k = 0; k < X.ne; k++) { if (X.ep[k] == x) p0 = k; if (X.ep[k] == y) q0 = k; } sx_assert(p0 >= 0 && q0 >= 0, "merged edges are old ones"); int s0 = X.e[p0][0] == vd || X.e[p0][0] == vk ? X.e[p0][1] : X.e[p0][0], s1 = X.e[q0][0] == vd || X.e[q0][0] == vk ? X.e[q0][1] : X.e[q0][0]; sx_assert(s0 == s1, "merged edges coincide"); } }
  for (i = 0; i < n; i++) MEnt_Delete(List_Entry(del, i), 0);
  List_Delete(del); List_Delete(mrg); cm_valid(b.m, "after deleting for good"); MESH_Delete(b.m); sx_check_leaks(base, "collapse leaks"); sx_cover("end");
}
void h_coll2_F1(void) { coll(F1, C_TRI, TH(C_TRIQUAD, C_STRIP3), 0); }
void h_coll2x_F1(void) { coll(F1, C_PENTTRI, C_STRIP3, 0); }
void h_coll2_F4(void) { coll(F4, C_TRI, TH(C_TRIQUAD, C_STRIP3), 0); }
void h_coll2e_F1(void) { coll(F1, C_FAN4, C_FAN4, CM_EDIR); }
void h_coll3_F1(void) { coll(F1, C_TET, TH(C_TET2, C_TET3E), 0); }
void h_coll3x_F1(void) { coll(F1, C_TET4, TH(C_TET4, C_TET6), 0); }
void h_coll3_F4(void) { coll(F4, C_TET, TH(C_TET2, C_TET3E), 0); }
void h_coll3x_F4(void) { coll(F4, C_TET4, TH(C_TET4, C_TET6), 0); }
void h_collh_F1(void) { coll(F1, C_HEX, TH(C_HEX, C_PYRHEX), 0); }
void h_collp_F1(void) { coll(F1, TH(C_PRISM, C_PRISMTET), C_PYR, 0); }
