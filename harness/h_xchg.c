/* C34: exchanges of data between the copies of an entity */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
#include "dist.h"
#include "distrib.h"
typedef struct { DArg d; int op, ty, dim, opt, nv, v[2][3][4]; int *set; double *out, *in; Mesh_ptr m[3]; } XA;
#define NCOMP(ty) ((ty) == VECTOR ? 2 : (ty) == TENSOR ? 3 : 1)
/* the value rank r stores on entity g before round q: unset values count as zero */
static int isset(int q, int r, int g) { return q == 1 || (g + 2 * r) % 4 != 3; }
static int pre(XA *x, int q, int r, int g) { return isset(q, r, g) ? x->v[q][r][g % x->nv] : 0; }
static double comp(XA *x, int q, int r, int g, int k) { int v = pre(x, q, r, g); return isset(q, r, g) ? (double)(x->ty == VECTOR ? (k ? 0 : v) : x->ty == TENSOR ? (k == 1 ? v : 0) : v) : 0.0; }
static void put(XA *x, int q, int r, MAttrib_ptr A) { for (int g = 0; g < pn[x->dim]; g++) { MEntity_ptr e = sube[x->dim][g]; if (!e || !isset(q, r, g)) continue; int v = pre(x, q, r, g); double w[3]; for (int k = 0; k < 3; k++) w[k] = comp(x, q, r, g, k);
    if (x->ty == INT) MEnt_Set_AttVal(e, A, v, 0, NULL); else if (x->ty == DOUBLE) MEnt_Set_AttVal(e, A, 0, (double)v, NULL); else MEnt_Set_AttVal(e, A, 0, 0, w); } }
#define OUT(r, g, k) x->out[((r) * CMAX * 2 + (g)) * 3 + (k)]
static void get(XA *x, int r, MAttrib_ptr A) { for (int g = 0; g < pn[x->dim]; g++) { MEntity_ptr e = sube[x->dim][g]; if (!e) continue; int iv = 0; double dv = 0, *pv = NULL; MEnt_Get_AttVal(e, A, &iv, &dv, (void **)&pv);
    if (x->ty == INT) OUT(r, g, 0) = (double)iv; else if (x->ty == DOUBLE) OUT(r, g, 0) = dv; else for (int k = 0; k < NCOMP(x->ty); k++) OUT(r, g, k) = pv ? pv[k] : 0.0; } }
/* values on copies after the exchange; D: owners; bnd: on the partition boundary */
static double want(XA *x, int q, int r, int g, int k, int isb) { DRec *D = x->d.D; int own = D[0].own[x->dim][g], p, n = 0, np = x->d.np; for (p = 0; p < np; p++) if (D[p].gid[x->dim][g]) own = D[p].own[x->dim][g];
  if (x->op <= 1) return comp(x, q, own, g, k);
  if (x->op == 3) { if (r != own) return comp(x, q, own, g, k); if (!isb) return comp(x, q, r, g, k); for (p = 0; p < np; p++) if (p != own && dist_owns(x->dim, g, p, x->d.part)) return comp(x, q, p, g, k); return comp(x, q, r, g, k); }
  double a = comp(x, q, own, g, k); int best = own; n = 1;
  for (p = 0; p < np; p++) if (p != own && D[p].gid[x->dim][g]) { double b = comp(x, q, p, g, k); int u = pre(x, q, p, g), w = pre(x, q, best, g); n++;
      if (x->opt == ATTOP_SUM || x->opt == ATTOP_AVG) a += b; else if (x->opt == ATTOP_MAX ? (NCOMP(x->ty) > 1 ? u * u > w * w : u > w) : (NCOMP(x->ty) > 1 ? u * u < w * w : u < w)) { best = p; a = b; } }
  return x->opt == ATTOP_AVG ? a / n : x->opt == ATTOP_SUM ? a : comp(x, q, best, g, k); }
static void chk(XA *x, int q, int np) { for (int r = 0; r < np; r++) for (int g = 0; g < pn[x->dim]; g++) if (x->d.D[r].gid[x->dim][g]) for (int k = 0; k < NCOMP(x->ty); k++) { int o = 0, p, isb = 0; for (p = 0; p < np; p++) o += dist_owns(x->dim, g, p, x->d.part); isb = o > 1; sx_assert(OUT(r, g, k) == want(x, q, r, g, k, isb), "every copy holds the value the exchange defines"); } }
static void rankfn(int r, void *arg) { XA *x = arg; DArg *a = &x->d; Mesh_ptr s = dist_do(r, a); dist_check(s, r, a->np, a->part, a->ring, &a->D[r]);
  MAttrib_ptr A = x->ty == VECTOR || x->ty == TENSOR ? MAttrib_New(s, "A", x->ty, (MType)x->dim, NCOMP(x->ty)) : MAttrib_New(s, "A", x->ty, (MType)x->dim), B = MAttrib_New(s, "B", INT, (MType)x->dim), P = MAttrib_New(s, "P", POINTER, MALLTYPE); int i; (void)P;
  for (i = 0; i < NE(x->dim, s); i++) MEnt_Set_AttVal(ent(s, x->dim, i), B, 7 + r, 0, NULL);
  for (int q = 0; q < 2; q++) { put(x, q, r, A); if (q == 1 && x->op == 0) x->op = 0;
    if (x->op == 0) sx_assert(MESH_Update1Attribute(s, A, MPI_COMM_WORLD) == 1 || a->np == 1, "updated"); else if (x->op == 1) sx_assert(MESH_UpdateAttributes(s, MPI_COMM_WORLD) == 1, "updated"); else if (x->op == 2) MESH_GathScat1Attribute(s, A, (MAttOpType)x->opt, MPI_COMM_WORLD); else MESH_XchngEdgeFaceAttrib(s, A, MPI_COMM_WORLD);
    get(x, r, A); MPI_Barrier(MPI_COMM_WORLD); if (r == 0) chk(x, q, a->np); MPI_Barrier(MPI_COMM_WORLD); }
  for (i = 0; i < NE(x->dim, s); i++) { int iv = 0; double dv; void *pv; MEntity_ptr e = ent(s, x->dim, i); MEnt_Get_AttVal(e, B, &iv, &dv, &pv); sx_assert(iv == 7 + (x->op == 1 ? mpar(x->dim, e) : r), "other attributes keep their values"); }
  sube[0][0] = NULL; dist_check(s, r, a->np, a->part, a->ring, &a->D[r]); cm_valid(s, "mesh unchanged"); MESH_Delete(s); }
static void xch(int rep, int ncat, const int *cats, int np, int ring, int op, int lim) {
  CM b; XA X, *x = &X; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], i, q, r; cm_build(&b, rep, k, CM_SYMX); memset(x, 0, sizeof *x); dist_setup(&x->d, &b, np, ring); x->op = op; x->d.del = 1;
  static const int tys[] = {INT, DOUBLE, VECTOR, TENSOR}; x->ty = tys[sx_pick("type", 0, op == 2 ? 2 : 3)]; x->dim = op == 3 ? pdim - 1 : sx_pick("dim", 0, pdim);
  if (op == 2) { x->opt = sx_pick("operation", ATTOP_MAX, ATTOP_AVG); if (x->ty == INT && x->opt == ATTOP_AVG) sx_assume(0); }
  x->nv = op == 2 ? 2 : 3; x->out = sx_shared(sizeof(double) * 3 * 3 * CMAX * 2);
  for (q = 0; q < 2; q++) for (r = 0; r < np; r++) for (i = 0; i < x->nv; i++) { int fr = TH(i == 0 && q == (r < np - 1), i == 0 || op == 2); x->v[q][r][i] = !fr ? (r + i) % 2 ? 3 + q * 5 + r * 3 + i : -2 - r - q - i * 2 : op == 2 && x->ty != INT ? sx_pick("value", 0, TH(1, 2)) * 3 - 3 : sx_int("value", -lim, lim); }
  sx_run_ranks(np, rankfn, x); sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
/* vertex coordinates: owners move their vertices, then all copies move along */
typedef struct { DArg d; double x[3][CMAX][3]; } CA;
static void coordfn(int r, void *arg) { CA *x = arg; DArg *a = &x->d; Mesh_ptr s = dist_do(r, a); int g, k, q; double y[3]; dist_check(s, r, a->np, a->part, a->ring, &a->D[r]);
  for (q = 0; q < 2; q++) { for (g = 0; g < pn[0]; g++) if (sube[0][g]) { if (q) MV_Set_Coords(sube[0][g], x->x[r][g]); else { y[0] = y[1] = y[2] = r == 0 ? 1 : -r; if (mpar(0, sube[0][g]) == r) MV_Set_Coords(sube[0][g], y); } }
    sx_assert(MESH_UpdateVertexCoords(s, MPI_COMM_WORLD) == 1, "updated");
    for (g = 0; g < pn[0]; g++) if (sube[0][g]) { int o = mpar(0, sube[0][g]); MV_Coords(sube[0][g], y); for (k = 0; k < 3; k++) sx_assert(y[k] == (q ? x->x[o][g][k] : o == 0 ? 1 : -o), "every copy of a vertex is where its owner has it"); } }
  MESH_Delete(s); }
static void crd(int rep, int ncat, const int *cats, int np, int ring) { CM b; CA X, *x = &X; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], r, g; cm_build(&b, rep, k, CM_SYMX); memset(x, 0, sizeof *x); dist_setup(&x->d, &b, np, ring); x->d.del = 1;
  for (r = 0; r < np; r++) for (g = 0; g < pn[0]; g++) for (k = 0; k < 3; k++) x->x[r][g][k] = k == 0 ? sx_double("new x") : r * 100 + g * 3 + k;
  sx_run_ranks(np, coordfn, x); sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
static const int c2[] = {C_TRIQUAD, C_QUAD22, C_FAN4, C_PENTTRI, C_STRIP3}, c3[] = {C_TET2, C_PYRHEX, C_PRISMTET, C_TET4, C_HEX2}, c2x3[] = {C_STRIP3, C_TRIQUAD, C_FAN4, C_QUAD22, C_PENTTRI}, c3x3[] = {C_TET3E, C_TET4, C_TET2, C_PYRHEX, C_PRISMTET};
void h_upd2_F1(void) { xch(F1, TH(1, 5), c2, 2, TH(-1, 1), 0, 1000); }
void h_upd2x3_F1(void) { xch(F1, TH(1, 5), c2x3, 3, -1, 0, 1000); }
void h_upd3_F1(void) { xch(F1, TH(1, 5), c3, 2, TH(-1, 1), 0, 1000); }
void h_upds2_F1(void) { xch(F1, TH(1, 5), c2, 2, -1, 1, 1000); }
void h_gs2_F1(void) { xch(F1, TH(1, 5), c2, 2, -1, 2, 4); }
void h_gs2x3_F1(void) { xch(F1, TH(1, 5), c2x3, 3, -1, 2, 4); }
void h_gs3_F1(void) { xch(F1, TH(1, 5), c3, 2, -1, 2, 4); }
void h_ef2_F1(void) { xch(F1, TH(1, 5), c2, 2, TH(-1, 1), 3, 1000); }
void h_ef2x3_F1(void) { xch(F1, TH(1, 5), c2x3, 3, -1, 3, 1000); }
void h_ef3_F1(void) { xch(F1, TH(1, 5), c3, 2, -1, 3, 1000); }
void h_crd2_F1(void) { crd(F1, TH(2, 5), c2, 2, TH(-1, 2)); }
void h_crd2x3_F1(void) { crd(F1, TH(1, 5), c2x3, 3, TH(-1, 1)); }
void h_upd3x3_F1(void) { xch(F1, TH(1, 5), c3x3, 3, -1, 0, 1000); }
void h_crd3x3_F1(void) { crd(F1, TH(1, 5), c3x3, 3, -1); }
void h_crd3_F1(void) { crd(F1, TH(2, 5), c3, 2, TH(-1, 1)); }
void h_crd3_F4(void) { crd(F4, TH(1, 5), c3, 2, -1); }
void h_upd3_F4(void) { xch(F4, TH(1, 5), c3, 2, -1, 0, 1000); }
