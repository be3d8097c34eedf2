/* C33: weaving pieces built independently on each rank */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
#include "dist.h"
#include "distrib.h"
typedef struct { DArg d; int rep, type, flip, layers, ord; } WA;
#define GV(g) (7 * (g) + 5)
/* the cells of one rank with their closure, built through the public interface */
static Mesh_ptr piece(WA *x, int r) { Mesh_ptr s = MESH_New(x->rep); int d, q, g, k, n, m, *part = x->d.part; MEntity_ptr e, *E = sube[0]; memset(sube, 0, sizeof sube); (void)E;
  for (d = 0; d <= pdim; d++) for (q = 0; q < pn[d]; q++) { g = x->ord && r ? pn[d] - 1 - q : q; if (!dist_owns(d, g, r, part)) continue;
      if (d == 0) { double c[3]; for (k = 0; k < 3; k++) c[k] = P0.x[g][k]; e = MV_New(s); MV_Set_Coords(e, c); if (x->type == 1) MV_Set_GlobalID(e, GV(g)); }
      else if (d == 1) { e = ME_New(s); m = x->flip && (r + g) % 2; for (k = 0; k < 2; k++) ME_Set_Vertex(e, k, sube[0][P0.ev[g][m ? 1 - k : k]]); }
      else if (d == 2) { MEdge_ptr fe[12]; int fd[12]; for (n = 0; P0.fe[g][n] >= 0; n++); m = x->flip && pdim == 3 && (r + g / 2) % 2; for (k = 0; k < n; k++) { int a = m ? n - 1 - k : k; fe[k] = sube[1][P0.fe[g][a]]; fd[k] = P0.fd[g][a]; if (erev(P0.fe[g][a])) fd[k] = !fd[k]; if (m) fd[k] = !fd[k]; } frv[g] = m; e = MF_New(s); MF_Set_Edges(e, n, fe, fd); }
      else { MFace_ptr rf[12]; int rd[12]; for (n = 0; P0.rf[g][n] >= 0; n++) { rf[n] = sube[2][P0.rf[g][n]]; rd[n] = P0.rd[g][n]; if (frv[P0.rf[g][n]]) rd[n] = !rd[n]; } e = MR_New(s); MR_Set_Faces(e, n, rf, rd); }
      setgent(d, e, P0.gdim[d][g], g + 1); sube[d][g] = e; }
  return s; }
static void rankfn(int r, void *arg) { WA *x = arg; DArg *a = &x->d; dist_loose = x->flip; DA = a; PP = a->P; Mesh_ptr s = piece(x, r); int p, d, g, v;
  if (x->type == 2) for (p = 0; p < a->np; p++) if (p != r) for (v = 0; v < pn[0]; v++) if (dist_owns(0, v, r, a->part) && dist_owns(0, v, p, a->part)) { MESH_Set_Prtn(s, r, a->np); MESH_Flag_Has_Ghosts_From_Prtn(s, p, MALLTYPE); MESH_Flag_Has_Overlaps_On_Prtn(s, p, MALLTYPE); break; }
  sx_assert(MSTK_Weave_DistributedMeshes(s, pdim, x->layers, x->type, MPI_COMM_WORLD) == 1, "woven");
  dist_check(s, r, a->np, a->part, x->layers, &a->D[r]);
  for (g = 0; g < pn[0]; g++) if (sube[0][g] && x->type == 1) sx_assert(a->D[r].gid[0][g] == GV(g), "given global IDs are kept");
  dist_lists(s, r, a);
  sx_assert(MESH_Num_Attribs(s) == 0, "no attributes left behind");
  sx_assert(MESH_Parallel_Check(s, MPI_COMM_WORLD) == 1, "the parallel checker accepts the result");
  cm_valid(s, "woven mesh");
  /* exchanges match entities */
  { MAttrib_ptr A[4]; for (d = 0; d <= pdim; d++) { char nm[4] = "B0"; nm[1] += d; A[d] = MAttrib_New(s, nm, INT, (MType)d); for (g = 0; g < pn[d]; g++) if (sube[d][g]) MEnt_Set_AttVal(sube[d][g], A[d], ptyp(d, sube[d][g]) == PGHOST ? -1 : g + 1, 0, NULL); }
    MESH_UpdateAttributes(s, MPI_COMM_WORLD); for (d = 0; d <= pdim; d++) for (g = 0; g < pn[d]; g++) if (sube[d][g]) sx_assert(MEnt_Get_IntAttVal(sube[d][g], A[d]) == g + 1, "exchanges match entities after weaving"); }
  MESH_Delete(s); }
/* without ghost cells, cells next to the partition boundary and their closure are labelled overlap although nobody else has them */
static void unshared(DRec *D, int np) { for (int p = 0; p < np; p++) for (int d = 0; d <= pdim; d++) for (int i = 0; i < pn[d]; i++) { int n = 0; for (int q = 0; q < np; q++) n += !!D[q].gid[d][i]; if (n == 1 && D[p].pt[d][i] == POVERLAP) D[p].pt[d][i] = PINTERIOR; } }
static void weave(int rep, int ncat, const int *cats, int np, int types, int sym) { CM b; WA X, *x = &X; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], i, j, c; cm_build(&b, rep, k, 0); memset(x, 0, sizeof *x); dist_setup(&x->d, &b, np, -1);
  if (sym) for (i = 0; i < pn[0]; i++) for (c = 0; c < 3; c++) { P0.x[i][c] = c ? 0.0 : i < TH(3, 9) ? (double)sx_int("x", -8, 8) : (double)(2 * i - 9); }
  if (sym) for (i = 0; i < pn[0]; i++) for (j = 0; j < i; j++) sx_assume(P0.x[i][0] != P0.x[j][0]);
  MESH_Delete(b.m); x->rep = rep; x->type = types == 2 ? (sym ? 2 * sx_pick("p2p", 0, 1) : 2) : sx_pick("input type", 0, types); x->flip = sx_pick("directions differ", 0, 1); x->ord = sx_pick("order differs", 0, 1); x->layers = x->d.ring = sym ? 1 : sx_pick("ghost layers", 0, 1); if (x->type == 1 && sx_pick("coincident vertices", 0, 1)) for (i = 0; i < pn[0]; i++) for (c = 0; c < 3; c++) P0.x[i][c] = 0.0;
  sx_run_ranks(np, rankfn, x); if (x->type == 1) for (i = 0; i < np; i++) for (j = 0; j < pn[0]; j++) if (x->d.D[i].gid[0][j]) x->d.D[i].gid[0][j] = j + 1; if (!x->layers) unshared(x->d.D, np); dist_cross(x->d.D, np, x->d.part, x->layers, 1);
  sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
static const int c2[] = {C_TRIQUAD, C_QUAD22, C_FAN4, C_PENTTRI, C_STRIP3}, c3[] = {C_TET2, C_PYRHEX, C_PRISMTET, C_TET4, C_HEX2};
void h_weave2_F1(void) { weave(F1, TH(3, 5), c2, 2, 1, 0); }
void h_weave2x3_F1(void) { weave(F1, TH(2, 4), c2, 3, 1, 0); }
void h_weave3_F1(void) { weave(F1, TH(3, 5), c3, 2, 1, 0); }
void h_weave3x3_F1(void) { weave(F1, TH(1, 5), c3 + 3, 3, 1, 0); }
void h_weave3_F4(void) { weave(F4, TH(2, 5), c3, 2, 1, 0); }
void h_p2p2_F1(void) { weave(F1, TH(3, 5), c2, 2, 2, 0); }
void h_p2p2x3_F1(void) { weave(F1, TH(2, 4), c2, 3, 2, 0); }
void h_p2p3_F1(void) { weave(F1, TH(3, 5), c3, 2, 2, 0); }
void h_p2p3x3_F1(void) { weave(F1, TH(1, 5), c3 + 3, 3, 2, 0); }
void h_sym2_F1(void) { weave(F1, TH(1, 3), c2, 2, 2, 1); }
void h_sym3_F1(void) { weave(F1, TH(1, 3), c3, 2, 2, 1); }
