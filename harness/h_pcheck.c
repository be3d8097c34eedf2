/* C36: the parallel checker */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
#include "dist.h"
#include "distrib.h"
enum { K_NONE, K_GID, K_OWNER, K_TYPE, K_COORD, K_MDIM, K_MID, K_SWAP, K_N };
typedef struct { DArg d; int kind, who, dim, nth, val; double dx; int *res, *hit; } KA;
static void setpt(int d, MEntity_ptr e, int t) { if (d == 0) MV_Set_PType(e, t); else if (d == 1) ME_Set_PType(e, t); else if (d == 2) MF_Set_PType(e, t); else MR_Set_PType(e, t); }
static void setmp(int d, MEntity_ptr e, int t) { if (d == 0) MV_Set_MasterParID(e, t); else if (d == 1) ME_Set_MasterParID(e, t); else if (d == 2) MF_Set_MasterParID(e, t); else MR_Set_MasterParID(e, t); }
static int checker(Mesh_ptr s, KA *x, int r) { x->res[r] = MESH_Parallel_Check(s, MPI_COMM_WORLD); MPI_Barrier(MPI_COMM_WORLD); int ok = 1; for (int p = 0; p < x->d.np; p++) ok &= x->res[p] != 0; MPI_Barrier(MPI_COMM_WORLD); return ok; }
/* one change on one rank to an entity that has copies elsewhere; 1 if the copies now disagree */
static int disturb(KA *x, Mesh_ptr s, int r, MEntity_ptr *ep, MEntity_ptr *fp) { int d = x->dim, g, n = 0, q; MEntity_ptr e = NULL, f = NULL; double c[3];
  for (g = 0; g < pn[d]; g++) if (sube[d][g] && ptyp(d, sube[d][g]) != PINTERIOR && n++ == x->nth) e = sube[d][g];
  if (!e) return -1; *ep = e; int t = ptyp(d, e), m = mpar(d, e);
  if (x->kind == K_GID) { if (glid(d, e) == x->val) return -1; setgid(d, e, x->val); return 1; }
  if (x->kind == K_OWNER) { q = x->val; if (q < 0 || q >= x->d.np || q == m || (t == PGHOST && q != r && !MESH_Has_Ghosts_From_Prtn(s, q, (MType)d))) return -1; setmp(d, e, q); return 1; }
  if (x->kind == K_TYPE) { q = x->val; if (q != PINTERIOR && q != POVERLAP && q != PGHOST) return -1; if (q == t) return -1; setpt(d, e, q); return 1; }
  if (x->kind == K_COORD) { if (d) return -1; MV_Coords(e, c); c[x->val % 3] += x->dx; MV_Set_Coords(e, c); return 1; }
  if (x->kind == K_MDIM) { if (x->val == gdimof(d, e) || gdimof(d, e) > 3 || x->val < 0 || x->val > 3) return -1; setgent(d, e, x->val, gidof(d, e)); return 1; }
  if (x->kind == K_MID) { if (x->val == gidof(d, e)) return -1; setgent(d, e, gdimof(d, e), x->val); return 1; }
  /* names of two ghosts of one owner exchanged: only coordinates or bounding entities tell */
  if (t != PGHOST) return -1;
  for (g = 0; g < pn[d] && !f; g++) if (sube[d][g] && sube[d][g] != e && ptyp(d, sube[d][g]) == PGHOST && mpar(d, sube[d][g]) == m) f = sube[d][g];
  if (!f) return -1; *fp = f; q = glid(d, e); setgid(d, e, glid(d, f)); setgid(d, f, q); int ge = gdimof(d, e), ie = gidof(d, e); setgent(d, e, gdimof(d, f), gidof(d, f)); setgent(d, f, ge, ie); return 1; }
static void rankfn(int r, void *arg) { KA *x = arg; DArg *a = &x->d; Mesh_ptr s = dist_do(r, a); dist_check(s, r, a->np, a->part, a->ring, &a->D[r]); MEntity_ptr e = NULL, f = NULL; int g, k, v;
  sx_assert(checker(s, x, r), "a correctly distributed mesh passes");
  if (x->kind) { if (r == x->who) *x->hit = disturb(x, s, r, &e, &f); MPI_Barrier(MPI_COMM_WORLD); int h = *x->hit; v = checker(s, x, r);
    sx_assert(v == (h != 1), h == 1 ? "copies that disagree are reported" : "nothing reported if nothing changed");
    if (h == 1 && r == x->who) { int d = x->dim; for (g = 0; g < pn[d]; g++) if (sube[d][g] == e || sube[d][g] == f) { MEntity_ptr q = sube[d][g]; setgid(d, q, a->D[r].gid[d][g]); setmp(d, q, a->D[r].own[d][g]); setpt(d, q, a->D[r].pt[d][g]); setgent(d, q, P0.gdim[d][g], g + 1); if (d == 0) { double c[3]; for (k = 0; k < 3; k++) c[k] = P0.x[g][k]; MV_Set_Coords(q, c); } } }
    MPI_Barrier(MPI_COMM_WORLD); sx_assert(checker(s, x, r), "and passes again once they agree"); }
  else { /* entities without copies are not the checker's business */ for (g = 0; g < pn[0]; g++) if (sube[0][g] && ptyp(0, sube[0][g]) == PINTERIOR) { double c[3] = {-7, g, 5}; MV_Set_Coords(sube[0][g], c); setgent(0, sube[0][g], 2, 99); } sx_assert(checker(s, x, r), "what is only on one process cannot disagree");
    for (g = 0; g < pn[0]; g++) if (sube[0][g] && ptyp(0, sube[0][g]) == PINTERIOR) { double c[3]; for (k = 0; k < 3; k++) c[k] = P0.x[g][k]; MV_Set_Coords(sube[0][g], c); setgent(0, sube[0][g], P0.gdim[0][g], g + 1); } }
  dist_check(s, r, a->np, a->part, a->ring, &a->D[r]); cm_valid(s, "mesh unchanged"); MESH_Delete(s); }
static void pck(int rep, int ncat, const int *cats, int np, int ring, int k0, int k1) { CM b; KA X, *x = &X; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)]; cm_build(&b, rep, k, k0 ? 0 : CM_SYMX); memset(x, 0, sizeof *x); dist_setup(&x->d, &b, np, ring); if (k0 && np == 3) { int *q = x->d.part; sx_assume(q[0] != q[1] && q[1] != q[2] && q[0] != q[2]); } x->d.del = 1; x->res = sx_shared(sizeof(int) * 4); x->hit = sx_shared(sizeof(int));
  x->kind = sx_pick("disagreement", k0, k1); if (x->kind) { x->who = sx_pick("rank", 0, np - 1); x->dim = sx_pick("dim", 0, pdim); x->nth = sx_pick("which", 0, TH(2, 5));
    if (x->kind == K_GID) x->val = sx_int("global ID", 1, 60); else if (x->kind == K_OWNER) x->val = sx_pick("owner", 0, np - 1); else if (x->kind == K_TYPE) x->val = sx_pick("type", 0, 3); else if (x->kind == K_MDIM) x->val = sx_int("model dim", 0, 3); else if (x->kind == K_MID) x->val = sx_int("model ID", 0, 60); else if (x->kind == K_COORD) { x->val = sx_pick("axis", 0, 2); x->dx = sx_double("shift"); sx_assume((x->dx > 1e-6 && x->dx < 10) || (x->dx < -1e-6 && x->dx > -10)); } }
  sx_run_ranks(np, rankfn, x); sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
static const int c2[] = {C_TRIQUAD, C_QUAD22, C_FAN4, C_PENTTRI, C_STRIP3}, c3[] = {C_TET2, C_PYRHEX, C_PRISMTET, C_TET4, C_HEX2}, c2x3[] = {C_STRIP3, C_TRIQUAD, C_FAN4, C_QUAD22, C_PENTTRI}, c3x3[] = {C_TET3E, C_TET4, C_TET2, C_PYRHEX, C_PRISMTET};
void h_ok2_F1(void) { pck(F1, TH(3, 5), c2, 2, TH(-1, 2), 0, 0); }
void h_ok2x3_F1(void) { pck(F1, TH(1, 5), c2x3, 3, TH(-1, 1), 0, 0); }
void h_ok2x1_F1(void) { pck(F1, 2, c2, 1, 1, 0, 0); }
void h_ok3_F1(void) { pck(F1, TH(2, 5), c3, 2, TH(-1, 1), 0, 0); }
void h_ok3_F4(void) { pck(F4, TH(1, 5), c3, 2, -1, 0, 0); }
void h_bad2_F1(void) { pck(F1, TH(1, 5), c2, 2, TH(-1, 1), 1, K_N - 1); }
void h_bad2x3_F1(void) { pck(F1, 1, c2x3, 3, -1, 1, K_N - 1); }
void h_bad3_F1(void) { pck(F1, TH(1, 5), c3, 2, -1, 1, K_N - 1); }
void h_bad3_F4(void) { pck(F4, TH(1, 5), c3, 2, -1, 1, K_N - 1); }
