/* C35: renumbering global IDs of a distributed mesh */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
#include "dist.h"
#include "distrib.h"
typedef struct { DArg d; int kind, rev, search; DRec *D2; int old[4]; } RA;
static MEntity_ptr byg(Mesh_ptr s, int d, int g) { return d == 0 ? (MEntity_ptr)MESH_VertexFromGlobalID(s, g) : d == 1 ? (MEntity_ptr)MESH_EdgeFromGlobalID(s, g) : d == 2 ? (MEntity_ptr)MESH_FaceFromGlobalID(s, g) : (MEntity_ptr)MESH_RegionFromGlobalID(s, g); }
static void found(Mesh_ptr s) { for (int d = 0; d <= pdim; d++) for (int g = 1; g <= 2 * CMAX; g++) { MEntity_ptr w = NULL; for (int i = 0; i < NE(d, s); i++) if (glid(d, ent(s, d, i)) == g) w = ent(s, d, i); sx_assert(byg(s, d, g) == w, "entities are found by their global ID"); } }
static void rankfn(int r, void *arg) { RA *x = arg; DArg *a = &x->d; Mesh_ptr s = dist_do(r, a); int d, g, t; dist_check(s, r, a->np, a->part, a->ring, &a->D[r]);
  if (x->rev) { for (d = 0; d <= pdim; d++) for (g = 0; g < pn[d]; g++) if (sube[d][g]) setgid(d, sube[d][g], x->rev == 1 ? 3 * (pn[d] + 1 - glid(d, sube[d][g])) : glid(d, sube[d][g]) + 100); MESH_Sort_GhostLists(s, compareGlobalID); }
  if (x->search) MESH_Enable_GlobalIDSearch(s);
  for (t = 0; t < 2; t++) { sx_assert(MESH_Renumber_GlobalIDs(s, x->kind == 4 ? MALLTYPE : (MType)x->kind, 0, NULL, MPI_COMM_WORLD) == 1, "renumbered"); dist_check(s, r, a->np, a->part, a->ring, &a->D[r]); dist_lists(s, r, a); if (x->search) found(s); }
  if (x->search) MESH_Disable_GlobalIDSearch(s);
  sx_assert(MESH_Num_Attribs(s) == 0 || MESH_AttribByName(s, "tmpatt_renumber") == NULL, "no attribute left behind");
  /* exchanges still find their partners */
  MAttrib_ptr A[4]; for (d = 0; d <= pdim; d++) { char nm[4] = "B0"; nm[1] += d; A[d] = MAttrib_New(s, nm, INT, (MType)d); for (g = 0; g < pn[d]; g++) if (sube[d][g]) MEnt_Set_AttVal(sube[d][g], A[d], ptyp(d, sube[d][g]) == PGHOST ? -1 : g + 1, 0, NULL); }
  MESH_UpdateAttributes(s, MPI_COMM_WORLD); for (d = 0; d <= pdim; d++) for (g = 0; g < pn[d]; g++) if (sube[d][g]) sx_assert(MEnt_Get_IntAttVal(sube[d][g], A[d]) == g + 1, "exchanges match entities after renumbering");
  MESH_Delete(s); }
static void kcross(DRec *D, int np, const int *part, int ring, int kind, int rev) { if (kind < 4 && rev) { /* only that kind is contiguous */ for (int d = 0; d <= pdim; d++) if (d != kind) for (int p = 0; p < np; p++) for (int i = 0; i < pn[d]; i++) if (D[p].gid[d][i]) { int g = D[p].gid[d][i]; D[p].gid[d][i] = rev == 1 ? pn[d] + 1 - g / 3 : g - 100; } } dist_cross(D, np, part, ring, 1); }
static void ren(int rep, int ncat, const int *cats, int np, int ring) { CM b; RA X, *x = &X; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)]; cm_build(&b, rep, k, CM_SYMX); memset(x, 0, sizeof *x); dist_setup(&x->d, &b, np, ring); x->d.del = 1;
  x->kind = sx_pick("kind", 0, pdim + 1); if (x->kind == pdim + 1) x->kind = 4; x->rev = sx_pick("prior IDs", 0, 2); x->search = sx_pick("search by ID", 0, 1);
  sx_run_ranks(np, rankfn, x); kcross(x->d.D, np, x->d.part, x->d.ring, x->kind, x->rev); dist_tables(&x->d); sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
static const int c2[] = {C_TRIQUAD, C_QUAD22, C_FAN4, C_PENTTRI, C_STRIP3}, c3[] = {C_TET2, C_PYRHEX, C_PRISMTET, C_TET4, C_HEX2}, c2x3[] = {C_STRIP3, C_TRIQUAD, C_FAN4, C_QUAD22, C_PENTTRI}, c3x3[] = {C_TET3E, C_TET4, C_TET2, C_PYRHEX, C_PRISMTET};
void h_ren2_F1(void) { ren(F1, TH(1, 5), c2, 2, TH(-1, 1)); }
void h_ren2x3_F1(void) { ren(F1, TH(1, 5), c2x3, 3, TH(-1, 1)); }
void h_ren3x3_F1(void) { ren(F1, TH(1, 5), c3x3, 3, -1); }
void h_ren3_F1(void) { ren(F1, TH(1, 5), c3, 2, -1); }
void h_ren3_F4(void) { ren(F4, TH(1, 5), c3, 2, -1); }
