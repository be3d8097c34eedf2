/* a mesh distributed over ranks by the library from an arbitrary partition vector */
#ifndef DISTRIB_H
#define DISTRIB_H
#include "metis.h"
typedef struct { Mesh_ptr parent; int np, part[24], ring, attr, ad, del, given, rv, x[16]; int vals[3]; DPar *P; DRec *D; int *sh; Mesh_ptr *sub; } DArg;
static DArg *DA;
int METIS_SetDefaultOptions(idx_t *o) { for (int i = 0; i < METIS_NOPTIONS; i++) o[i] = -1; return METIS_OK; }
int METIS_PartGraphRecursive(idx_t *nv, idx_t *nc, idx_t *x, idx_t *a, idx_t *w, idx_t *s, idx_t *aw, idx_t *np, real_t *t, real_t *u, idx_t *o, idx_t *cut, idx_t *part) { for (int i = 0; i < *nv; i++) part[i] = DA->part[i]; return METIS_OK; }
int METIS_PartGraphKway(idx_t *nv, idx_t *nc, idx_t *x, idx_t *a, idx_t *w, idx_t *s, idx_t *aw, idx_t *np, real_t *t, real_t *u, idx_t *o, idx_t *cut, idx_t *part) { for (int i = 0; i < *nv; i++) part[i] = DA->part[i]; return METIS_OK; }
/* main program: the parent mesh b->m and an arbitrary partition vector */
static void dist_setup(DArg *a, CM *b, int np, int maxring) {
  memset(a, 0, sizeof *a); a->parent = b->m; a->np = np; dist_parent(b->m); a->P = PP; a->D = sx_shared(sizeof(DRec) * np); a->sh = sx_shared(4096); a->sub = sx_shared(64); a->ring = maxring < 0 ? -maxring : sx_pick("ring", 0, maxring);
  for (int i = 0; i < pn[pdim]; i++) { char s[16]; snprintf(s, 16, "part%d", i); a->part[i] = sx_pick(s, 0, np - 1); } a->rv = sx_pick("unbuffered sends", 0, 1); if (a->rv) sx_rendezvous(1); }
/* on each rank */
static Mesh_ptr dist_do(int rank, DArg *a) {
  DA = a; PP = a->P; int dim = pdim, i; for (i = 0; i < 3; i++) vals[i] = a->vals[i]; Mesh_ptr sub = a->given ? MESH_New(a->given - 1) : NULL; int dm = rank == 0 ? dim : -1;
  sx_assert(MSTK_Mesh_Distribute(rank == 0 ? a->parent : NULL, &sub, &dm, a->ring, a->attr, 0, a->del, MPI_COMM_WORLD) == 1, "distributed");
  sx_assert(dm == dim, "dimension known everywhere"); sx_assert(sub != NULL, "every rank has a mesh"); return sub; }
static int valset(int ad, int d, int i, int q) { return (ad == MALLTYPE || ad == d) && !((i + q) % 2 && i); }
/* attribute and set contents by identity: putatts() and putsets() were called on the parent */
static void dist_atts(Mesh_ptr s, int ad) {
  for (int a = 0; a < 4; a++) { MAttrib_ptr A = MESH_AttribByName(s, an[a]); sx_assert(A && MAttrib_Get_Type(A) == at[a] && MAttrib_Get_EntDim(A) == (MType)ad, "attributes arrive with their type"); int nc = at[a] == VECTOR ? 2 : at[a] == TENSOR ? 3 : 1; sx_assert(MAttrib_Get_NumComps(A) == nc, "attributes arrive with their size");
    for (int d = 0; d <= pdim; d++) if (ad == MALLTYPE || ad == d) for (int g = 0; g < pn[d]; g++) { MEntity_ptr e = sube[d][g]; if (!e) continue; int iv = 0; double dv = 0; double *pv = NULL; MEnt_Get_AttVal(e, A, &iv, &dv, (void **)&pv); int set = valset(ad, d, g, a), v = set ? vals[(g + a + d) % 3] : 0;
      if (at[a] == INT) sx_assert(iv == v, "integer values arrive"); else if (at[a] == DOUBLE) sx_assert(dv == (double)v, "real values arrive"); else if (set) { sx_assert(pv != NULL, "vector values arrive"); for (int k = 0; k < nc; k++) sx_assert(pv[k] == (double)(v + k), "vector values arrive"); } else if (pv) for (int k = 0; k < nc; k++) sx_assert(pv[k] == 0.0, "no vector values where none were"); } } }
static void dist_sets(Mesh_ptr s) { for (int d = 0; d < 5; d++) { char nm[8] = "set0"; nm[3] = '0' + d; MSet_ptr t = MESH_MSetByName(s, nm); sx_assert(t != NULL && MSet_EntDim(t) == (d == 4 ? MALLTYPE : (MType)d), "sets arrive"); int n = 0;
    for (int q = 0; q <= pdim; q++) for (int g = 0; g < pn[q]; g++) { MEntity_ptr e = sube[q][g]; if (!e) continue; int in = (d == 4 || q == d) && (g + d) % 2 == 0; n += in; sx_assert(!!MSet_Contains(t, e) == in, "sets arrive with their entities"); } sx_assert(MSet_Num_Entries(t) == n, "sets hold nothing else"); } }
/* ghost and overlap lists and the neighbour tables of a rank */
static void dist_lists(Mesh_ptr s, int rank, DArg *a) {
  sx_assert(MESH_Prtn(s) == rank, "the mesh knows its rank"); int d, g, p, idx; int ng[4] = {0}, no[4] = {0}; void *e;
  for (d = 0; d <= pdim; d++) for (g = 0; g < pn[d]; g++) if (sube[d][g]) { int t = ptyp(d, sube[d][g]); ng[d] += t == PGHOST; no[d] += t == POVERLAP; }
  sx_assert(MESH_Num_GhostVertices(s) == ng[0] && MESH_Num_OverlapVertices(s) == no[0], "ghost and overlap vertices listed"); sx_assert(MESH_Num_GhostEdges(s) == ng[1] && MESH_Num_OverlapEdges(s) == no[1], "ghost and overlap edges listed"); sx_assert(MESH_Num_GhostFaces(s) == ng[2] && MESH_Num_OverlapFaces(s) == no[2], "ghost and overlap faces listed"); if (pdim == 3) sx_assert(MESH_Num_GhostRegions(s) == ng[3] && MESH_Num_OverlapRegions(s) == no[3], "ghost and overlap regions listed");
#define LST(N, d, ty) idx = 0; g = 0; while ((e = N(s, &idx))) { sx_assert(ptyp(d, e) == ty, "listed entities have the type"); int q = glid(d, e); sx_assert(q >= g, "lists ordered by global ID"); g = q; }
  LST(MESH_Next_GhostVertex, 0, PGHOST) LST(MESH_Next_OverlapVertex, 0, POVERLAP) LST(MESH_Next_GhostEdge, 1, PGHOST) LST(MESH_Next_OverlapEdge, 1, POVERLAP) LST(MESH_Next_GhostFace, 2, PGHOST) LST(MESH_Next_OverlapFace, 2, POVERLAP)
  if (pdim == 3) { LST(MESH_Next_GhostRegion, 3, PGHOST) LST(MESH_Next_OverlapRegion, 3, POVERLAP) }
  for (p = 0; p < a->np; p++) for (d = 0; d <= pdim; d++) { a->sh[((rank * 4 + p) * 4 + d) * 2] = p != rank && MESH_Has_Ghosts_From_Prtn(s, p, d); a->sh[((rank * 4 + p) * 4 + d) * 2 + 1] = p != rank && MESH_Has_Overlaps_On_Prtn(s, p, d); } }
static void dist_tables(DArg *a) { int r, p, d, g; for (r = 0; r < a->np; r++) for (p = 0; p < a->np; p++) if (p != r) for (d = 0; d <= pdim; d++) { int hg = 0, ho = 0; for (g = 0; g < pn[d]; g++) { hg |= a->D[r].own[d][g] == p; ho |= a->D[r].own[d][g] == r && a->D[p].gid[d][g]; } sx_assert(a->sh[((r * 4 + p) * 4 + d) * 2] == hg, "knows which ranks own its ghosts"); sx_assert(a->sh[((r * 4 + p) * 4 + d) * 2 + 1] == ho, "knows which ranks hold copies of its entities"); } }
#endif
