/* what a partition of a mesh must look like; entities of the parent carry their position as model entity ID */
#ifndef DIST_H
#define DIST_H
#define DMAX 4
static Snap PS;
typedef struct { int ev[CMAX * 2][2], fe[CMAX * 2][10], fd[CMAX * 2][10], rf[CMAX][10], rd[CMAX][10], gdim[4][CMAX * 2], dim, n[4]; double x[CMAX][3]; unsigned cellof[4][CMAX * 2]; /* closure: bit c: entity belongs to cell c */ } DPar;
static DPar *PP;
#define P0 (*PP)
#define pdim (PP->dim)
#define pn (PP->n)
#define CELLOF(d, i, c) ((int)((PP->cellof[d][i] >> (c)) & 1u))
#define SETCELL(d, i, c) (PP->cellof[d][i] |= 1u << (c))
static int gidof(int d, MEntity_ptr e) { return d == 0 ? MV_GEntID(e) : d == 1 ? ME_GEntID(e) : d == 2 ? MF_GEntID(e) : MR_GEntID(e); }
static int gdimof(int d, MEntity_ptr e) { return d == 0 ? MV_GEntDim(e) : d == 1 ? ME_GEntDim(e) : d == 2 ? MF_GEntDim(e) : MR_GEntDim(e); }
static int ptyp(int d, MEntity_ptr e) { return d == 0 ? MV_PType(e) : d == 1 ? ME_PType(e) : d == 2 ? MF_PType(e) : MR_PType(e); }
static int mpar(int d, MEntity_ptr e) { return d == 0 ? MV_MasterParID(e) : d == 1 ? ME_MasterParID(e) : d == 2 ? MF_MasterParID(e) : MR_MasterParID(e); }
static int glid(int d, MEntity_ptr e) { return d == 0 ? MV_GlobalID(e) : d == 1 ? ME_GlobalID(e) : d == 2 ? MF_GlobalID(e) : MR_GlobalID(e); }
static void setgid(int d, MEntity_ptr e, int g) { if (d == 0) MV_Set_GlobalID(e, g); else if (d == 1) ME_Set_GlobalID(e, g); else if (d == 2) MF_Set_GlobalID(e, g); else MR_Set_GlobalID(e, g); }
static void setgent(int d, MEntity_ptr e, int dim, int id) { if (d == 0) { MV_Set_GEntDim(e, dim); MV_Set_GEntID(e, id); } else if (d == 1) { ME_Set_GEntDim(e, dim); ME_Set_GEntID(e, id); } else if (d == 2) { MF_Set_GEntDim(e, dim); MF_Set_GEntID(e, id); } else { MR_Set_GEntDim(e, dim); MR_Set_GEntID(e, id); } }
/* label the parent and remember it */
static void dist_parent(Mesh_ptr m) { int d, i, j, k, c; PP = sx_shared(sizeof *PP); pdim = NE(3, m) ? 3 : 2; int g = sx_int("gdim", 0, 4);
  for (d = 0; d < 4; d++) { pn[d] = NE(d, m); for (i = 0; i < pn[d]; i++) { setgent(d, ent(m, d, i), d == 3 ? 3 : i == 1 ? g : d, i + 1); } }
  cm_snap(m, &PS);
  for (d = 0; d < 4; d++) for (i = 0; i < pn[d]; i++) P0.gdim[d][i] = PS.gdim[d][i];
  for (i = 0; i < pn[0]; i++) for (k = 0; k < 3; k++) P0.x[i][k] = PS.x[i][k];
  for (i = 0; i < pn[1]; i++) for (k = 0; k < 2; k++) P0.ev[i][k] = MV_GEntID(ME_Vertex(ent(m, 1, i), k)) - 1;
  for (i = 0; i < pn[2]; i++) { List_ptr l = MF_Edges(ent(m, 2, i), 1, 0); int n = List_Num_Entries(l); for (k = 0; k < n; k++) { P0.fe[i][k] = ME_GEntID(List_Entry(l, k)) - 1; P0.fd[i][k] = MF_EdgeDir_i(ent(m, 2, i), k); } P0.fe[i][n] = -1; List_Delete(l); }
  for (i = 0; i < pn[3]; i++) { List_ptr l = MR_Faces(ent(m, 3, i)); int n = List_Num_Entries(l); for (k = 0; k < n; k++) { P0.rf[i][k] = MF_GEntID(List_Entry(l, k)) - 1; P0.rd[i][k] = MR_FaceDir_i(ent(m, 3, i), k); } P0.rf[i][n] = -1; List_Delete(l); }
  memset(PP->cellof, 0, sizeof PP->cellof);
  for (c = 0; c < pn[pdim]; c++) { SETCELL(pdim, c, c); if (pdim == 3) for (j = 0; P0.rf[c][j] >= 0; j++) SETCELL(2, P0.rf[c][j], c); }
  for (c = 0; c < pn[pdim]; c++) { for (i = 0; i < pn[2]; i++) if (CELLOF(2, i, c)) for (k = 0; P0.fe[i][k] >= 0; k++) SETCELL(1, P0.fe[i][k], c); for (i = 0; i < pn[1]; i++) if (CELLOF(1, i, c)) for (k = 0; k < 2; k++) SETCELL(0, P0.ev[i][k], c); } }
/* cells of partition p with its ghost layers: layer number + 1, or 0 */
static void dist_cells(int p, const int *part, int ring, int *lay) { int nc = pn[pdim], c, b, v, r; for (c = 0; c < nc; c++) lay[c] = part[c] == p; for (r = 0; r < ring; r++) for (c = 0; c < nc; c++) if (!lay[c]) for (b = 0; b < nc && !lay[c]; b++) if (lay[b] && lay[b] <= r + 1) for (v = 0; v < pn[0]; v++) if (CELLOF(0, v, c) && CELLOF(0, v, b)) lay[c] = r + 2; }
static int dist_has(int d, int i, const int *lay) { for (int c = 0; c < pn[pdim]; c++) if (lay[c] && CELLOF(d, i, c)) return 1; return 0; }
static int dist_owns(int d, int i, int p, const int *part) { for (int c = 0; c < pn[pdim]; c++) if (part[c] == p && CELLOF(d, i, c)) return 1; return 0; }
/* per partition: global ID and owner of every entity of the parent, 0 and -1 if it is not there */
typedef struct { int gid[4][CMAX * 2], own[4][CMAX * 2], pt[4][CMAX * 2]; } DRec;
static MEntity_ptr sube[4][CMAX * 2];
static int dist_loose; /* pieces built independently: edges and faces may run the other way */
static int erev(int i) { return sube[1][i] && ME_Vertex(sube[1][i], 0) == sube[0][P0.ev[i][1]]; }
static int frv[CMAX * 2];
static void dist_check(Mesh_ptr s, int p, int np, const int *part, int ring, DRec *D) {
  int lay[24], d, i, j, k, n; dist_cells(p, part, ring, lay); memset(sube, 0, sizeof sube);
  for (d = 0; d < 4; d++) for (i = 0; i < CMAX * 2; i++) { D->gid[d][i] = 0; D->own[d][i] = -1; D->pt[d][i] = -1; }
  for (d = 0; d <= pdim; d++) { n = 0; for (i = 0; i < pn[d]; i++) n += dist_has(d, i, lay); sx_assert(NE(d, s) == n, "a partition holds its cells, ghost layers and closure, nothing else");
    for (i = 0; i < n; i++) { MEntity_ptr e = ent(s, d, i); int g = gidof(d, e) - 1; sx_assert(g >= 0 && g < pn[d] && dist_has(d, g, lay), "an entity of the partition"); sx_assert(!sube[d][g], "every entity is there once"); sube[d][g] = e; sx_assert(MEnt_Mesh(e) == s, "an entity of the submesh");
      sx_assert(gdimof(d, e) == P0.gdim[d][g], "model entity dimensions kept"); D->gid[d][g] = glid(d, e); D->own[d][g] = mpar(d, e); D->pt[d][g] = ptyp(d, e);
      if (d == 0) { double x[3]; MV_Coords(e, x); sx_assert(x[0] == P0.x[g][0] && x[1] == P0.x[g][1] && x[2] == P0.x[g][2], "coordinates kept"); } } }
  for (d = 0; d <= pdim; d++) for (i = 0; i < pn[d]; i++) { MEntity_ptr e = sube[d][i]; if (!e) continue;
    if (d == 1) for (k = 0; k < 2; k++) sx_assert(ME_Vertex(e, k) == sube[0][P0.ev[i][dist_loose && erev(i) ? 1 - k : k]], "edges keep their vertices and direction");
    if (d == 2) { List_ptr l = MF_Edges(e, 1, 0); n = 0; while (P0.fe[i][n] >= 0) n++; sx_assert(List_Num_Entries(l) == n, "faces keep their edges"); int st = -1; for (k = 0; k < n; k++) if (List_Entry(l, k) == sube[1][P0.fe[i][0]]) st = k; sx_assert(st >= 0, "faces keep their edges"); int fr = dist_loose && n > 2 && List_Entry(l, (st + 1) % n) != sube[1][P0.fe[i][1]]; frv[i] = fr; for (k = 0; k < n; k++) { int at = (st + (fr ? n - k : k)) % n; MEdge_ptr q = List_Entry(l, at); sx_assert(q == sube[1][P0.fe[i][k]], "faces keep their edges in order"); int dr = P0.fd[i][k]; if (dist_loose && erev(P0.fe[i][k])) dr = !dr; if (fr) dr = !dr; sx_assert(MF_EdgeDir_i(e, at) == dr, "faces keep their edge directions"); } List_Delete(l); }
    if (d == 3) { List_ptr l = MR_Faces(e); n = 0; while (P0.rf[i][n] >= 0) n++; sx_assert(List_Num_Entries(l) == n, "regions keep their faces"); for (j = 0; j < n; j++) { MFace_ptr f = sube[2][P0.rf[i][j]]; sx_assert(List_Contains(l, f), "regions keep their faces"); sx_assert(MR_FaceDir(e, f) == (dist_loose && frv[P0.rf[i][j]] ? !P0.rd[i][j] : P0.rd[i][j]), "regions keep their face directions"); } List_Delete(l); } }
}
/* all partitions together */
static void dist_cross(DRec *D, int np, const int *part, int ring, int contiguous) {
  int lay[DMAX][24], p, q, d, i, j; for (p = 0; p < np; p++) dist_cells(p, part, ring, lay[p]);
  for (d = 0; d <= pdim; d++) { int g[CMAX * 2]; for (i = 0; i < pn[d]; i++) { int own = -1, cop[DMAX], nc = 0; g[i] = 0;
      for (p = 0; p < np; p++) { cop[p] = dist_has(d, i, lay[p]); nc += cop[p]; if (!cop[p]) continue; if (own < 0) { own = D[p].own[d][i]; g[i] = D[p].gid[d][i]; } sx_assert(D[p].own[d][i] == own, "all copies agree on the owner"); sx_assert(D[p].gid[d][i] == g[i], "all copies have the same global ID"); }
      if (!nc) continue;
      sx_assert(own >= 0 && own < np && g[i] > 0, "owner and global ID set"); sx_assert(d == pdim ? own == part[i] : dist_owns(d, i, own, part), "the owner is a partition that has the entity on its own cells");
      for (p = 0; p < np; p++) if (cop[p]) { int want = p != own ? PGHOST : nc > 1 ? POVERLAP : PINTERIOR; sx_assert(D[p].pt[d][i] == want, "ghost on the others, overlap on the owner, interior if alone"); } }
    for (i = 0; i < pn[d]; i++) { for (j = 0; j < i; j++) sx_assert(!g[i] || g[i] != g[j], "distinct entities have distinct global IDs"); if (contiguous) sx_assert(g[i] >= 1 && g[i] <= pn[d], "global IDs run from 1"); } } (void)q; }
#endif
