/* Expected-result model for mesh modification: vertices, edges, face cycles and oriented region boundaries as plain tables. */
#ifndef TOPO_H
#define TOPO_H
#include "common.h"
#define TN 96
#define ANYC (-9)
typedef struct { int nv, ne, nf, nr; void *v[TN]; int va[TN], vg[TN][2]; double x[TN][3]; int e[TN*2][2], ea[TN*2], eg[TN*2][2]; void *ep[TN*2]; int fn[TN], f[TN][12], fa[TN], fg[TN][2]; void *fp[TN]; int rn[TN], r[TN][20], rd[TN][20], ra[TN], rg[TN][2]; void *rp[TN]; } Topo;
static int tp_v(Topo *t, void *v) { for (int i = 0; i < t->nv; i++) if (t->v[i] == v) return i; return -1; }
static int tp_e(Topo *t, int a, int b) { for (int i = 0; i < t->ne; i++) if (t->ea[i] && ((t->e[i][0] == a && t->e[i][1] == b) || (t->e[i][0] == b && t->e[i][1] == a))) return i; return -1; }
static int tp_addv(Topo *t, void *p, double *x, int gd, int gi) { int i = t->nv++; t->v[i] = p; t->va[i] = 1; t->vg[i][0] = gd; t->vg[i][1] = gi; for (int k = 0; k < 3; k++) t->x[i][k] = x[k]; return i; }
static int tp_adde(Topo *t, int a, int b, int gd, int gi) { int i = t->ne++; t->e[i][0] = a; t->e[i][1] = b; t->ea[i] = 1; t->eg[i][0] = gd; t->eg[i][1] = gi; t->ep[i] = 0; return i; }
static int tp_addf(Topo *t, int n, int *c, int gd, int gi) { int i = t->nf++; t->fn[i] = n; t->fa[i] = 1; for (int k = 0; k < n; k++) t->f[i][k] = c[k]; t->fg[i][0] = gd; t->fg[i][1] = gi; t->fp[i] = 0; return i; }
/* 1 same cycle, -1 reversed, 0 different */
static int tp_cyc(int n, int *a, int m, int *b) { if (n != m) return 0; for (int d = 1; d >= -1; d -= 2) for (int s = 0; s < n; s++) { int ok = 1; for (int j = 0; j < n && ok; j++) ok = a[j] == b[((s + d * j) % n + n) % n]; if (ok) return d; } return 0; }
static int tp_f(Topo *t, int n, int *c, int *dir) { for (int i = 0; i < t->nf; i++) if (t->fa[i]) { int d = tp_cyc(n, c, t->fn[i], t->f[i]); if (d) { if (dir) *dir = d > 0; return i; } } return -1; }
/* a region from oriented (outward) cycles; faces found or added */
static int tp_addr(Topo *t, int nf, int (*c)[12], int *n, int gd, int gi) { int i = t->nr++; t->rn[i] = nf; t->ra[i] = 1; t->rg[i][0] = gd; t->rg[i][1] = gi; t->rp[i] = 0; for (int k = 0; k < nf; k++) { int d = 1, f = tp_f(t, n[k], c[k], &d); if (f < 0) { f = tp_addf(t, n[k], c[k], ANYC, 0); d = 1; } t->r[i][k] = f; t->rd[i][k] = d; } return i; }
static int tp_outward(Topo *t, int r, int k, int *c) { int f = t->r[r][k], n = t->fn[f]; for (int j = 0; j < n; j++) c[j] = t->rd[r][k] ? t->f[f][j] : t->f[f][n - 1 - j]; return n; }
static int tp_has(int n, int *c, int v) { for (int j = 0; j < n; j++) if (c[j] == v) return 1; return 0; }
static int tp_rhas(Topo *t, int r, int v) { for (int k = 0; k < t->rn[r]; k++) if (tp_has(t->fn[t->r[r][k]], t->f[t->r[r][k]], v)) return 1; return 0; }
static int tp_next(int n, int *c, int a, int b) { for (int j = 0; j < n; j++) if (c[j] == a && c[(j + 1) % n] == b) return j; return -1; }
/* edges implied by the faces exist */
static void tp_close(Topo *t) { for (int i = 0; i < t->nf; i++) if (t->fa[i]) for (int j = 0; j < t->fn[i]; j++) { int a = t->f[i][j], b = t->f[i][(j + 1) % t->fn[i]]; if (tp_e(t, a, b) < 0) tp_adde(t, a, b, ANYC, 0); } }
static void tp_sub(int n, int *c, int a, int b) { for (int j = 0; j < n; j++) if (c[j] == a) c[j] = b; }
static int tp_live(int n, int *a) { int c = 0; for (int i = 0; i < n; i++) c += a[i] != 0; return c; }
static void tp_read(Mesh_ptr m, Topo *t, Topo *ref) {
  int i, k, q; memset(t, 0, sizeof *t); void *p;
  if (ref) { t->nv = ref->nv; for (i = 0; i < ref->nv; i++) t->v[i] = ref->v[i]; }
  i = 0; while ((p = MESH_Next_Vertex(m, &i))) { k = tp_v(t, p); if (k < 0) { if (ref) sx_assert(0, "unexpected vertex in the mesh"); k = t->nv++; t->v[k] = p; } t->va[k] = 1; MV_Coords(p, t->x[k]); t->vg[k][0] = MV_GEntDim(p); t->vg[k][1] = MV_GEntID(p); }
  i = 0; while ((p = MESH_Next_Edge(m, &i))) { MVertex_ptr a = ME_Vertex(p, 0), b = ME_Vertex(p, 1); k = tp_adde(t, tp_v(t, a), tp_v(t, b), ME_GEntDim(p), ME_GEntID(p)); t->ep[k] = p; }
  i = 0; while ((p = MESH_Next_Face(m, &i))) { List_ptr l = MF_Vertices(p, 1, 0); int n = List_Num_Entries(l), c[12]; for (k = 0; k < n; k++) c[k] = tp_v(t, List_Entry(l, k)); List_Delete(l); k = tp_addf(t, n, c, MF_GEntDim(p), MF_GEntID(p)); t->fp[k] = p; }
  i = 0; while ((p = MESH_Next_Region(m, &i))) { List_ptr l = MR_Faces(p); k = t->nr++; t->ra[k] = 1; t->rp[k] = p; t->rg[k][0] = MR_GEntDim(p); t->rg[k][1] = MR_GEntID(p); t->rn[k] = List_Num_Entries(l); for (q = 0; q < t->rn[k]; q++) { void *f = List_Entry(l, q); t->rd[k][q] = MR_FaceDir_i(p, q); int w = -1; for (int z = 0; z < t->nf; z++) if (t->fp[z] == f) w = z; sx_assert(w >= 0, "region's face is a face of the mesh"); t->r[k][q] = w; } List_Delete(l); }
}
enum { TC_V = 1, TC_E = 2, TC_F = 4, TC_R = 8, TC_ALL = 15, TC_PTR = 16 };
static int tp_fmap[TN], tp_fsgn[TN];
#define TPA(c, msg) sx_assert(c, msg)
static void tp_cls(int *x, int *z, const char *msg) { if (x[0] == ANYC) return; TPA((x[0] == z[0]) & (x[1] == z[1]), msg); }
static void tp_match(Topo *x, Topo *z, int cls) {
  int i, j;
  for (i = 0; i < x->nv || i < z->nv; i++) { int a = i < x->nv && x->va[i], c = i < z->nv && z->va[i]; TPA(a == c, "the vertices of the mesh are the expected ones"); if (a) { TPA((x->x[i][0] == z->x[i][0]) & (x->x[i][1] == z->x[i][1]) & (x->x[i][2] == z->x[i][2]), "vertex coordinates are the expected ones"); if (cls & TC_V) tp_cls(x->vg[i], z->vg[i], "vertex classification is the expected one"); } }
  TPA(tp_live(x->ne, x->ea) == tp_live(z->ne, z->ea), "number of edges is the expected one");
  for (i = 0; i < x->ne; i++) if (x->ea[i]) { j = tp_e(z, x->e[i][0], x->e[i][1]); TPA(j >= 0, "expected edge exists"); if (cls & TC_E) tp_cls(x->eg[i], z->eg[j], "edge classification is the expected one"); if ((cls & TC_PTR) && x->ep[i]) TPA(x->ep[i] == z->ep[j], "unaffected edges are the same objects"); }
  TPA(tp_live(x->nf, x->fa) == tp_live(z->nf, z->fa), "number of faces is the expected one");
  for (i = 0; i < x->nf; i++) if (x->fa[i]) { int d = 1; j = tp_f(z, x->fn[i], x->f[i], &d); TPA(j >= 0, "expected face exists"); tp_fmap[i] = j; tp_fsgn[i] = d; if (cls & TC_F) tp_cls(x->fg[i], z->fg[j], "face classification is the expected one"); if ((cls & TC_PTR) && x->fp[i]) TPA(x->fp[i] == z->fp[j], "unaffected faces are the same objects"); }
  TPA(tp_live(x->nr, x->ra) == tp_live(z->nr, z->ra), "number of regions is the expected one");
  for (i = 0; i < x->nr; i++) if (x->ra[i]) {
    int found = -1; for (j = 0; j < z->nr; j++) if (z->ra[j] && z->rn[j] == x->rn[i]) { int ok = 1; for (int k = 0; k < x->rn[i] && ok; k++) { int w = -1; for (int q = 0; q < z->rn[j]; q++) if (z->r[j][q] == tp_fmap[x->r[i][k]]) w = q; ok = w >= 0 && (z->rd[j][w] == x->rd[i][k]) == (tp_fsgn[x->r[i][k]] != 0); } if (ok) found = j; }
    TPA(found >= 0, "expected region exists with its boundary oriented as expected"); if (cls & TC_R) tp_cls(x->rg[i], z->rg[found], "region classification is the expected one"); if ((cls & TC_PTR) && x->rp[i]) TPA(x->rp[i] == z->rp[found], "unaffected regions are the same objects"); }
}
/* every entity its own classification, of every admissible dimension */
static void tp_classify(Mesh_ptr m) { int i, n, D = MESH_Num_Regions(m) ? 3 : 2; void *p;
  i = n = 0; while ((p = MESH_Next_Vertex(m, &i))) { MV_Set_GEntDim(p, n % 2); MV_Set_GEntID(p, 100 + n); n++; }
  i = n = 0; while ((p = MESH_Next_Edge(m, &i))) { ME_Set_GEntDim(p, 1 + n % D); ME_Set_GEntID(p, 200 + n); n++; }
  i = n = 0; while ((p = MESH_Next_Face(m, &i))) { MF_Set_GEntDim(p, 2 + n % (D - 1)); MF_Set_GEntID(p, 300 + n); n++; }
  i = n = 0; while ((p = MESH_Next_Region(m, &i))) { MR_Set_GEntDim(p, 3); MR_Set_GEntID(p, 400 + n); n++; } }
#endif
