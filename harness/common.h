/* Shared mesh catalogue, builders and an independent topology validator. */
#ifndef COMMON_H
#define COMMON_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include "MSTK.h"
#include "symx.h"
#ifdef SX_THOROUGH
#define TH(a, b) (b)
#else
#define TH(a, b) (a)
#endif
#define CMAX 48
typedef struct { const char *name; int dim, nv, nc; double x[32][3]; int c[24][9]; } CMesh;   /* c[i] = {n, vertices...} */
extern const CMesh cm_cat[];
enum { C_TRI, C_TRI2, C_FAN4, C_TRIQUAD, C_QUAD22, C_PENTTRI, C_TRI6, C_STRIP3, C_TET, C_TET2, C_TET3E, C_HEX, C_HEX2, C_PYRHEX, C_PRISMTET, C_PRISM, C_PYR, C_TET4, C_TET6, C_QUAD2, C_FAN6, C_NCAT };
enum { CM_ROT = 1, CM_EDIR = 2, CM_FDIR = 4, CM_SYMX = 8, CM_CLASS = 16, CM_RECORD = 0 };
typedef struct { Mesh_ptr m; const CMesh *c; int rep; MVertex_ptr v[CMAX]; MEntity_ptr cell[CMAX]; MVertex_ptr in[24][9]; } CM;
void cm_build(CM *b, int rep, int cat, int opts);
void cm_fill(CM *b, Mesh_ptr m, int cat, int opts);
int cm_vidx(CM *b, MVertex_ptr v);
/* full topology check of a mesh in a full representation: reciprocity, closure, orientation, IDs, no stale entities */
void cm_valid(Mesh_ptr m, const char *what);
extern int cm_types;                                         /* also compare element types */
void cm_valid_ids(Mesh_ptr m);
int cm_isface(Mesh_ptr m, int n, MVertex_ptr *v);           /* number of live faces with exactly this vertex set */
int cm_same_cycle(List_ptr l, int n, MVertex_ptr *v);       /* 1 same direction, -1 opposite, 0 different */
void cm_class_default(Mesh_ptr m);                          /* everything classified on the highest dimension, ID 1 */
int cm_alive(MEntity_ptr e, int dim);
int list_has_dups(List_ptr l);
int cm_region_has(MRegion_ptr r, MVertex_ptr v);
/* content signature: order, coordinates, ids and connectivity by position */
void cm_same_mesh(Mesh_ptr a, Mesh_ptr b, int classif, const char *what);
typedef struct { int n[4]; int id[4][CMAX*2], gdim[4][CMAX*2], gid[4][CMAX*2]; double x[CMAX][3]; int ev[CMAX*2][2]; int fe[CMAX*2][10], fd[CMAX*2][10]; int rf[CMAX][10], rd[CMAX][10]; void *p[4][CMAX*2]; } Snap;
void cm_snap(Mesh_ptr m, Snap *s);                          /* full representations: everything, by pointer */
int cm_snap_eq(Snap *a, Snap *b, int classif);              /* same entities in the same order with the same data */
extern Snap snapA, snapB;
#endif
