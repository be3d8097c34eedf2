/* Single-process MPI for native replays that involve one process only. */
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
typedef void *H; typedef struct { int s, t, e, c; size_t n; } ST;
char ompi_mpi_comm_world[1024], ompi_mpi_int[1024], ompi_mpi_double[1024], ompi_mpi_char[1024], ompi_mpi_byte[1024], ompi_mpi_long[1024], ompi_mpi_float[1024], ompi_mpi_unsigned[1024], ompi_request_null[1024],
  ompi_mpi_op_max[1024], ompi_mpi_op_min[1024], ompi_mpi_op_sum[1024], ompi_mpi_op_lor[1024], ompi_mpi_op_land[1024], ompi_mpi_op_bor[1024], ompi_mpi_comm_null[1024], ompi_mpi_comm_self[1024], ompi_mpi_info_null[1024], ompi_mpi_cxx_bool[1024], ompi_mpi_op_null[1024], ompi_mpi_datatype_null[1024];
static size_t sz(H t) { return t == (H)ompi_mpi_double || t == (H)ompi_mpi_long ? 8 : t == (H)ompi_mpi_char || t == (H)ompi_mpi_byte ? 1 : 4; }
#define BAD(n) { fprintf(stderr, "SXRESULT mpi: " n " in a single process\n"); _Exit(74); }
int MPI_Init(int *a, char ***b) { return 0; } int MPI_Initialized(int *f) { *f = 1; return 0; } int MPI_Finalize(void) { return 0; }
int MPI_Comm_rank(H c, int *r) { *r = 0; return 0; } int MPI_Comm_size(H c, int *r) { *r = 1; return 0; } int MPI_Barrier(H c) { return 0; }
int MPI_Bcast(void *b, int n, H t, int r, H c) { return 0; }
static void cp(void *d, const void *s, size_t n) { if (s != (void *)1 && d != s) memmove(d, s, n); }
int MPI_Gather(const void *s, int n, H t, void *d, int m, H u, int r, H c) { cp(d, s, n * sz(t)); return 0; }
int MPI_Scatter(const void *s, int n, H t, void *d, int m, H u, int r, H c) { cp(d, s, n * sz(t)); return 0; }
int MPI_Allgather(const void *s, int n, H t, void *d, int m, H u, H c) { cp(d, s, n * sz(t)); return 0; }
int MPI_Allreduce(const void *s, void *d, int n, H t, H o, H c) { cp(d, s, n * sz(t)); return 0; }
int MPI_Send(const void *b, int n, H t, int d, int g, H c) BAD("MPI_Send") int MPI_Isend(const void *b, int n, H t, int d, int g, H c, H *q) BAD("MPI_Isend")
int MPI_Recv(void *b, int n, H t, int s, int g, H c, ST *q) BAD("MPI_Recv") int MPI_Irecv(void *b, int n, H t, int s, int g, H c, H *q) BAD("MPI_Irecv")
int MPI_Wait(H *q, ST *s) { return 0; } int MPI_Waitall(int n, H *q, ST *s) { return 0; } int MPI_Get_count(const ST *s, H t, int *n) { *n = s->n / sz(t); return 0; }
int MPI_Error_string(int e, char *b, int *n) { strcpy(b, "mpi error"); *n = 9; return 0; } double MPI_Wtime(void) { return 0; }
