/* Native replay runtime: inputs come from $SX_INPUTS (one "name kind value" per line). */
#define _GNU_SOURCE
#include "symx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#ifdef SX_MPI
#include <mpi.h>
#endif
static FILE *fin, *flog; static int myrank = 0, nrank = 1, exit_ok = 0, ended = 0, in_ranks = 0; static int live = 0; static char *shm; static size_t shmtop;
#ifndef SX_NOWRAP
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { live++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) { live++; return __real_malloc(n); } if (!n) { live--; __real_free(p); return 0; }
  return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
#else
#define __real_malloc malloc
#define __real_free free
#endif
static void die(int code, const char *kind, const char *msg) { fprintf(stderr, "SXRESULT %s: %s\n", kind, msg); if (flog) { fprintf(flog, "%s\t%s\n", kind, msg); fflush(flog); } fflush(stderr); ended = 1;
#ifdef SX_MPI
  if (nrank > 1) { MPI_Abort(MPI_COMM_WORLD, code); }
#endif
  _exit(code); }
static void onexit_(void) { if (!ended) { if (exit_ok) { fprintf(stderr, "SXRESULT exited: ok\n"); _exit(0); } fprintf(stderr, "SXRESULT exit: the library terminated the program\n"); _exit(75); } }
static int64_t next_(const char *name, int kind, double *dv) {
  char nm[256]; int k; long long v; char line[512];
  if (in_ranks && nrank > 1) die(78, "diverged", "input read inside a rank");
  if (!fin || !fgets(line, sizeof line, fin)) die(78, "diverged", "ran out of recorded inputs");
  int c = (int)strlen(line), sp = 0; while (c > 0 && sp < 2) if (line[--c] == ' ') sp++; /* the name may contain blanks */
  if (sp < 2 || c > 255 || sscanf(line + c, "%d %lld", &k, &v) != 2) die(78, "diverged", "malformed input record"); memcpy(nm, line, c); nm[c] = 0;
  if (strcmp(nm, name)) die(78, "diverged", name);
  (void)kind; if (dv) memcpy(dv, &v, 8); return v; }
int sx_int(const char *name, int lo, int hi) { int v = (int)next_(name, 0, 0); if (v < lo || v > hi) die(79, "assume", name); return v; }
int sx_pick(const char *name, int lo, int hi) { return sx_int(name, lo, hi); }
double sx_double(const char *name) { double d; next_(name, 1, &d); return d; }
double sx_dint(const char *name, int lo, int hi) { return (double)sx_int(name, lo, hi); }
int sx_near(double a, double b) { double d = a - b, m; if (d < 0) d = -d; m = 1 + (a < 0 ? -a : a) + (b < 0 ? -b : b); return d <= 1e-9 * m; }
void sx_real(int on) { (void)on; }
void sx_bytes(void *p, int n, const char *name) { for (int i = 0; i < n; i++) { char b[300]; snprintf(b, 300, "%s%d", name, i); ((char *)p)[i] = (char)next_(b, 0, 0); } }
int sx_conc(int v) { return v; }
void sx_assume(int c) { if (!c) die(79, "assume", "assumption does not hold"); }
void sx_assert(int c, const char *m) { if (!c) die(77, "assert", m); }
void sx_fail(const char *m) { die(77, "assert", m); }
void sx_cover(const char *l) { (void)l; }
void sx_log(const char *l, int v) { if (flog) fprintf(flog, "log\t%s\t%u\n", l, (unsigned)v); }
void sx_logd(const char *l, double v) { unsigned long long u; memcpy(&u, &v, 8); if (flog) fprintf(flog, "log\t%s\t%llu\n", l, u); }
void sx_note(const char *s) { (void)s; }
void sx_allow_exit(int on) { exit_ok = on; }
int sx_live_blocks(void) { return live; }
void sx_check_leaks(int base, const char *m) { if (live != base) die(77, "assert", m); }
double sx_rt(const char *f, double v) { char b[512]; snprintf(b, 512, f, v); return strtod(b, 0); }
void sx_rendezvous(int on) { (void)on; }
void sx_heap_descend(int on) { (void)on; }
void sx_stop(void) { die(0, "done", "stopped"); }
int sx_rank(void) { return myrank; }
void sx_unlink(const char *f) { unlink(f); }
int sx_file_exists(const char *f) { return access(f, R_OK) == 0; }
void *sx_shared(int n) {
  if (!shm) { const char *f = getenv("SX_SHM"); int fd = f ? open(f, O_RDWR | O_CREAT, 0600) : -1; if (fd >= 0 && ftruncate(fd, 1 << 24) == 0) shm = mmap(0, 1 << 24, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); else shm = mmap(0, 1 << 24, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  void *p = shm + shmtop; shmtop += (n + 63) & ~63; return p; }
void sx_run_ranks(int n, void (*fn)(int, void *), void *arg) {
#ifdef SX_MPI
  if (n != nrank) die(76, "setup", "wrong number of MPI processes");
  MPI_Barrier(MPI_COMM_WORLD); in_ranks = 1; fn(myrank, arg); in_ranks = 0; MPI_Barrier(MPI_COMM_WORLD);
  if (myrank != 0) { ended = 1; MPI_Barrier(MPI_COMM_WORLD); _exit(0); }
#else
  (void)n; fn(0, arg);
#endif
}
void SX_ENTRY(void);
int main(int argc, char **argv) {
#ifdef SX_MPI
  MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &myrank); MPI_Comm_size(MPI_COMM_WORLD, &nrank);
#endif
  if (getenv("SX_INPUTS")) fin = fopen(getenv("SX_INPUTS"), "r");
  if (getenv("SX_LOG") && myrank == 0) flog = fopen(getenv("SX_LOG"), "w");
  atexit(onexit_);
  live = 0;
  SX_ENTRY();
  if (fin) { char line[512]; if (fgets(line, sizeof line, fin)) die(78, "diverged", "recorded inputs left over"); }
#ifdef SX_MPI
  if (nrank > 1) { ended = 1; if (flog) { fprintf(flog, "done\n"); fclose(flog); } fprintf(stderr, "SXRESULT done: ok\n"); MPI_Barrier(MPI_COMM_WORLD); _exit(0); }
#endif
  die(0, "done", "ok"); return 0;
}
