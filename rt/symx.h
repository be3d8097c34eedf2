/* Harness API. Under the symbolic engine these are builtins; natively (replay) sxrt.c reads the
   recorded values back in the same order. */
#ifndef SYMX_H
#define SYMX_H
#ifdef __cplusplus
extern "C" {
#endif
int sx_int(const char *name, int lo, int hi);          /* any value in [lo,hi] */
int sx_pick(const char *name, int lo, int hi);         /* same, but the engine branches on every feasible value */
double sx_double(const char *name);                    /* any finite double */
double sx_dint(const char *name, int lo, int hi);      /* any integer-valued double in [lo,hi] */
int sx_near(double a, double b);                        /* equal up to 1e-9 relative to 1+|a|+|b| */
void sx_real(int on);                                  /* decide inexact floating-point queries over the reals (rounding left out) */
void sx_bytes(void *p, int n, const char *name);
int sx_conc(int v);                                    /* branch on the value of v */
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_fail(const char *msg);
void sx_cover(const char *label);
void sx_log(const char *label, int v);
void sx_logd(const char *label, double v);
void sx_note(const char *s);
void sx_allow_exit(int on);                            /* termination by the library is an acceptable outcome */
int sx_live_blocks(void);
void sx_check_leaks(int base, const char *msg);
double sx_rt(const char *fmt, double v);               /* value of v after printing with fmt and reading back */
void sx_rendezvous(int on);                            /* MPI sends do not complete before they are received */
void sx_heap_descend(int on);                          /* later allocations get lower addresses */
void sx_stop(void);                                    /* end this path here, successfully */
void *sx_shared(int size);                             /* memory all ranks and the main program see */
void sx_run_ranks(int n, void (*fn)(int rank, void *arg), void *arg);
int sx_rank(void);
void sx_unlink(const char *f);
int sx_file_exists(const char *f);
#ifdef __cplusplus
}
#endif
#endif
