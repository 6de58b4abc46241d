/* Harness API.  The same harness runs symbolically (engine) and natively (replay). */
#ifndef VP_H
#define VP_H
#ifdef __cplusplus
extern "C" {
#endif
double vp_real(double lo, double hi);            /* arbitrary real in [lo,hi] */
int vp_int(int lo, int hi);                      /* arbitrary int in [lo,hi], stays symbolic */
int vp_pick(int lo, int hi);                     /* arbitrary int, one path per value */
int vp_fork(int x);                              /* make a symbolic int concrete, one path per feasible value */
int vp_param(const char* name);                  /* job parameter */
double vp_paramd(const char* name);
void vp_assume(int c);
void vp_check(int c, const char* label);
void vp_close(double a, double b, const char* label);
void vp_close_tol(double a, double b, double tol, const char* label);
void vp_le(double a, double b, const char* label);   /* a <= b + tol */
void vp_same(double a, double b, const char* label); /* exactly equal */
void vp_reach(const char* label);
void vp_end(void);                               /* end this path successfully */
int vp_symbolic(void);
int vp_is_nan(double x);
int vp_is_finite(double x);
double vp_deriv(double fx, double x);            /* symbolic only */
void vp_fault_arm(int k);                        /* k-th allocation/plan from now fails (0: none) */
int vp_fault_fired(void);
int vp_alloc_count(void);                        /* allocations since vp_fault_arm */
int vp_live(void);                               /* live heap blocks and plans */
int vp_output_count(void);                       /* stdout print calls so far */
int vp_stderr_count(void);
int vp_writable(const void* p, long n);
int vp_aligned(const void* p, int n);
void vp_set_threads(int n);
void vp_trace(const char* label, double v);
void vp_tracei(const char* label, int v);
#ifdef __cplusplus
}
#endif
#define VP_MAX(a, b) ((a) > (b) ? (a) : (b))
#endif
