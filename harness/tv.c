/* C01: difference operators against their definition. */
#include <stdlib.h>
#include "l1c.h"
#include "TV.h"
#include "vp.h"
typedef void (*op)(l1c_int, l1c_int, double, double*, double*);
static const op OPS[6] = {l1c_Dx, l1c_DxT, l1c_DxTDx, l1c_Dy, l1c_DyT, l1c_DyTDy};

/* definition of the forward difference: (D x)[i,j] = a (x[next] - x[i,j]), zero on the last column/row */
static void fwd(int hor, int n, int m, double a, const double* x, double* y) {
  for (int i = 0; i < n; i++)
    for (int j = 0; j < m; j++) {
      int k = i * m + j;
      if (hor) y[k] = j < m - 1 ? a * (x[k + 1] - x[k]) : 0.0;
      else y[k] = i < n - 1 ? a * (x[k + m] - x[k]) : 0.0;
    }
}
/* transpose, built column by column of the definition: y = sum over rows r of (D[r,:])^T z[r] */
static void tr(int hor, int n, int m, double a, const double* z, double* y) {
  for (int k = 0; k < n * m; k++) y[k] = 0.0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < m; j++) {
      int k = i * m + j, nx = hor ? k + 1 : k + m;
      if (hor ? j < m - 1 : i < n - 1) {
        y[nx] = y[nx] + a * z[k];
        y[k] = y[k] - a * z[k];
      }
    }
}
void vp_main(void) {
  int n = vp_param("n"), m = vp_param("m"), o = vp_param("op"), N = n * m;
  int hor = o < 3, which = o % 3;
  vp_set_threads(vp_param("threads"));
  double* x = malloc(N * sizeof(double));
  double* y = malloc(N * sizeof(double)); /* exactly the needed size: any overrun is out of bounds */
  double* t = malloc(N * sizeof(double));
  double* r = malloc(N * sizeof(double));
  double* x0 = malloc(N * sizeof(double));
  double a = vp_real(-50, 50);
  for (int i = 0; i < N; i++) x0[i] = x[i] = vp_real(-100, 100);
  OPS[o](n, m, a, x, y); /* y is uninitialised: reading it would be reported */
  if (which == 0) fwd(hor, n, m, a, x0, r);
  else if (which == 1) tr(hor, n, m, a, x0, r);
  else { fwd(hor, n, m, a, x0, t); tr(hor, n, m, a, t, r); }
  for (int i = 0; i < N; i++) vp_close(y[i], r[i], "operator value");
  for (int i = 0; i < N; i++) vp_same(x[i], x0[i], "input unchanged");
  vp_reach("done");
  free(x); free(y); free(t); free(r); free(x0);
}
