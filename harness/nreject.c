/* C17: mismatched sizes are rejected for all integers and nothing is touched. */
#include <stdlib.h>
#include "l1c.h"
#include "nesta.h"
#include "vp.h"
static void bad(double* x, double* y) { vp_check(0, "no operator is called for rejected arguments"); }
void vp_main(void) {
  l1c_AxFuns a = {0};
  a.n = vp_int(-2147483647, 2147483647); a.m = vp_int(-2147483647, 2147483647); a.p = vp_int(-2147483647, 2147483647);
  a.Ax = a.Aty = a.AtAx = a.Rx = a.Rty = a.Wz = a.Wtx = a.Mx = a.Mty = bad;
  int n = vp_int(-2147483647, 2147483647), m = vp_int(-2147483647, 2147483647);
  vp_assume(n != a.n || m != a.m);
  l1c_NestaOpts o = {0};
  o.mu = 0.1; o.tol = 0.1; o.sigma = 0.1; o.n_continue = 1;
  double x[2] = {3, 4}, b[2] = {5, 6};
  int rc = l1c_nesta(m, x, n, b, a, o);
  vp_check(rc == L1C_INVALID_ARGUMENT, "documented error");
  vp_check(x[0] == 3 && x[1] == 4 && b[0] == 5 && b[1] == 6, "nothing is touched");
  vp_check(vp_live() == 0, "nothing left allocated");
  vp_reach("rejected");
}
