/* C07: matrix set-up */
#include <limits.h>
#include "axset.h"
void vp_main(void) {
  int n = vp_int(INT_MIN, INT_MAX), m = vp_int(INT_MIN, INT_MAX);
  double A[1];
  l1c_AxFuns f;
  int live = vp_live();
  if (n > 0 && m > 0) { vp_assume(n <= 5); vp_assume(m <= 5); }
  int rc = l1c_setup_matrix_transforms(n, m, A, &f);
  if (n <= 0 || m <= 0) {
    vp_check(rc != 0, "bad arguments are rejected");
    vp_check(vp_live() == live, "nothing allocated");
    vp_reach("rejected");
  } else {
    vp_check(rc == 0, "legal arguments are accepted");
    vp_check(f.n == n && f.m == m && f.p == m && f.q == m, "sizes reported");
    f.destroy();
    vp_check(vp_live() == live, "release frees everything");
    vp_reach("accepted");
  }
}
