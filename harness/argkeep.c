/* C07: a rejected set-up call leaves a live transform set working as before. */
#include <limits.h>
#include "axset.h"
#define K 3
void vp_main(void) {
  Ref r;
  l1c_AxFuns f, g;
  int which = vp_param("which"), mode = vp_param("mode"), ix[K];
  mkref(&r, vp_param("set"), 2, 3, 4, mode, vp_param("bp"), vp_param("tvv"), vp_param("tvh"), 1);
  vp_check(setup(&r, &f, mode) == 0, "setup succeeds");
  /* a call with some bad argument */
  int n = vp_int(INT_MIN, K), rr = vp_int(INT_MIN, INT_MAX), c = vp_int(INT_MIN, INT_MAX);
  double w = vp_real(-10, 10);
  for (int i = 0; i < K; i++) ix[i] = vp_int(INT_MIN, INT_MAX);
  int kind = vp_pick(0, 5), rc;
  if (kind == 0) vp_assume(n <= 0);
  else if (kind == 1) vp_assume(rr <= 0);
  else if (kind == 2) vp_assume(c <= 0);
  else { /* keep the rest legal and small so that only one thing is wrong */
    n = K;
    rr = 3; c = 4;
    int at = vp_pick(0, n - 1); /* the one bad position sits first, in the middle or last */
    for (int i = 0; i < n; i++) if (i != at || kind == 5) vp_assume(ix[i] >= 0 && ix[i] < rr * c);
    if (kind == 3) vp_assume(ix[at] < 0);
    else if (kind == 4) vp_assume(ix[at] >= rr * c);
    else if (which == 1) { if (at) vp_end(); vp_assume(w < 0); }
    else { if (at) vp_end(); ix[0] = -1; }
  }
  if (which == 0) rc = l1c_setup_dct_transforms(n, rr, c, vp_pick(1, 2), ix, &g);
  else if (which == 1) rc = l1c_setup_dctTV_transforms(n, rr, c, w, kind == 5 ? 0.0 : w, 2, vp_pick(1, 2), ix, &g);
  else rc = l1c_setup_matrix_transforms(kind == 0 ? n : -1, rr, 0, &g);
  vp_check(rc != 0, "bad arguments are rejected");
  check_sizes(&r, &f);
  exercise(&r, &f, vp_param("op"), 1);
  f.destroy();
  vp_reach("done");
}
