/* C17: the sliding window of objective values. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "nesta.h"
#include "vp.h"
void vp_main(void) {
  int N = vp_param("pushes");
  double v[64];
  struct l1c_fmean_fifo f = _l1c_new_fmean_fifo();
  if (!f.f_vals) vp_end();
  for (int i = 0; i < N; i++) {
    v[i] = vp_real(-100, 100);
    _l1c_push_fmeans_fifo(&f, v[i]);
    int k = i + 1 < 10 ? i + 1 : 10;
    double s = 0;
    for (int j = i + 1 - k; j <= i; j++) s = s + v[j];
    vp_close(_l1c_mean_fmean_fifo(&f), s / k, "mean of the last (up to ten) values");
  }
  free(f.f_vals);
  vp_check(vp_live() == 0, "nothing left allocated");
  vp_reach("done");
}
