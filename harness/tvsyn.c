/* C05: in synthesis mode the dictionary is documented to be the identity on coefficient vectors (p = m). */
#include "axset.h"
void vp_main(void) {
  int idx[1] = {0};
  l1c_AxFuns f;
  double av = vp_param("tvv") ? vp_real(0.001, 100) : 0.0, ah = vp_param("tvh") ? vp_real(0.001, 100) : 0.0;
  vp_check(l1c_setup_dctTV_transforms(1, 3, 4, av, ah, dct1, synthesis, idx, &f) == 0, "setup succeeds");
  int p = f.p, m = f.m;
  f.destroy();
  vp_check(p == m, "synthesis dictionary covers every coefficient");
  vp_reach("done");
}
