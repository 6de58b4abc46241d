/* C02, C03, C05, C06: every operator equals its definition; C04: after other calls and set-ups. */
#include "axset.h"
void vp_main(void) {
  Ref r, r2;
  l1c_AxFuns f;
  int mode = vp_param("mode"), op = vp_param("op"), pre = vp_param("pre"), pre2 = vp_param("pre2"), again = vp_param("again");
  vp_set_threads(2);
  mkref(&r, vp_param("set"), vp_param("n"), vp_param("mrow"), vp_param("mcol"), mode, vp_param("bp"), vp_param("tvv"), vp_param("tvh"), vp_param("idxmode"));
  if (again) { /* an earlier life of the same set with other sizes and positions */
    mkref(&r2, r.set, vp_param("n2"), vp_param("mrow2"), vp_param("mcol2"), mode, r.bp, again & 2 ? 1 - r.tvv : r.tvv, again & 2 ? 1 - r.tvh : r.tvh, vp_param("n2") > 1 ? 2 : 1);
    vp_check(setup(&r2, &f, mode) == 0, "earlier setup succeeds");
    for (int o = 0; o < NOPS; o++) if (vp_param("premask") & (1 << o)) exercise(&r2, &f, o, 0);
    f.destroy();
    rmref(&r2); /* the earlier positions or matrix are gone */
  }
  vp_check(setup(&r, &f, mode) == 0, "setup succeeds");
  check_sizes(&r, &f);
  if (pre >= 0) exercise(&r, &f, pre, 0);
  if (pre2 >= 0) exercise(&r, &f, pre2, 0);
  exercise(&r, &f, op, 1);
  f.destroy();
  vp_reach("done");
}
