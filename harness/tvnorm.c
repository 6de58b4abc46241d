/* C05: the reported norm bounds the spectral norm of the dictionary [M, av*Dy, ah*Dx].
   M is orthonormal and the two difference operators act on different axes, so the largest eigenvalue of
   W W^T is exactly 1 + av^2 (2 cos(pi/2r))^2 + ah^2 (2 cos(pi/2c))^2. */
#include "axset.h"
void vp_main(void) {
  int r = vp_param("mrow"), c = vp_param("mcol"), bp = vp_param("bp"), idx[1] = {0};
  l1c_AxFuns f;
  double av = vp_param("tvv") ? vp_real(0.001, 100) : 0.0, ah = vp_param("tvh") ? vp_real(0.001, 100) : 0.0;
  vp_check(l1c_setup_dctTV_transforms(1, r, c, av, ah, dct1, bp, idx, &f) == 0, "setup succeeds");
  double pi = 3.14159265358979323846, lr = 2 * cos(pi / (2 * r)), lc = 2 * cos(pi / (2 * c));
  if (bp == analysis) {
    double t = 1 + av * av * lr * lr + ah * ah * lc * lc;
    vp_check(f.norm_W > 0, "norm positive");
    vp_le(t, f.norm_W * f.norm_W, "reported norm bounds the dictionary norm");
  } else {
    vp_le(1.0, f.norm_W, "reported norm bounds the dictionary norm");
  }
  f.destroy();
  vp_reach("done");
}
