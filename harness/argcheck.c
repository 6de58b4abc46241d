/* C07: argument validation over all integers.  The 1-D/2-D set-ups are replaced by recorders, so that sizes can stay
   symbolic over the whole 32-bit range. */
#include <limits.h>
#include "axset.h"
static int n1, n2, gn, gm, gr, gc, gstat;
static int* gidx;
static l1c_AxFuns* gf;
static void nop_destroy(void) {}
int l1c_dct1_setup(l1c_int n, l1c_int m, l1c_int* ix, l1c_AxFuns* f) {
  n1++; gn = n; gm = m; gidx = ix; gf = f;
  f->destroy = nop_destroy;
  return gstat;
}
int l1c_dct2_setup(l1c_int n, l1c_int r, l1c_int c, l1c_int* ix, l1c_AxFuns* f) {
  n2++; gn = n; gr = r; gc = c; gidx = ix; gf = f;
  f->destroy = nop_destroy;
  return gstat;
}
#define K 4
void vp_main(void) {
  int which = vp_param("which"), ix[K];
  int n = vp_int(INT_MIN, vp_param("k")), r = vp_int(INT_MIN, INT_MAX), c = vp_int(INT_MIN, INT_MAX);
  int mode = vp_param("mode"), bp = vp_param("bp");
  int tvv = which ? vp_pick(0, 2) : 0, tvh = which ? vp_pick(0, 2) : 0; /* weight zero, positive, negative */
  double av = tvv == 0 ? 0.0 : tvv == 1 ? vp_real(1e-3, 100) : vp_real(-100, -1e-3);
  double ah = tvh == 0 ? 0.0 : tvh == 1 ? vp_real(1e-3, 100) : vp_real(-100, -1e-3);
  for (int i = 0; i < K; i++) ix[i] = vp_int(INT_MIN, INT_MAX);
  gstat = which ? 0 : vp_pick(0, 1) * L1C_OUT_OF_MEMORY;
  long long tot = (long long)r * c;
  int bad = n <= 0;
  if (r <= 0) bad = 1;
  if (c <= 0) bad = 1;
  int blocks = which == 1 ? 1 + (tvv == 1) + (tvh == 1) : 1;
  if (!bad && tot > INT_MAX / blocks) bad = 1;
  if (!bad)
    for (int i = 0; i < n; i++) {
      if (ix[i] < 0) bad = 1;
      if (ix[i] >= tot) bad = 1;
    }
  l1c_AxFuns f;
  int live = vp_live(), rc;
  if (which == 0) {
    if (tvv || tvh) vp_end();
    rc = l1c_setup_dct_transforms(n, r, c, mode, ix, &f);
  } else {
    if (tvv == 2 || tvh == 2) bad = 1;
    if ((tvv == 1 || tvh == 1) && (r <= 2 || c <= 2)) bad = 1;
    rc = l1c_setup_dctTV_transforms(n, r, c, av, ah, mode, bp, ix, &f);
  }
  if (bad) {
    vp_check(rc != 0, "bad arguments are rejected");
    vp_check(n1 == 0 && n2 == 0, "no set-up is attempted for bad arguments");
    vp_check(vp_live() == live, "nothing stays allocated after a rejection");
    vp_reach("rejected");
    return;
  }
  if (which == 1 && n1 + n2 == 0) { /* the work array could not be obtained (huge size) */
    vp_check(rc != 0, "allocation failure is reported");
    vp_check(vp_live() == live, "nothing stays allocated");
    return;
  }
  vp_check(rc == gstat, "legal arguments are accepted (status of the underlying set-up)");
  vp_check(n1 + n2 == 1, "exactly one underlying set-up");
  vp_check(gn == n && gidx == ix, "sample list passed on");
  if (r == 1 || c == 1 || mode == dct1) {
    vp_check(n1 == 1, "one-dimensional set chosen");
    vp_check(gm == (int)tot, "signal length passed on");
    vp_reach("1d");
  } else {
    vp_check(n2 == 1, "two-dimensional set chosen");
    vp_check(gr == r && gc == c, "image shape passed on");
    vp_reach("2d");
  }
  if (which == 0) vp_check(gf == &f, "caller's structure is filled");
  else if (rc == 0) {
    f.destroy();
    vp_check(vp_live() == live, "release frees everything");
  }
}
