/* C09: allocators.  kind 0: malloc, any count; 1: calloc, given count; 2: malloc_2D, any column count; 3: calloc_2D */
#include <limits.h>
#include <stdlib.h>
#include "l1c.h"
#include "vp.h"
static int disjoint(double* a, double* b, long n) { return a + n <= b || b + n <= a; }
void vp_main(void) {
  int kind = vp_param("kind"), fail = vp_param("fail"), live = vp_live();
  if (kind < 2) {
    int n = kind == 0 ? vp_int(0, INT_MAX) : vp_param("n");
    vp_fault_arm(fail);
    double* p = kind == 0 ? l1c_malloc_double(n) : l1c_calloc_double(n);
    vp_fault_arm(0);
    if (!p) { vp_check(fail || n > 1000000, "an ordinary request succeeds"); vp_check(vp_live() == live, "nothing left allocated"); vp_reach("null"); }
    else {
      vp_check(!fail, "no array when the allocation failed");
      vp_check(vp_aligned(p, 64), "64-byte aligned");
      vp_check(vp_writable(p, (long)n * 8), "room for all elements");
      if (kind == 1) for (int i = 0; i < n; i++) vp_same(p[i], 0.0, "zeroed");
      vp_reach("got");
    }
    l1c_free_double(p);
  } else {
    int nr = vp_param("nrow"), nc = kind == 2 ? vp_int(1, INT_MAX) : vp_param("n");
    vp_fault_arm(fail);
    double** p = kind == 2 ? l1c_malloc_double_2D(nr, nc) : l1c_calloc_double_2D(nr, nc);
    vp_fault_arm(0);
    if (!p) { vp_check(vp_fault_fired() || nr == 0 || nc > 1000000, "an ordinary request succeeds"); vp_check(vp_live() == live, "nothing left allocated"); vp_reach("null"); }
    else {
      vp_check(!vp_fault_fired(), "no array when an allocation failed");
      vp_check(vp_writable(p, (long)nr * (long)sizeof(double*)), "room for all row pointers");
      for (int i = 0; i < nr; i++) {
        vp_check(p[i] != NULL, "row present");
        vp_check(vp_aligned(p[i], 64), "row aligned");
        vp_check(vp_writable(p[i], (long)nc * 8), "row full length");
        for (int j = 0; j < i; j++) vp_check(disjoint(p[i], p[j], nc), "rows disjoint");
        if (kind == 3) for (int j = 0; j < nc; j++) vp_same(p[i][j], 0.0, "zeroed");
      }
      vp_reach("got");
    }
    l1c_free_double_2D(nr, p);
  }
  vp_check(vp_live() == live, "everything released");
  l1c_free_double(NULL);
  l1c_free_double_2D(vp_param("nrow"), NULL);
}
