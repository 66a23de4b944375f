/*VX {"default": {"budget": 200, "max_paths": 4000, "bounds": "arrays with 7 entries, all values; teams of 4", "omp": 4}} */
#include "mdx.h"
enum { NV = 7 };
static double a[NV], b[NV], c[NV];
void vx_case_dot(void) {
  mdx_fill(a, NV, "a", -4, 4); mdx_fill(b, NV, "b", -4, 4); double s = 0; for (int i = 0; i < NV; i++) s += a[i]*b[i];
  vx_check_eq(DotProduct(a, b, NV), s, "scalar product");
}
void vx_case_elementwise(void) {
  mdx_fill(a, NV, "a", -4, 4); mdx_fill(b, NV, "b", -4, 4); double s = vx_real("s", -4, 4); int k[NV];
  ArrayEqualArray(c, a, NV); ArrayPlusArray(c, b, NV); for (int i = 0; i < NV; i++) vx_check_eq(c[i], a[i] + b[i], "sum of arrays");
  ArrayEqualArray(c, a, NV); ArrayTimesScalar(c, s, NV); for (int i = 0; i < NV; i++) vx_check_eq(c[i], a[i]*s, "scaled array");
  ArrayEqualArray(c, a, NV); ArrayMinusArray(c, b, NV); for (int i = 0; i < NV; i++) vx_check_eq(c[i], a[i] - b[i], "difference of arrays");
  Initialise1DArrayInt(k, NV, 5); for (int i = 0; i < NV; i++) vx_check_eqi(k[i], 5, "initialised array");
  Initialise1DArrayDouble(c, NV, s); for (int i = 0; i < NV; i++) vx_check_eq(c[i], s, "initialised array");
}
void vx_case_extremes(void) {
  double lo, hi; mdx_fill(a, 5, "a", -4, 4); lo = hi = a[0]; for (int i = 1; i < 5; i++) { if (a[i] < lo) lo = a[i]; if (a[i] > hi) hi = a[i]; }
  double mn = 77, mx = 77; MinMaxArrayVal(a, 5, &mn, &mx); vx_check_eq(mn, lo, "smallest value of an array"); vx_check_eq(mx, hi, "largest value of an array");
}
void vx_case_printed(void) {
  int ph[NV]; char t[NV]; mdx_fill(a, 4, "a", -4, 4); for (int i = 0; i < 4; i++) { ph[i] = i % 2 ? 1 : -1; t[i] = i == 1 ? 30 : 0; }
  MinMaxArray(a, 2.0, 4, "a"); MinMaxArrayPart(a, 2.0, 4, "a", ph); MinMaxArrayTag(a, 2.0, 4, "a", t); MinMaxArrayTagInt(ph, 2.0, 4, "a", t); vx_check(1, "no race in the extremes"); 
}
