/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "one material point, all temperatures, previous melt fractions, times; every melting model"} } */
#include "mdx.h"
static double melt(double P, double T, double ph0, double tk, double dt, int m, double *Q) { double p; PartialMelting(&p, Q, P, T, ph0, tk, dt, m, &I_.scaling); return p; }
static int models[] = {1, 10, 11, 40, 41};
static double sw[] = {500, 1600, 1200, 10000, 10000}; /* where the solidus formula changes, MPa */
/* melt fraction stays in its range and relaxes with the kinetic time */
void vx_case_range(void) {
  mdx_model(3, 3); int i = vx_int("m", 0, 4); double P = vx_real("P", 1, 20000)*1e6, T = vx_real("T", 300, 3500), p0 = vx_real("phi0", 0, 1), tk = vx_real("tk", 0, 4), dt = vx_real("dt", 0.0625, 4), Q, Q1;
  double p = melt(P, T, p0, tk, dt, models[i], &Q), e = melt(P, T, 0, 0, 1, models[i], &Q1);
  vx_check_le(0, p, "melt fraction is not negative"); vx_check_le(p, 1, "melt fraction is at most one"); vx_check_lt(0, Q, "latent heat is positive");
  if (e > 0 && e < 1) vx_check_eq((p - p0)*tk, (e - p)*dt, "melt fraction relaxes to its equilibrium over the kinetic time");
}
void vx_case_off(void) {
  mdx_model(3, 3); double Q = 5, p = melt(vx_real("P", 0, 1e9), vx_real("T", 300, 3000), vx_real("phi0", 0, 1), 1, 1, 0, &Q);
  vx_check_eq(p, 0, "no melt without a melting model"); vx_check_eq(Q, 0, "no latent heat without a melting model");
}
/* hotter rock carries at least as much melt; solidus and liquidus bracket partial melting */
void vx_case_mono(void) {
  mdx_model(3, 3); int i = vx_int("m", 0, 4); double P = vx_real("P", 1, 20000)*1e6, T = vx_real("T", 300, 3500), h = vx_real("h", 0, 500), Q;
  vx_check_le(melt(P, T, 0, 0, 1, models[i], &Q), melt(P, T + h, 0, 0, 1, models[i], &Q), "melt fraction grows with temperature");
}
/* no jump of solidus or liquidus of more than a kelvin where the pressure dependence changes */
static void jump(int i) {
  mdx_model(3, 3); double P = sw[i]*1e6, T = vx_real("T", 600, 3500), Q, a = melt(P*(1 - 1e-9), T, 0, 0, 1, models[i], &Q), b = melt(P*(1 + 1e-9), T + 1, 0, 0, 1, models[i], &Q), c = melt(P*(1 + 1e-9), T - 1, 0, 0, 1, models[i], &Q);
  vx_check(!(a > 0 && b <= 0), "solidus does not jump up with pressure"); vx_check(!(a <= 0 && c > 0), "solidus does not jump down with pressure");
  vx_check(!(a >= 1 && b < 1), "liquidus does not jump up with pressure"); vx_check(!(a < 1 && c >= 1), "liquidus does not jump down with pressure");
}
void vx_case_jump0(void) { jump(0); }
void vx_case_jump1(void) { jump(1); }
void vx_case_jump2(void) { jump(2); }
void vx_case_jump3(void) { jump(3); }
void vx_case_jump4(void) { jump(4); }
/* the unit system does not matter */
void vx_case_units(void) {
  mdx_model(3, 3); int i = vx_int("m", 0, 4); double P = vx_real("P", 1, 20000)*1e6, T = vx_real("T", 300, 3500), p0 = vx_real("phi0", 0, 1), Q, Q1, p = melt(P, T, p0, 2, 1, models[i], &Q);
  scale *s = &I_.scaling; s->T = vx_real("sT", 0.5, 1000); s->S = vx_real("sS", 0.5, 1e9); s->t = vx_real("st", 0.5, 1e9); s->J = vx_real("sJ", 0.5, 8); s->m = vx_real("sm", 0.5, 8);
  double q = melt(P/s->S, T/s->T, p0, 2/s->t, 1/s->t, models[i], &Q1);
  vx_check_eq(q, p, "melt fraction does not depend on the unit system"); vx_check_eq(Q1*s->J/s->m, Q, "latent heat does not depend on the unit system");
}
