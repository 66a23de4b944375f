/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "one material point or one cell/vertex with two phases; tables with 3x4 entries; all values"},
 "huet0": {"exp_hom": true}, "huet1": {"exp_hom": true}, "huetlaw": {"exp_hom": true, "math_approx": true}, "dens": {"exp_hom": true} } */
#include "mdx.h"
static mat_prop *M;
static void init(void) { mdx_model(3, 3); M = &I_.materials; M->Nb_phases = 2; M->R = 1; MODEL.Nb_phases = 2; }
/* density laws */
void vx_case_dens(void) {
  init(); int m = vx_int("model", 0, 5), var = vx_int("var", 0, 1); vx_assume(m != 2 && m != 4);
  double r = M->rho[0] = vx_real("rho", 1, 4), r2 = M->rho[1] = vx_real("rho2", 1, 4), dr = M->drho[0] = vx_real("drho", -0.5, 0.5), a = M->alp[0] = vx_real("alp", 0, 0.0625), b = M->bet[0] = vx_real("bet", 0, 0.0625), T0 = M->T0[0] = vx_real("T0", 0, 4), P0 = M->P0[0] = vx_real("P0", 0, 4);
  double T = vx_real("T", 0, 4), P = vx_real("P", 0, 4), X = vx_real("X", 0, 1), phi = vx_real("phi", 0, 1);
  M->density_model[0] = m; M->density_model[1] = 0; M->reac_phase[0] = 1; MODEL.density_variations = var;
  double d = EvaluateDensity(0, T, P, X, phi, &MODEL, M), e = exp(b*P - a*T);
  if (m == 0) vx_check_eq(d, r, "constant density");
  if (m == 1) vx_check_eq(d, (r + X*dr)*(1 - a*(T - T0))*(1 + b*(P - P0)), "linear equation of state");
  if (m == 3 && !var) vx_check_eq(d, r*e, "exponential equation of state");
  if (m == 3 && var) vx_check_eq(d, ((1-X)*r + X*r2)*e, "exponential equation of state with reaction progress");
  if (m == 5) vx_check_eq(d, ((1-phi)*r + phi*(r + dr))*e, "solid-melt mixture");
  if (m == 0 || m == 3 || m == 5) vx_check_lt(0, d, "density is positive");
}
/* tables: linear between entries, close to the border entries outside, nothing outside the table is read */
static double lin(double t, double a, double b, double c) { return t <= 1 ? a + t*(b - a) : b + (t-1)*(c - b); }
void vx_case_table1(void) {
  init(); int n[2] = {5, 3}; double mn[2] = {9, vx_real("Pmin", 0, 4)}, dp = vx_real("dP", 0.25, 4), mx[2] = {11, mn[1] + 2*dp}, *tab[2]; tab[0] = calloc(5, 8); tab[1] = malloc(3*8);
  for (int i = 0; i < 3; i++) { char b[9]; sprintf(b, "t%d", i); tab[1][i] = vx_real(b, 1, 4); }
  MODEL.PD1DnP = n; MODEL.PD1Dmin = mn; MODEL.PD1Dmax = mx; MODEL.PD1Drho = tab; M->density_model[1] = 4;
  double t = vx_real("t", -1, 3), *q = tab[1];
  double d = EvaluateDensity(1, 300, mn[1] + t*dp, 0, 0, &MODEL, M);
  if (t < 0) vx_check_le(fabs(d - q[0]), fabs(q[1]-q[0])/64, "below the table: first entry");
  else if (t > 2) vx_check_le(fabs(d - q[2]), fabs(q[2]-q[1])/64, "above the table: last entry");
  else vx_check_eq(d, lin(t, q[0], q[1], q[2]), "linear interpolation in the table");
}
static double lin4(double t, double a, double b, double c, double d) { return t <= 2 ? lin(t, a, b, c) : c + (t-2)*(d - c); }
void vx_case_table2(void) {
  init(); int nT[2] = {5, 3}, nP[2] = {5, 4}; double T0[2] = {9, vx_real("Tmin", 0, 4)}, P0[2] = {9, vx_real("Pmin", 0, 4)}, dt = vx_real("dT", 0.25, 4), dp = 0.5, T1[2] = {10, T0[1] + 2*dt}, P1[2] = {10, P0[1] + 3*dp}, *tab[2];
  tab[0] = calloc(25, 8); double *q = tab[1] = malloc(12*8); mdx_fill(q, 12, "t", 1, 4);
  MODEL.PDMnT = nT; MODEL.PDMnP = nP; MODEL.PDMTmin = T0; MODEL.PDMTmax = T1; MODEL.PDMPmin = P0; MODEL.PDMPmax = P1; MODEL.PDMrho = tab; M->density_model[0] = 2; M->phase_diagram[0] = 1;
  double t = vx_real("t", -1, 3), p = vx_real("p", -1, 4);
  double d = EvaluateDensity(0, T0[1] + t*dt, P0[1] + p*dp, 0, 0, &MODEL, M);
  if (t >= 0 && t <= 2 && p >= 0 && p <= 3) vx_check_eq(d, lin4(p, lin(t, q[0], q[1], q[2]), lin(t, q[3], q[4], q[5]), lin(t, q[6], q[7], q[8]), lin(t, q[9], q[10], q[11])), "bilinear interpolation in the phase diagram");
  else if (t < 0 && p < 0) vx_check_le(fabs(d - q[0]), (fabs(q[1]-q[0]) + fabs(q[3]-q[0]) + fabs(q[4]-q[0]))/32, "below both ranges: corner entry");
  else if (t > 2 && p > 3) vx_check_le(fabs(d - q[11]), (fabs(q[10]-q[11]) + fabs(q[8]-q[11]) + fabs(q[7]-q[11]))/32, "above both ranges: corner entry");
  else if (t < 0 && p > 3) vx_check_le(fabs(d - q[9]), (fabs(q[10]-q[9]) + fabs(q[6]-q[9]) + fabs(q[7]-q[9]))/32, "colder and deeper than the table: corner entry");
  else if (t > 2 && p < 0) vx_check_le(fabs(d - q[2]), (fabs(q[1]-q[2]) + fabs(q[5]-q[2]) + fabs(q[4]-q[2]))/32, "hotter and shallower than the table: corner entry");
  else {  /* one range left: the value at the border, not extrapolated */
    double v, w;
    if (t < 0) v = lin4(p, q[0], q[3], q[6], q[9]), w = lin4(p, q[1], q[4], q[7], q[10]);
    else if (t > 2) v = lin4(p, q[2], q[5], q[8], q[11]), w = lin4(p, q[1], q[4], q[7], q[10]);
    else if (p > 3) v = lin(t, q[9], q[10], q[11]), w = lin(t, q[6], q[7], q[8]);
    else v = lin(t, q[0], q[1], q[2]), w = lin(t, q[3], q[4], q[5]);
    vx_check_le(fabs(d - v), fabs(w - v)/64, "outside one range of the phase diagram: border value"); vx_check_le((d - v)*(d - w), 0, "nothing is extrapolated beyond the phase diagram");
  }
}
/* mixture law of Huet et al. */
static void huet(int end) {
  init(); M->reac_phase[0] = 1; int n1 = vx_int("n1", 1, 3), n2 = vx_int("n2", 1, 3), t = vx_int("t", 0, 2); M->npwl[0] = n1; M->npwl[1] = n2;
  double A[2] = {vx_real("A1", 0.25, 4), vx_real("A2", 0.25, 4)}, Q[2] = {vx_real("Q1", 0, 4), vx_real("Q2", 0, 4)}, pre = vx_real("pre", 0.25, 4), T = vx_real("T", 0.5, 4), B, C, n; M->Apwl[0] = A[0]; M->Apwl[1] = A[1]; M->Qpwl[0] = Q[0]; M->Qpwl[1] = Q[1];
  HuetAveragingModel(&B, &C, &n, 0, 1, T, t, end, pre, M);
  int ne = end ? n2 : n1; double Ae = A[end], Qe = Q[end];
  vx_check_eq(n, ne, "end member exponent");
  double F2 = 1; for (int k = 0; k < 2*ne; k++) F2 *= t == 0 ? 1 : t == 1 ? 0.5 : 0.25; if (t) F2 *= 4; if (t == 1) for (int k = 0; k <= ne; k++) F2 /= 3; /* F^(2n): shear to plane strain invariants */
  double b = 1; for (int k = 0; k < ne; k++) b *= B/pre*exp(-Qe/T/ne);
  vx_check_eq(b*b*Ae*Ae, F2, "end member flow law");
  double c = C; for (int k = 0; k < ne; k++) c *= 2*B;
  vx_check_eq(c, 1, "inverse form of the flow law");
}
/* exchanging the roles of the two phases changes nothing; exponent and activation energy lie between the end members */
void vx_case_huetmix(void) {
  init(); M->reac_phase[0] = 1; M->reac_phase[1] = 0; int n1 = vx_int("n1", 1, 4), n2 = vx_int("n2", 1, 4), t = vx_int("t", 0, 2); M->npwl[0] = n1; M->npwl[1] = n2;
  M->Apwl[0] = vx_real("A1", 0.25, 4); M->Apwl[1] = vx_real("A2", 0.25, 4); double q = M->Qpwl[0] = vx_real("Q1", 0, 4); M->Qpwl[1] = vx_real("Q2", 0, 4); double X = vx_real("X", 0, 1), B, C, n, B2, C2, nn;
  HuetAveragingModel(&B, &C, &n, 0, 1, 2, t, X, 1.5, M); HuetAveragingModel(&B2, &C2, &nn, 1, 1, 2, t, 1-X, 1.5, M);
  vx_check_eq(nn, n, "exponent does not depend on the order of the phases"); vx_check_eq(B2, B, "flow law does not depend on the order of the phases"); vx_check_eq(C2, C, "inverse flow law does not depend on the order of the phases");
  vx_check_le(n1 < n2 ? n1 : n2, n, "exponent lies between the end members"); vx_check_le(n, n1 < n2 ? n2 : n1, "exponent lies between the end members"); vx_check_lt(0, B, "flow law is positive");
}
/* minimised power geometric mean of Huet et al. (2014): weights of the logarithms are f_i prod_{j != i}(n_j + 1) */
void vx_case_huetlaw(void) {
  init(); M->reac_phase[0] = 1; int n1 = vx_int("n1", 1, 4), n2 = vx_int("n2", 1, 4), t = vx_int("t", 0, 2), x = vx_int("x4", 1, 3); M->npwl[0] = n1; M->npwl[1] = n2; M->Apwl[0] = 2.5; M->Apwl[1] = 0.375; double X = x/4.0;
  double Q1 = M->Qpwl[0] = vx_real("Q1", 0, 4), Q2 = M->Qpwl[1] = vx_real("Q2", 0, 4), T = vx_real("T", 0.5, 4), B, C, n; HuetAveragingModel(&B, &C, &n, 0, 1, T, t, X, 1.5, M);
  double w1 = (1-X)*(n2+1), w2 = X*(n1+1), w = w1 + w2, nn = (w1*n1 + w2*n2)/w, Q = (w1*Q1 + w2*Q2)/w; vx_check_eq(n, nn, "exponent of the mixture");
  double lnA = (w1*log(2.5) + w2*log(0.375) + w1*n1*log(n1/(n1+1.0)) + w2*n2*log(n2/(n2+1.0)))/w - nn*log((1-X)*n1/(n1+1.0) + X*n2/(n2+1.0));
  double lnF = t == 0 ? 0 : t == 1 ? log(2.0)/nn - log(6.0) + (nn-1)/(2*nn)*log(3.0) : log(2.0)/nn - log(4.0), R = B/exp(Q/T/nn)/(1.5*exp(lnF - lnA/nn));
  vx_check_le(0.999999, R, "flow law of the mixture"); vx_check_le(R, 1.000001, "flow law of the mixture");
}
void vx_case_huet0(void) { huet(0); }
void vx_case_huet1(void) { huet(1); }
/* elastic moduli and expansivity of mixed cells */
void vx_case_moduli(void) {
  init(); mdx_box(0, 0, 1, 0.5); mdx_grid(); MODEL.periodic_x = vx_int("per", 0, 1); double f = vx_real("f", 0, 1);
  for (int p = 0; p < 2; p++) { char b[9]; sprintf(b, "G%d", p); M->G[p] = vx_real(b, 0.25, 4); sprintf(b, "b%d", p); M->bet[p] = vx_real(b, 0.25, 4); sprintf(b, "a%d", p); M->alp[p] = vx_real(b, 0, 4);
    for (int c = 0; c < 4; c++) mesh.phase_perc_n[p][c] = p ? 1-f : f; for (int c = 0; c < 9; c++) mesh.phase_perc_s[p][c] = c == 3 ? p : p ? 1-f : f; }
  mesh.BCp.type[3] = 30; mesh.BCp.type[2] = 31; mesh.BCg.type[8] = 30;
  ShearModCompExpGrid(&mesh, M, &MODEL, I_.scaling);
  double hG = 1/(f/M->G[0] + (1-f)/M->G[1]), hb = 1/(f/M->bet[0] + (1-f)/M->bet[1]);
  for (int c = 0; c < 4; c++) {
    int r = c < 2; vx_check_eq(mesh.mu_n[c], r ? hG : 0, "cell shear modulus is the harmonic mean, zero in the air"); vx_check_eq(mesh.bet_n[c], r ? hb : 0, "cell compressibility is the harmonic mean, zero in the air"); vx_check_eq(mesh.alp[c], r ? f*M->alp[0] + (1-f)*M->alp[1] : 0, "cell expansivity is the arithmetic mean, zero in the air");
  }
  for (int c = 0; c < 9; c++) {
    double g = c == 3 ? M->G[1] : c == 8 ? 0 : hG, b = c == 3 ? M->bet[1] : c == 8 ? 0 : hb;
    if (MODEL.periodic_x) { if (c == 3 || c == 5) { g = (M->G[1] + hG)/2; b = (M->bet[1] + hb)/2; } if (c == 6 || c == 8) { g = hG/2; b = hb/2; } }
    vx_check_eq(mesh.mu_s[c], g, "vertex shear modulus is the harmonic mean"); vx_check_eq(mesh.bet_s[c], b, "vertex compressibility is the harmonic mean");
  }
}
