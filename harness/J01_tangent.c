/*VX {"default": {"budget": 300, "max_paths": 4000, "fabs_fork": true, "bounds": "3x2 nodes, two phases of any shares whose viscosity, plastic divergence and density are any quadratic function of strain rate and pressure from a list; all strain rates, stresses and pressures away from zero"}} */
#include "mdx.h"
/* stands for the rheology of one phase: a quadratic function, for which central differences are exact */
static double q(const int *a, double x, double z, double s, double p) { return a[0] + a[1]*x + a[2]*z + a[3]*s + a[4]*p + a[5]*x*z + a[6]*x*s + a[7]*x*p + a[8]*z*s + a[9]*z*p + a[10]*s*p + a[11]*x*x + a[12]*z*z + a[13]*s*s + a[14]*p*p; }
static double dq(const int *a, int w, double x, double z, double s, double p) { return w == 0 ? a[1] + a[5]*z + a[6]*s + a[7]*p + 2*a[11]*x : w == 1 ? a[2] + a[5]*x + a[8]*s + a[9]*p + 2*a[12]*z : w == 2 ? (a[3] + a[6]*x + a[8]*z + a[10]*p + 2*a[13]*s)/2 : a[4] + a[7]*x + a[9]*z + a[10]*s + 2*a[14]*p; }
static const int ce[2][15] = { { 3, 2, 5, 7, 11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1 }, { 1, -3, 4, 2, -5, 2, 1, -4, 3, 2, -1, 2, -3, 5, 3 } }, cd[2][15] = { { 1, 2, -3, 5, 4, 1, 1, 2, 3, 1, 2, 4, 3, 2, 1 }, { 2, 1, 4, -2, 3, 2, 3, 1, 2, 2, 1, 1, 2, 3, 4 } }, cr[2][15] = { { 5, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2 }, { 2, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3 } };
static double lx2_, lxlz_, ang_, fac_;
static double law(int an, int p, double G, double T, double P, double d, double phi, double X0, double Exx, double Ezz, double Exz, double Txx0, double Tzz0, double Txz0, params *mo, double *eta, double *rho, double fric, double dil, double C, double P0, double T0, double beta, double div, double *dvp, int cent, int c) {
  grid *g = &mesh; (void)mo; (void)an;
  if (cent) { vx_check_eq(G, g->mu_n[c], "shear modulus"); vx_check_eq(T, g->T[c], "temperature"); vx_check_eq(d, g->d0_n[c], "grain size"); vx_check_eq(phi, g->phi0_n[c], "melt"); vx_check_eq(X0, g->X0_n[c], "composition"); vx_check_eq(Txx0, g->sxxd0[c], "old stress"); vx_check_eq(Tzz0, g->szzd0[c], "old stress"); vx_check_eq(Txz0, g->sxz0_n[c], "old stress"); vx_check_eq(fric, g->fric_n[c], "friction"); vx_check_eq(dil, g->dil_n[c], "dilation"); vx_check_eq(C, g->C_n[c], "cohesion"); vx_check_eq(P0, g->p0_n[c], "old pressure"); vx_check_eq(T0, g->T0_n[c], "old temperature"); vx_check_eq(beta, g->bet_n[c], "compressibility"); vx_check_eq(div, g->div_u[c], "divergence"); }
  else { vx_check_eq(G, g->mu_s[c], "shear modulus"); vx_check_eq(T, g->T_s[c], "temperature"); vx_check_eq(d, g->d0_s[c], "grain size"); vx_check_eq(phi, g->phi0_s[c], "melt"); vx_check_eq(X0, g->X0_s[c], "composition"); vx_check_eq(Txx0, g->sxxd0_s[c], "old stress"); vx_check_eq(Tzz0, g->szzd0_s[c], "old stress"); vx_check_eq(Txz0, g->sxz0[c], "old stress"); vx_check_eq(fric, g->fric_s[c], "friction"); vx_check_eq(dil, g->dil_s[c], "dilation"); vx_check_eq(C, g->C_s[c], "cohesion"); vx_check_eq(P0, g->p0_s[c], "old pressure"); vx_check_eq(beta, g->bet_s[c], "compressibility"); vx_check_eq(div, g->div_u_s[c], "divergence"); }
  *eta = q(ce[p], Exx, Ezz, Exz, P); *dvp = cent ? q(cd[p], Exx, Ezz, Exz, P) : 0; *rho = q(cr[p], Exx, Ezz, Exz, P); return 1;
}
double ViscosityConcise( int p, double G, double T, double P, double d, double phi, double X0, double Exx, double Ezz, double Exz, double Txx0, double Tzz0, double Txz0, mat_prop* m, params *mo, scale *sc, double *Txx, double *Tzz, double *Txz, double* etaVE, double* VEcoeff, double* Eel, double* Epl, double* Epwl, double* Eexp, double *Elin, double* Egbs, double* Ecst, double *d1, double sa, double dil, double fric, double C, double P0, double T0,  double *X1, double *OverS, double *Pcorr, double *rho, double beta, double div, double *dve, double *dvp, double *dvr, double *Wtot, double *Wel, double *Wdiss, int pp, int cent, int fu, int c ) {
  vx_check(MODEL.anisotropy == 0, "isotropic rheology"); return law(0, p, G, T, P, d, phi, X0, Exx, Ezz, Exz, Txx0, Tzz0, Txz0, mo, etaVE, rho, fric, dil, C, P0, T0, beta, div, dvp, cent, c);
}
double ViscosityConciseAniso( int p, double lxlz, double lx2, double angle, double fac, double G, double T, double P, double d, double phi, double X0, double Exx, double Ezz, double Exz, double Txx0, double Tzz0, double Txz0, mat_prop* m, params *mo, scale *sc, double *Txx, double *Tzz, double *Txz, double* etaVE, double* Eel, double* Epl, double* Epwl, double* Eexp, double *Elin, double* Egbs, double* Ecst, double *d1, double sa, double dil, double fric, double C, double P0, double T0,  double *X1, double *OverS, double *Pcorr, double *rho, double beta, double div, double *dve, double *dvp, double *dvr, double *Wtot, double *Wel, double *Wdiss, int pp, int cent, int fu, int c ) {
  vx_check(MODEL.anisotropy == 1, "anisotropic rheology"); vx_check_eq(angle, cent ? mesh.angle_n[c] : mesh.angle_s[c], "director angle"); vx_check_eq(fac, cent ? mesh.aniso_factor_n[c] : mesh.aniso_factor_s[c], "anisotropy factor"); double l = angle - M_PI/2.0; vx_check_eq(lx2, cos(l)*cos(l), "layer direction"); vx_check_eq(lxlz, cos(l)*sin(l), "layer direction");
  return law(1, p, G, T, P, d, phi, X0, Exx, Ezz, Exz, Txx0, Tzz0, Txz0, mo, etaVE, rho, fric, dil, C, P0, T0, beta, div, dvp, cent, c);
}
static void tangent(int avg, int an, int el) {
  vx_flag("tol_ppb", 20000); /* rounding of the differences, in the replay */
  mdx_model(3, 2); MODEL.anisotropy = an; MODEL.elastic = el; MODEL.compressible = vx_int("comp", 0, 1); MODEL.dt = 0.75; MODEL.eta_average = avg; MODEL.Nb_phases = 2; mdx_box(0, 0, 1, 0.5); mdx_grid();
  double f = vx_real("f", 0.125, 0.875), g_ = vx_int("sign", 0, 1) ? -1 : 1, x = g_*vx_real("x", 1, 2), z = -vx_real("z", 1, 2), s = g_*vx_real("s", 0.5, 2), P = g_*vx_real("P", 0.5, 2), e = vx_real("eta", 0.25, 4), t[3] = { 0, 0, 0 }, K = 0; if (el) mdx_fill(t, 3, "t", -0.25, 0.25);
  int at = 4, C = 0; /* cell 0 and vertex 4 are looked at; cell 1 and vertex 2 are air */
  for (int c = 0; c < 2; c++) { mesh.eta_n[c] = 3; mesh.mu_n[c] = 2 + c; mesh.fric_n[c] = 3 + c; mesh.dil_n[c] = 4 + c; mesh.C_n[c] = 5 + c; mesh.p0_n[c] = 6 + c; mesh.bet_n[c] = 0.5 + c; mesh.d0_n[c] = 7 + c; mesh.phi0_n[c] = 8 + c; mesh.T0_n[c] = 9 + c; mesh.T[c] = 10 + c; mesh.X0_n[c] = 11 + c; mesh.div_u[c] = 12 + c; mesh.BCp.type[c] = -1; mesh.phase_perc_n[0][c] = 1; mesh.phase_eta_n[0][c] = 2; mesh.phase_eta_n[1][c] = 5; }
  for (int c = 0; c < 6; c++) { mesh.eta_s[c] = 3; mesh.mu_s[c] = 2 + c; mesh.fric_s[c] = 3 + c; mesh.dil_s[c] = 4 + c; mesh.C_s[c] = 5 + c; mesh.p0_s[c] = 6 + c; mesh.bet_s[c] = 7 + c; mesh.d0_s[c] = 8 + c; mesh.phi0_s[c] = 9 + c; mesh.T_s[c] = 10 + c; mesh.X0_s[c] = 11 + c; mesh.div_u_s[c] = 12 + c; mesh.BCg.type[c] = -1; mesh.phase_perc_s[0][c] = 1; mesh.phase_eta_s[0][c] = 2; mesh.phase_eta_s[1][c] = 5; }
  mesh.BCp.type[1] = vx_int("air", 30, 31); mesh.BCg.type[2] = 30; mesh.D11_n[1] = mesh.D24_n[1] = mesh.D33_s[2] = mesh.D34_s[2] = 77;
  if (an) { for (int c = 0; c < 2; c++) { mesh.aniso_factor_n[c] = 4; mesh.d1_n[c] = 0.375; mesh.d2_n[c] = -0.125; mesh.angle_n[c] = 0.25; } for (int c = 0; c < 6; c++) { mesh.aniso_factor_s[c] = 2; mesh.d1_s[c] = 0.25; mesh.d2_s[c] = 0.375; mesh.angle_s[c] = 0.5 + c; } }
  mesh.phase_perc_n[0][C] = mesh.phase_perc_s[0][at] = f; mesh.phase_perc_n[1][C] = mesh.phase_perc_s[1][at] = 1 - f; mesh.eta_n[C] = mesh.eta_s[at] = e;
  mesh.exxd[C] = mesh.exxd_s[at] = x; mesh.ezzd[C] = mesh.ezzd_s[at] = z; mesh.exz_n[C] = mesh.exz[at] = s; mesh.p_in[C] = mesh.P_s[at] = P; mesh.sxxd0[C] = mesh.sxxd0_s[at] = t[0]; mesh.szzd0[C] = mesh.szzd0_s[at] = t[1]; mesh.sxz0_n[C] = mesh.sxz0[at] = t[2];
  RheologicalOperators(&mesh, &MODEL, &I_.materials, &I_.scaling, 1, an);
  for (int v = 0; v < 2; v++) { double ge = MODEL.dt*(v ? mesh.mu_s[at] : mesh.mu_n[C]), X = x + el*t[0]/(2*ge), Z = z + el*t[1]/(2*ge), S = s + el*t[2]/(2*ge), F[2] = { f, 1 - f }, de[4], dd[4], r = 0;
    double a = an ? 1 - 1/(v ? 2.0 : 4.0) : 0, d1 = !an ? 0 : v ? 0.25 : 0.375, d2 = !an ? 0 : v ? 0.375 : -0.125;
    for (int w = 0; w < 4; w++) { de[w] = dd[w] = 0; for (int p = 0; p < 2; p++) { double ep = p ? 5 : 2, u = avg == 0 ? 1 : avg == 1 ? e*e/(ep*ep) : e/ep; de[w] += F[p]*u*dq(ce[p], w, X, Z, S, P); dd[w] += F[p]*dq(cd[p], w, X, Z, S, P); if (w == 3) r += F[p]*dq(cr[p], w, X, Z, S, P); } }
    if (v == 0) { K = MODEL.compressible ? 1/mesh.bet_n[C] : 0; double Dxx = X*(1 - a*d1) + Z*a*d1 - 2*S*a*d2, Dzz = Z*(1 - a*d1) + X*a*d1 + 2*S*a*d2, kt = K*MODEL.dt;
      vx_check_eq(mesh.D11_n[C], 2*e*(1 - a*d1) + 2*de[0]*Dxx - kt*dd[0], "d sxx / d exx"); vx_check_eq(mesh.D12_n[C], 2*e*a*d1 + 2*de[1]*Dxx - kt*dd[1], "d sxx / d ezz"); vx_check_eq(mesh.D13_n[C], -2*e*a*d2 + 2*de[2]*Dxx - kt*dd[2], "d sxx / d gxz"); vx_check_eq(mesh.D14_n[C], 2*de[3]*Dxx - kt*dd[3], "d sxx / d p");
      vx_check_eq(mesh.D21_n[C], 2*e*a*d1 + 2*de[0]*Dzz - kt*dd[0], "d szz / d exx"); vx_check_eq(mesh.D22_n[C], 2*e*(1 - a*d1) + 2*de[1]*Dzz - kt*dd[1], "d szz / d ezz"); vx_check_eq(mesh.D23_n[C], 2*e*a*d2 + 2*de[2]*Dzz - kt*dd[2], "d szz / d gxz"); vx_check_eq(mesh.D24_n[C], 2*de[3]*Dzz - kt*dd[3], "d szz / d p");
      vx_check_eq(mesh.drhodp_n[C], r, "d rho / d p"); }
    else { double Dxz = -X*a*d2 + Z*a*d2 + 2*S*(a*(d1 - 0.5) + 0.5);
      vx_check_eq(mesh.D31_s[at], -2*e*a*d2 + 2*de[0]*Dxz, "d sxz / d exx"); vx_check_eq(mesh.D32_s[at], 2*e*a*d2 + 2*de[1]*Dxz, "d sxz / d ezz"); vx_check_eq(mesh.D33_s[at], 2*e*(a*(d1 - 0.5) + 0.5) + 2*de[2]*Dxz, "d sxz / d gxz"); vx_check_eq(mesh.D34_s[at], 2*de[3]*Dxz, "d sxz / d p"); } }
  vx_check(mesh.D11_n[1] == 0 && mesh.D12_n[1] == 0 && mesh.D13_n[1] == 0 && mesh.D14_n[1] == 0 && mesh.D21_n[1] == 0 && mesh.D22_n[1] == 0 && mesh.D23_n[1] == 0 && mesh.D24_n[1] == 0, "air has no tangent (cells)"); vx_check(mesh.D31_s[2] == 0 && mesh.D32_s[2] == 0 && mesh.D33_s[2] == 0 && mesh.D34_s[2] == 0, "air has no tangent (vertices)");
}
void vx_case_arithmetic(void) { tangent(0, 0, 0); }
void vx_case_harmonic(void)   { tangent(1, 0, 0); }
void vx_case_geometric(void)  { tangent(2, 0, 0); }
void vx_case_elastic(void)    { tangent(0, 0, 1); }
void vx_case_director(void)   { tangent(vx_int("avg", 0, 2), 1, 0); }
