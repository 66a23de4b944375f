/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "3x3 nodes, two phases, all fields", "exp_hom": true}} */
#include "mdx.h"
static double ve[2][2][9], vp[2][2][9], rr[2][4], ww[2][4], pc[2][4], xx[2][2][9], dd[2]; static int ncall[2][9];
/* stands for the rheology of one phase at one point: arbitrary results, arguments checked */
double ViscosityConcise( int p, double G, double T, double P, double d, double phi, double X0, double Exx, double Ezz, double Exz, double Txx0, double Tzz0, double Txz0, mat_prop* m, params *mo, scale *sc, double *Txx, double *Tzz, double *Txz, double* etaVE, double* VEcoeff, double* Eel, double* Epl, double* Epwl, double* Eexp, double *Elin, double* Egbs, double* Ecst, double *d1, double sa, double dil, double fric, double C, double P0, double T0,  double *X1, double *OverS, double *Pcorr, double *rho, double beta, double div, double *dve, double *dvp, double *dvr, double *Wtot, double *Wel, double *Wdiss, int pp, int cent, int fu, int c ) {
  int k = cent ? 0 : 1; ncall[k][c]++;
  double el = mo->elastic, te = el ? mo->dt*G*2 : 1; grid *g = &mesh;
  vx_check(cent == 0 || cent == 1, "centre flag"); vx_check_eqi(pp, 1, "post-processing on");
  vx_check_eq(G, cent ? g->mu_n[c] : g->mu_s[c], "shear modulus of the point"); vx_check_eq(fric, cent ? g->fric_n[c] : g->fric_s[c], "friction of the point"); vx_check_eq(dil, cent ? g->dil_n[c] : g->dil_s[c], "dilation of the point");
  vx_check_eq(C, cent ? g->C_n[c] : g->C_s[c], "cohesion of the point"); vx_check_eq(P0, cent ? g->p0_n[c] : g->p0_s[c], "old pressure of the point"); vx_check_eq(beta, cent ? g->bet_n[c] : g->bet_s[c], "compressibility of the point");
  vx_check_eq(X0, cent ? g->X0_n[c] : g->X0_s[c], "composition of the point");
  vx_check_eq(Txx0, cent ? g->sxxd0[c] : g->sxxd0_s[c], "old stress xx"); vx_check_eq(Tzz0, cent ? g->szzd0[c] : g->szzd0_s[c], "old stress zz"); vx_check_eq(Txz0, cent ? g->sxz0_n[c] : g->sxz0[c], "old stress xz");
  vx_check_eq(Exx, (cent ? g->exxd[c] : g->exxd_s[c]) + el*Txx0/te, "effective strain rate xx"); vx_check_eq(Ezz, (cent ? g->ezzd[c] : g->ezzd_s[c]) + el*Tzz0/te, "effective strain rate zz"); vx_check_eq(Exz, (cent ? g->exz_n[c] : g->exz[c]) + el*Txz0/te, "effective strain rate xz");
  if (cent) { vx_check_eq(T, g->T[c], "temperature"); vx_check_eq(P, g->p_in[c], "pressure"); vx_check_eq(d, g->d0_n[c], "grain size"); vx_check_eq(phi, g->phi0_n[c], "melt"); vx_check_eq(T0, g->T0_n[c], "old temperature"); }
  else { vx_check_eq(T, g->T_s[c], "temperature (vertex)"); vx_check_eq(P, g->P_s[c], "pressure (vertex)"); vx_check_eq(d, g->d0_s[c], "grain size (vertex)"); vx_check_eq(phi, g->phi0_s[c], "melt (vertex)"); }
  *Txx = *Tzz = *Txz = 0; *etaVE = ve[k][p][c]; *VEcoeff = 0; *Eel = 1 + p; *Epl = 2 + p; *Epwl = 3 + p; *Eexp = 4 + p; *Elin = 5 + p; *Egbs = 6 + p; *Ecst = 7 + p; *d1 = dd[p]; *X1 = xx[k][p][c]; *OverS = 8 + p; *Pcorr = cent ? pc[p][c] : 0; *rho = cent ? rr[p][c] : 0;
  *dve = 9 + p; *dvp = 10 + p; *dvr = 11 + p; *Wtot = 12 + p; *Wel = 13 + p; *Wdiss = cent ? ww[p][c] : 0;
  return vp[k][p][c];
}
double ViscosityConciseAniso_unused;
static double av(int a, double f, double x, double y) { return a == 0 ? f*x + (1-f)*y : a == 1 ? 1/(f/x + (1-f)/y) : exp(f*log(x) + (1-f)*log(y)); }
static void gridcase(int a) {
  mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); MODEL.Nb_phases = 2; mdx_grid(); MODEL.eta_average = a; MODEL.elastic = vx_int("el", 0, 1); MODEL.dt = 0.5; MODEL.step = 1; MODEL.density_variations = vx_int("var", 0, 1);
  double f = vx_real("f", 0.125, 0.875);
  double *fn[] = {mesh.exxd, mesh.ezzd, mesh.exz_n, mesh.sxxd0, mesh.szzd0, mesh.sxz0_n, mesh.T, mesh.p_in, mesh.X0_n}, *fs[] = {mesh.exxd_s, mesh.ezzd_s, mesh.exz, mesh.sxxd0_s, mesh.szzd0_s, mesh.sxz0, mesh.X0_s};
  for (int i = 0; i < 9; i++) { char b[9]; sprintf(b, "n%d_", i); mdx_fill(fn[i], 4, b, 0.5, 4); }
  for (int i = 0; i < 7; i++) { char b[9]; sprintf(b, "s%d_", i); mdx_fill(fs[i], 9, b, 0.5, 4); }
  for (int c = 0; c < 4; c++) { mesh.mu_n[c] = 1 + c; mesh.fric_n[c] = 2 + c; mesh.dil_n[c] = 3 + c; mesh.C_n[c] = 4 + c; mesh.p0_n[c] = 5 + c; mesh.bet_n[c] = 6 + c; mesh.d0_n[c] = 7 + c; mesh.phi0_n[c] = 8 + c; mesh.T0_n[c] = 9 + c; mesh.rho_n[c] = 77; }
  for (int c = 0; c < 9; c++) { mesh.mu_s[c] = 1 + c; mesh.fric_s[c] = 2 + c; mesh.dil_s[c] = 3 + c; mesh.C_s[c] = 4 + c; mesh.p0_s[c] = 5 + c; mesh.bet_s[c] = 6 + c; }
  /* cell 3 is air with its outer vertices; cell 0 is pure phase 1, others are mixed */
  mesh.BCp.type[3] = 30; mesh.BCg.type[8] = 30; dd[0] = 0.5; dd[1] = 2;
  for (int k = 0; k < 2; k++) for (int p = 0; p < 2; p++) for (int c = 0; c < (k ? 9 : 4); c++) {
    char b[20]; sprintf(b, "ve%d%d%d", k, p, c); ve[k][p][c] = vx_real(b, 0.25, 4); sprintf(b, "vp%d%d%d", k, p, c); vp[k][p][c] = vx_real(b, 0.25, 4); xx[k][p][c] = 1 + p + c;
    (k ? mesh.phase_perc_s : mesh.phase_perc_n)[p][c] = c == 0 ? p : c == 8-5*(!k) ? 0 : (p ? 1-f : f);
  }
  for (int p = 0; p < 2; p++) for (int c = 0; c < 4; c++) { rr[p][c] = 3 + p + c; ww[p][c] = 2*p + c; pc[p][c] = 5 + p*c; }
  NonNewtonianViscosityGrid(&mesh, &I_.materials, &MODEL, (Nparams){0}, &I_.scaling, 0);
  double el = MODEL.elastic;
  for (int c = 0; c < 4; c++) {
    if (c == 3) { vx_check_eq(mesh.eta_n[c], 0, "air cell has no viscosity"); vx_check_eq(mesh.sxxd[c], 0, "air cell has no stress"); continue; }
    double g = c ? f : 0, e = c ? av(a, f, ve[0][0][c], ve[0][1][c]) : ve[0][1][c], te = el ? mesh.mu_n[c] : 1;
    vx_check(ncall[0][c] >= (c ? 2 : 1), "each phase present is evaluated");
    vx_check_eq(mesh.eta_n[c], e, "cell viscosity is the prescribed mean"); vx_check_eq(mesh.eta_phys_n[c], c ? av(a, f, vp[0][0][c], vp[0][1][c]) : vp[0][1][c], "physical cell viscosity is the prescribed mean");
    vx_check_eq(mesh.sxxd[c], 2*mesh.eta_n[c]*(mesh.exxd[c] + el*mesh.sxxd0[c]/te), "cell stress xx"); vx_check_eq(mesh.szzd[c], 2*mesh.eta_n[c]*(mesh.ezzd[c] + el*mesh.szzd0[c]/te), "cell stress zz"); vx_check_eq(mesh.sxz_n[c], 2*mesh.eta_n[c]*(mesh.exz_n[c] + el*mesh.sxz0_n[c]/te), "cell stress xz");
    double q = 1 - g; /* share of phase 1 */
    vx_check_eq(mesh.eII_el[c], 1 + q, "elastic strain rate share"); vx_check_eq(mesh.eII_pl[c], 2 + q, "plastic strain rate share"); vx_check_eq(mesh.eII_pwl[c], 3 + q, "dislocation creep share"); vx_check_eq(mesh.eII_exp[c], 4 + q, "Peierls share"); vx_check_eq(mesh.eII_lin[c], 5 + q, "diffusion creep share"); vx_check_eq(mesh.eII_gbs[c], 6 + q, "grain boundary sliding share"); vx_check_eq(mesh.eII_cst[c], 7 + q, "constant viscosity share");
    vx_check_eq(mesh.OverS_n[c], 8 + q, "overstress share"); vx_check_eq(mesh.div_u_el[c], 9 + q, "elastic divergence share"); vx_check_eq(mesh.div_u_pl[c], 10 + q, "plastic divergence share"); vx_check_eq(mesh.div_u_r[c], 11 + q, "reaction divergence share");
    vx_check_eq(mesh.Wtot[c], 12 + q, "work share"); vx_check_eq(mesh.Wel[c], 13 + q, "elastic work share"); vx_check_eq(mesh.Wdiss[c], c + 2*q, "dissipation share");
    vx_check_eq(mesh.X_n[c], 1 + c + q, "composition share"); vx_check_eq(mesh.p_corr[c], 5 + c*q, "corrected pressure share"); vx_check_eq(mesh.d_n[c]*(g/0.5 + q/2), 1, "grain size is the harmonic mean");
    vx_check_eq(mesh.rho_n[c], MODEL.density_variations ? 3 + c + q : 77, "density share");
  }
  for (int c = 0; c < 9; c++) {
    if (c == 8) { vx_check_eq(mesh.eta_s[c], 0, "air vertex has no viscosity"); continue; }
    double e = c ? av(a, f, ve[1][0][c], ve[1][1][c]) : ve[1][1][c], te = el ? mesh.mu_s[c] : 1, q = c ? 1 - f : 1;
    vx_check_eq(mesh.eta_s[c], e, "vertex viscosity is the prescribed mean"); vx_check_eq(mesh.eta_phys_s[c], c ? av(a, f, vp[1][0][c], vp[1][1][c]) : vp[1][1][c], "physical vertex viscosity is the prescribed mean");
    vx_check_eq(mesh.sxxd_s[c], 2*mesh.eta_s[c]*(mesh.exxd_s[c] + el*mesh.sxxd0_s[c]/te), "vertex stress xx"); vx_check_eq(mesh.szzd_s[c], 2*mesh.eta_s[c]*(mesh.ezzd_s[c] + el*mesh.szzd0_s[c]/te), "vertex stress zz"); vx_check_eq(mesh.sxz[c], 2*mesh.eta_s[c]*(mesh.exz[c] + el*mesh.sxz0[c]/te), "vertex stress xz");
    vx_check_eq(mesh.X_s[c], 1 + c + q, "vertex composition share");
  }
}
void vx_case_grid0(void) { gridcase(0); }
void vx_case_grid1(void) { gridcase(1); }
void vx_case_grid2(void) { gridcase(2); }
