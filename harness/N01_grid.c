/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "3x3 nodes, two phases, all fields", "math_approx": true}, "grid2": {"exp_hom": true, "math_approx": false}, "factor": {"exp_hom": true, "math_approx": false}} */
#include "part.h"
static double ve[2][2][9], vp[2][2][9], rr[2][4], ww[2][4], pc[2][4], xx[2][2][9], dd[2]; static int ncall[2][9], avg; static double E_[2][9][3];
/* stands for the rheology of one phase at one point: arbitrary results, arguments checked */
static int T4[4][2] = { { 3, 4 }, { -12, 5 }, { 1, 0 }, { 8, -15 } }; static double qd(double a, double b) { return a/b; }
static double CN(int k, int c) { int *t = T4[(c+k)%4], r = t[0] == 3 ? 5 : t[1] == 5 ? 13 : t[0] == 1 ? 1 : 17; return qd(t[0], r); } static double SN(int k, int c) { int *t = T4[(c+k)%4], r = t[0] == 3 ? 5 : t[1] == 5 ? 13 : t[0] == 1 ? 1 : 17; return qd(t[1], r); } static double AN(int k, int c) { int *t = T4[(c+k)%4]; return atan2(t[1], t[0]); }
static void near(double a, double b, const char *s) { double d = a - b; vx_check_le(d, 1e-9, s); vx_check_le(-d, 1e-9, s); } static double DEL(int k, int c) { return 1 + 0.5*c + k; }
/* strain rate to stress over 2 eta, shear along the layering (normal at angle AN) divided by the anisotropy factor */
static void law(int k, int c, double a, double b, double g, double *xx, double *zz, double *xz) {
  double n = CN(k, c), m = SN(k, c), lx = m, lz = -n, e = lx*(a*n + g*m) + lz*(g*n + b*m), w = (1 - 1/DEL(k, c))*e; *xx = a - w*2*n*lx; *zz = b - w*2*m*lz; *xz = g - w*(lx*m + lz*n);
}
double ViscosityConciseAniso( int p, double lxlz, double lx2, double angle, double afac, double G, double T, double P, double d, double phi, double X0, double Exx, double Ezz, double Exz, double Txx0, double Tzz0, double Txz0, mat_prop* m, params *mo, scale *sc, double *Txx, double *Tzz, double *Txz, double* etaVE, double* Eel, double* Epl, double* Epwl, double* Eexp, double *Elin, double* Egbs, double* Ecst, double *d1, double sa, double dil, double fric, double C, double P0, double T0,  double *X1, double *OverS, double *Pcorr, double *rho, double beta, double div, double *dve, double *dvp, double *dvr, double *Wtot, double *Wel, double *Wdiss, int pp, int cent, int fu, int c ) {
  int k = cent ? 0 : 1; ncall[k][c]++;
  double el = mo->elastic, te = el ? mo->dt*G*2 : 1; grid *g = &mesh;
  vx_check(cent == 0 || cent == 1, "centre flag"); vx_check_eqi(pp, 1, "post-processing on"); vx_check_eq(sa, cent ? g->strain_n[c] : g->strain_s[c], "strain of the point"); vx_check_eq(div, cent ? g->div_u[c] : g->div_u_s[c], "divergence of the point");
  vx_check_eq(G, cent ? g->mu_n[c] : g->mu_s[c], "shear modulus of the point"); vx_check_eq(fric, cent ? g->fric_n[c] : g->fric_s[c], "friction of the point"); vx_check_eq(dil, cent ? g->dil_n[c] : g->dil_s[c], "dilation of the point");
  vx_check_eq(C, cent ? g->C_n[c] : g->C_s[c], "cohesion of the point"); vx_check_eq(P0, cent ? g->p0_n[c] : g->p0_s[c], "old pressure of the point"); vx_check_eq(beta, cent ? g->bet_n[c] : g->bet_s[c], "compressibility of the point");
  vx_check_eq(X0, cent ? g->X0_n[c] : g->X0_s[c], "composition of the point");
  vx_check_eq(Txx0, cent ? g->sxxd0[c] : g->sxxd0_s[c], "old stress xx"); vx_check_eq(Tzz0, cent ? g->szzd0[c] : g->szzd0_s[c], "old stress zz"); vx_check_eq(Txz0, cent ? g->sxz0_n[c] : g->sxz0[c], "old stress xz");
  double bx = cent ? g->exxd[c] : g->exxd_s[c], bz = cent ? g->ezzd[c] : g->ezzd_s[c], bs = cent ? g->exz_n[c] : g->exz[c], o0, o1, o2; law(k, c, Exx - bx, Ezz - bz, Exz - bs, &o0, &o1, &o2);
  vx_check_eq(te*o0, el*Txx0, "the effective strain rate adds what carries the old stress xx"); vx_check_eq(te*o1, el*Tzz0, "the effective strain rate adds what carries the old stress zz"); vx_check_eq(te*o2, el*Txz0, "the effective strain rate adds what carries the old stress xz");
  if (avg != 2) near(lxlz, -CN(k, c)*SN(k, c), "orientation of the layering"); if (avg != 2) near(lx2, SN(k, c)*SN(k, c), "orientation of the layering"); vx_check_eq(afac, DEL(k, c), "anisotropy factor of the point"); E_[k][c][0] = Exx; E_[k][c][1] = Ezz; E_[k][c][2] = Exz;
  if (cent) { vx_check_eq(T, g->T[c], "temperature"); vx_check_eq(P, g->p_in[c], "pressure"); vx_check_eq(d, g->d0_n[c], "grain size"); vx_check_eq(phi, g->phi0_n[c], "melt"); vx_check_eq(T0, g->T0_n[c], "old temperature"); }
  else { vx_check_eq(T, g->T_s[c], "temperature (vertex)"); vx_check_eq(P, g->P_s[c], "pressure (vertex)"); vx_check_eq(d, g->d0_s[c], "grain size (vertex)"); vx_check_eq(phi, g->phi0_s[c], "melt (vertex)"); }
  *Txx = *Tzz = *Txz = 0; *etaVE = ve[k][p][c]; *Eel = 1 + p; *Epl = 2 + p; *Epwl = 3 + p; *Eexp = 4 + p; *Elin = 5 + p; *Egbs = 6 + p; *Ecst = 7 + p; *d1 = dd[p]; *X1 = xx[k][p][c]; *OverS = 8 + p; *Pcorr = cent ? pc[p][c] : 0; *rho = cent ? rr[p][c] : 0;
  *dve = 9 + p; *dvp = 10 + p; *dvr = 11 + p; *Wtot = 12 + p; *Wel = 13 + p; *Wdiss = cent ? ww[p][c] : 0;
  return vp[k][p][c];
}
static double av(int a, double f, double x, double y) { return a == 0 ? f*x + (1-f)*y : a == 1 ? 1/(f/x + (1-f)/y) : exp(f*log(x) + (1-f)*log(y)); }
static void gridcase(int a) { avg = a;
  mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); MODEL.Nb_phases = 2; MODEL.anisotropy = 1; mdx_grid();
  for (int k = 0; k < 2; k++) for (int c = 0; c < (k ? 9 : 4); c++) { double n = CN(k, c), m = SN(k, c); (k ? mesh.d1_s : mesh.d1_n)[c] = 2*n*n*m*m; (k ? mesh.d2_s : mesh.d2_n)[c] = n*m*(m*m - n*n); (k ? mesh.angle_s : mesh.angle_n)[c] = AN(k, c); (k ? mesh.aniso_factor_s : mesh.aniso_factor_n)[c] = DEL(k, c); }
  MODEL.eta_average = a; MODEL.elastic = vx_int("el", 0, 1); MODEL.dt = 0.5; MODEL.step = 1; MODEL.density_variations = vx_int("var", 0, 1);
  double f = vx_real("f", 0.125, 0.875);
  double *fn[] = {mesh.exxd, mesh.ezzd, mesh.exz_n, mesh.sxxd0, mesh.szzd0, mesh.sxz0_n, mesh.T, mesh.p_in, mesh.X0_n}, *fs[] = {mesh.exxd_s, mesh.ezzd_s, mesh.exz, mesh.sxxd0_s, mesh.szzd0_s, mesh.sxz0, mesh.X0_s};
  for (int i = 0; i < 9; i++) { char b[9]; sprintf(b, "n%d_", i); mdx_fill(fn[i], 4, b, 0.5, 4); }
  for (int i = 0; i < 7; i++) { char b[9]; sprintf(b, "s%d_", i); mdx_fill(fs[i], 9, b, 0.5, 4); }
  for (int c = 0; c < 4; c++) { mesh.mu_n[c] = 1 + c; mesh.fric_n[c] = 2 + c; mesh.dil_n[c] = 3 + c; mesh.C_n[c] = 4 + c; mesh.p0_n[c] = 5 + c; mesh.bet_n[c] = 6 + c; mesh.d0_n[c] = 7 + c; mesh.phi0_n[c] = 8 + c; mesh.T0_n[c] = 9 + c; mesh.rho_n[c] = 77; mesh.strain_n[c] = 10 + c; mesh.div_u[c] = 11 + c; }
  for (int c = 0; c < 9; c++) { mesh.mu_s[c] = 1 + c; mesh.fric_s[c] = 2 + c; mesh.dil_s[c] = 3 + c; mesh.C_s[c] = 4 + c; mesh.p0_s[c] = 5 + c; mesh.bet_s[c] = 6 + c; mesh.strain_s[c] = 7 + c; mesh.div_u_s[c] = 8 + c; }
  /* cell 3 is air with its outer vertices; cell 0 is pure phase 1, others are mixed */
  mesh.BCp.type[3] = 30; mesh.BCg.type[8] = 30; dd[0] = 0.5; dd[1] = 2;
  for (int k = 0; k < 2; k++) for (int p = 0; p < 2; p++) for (int c = 0; c < (k ? 9 : 4); c++) {
    char b[20]; sprintf(b, "ve%d%d%d", k, p, c); ve[k][p][c] = vx_real(b, 0.25, 4); sprintf(b, "vp%d%d%d", k, p, c); vp[k][p][c] = vx_real(b, 0.25, 4); xx[k][p][c] = 1 + p + c;
    (k ? mesh.phase_perc_s : mesh.phase_perc_n)[p][c] = c == 0 ? p : c == 8-5*(!k) ? 0 : (p ? 1-f : f);
  }
  for (int p = 0; p < 2; p++) for (int c = 0; c < 4; c++) { rr[p][c] = 3 + p + c; ww[p][c] = 2*p + c; pc[p][c] = 5 + p*c; }
  NonNewtonianViscosityGridAniso(&mesh, &I_.materials, &MODEL, (Nparams){0}, &I_.scaling, 0);
  for (int c = 0; c < 4; c++) {
    if (c == 3) { vx_check_eq(mesh.eta_n[c], 0, "air cell has no viscosity"); vx_check_eq(mesh.sxxd[c], 0, "air cell has no stress"); continue; }
    double g = c ? f : 0, e = c ? av(a, f, ve[0][0][c], ve[0][1][c]) : ve[0][1][c];
    vx_check(ncall[0][c] >= (c ? 2 : 1), "each phase present is evaluated");
    vx_check_eq(mesh.eta_n[c], e, "cell viscosity is the prescribed mean"); vx_check_eq(mesh.eta_phys_n[c], c ? av(a, f, vp[0][0][c], vp[0][1][c]) : vp[0][1][c], "physical cell viscosity is the prescribed mean");
    double o0, o1, o2; law(0, c, E_[0][c][0], E_[0][c][1], E_[0][c][2], &o0, &o1, &o2); vx_check_eq(mesh.sxxd[c], 2*e*o0, "cell stress xx"); vx_check_eq(mesh.szzd[c], 2*e*o1, "cell stress zz"); vx_check_eq(mesh.sxz_n[c], 2*e*o2, "cell stress xz");
    double q = 1 - g; /* share of phase 1 */
    vx_check_eq(mesh.eII_el[c], 1 + q, "elastic strain rate share"); vx_check_eq(mesh.eII_pl[c], 2 + q, "plastic strain rate share"); vx_check_eq(mesh.eII_pwl[c], 3 + q, "dislocation creep share"); vx_check_eq(mesh.eII_exp[c], 4 + q, "Peierls share"); vx_check_eq(mesh.eII_lin[c], 5 + q, "diffusion creep share"); vx_check_eq(mesh.eII_gbs[c], 6 + q, "grain boundary sliding share"); vx_check_eq(mesh.eII_cst[c], 7 + q, "constant viscosity share");
    vx_check_eq(mesh.OverS_n[c], 8 + q, "overstress share"); vx_check_eq(mesh.div_u_el[c], 9 + q, "elastic divergence share"); vx_check_eq(mesh.div_u_pl[c], 10 + q, "plastic divergence share"); vx_check_eq(mesh.div_u_r[c], 11 + q, "reaction divergence share");
    vx_check_eq(mesh.Wtot[c], 12 + q, "work share"); vx_check_eq(mesh.Wel[c], 13 + q, "elastic work share"); vx_check_eq(mesh.Wdiss[c], c + 2*q, "dissipation share");
    vx_check_eq(mesh.X_n[c], 1 + c + q, "composition share"); vx_check_eq(mesh.p_corr[c], 5 + c*q, "corrected pressure share"); vx_check_eq(mesh.d_n[c]*(g/0.5 + q/2), 1, "grain size is the harmonic mean");
    vx_check_eq(mesh.rho_n[c], MODEL.density_variations ? 3 + c + q : 77, "density share");
  }
  for (int c = 0; c < 9; c++) {
    if (c == 8) { vx_check_eq(mesh.eta_s[c], 0, "air vertex has no viscosity"); continue; }
    double e = c ? av(a, f, ve[1][0][c], ve[1][1][c]) : ve[1][1][c], q = c ? 1 - f : 1;
    vx_check_eq(mesh.eta_s[c], e, "vertex viscosity is the prescribed mean"); vx_check_eq(mesh.eta_phys_s[c], c ? av(a, f, vp[1][0][c], vp[1][1][c]) : vp[1][1][c], "physical vertex viscosity is the prescribed mean");
    double o0, o1, o2; law(1, c, E_[1][c][0], E_[1][c][1], E_[1][c][2], &o0, &o1, &o2); vx_check_eq(mesh.sxxd_s[c], 2*e*o0, "vertex stress xx"); vx_check_eq(mesh.szzd_s[c], 2*e*o1, "vertex stress zz"); vx_check_eq(mesh.sxz[c], 2*e*o2, "vertex stress xz");
    vx_check_eq(mesh.X_s[c], 1 + c + q, "vertex composition share");
  }
}
void vx_case_grid0(void) { gridcase(0); }
void vx_case_grid1(void) { gridcase(1); }
void vx_case_grid2(void) { gridcase(2); }
/* anisotropy factor: a constant of the phase, or the finite strain aspect ratio up to a maximum */
void vx_case_factor(void) { vx_flag("exit_is_violation", 1);
  mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); MODEL.Nb_phases = 2; MODEL.anisotropy = 1; MODEL.finite_strain = 1; mdx_grid(); int a = MODEL.ani_average = vx_int("average", 0, 2); int per = MODEL.periodic_x = vx_int("periodic", 0, 1); MODEL.eta_average = 1;
  double f = vx_real("f", 0.125, 0.875), mx = vx_real("max", 1, 16), d0 = vx_real("delta", 1, 16), ar = vx_real("ratio", 1, 16); mat_prop *m = &I_.materials; int w = vx_int("evolves", 0, 1);
  m->ani_fstrain[0] = w; m->ani_fstrain[1] = 1 - w; for (int p = 0; p < 2; p++) { m->aniso_factor[p] = p == w ? d0 : 77; m->ani_fac_max[p] = p == w ? 55 : mx; }
  mesh.BCp.type[3] = 30; mesh.BCg.type[8] = 30; if (per) mesh.BCg.type[6] = 30; if (vx_int("surf", 0, 1)) mesh.BCp.type[2] = 31; double ev = ar < mx ? ar : mx;
  for (int c = 0; c < 4; c++) { mesh.FS_AR_n[c] = ar; for (int p = 0; p < 2; p++) mesh.phase_perc_n[p][c] = c == 3 ? 0 : p ? 1-f : f; }
  for (int c = 0; c < 9; c++) { mesh.FS_AR_s[c] = ar; for (int p = 0; p < 2; p++) mesh.phase_perc_s[p][c] = c == 8 ? 0 : c == 3 ? p == w : p ? 1-f : f; }
  UpdateAnisoFactor(&mesh, m, &MODEL, &I_.scaling); double v = av(a, f, w ? ev : d0, w ? d0 : ev); 
  for (int c = 0; c < 4; c++) vx_check_eq(mesh.aniso_factor_n[c], mesh.BCp.type[c] == -1 || mesh.BCp.type[c] == 0 ? v : 0, "anisotropy factor of a cell is the mean of its phases");
  for (int c = 0; c < 8; c++) { if (per && c == 6) continue; double h = c == 3 ? d0 : v; if (per && (c == 3 || c == 5)) h = 0.5*(d0 + v); vx_check_eq(mesh.aniso_factor_s[c], h, "anisotropy factor of a vertex is the mean of its phases"); }
}
/* layers as weak as their surroundings are no reason to stop, whatever the mean */
void vx_case_isotropic(void) {
  vx_flag("exit_is_violation", 1); mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); MODEL.Nb_phases = 2; MODEL.anisotropy = 1; MODEL.finite_strain = 1; mdx_grid(); MODEL.ani_average = vx_int("average", 0, 2); double f = vx_real("f", 0.125, 0.875); int e = vx_int("evolves", 0, 1);
  for (int p = 0; p < 2; p++) { I_.materials.ani_fstrain[p] = e; I_.materials.aniso_factor[p] = 1; I_.materials.ani_fac_max[p] = 10; for (int c = 0; c < 9; c++) { mesh.FS_AR_s[c] = 1; mesh.phase_perc_s[p][c] = p ? 1-f : f; if (c < 4) { mesh.FS_AR_n[c] = 1; mesh.phase_perc_n[p][c] = p ? 1-f : f; } } }
  UpdateAnisoFactor(&mesh, &I_.materials, &MODEL, &I_.scaling);
  for (int c = 0; c < 4; c++) vx_check_eq(mesh.aniso_factor_n[c], 1, "isotropic phases give an isotropic cell"); for (int c = 0; c < 9; c++) vx_check_eq(mesh.aniso_factor_s[c], 1, "isotropic phases give an isotropic vertex");
}
void vx_case_director(void) {
  mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); MODEL.Nb_phases = 2; MODEL.anisotropy = 1; mdx_grid(); part_alloc(3, 3); MODEL.marker_aniso_angle = vx_int("own", 0, 1); mk.phase[0] = 1; mk.phase[1] = -1; mk.phase[2] = 0;
  double q[2], g[3]; for (int i = 0; i < 2; i++) I_.materials.aniso_angle[i] = q[i] = vx_int(i ? "b" : "a", -2, 3)*0.5; if (MODEL.marker_aniso_angle) { mk.aniso_angle = calloc(3, sizeof(double)); for (int i = 0; i < 3; i++) mk.aniso_angle[i] = 2 - i*0.25; }
  for (int i = 0; i < 3; i++) { g[i] = MODEL.marker_aniso_angle ? 2 - i*0.25 : q[i == 0]; mk.nx[i] = mk.nz[i] = 9; } InitialiseDirectorVector(&mesh, &mk, &MODEL, &I_.materials, 1);
  for (int i = 0; i < 3; i++) { near(mk.nx[i], i == 1 ? 9 : cos(g[i]), "director of a marker"); near(mk.nz[i], i == 1 ? 9 : sin(g[i]), "director of a marker"); }
}
void vx_case_unit(void) {
  mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); MODEL.Nb_phases = 2; MODEL.anisotropy = 1; mdx_grid(); mesh.BCp.type[3] = 30; mesh.BCg.type[8] = 30;
  double nx = vx_real("nx", 0.0625, 2), nz = vx_real("nz", -2, 2), B_[4][9], *A[4] = { B_[0], B_[1], B_[2], B_[3] }; for (int c = 0; c < 9; c++) for (int i = 0; i < 4; i++) if (i > 1 || c < 4) A[i][c] = c == 3+5*(i>1) ? 0 : i & 1 ? nz*(1 + c) : nx*(1 + c);
  NormalizeDirector(&mesh, A[0], A[1], A[2], A[3], &MODEL);
  for (int c = 0; c < 9; c++) for (int s = 0; s < 2; s++) { if (!s && c > 3) continue; double a = A[2*s][c], b = A[2*s+1][c]; if (c == 3 + 5*s) { vx_check(a == 0 && b == 0, "air is left alone"); continue; } vx_check_eq(a*a + b*b, 1, "unit length"); vx_check_eq(a*nz, b*nx, "same direction"); vx_check_lt(0, a, "same sense"); }
}
