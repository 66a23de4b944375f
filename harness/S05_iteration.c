/*VX {"default": {"budget": 300, "bounds": "grids 4x4 to 7x7 nodes; all fields, increments and trial residuals symbolic"}} */
#include "stokes.h"
void ScaleVelocitiesRHSBack(SparseMat *StokesA, SparseMat *StokesD, double *x);
/* ---- diagonal scaling ---- */
static double *cp(double *a, int n) { double *b = malloc(n*sizeof(double)); for (int i = 0; i < n; i++) b[i] = a[i]; return b; }
static void scaled(void) {
  alloc();
  int nm = St.neq_mom, nc = St.neq_cont;
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 1);
  double *A0 = cp(SA.A, SA.nnz), *B0 = cp(SB.A, SB.nnz), *C0 = cp(SC.A, SC.nnz);
  ExtractDiagonalScale(&SA, &SB, &SC, &SD);
  ScaleMatrix(&SA, &SB, &SC, &SD);
  double *y = malloc(St.neq*8), *x = malloc(St.neq*8);
  mdx_fill(y, St.neq, "y", -4, 4);
  for (int i = 0; i < St.neq; i++) x[i] = y[i];
  ScaleVelocitiesRHSBack(&SA, &SD, x);
  for (int i = 0; i < nm; i++) {
    double s = row(&SA, i, y) + row(&SB, i, y+nm), o = 0;
    for (int k = SA.Ic[i]; k < SA.Ic[i+1]; k++) o += A0[k]*x[SA.J[k]];
    for (int k = SB.Ic[i]; k < SB.Ic[i+1]; k++) o += B0[k]*x[nm + SB.J[k]];
    vx_check_eq(s, SA.d[i]*o, "solving the scaled momentum rows and scaling back solves the original rows");
  }
  for (int i = 0; i < nc; i++) {
    double s = row(&SC, i, y), o = 0;
    for (int k = SC.Ic[i]; k < SC.Ic[i+1]; k++) o += C0[k]*x[SC.J[k]];
    vx_check_eq(s, SC.d[i]*o, "solving the scaled continuity rows and scaling back solves the original rows");
  }
  /* the residual carries the same factors; the stored residual fields do not */
  double *f = malloc(nm*8), *g = malloc(nc*8);
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 0);
  for (int i = 0; i < nm; i++) f[i] = SA.F[i];
  for (int i = 0; i < nc; i++) g[i] = SC.F[i];
  Nparams nm_; memset(&nm_, 0, sizeof nm_);
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  EvaluateStokesResidualDecoupled(&St, &SA, &SB, &SC, &SD, &nm_, &mesh, MODEL, I_.scaling, 1);
  for (int i = 0; i < nm; i++) vx_check_eq(SA.F[i], SA.d[i]*f[i], "scaled momentum residual");
  for (int i = 0; i < nc; i++) vx_check_eq(SD.F[i], SD.d[i]*g[i], "scaled continuity residual");
  for (int c = 0; c < nx*(nz+1); c++) { int t = mesh.BCu.type[c]; if (t == -1 || t == 2 || t == -2) vx_check_eq(mesh.ru[c], f[St.eqn_u[c]], "stored horizontal momentum residual"); }
  for (int c = 0; c < (nx+1)*nz; c++) { int t = mesh.BCv.type[c]; if (t == -1 || t == 2) vx_check_eq(mesh.rv[c], f[St.eqn_v[c]], "stored vertical momentum residual"); }
  double sp = 0; int np = 0;
  for (int c = 0; c < ncx*ncz; c++) if (mesh.BCp.type[c] == -1) { double r = g[St.eqn_p[c] - nm]; vx_check_eq(mesh.rp[c], r, "stored continuity residual"); sp += r*r; np++; }
  vx_check_eq(nm_.resp, sqrt(sp/np), "continuity residual norm");
  vx_check_eq(nm_.resp0, nm_.resp, "the first residual is the reference");
}
void vx_case_scaling(void) {
  mdx_model(6, 6); MODEL.compressible = vx_int("comp", 0, 1); mdx_box_sym(); mdx_grid();
  bcN = bcW = 0; bcS = bcE = 1;
  build(); fields(); stresses(); scaled();
}
void vx_case_scalingperiodic(void) {
  mdx_model(6, 6); MODEL.periodic_x = 1; MODEL.bkg_strain_rate = vx_real("bkg", -2, 2); mdx_box_sym(); mdx_grid();
  build(); fields();
  for (int l = 0; l < MODEL.Nz; l++) mesh.eta_s[l*MODEL.Nx + MODEL.Nx-1] = mesh.eta_s[l*MODEL.Nx];
  stresses(); scaled();
}
void vx_case_scalingsurface(void) {
  mdx_model(6, 8); mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  air(5);
  build(); fields(); stresses(); scaled();
}
/* ---- line search and update: the linear solver and the re-evaluation of the residual are arbitrary ---- */
static double *U0, *V0, *P0, *sol;
void KillerSolver( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  SparseMat *matD, DirectSolver *pardi, double *rhs_mom, double *rhs_cont, double *x, params model, grid *mesh, scale scaling, SparseMat *Stokes, SparseMat *Jacobian, SparseMat *JmatA,  SparseMat *JmatB,  SparseMat *JmatC ) {
  for (int i = 0; i < Stokes->neq; i++) x[i] = sol[i];
}
void UpdateNonLinearity( grid* mesh, markers* particles, markers* topo_chain, surface *topo, mat_prop materials, params *model, Nparams *Nmodel, scale scaling, int mode, int h_contin ) { }
static int sE = 1, sN = 0, per;
static void start(void) {
  mdx_model(4, 4); MODEL.periodic_x = per; mdx_box(0, 0, 1, 0.5); mdx_grid();
  bcN = sN; bcW = 0; bcS = 1; bcE = sE;
  build(); fields(); stresses(); alloc();
  MODEL.lin_solver = 2;
  int nx = MODEL.Nx, nz = MODEL.Nz;
  U0 = cp(mesh.u_in, nx*(nz+1)); V0 = cp(mesh.v_in, (nx+1)*nz); P0 = cp(mesh.p_in, (nx-1)*(nz-1));
  sol = malloc(St.neq*8); mdx_fill(sol, St.neq, "sol", -4, 4);
}
/* default step: the full correction is subtracted from every unknown, boundary values untouched */
static void update(void) {
  start();
  MODEL.diag_scaling = vx_int("scaling", 0, 1);
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 1);
  Nparams np_; memset(&np_, 0, sizeof np_); markers m, tc; memset(&m, 0, sizeof m); memset(&tc, 0, sizeof tc);
  if (MODEL.diag_scaling) { mdx_fill(SA.d, St.neq_mom, "dA", 0.125, 8); mdx_fill(SD.d, St.neq_cont, "dD", 0.125, 8); }
  SolveStokesDefectDecoupled(&SA, &SB, &SC, &SD, &St, NULL, &np_, &mesh, &MODEL, &m, &tc, &topo, I_.materials, I_.scaling, &SA, &SB, &SC);
  int nx = MODEL.Nx, nz = MODEL.Nz;
  for (int c = 0; c < nx*(nz+1); c++) {
    int t = mesh.BCu.type[c], e = St.eqn_u[c];
    if (t == -1 || t == 2 || t == -2) vx_check_eq(mesh.u_in[c], U0[c] - SA.d[e]*sol[e], "horizontal velocity after one correction");
    if (t == -12) vx_check_eq(mesh.u_in[c], mesh.u_in[c-nx+1], "periodic sides carry one horizontal velocity");
    if (t == 0)  vx_check_eq(mesh.u_in[c], mesh.BCu.val[c], "prescribed horizontal velocity is kept");
  }
  for (int c = 0; c < (nx+1)*nz; c++) {
    int t = mesh.BCv.type[c], e = St.eqn_v[c];
    if (t == -1 || t == 2) vx_check_eq(mesh.v_in[c], V0[c] - SA.d[e]*sol[e], "vertical velocity after one correction");
    if (t == 0)  vx_check_eq(mesh.v_in[c], mesh.BCv.val[c], "prescribed vertical velocity is kept");
  }
  for (int c = 0; c < (nx-1)*(nz-1); c++) { int e = St.eqn_p[c]; vx_check_eq(mesh.p_in[c], P0[c] - SD.d[e-St.neq_mom]*sol[e], "pressure after one correction"); }
  /* ghost values follow the side conditions */
  for (int k = 0; k < nx; k++) {
    vx_check_eq(0.5*(mesh.u_in[k] + mesh.u_in[k+nx]), mesh.BCu.type[k] == 11 ? 0.5*mesh.BCu.val[k] : mesh.u_in[k+nx], "south side condition after the update");
    int a = k + nz*nx, b = a - nx;
    vx_check_eq(0.5*(mesh.u_in[a] + mesh.u_in[b]), mesh.BCu.type[a] == 11 ? 0.5*mesh.BCu.val[a] : mesh.u_in[b], "north side condition after the update");
  }
  for (int l = 0; l < nz; l++) {
    int a = l*(nx+1), b = a+1;
    if (per) { vx_check_eq(mesh.v_in[a], mesh.v_in[a+nx-1], "west ghost is the periodic image"); vx_check_eq(mesh.v_in[a+nx], mesh.v_in[a+1], "east ghost is the periodic image"); continue; }
    vx_check_eq(0.5*(mesh.v_in[a] + mesh.v_in[b]), mesh.BCv.type[a] == 11 ? 0.5*mesh.BCv.val[a] : mesh.v_in[b], "west side condition after the update");
    a = l*(nx+1) + nx; b = a-1;
    vx_check_eq(0.5*(mesh.v_in[a] + mesh.v_in[b]), mesh.BCv.type[a] == 11 ? 0.5*mesh.BCv.val[a] : mesh.v_in[b], "east side condition after the update");
  }
}
void vx_case_update(void) { update(); }
void vx_case_updatestress(void) { sE = 2; sN = 2; update(); }
void vx_case_updateperiodic(void) { per = 1; update(); }
