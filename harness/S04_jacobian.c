/*VX {"default": {"budget": 240, "bounds": "grids 5x5 to 6x6 nodes; every entry of the tangent tensor symbolic and independent per cell and vertex"}} */
#include "stokes.h"
/* arbitrary tangent tensor; stress responds linearly to strain rate and pressure */
static double *Dn[8], *Ds[4];
static int isotropic;
static void tangent(void) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  double *a[8] = {mesh.D11_n, mesh.D12_n, mesh.D13_n, mesh.D14_n, mesh.D21_n, mesh.D22_n, mesh.D23_n, mesh.D24_n};
  double *b[4] = {mesh.D31_s, mesh.D32_s, mesh.D33_s, mesh.D34_s};
  const char *n[8] = {"D11_", "D12_", "D13_", "D14_", "D21_", "D22_", "D23_", "D24_"}, *m[4] = {"D31_", "D32_", "D33_", "D34_"};
  for (int i = 0; i < 8; i++) { Dn[i] = a[i]; if (!isotropic || i == 0 || i == 5) mdx_fill(a[i], ncx*ncz, n[i], -4, 4); }
  for (int i = 0; i < 4; i++) { Ds[i] = b[i]; if (!isotropic || i == 2) mdx_fill(b[i], nx*nz, m[i], -4, 4); }
  for (int i = 0; i < ncx*ncz; i++) if (mesh.BCp.type[i] != -1) for (int k = 0; k < 8; k++) Dn[k][i] = 0;
  for (int i = 0; i < nx*nz; i++) if (mesh.BCg.type[i] == 30) for (int k = 0; k < 4; k++) Ds[k][i] = 0;
  if (MODEL.periodic_x) for (int l = 0; l < nz; l++) for (int i = 0; i < 4; i++) Ds[i][l*nx + nx-1] = Ds[i][l*nx];
}
static void response(double *fm) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  StrainRateComponents(&mesh, I_.scaling, &MODEL);
  for (int i = 0; i < ncx*ncz; i++) {
    double e[4] = {mesh.exxd[i], mesh.ezzd[i], 2.0*mesh.exz_n[i], mesh.p_in[i]};
    mesh.sxxd[i] = mesh.szzd[i] = 0;
    for (int k = 0; k < 4; k++) { mesh.sxxd[i] += Dn[k][i]*e[k]; mesh.szzd[i] += Dn[k+4][i]*e[k]; }
  }
  double *ps = calloc(nx*nz, sizeof(double));
  InterpCentroidsToVerticesDouble(mesh.p_in, ps, &mesh, &MODEL);
  for (int i = 0; i < nx*nz; i++) mesh.sxz[i] = Ds[0][i]*mesh.exxd_s[i] + Ds[1][i]*mesh.ezzd_s[i] + Ds[2][i]*2.0*mesh.exz[i] + Ds[3][i]*ps[i];
  EvaluateRHS(&mesh, MODEL, I_.scaling, 0.0);
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 0);
  for (int i = 0; i < St.neq_mom; i++) fm[i] = SA.F[i];
}
static void newton(int margin) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncc = (nx-1)*(nz-1);
  alloc();
  SAlloc(&JA, St.neq_mom); SAlloc(&JB, St.neq_mom); SAlloc(&JC, St.neq_cont); SAlloc(&JD, St.neq_cont);
  int nm = St.neq_mom;
  EvaluateRHS(&mesh, MODEL, I_.scaling, 0.0);
  BuildJacobianOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &JA, &JB, &JC, &JD, 1);
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 1);
  double *f0 = malloc(nm*8), *f1 = malloc(nm*8), *d = malloc(St.neq*8), *zero = calloc(St.neq, 8);
  response(f0);
  mdx_fill(d, St.neq, "d", -4, 4);
  ExtractSolutions2(&St, &mesh, &MODEL, d, 1.0);
  for (int i = 0; i < ncc; i++) mesh.p_corr[i] = mesh.p_in[i];
  response(f1);
  for (int l = 1; l < nz; l++) for (int k = 0; k < nx; k++) {
    int c = k + l*nx, t = mesh.BCu.type[c];
    if (t != -1 && t != -2) continue;
    if ((t == -1 && !MODEL.periodic_x && (k < 1+margin || k >= nx-1-margin)) || l < 1+margin || l >= nz-margin) continue;
    int i = St.eqn_u[c];
    vx_check_eq(f1[i] - f0[i], row(&JA, i, d) + row(&JB, i, d+nm), "the Newton operator is not the derivative of the horizontal momentum residual");
  }
  for (int l = 1; l < nz-1; l++) for (int k = 1; k < nx; k++) {
    int c = k + l*(nx+1), t = mesh.BCv.type[c];
    if (t != -1) continue;
    if ((!MODEL.periodic_x && (k < 1+margin || k >= nx-margin)) || l < 1+margin || l >= nz-1-margin) continue;
    int i = St.eqn_v[c];
    vx_check_eq(f1[i] - f0[i], row(&JA, i, d) + row(&JB, i, d+nm), "the Newton operator is not the derivative of the vertical momentum residual");
  }
  for (int i = 0; i < St.neq_cont; i++) vx_check_eq(row(&JC, i, d), row(&SC, i, d), "the Newton and Picard divergence differ");
}
void vx_case_interior(void) {
  mdx_model(6, 6); MODEL.compressible = 1; MODEL.out_of_plane = vx_int("oop", 0, 1); mdx_box_sym(); mdx_grid();
  bcN = bcS = bcE = bcW = 0;
  build(); fields(); tangent(); newton(1);
}
void vx_case_noslip(void) {
  mdx_model(5, 6); MODEL.compressible = 1; mdx_box_sym(); mdx_grid();
  bcN = bcS = bcE = bcW = 1;
  build(); fields(); tangent(); newton(1);
}
void vx_case_periodicint(void) {
  mdx_model(5, 6); MODEL.compressible = 1; MODEL.periodic_x = 1; MODEL.bkg_strain_rate = vx_real("bkg", -2, 2); mdx_box_sym(); mdx_grid();
  build(); fields(); tangent(); newton(1);
}
void vx_case_isotropic(void) {
  isotropic = 1;
  mdx_model(5, 5); MODEL.compressible = 1; mdx_box_sym(); mdx_grid();
  bcN = bcE = vx_int("a", 0, 1); bcS = bcW = vx_int("b", 0, 1);
  build(); fields(); tangent(); newton(0);
}
void vx_case_isoperiodic(void) {
  isotropic = 1;
  mdx_model(5, 5); MODEL.compressible = 1; MODEL.out_of_plane = vx_int("oop", 0, 1); MODEL.periodic_x = 1; MODEL.bkg_strain_rate = vx_real("bkg", -2, 2); mdx_box_sym(); mdx_grid();
  build(); fields(); tangent(); newton(0);
}
void vx_case_freesurface(void) {
  mdx_model(6, 7); MODEL.compressible = 1; mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  air(4); isotropic = 1;
  build(); fields(); tangent(); newton(0);
}
