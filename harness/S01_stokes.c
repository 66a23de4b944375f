/*VX {"default": {"budget": 240, "bounds": "see DESIGN.md"}} */
#include "stokes.h"

/* F(x + a*d) == F(x) + a * (operator * d): the assembled linear system is the exact response of the residual */
static void residual(double *fm, double *fc) {
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 0);
  for (int i = 0; i < St.neq_mom; i++) fm[i] = SA.F[i];
  for (int i = 0; i < St.neq_cont; i++) fc[i] = SC.F[i];
}
static void operator_vs_residual(void) {
  alloc();
  int nm = St.neq_mom, nc = St.neq_cont, ncc = (MODEL.Nx-1)*(MODEL.Nz-1);
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 1);
  double *f0 = malloc(nm*8), *g0 = malloc(nc*8), *f1 = malloc(nm*8), *g1 = malloc(nc*8), *d = malloc(St.neq*8);
  residual(f0, g0);
  mdx_fill(d, St.neq, "d", -4, 4);
  double alpha = vx_real("alpha", -2.5, 2.5);
  double *p_before = malloc(ncc*8);
  for (int i = 0; i < ncc; i++) p_before[i] = mesh.p_in[i];
  ExtractSolutions2(&St, &mesh, &MODEL, d, alpha);
  for (int i = 0; i < ncc; i++) mesh.p_corr[i] = mesh.p_in[i];
  stresses();
  residual(f1, g1);
  for (int i = 0; i < nm; i++) vx_check_eq(f1[i], f0[i] + alpha*(row(&SA, i, d) + row(&SB, i, d+nm)), "momentum residual does not respond as the assembled operator predicts");
  for (int c = 0; c < ncc; c++) if (mesh.BCp.type[c] == -1) {
    int i = St.eqn_p[c] - nm;
    double storage = MODEL.compressible ? mesh.dx*mesh.dz*mesh.bet_n[c]*(mesh.p_in[c]-p_before[c])/MODEL.dt : 0.0;
    vx_check_eq(g1[i], g0[i] + alpha*row(&SC, i, d) + storage, "continuity residual does not respond as the assembled operator predicts");
  }
  vx_check_eqi(SA.neq, nm, "number of momentum rows"); vx_check_eqi(SC.neq, nc, "number of continuity rows");
}
void vx_case_freeslip(void) {
  mdx_model(4, 4); mdx_box_sym(); mdx_grid();
  bcN = bcS = bcE = bcW = 0;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_noslip(void) {
  mdx_model(4, 4); mdx_box_sym(); mdx_grid();
  bcN = bcS = bcE = bcW = 1;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_mixed(void) {
  mdx_model(5, 4); mdx_box_sym(); mdx_grid();
  bcN = 0; bcS = 1; bcE = 1; bcW = 0;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_stressW(void) {
  mdx_model(4, 4); mdx_box_sym(); mdx_grid();
  bcN = 0; bcS = 0; bcE = 0; bcW = 2;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_stressN(void) {
  mdx_model(4, 4); mdx_box_sym(); mdx_grid();
  bcN = 2; bcS = 0; bcE = 0; bcW = 0;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_stressE(void) {
  mdx_model(4, 4); mdx_box_sym(); mdx_grid();
  bcN = 0; bcS = 0; bcE = 2; bcW = 0;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_stressS(void) {
  mdx_model(4, 4); mdx_box_sym(); mdx_grid();
  bcN = 0; bcS = 2; bcE = 0; bcW = 0;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_periodic(void) {
  mdx_model(5, 4); MODEL.periodic_x = 1; MODEL.bkg_strain_rate = vx_real("bkg", -2, 2); mdx_box_sym(); mdx_grid();
  build(); fields();
  for (int l = 0; l < MODEL.Nz; l++) mesh.eta_s[l*MODEL.Nx + MODEL.Nx-1] = mesh.eta_s[l*MODEL.Nx];
  stresses(); operator_vs_residual();
}
void vx_case_compressible(void) {
  mdx_model(4, 4); MODEL.compressible = 1; mdx_box_sym(); mdx_grid();
  bcN = bcE = 0; bcS = bcW = 1;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_outofplane(void) {
  mdx_model(4, 4); MODEL.compressible = 1; MODEL.out_of_plane = 1; mdx_box_sym(); mdx_grid();
  bcN = bcE = 1; bcS = bcW = 0;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_freesurface(void) {
  mdx_model(4, 5); mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  air(2);
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_stabilised(void) {
  mdx_model(4, 4); MODEL.free_surface_stab = 1.0; mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_allbc(void) {
  mdx_model(4, 4); MODEL.compressible = vx_int("comp", 0, 1); mdx_box_sym(); mdx_grid();
  bcN = vx_int("bcN", 0, 2); bcS = vx_int("bcS", 0, 2); bcE = vx_int("bcE", 0, 2); bcW = vx_int("bcW", 0, 2);
  build(); fields(); stresses(); operator_vs_residual();
}
void vx_case_periodicfull(void) {
  mdx_model(6, 5); MODEL.periodic_x = 1; MODEL.compressible = 1; MODEL.out_of_plane = 1; MODEL.free_surface_stab = 0.75;
  MODEL.bkg_strain_rate = vx_real("bkg", -2, 2); mdx_box_sym(); mdx_grid();
  build(); fields();
  for (int l = 0; l < MODEL.Nz; l++) mesh.eta_s[l*MODEL.Nx + MODEL.Nx-1] = mesh.eta_s[l*MODEL.Nx];
  stresses(); operator_vs_residual();
}
void vx_case_surfacefull(void) {
  mdx_model(6, 7); MODEL.compressible = 1; MODEL.free_surface_stab = 1.0; mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = vx_int("side", 0, 1);
  air(3);
  build(); fields(); stresses(); operator_vs_residual();
}
