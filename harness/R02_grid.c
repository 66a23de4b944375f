/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "3x3 nodes, two phases, all fields"} } */
#include "mdx.h"
/* stands for the property laws of one phase: distinct linear functions of the state */
static int seen;
double EvaluateDensity(int p, double T, double P, double X, double phi, params *mo, mat_prop *m) { return p ? 3 + T + 2*P + 3*X + 4*phi : 2 + 5*T + 6*P + 7*X + 8*phi; }
void PartialMelting(double *phi, double* hl, double P, double T, double phi0, double tk, double dt, int mm, scale *s) {
  vx_check_eq(dt, MODEL.dt, "melting uses the time step"); seen |= 1 << mm;
  *phi = mm == 1 ? 0.125 + T/16 + P/32 + phi0*tk : mm == 2 ? 0.25 + T/8 + P/64 + phi0*tk : 0; *hl = mm == 1 ? 3 : mm == 2 ? 5 : 0;
}
static mat_prop *M;
static double f;
static void init(void) {
  mdx_model(3, 3); M = &I_.materials; MODEL.Nb_phases = 2; MODEL.dt = 0.5; mdx_box(0, 0, 1, 0.5); mdx_grid(); f = vx_real("f", 0.125, 0.875);
  M->melt[0] = 1; M->melt[1] = 2; M->tau_kin[0] = 0.25; M->tau_kin[1] = 0.5;
  for (int c = 0; c < 4; c++) { mesh.phase_perc_n[0][c] = c == 0 ? 0 : c == 3 ? 0 : f; mesh.phase_perc_n[1][c] = c == 0 ? 1 : c == 3 ? 0 : 1 - f; }
  mdx_fill(mesh.T, 4, "T", 0.5, 4); mdx_fill(mesh.p_in, 4, "P", 0.5, 4); mdx_fill(mesh.X_n, 4, "X", 0, 1); mdx_fill(mesh.phi_n, 4, "ph", 0, 1);
  mesh.BCp.type[3] = 30;
}
static double mean(int c, double a, double b) { return c == 0 ? b : f*a + (1-f)*b; }
void vx_case_density(void) {
  init(); double *ph[2] = {mesh.phase_perc_n[0], mesh.phase_perc_n[1]}; int stale = vx_int("stale", 0, 1); if (stale) ph[0][3] = 1;
  UpdateDensity(&mesh, NULL, M, &MODEL, &I_.scaling);
  double r[4]; for (int c = 0; c < 4; c++) { double T = mesh.T[c], P = mesh.p_in[c], X = mesh.X_n[c], h = mesh.phi_n[c]; r[c] = c == 3 ? 0 : mean(c, 2 + 5*T + 6*P + 7*X + 8*h, 3 + T + 2*P + 3*X + 4*h); vx_check_eq(mesh.rho_n[c], r[c], "cell density is the phase mean, zero in the air"); }
  vx_check_eq(mesh.rho_s[4], (r[0] + r[1] + r[2] + r[3])/4, "vertex density is the mean of its cells");
  vx_check_eq(mesh.rho_s[1], (r[0] + r[1])/2, "boundary vertex density");
}
void vx_case_meltgrid(void) {
  init(); mdx_fill(mesh.phi0_n, 4, "ph0_", 0, 1);
  MeltFractionGrid(&mesh, NULL, M, &MODEL, &I_.scaling);
  for (int c = 0; c < 3; c++) { double T = mesh.T[c], P = mesh.p_in[c], h = mesh.phi0_n[c]; vx_check_eq(mesh.phi_n[c], mean(c, 0.125 + T/16 + P/32 + h/4, 0.25 + T/8 + P/64 + h/2), "cell melt fraction is the phase mean"); }
  vx_check_eq(mesh.phi_n[3], 0, "no melt where there is no rock");
}
void vx_case_alphacp(void) {
  init(); mdx_fill(mesh.phi0_n, 4, "ph0_", 0, 1); mdx_fill(mesh.rho_n, 4, "r", 0.5, 4); for (int p = 0; p < 2; p++) { M->Cp[p] = 2 + p; M->alp[p] = 3 + p; }
  int stale = vx_int("stale", 0, 1); if (stale) mesh.phase_perc_n[0][3] = 1;
  UpdateAlphaCp(&mesh, NULL, M, &MODEL, &I_.scaling);
  for (int c = 0; c < 4; c++) {
    if (c == 3) { vx_check_eq(mesh.Cp[c], 0, "air cells carry no heat capacity"); vx_check_eq(mesh.alp[c], 0, "air cells carry no expansivity"); continue; }
    vx_check_eq(mesh.Cp[c], mean(c, 2 + 3.0/16, 3 + 5.0/8), "heat capacity includes the latent heat of melting");
    vx_check_eq(mesh.alp[c], mean(c, 3 - 3.0/32*mesh.rho_n[c]/mesh.T[c], 4 - 5.0/64*mesh.rho_n[c]/mesh.T[c]), "expansivity includes the latent heat of melting");
  }
}
/* a phase that melts does not lend its latent heat to one that does not */
void vx_case_alphacpsolid(void) {
  init(); M->melt[1] = 0; mdx_fill(mesh.phi0_n, 4, "ph0_", 0, 1); mdx_fill(mesh.rho_n, 4, "r", 0.5, 4); for (int p = 0; p < 2; p++) { M->Cp[p] = 2 + p; M->alp[p] = 3 + p; }
  UpdateAlphaCp(&mesh, NULL, M, &MODEL, &I_.scaling);
  for (int c = 0; c < 3; c++) {
    vx_check_eq(mesh.Cp[c], mean(c, 2 + 3.0/16, 3), "heat capacity of a phase that does not melt");
    vx_check_eq(mesh.alp[c], mean(c, 3 - 3.0/32*mesh.rho_n[c]/mesh.T[c], 4), "expansivity of a phase that does not melt");
  }
}
void vx_case_source(void) {
  init(); mdx_fill(mesh.T0_n, 4, "T0_", 0.5, 4); mdx_fill(mesh.rho_n, 3, "r", 0.5, 4); for (int p = 0; p < 2; p++) { char b[9]; sprintf(b, "a%d", p); M->alp[p] = vx_real(b, 0, 1); M->rho[p] = 2 + p; }
  int stale = vx_int("stale", 0, 1); if (stale) mesh.phase_perc_n[0][3] = 1;
  MassSourceTerm(&mesh, NULL, M, &MODEL, &I_.scaling);
  for (int c = 0; c < 4; c++) {
    if (c == 3) { vx_check_eq(mesh.divth_n[c], 0, "air cells have no thermal expansion"); continue; }
    double h = (mesh.T[c] - mesh.T0_n[c])/0.5/mesh.rho_n[c]; vx_check_eq(mesh.divth_n[c], mean(c, M->alp[0]*2*h, M->alp[1]*3*h), "thermal expansion rate follows the temperature change");
  }
}
