/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "2x2 cells, two phases, one softening; all strains, parameters and fractions"} } */
#include "mdx.h"
static double sn[4], ss[9];
/* stands for the transfer of accumulated plastic strain from the markers */
void P2Mastah(params *mo, markers pa, DoodzFP *mp, grid *m, double *F, char *tag, int flag, int avg, int prop, int cent, int st) { for (int i = 0; i < (cent ? 4 : 9); i++) F[i] = cent ? sn[i] : ss[i]; vx_check_eqi(flag, 1, "marker values are averaged"); vx_check_eqi(avg, 0, "arithmetic mean"); vx_check_eqi(prop, 0, "not a phase fraction"); }
/* strain softening: from the intact to the weakened value between the two strains */
static void soft(int style) {
  mdx_model(3, 3); mat_prop *M = &I_.materials; MODEL.Nb_phases = 2; mdx_box(0, 0, 1, 0.5); MODEL.marker_noise = vx_int("noise", 0, 1); mdx_grid(); MODEL.smooth_softening = style;
  double f = vx_real("f", 0.125, 0.875); for (int c = 0; c < 4; c++) { mesh.phase_perc_n[0][c] = c == 1 ? f : 1; mesh.phase_perc_n[1][c] = c == 1 ? 1-f : 0; mesh.noise_n[c] = 0.25; }
  for (int c = 0; c < 9; c++) { mesh.phase_perc_s[0][c] = c == 4 ? f : 1; mesh.phase_perc_s[1][c] = c == 4 ? 1-f : 0; mesh.noise_s[c] = 0.25; } mesh.BCp.type[3] = 30; mesh.BCg.type[8] = 30; mesh.BCp.type[2] = 31;
  M->phi[0] = 0.5; M->phi[1] = vx_real("phi1", 0.25, 1); M->psi[0] = 0.25; M->psi[1] = vx_real("psi1", 0.0625, 1); M->C[0] = 2; M->C[1] = vx_real("C1", 0.25, 4);
  M->phi_end[1] = vx_real("phie", 0.0625, style ? 0.1875 : 1); M->psi_end[1] = vx_real("psie", 0.03125, style ? 0.046875 : 1); M->C_end[1] = vx_real("Ce", 0.125, style ? 0.1875 : 4);
  int on[3] = {vx_int("sf", 0, 1), vx_int("sd", 0, 1), vx_int("sc", 0, 1)}; M->phi_soft[1] = on[0]; M->psi_soft[1] = on[1]; M->coh_soft[1] = on[2]; M->pls_start[0] = 1; M->pls_end[0] = 2;
  double e0 = style ? 1 : vx_real("e0", 0, 2), de = style ? 0.5 : vx_real("de", 0.125, 2), t = vx_real("s", style ? -1 : -2, 2); M->pls_start[1] = e0; M->pls_end[1] = e0 + de; double e = e0 + t*de; vx_assume_le(0, e); sn[1] = ss[4] = e;
  markers pa; memset(&pa, 0, sizeof(pa)); CohesionFrictionDilationGrid(&mesh, &pa, *M, MODEL, I_.scaling);
  double nz = MODEL.marker_noise ? 1.25 : 1, w = t < 0 ? 0 : t > 1 ? 1 : t;
  double p0[3] = {0.5, 0.25, 2}, p1[3] = {M->phi[1], M->psi[1], M->C[1]}, pe[3] = {M->phi_end[1], M->psi_end[1], M->C_end[1]};
  for (int v = 0; v < 2; v++) {
    double *F[3] = {v ? mesh.fric_s : mesh.fric_n, v ? mesh.dil_s : mesh.dil_n, v ? mesh.C_s : mesh.C_n};
    for (int i = 0; i < 3; i++) {
      double n = i == 2 ? nz : 1;
      for (int c = 0; c < (v ? 9 : 4); c++) if (c != (v ? 4 : 1)) vx_check_eq(F[i][c], (v ? c == 8 : c >= 2) ? 0 : n*p0[i], "a phase without softening keeps its value; air has none");
      double x = (F[i][v ? 4 : 1]/n - f*p0[i])/(1-f);
      if (!on[i]) vx_check_eq(x, p1[i], "no softening where it is off");
      else if (style == 0) vx_check_eq(x, p1[i] + w*(pe[i] - p1[i]), "linear decrease between the two strains");
      else { double num = 2 - erfc(-(e - e0 - de/2)/de), den = 2 - erfc((e0 + de/2)/de); vx_check_eq((x - pe[i])*den, (p1[i] - pe[i])*num, "smooth decrease centred between the two strains, starting from the intact value"); }
    }
  }
}
void vx_case_linear(void) { soft(0); }
void vx_case_smooth(void) { soft(1); }
