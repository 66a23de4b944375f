/*VX {"default": {"budget": 200, "weight": 20, "bounds": "all ten phase diagrams and the kinetic table, the four scales arbitrary; tables of 3x2 to 1x4 arbitrary values read back, any unit"}, "diagrams": {"cflags": ["-DREC"]}, "kinetics": {"cflags": ["-DREC"]}, "onlyused": {"cflags": ["-DREC"]}} */
#include "mdx.h"
#include "include/mdoodz.h"
static char txt[2000]; static scale s; static double S_, R_;
static struct { char dir[40], name[60]; int nx, ny; double unit, *a; } rec[16]; static int nrec;
#ifdef REC
double *ReadBin(char *dir, char *name, int nx, int ny, double unit) { strcpy(rec[nrec].dir, dir); strcpy(rec[nrec].name, name); rec[nrec].nx = nx; rec[nrec].ny = ny; rec[nrec].unit = unit; return rec[nrec++].a = malloc(8); }
#endif
static void put(const char *k, double v) { char b[64]; vx_num(b, v); sprintf(txt + strlen(txt), "%s = %s\n", k, b); }
static void scales(void) {
  s.eta = vx_real("s_eta", 0.125, 8); s.L = vx_real("s_L", 0.125, 8); s.V = vx_real("s_V", 0.125, 8); s.T = vx_real("s_T", 0.125, 8); s.t = s.L/s.V; S_ = s.eta/s.t; R_ = S_*s.t*s.t/(s.L*s.L);
  txt[0] = 0; put("eta", s.eta); put("L", s.L); put("V", s.V); put("T", s.T); strcat(txt, "import_files_dir = imp/dir\n");
}
/* number of the diagram, file, points in T and p, range of T (K) and p (Pa) */
static const struct { const char *f; int nT, nP; double T0, T1, P0, P1; } PD[10] = {
  {"Hawaiian_Pyrolite_rho_bin.dat", 1000, 1000, 473, 2273, 100e6, 15e9}, {"Hawaiian_Pyrolite_HR_rho_bin.dat", 1500, 1500, 273, 2273, 1e5, 25e9}, {"MORB_H2Osat_rho_bin.dat", 1000, 1000, 573, 1273, 100e6, 5.1e9},
  {"Andesite.dat", 1249, 1249, 373, 1373, 10.13e6, 5.5816e9}, {"Hydrated_Pdt.dat", 793, 793, 373, 1373, 10.13e6, 5.5816e9}, {"MORB.dat", 1249, 1249, 373, 1373, 10.13e6, 5.5816e9}, {"Pelite.dat", 1249, 1249, 373, 1373, 10.13e6, 5.5816e9},
  {"Rhyolite.dat", 1249, 1249, 373, 1373, 10.13e6, 5.5816e9}, {"Serpentinite.dat", 793, 793, 373, 1373, 10.13e6, 5.5816e9}, {"SiO2_nsm010.dat", 675, 2500, 398.001, 1073, 0.9e6, 4998.9e6} };
static Input in;
static int find(double *a) { for (int i = 0; i < nrec; i++) if (rec[i].a == a) return i; return -1; }
static void eq(double got, double want, const char *w) { vx_check_eq(got/want, 1, w); }
void vx_case_diagrams(void) {
  scales(); strcat(txt, "Nb_phases = 2\nID = 0\ncstv = 1\nID = 1\ncstv = 1\ndensity_model = 2\nphase_diagram = 3\n"); vx_flag("exit_is_violation", 1); vx_file("s.txt", txt); in = ReadInputFile("s.txt");
  vx_check_eqi(in.model.isPD, 1, "phase diagrams are in use"); vx_check_eqi(in.materials.phase_diagram[1], 3, "the phase's diagram"); vx_check(in.model.num_PD >= 10, "number of diagrams");
  for (int p = 0; p < 10; p++) {
    int r = find(in.model.PDMrho[p]); vx_check(r >= 0, "a diagram has a table"); if (r < 0) continue;
    vx_check(!strcmp(rec[r].dir, "imp/dir") && !strcmp(rec[r].name, PD[p].f), "table of a diagram is read from its file"); vx_check(rec[r].nx == in.model.PDMnT[p] && rec[r].ny == in.model.PDMnP[p] && rec[r].nx == PD[p].nT && rec[r].ny == PD[p].nP, "size of a diagram");
    vx_check_eq(rec[r].unit, R_, "densities of a diagram are in kg/m3"); eq(in.model.PDMTmin[p]*s.T, PD[p].T0, "lowest temperature of a diagram"); eq(in.model.PDMTmax[p]*s.T, PD[p].T1, "highest temperature of a diagram");
    eq(in.model.PDMPmin[p]*S_, PD[p].P0, "lowest pressure of a diagram"); eq(in.model.PDMPmax[p]*S_, PD[p].P1, "highest pressure of a diagram");
  }
}
void vx_case_kinetics(void) {
  scales(); strcat(txt, "kinetics = 1\nNb_phases = 1\nID = 0\ncstv = 1\n"); vx_flag("exit_is_violation", 1); vx_file("s.txt", txt); in = ReadInputFile("s.txt");
  int r = find(in.model.kin_dG); vx_check_eqi(nrec, 1, "only the kinetic table is read"); vx_check(r == 0 && !strcmp(rec[0].dir, "imp/dir") && !strcmp(rec[0].name, "dG_QuartzCoesite.dat"), "the kinetic table is read from its file"); vx_check_eqi(in.model.isPD, 0, "no phase diagram");
  vx_check(rec[0].nx == in.model.kin_nT && rec[0].ny == in.model.kin_nP && rec[0].nx == 675 && rec[0].ny == 2500, "size of the kinetic table"); vx_check_eq(rec[0].unit, S_*s.L*s.L*s.L, "energies of the kinetic table are in J");
  eq(in.model.kin_Tmin*s.T, 398.001, "lowest temperature of the table"); eq(in.model.kin_Tmax*s.T, 1073, "highest temperature of the table"); eq(in.model.kin_Pmin*S_, 0.9e6, "lowest pressure of the table"); eq(in.model.kin_Pmax*S_, 4998.9e6, "highest pressure of the table");
}
/* a phase that needs a diagram but names none is refused; without such a phase nothing is read */
void vx_case_onlyused(void) {
  int dm = vx_int("dm", 1, 3), pd = vx_int("pd", -1, 9); txt[0] = 0; sprintf(txt, "Nb_phases = 1\nID = 0\ncstv = 1\ndensity_model = %d\nphase_diagram = %d\n", dm, pd);
  vx_flag("exit_is_violation", dm != 2 || pd >= 0); vx_file("s.txt", txt); in = ReadInputFile("s.txt");
  vx_check(dm != 2 || pd >= 0, "a phase diagram model without a diagram is refused"); vx_check_eqi(nrec > 0, dm == 2, "diagrams are read when a phase uses one"); vx_check_eqi(in.model.isPD, dm == 2, "phase diagrams in use");
}
#ifndef REC
static void bin(int nx, int ny) {
  double w[8]; mdx_fill(w, nx*ny, "w", -4, 4); double u = vx_real("unit", 0.25, 4); FILE *f = fopen("./tab.dat", "wb"); if (f) { fwrite(w, sizeof(double), nx*ny, f); fclose(f); }
  double *a = ReadBin(".", "tab.dat", nx, ny, u); for (int i = 0; i < nx*ny; i++) vx_check_eq(a[i]*u, w[i], "a table is read in file order and made dimensionless");
}
void vx_case_bin32(void) { bin(3, 2); }
void vx_case_bin14(void) { bin(1, 4); }
void vx_case_binmissing(void) { int m = vx_int("missing", 0, 1); double w = 2; vx_flag("exit_is_violation", !m); if (!m) { FILE *f = fopen("./tab.dat", "wb"); if (f) { fwrite(&w, 8, 1, f); fclose(f); } } ReadBin(".", "tab.dat", 1, 1, 1); vx_check_eqi(m, 0, "a missing table stops the run"); }
#endif
