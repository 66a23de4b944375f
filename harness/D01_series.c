/*VX {"default": {"budget": 200, "max_paths": 4000, "bounds": "2x2 and 3x2 cells, any subset of them empty (air) as long as one is not, all fields; any step number of the run"}} */
#include "mdx.h"
#include <math.h>
static double Xn[16], Sn[16], XS[16], SS[16];
static void series(int nx, int nz) {
  mdx_model(nx, nz); mdx_box(-1, 2, 1, 0.5); mdx_grid(); int ncx = nx-1, ncz = nz-1, n = ncx*ncz; double s[10] = {0}; int N = 0;
  mdx_fill(mesh.exxd, n, "exx", -4, 4); mdx_fill(mesh.ezzd, n, "ezz", -4, 4); mdx_fill(mesh.sxxd, n, "sxx", -4, 4); mdx_fill(mesh.szzd, n, "szz", -4, 4);
  mdx_fill(mesh.exz, nx*nz, "exz", -4, 4); mdx_fill(mesh.sxz, nx*nz, "sxz", -4, 4); mdx_fill(mesh.T, n, "T", 0.5, 4); mdx_fill(mesh.p_in, n, "p", -4, 4);
  for (int c = 0; c < n; c++) { int a = vx_int("air", 0, 2); mesh.BCp.type[c] = a == 0 ? -1 : a == 1 ? 30 : 31; if (a == 0) N++; }
  vx_assume(N > 0);
  ComputeMeanQuantitesForTimeSeries(&mesh);
  for (int c = 0; c < n; c++) if (mesh.BCp.type[c] == -1) {
    int v = c%ncx + (c/ncx)*nx; double e = (mesh.exz[v] + mesh.exz[v+1] + mesh.exz[v+nx] + mesh.exz[v+nx+1])/4, t = (mesh.sxz[v] + mesh.sxz[v+1] + mesh.sxz[v+nx] + mesh.sxz[v+nx+1])/4;
    s[0] += mesh.T[c]; s[1] += mesh.p_in[c]; s[2] += mesh.exxd[c]; s[3] += mesh.ezzd[c]; s[4] += e; s[5] += mesh.sxxd[c]; s[6] += mesh.szzd[c]; s[7] += t;
    s[8] += sqrt((mesh.exxd[c]*mesh.exxd[c] + mesh.ezzd[c]*mesh.ezzd[c])/2 + e*e); s[9] += sqrt((mesh.sxxd[c]*mesh.sxxd[c] + mesh.szzd[c]*mesh.szzd[c])/2 + t*t);
  }
  double *m[10] = {&mesh.T_mean, &mesh.P_mean, &mesh.exxd_mean, &mesh.ezzd_mean, &mesh.exz_mean, &mesh.sxxd_mean, &mesh.szzd_mean, &mesh.sxz_mean, &mesh.Eii_mean, &mesh.Tii_mean};
  for (int i = 0; i < 10; i++) vx_check_eq(*m[i]*N, s[i], "mean over the cells that hold material");
}
void vx_case_means(void) { series(3, 3); }
void vx_case_meanswide(void) { series(4, 2); }
void vx_case_meanstall(void) { series(2, 4); }
#define SER(F) F(Time, 0) F(Short, 1) F(Work, 2) F(Uthermal, 3) F(Uelastic, 4) F(T_mean, 5) F(P_mean, 6) F(sxxd_mean, 7) F(szzd_mean, 8) F(sxz_mean, 9) F(Tii_mean, 10) F(exxd_mean, 11) F(ezzd_mean, 12) F(exz_mean, 13) F(Eii_mean, 14)
void vx_case_record(void) {
  mdx_model(3, 3); mdx_box(-1, 2, 1, 0.5); mdx_grid(); double old[15][4], w[15];
#define A(f, i) mesh.f##_time = calloc(4, sizeof(double)); mdx_fill(mesh.f##_time, 4, #f, -4, 4); for (int j = 0; j < 4; j++) old[i][j] = mesh.f##_time[j];
  SER(A)
  double u[5]; mdx_fill(u, 5, "unit", 0.25, 4); I_.scaling.S = u[0]; I_.scaling.L = u[1]; I_.scaling.t = u[2]; I_.scaling.T = u[3]; I_.scaling.E = u[4];
  MODEL.step = vx_int("step", 0, 3); MODEL.Nt = 3; MODEL.time = vx_real("time", 0, 8); MODEL.L0 = vx_real("L0", 0.5, 8); MODEL.xmin = vx_real("xmin", -4, -0.25); MODEL.xmax = vx_real("xmax", 0.25, 4);
  double v[13]; mdx_fill(v, 13, "value", -4, 4);
  mesh.Work = v[0]; mesh.Uthermal = v[1]; mesh.Uelastic = v[2]; mesh.T_mean = v[3]; mesh.P_mean = v[4]; mesh.sxxd_mean = v[5]; mesh.szzd_mean = v[6]; mesh.sxz_mean = v[7]; mesh.Tii_mean = v[8]; mesh.exxd_mean = v[9]; mesh.ezzd_mean = v[10]; mesh.exz_mean = v[11]; mesh.Eii_mean = v[12];
  LogTimeSeries(&mesh, MODEL, I_.scaling);
  double en = u[0]*u[1]*u[1];
  w[0] = MODEL.time*u[2]; w[1] = 100*(1 - (MODEL.xmax - MODEL.xmin)/MODEL.L0); w[2] = v[0]*en; w[3] = v[1]*en; w[4] = v[2]*en; w[5] = v[3]*u[3]; w[6] = v[4]*u[0];
  for (int i = 7; i < 11; i++) w[i] = v[i-2]*u[0];
  for (int i = 11; i < 15; i++) w[i] = v[i-2]*u[4];
#define K(f, i) for (int j = 0; j < 4; j++) vx_check_eq(mesh.f##_time[j], j == MODEL.step ? w[i] : old[i][j], "recorded " #f);
  SER(K)
}
