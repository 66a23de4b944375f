/*VX {"default": {"budget": 300, "bounds": "grids up to 5x5 nodes (4x4 cells); all temperatures, properties, sources, spacings and boundary values symbolic; every solution of the linear system"}} */
#include "stokes.h"
#include "ssmodel.h"
void MinMaxArrayTag( double* array, double scale, int size, char* text, char* tag ) { }
static int tW, tE, tS, tN, tF, top[8], surf; static double vW[8], vE[8], vS[8], vN[8], vF[8];
static SetBC myT(MdoodzInput *in, POSITION p, Coordinates c, double T) {
  SetBC b; b.type = -1; b.value = 0; int k = c.k, l = c.l;
  if (p == W) { b.type = tW; b.value = vW[l]; }
  if (p == E) { b.type = tE; b.value = vE[l]; }
  if (p == S) { b.type = tS; b.value = vS[k]; }
  if (p == N) { b.type = tN; b.value = vN[k]; }
  if (p == free_surface) { b.type = tF; b.value = vF[k]; }
  return b;
}
static int isair(int k, int l) { return surf && l >= top[k]; }
static double *T0_;
static void setup(int nx, int nz) {
  mdx_model(nx, nz); mdx_box_sym(); mdx_grid(); MODEL.thermal = 1;
  int ncx = nx-1, ncz = nz-1;
  MODEL.dx = mesh.dx; MODEL.dz = mesh.dz;
  mdx_fill(vW, ncz, "vW", 0, 8); mdx_fill(vE, ncz, "vE", 0, 8); mdx_fill(vS, ncx, "vS", 0, 8); mdx_fill(vN, ncx, "vN", 0, 8);
  if (surf) { mdx_fill(vF, ncx, "vF", 0, 8);
    for (int l = 0; l < ncz; l++) for (int k = 0; k < ncx; k++) if (isair(k, l)) { mesh.BCt.type[k+l*ncx] = 30; mesh.BCp.type[k+l*ncx] = l == top[k] ? 31 : 30; } }
  ff.SetBCT = myT; bcN = bcS = bcE = bcW = 0;
  int per = MODEL.periodic_x; MODEL.periodic_x = tW == -2; build(); MODEL.periodic_x = per;
  mdx_fill(mesh.kx, nx*(nz+1), "kx", 0.5, 4); mdx_fill(mesh.kz, (nx+1)*nz, "kz", 0.5, 4);
  /* which face has the smallest / largest conductivity does not matter: fix it, so that the search for it does not branch */
  mesh.kx[0] = 0.25; mesh.kx[1] = 64;
  if (tW == -2) for (int l = 1; l < nz; l++) mesh.kx[l*nx + nx-1] = mesh.kx[l*nx];
  mdx_fill(mesh.rho_n, ncx*ncz, "rho", 0.5, 4); mdx_fill(mesh.Cp, ncx*ncz, "Cp", 0.5, 4); mdx_fill(mesh.T, ncx*ncz, "T", 0, 8);
  mdx_fill(mesh.Qr, ncx*ncz, "Qr", -2, 2); mdx_fill(mesh.Wdiss, ncx*ncz, "W", -2, 2); mdx_fill(mesh.alp, ncx*ncz, "alp", 0, 2);
  mdx_fill(mesh.p_in, ncx*ncz, "p", -4, 4); mdx_fill(mesh.p0_n, ncx*ncz, "p0", -4, 4); mdx_fill(mesh.v_in, (nx+1)*nz, "v", -4, 4);
  MODEL.gz = vx_real("gz", -8, 0); MODEL.dt = vx_real("dt", 0.0625, 4);
  ssm_lo = 0; ssm_hi = 8;
}
static void solve(int shear, int adiab, double dt, int nit) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1, n = ncx*ncz;
  T0_ = malloc(n*8); for (int i = 0; i < n; i++) T0_[i] = mesh.T[i];
  double dx = mesh.dx, dz = mesh.dz, U0 = vx_real("U0", -4, 4); markers m; memset(&m, 0, sizeof m);
  mesh.Uthermal = U0; vx_flag("exit_is_violation", 1);
  EnergyDirectSolve(&mesh, MODEL, NULL, &m, dt, shear, adiab, I_.scaling, nit);
  vx_check_eqi(ssm_nsolve, nit, "one solve per time step");
  double dU = 0;
  for (int it = 0; it < nit; it++) {
    double *r = ssm_r[it], *x = ssm_x[it]; int e = 0, eq[64];
    for (int c = 0; c < n; c++) { eq[c] = -1; if (!isair(c%ncx, c/ncx)) eq[c] = e++; }
    vx_check_eqi(e, ssm_n[it], "one equation per rock cell");
    for (int l = 0; l < ncz; l++) for (int k = 0; k < ncx; k++) {
      int c = k + l*ncx; if (eq[c] < 0) continue;
      double Tn = x[eq[c]], To = T0_[c], rc = mesh.rho_n[c]*mesh.Cp[c];
      double kW = mesh.kx[k + (l+1)*nx], kE = mesh.kx[k+1 + (l+1)*nx], kS = mesh.kz[k+1 + l*(nx+1)], kN = mesh.kz[k+1 + (l+1)*(nx+1)], km = 0.25*(kW+kE+kS+kN), q = 0;
      int fs = l < ncz-1 && isair(k, l+1) && tF == 1;
      if (k > 0)          q += isair(k-1, l) ? (fs ? 2*km*(vF[k] - Tn)/dx/dx : 0) : kW*(x[eq[c-1]] - Tn)/dx/dx;
      else if (tW == 1)   q += 2*kW*(vW[l] - Tn)/dx/dx;
      else if (tW == -2)  q += kW*(x[eq[c+ncx-1]] - Tn)/dx/dx;
      if (k < ncx-1)      q += isair(k+1, l) ? (fs ? 2*km*(vF[k] - Tn)/dx/dx : 0) : kE*(x[eq[c+1]] - Tn)/dx/dx;
      else if (tE == 1)   q += 2*kE*(vE[l] - Tn)/dx/dx;
      else if (tE == -2)  q += kE*(x[eq[c-ncx+1]] - Tn)/dx/dx;
      if (l > 0)          q += kS*(x[eq[c-ncx]] - Tn)/dz/dz;
      else if (tS == 1)   q += 2*kS*(vS[k] - Tn)/dz/dz;
      else if (tS == 0)   q += -vS[k]/dz;                   /* prescribed heat flux through the base */
      if (l < ncz-1)      q += isair(k, l+1) ? (fs ? 2*km*(vF[k] - Tn)/dz/dz : 0) : kN*(x[eq[c+ncx]] - Tn)/dz/dz;
      else if (tN == 1)   q += 2*kN*(vN[k] - Tn)/dz/dz;
      q += mesh.Qr[c];
      if (shear == 1) q += mesh.Wdiss[c];
      if (adiab == 1) q += To*mesh.alp[c]*mesh.rho_n[c]*MODEL.gz*0.5*(mesh.v_in[k+1 + l*(nx+1)] + mesh.v_in[k+1 + (l+1)*(nx+1)]);
      if (adiab == 2) q += To*mesh.alp[c]*(mesh.p_in[c] - mesh.p0_n[c])/MODEL.dt;
      vx_check_eq(r[eq[c]], rc*(Tn - To)/dt - q, "heat stored in a cell differs from conduction plus sources");
      dU += rc*(Tn - To)*dx*dz;
    }
    for (int c = 0; c < n; c++) T0_[c] = eq[c] >= 0 ? x[eq[c]] : zeroC;
  }
  for (int c = 0; c < n; c++) vx_check_eq(mesh.T[c], T0_[c], "temperature of each cell after the step (air at zero Celsius)");
  vx_check_eq(mesh.Uthermal, U0 + dU, "thermal energy bookkeeping");
}
void vx_case_sides(void) {        /* all combinations of insulated / fixed-temperature / fixed-flux sides */
  tW = vx_int("tW", 0, 1); tE = vx_int("tE", 0, 1); tS = vx_int("tS", 0, 1); tN = vx_int("tN", 0, 1);
  setup(4, 4); solve(1, 0, MODEL.dt, 1);
}
void vx_case_sources(void) {
  tW = tE = 0; tS = 0; tN = 1;
  setup(4, 5); int sh = vx_int("shear", 0, 1), ad = vx_int("adiab", 0, 2); solve(sh, ad, MODEL.dt, 1);
}
void vx_case_periodic(void) {
  tW = tE = -2; tS = vx_int("tS", 0, 1); tN = 1;
  setup(5, 4); solve(0, 1, MODEL.dt, 1);
}
void vx_case_surface(void) {      /* staircase free surface, fixed temperature on it */
  surf = 1; tW = tE = 0; tS = 1; tN = 0; tF = vx_int("tF", 0, 1);
  for (int k = 0; k < 4; k++) top[k] = 2;
  int s = vx_int("shape", 0, 3); if (s == 1) top[1] = 3; if (s == 2) top[2] = 1; if (s == 3) { top[0] = 3; top[1] = 1; }
  setup(5, 5); solve(1, 0, MODEL.dt, 1);
}
void vx_case_steps(void) {        /* initial thermal equilibration: several steps with one factorisation */
  tW = tE = 0; tS = 1; tN = 1;
  setup(4, 4); double dt = vx_real("dts", 0.125, 2); solve(0, 0, dt, 3);
}
void vx_case_equilibration(void) {
  tW = tE = 0; tS = 1; tN = 1; setup(3, 3);
  double tot = vx_real("total", 1, 8); markers m; memset(&m, 0, sizeof m); int n = 4; double a = mesh.rho_n[0]*mesh.Cp[0];
  ThermalSteps(&mesh, MODEL, NULL, &m, tot, I_.scaling);
  vx_check_eqi(ssm_nsolve, 10, "ten steps");
}
void vx_case_perturbation(void) {
  mdx_model(3, 3); mdx_box(-1, 0, 1, 0.5); mdx_grid(); mdx_fill(mesh.T, 4, "T", 0, 8);
  MODEL.therm_perturb_dT = vx_real("dT", -2, 2); MODEL.therm_perturb_x0 = vx_real("px", -2, 2); MODEL.therm_perturb_z0 = vx_real("pz", -2, 2);
  MODEL.therm_perturb_rad_x = 0.5*vx_int("rx", 1, 2); MODEL.therm_perturb_rad_z = 0.25;
  double T[4]; for (int i = 0; i < 4; i++) T[i] = mesh.T[i];
  SetThermalPert(&mesh, MODEL, I_.scaling);
  for (int i = 0; i < 4; i++) {
    double x = -0.5 + i%2, z = 0.25 + 0.5*(i/2), a = (x-MODEL.therm_perturb_x0)/MODEL.therm_perturb_rad_x, b = (z-MODEL.therm_perturb_z0)/MODEL.therm_perturb_rad_z;
    if (a*a + b*b < 1) vx_check_eq(mesh.T[i], T[i] + MODEL.therm_perturb_dT, "inside the ellipse the perturbation is added"); else vx_check_eq(mesh.T[i], T[i], "outside the ellipse nothing changes");
  }
}
