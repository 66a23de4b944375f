/*VX {"default": {"budget": 300, "bounds": "grids up to 5x5 nodes; all compositions, diffusivities, spacings and boundary values symbolic; every solution of the linear system"}} */
#include "stokes.h"
#include "ssmodel.h"
void MinMaxArrayTag( double* array, double scale, int size, char* text, char* tag ) { }
void MinMaxArray( double* array, double scale, int size, char* text ) { }
static int tW, tE, tS, tN; static double vW[8], vE[8], vS[8], vN[8];
static SetBC myC(MdoodzInput *in, POSITION p, Coordinates c, double X) {
  SetBC b; b.type = -1; b.value = 0; int k = c.k, l = c.l;
  if (p == W) { b.type = tW; b.value = vW[l]; }
  if (p == E) { b.type = tE; b.value = vE[l]; }
  if (p == S) { b.type = tS; b.value = vS[k]; }
  if (p == N) { b.type = tN; b.value = vN[k]; }
  return b;
}
static void run(int nx, int nz) {
  mdx_model(nx, nz); mdx_box_sym(); mdx_grid(); MODEL.chemical_diffusion = 1;
  int ncx = nx-1, ncz = nz-1, n = ncx*ncz;
  MODEL.dx = mesh.dx; MODEL.dz = mesh.dz;
  for (int i = 0; i < n; i++) mesh.BCc.type[i] = 0;
  mdx_fill(vW, ncz, "vW", 0, 8); mdx_fill(vE, ncz, "vE", 0, 8); mdx_fill(vS, ncx, "vS", 0, 8); mdx_fill(vN, ncx, "vN", 0, 8);
  ff.SetBCC = myC; bcN = bcS = bcE = bcW = 0;
  MODEL.periodic_x = tW == -2; build();
  mdx_fill(mesh.kc_x, nx*(nz+1), "kx", 0.5, 4); mdx_fill(mesh.kc_z, (nx+1)*nz, "kz", 0.5, 4);
  mesh.kc_x[0] = 0.25; mesh.kc_x[1] = 64;
  if (tW == -2) for (int l = 1; l < nz; l++) mesh.kc_x[l*nx + nx-1] = mesh.kc_x[l*nx];
  mdx_fill(mesh.X_n, n, "X", 0, 8); double dt = vx_real("dt", 0.0625, 4), dx = mesh.dx, dz = mesh.dz;
  double X0[64]; for (int i = 0; i < n; i++) X0[i] = mesh.X_n[i];
  ssm_lo = 0; ssm_hi = 8; markers m; memset(&m, 0, sizeof m); vx_flag("exit_is_violation", 1);
  ChemicalDirectSolve(&mesh, MODEL, &m, &I_.materials, dt, I_.scaling);
  vx_check_eqi(ssm_nsolve, 1, "one solve"); vx_check_eqi(ssm_n[0], n, "one equation per cell");
  double *r = ssm_r[0], *x = ssm_x[0];
  for (int l = 0; l < ncz; l++) for (int k = 0; k < ncx; k++) {
    int c = k + l*ncx; double q = 0;
    double kW = mesh.kc_x[k + (l+1)*nx], kE = mesh.kc_x[k+1 + (l+1)*nx], kS = mesh.kc_z[k+1 + l*(nx+1)], kN = mesh.kc_z[k+1 + (l+1)*(nx+1)];
    if (k > 0)          q += kW*(x[c-1] - x[c])/dx/dx;
    else if (tW == 1)   q += 2*kW*(vW[l] - x[c])/dx/dx;
    else if (tW == -2)  q += kW*(x[c+ncx-1] - x[c])/dx/dx;
    if (k < ncx-1)      q += kE*(x[c+1] - x[c])/dx/dx;
    else if (tE == 1)   q += 2*kE*(vE[l] - x[c])/dx/dx;
    else if (tE == -2)  q += kE*(x[c-ncx+1] - x[c])/dx/dx;
    if (l > 0)          q += kS*(x[c-ncx] - x[c])/dz/dz;
    else if (tS == 1)   q += 2*kS*(vS[k] - x[c])/dz/dz;
    else if (tS == 0)   q += -vS[k]/dz;
    if (l < ncz-1)      q += kN*(x[c+ncx] - x[c])/dz/dz;
    else if (tN == 1)   q += 2*kN*(vN[k] - x[c])/dz/dz;
    vx_check_eq(r[c], (x[c] - X0[c])/dt - q, "composition stored in a cell differs from the net diffusive inflow");
    vx_check_eq(mesh.X_n[c], x[c], "composition of each cell after the step");
  }
}
void vx_case_sides(void) { tW = vx_int("tW", 0, 1); tE = vx_int("tE", 0, 1); tS = vx_int("tS", 0, 1); tN = vx_int("tN", 0, 1); run(4, 4); }
void vx_case_periodic(void) { tW = tE = -2; tS = vx_int("tS", 0, 1); tN = 1; run(5, 4); }
void vx_case_tall(void) { tW = tE = 0; tS = 0; tN = 0; run(4, 6); }
