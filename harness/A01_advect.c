/*VX {"default": {"fabs_fork": true, "budget": 300, "max_paths": 20000, "bounds": "3x3 to 4x3 nodes, 1-2 markers anywhere in the box, all velocities, spacings and time steps allowed by a Courant number of one half"}} */
#include "part.h"
static double hat(double d) { if (d < 0) d = -d; return d < 1 ? 1 - d : 0; }
static void tags(void) { for (int i = 0; i < mesh.Nx*(mesh.Nz+1); i++) mesh.BCu.type[i] = -1; for (int i = 0; i < (mesh.Nx+1)*mesh.Nz; i++) mesh.BCv.type[i] = -1; }
static double vx_, vz_;
static void v2p(int corr) { V2P(&vx_, &vz_, &mk, mesh.u_in, mesh.v_in, mesh.xg_coord, mesh.zg_coord, mesh.zvx_coord, mesh.xvz_coord, mesh.Nx, mesh.Nz, mesh.Nz+1, mesh.Nx+1, mesh.BCu.type, mesh.BCv.type, mesh.dx, mesh.dz, 0, corr); }
/* velocity seen by a marker = bilinear interpolant of the staggered velocities */
static void velocity(int nx, int nz) {
  mdx_model(nx, nz); mdx_box_sym(); mdx_grid(); tags(); part_alloc(1, 1); part_sym(0);
  mdx_fill(mesh.u_in, nx*(nz+1), "u", -8, 8); mdx_fill(mesh.v_in, (nx+1)*nz, "v", -8, 8);
  v2p(0);
  double u = 0, v = 0;
  for (int j = 0; j < nz+1; j++) for (int i = 0; i < nx; i++) u += hat(ps_[0]-i)*hat(pt_[0]-j+0.5)*mesh.u_in[i + nx*j];
  for (int j = 0; j < nz; j++) for (int i = 0; i < nx+1; i++) v += hat(ps_[0]-i+0.5)*hat(pt_[0]-j)*mesh.v_in[i + (nx+1)*j];
  vx_check_eq(vx_, u, "horizontal marker velocity is not the interpolated grid velocity");
  vx_check_eq(vz_, v, "vertical marker velocity is not the interpolated grid velocity");
}
void vx_case_velocity(void) { velocity(3, 3); }
void vx_case_velocitytall(void) { velocity(2, 4); }
void vx_case_velocitywide(void) { velocity(4, 2); }
/* any linear flow is seen exactly, also with the conservative correction */
static double lu(double a, double b, double c, double x, double z) { return a + b*x + c*z; }
static double L[6];
static void linear(void) {
  mdx_fill(L, 6, "l", -2, 2);
  for (int j = 0; j < mesh.Nz+1; j++) for (int i = 0; i < mesh.Nx; i++) mesh.u_in[i + mesh.Nx*j] = lu(L[0], L[1], L[2], i, j - 0.5);
  for (int j = 0; j < mesh.Nz; j++) for (int i = 0; i < mesh.Nx+1; i++) mesh.v_in[i + (mesh.Nx+1)*j] = lu(L[3], L[4], L[5], i - 0.5, j);
}
static void linflow(int nx, int nz) {
  mdx_model(nx, nz); mdx_box_sym(); mdx_grid(); tags(); part_alloc(1, 1); part_sym(0); linear();
  v2p(vx_int("corr", 0, 1));
  vx_check_eq(vx_, lu(L[0], L[1], L[2], ps_[0], pt_[0]), "horizontal velocity of a linear flow is not exact at a marker");
  vx_check_eq(vz_, lu(L[3], L[4], L[5], ps_[0], pt_[0]), "vertical velocity of a linear flow is not exact at a marker");
}
void vx_case_linear(void) { linflow(4, 4); }
void vx_case_lineartall(void) { linflow(3, 5); }
void vx_case_linearwide(void) { linflow(5, 3); }
/* conservative correction: interior second differences, weight (d-1/2)^2/2, on the marker's side */
void vx_case_conserv(void) {
  mdx_model(4, 4); mdx_box(-1, 0.5, 2, 1); mdx_grid(); tags(); part_alloc(1, 1);
  part_at(0, vx_real("s", 1.0009765625, 1.9990234375), vx_real("t", 1.0009765625, 1.9990234375));
  mdx_fill(mesh.u_in, 20, "u", -8, 8); mdx_fill(mesh.v_in, 20, "v", -8, 8);
  v2p(1);
  double fs = ps_[0] - 1, ft = pt_[0] - 1, u[2], v[2];
  int j0 = pt_[0] < 1.5 ? 1 : 2, i0 = ps_[0] < 1.5 ? 1 : 2;
  for (int q = 0; q < 2; q++) {
    double *r = mesh.u_in + 4*(j0 + q);
    u[q] = r[1]*(1-fs) + r[2]*fs + 0.5*(fs-0.5)*(fs-0.5)*(fs < 0.5 ? r[0] - 2*r[1] + r[2] : r[1] - 2*r[2] + r[3]);
    double *c = mesh.v_in + i0 + q;
    v[q] = c[5]*(1-ft) + c[10]*ft + 0.5*(ft-0.5)*(ft-0.5)*(ft < 0.5 ? c[0] - 2*c[5] + c[10] : c[5] - 2*c[10] + c[15]);
  }
  double wu = pt_[0] + 0.5 - j0, wv = ps_[0] + 0.5 - i0;
  vx_check_eq(vx_, u[0]*(1-wu) + u[1]*wu, "conservative horizontal interpolation");
  vx_check_eq(vz_, v[0]*(1-wv) + v[1]*wv, "conservative vertical interpolation");
}
/* velocities stored in the air do not reach a marker in a cell that has rock velocity nodes below */
void vx_case_airvel(void) {
  mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); mdx_grid(); tags(); part_alloc(1, 1); part_sym(0);
  double U = vx_real("U", -4, 4), V = vx_real("V", -4, 4);
  for (int i = 0; i < 12; i++) mesh.u_in[i] = U, mesh.v_in[i] = V;
  for (int i = 0; i < 3; i++) { mesh.BCu.type[6+i+3] = 30; mesh.u_in[6+i+3] = 100 + i; }
  mesh.BCu.type[6+1] = 30; mesh.u_in[7] = 55;
  for (int i = 0; i < 4; i++) { mesh.BCv.type[8+i] = 30; mesh.v_in[8+i] = 200 + i; }
  v2p(0);
  vx_check_eq(vx_, U, "a velocity stored in the air reaches a marker (x)");
  vx_check_eq(vz_, V, "a velocity stored in the air reaches a marker (z)");
}
/* fourth-order Runge-Kutta: in a linear flow the displacement is the RK4 polynomial, as long as the marker stays inside */
static void rk(double dt, double x, double z, double *nx, double *nz, double hx, double hz) {
  double kx[4], kz[4], X = x, Z = z, f[4] = {0.5, 0.5, 1, 0};
  for (int q = 0; q < 4; q++) {
    kx[q] = lu(L[0], L[1], L[2], (X - MODEL.xmin)/hx, (Z - MODEL.zmin)/hz); kz[q] = lu(L[3], L[4], L[5], (X - MODEL.xmin)/hx, (Z - MODEL.zmin)/hz);
    X = x + f[q]*dt*kx[q]; Z = z + f[q]*dt*kz[q];
  }
  *nx = x + dt*(kx[0] + 2*kx[1] + 2*kx[2] + kx[3])/6; *nz = z + dt*(kz[0] + 2*kz[1] + 2*kz[2] + kz[3])/6;
}
static int RX = 4, RZ = 4;
static void rk4(int shear) {
  mdx_model(RX, RZ); mdx_box(-2, 1, 2, 1); mdx_grid(); tags(); part_alloc(2, 2);
  part_at(0, 1.375, 1.25); part_at(1, 0.5, 0.5); mk.phase[0] = 1; mk.phase[1] = -1;
  mdx_fill(L, 6, "l", -0.0625, 0.0625); if (shear) L[0] = L[1] = L[3] = L[5] = 0; else L[2] = L[3] = L[4] = 0;
  for (int j = 0; j < RZ+1; j++) for (int i = 0; i < RX; i++) mesh.u_in[i + RX*j] = lu(L[0], L[1], L[2], i, j - 0.5);
  for (int j = 0; j < RZ; j++) for (int i = 0; i < RX+1; i++) mesh.v_in[i + (RX+1)*j] = lu(L[3], L[4], L[5], i - 0.5, j);
  MODEL.dt = vx_int("half", 0, 1) ? 0.5 : 1; MODEL.conserv_interp = vx_int("corr", 0, 1);
  double x, z, x0 = mk.x[0], x1 = mk.x[1], z1 = mk.z[1]; rk(MODEL.dt, x0, mk.z[0], &x, &z, 2, 1);
  RogerGuntherII(&mk, MODEL, mesh, 1, I_.scaling);
  vx_check_eq(mk.x[0], x, "marker displacement in a linear flow (x)"); vx_check_eq(mk.z[0], z, "marker displacement in a linear flow (z)");
  vx_check_eqi(mk.phase[0], 1, "a marker inside the box stays active");
  vx_check_eq(mk.x[0], x0 + MODEL.dt*mk.Vx[0], "stored marker velocity is the one it moved with");
  vx_check_eq(mk.x[1], x1, "an inactive marker does not move"); vx_check_eq(mk.z[1], z1, "an inactive marker does not move"); vx_check_eqi(mk.phase[1], -1, "an inactive marker stays inactive");
}
void vx_case_rk4shear(void) { rk4(1); }
void vx_case_rk4strain(void) { rk4(0); }
void vx_case_rk4tall(void) { RX = 3; rk4(1); }
void vx_case_rk4wide(void) { RZ = 3; rk4(0); }
/* uniform flow: displacement is exactly v dt wherever the marker starts; leaving the box deactivates or wraps it */
void vx_case_uniform(void) {
  int per = vx_int("per", 0, 1);
  mdx_model(3, 3); MODEL.periodic_x = per; mdx_box(-1, 2, 2, 1); mdx_grid(); tags(); part_alloc(1, 1); part_sym(0); mk.phase[0] = 2;
  double U = vx_real("U", -1, 1), V = vx_real("V", -0.5, 0.5); MODEL.dt = 0.5; MODEL.conserv_interp = per;
  for (int i = 0; i < 12; i++) mesh.u_in[i] = U, mesh.v_in[i] = V;
  double x = mk.x[0] + U*0.5, z = mk.z[0] + V*0.5, Lx = MODEL.xmax - MODEL.xmin;
  RogerGuntherII(&mk, MODEL, mesh, 1, I_.scaling);
  int out = z < MODEL.zmin || z > MODEL.zmax, side = x < MODEL.xmin || x > MODEL.xmax;
  if (per && side) x += x < MODEL.xmin ? Lx : -Lx;
  if (out || (side && !per)) vx_check_eqi(mk.phase[0], -1, "a marker leaving the box is deactivated");
  else {
    vx_check_eqi(mk.phase[0], 2, "a marker staying in the box keeps its phase");
    vx_check_eq(mk.x[0], x, "uniform flow moves a marker by v dt (x)"); vx_check_eq(mk.z[0], z, "uniform flow moves a marker by v dt (z)");
  }
}
void vx_case_isout(void) {
  int per = vx_int("per", 0, 1), many = vx_int("many", 0, 1);
  mdx_model(3, 3); MODEL.periodic_x = per; mdx_box_sym(); mdx_grid(); part_alloc(1, 1);
  mk.x[0] = vx_real("x", -64, 64); mk.z[0] = vx_real("z", -64, 64); mk.phase[0] = 1;
  double x = mk.x[0], z = mk.z[0], Lx = MODEL.xmax - MODEL.xmin;
  vx_assume_le(MODEL.xmin - Lx, x); vx_assume_le(x, MODEL.xmax + Lx);
  if (many) isout(&mk, MODEL); else isoutPart(&mk, &MODEL, 0);
  int outz = z < MODEL.zmin || z > MODEL.zmax, outx = x < MODEL.xmin || x > MODEL.xmax;
  vx_check_eqi(mk.phase[0], outz || (outx && !per) ? -1 : 1, "a marker is active exactly when it lies in the box");
  vx_check_eq(mk.z[0], z, "containment does not move a marker vertically");
  vx_check_eq(mk.x[0], per && outx ? (x < MODEL.xmin ? x + Lx : x - Lx) : x, "a periodic box wraps a marker by its width, otherwise it stays");
}
