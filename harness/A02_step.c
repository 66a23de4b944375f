/*VX {"default": {"budget": 300, "max_paths": 20000, "fabs_fork": true, "bounds": "3x3, 4x3 and 3x4 nodes, all velocities, spacings, limits and previous time steps"}} */
#include "part.h"
static double mu_[9];
void P2Mastah(params *m, markers p, DoodzFP *prop, grid *g, double *f, char *ty, int flag, int avg, int pr, int cent, int st) {
  int n = cent == 1 ? (g->Nx-1)*(g->Nz-1) : g->Nx*g->Nz; for (int i = 0; i < n; i++) f[i] = mu_[i];
}
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a > b ? a : b; }
static double vabs(double a) { return a < 0 ? -a : a; }
/* one component at a time keeps the number of max/min orderings small */
static void courant(int loc, int still) {
  mdx_model(3, 3); mdx_box_sym(); mdx_grid(); MODEL.dx = mesh.dx; MODEL.dz = mesh.dz;
  double v = still ? 0 : vx_real("v", -8, 8), w = vx_real("w", 0, 8); if (still) w = 0;
  int a = still ? 0 : vx_int("a", 0, 11), b = 11 - a;
  (loc ? mesh.v_in : mesh.u_in)[a] = v; (loc ? mesh.u_in : mesh.v_in)[b] = w;
  MODEL.Courant = vx_real("C", 0.0625, 1); MODEL.dt0 = vx_real("dt0", 0.0625, 8); MODEL.dt_min = vx_real("dtmin", 0.0009765625, 0.125); MODEL.dt_max = vx_real("dtmax", 0.25, 64); MODEL.dt_start = vx_real("dts", 0.0625, 4);
  MODEL.elastic = loc; MODEL.thermal = still; MODEL.dt_reduction_factor = 1; mesh.T[a & 3] = vx_real("T", -8, 8);
  EvaluateCourantCriterion(mesh.u_in, mesh.v_in, &MODEL, I_.scaling, &mesh, 0);
  double h = mn(mesh.dx, mesh.dz), V = mx(vabs(v), vabs(w)), dt = MODEL.dt, fact = loc ? 1.25 : 2;
  vx_check_le(MODEL.dt_min, dt, "the time step is not below dt_min"); vx_check_le(dt, MODEL.dt_max, "the time step is not above dt_max");
  if (V < 0.0009765625) { if (still) vx_check_eq(dt, mx(MODEL.dt_min, mn(MODEL.dt_max, MODEL.dt_start)), "without motion the starting time step is used"); return; }
  double want = mn(MODEL.Courant*h/V, fact*MODEL.dt0);
  if (want <= MODEL.dt_max && want >= MODEL.dt_min) vx_check_eq(dt, want, "time step is the Courant step, growing at most by the allowed factor");
  if (dt > MODEL.dt_min) { vx_check_le(dt*V, MODEL.Courant*h, "no material moves more than the Courant fraction of a cell"); vx_check_le(dt, fact*MODEL.dt0, "time step growth is limited"); }
}
void vx_case_courantx(void) { courant(0, 0); }
void vx_case_courantz(void) { courant(1, 0); }
void vx_case_still(void)    { courant(0, 1); }
void vx_case_limits(void) {
  mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); mdx_grid(); MODEL.dx = mesh.dx; MODEL.dz = mesh.dz;
  int surf = vx_int("surf", 0, 1), chem = vx_int("chem", 0, 1);
  mesh.u_in[4] = vx_real("v", 0.125, 8); MODEL.Courant = 0.5; MODEL.dt0 = vx_real("dt0", 0.0625, 8); MODEL.dt_min = 0; MODEL.dt_max = 1024; MODEL.dt_start = 1;
  MODEL.surface_processes = surf; MODEL.surf_Vinc = vx_real("Vi", 0.125, 8); MODEL.chemical_diffusion = chem; MODEL.user1 = vx_real("tau", 0.125, 8); MODEL.dt_reduction_factor = 4; I_.scaling.t = 2;
  EvaluateCourantCriterion(mesh.u_in, mesh.v_in, &MODEL, I_.scaling, &mesh, 1);
  double want = mn(0.25/mesh.u_in[4], 2*MODEL.dt0);
  if (surf) want = mn(want, 0.25/MODEL.surf_Vinc);
  if (chem) want = mn(want, MODEL.user1/8);
  vx_check_eq(MODEL.dt, want, "time step is the smallest of the advective, surface and reaction limits");
}
/* grids longer one way than the other; a single moving node anywhere */
static void courantgrid(int nx, int nz) {
  mdx_model(nx, nz); mdx_box(0, 0, 1, 0.5); mdx_grid(); MODEL.dx = mesh.dx; MODEL.dz = mesh.dz;
  int a = vx_int("a", 0, nx*(nz+1) + (nx+1)*nz - 1), sgn = vx_int("dir", 0, 1); double v = vx_real("v", 0.125, 8);
  if (a < nx*(nz+1)) mesh.u_in[a] = sgn ? v : -v; else mesh.v_in[a - nx*(nz+1)] = sgn ? v : -v;
  MODEL.Courant = 0.5; MODEL.dt0 = vx_real("dt0", 0.0625, 8); MODEL.dt_min = 0; MODEL.dt_max = 1024; MODEL.dt_start = 1; MODEL.dt_reduction_factor = 1;
  EvaluateCourantCriterion(mesh.u_in, mesh.v_in, &MODEL, I_.scaling, &mesh, 1);
  vx_check_eq(MODEL.dt, mn(0.25/v, 2*MODEL.dt0), "the fastest node, wherever it is, sets the time step");
}
void vx_case_couranttall(void) { courantgrid(3, 4); }
void vx_case_courantwide(void) { courantgrid(4, 3); }
void vx_case_fixed(void) {
  mdx_model(3, 3); mdx_box(0, 0, 1, 0.5); mdx_grid(); MODEL.dx = mesh.dx; MODEL.dz = mesh.dz;
  mdx_fill(mesh.u_in, 3, "u", -8, 8); MODEL.constant_dt = 1; MODEL.Courant = 0.5; MODEL.dt_start = vx_real("dts", 0.0625, 4); MODEL.dt = 77; MODEL.dt0 = 33; MODEL.dt_reduction_factor = 1;
  EvaluateCourantCriterion(mesh.u_in, mesh.v_in, &MODEL, I_.scaling, &mesh, 1);
  vx_check_eq(MODEL.dt, MODEL.dt_start, "a constant time step stays the prescribed one");
}
void vx_case_initial(void) {
  mdx_model(2, 2); mdx_box(0, 0, 1, 0.5); mdx_grid(); part_alloc(1, 1);
  mdx_fill(mu_, 4, "mu", 0.125, 8); mdx_fill(mesh.eta_s, 4, "eta", 0.125, 8);
  mesh.BCg.type[3] = vx_int("air", 0, 1) ? 30 : -1; MODEL.elastic = vx_int("el", 0, 1); MODEL.constant_dt = vx_int("cst", 0, 1); MODEL.dt = MODEL.dt0 = vx_real("dt", 0.0625, 64);
  double want = MODEL.dt, old = want;
  if (MODEL.elastic && !MODEL.constant_dt) for (int i = 0; i < 4; i++) if (mesh.BCg.type[i] != 30) want = mn(want, mesh.eta_s[i]/mu_[i]);
  DefineInitialTimestep(&MODEL, &mesh, mk, I_.materials, I_.scaling);
  vx_check_eq(MODEL.dt, want, "the initial step is the prescribed one, limited by the smallest relaxation time of the rock");
  vx_check_eq(MODEL.dt0, want, "previous step equals the initial step");
}
/* moving box */
static void ale(int mode) {
  mdx_model(3, 3); mdx_box_sym(); mdx_grid(); part_alloc(3, 3); MODEL.dt = vx_real("dt", 0, 0.03125);
  for (int i = 0; i < 12; i++) mesh.BCu.type[i] = mesh.BCv.type[i] = -1;
  for (int j = 1; j < 3; j++) mesh.BCu.type[3*j] = mesh.BCu.type[3*j+2] = 0;
  for (int j = 0; j < 4; j += 3) for (int i = 0; i < 3; i++) { mesh.BCu.type[3*j+i] = 13; }
  for (int i = 1; i < 3; i++) { mesh.BCv.type[i] = 0; mesh.BCv.type[i+8] = mode ? 30 : 0; }
  for (int j = 0; j < 3; j++) mesh.BCv.type[4*j] = mesh.BCv.type[4*j+3] = 13;
  mdx_fill(mesh.u_in, 12, "u", -2, 2); mdx_fill(mesh.v_in, 12, "v", -2, 2);
  mesh.u_in[6] = mesh.u_in[3]; mesh.u_in[8] = mesh.u_in[5]; mesh.v_in[2] = mesh.v_in[1]; mesh.v_in[10] = mesh.v_in[9];
  for (int i = 0; i < 12; i++) mesh.BCv.val[i] = mesh.v_in[i];
  MODEL.free_surface = mode; MODEL.pure_shear_ALE = mode ? mode : 1; I_.scaling.L = 1000;
  for (int k = 0; k < 3; k++) { char b[8]; sprintf(b, "h%d", k); mk.z[k] = vx_real(b, -8, 8); mk.Vz[k] = k - 1; }
  double x0 = MODEL.xmin, x1 = MODEL.xmax, z0 = MODEL.zmin, z1 = MODEL.zmax, dt = MODEL.dt;
  double top = mx(mk.z[0], mx(mk.z[1], mk.z[2])) + 10; if (mode == 2) vx_assume_lt(z0 + 2, top);
  PureShearALE(&MODEL, &mesh, &mk, I_.scaling);
  vx_check_eq(MODEL.xmin, x0 + dt*mesh.u_in[3], "the west side moves with its velocity"); vx_check_eq(MODEL.xmax, x1 + dt*mesh.u_in[5], "the east side moves with its velocity");
  vx_check_eq(MODEL.zmin, z0 + dt*mesh.v_in[1], "the base moves with its velocity");
  if (mode == 0) vx_check_eq(MODEL.zmax, z1 + dt*mesh.v_in[9], "the top moves with its velocity");
  if (mode == 1) vx_check_eq(MODEL.zmax, z1, "the top of an air layer stays");
  if (mode == 2) vx_check_eq(MODEL.zmax, top, "the top follows the highest point of the surface");
  vx_check_eq(mesh.xg_coord[0], MODEL.xmin, "grid starts at the west side"); vx_check_eq(mesh.xg_coord[2], MODEL.xmax, "grid ends at the east side");
  vx_check_eq(mesh.zg_coord[0], MODEL.zmin, "grid starts at the base"); vx_check_eq(mesh.zg_coord[2], MODEL.zmax, "grid ends at the top");
  vx_check_eq(2*mesh.dx, MODEL.xmax - MODEL.xmin, "spacing follows the box (x)"); vx_check_eq(2*MODEL.dz, MODEL.zmax - MODEL.zmin, "spacing follows the box (z)");
  vx_check_eq(MODEL.dx, mesh.dx, "model and mesh spacing agree");
}
/* sides along which the velocity varies and of which only some nodes are prescribed: their mean counts */
static double side(const double *u, const char *t, int o, int st, int n) { double s = 0; int k = 0; for (int i = 0; i < n; i++) if (t[o+i*st] == 0) { s += u[o+i*st]; k++; } return k ? s/k : 0; }
static void alemean(int nx, int nz, int air) {
  mdx_model(nx, nz); mdx_box(-1, 0, 0.5, 1); mdx_grid(); part_alloc(1, 1); MODEL.dt = vx_real("dt", 0, 0.03125);
  int nu = nx*(nz+1), nv = (nx+1)*nz; memset(mesh.BCu.type, -1, nu); memset(mesh.BCv.type, -1, nv);
  int w = vx_int("west", 0, 3), e = vx_int("east", 0, 3), b = vx_int("base", 0, 3), t = vx_int("top", 0, 3);
  for (int j = 1; j < nz; j++) { if (j != w) mesh.BCu.type[j*nx] = 0; if (j != e) mesh.BCu.type[j*nx+nx-1] = 0; }
  for (int i = 1; i < nx; i++) { if (i != b) mesh.BCv.type[i] = 0; if (i != t) mesh.BCv.type[i+(nx+1)*(nz-1)] = 0; }
  mdx_fill(mesh.u_in, nu, "u", -2, 2); mdx_fill(mesh.v_in, nv, "v", -2, 2); mdx_fill(mesh.BCv.val, nv, "bcv", -2, 2);
  MODEL.free_surface = air; MODEL.pure_shear_ALE = 1; I_.scaling.L = 1000;
  double x0 = MODEL.xmin, x1 = MODEL.xmax, z0 = MODEL.zmin, z1 = MODEL.zmax, dt = MODEL.dt, *V = air ? mesh.BCv.val : mesh.v_in;
  double W = side(mesh.u_in, mesh.BCu.type, 0, nx, nz), E = side(mesh.u_in, mesh.BCu.type, nx-1, nx, nz), B = side(V, mesh.BCv.type, 0, 1, nx), T = side(V, mesh.BCv.type, (nx+1)*(nz-1), 1, nx);
  PureShearALE(&MODEL, &mesh, &mk, I_.scaling);
  vx_check_eq(MODEL.xmin, x0 + dt*W, "the west side moves with the mean of its velocity"); vx_check_eq(MODEL.xmax, x1 + dt*E, "the east side moves with the mean of its velocity");
  vx_check_eq(MODEL.zmin, z0 + dt*B, "the base moves with the mean of its velocity"); vx_check_eq(MODEL.zmax, z1 + dt*T, "the top moves with the mean of its velocity");
  for (int i = 0; i < nx; i++) vx_check_eq((nx-1)*(mesh.xg_coord[i] - MODEL.xmin), i*(MODEL.xmax - MODEL.xmin), "nodes are evenly spaced (x)");
  for (int j = 0; j < nz; j++) vx_check_eq((nz-1)*(mesh.zg_coord[j] - MODEL.zmin), j*(MODEL.zmax - MODEL.zmin), "nodes are evenly spaced (z)");
}
void vx_case_alewide(void) { alemean(4, 3, 0); }
void vx_case_aletall(void) { alemean(3, 4, 0); }
void vx_case_alewideair(void) { alemean(4, 3, 1); }
void vx_case_ale(void)  { ale(0); }
void vx_case_ale1(void) { ale(1); }
void vx_case_ale2(void) { ale(2); }
