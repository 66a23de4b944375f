/*VX {"default": {"budget": 400, "max_paths": 6000, "bounds": "3x3, 4x3 and 3x4 nodes, 2-3 markers (one or two at arbitrary positions in the box), 2 phases, symbolic box, all marker values"}, "nodes9tall": {"tier": "thorough"}} */
#include "part.h"
static int ncol, nrow; static double ox, oz;      /* node (i,j) of the target grid lies at (i+ox, j+oz) cell units */
static char *type; static double *field;
static void target(int loc) {
  int nx = MODEL.Nx, nz = MODEL.Nz;
  if (loc == 1)  { ncol = nx-1; nrow = nz-1; ox = 0.5;  oz = 0.5;  type = mesh.BCp.type; field = mesh.T; }
  if (loc == 0)  { ncol = nx;   nrow = nz;   ox = 0;    oz = 0;    type = mesh.BCg.type; field = mesh.rho_s; }
  if (loc == -1) { ncol = nx;   nrow = nz+1; ox = 0;    oz = -0.5; type = mesh.BCu.type; field = mesh.kx; }
  if (loc == -2) { ncol = nx+1; nrow = nz;   ox = -0.5; oz = 0;    type = mesh.BCv.type; field = mesh.kz; }
  for (int i = 0; i < ncol*nrow; i++) type[i] = -1;
}
static double hat(double d, double s) { if (d < 0) d = -d; return d < s ? 1 - d/s : 0; }
static double weight(int k, int i, int j, int st) {
  double s = st == 9 ? 1.5 : 0.5, dz = hat(pt_[k] - j - oz, s), d = ps_[k] - i - ox;
  if (mk.phase[k] == -1) return 0;
  double w = hat(d, s);
  if (MODEL.periodic_x && st == 9) w += hat(d - ncol, s) + hat(d + ncol, s);
  return w*dz;
}
static double prop[8];
static void check(int loc, int st, int avg, int n, int flag) {
  target(loc);
  double *old = malloc(ncol*nrow*8);
  for (int i = 0; i < ncol*nrow; i++) old[i] = field[i] = 7 + i;
  if (loc != -1 && loc != -2) type[1] = 30;
  P2Mastah(&MODEL, mk, prop, &mesh, field, type, flag, avg, 0, loc, st);
  for (int j = 0; j < nrow; j++) for (int i = 0; i < ncol; i++) {
    int c = i + j*ncol; double W = 0, V = 0, lo = 1e3, hi = -1e3;
    for (int k = 0; k < n; k++) {
      double w = weight(k, i, j, st), v = flag == 1 ? prop[k] : mk.phase[k] >= 0 ? prop[mk.phase[k]] : 0;
      if (w > 0) { W += w; V += w*(avg == 1 ? 1/v : avg == 2 ? log(v) : v); if (v < lo) lo = v; if (v > hi) hi = v; }
    }
    if (type[c] == 30) vx_check_eq(field[c], old[c], "a node in the air is not touched");
    else if (W < 1e-20) { if (W <= 0) vx_check_eq(field[c], old[c], "a node without markers keeps its value"); }
    else {
      vx_check_eq(field[c], avg == 1 ? W/V : avg == 2 ? exp(V/W) : V/W, "node value is not the distance-weighted mean of the markers around it");
      if (avg == 0) { vx_check_le(lo, field[c], "node value below every contributing marker"); vx_check_le(field[c], hi, "node value above every contributing marker"); }
    }
  }
}
static int dir_, NX = 3, NZ = 3;
static void start(int n, int nsym, int periodic) {
  mdx_model(NX, NZ); MODEL.periodic_x = periodic; MODEL.Nb_phases = 2; MODEL.anisotropy = dir_; mdx_box(-1, 0, 2, 1); mdx_grid(); part_alloc(n, n);
  for (int k = 0; k < n; k++) {
    if (k < nsym) part_sym(k); else if (k == nsym) part_at(k, 0.625, 1.125); else part_at(k, 1.375, 0.75);
    mk.phase[k] = k & 1;
  }
  mdx_fill(prop, n, "v", 0.25, 8);
}
void vx_case_cells1(void) { start(3, 2, 0); check(1, 1, 0, 3, 1); }
void vx_case_cells9(void) { start(2, 1, 0); check(1, 9, vx_int("avg", 0, 1), 2, 1); }
void vx_case_nodes1(void) { start(3, 1, 0); check(0, 1, vx_int("avg", 0, 2), 3, 0); }
void vx_case_nodes9(void) { start(2, 1, 0); check(0, 9, 0, 2, 1); }
void vx_case_vx1(void)    { start(2, 1, 0); check(-1, 1, 0, 2, 1); }
void vx_case_vx9(void)    { start(2, 1, 0); check(-1, 9, 0, 2, 1); }
void vx_case_vz1(void)    { start(2, 1, 0); check(-2, 1, 0, 2, 1); }
void vx_case_vz9(void)    { start(2, 1, 0); check(-2, 9, 0, 2, 1); }
void vx_case_inactive(void) { start(3, 1, 0); mk.phase[1] = -1; mk.x[1] = MODEL.xmin - 64*mesh.dx; check(1, vx_int("st", 0, 1) ? 9 : 1, 0, 3, 1); }
void vx_case_periodic9(void) { start(2, 1, 1); check(1, 9, 0, 2, 1); }
/* more rows than columns, or fewer */
void vx_case_cells1tall(void) { NZ = 4; start(3, 1, 0); check(1, 1, 0, 3, 1); }
void vx_case_cells9wide(void) { NX = 4; start(2, 1, 0); check(1, 9, 0, 2, 1); }
void vx_case_nodes1wide(void) { NX = 4; start(3, 1, 0); check(0, 1, 0, 3, 0); }
void vx_case_nodes9tall(void) { NZ = 4; start(2, 1, 0); check(0, 9, 0, 2, 1); }
void vx_case_vx1tall(void)    { NZ = 4; start(2, 1, 0); check(-1, 1, 0, 2, 1); }
void vx_case_vz1wide(void)    { NX = 4; start(2, 1, 0); check(-2, 1, 0, 2, 1); }
void vx_case_periodic9tall(void) { NZ = 4; start(2, 1, 1); check(1, 9, 0, 2, 1); }
/* phase fractions */
static void fractions(int loc, int st, int periodic) {
  start(3, 1, periodic); target(loc);
  double **ph = loc == 1 ? mesh.phase_perc_n : mesh.phase_perc_s;
  for (int i = 0; i < ncol*nrow; i++) ph[0][i] = ph[1][i] = 0.25;
  P2Mastah(&MODEL, mk, NULL, &mesh, loc == 1 ? mesh.FreeSurfW_n : mesh.FreeSurfW_s, type, 0, 0, 1, loc, st);
  for (int j = 0; j < nrow; j++) for (int i = 0; i < ncol; i++) {
    int c = i + j*ncol; double W = 0, F[2] = {0, 0};
    for (int k = 0; k < 3; k++) { double w = weight(k, i, j, st); if (w > 0) { W += w; F[mk.phase[k]] += w; } }
    if (W > 0 && W < 1e-20) continue;
    for (int p = 0; p < 2; p++) {
      vx_check_eq(ph[p][c], W > 0 ? F[p]/W : 0, "phase fraction is not the weighted share of the phase");
      vx_check_le(0, ph[p][c], "negative phase fraction");
    }
    vx_check_eq(ph[0][c] + ph[1][c], W > 0 ? 1 : 0, "phase fractions do not add up to one");
  }
}
void vx_case_fraccells1(void) { fractions(1, 1, 0); }
void vx_case_fraccells9(void) { fractions(1, 9, vx_int("per", 0, 1)); }
void vx_case_fracnodes1(void) { fractions(0, 1, 0); }
void vx_case_fracnodes9(void) { fractions(0, 9, 0); }
void vx_case_fraccells1wide(void) { NX = 4; fractions(1, 1, 0); }
void vx_case_fracnodes1tall(void) { NZ = 4; fractions(0, 1, 0); }
void vx_case_fraccells9tall(void) { NZ = 4; fractions(1, 9, 0); }
/* director-based quantities and periodic vertices: consequences that hold whatever the weights are */
void vx_case_constant(void) {
  start(2, 1, vx_int("per", 0, 1)); int st = vx_int("st", 0, 1) ? 9 : 1, loc = vx_int("loc", -2, 1), avg = vx_int("avg", 0, 1); prop[1] = prop[0];
  target(loc); for (int i = 0; i < ncol*nrow; i++) field[i] = prop[0];
  P2Mastah(&MODEL, mk, prop, &mesh, field, type, 1, avg, 0, loc, st);
  for (int i = 0; i < ncol*nrow; i++) vx_check_eq(field[i], prop[0], "a uniform marker field does not stay uniform on the grid");
  if (MODEL.periodic_x && loc == 0) for (int l = 0; l < nrow; l++) vx_check_eq(field[l*ncol], field[l*ncol + ncol-1], "periodic sides carry the same value");
}
void vx_case_director(void) {
  dir_ = 1; start(2, 1, 0); int loc = vx_int("loc", 0, 1), which = vx_int("which", 1, 3); target(loc);
  mdx_fill(mk.nx, 2, "nx", -1, 1); mdx_fill(mk.nz, 2, "nz", -1, 1);
  for (int k = 0; k < 2; k++) { double a = mk.nx[k], b = mk.nz[k]; prop[k] = which == 1 ? 2*a*a*b*b : which == 2 ? a*b*(b*b - a*a) : acos(a); }
  P2Mastah(&MODEL, mk, NULL, &mesh, field, type, -which, 0, 0, loc, 1);
  for (int j = 0; j < nrow; j++) for (int i = 0; i < ncol; i++) {
    double W = 0, V = 0;
    for (int k = 0; k < 2; k++) { double w = weight(k, i, j, 1); if (w > 0) { W += w; V += w*prop[k]; } }
    if (W > 0.0009765625) vx_check_eq(field[i + j*ncol], V/W, "director invariants and angle are not averaged with the marker weights");
  }
}
