/*VX {"default": {"budget": 300, "max_paths": 6000, "bounds": "4x3 nodes, one marker at any position in the box (plus an inactive one), all nodal values"}} */
#include "part.h"
static double hat(double d) { if (d < 0) d = -d; return d < 1 ? 1 - d : 0; }
static double F[64]; static char tag[64];
/* value of the bilinear interpolant of nodes (i+ox, j+oz) at marker k; positions beyond the first/last node take its value */
static double bilin(int k, const double *f, int nc, int nr, double ox, double oz, int periodic) {
  double s = ps_[k] - ox, t = pt_[k] - oz, v = 0;
  if (!periodic) { if (s < 0) s = 0; if (s > nc-1) s = nc-1; }
  if (t < 0) t = 0; if (t > nr-1) t = nr-1;
  for (int j = 0; j < nr; j++) for (int i = 0; i < nc; i++) {
    double w = hat(s - i); if (periodic) w += hat(s - i - nc) + hat(s - i + nc);
    v += w*hat(t - j)*f[i + j*nc];
  }
  return v;
}
static void start(int periodic, int n) {
  mdx_model(4, 3); MODEL.periodic_x = periodic; mdx_box_sym(); mdx_grid(); part_alloc(n, n);
  part_sym(0); mk.phase[0] = 0;
  for (int k = 1; k < n; k++) { part_at(k, 0.25, 0.75); mk.phase[k] = -1; mk.x[k] = MODEL.xmin - 100*mesh.dx; }
  for (int i = 0; i < 64; i++) tag[i] = -1;
  mdx_fill(F, 13, "f", -8, 8);
}
static double out[4];
static double g2p(int lat, int periodic) {
  int nx = mesh.Nx, nz = mesh.Nz;
  if (lat == 0) Interp_Grid2P(mk, out, &mesh, F, mesh.xg_coord, mesh.zg_coord, nx, nz, tag);
  if (lat == 1) Interp_Grid2P_centroids2(mk, out, &mesh, F, mesh.xvz_coord, mesh.zvx_coord, nx-1, nz-1, tag, &MODEL);
  if (lat == 2) out[0] = Centers2Particle(&mk, F, mesh.xvz_coord, mesh.zvx_coord, nx-1, nz-1, tag, mesh.dx, mesh.dz, 0, periodic);
  if (lat == 3) out[0] = Vertices2Particle(&mk, F, mesh.xg_coord, mesh.zg_coord, nx, nz, tag, mesh.dx, mesh.dz, 0);
  return out[0];
}
static void rock(int lat, int periodic) {
  vx_flag("exit_is_violation", 1);
  start(periodic, lat < 2 ? 2 : 1);
  double v = g2p(lat, periodic), ref;
  int vert = lat == 0 || lat == 3;
  ref = vert ? bilin(0, F, 4, 3, 0, 0, 0) : bilin(0, F, 3, 2, 0.5, 0.5, periodic);
  vx_check_eq(v, ref, "the marker does not receive the bilinear interpolant of the grid field");
}
void vx_case_vert(void)       { rock(0, 0); }
void vx_case_cent(void)       { rock(1, 0); }
void vx_case_centper(void)    { rock(1, 1); }
void vx_case_cent1(void)      { rock(2, vx_int("per", 0, 1)); }
void vx_case_vert1(void)      { rock(3, 0); }
/* below a free surface: values stored in air nodes must not reach a marker whose neighbourhood has rock nodes */
static void air(int lat, int periodic, int a) {
  int vert = lat == 0 || lat == 3, nc = vert ? 4 : 3, nr = nc-1, n = nc*nr;
  start(periodic, 1); tag[a] = vx_int("tag", 30, 31);
  for (int i = 0; i < n; i++) if (i != a) F[i] = F[n];
  if (lat == 1) vx_assume_le(pt_[0], 1.5);        /* below the topmost half row, where an air cell has no rock cell under it to stand in */
  double v = g2p(lat, periodic), W = 0;
  double s = ps_[0] - (vert ? 0 : 0.5), t = pt_[0] - (vert ? 0 : 0.5);
  if (!periodic) { if (s < 0) s = 0; if (s > nc-1) s = nc-1; } if (t < 0) t = 0; if (t > nr-1) t = nr-1;
  for (int i = 0; i < n; i++) if (i != a) { double d = s - i%nc, w = hat(d); if (periodic) w += hat(d-nc) + hat(d+nc); W += w*hat(t - i/nc); }
  if (W < 0.0009765625) return;                   /* no rock node around the marker */
  vx_check_eq(v, F[n], "a value stored in the air reaches a marker, or a uniform rock field is not uniform on the marker");
}
void vx_case_airvert(void)  { air(0, 0, 9); }
void vx_case_airvert1(void) { air(3, 0, 10); }
void vx_case_aircent(void)  { air(1, vx_int("per", 0, 1), vx_int("air", 3, 4)); }
void vx_case_aircent1(void) { air(2, vx_int("per", 0, 1), vx_int("air", 3, 4)); }
