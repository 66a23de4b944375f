/*VX {"default": {"budget": 400, "max_paths": 20000, "bounds": "2x2 cells (4x4 seeding cells), 1 or 2 markers per seeding cell with holes in listed patterns, one marker anywhere, 0 to 3 lost markers"}} */
#include "part.h"
/* the phase proportions (P02) are not what is decided here */
void P2Mastah(params *m, markers p, DoodzFP *a, grid *g, double *f, char *t, int fl, int av, int prop, int cent, int st) { }
#define NF 20
static double *fld(int f) { double *a[NF] = { mk.Vx, mk.Vz, mk.strain, mk.strain_el, mk.strain_pl, mk.strain_pwl, mk.strain_exp, mk.strain_lin, mk.strain_gbs, mk.divth, mk.rho, mk.d, mk.T, mk.P, mk.phi, mk.X, mk.noise, mk.sxxd, mk.szzd, mk.sxz }; return a[f]; }
static double *opt(int f) { double *a[12] = { mk.Fxx, mk.Fxz, mk.Fzx, mk.Fzz, mk.T0, mk.P0, mk.x0, mk.z0, mk.Tmax, mk.Pmax, mk.nx, mk.nz }; return a[f]; }
static int cell[64], n0, lost, fineN, opts = -1;                    /* seeding cell of a marker, or -1 */
static double X[64], Z[64];
static void put(int k, int c, double u, double w) {      /* u, w: position in the seeding cell, 0..1 */
  cell[k] = c; mk.x[k] = X[k] = MODEL.xmin + 0.5*mesh.dx*(c%fineN + u); mk.z[k] = Z[k] = MODEL.zmin + 0.5*mesh.dz*(c/fineN + w); mk.phase[k] = k%3; mk.dual[k] = 10 + k;
  for (int f = 0; f < NF; f++) fld(f)[k] = 1000*f + k; for (int f = 0; f < 12; f++) if (opt(f)) opt(f)[k] = 50000 + 1000*f + k;
}
static void gone(int k) { put(k, 0, 0, 0); cell[k] = -1; mk.phase[k] = -1; mk.dual[k] = 5; mk.x[k] = 77; for (int f = 0; f < NF; f++) fld(f)[k] = 99; for (int f = 0; f < 12; f++) if (opt(f)) opt(f)[k] = 98; }
static const int HOLE[6][5] = { { -1 }, { 0, -1 }, { 5, 6, -1 }, { 15, 12, -1 }, { 9, 10, 13, 14, -1 }, { 3, 7, -1 } };
static void fill(int per, int hole, int wander) {
  n0 = 0; for (int c = 0; c < 16; c++) { int h = 0; for (int i = 0; HOLE[hole][i] >= 0; i++) h |= HOLE[hole][i] == c; for (int i = 0; i < (h ? per-1 : per); i++) { put(n0, c, 0.25 + 0.5*i + 0.015625*(c%3), 0.375 + 0.25*i); n0++; } }
  if (wander) { int c = wander == 1 ? vx_int("cell", 0, 3)*5 : 6; put(n0, c, vx_real("u", 0.0625, 0.9375), vx_real("w", 0.0625, 0.9375)); n0++; }
}
static void setup(int nmax) {
  fineN = 4; mdx_model(3, 3); MODEL.Nb_phases = 3; MODEL.finite_strain = MODEL.track_T_P_x_z = opts < 0 ? vx_int("opt", 0, 1) : opts; MODEL.anisotropy = MODEL.finite_strain; MODEL.direct_neighbour = 1; mdx_box(-1, -2, 1, 1.25); mdx_grid(); part_alloc(0, nmax);
}
static double d2(double x, double z, int k) { double a = x - X[k], b = z - Z[k]; return a*a + b*b; }
static int absi(int a) { return a < 0 ? -a : a; }
/* every marker that was there is as it was; every seeding cell marked in need[] got one marker in its centre that carries the properties of the closest marker around */
static void judge(const int *need, int sed, double hini) {
  int made = 0, reused = 0, total = 0, byc[64]; for (int c = 0; c < 16; c++) { byc[c] = 0; total += need[c]; }
  for (int k = 0; k < mk.Nb_part; k++) {
    if (k < n0 && cell[k] >= 0) { vx_check(mk.x[k] == X[k] && mk.z[k] == Z[k], "a marker is not moved by reseeding"); vx_check(mk.phase[k] == k%3 && mk.dual[k] == 10 + k, "a marker keeps its phase"); for (int f = 0; f < NF; f++) vx_check(fld(f)[k] == 1000*f + k, "a marker keeps its properties"); continue; }
    if (k < n0 && mk.phase[k] == -1) continue;
    if (k < n0) reused++; made++; int c = -1; for (int q = 0; q < 16; q++) { double ex = mk.x[k] - (MODEL.xmin + 0.5*mesh.dx*(q%fineN + 0.5)), ez = mk.z[k] - (MODEL.zmin + 0.5*mesh.dz*(q/fineN + 0.5)); if (ex < 1e-9 && ex > -1e-9 && ez < 1e-9 && ez > -1e-9) c = q; }
    vx_check(c >= 0, "a new marker sits in the centre of a seeding cell"); if (c < 0) return; byc[c]++;
    int s = mk.dual[k] - 10; vx_check(s >= 0 && s < n0 && cell[s] >= 0, "a new marker takes the properties of a marker of the box"); if (s < 0 || s >= n0 || cell[s] < 0) return;
    vx_check_eqi(mk.phase[k], s%3, "phase of a new marker"); for (int f = 0; f < NF; f++) if (MODEL.direct_neighbour == 1 || f < 11) vx_check(fld(f)[k] == 1000*f + s, "property of a new marker"); for (int f = 0; f < 12; f++) if (opt(f)) vx_check(opt(f)[k] == 50000 + 1000*f + s, "property of a new marker");
    int sm = sed && mk.z[k] > hini; if (sm) vx_check(s%3 == 1, "what is added above the initial surface is sediment");
    for (int j = 0; j < n0; j++) { if (cell[j] < 0 || (sm && j%3 != 1)) continue; if (absi(cell[j]%fineN - c%fineN) <= 2 && absi(cell[j]/fineN - c/fineN) <= 2) vx_check_le(d2(mk.x[k], mk.z[k], s), d2(mk.x[k], mk.z[k], j), "the closest marker gives the properties"); }
  }
  for (int c = 0; c < 16; c++) vx_check_eqi(byc[c], need[c], need[c] ? "a seeding cell with too few markers gets one" : "a seeding cell with enough markers gets none");
  vx_check_eqi(reused, total < lost ? total : lost, "lost markers are used first"); vx_check_eqi(mk.Nb_part, n0 + total - reused, "number of markers"); vx_check(mk.Nb_part <= mk.Nb_part_max, "no more markers than there is room for");
}
static void count(int *need, int thr) { for (int c = 0; c < 16; c++) { int m = 0; for (int k = 0; k < n0; k++) m += cell[k] == c; need[c] = m < thr; } }
static void addlost(void) { if (opts < 0) lost = vx_int("lost", 0, 3); for (int i = 0; i < lost; i++) { gone(n0); n0++; } mk.Nb_part = n0; }
static void reseed(int mode) { if (mode) CountPartCell(&mk, &mesh, MODEL, topo, topo_ini, 1, I_.scaling); else CountPartCell_OLD(&mk, &mesh, MODEL, topo, topo_ini, 1, I_.scaling); printf("\n"); }
static void flat(int mode) {
  vx_flag("exit_is_violation", 1); lost = vx_int("lost", 0, 3); opts = lost & 1; setup(48); int need[16], per = mode ? 2 : 1, dense = mode ? 0 : vx_int("dense", 0, 1); mk.min_part_cell = dense ? 8 : vx_int("min", 4, 5); fill(per + dense, vx_int("hole", 0, 5), 1); addlost();
  count(need, mode || dense ? 2 : 1); int air = vx_int("air", 0, 2); if (air) { int a = air == 1 ? 3 : 0; mesh.BCt.type[a] = 30; int o = air == 1 ? 10 : 0; need[o] = need[o+1] = need[o+4] = need[o+5] = 0; }
  reseed(mode); judge(need, 0, 0);
}
void vx_case_coarse(void) { flat(0); }
void vx_case_fine(void) { flat(1); }
/* counting alone changes nothing */
void vx_case_count(void) { vx_flag("exit_is_violation", 1); setup(48); int need[16] = { 0 }; fill(1, vx_int("hole", 0, 5), 0); addlost(); int mode = vx_int("mode", 0, 1); mk.min_part_cell = 16; if (mode) CountPartCell(&mk, &mesh, MODEL, topo, topo_ini, 0, I_.scaling); else CountPartCell_OLD(&mk, &mesh, MODEL, topo, topo_ini, 0, I_.scaling); printf("\n"); int l = lost; lost = 0; judge(need, 0, 0); (void)l; }
/* below a free surface; above the initial surface new markers are sediment */
void vx_case_surface(void) {
  vx_flag("exit_is_violation", 1); setup(48); MODEL.free_surface = 1; MODEL.surface_processes = vx_int("sedim", 0, 1); MODEL.surf_ised1 = MODEL.surf_ised2 = 1; mk.min_part_cell = 4; int need[16]; fill(1, vx_int("hole", 1, 5), 2); addlost(); count(need, 1);
  double a[2], b[2], ai[2] = { 0, 0 }, bi[2]; double s = vx_real("slope", -0.25, 0.25), h = vx_real("h", -1.25, 0.5), hi = vx_real("hini", -2, 0.5); for (int i = 0; i < 2; i++) { a[i] = s; b[i] = h; bi[i] = hi; } topo.a = a; topo.b = b; topo_ini.a = ai; topo_ini.b = bi; topo.height_finer_c = a;
  for (int c = 0; c < 16; c++) if (need[c]) { double x = MODEL.xmin + 0.5*mesh.dx*(c%4 + 0.5), z = MODEL.zmin + 0.5*mesh.dz*(c/4 + 0.5); if (z >= h + s*x) need[c] = 0; }
  reseed(0); judge(need, MODEL.surface_processes, hi);
}
/* values taken from the grid instead */
void vx_case_fromgrid(void) {
  vx_flag("exit_is_violation", 1); setup(48); MODEL.direct_neighbour = 0; mk.min_part_cell = 4; int mode = vx_int("mode", 0, 1), need[16]; fill(mode ? 2 : 1, 2, 0); addlost(); count(need, mode ? 2 : 1); double p[9], q[9]; mdx_fill(p, 9, "p", -4, 4); mdx_fill(q, 9, "q", -4, 4);
  double *g[9] = { mesh.d_n, mesh.T, mesh.p_in, mesh.phi_n, mesh.X_n, mesh.noise_n, mesh.sxxd, mesh.szzd, mesh.sxz }; for (int f = 0; f < 8; f++) for (int i = 0; i < 4; i++) g[f][i] = p[f] + q[f]*(mesh.xc_coord[i%2] - 2*mesh.zc_coord[i/2]); for (int i = 0; i < 9; i++) g[8][i] = p[8] + q[8]*(mesh.xg_coord[i%3] - 2*mesh.zg_coord[i/3]);
  reseed(mode); judge(need, 0, 0);
  for (int k = 0; k < mk.Nb_part; k++) if (k >= n0 || (cell[k] < 0 && mk.phase[k] != -1)) for (int f = 0; f < 9; f++) vx_check_eq(fld(11 + f)[k], p[f] + q[f]*(mk.x[k] - 2*mk.z[k]), "value of a new marker comes from the grid");
}
/* no room: stop rather than write beyond the arrays */
void vx_case_full(void) {
  int room = vx_int("room", 0, 6), mode = vx_int("mode", 0, 1), per = mode ? 2 : 1; setup(per*16 - 4 + room); mk.min_part_cell = 4; fill(per, 4, 0); lost = 0; mk.Nb_part = n0; vx_flag("exit_is_violation", room > 5); reseed(mode); vx_check(mk.Nb_part <= mk.Nb_part_max, "no more markers than there is room for"); }
/* fewer markers than seeding cells */
void vx_case_few(void) {
  vx_flag("exit_is_violation", 1); setup(48); mk.min_part_cell = 4; n0 = 0; lost = 0; int need[16]; for (int c = 0; c < 4; c++) { put(n0, 5 + c%2 + 4*(c/2), 0.375, 0.625); n0++; } int m = vx_int("mode", 0, 1); mk.Nb_part = n0; count(need, m ? 2 : 1); reseed(m); judge(need, 0, 0);
}
/* --- markers that enter with the flow */
void vx_case_inflow(void) {
  vx_flag("exit_is_violation", 1); setup(9); SetParticles_ff sp; memset(&sp, 0, sizeof sp); n0 = 5; fineN = 4; static const int C[5] = { 0, 4, 7, 9, 15 };
  for (int k = 0; k < 5; k++) put(k, C[k], k ? 0.5 : vx_real("u", 0.0625, 0.9375), 0.5); lost = vx_int("lost", 0, 3); for (int i = 0; i < lost; i++) { gone(n0); n0++; } mk.Nb_part = n0;
  ParticleInflowCheck(&mk, &mesh, &I_, topo, 0, sp); printf("\n"); for (int k = 0; k < 5; k++) { vx_check_eqi(mk.intag[k], k != 3, "markers next to a side are known"); }
  double v = vx_real("v", 0, 0.4375); for (int k = 0; k < 5; k++) { X[k] = mk.x[k] += (k == 2 || k == 4 ? -1 : 1)*v; Z[k] = mk.z[k] += 0.125; }
  ParticleInflowCheck(&mk, &mesh, &I_, topo, 1, sp); printf("\n"); int made = 0;
  for (int k = 0; k < 5; k++) { vx_check(mk.phase[k] == k%3 && mk.dual[k] == 10 + k && fld(12)[k] == 12000 + k, "a marker keeps its properties"); vx_check_eq(mk.x[k], X[k], "a marker is not moved"); vx_check_eq(mk.z[k], Z[k], "a marker is not moved");
    double s = k == 2 || k == 4 ? MODEL.xmax - X[k] : X[k] - MODEL.xmin; int in = k != 3 && s >= 0.5, got = 0;
    for (int j = 5; j < mk.Nb_part; j++) if (mk.phase[j] != -1 && mk.dual[j] == 10 + k) { got++; vx_check_eq(mk.x[j], X[k] + (k == 2 || k == 4 ? 0.5 : -0.5), "a marker that enters"); vx_check_eq(mk.z[j], Z[k], "a marker that enters"); vx_check_eqi(mk.phase[j], k%3, "phase of a marker that enters"); for (int f = 0; f < NF; f++) vx_check(fld(f)[j] == 1000*f + k, "property of a marker that enters"); for (int f = 0; f < 12; f++) if (opt(f)) vx_check(opt(f)[j] == 50000 + 1000*f + k, "property of a marker that enters"); }
    vx_check_eqi(got, in, in ? "a marker that left the side column is followed by another" : "no marker enters without flow"); made += in; }
  vx_check_eqi(mk.Nb_part, 5 + (made > lost ? made : lost), "lost markers are used first");
}
void vx_case_inflowfull(void) {
  int room = vx_int("room", 0, 2); setup(2 + room); SetParticles_ff sp; memset(&sp, 0, sizeof sp); n0 = 2; lost = 0; put(0, 0, 0.5, 0.5); put(1, 7, 0.5, 0.5); mk.Nb_part = 2; ParticleInflowCheck(&mk, &mesh, &I_, topo, 0, sp); printf("\n"); mk.x[0] += 0.375; mk.x[1] -= 0.375; vx_flag("exit_is_violation", room == 2);
  ParticleInflowCheck(&mk, &mesh, &I_, topo, 1, sp); printf("\n"); vx_check(mk.Nb_part == 4 && room == 2, "all markers that enter have room"); }
