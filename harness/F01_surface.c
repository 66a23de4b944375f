/*VX {"default": {"budget": 300, "max_paths": 20000, "bounds": "3 to 4 columns, 3 to 4 rows, arbitrary surface heights and marker positions within the box"}, "case": {"cliffs": {"weight": 6, "budget": 600, "bounds": "3x5 cells, arbitrary node heights that stay inside of the box"}, "flags": {"weight": 5, "budget": 600, "max_paths": 6000, "bounds": "3x4 cells, arbitrary node heights that stay inside of the box and differ by at most one cell height between neighbours"}}} */
#include "part.h"
static markers ch;
static double H[8], H0[8];
static void surf(int nx, int nz) { mdx_model(nx, nz); MODEL.free_surface = 1; mdx_box(-1.5, -2, 1, 1); mdx_grid(); AllocateMarkerChain(&topo, &ch, MODEL); printf("\n"); }
static void marker(int k, double x, double z) { ch.x[k] = x; ch.z[k] = z; ch.z0[k] = z; ch.phase[k] = 0; }
static double line_(double *h, double x) { int c = (int)(x - MODEL.xmin); if (c > MODEL.Nx-2) c = MODEL.Nx-2; return h[c] + (h[c+1] - h[c])*(x - mesh.xg_coord[c]); }
static int air(int c) { return mesh.BCp.type[c] == 30 || mesh.BCp.type[c] == 31; }

/* --- which cells, faces and vertices belong to the rock */
void vx_case_flags(void) {
  vx_flag("exit_is_violation", 1); mdx_model(4, 5); MODEL.free_surface = 1; mdx_box(-1.5, -2, 1, 1); I_.scaling.T = 2; mdx_grid(); static double a[3], b[3]; topo.a = a; topo.b = b; topo.height = H; static double a0[3], b0[3], z[4]; topo.a0 = a0; topo.b0 = b0; topo.height0 = z; mdx_fill(H, 4, "h", -0.95, 1.95); for (int i = 0; i < 3; i++) { vx_assume_le(H[i+1] - H[i], 1); vx_assume_le(H[i] - H[i+1], 1); }
  int nx = 4, ncx = 3, ncz = 4; for (int i = 0; i < 12; i++) mesh.T[i] = 7; for (int i = 0; i < 24; i++) mesh.BCu.val[i] = mesh.BCv.val[i] = 9;
  MarkerChainPolyFit(&topo, &ch, MODEL, mesh); CellFlagging(&mesh, MODEL, topo, I_.scaling);
  for (int k = 0; k < ncx; k++) for (int l = 0; l < ncz; l++) {
    int c = k + l*ncx, t = mesh.BCp.type[c]; double h = 0.5*(H[k] + H[k+1]), zc = mesh.zc_coord[l];
    vx_check(t == -1 || t == 30 || t == 31, "state of a cell"); if (zc > h) vx_check(t != -1, "a cell above the surface is not rock"); if (zc < h - 1) vx_check(t == -1, "a cell well below the surface is rock");
    vx_check_eqi(mesh.BCt.type[c], t == -1 ? -1 : 30, "temperature is solved for in the rock only"); vx_check_eqi(mesh.BCc.type[c], t == -1 ? -1 : 30, "composition is solved for in the rock only"); vx_check_eq(mesh.T[c], t == -1 ? 7 : 273.15/2, "air is at zero degrees");
    if (t != -1) continue;
    if (l < ncz-1) vx_check(mesh.BCp.type[c+ncx] != 30, "the surface condition sits right on top of the rock"); if (k > 0) vx_check(mesh.BCp.type[c-1] != 30, "the surface condition sits right beside the rock"); if (k < ncx-1) vx_check(mesh.BCp.type[c+1] != 30, "the surface condition sits right beside the rock");
    vx_check(mesh.BCu.type[k + (l+1)*nx] == -1 && mesh.BCu.type[k+1 + (l+1)*nx] == -1, "horizontal velocities around a rock cell are solved for"); vx_check(mesh.BCv.type[k+1 + l*(nx+1)] == -1 && mesh.BCv.type[k+1 + (l+1)*(nx+1)] == -1, "vertical velocities around a rock cell are solved for");
  }
  for (int k = 1; k < nx-1; k++) for (int l = 1; l <= ncz; l++) { int w = k-1 + (l-1)*ncx; if (air(w) && air(w+1)) vx_check_eqi(mesh.BCu.type[k + l*nx], 30, "no horizontal velocity between air cells"); }
  for (int k = 1; k <= ncx; k++) for (int l = 1; l < ncz; l++) { int s = k-1 + (l-1)*ncx; if (air(s) && air(s+ncx)) vx_check_eqi(mesh.BCv.type[k + l*(nx+1)], 30, "no vertical velocity between air cells"); }
  for (int k = 0; k < nx; k++) for (int l = 1; l < ncz; l++) { int c = k + l*ncx, on = 1; if (k < nx-1) on = on && !air(c) && !air(c-ncx); if (k > 0) on = on && !air(c-1) && !air(c-1-ncx); vx_check_eqi(mesh.BCg.type[k + l*nx], on ? -1 : 30, "shear stress exists where all cells around are rock"); }
  for (int i = 0; i < 20; i++) { vx_check_eq(mesh.BCu.val[i], 0, "no velocity is prescribed"); vx_check_eq(mesh.BCv.val[i], 0, "no velocity is prescribed"); }
}
/* cliffs: between rock and air there is always a cell that carries the surface condition */
void vx_case_cliffs(void) {
  vx_flag("exit_is_violation", 1); mdx_model(4, 6); MODEL.free_surface = 1; mdx_box(-1.5, -2.5, 1, 1); mdx_grid(); static double a[3], b[3]; topo.a = a; topo.b = b; topo.height = H; static double a0[3], b0[3], z[4]; topo.a0 = a0; topo.b0 = b0; topo.height0 = z; mdx_fill(H, 4, "h", -1.45, 2.45);
  int ncx = 3, ncz = 5; MarkerChainPolyFit(&topo, &ch, MODEL, mesh); CellFlagging(&mesh, MODEL, topo, I_.scaling);
  for (int k = 0; k < ncx; k++) for (int l = 0; l < ncz; l++) { int c = k + l*ncx; if (mesh.BCp.type[c] != -1) continue; if (l < ncz-1) vx_check(mesh.BCp.type[c+ncx] != 30, "the surface condition sits right on top of the rock"); if (k > 0) vx_check(mesh.BCp.type[c-1] != 30, "the surface condition sits right beside the rock"); if (k < ncx-1) vx_check(mesh.BCp.type[c+1] != 30, "the surface condition sits right beside the rock"); }
}
/* --- the chain of surface markers */
static double zof[64];
static double cZ(MdoodzInput *in, double x) { return 0.5*x*x - 1; }
static int cPh(MdoodzInput *in, double x) { return x > 0 ? 2 : 1; }
void vx_case_chain(void) {
  vx_flag("exit_is_violation", 1); mdx_model(3, 3); mdx_box_sym(); mdx_grid(); AllocateMarkerChain(&topo, &ch, MODEL); printf("\n"); SetTopoChainHorizontalCoords(&topo, &ch, MODEL, mesh, I_.scaling); printf("\n");
  int n = ch.Nb_part, in[2] = { 0, 0 }; vx_check(n >= 2 && n <= ch.Nb_part_max, "number of surface markers"); double d = 2*mesh.dx/n;
  for (int k = 0; k < n; k++) { vx_check_eq(ch.x[k], MODEL.xmin + (k + 0.5)*d, "surface markers are evenly spaced over the box"); vx_check_eqi(ch.phase[k], 0, "surface markers are active"); if (k < 64) zof[k] = ch.x[k]; }
  BuildInitialTopography_ff f; f.SetSurfaceZCoord = vx_int("z", 0, 1) ? cZ : NULL; f.SetSurfacePhase = vx_int("ph", 0, 1) ? cPh : NULL; I_.scaling.L = 4; BuildInitialTopography(f, &I_, &ch); printf("\n");
  for (int k = 0; k < n && k < 5; k++) { vx_check_eq(ch.z[k], f.SetSurfaceZCoord ? cZ(&I_, zof[k]) : 250, "height given by the setup"); vx_check_eqi(ch.phase[k], f.SetSurfacePhase ? cPh(&I_, zof[k]) : 0, "phase given by the setup"); } (void)in;
}
/* lines through the node heights */
void vx_case_lines(void) {
  mdx_model(4, 3); mdx_box_sym(); mdx_grid(); AllocateMarkerChain(&topo, &ch, MODEL); printf("\n"); mdx_fill(topo.height, 4, "h", -4, 4); mdx_fill(topo.height0, 4, "g", -4, 4); MarkerChainPolyFit(&topo, &ch, MODEL, mesh);
  for (int c = 0; c < 3; c++) for (int e = 0; e < 2; e++) { vx_check_eq(topo.a[c]*mesh.xg_coord[c+e] + topo.b[c], topo.height[c+e], "the surface goes through its nodes"); vx_check_eq(topo.a0[c]*mesh.xg_coord[c+e] + topo.b0[c], topo.height0[c+e], "the old surface goes through its nodes"); }
}
/* markers to nodes */
void vx_case_project(void) {
  vx_flag("exit_is_violation", 1); vx_flag("div0_is_violation", 1); surf(4, 3); MODEL.topo_update = vx_int("update", 0, 1); MODEL.pure_shear_ALE = vx_int("ale", -1, 1); double s = vx_real("s", 0.0625, 0.9375), z[5]; mdx_fill(z, 5, "z", -2, 2); mdx_fill(topo.height0, 4, "g", -2, 2); int lost = vx_int("lost", 0, 1);
  double zz0[5] = { 0, 0, 0, 0, 0 }; if (MODEL.topo_update) mdx_fill(zz0, 5, "y", -2, 2);
  double xs[5] = { -1.5 + 0.25, -1.5 + s, -0.5 + 0.25, -0.5 + 0.625, 0.5 + 0.375 }; double w[5], m[3]; for (int k = 0; k < 5; k++) { marker(k, xs[k], z[k]); ch.z0[k] = zz0[k]; } w[0] = 0.5; w[1] = 1 - 2*fabs(s - 0.5); w[2] = 0.5; w[3] = 0.75; w[4] = 0.75;
  ch.Nb_part = 5; if (lost) { marker(5, vx_real("xl", -9, 9), 50); ch.phase[5] = -1; ch.Nb_part = 6; }
  InterpTopoPart2Grid(&topo, &ch, MODEL, mesh, I_.scaling, mesh.xg_coord, 0); double v[5]; for (int k = 0; k < 5; k++) v[k] = z[k] - zz0[k];
  m[0] = (w[0]*v[0] + w[1]*v[1])/(w[0] + w[1]); m[1] = (w[2]*v[2] + w[3]*v[3])/(w[2] + w[3]); m[2] = v[4]; double *g = topo.height0; int u = MODEL.topo_update;
  double h1 = (u ? g[1] : 0) + 0.5*(m[0] + m[1]), h2 = (u ? g[2] : 0) + 0.5*(m[1] + m[2]); vx_check_eq(topo.height[1], h1, "height of a node"); vx_check_eq(topo.height[2], h2, "height of a node"); vx_check_eq(topo.height[0], h1, "height at the side"); vx_check_eq(topo.height[3], h2, "height at the side");
}
/* surface markers that sit anywhere in the box stay within the arrays; a flat surface stays flat */
void vx_case_flat(void) {
  vx_flag("exit_is_violation", 1); vx_flag("div0_is_violation", 1); surf(4, 3); MODEL.topo_update = vx_int("update", 0, 1); double z = vx_real("z", -2, 2), x = vx_real("x", -1.5, 1.5), g = vx_real("g", -2, 2); for (int i = 0; i < 4; i++) topo.height0[i] = MODEL.topo_update ? g : 0;
  for (int k = 0; k < 3; k++) { marker(k, -1 + k, z); ch.z0[k] = topo.height0[0]; } marker(3, x, z); ch.z0[3] = topo.height0[0]; ch.Nb_part = 4; InterpTopoPart2Grid(&topo, &ch, MODEL, mesh, I_.scaling, mesh.xg_coord, 0);
  for (int i = 0; i < 4; i++) vx_check_eq(topo.height[i], z, "a flat surface stays flat"); for (int i = 0; i < 6; i++) vx_check_eq(topo.height_finer_c[i], z, "a flat surface stays flat");
}
/* --- markers above the surface are removed */
void vx_case_cleanup(void) {
  surf(4, 3); mdx_fill(H, 4, "h", -2, 2); for (int i = 0; i < 4; i++) topo.height[i] = H[i]; MarkerChainPolyFit(&topo, &ch, MODEL, mesh); part_alloc(2, 3); double x = vx_real("x", -1.5, 1.5), z = vx_real("z", -2, 2); mk.x[0] = x; mk.z[0] = z; mk.phase[0] = 3; mk.x[1] = 0; mk.z[1] = 5; mk.phase[1] = -1;
  CleanUpSurfaceParticles(&mk, &mesh, topo, I_.scaling); double h = line_(H, x); vx_check_eqi(mk.phase[1], -1, "an inactive marker stays so"); vx_check_eq(mk.x[0], x, "position is kept"); vx_check_eq(mk.z[0], z, "position is kept");
  if (mk.phase[0] == -1) vx_check_le(h, z, "a marker below the surface is kept"); else { vx_check_eqi(mk.phase[0], 3, "phase is kept"); vx_check_le(z, h, "a marker above the surface is removed"); }
}
/* --- cells cut by the surface weigh as much as the rock in them */
void vx_case_density(void) {
  vx_flag("exit_is_violation", 1); surf(4, 4); double r[9], q[16]; mdx_fill(r, 9, "r", 1, 8); mdx_fill(q, 16, "q", 1, 8); mdx_fill(H, 4, "h", -1, 1); for (int i = 0; i < 4; i++) topo.height[i] = H[i]; MarkerChainPolyFit(&topo, &ch, MODEL, mesh); I_.scaling.rho = 2;
  int top[3], vt[4]; for (int k = 0; k < 3; k++) { char b[8]; sprintf(b, "n%d", k); top[k] = vx_int(b, 1, 3); for (int l = 0; l < 3; l++) { int c = k + 3*l; mesh.BCp.type[c] = l < top[k] ? -1 : l == top[k] ? 31 : 30; mesh.rho_n[c] = mesh.rho0_n[c] = r[c]; } }
  for (int k = 0; k < 4; k++) { int a = top[k ? k-1 : 0], b = top[k < 3 ? k : 2]; vt[k] = a < b ? a : b; if (vt[k] == 3) vt[k] = 4; for (int l = 0; l < 4; l++) { mesh.BCg.type[k + 4*l] = l < vt[k] ? -1 : 30; mesh.rho_s[k + 4*l] = q[k + 4*l]; } }
  SurfaceDensityCorrection(&mesh, MODEL, topo, I_.scaling);
  for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { int c = k + 3*l; double h = 0.5*(H[k] + H[k+1]), w = fabs(h - mesh.zc_coord[l]); if (l >= top[k]) { vx_check_eq(mesh.rho_n[c], 0.5, "density of the air"); vx_check_eq(mesh.FreeSurfW_n[c], 0, "air has no weight"); } else if (l == top[k]-1 && top[k] < 3) { vx_check_eq(mesh.rho_n[c], w*r[c], "density of a cell at the surface"); vx_check_eq(mesh.rho0_n[c], w*r[c], "density of a cell at the surface"); vx_check_eq(mesh.FreeSurfW_n[c], w, "share of rock"); } else { vx_check_eq(mesh.rho_n[c], r[c], "density inside of the rock"); vx_check_eq(mesh.FreeSurfW_n[c], 1, "share of rock"); } }
  for (int k = 0; k < 4; k++) for (int l = 0; l < 4; l++) { int v = k + 4*l; double h = k == 0 ? 0.5*(H[0] + H[1]) : k == 3 ? 0.5*(H[2] + H[3]) : 0.25*(H[k-1] + 2*H[k] + H[k+1]), w = fabs(h - mesh.zg_coord[l]); if (l >= vt[k]) { vx_check_eq(mesh.rho_s[v], 0.5, "density of the air"); vx_check_eq(mesh.FreeSurfW_s[v], 0, "air has no weight"); } else if (l == vt[k]-1 && vt[k] < 4) { vx_check_eq(mesh.rho_s[v], w*q[v], "density of a vertex at the surface"); vx_check_eq(mesh.FreeSurfW_s[v], w, "share of rock"); } else { vx_check_eq(mesh.rho_s[v], q[v], "density inside of the rock"); vx_check_eq(mesh.FreeSurfW_s[v], 1, "share of rock"); } }
}
/* --- surface processes */
void vx_case_erosion(void) {
  vx_flag("exit_is_violation", 1); surf(5, 3); int sub = vx_int("substeps", 1, 3); double h[5], g[5], K = vx_real("K", 0.125, 4), r = vx_real("rate", 0, 2), b = vx_real("base", -1, 1), dt = (sub - 0.5)*0.4/K; mdx_fill(h, 5, "h", -2, 2); MODEL.surf_diff = K; MODEL.surface_processes = 1; MODEL.surf_sedirate = sub == 1 ? r : 0; MODEL.surf_baselev = b; memcpy(g, h, sizeof g);
  DiffuseAlongTopography(&mesh, MODEL, I_.scaling, h, h, 5, 0, dt); double o[5]; 
  for (int it = 0; it < sub; it++) { memcpy(o, g, sizeof o); for (int i = 1; i < 4; i++) g[i] = o[i] + (sub - 0.5)*0.4/sub*(o[i-1] - 2*o[i] + o[i+1]) + (sub == 1 && o[i] < b ? r*dt : 0); }
  for (int i = 0; i < 5; i++) vx_check_eq(h[i], g[i], i == 0 || i == 4 ? "the ends are fixed" : "the surface diffuses with the diffusivity given, and fills below base level");
}
void vx_case_valley(void) {
  vx_flag("exit_is_violation", 1); mdx_model(5, 3); mdx_box(-2, -2, 1, 1); mdx_grid(); double h[5], h0[5], K = vx_real("K", 0.125, 4), v = vx_real("v", 0, 2), dt = 0.25/K; mdx_fill(h, 5, "h", -2, 2); memcpy(h0, h, sizeof h); MODEL.surf_diff = K; MODEL.surface_processes = 5; MODEL.surf_baselev = -9; MODEL.surf_Vinc = v; int wide = vx_int("wide", 0, 1); double W = wide ? 2.5 : 0.75; MODEL.surf_Winc = W;
  DiffuseAlongTopography(&mesh, MODEL, I_.scaling, h, h, 5, 0, dt); double cut = W*v*dt/(wide ? 3 : 1);
  for (int i = 1; i < 4; i++) vx_check_eq(h[i], h0[i] + 0.25*(h0[i-1] - 2*h0[i] + h0[i+1]) - (wide || i == 2 ? cut : 0), "the valley is cut by the area given");
}
void vx_case_filling(void) {
  surf(4, 3); double h[4], h0[4], r = vx_real("rate", 0, 2), b = vx_real("base", -1, 1), dt = vx_real("dt", 0.125, 2); mdx_fill(h, 4, "h", -2, 2); memcpy(h0, h, sizeof h); MODEL.surf_diff = 1; MODEL.surface_processes = vx_int("fill", 0, 1) ? 2 : 0; MODEL.surf_sedirate = r; MODEL.surf_baselev = b; MODEL.dt = dt;
  DiffuseAlongTopography(&mesh, MODEL, I_.scaling, h, h, 4, 0, dt); for (int i = 0; i < 4; i++) vx_check_eq(h[i], h0[i] + (MODEL.surface_processes == 2 && h0[i] < b ? r*dt : 0), "basins are filled at the rate given");
}
/* new sediment markers fill the space between the old and the new surface */
void vx_case_sediment(void) {
  vx_flag("exit_is_violation", 1); mdx_model(3, 3); MODEL.free_surface = 1; MODEL.finite_strain = MODEL.track_T_P_x_z = MODEL.anisotropy = 1; mdx_box(-1, -2, 1, 1); I_.scaling.T = 2; mdx_grid(); AllocateMarkerChain(&topo, &ch, MODEL); printf("\n"); part_alloc(1, 9); MODEL.surf_ised1 = 3; MODEL.surf_ised2 = 5; I_.materials.rho[3] = 17; I_.materials.rho[5] = 19; int my = vx_int("my", 0, 3); MODEL.time = (my + 0.5)*3600.0*365.25*24.0*1.0e6; I_.materials.gs_ref[3] = 11; I_.materials.gs_ref[5] = 13;
  mdx_fill(H, 3, "h", -1, 1); for (int i = 0; i < 3; i++) { topo.height[i] = H[i]; topo.height0[i] = 0; H0[i] = 0; } MarkerChainPolyFit(&topo, &ch, MODEL, mesh); mk.x[0] = 0.125; mk.z[0] = -1; mk.phase[0] = 1; mk.T[0] = 9;
  AddPartSed(&mk, I_.materials, &ch, &topo, MODEL, I_.scaling, &mesh); int sed = my % 2 ? 3 : 5, n = 1; vx_check(mk.x[0] == 0.125 && mk.z[0] == -1 && mk.phase[0] == 1 && mk.T[0] == 9, "markers that exist are left alone");
  for (int k = 0; k < 8; k++) { double x = -1 + 0.125 + 0.25*k, h = line_(H, x); if (h > 0) {
    vx_check(n < mk.Nb_part, "a marker is added where the surface rose"); if (n >= mk.Nb_part) return; vx_check_eq(mk.x[n], x, "x of a sediment marker"); vx_check_eq(mk.z[n], 0.5*h, "a sediment marker lies between old and new surface"); vx_check_eqi(mk.phase[n], sed, "phase of a sediment marker");
    vx_check(mk.sxxd[n] == 0 && mk.szzd[n] == 0 && mk.sxz[n] == 0 && mk.P[n] == 0, "sediment is free of stress"); vx_check(mk.strain[n] == 0 && mk.strain_pl[n] == 0 && mk.phi[n] == 0 && mk.X[n] == 0, "sediment is undeformed"); vx_check(mk.Fxx[n] == 1 && mk.Fxz[n] == 0 && mk.Fzx[n] == 0 && mk.Fzz[n] == 1, "sediment starts with no finite strain"); vx_check_eq(mk.T[n], 273.15/2, "sediment is at zero degrees"); vx_check_eq(mk.T0[n], 273.15/2, "sediment is at zero degrees"); vx_check_eq(mk.x0[n], x, "origin of a sediment marker"); vx_check_eq(mk.d[n], sed == 3 ? 11 : 13, "grain size of a sediment marker"); vx_check_eq(mk.rho[n], sed == 3 ? 17 : 19, "density of a sediment marker"); vx_check_eqi(mk.dual[n], sed, "dual phase of a sediment marker"); double dn = mk.nx[n]*mk.nx[n] + mk.nz[n]*mk.nz[n] - 1; vx_check(dn < 1e-9 && dn > -1e-9, "director of a sediment marker has length one"); n++; } }
  vx_check_eqi(mk.Nb_part, n, "no marker is added where the surface did not rise");
}
void vx_case_sedimentfull(void) {
  surf(3, 3); part_alloc(1, vx_int("room", 1, 10)); mk.Nb_part = 1; for (int i = 0; i < 3; i++) { topo.height[i] = 1; topo.height0[i] = 0; } MarkerChainPolyFit(&topo, &ch, MODEL, mesh); vx_flag("exit_is_violation", mk.Nb_part_max >= 10); AddPartSed(&mk, I_.materials, &ch, &topo, MODEL, I_.scaling, &mesh); vx_check(mk.Nb_part <= mk.Nb_part_max, "no more markers than there is room for");
}
/* --- velocity of the surface */
void vx_case_velocity(void) {
  vx_flag("exit_is_violation", 1); surf(4, 5); int nx = 4, top[3]; double U[4], V[5], x = vx_real("x", -1.5, 1.5); mdx_fill(U, 4, "u", -2, 2); mdx_fill(V, 5, "v", -2, 2); for (int k = 0; k < 3; k++) { char b[8]; sprintf(b, "n%d", k); top[k] = vx_int(b, 2, 3); }
  for (int l = 0; l < 6; l++) for (int k = 0; k < nx; k++) { int a = top[k ? k-1 : 0], b = top[k < 3 ? k : 2], t = a > b ? a : b; mesh.BCu.type[k + l*nx] = l <= t ? -1 : 30; mesh.u_in[k + l*nx] = U[k]; }
  for (int l = 0; l < 5; l++) for (int k = 0; k < nx+1; k++) { int t = top[k == 0 ? 0 : k > 3 ? 2 : k-1]; mesh.BCv.type[k + l*(nx+1)] = l <= t ? -1 : 30; mesh.v_in[k + l*(nx+1)] = V[k]; }
  marker(0, x, 0); ch.Nb_part = 1; ch.Vx[0] = ch.Vz[0] = 77; SurfaceVelocity(&mesh, MODEL, &topo, &ch, I_.scaling); double s = x + 1.5, q = x + 2; int i = 0, j = 0; while (i < 2 && s > 1) { s -= 1; i++; } while (j < 3 && q > 1) { q -= 1; j++; }
  vx_check_eq(ch.Vx[0], (1-s)*U[i] + s*U[i+1], "horizontal velocity of a surface marker"); vx_check_eq(ch.Vz[0], (1-q)*V[j] + q*V[j+1], "vertical velocity of a surface marker"); vx_check_eq(ch.x[0], x, "surface markers are not moved yet");
}
/* --- remeshing */
static void remesh_ini(int full) {
  surf(3, 3); for (int i = 0; i < 3; i++) { topo.height[i] = H[i] = 0.5*i - 1 + 0.25*(i == 1); topo.height0[i] = H0[i] = -0.25*i; topo.vx[i] = topo.vz[i] = 2; } topo.vz[3] = 2; MarkerChainPolyFit(&topo, &ch, MODEL, mesh); (void)full;
}
void vx_case_addmarkers(void) {
  vx_flag("exit_is_violation", 1); remesh_ini(1); int n = 0, hole = vx_int("hole", 0, 3), left = vx_int("left", 0, 4), out = vx_int("out", 0, 3); double xl = vx_real("xl", -1.45, 0.45);
  for (int c = 0; c < 4; c++) for (int i = 0; i < (c == hole ? left : 4); i++) { double x = -1.5 + 0.5*c + 0.0625 + 0.125*i; marker(n, x, line_(H, x) + 0.25); ch.z0[n] = line_(H0, x); n++; } int n0 = n;
  for (int i = 0; i < out; i++) { double x = i == 1 ? -3 - xl*0 : 3 + xl; marker(n, x, 7); n++; }
  ch.Nb_part = n; int act = 0, cnt[4] = { 0, 0, 0, 0 }; RemeshMarkerChain(&ch, &topo, MODEL, I_.scaling, &mesh, 1);
  for (int k = 0; k < ch.Nb_part; k++) { if (ch.phase[k] == -1) { vx_check(k >= n0, "a surface marker in the box is kept"); continue; } act++; double x = ch.x[k]; vx_check(x >= -1.5 && x <= 0.5, "active surface markers are in the box"); cnt[(int)((x + 1.5)*2)]++;
    vx_check_eq(ch.z0[k], line_(H0, x), "old height of a surface marker"); vx_check_eq(ch.z[k], line_(H, x) + (k < n0 ? 0.25 : 0), k < n0 ? "markers that exist are left alone" : "new markers lie on the surface"); if (k >= n0) { vx_check_eq(ch.Vx[k], 2, "new markers move with the surface"); vx_check_eq(ch.Vz[k], 2, "new markers move with the surface"); } }
  for (int c = 0; c < 4; c++) vx_check_eqi(cnt[c], c == hole && left < 4 ? left + 2 : 4, "markers are added where there are too few"); (void)act;
}
void vx_case_resetmarkers(void) {
  vx_flag("exit_is_violation", 1); remesh_ini(1); double x = vx_real("x", -1.5, 0.5), z = vx_real("z", -2, 2); marker(0, x, z); ch.Nb_part = 1; RemeshMarkerChain(&ch, &topo, MODEL, I_.scaling, &mesh, 2); vx_check_eq(ch.x[0], x, "x of a marker"); vx_check_eq(ch.z[0], line_(H, x), "the marker is put on the surface"); vx_check_eq(ch.z0[0], line_(H, x), "the marker is put on the surface");
  marker(0, x, z); CorrectTopoIni(&mk, I_.materials, &ch, &topo, MODEL, I_.scaling, &mesh); double h = line_(H, x); vx_check_eq(ch.z[0], z > h ? h : z, "the initial surface is never above the surface");
}
void vx_case_zeromean(void) {
  surf(3, 3); mdx_fill(topo.height, 3, "h", -2, 2); double h[3], z[4]; memcpy(h, topo.height, sizeof h); mdx_fill(z, 4, "z", -2, 2); for (int k = 0; k < 4; k++) marker(k, -1.5 + 0.5*k, z[k]); ch.Nb_part = 4; int out = vx_int("out", 0, 1); if (out) ch.phase[3] = -1; for (int k = 4; k < ch.Nb_part_max; k++) ch.z[k] = 100; KeepZeroMeanTopo(&MODEL, &topo, &ch); printf("\n");
  double m = (h[0] + h[1] + h[2])/3, q = out ? (z[0] + z[1] + z[2])/3 : (z[0] + z[1] + z[2] + z[3])/4; for (int i = 0; i < 3; i++) vx_check_eq(topo.height[i], h[i] - m, "the surface has zero mean height"); for (int k = 0; k < 3; k++) vx_check_eq(ch.z[k], z[k] - q, "the surface markers have zero mean height");
}
