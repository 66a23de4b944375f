/*VX {"default": {"budget": 300, "max_paths": 6000, "bounds": "3x3 nodes, one marker at any position (plus an inactive one), all nodal values, time steps and marker states"},
 "aspect": {"budget": 200}} */
#include "part.h"
static double hat(double d) { if (d < 0) d = -d; return d < 1 ? 1 - d : 0; }
static double bilin(int k, const double *f, int nc, int nr, double o) {
  double s = ps_[k] - o, t = pt_[k] - o, v = 0;
  if (s < 0) s = 0; if (s > nc-1) s = nc-1; if (t < 0) t = 0; if (t > nr-1) t = nr-1;
  for (int j = 0; j < nr; j++) for (int i = 0; i < nc; i++) v += hat(s - i)*hat(t - j)*f[i + j*nc];
  return v;
}
static int NX = 3, NZ = 3;
static double cen(const double *f) { return bilin(0, f, NX-1, NZ-1, 0.5); }
static double ver(const double *f) { return bilin(0, f, NX, NZ, 0); }
static void start(void) {
  vx_flag("exit_is_violation", 1);
  mdx_box(-1, 2, 1, 0.5); mdx_grid(); part_alloc(2, 4); part_sym(0); mk.phase[0] = 0; part_at(1, 0.25, 0.75); mk.phase[1] = -1; mk.x[1] = -100;
  MODEL.dt = vx_real("dt", 0.0625, 4);
}
/* accumulated strain */
#define MECH(X) X(el) X(pl) X(pwl) X(exp) X(lin) X(gbs)
static int step;
static void strain(int air) {
  mdx_model(3, 3); start(); if (air == 0) MODEL.dt = 0.75; if (air == 2) air = 0, step = 1; double cst[4], r[4]; int q = air ? vx_int("aircell", 0, 3) : -1;
  int sel = air || step ? 1 : vx_int("mechanism", 0, 6), nm = 0;
#define X(m) if (nm == sel && !step) mdx_fill(mesh.eII_##m, 4, "e" #m, 0, 8); else for (int i = 0; i < 4; i++) mesh.eII_##m[i] = (i*i + nm % 3)*0.5*step; mk.strain_##m[0] = 0.5 + nm; double o_##m = mk.strain_##m[0]; mk.strain_##m[1] = 5; nm++;
  MECH(X)
#undef X
  if (nm == sel && !step) mdx_fill(mesh.eII_cst, 4, "ecst", 0, 8); else for (int i = 0; i < 4; i++) mesh.eII_cst[i] = 0.75*i*step; mk.strain[0] = vx_real("st", 0, 8); double o = mk.strain[0]; mk.strain[1] = 7;
  if (air) {
    mesh.BCp.type[q] = vx_int("airtype", 30, 31); double u = vx_real("u", 0, 8);
    for (int i = 0; i < 4; i++) if (i != q) mesh.eII_pl[i] = u;
    AccumulatedStrainII(&mesh, I_.scaling, MODEL, &mk, mesh.xc_coord, mesh.zc_coord, 2, 2, mesh.BCp.type);
    double d = mk.strain_pl[0] - o_pl; double w = 0; for (int i = 0; i < 4; i++) { double e[4] = {0,0,0,0}; e[i] = 1; if (i != q) w += cen(e); }
    vx_check_le(0, d, "accumulated strain never decreases");
    if (w > 0.0625) vx_check_eq(d, MODEL.dt*u, "a uniform strain rate in the rock adds its strain, whatever the air holds");
    return;
  }
  AccumulatedStrainII(&mesh, I_.scaling, MODEL, &mk, mesh.xc_coord, mesh.zc_coord, 2, 2, mesh.BCp.type);
  for (int i = 0; i < 4; i++) r[i] = mesh.eII_cst[i];
#define X(m) vx_check_eq(mk.strain_##m[0] - o_##m, MODEL.dt*cen(mesh.eII_##m), "strain of a mechanism grows by its interpolated rate times the step"); vx_check_eq(mk.strain_##m[1], 5, "inactive marker"); for (int i = 0; i < 4; i++) r[i] += mesh.eII_##m[i];
  MECH(X)
#undef X
  vx_check_eq(mk.strain[0] - o, MODEL.dt*cen(r), "total strain grows by the sum of all mechanisms"); vx_check_eq(mk.strain[1], 7, "inactive marker");
}
void vx_case_strain(void)    { strain(0); }
void vx_case_strainstep(void) { strain(2); }
void vx_case_strainair(void) { strain(1); }
/* deformation gradient and director in any linear flow */
static double L[4];
static void flow(void) {
  int Nx = MODEL.Nx, Nz = MODEL.Nz; double u0 = vx_real("u0", -4, 4), v0 = vx_real("v0", -4, 4); mdx_fill(L, 4, "L", -4, 4);
  for (int j = 0; j < Nz+1; j++) for (int i = 0; i < Nx; i++) mesh.u_in[i + j*Nx] = u0 + L[0]*mesh.xg_coord[i] + L[1]*mesh.zvx_coord[j];
  for (int j = 0; j < Nz; j++) for (int i = 0; i < Nx+1; i++) mesh.v_in[i + j*(Nx+1)] = v0 + L[2]*mesh.xvz_coord[i] + L[3]*mesh.zg_coord[j];
}
void vx_case_gradient(void) {
  mdx_model(3, 3); MODEL.finite_strain = 1; start(); flow(); double F[4], dt = MODEL.dt; mdx_fill(F, 4, "F", -4, 4); mk.Fxx[0] = F[0]; mk.Fxz[0] = F[1]; mk.Fzx[0] = F[2]; mk.Fzz[0] = F[3];
  DeformationGradient(mesh, I_.scaling, MODEL, &mk);
  vx_check_eq(mk.Fxx[0], (1 + dt*L[0])*F[0] + dt*L[1]*F[2], "deformation gradient xx"); vx_check_eq(mk.Fxz[0], (1 + dt*L[0])*F[1] + dt*L[1]*F[3], "deformation gradient xz");
  vx_check_eq(mk.Fzx[0], dt*L[2]*F[0] + (1 + dt*L[3])*F[2], "deformation gradient zx"); vx_check_eq(mk.Fzz[0], dt*L[2]*F[1] + (1 + dt*L[3])*F[3], "deformation gradient zz");
}
void vx_case_director(void) {
  mdx_model(3, 3); MODEL.anisotropy = 1; MODEL.advection = vx_int("adv", 0, 1); start(); flow(); double nx = vx_real("nx", -1, 1), nz = vx_real("nz", -1, 1), dt = MODEL.dt; vx_assume_eq(nx*nx + nz*nz, 1); mk.nx[0] = nx; mk.nz[0] = nz; mk.nx[1] = 1; mk.nz[1] = 0;
  UpdateParticleStress(&mesh, &mk, &MODEL, &I_.materials, &I_.scaling);
  if (MODEL.advection == 0) { vx_check_eq(mk.nx[0], nx, "no rotation without advection"); vx_check_eq(mk.nz[0], nz, "no rotation without advection"); return; }
  /* a layer normal follows n' = -L^T n, renormalised */
  double g = L[0]*nx*nx + (L[1] + L[2])*nx*nz + L[3]*nz*nz, a = nx + dt*(-L[0]*nx - L[2]*nz + g*nx), b = nz + dt*(-L[1]*nx - L[3]*nz + g*nz);
  vx_check_eq(mk.nx[0]*mk.nx[0] + mk.nz[0]*mk.nz[0], 1, "the director keeps unit length");
  vx_check_eq(mk.nx[0]*b, mk.nz[0]*a, "the director rotates with the layer it is normal to"); vx_check_le(0, mk.nx[0]*a + mk.nz[0]*b, "the director keeps its sense");
  vx_check_eq(mk.nx[1], 1, "inactive marker");
}
/* finite strain ellipse: aspect ratio of the singular values of F */
static void many(int n) {   /* n x n markers per cell, concrete positions */
  mdx_box(-1, 2, 1, 0.5); mdx_grid(); part_alloc(4*n*n, 4*n*n); int k = 0;
  for (int j = 0; j < 2*n; j++) for (int i = 0; i < 2*n; i++) { part_at(k, (i + 0.5)/n, (j + 0.5)/n); mk.phase[k] = 0; mk.generation[k] = 0; k++; }
}
static void aspect(int kind) {
  mdx_model(3, 3); MODEL.anisotropy = 1; MODEL.finite_strain = 1; many(2); double a = vx_real("a", 0.25, 4), b = vx_real("b", 0.25, 4), g = vx_real("g", -4, 4), F[4];
  static const double R[3][2] = { {1, 0}, {0.6, 0.8}, {-0.8, 0.6} }; double c = R[kind][0], s = R[kind][1];
  F[0] = c*a; F[1] = c*g - s*b; F[2] = s*a; F[3] = s*g + c*b;     /* rotation times upper triangular */
  for (int k = 0; k < 16; k++) { mk.Fxx[k] = F[0]; mk.Fxz[k] = F[1]; mk.Fzx[k] = F[2]; mk.Fzz[k] = F[3]; }
  FiniteStrainAspectRatio(&mesh, I_.scaling, MODEL, &mk);
  double tr = a*a + g*g + b*b, det = a*b;
  double ar[2] = { mesh.FS_AR_n[0], mesh.FS_AR_s[4] };
  for (int i = 0; i < 2; i++) { if (!i) vx_check_le(1, ar[i], "the aspect ratio is at least one"); vx_check_eq(ar[i]*ar[i]*det + det, tr*ar[i], "aspect ratio of the strain ellipse"); }
}
void vx_case_aspect(void) { aspect(0); }
void vx_case_aspect1(void) { aspect(1); }
void vx_case_aspect2(void) { aspect(2); }
/* peak conditions */
void vx_case_peak(void) {
  mdx_model(3, 3); MODEL.track_T_P_x_z = 1; start(); double T = vx_real("T", -8, 8), P = vx_real("P", -8, 8), Tm = vx_real("Tm", -8, 8), Pm = vx_real("Pm", -8, 8); mk.T[0] = T; mk.P[0] = P; mk.Tmax[0] = Tm; mk.Pmax[0] = Pm;
  UpdateMaxPT(I_.scaling, MODEL, &mk);
  vx_check_eq(mk.Tmax[0], T > Tm ? T : Tm, "peak temperature"); vx_check_eq(mk.Pmax[0], P > Pm ? P : Pm, "peak pressure"); vx_check_eq(mk.T[0], T, "temperature"); vx_check_eq(mk.P[0], P, "pressure");
}
/* grid changes are passed on to the markers */
static double o0[4], o1[4], dd[9];
static void change(double *now, double *old, int n) { mdx_fill(now, n, "now", -8, 8); for (int i = 0; i < n; i++) old[i] = 0.25*i - 0.5; for (int i = 0; i < n; i++) dd[i] = now[i] - old[i]; }
static double clip(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
#define UPD(fld, now, old, call, wrap) do { mdx_model(NX, NZ); start(); double v = vx_real("v", 0, 1); mk.fld[0] = v; change(now, old, (NX-1)*(NZ-1)); call; vx_check_eq(mk.fld[0], wrap(v + cen(dd)), "a marker receives the change of the grid field"); } while (0)
void vx_case_density(void) { UPD(rho, mesh.rho_n, mesh.rho0_n, UpdateParticleDensity(&mesh, I_.scaling, MODEL, &mk, &I_.materials), ); }
void vx_case_melt(void) { UPD(phi, mesh.phi_n, mesh.phi0_n, UpdateParticlePhi(&mesh, I_.scaling, MODEL, &mk, &I_.materials), clip); }
void vx_case_comp(void) { UPD(X, mesh.X_n, mesh.X0_n, UpdateParticleX(&mesh, I_.scaling, MODEL, &mk, &I_.materials), clip); }
void vx_case_temp(void) { UPD(T, mesh.T, mesh.T0_n, UpdateParticleEnergy(&mesh, I_.scaling, MODEL, &mk, &I_.materials), ); }
void vx_case_pres(void) { UPD(P, mesh.p_in, mesh.p0_n, UpdateParticlePressure(&mesh, I_.scaling, MODEL, &mk, &I_.materials), ); }
void vx_case_divth(void) { UPD(divth, mesh.divth_n, mesh.divth0_n, UpdateParticleDivThermal(&mesh, I_.scaling, MODEL, &mk, &I_.materials), ); }
void vx_case_grain(void) { mdx_model(NX, NZ); start(); mk.d[0] = 3; mdx_fill(mesh.d_n, (NX-1)*(NZ-1), "d", 0.0625, 8); UpdateParticleGrainSize(&mesh, I_.scaling, MODEL, &mk, &I_.materials); vx_check_eq(mk.d[0], cen(mesh.d_n), "a marker receives the grain size of the grid"); }
/* the same where columns and rows differ in number */
void vx_case_density2(void) { NZ = 4; vx_case_density(); }
void vx_case_comp2(void) { NZ = 4; vx_case_comp(); }
void vx_case_temp2(void) { NZ = 4; vx_case_temp(); }
void vx_case_pres2(void) { NZ = 4; vx_case_pres(); }
void vx_case_divth2(void) { NZ = 4; vx_case_divth(); }
void vx_case_grain2(void) { NZ = 4; vx_case_grain(); }
void vx_case_melt2(void) { NZ = 4; vx_case_melt(); }
void vx_case_density3(void) { NX = 4; vx_case_density(); }
void vx_case_comp3(void) { NX = 4; vx_case_comp(); }
void vx_case_temp3(void) { NX = 4; vx_case_temp(); }
void vx_case_pres3(void) { NX = 4; vx_case_pres(); }
void vx_case_divth3(void) { NX = 4; vx_case_divth(); }
void vx_case_grain3(void) { NX = 4; vx_case_grain(); }
void vx_case_melt3(void) { NX = 4; vx_case_melt(); }
/* stresses: change of the grid stress, then rotation with the material */
static void stress(int rot) {
  mdx_model(3, 3); MODEL.elastic = 1; MODEL.subgrid_diffusion = vx_int("sub", 0, 1); MODEL.stress_rotation = rot; start(); double xx = vx_real("xx", -8, 8), zz = vx_real("zz", -8, 8), xz = vx_real("xz", -8, 8), dt = MODEL.dt, w = 0, dxx = 0, dzz = 0, dxz = 0;
  mk.sxxd[0] = xx; mk.szzd[0] = zz; mk.sxz[0] = xz;
  if (rot == 0) { change(mesh.sxxd, mesh.sxxd0, 4); dxx = cen(dd);  for (int i = 0; i < 4; i++) { char b[9]; sprintf(b, "nz%d", i); mesh.szzd[i] = vx_real(b, -8, 8); mesh.szzd0[i] = 0.5; dd[i] = mesh.szzd[i] - 0.5; } dzz = cen(dd);
    for (int i = 0; i < 9; i++) { char b[9]; sprintf(b, "nxz%d", i); mesh.sxz[i] = vx_real(b, -8, 8); mesh.sxz0[i] = 0.25*i; dd[i] = mesh.sxz[i] - 0.25*i; } dxz = ver(dd); mdx_fill(mesh.wxz, 9, "w", -4, 4); }
  else { w = vx_real("w", -4, 4); double uni = rot == 2 ? 0 : vx_real("wx", -1, 1); for (int i = 0; i < 9; i++) mesh.wxz[i] = w + uni*(i % 3); w += uni*ps_[0]; }
  UpdateParticleStress(&mesh, &mk, &MODEL, &I_.materials, &I_.scaling);
  xx += dxx; zz += dzz; xz += dxz;
  double exx = xx, ezz = zz, exz = xz;
  if (rot == 1) { exx = xx - 2*dt*w*xz; ezz = zz + 2*dt*w*xz; exz = xz + dt*w*(xx - zz); }
  if (rot == 2) { double c = cos(dt*w), s = sin(dt*w); exx = c*c*xx - 2*c*s*xz + s*s*zz; ezz = s*s*xx + 2*c*s*xz + c*c*zz; exz = c*s*(xx - zz) + (c*c - s*s)*xz; }
  vx_check_eq(mk.sxxd[0], exx, rot ? "stress xx turns with the material" : "stress xx receives the change of the grid stress"); vx_check_eq(mk.szzd[0], ezz, rot ? "stress zz turns with the material" : "stress zz receives the change of the grid stress"); vx_check_eq(mk.sxz[0], exz, rot ? "stress xz turns with the material" : "stress xz receives the change of the grid stress");
}
void vx_case_stress(void)  { stress(0); }
void vx_case_jaumann(void) { stress(1); }
void vx_case_rotate(void)  { stress(2); }
/* subgrid diffusion moves differences between markers, not the change of the grid */
static void sub(int what) {
  mdx_model(3, 3); MODEL.subgrid_diffusion = 2; MODEL.elastic = what == 2; MODEL.stress_rotation = 0; vx_flag("exit_is_violation", 1); many(what == 2 ? 2 : 1); MODEL.dt = vx_real("dt", 0.0625, 4); double v0[16], v1[16]; int n = mk.Nb_part;
  I_.materials.Cp[0] = vx_real("Cp", 0.25, 4); I_.materials.k[0] = vx_real("k", 0.25, 4); I_.materials.bet[0] = vx_real("bet", 0.25, 4); I_.materials.G[0] = vx_real("G", 0.25, 4);
  for (int i = 0; i < 4; i++) { mesh.rho_n[i] = 2; mesh.eta_phys_n[i] = 3; } for (int i = 0; i < 9; i++) mesh.eta_phys_s[i] = 3;
  if (what == 0) { mdx_fill(mk.T, n, "T", -8, 8); memcpy(v0, mk.T, sizeof(double)*n); change(mesh.T, mesh.T0_n, 4); UpdateParticleEnergy(&mesh, I_.scaling, MODEL, &mk, &I_.materials); for (int k = 0; k < n; k++) vx_check_eq(mk.T[k], v0[k] + dd[k], "the mean temperature of the markers of a cell changes as the cell"); }
  if (what == 1) { mdx_fill(mk.P, n, "P", -8, 8); memcpy(v0, mk.P, sizeof(double)*n); change(mesh.p_in, mesh.p0_n, 4); UpdateParticlePressure(&mesh, I_.scaling, MODEL, &mk, &I_.materials); for (int k = 0; k < n; k++) vx_check_eq(mk.P[k], v0[k] + dd[k], "the mean pressure of the markers of a cell changes as the cell"); }
  if (what == 2) {
    double a[3], b[3], c[3]; mdx_fill(a, 3, "m", -8, 8); mdx_fill(b, 3, "g0", -8, 8); mdx_fill(c, 3, "g1", -8, 8); (void)v1;
    for (int k = 0; k < n; k++) { mk.sxxd[k] = a[0]; mk.szzd[k] = a[1]; mk.sxz[k] = a[2]; }
    for (int i = 0; i < 4; i++) { mesh.sxxd0[i] = b[0]; mesh.sxxd[i] = c[0]; mesh.szzd0[i] = b[1]; mesh.szzd[i] = c[1]; } for (int i = 0; i < 9; i++) { mesh.sxz0[i] = b[2]; mesh.sxz[i] = c[2]; }
    UpdateParticleStress(&mesh, &mk, &MODEL, &I_.materials, &I_.scaling);
    for (int k = 0; k < n; k += 5) { vx_check_eq(mk.sxxd[k], a[0] + c[0] - b[0], "uniform stress xx changes as the grid"); vx_check_eq(mk.szzd[k], a[1] + c[1] - b[1], "uniform stress zz changes as the grid"); vx_check_eq(mk.sxz[k], a[2] + c[2] - b[2], "uniform stress xz changes as the grid"); }
  }
}
void vx_case_subT(void) { sub(0); }
void vx_case_subP(void) { sub(1); }
void vx_case_subS(void) { sub(2); }
/* phase changes at a temperature */
void vx_case_transmute(void) {
  mdx_model(3, 3); mdx_box(-1, 2, 1, 0.5); mdx_grid(); int n = vx_int("n", 1, 3); part_alloc(n, 4); mat_prop *m = &I_.materials; m->Nb_phases = 3; double T[3], Tt = vx_real("Tt", 1, 8);
  int mode = vx_int("mode", -1, 1), ph[3]; m->transmutation[1] = mode; m->transmutation_phase[1] = 2; m->transmutation_temperature[1] = Tt; m->transmutation[0] = 0; m->transmutation_phase[0] = 2; m->transmutation_temperature[0] = 2;
  for (int k = 0; k < n; k++) { char b[9]; sprintf(b, "T%d", k); T[k] = mk.T[k] = vx_real(b, 0, 9); sprintf(b, "p%d", k); ph[k] = vx_int(b, -1, 1); mk.phase[k] = mk.dual[k] = ph[k]; }
  mk.phase[n] = mk.dual[n] = 1; mk.T[n] = Tt;
  TransmutateMarkers(&mk, m, 1.0); vx_check_eqi(mk.phase[n], 1, "nothing beyond the last marker");
  for (int k = 0; k < n; k++) {
    int hit = ph[k] == 1 && ((mode == -1 && T[k] <= Tt) || (mode == 1 && T[k] >= Tt));
    vx_check_eqi(mk.phase[k], hit ? 2 : ph[k], "every marker beyond the transition temperature, and no other, changes phase"); vx_check_eqi(mk.dual[k], hit ? 2 : ph[k], "displayed phase follows"); vx_check_eq(mk.T[k], T[k], "temperature");
  }
}
void vx_case_grainini(void) {
  mdx_model(3, 3); start(); I_.materials.gs_ref[0] = vx_real("g0", 0.25, 4); I_.materials.gs_ref[1] = vx_real("g1", 0.25, 4); mk.phase[0] = vx_int("ph", 0, 1); InitialiseGrainSizeParticles(&mk, &I_.materials); vx_check_eq(mk.d[0], I_.materials.gs_ref[mk.phase[0]], "markers start with the reference grain size of their phase");
}
/* gradients of any velocity field reach the marker by interpolation from where they live */
static void field(int dir) {
  mdx_model(3, 3); MODEL.finite_strain = 1; MODEL.anisotropy = dir; MODEL.advection = 1; vx_flag("exit_is_violation", 1); mdx_box(-1, 2, 1, 0.5); mdx_grid(); part_alloc(1, 4); mk.phase[0] = 0; MODEL.dt = 0.5;
  static const double at[5][2] = { {0.25, 0.375}, {1.25, 0.125}, {0.75, 1.625}, {1.0625, 1.1875}, {1.875, 1.75} }; int w = vx_int("where", 0, 4); part_at(0, at[w][0], at[w][1]);
  mdx_fill(mesh.u_in, 12, "u", -4, 4); mdx_fill(mesh.v_in, 12, "v", -4, 4); double a[4], b[9], c[9], d[4], dt = 0.5;
  for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) { a[i + 2*j] = (mesh.u_in[i + 1 + (j + 1)*3] - mesh.u_in[i + (j + 1)*3])/mesh.dx; d[i + 2*j] = (mesh.v_in[i + 1 + (j + 1)*4] - mesh.v_in[i + 1 + j*4])/mesh.dz; }
  for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) { b[i + 3*j] = (mesh.u_in[i + (j + 1)*3] - mesh.u_in[i + j*3])/mesh.dz; c[i + 3*j] = (mesh.v_in[i + 1 + j*4] - mesh.v_in[i + j*4])/mesh.dx; }
  double L0 = cen(a), L1 = ver(b), L2 = ver(c), L3 = cen(d);
  if (!dir) {
    mk.Fxx[0] = mk.Fzz[0] = 1; mk.Fxz[0] = mk.Fzx[0] = 0; DeformationGradient(mesh, I_.scaling, MODEL, &mk);
    vx_check_eq(mk.Fxx[0], 1 + dt*L0, "deformation gradient xx from the local velocity gradient"); vx_check_eq(mk.Fxz[0], dt*L1, "deformation gradient xz from the local velocity gradient"); vx_check_eq(mk.Fzx[0], dt*L2, "deformation gradient zx from the local velocity gradient"); vx_check_eq(mk.Fzz[0], 1 + dt*L3, "deformation gradient zz from the local velocity gradient");
  } else {
    double nx = 0.6, nz = 0.8; mk.nx[0] = nx; mk.nz[0] = nz; UpdateParticleStress(&mesh, &mk, &MODEL, &I_.materials, &I_.scaling);
    double g = L0*nx*nx + (L1 + L2)*nx*nz + L3*nz*nz, p = nx + dt*(-L0*nx - L2*nz + g*nx), q = nz + dt*(-L1*nx - L3*nz + g*nz);
    vx_check_eq(mk.nx[0]*q, mk.nz[0]*p, "the director turns with the local velocity gradient");
  }
}
void vx_case_gradfield(void) { field(0); }
void vx_case_dirfield(void)  { field(1); }
/* values held in air cells never reach the markers of the rock */
void vx_case_changeair(void) {
  mdx_model(3, 3); MODEL.elastic = 1; MODEL.stress_rotation = 0; MODEL.subgrid_diffusion = 0; start(); vx_assume_le(pt_[0], 1.5); int q = vx_int("air", 2, 3), w = vx_int("what", 0, 6), ty = vx_int("type", 30, 31); double u = vx_real("u", -1, 1), junk = vx_real("junk", -8, 8), wt = 0; mesh.BCp.type[q] = ty; mesh.BCt.type[q] = 30;
  double *now[7] = { mesh.rho_n, mesh.phi_n, mesh.X_n, mesh.T, mesh.p_in, mesh.divth_n, mesh.sxxd }, *old[7] = { mesh.rho0_n, mesh.phi0_n, mesh.X0_n, mesh.T0_n, mesh.p0_n, mesh.divth0_n, mesh.sxxd0 }, *mp[7] = { mk.rho, mk.phi, mk.X, mk.T, mk.P, mk.divth, mk.sxxd };
  for (int i = 0; i < 4; i++) { old[w][i] = 0.25*i; now[w][i] = 0.25*i + (i == q ? junk : u); double e[4] = {0,0,0,0}; e[i] = 1; if (i != q) wt += cen(e); } mp[w][0] = 0.5;
  if (w == 0) UpdateParticleDensity(&mesh, I_.scaling, MODEL, &mk, &I_.materials); if (w == 1) UpdateParticlePhi(&mesh, I_.scaling, MODEL, &mk, &I_.materials); if (w == 2) UpdateParticleX(&mesh, I_.scaling, MODEL, &mk, &I_.materials); if (w == 3) UpdateParticleEnergy(&mesh, I_.scaling, MODEL, &mk, &I_.materials); if (w == 4) UpdateParticlePressure(&mesh, I_.scaling, MODEL, &mk, &I_.materials); if (w == 5) UpdateParticleDivThermal(&mesh, I_.scaling, MODEL, &mk, &I_.materials); if (w == 6) UpdateParticleStress(&mesh, &mk, &MODEL, &I_.materials, &I_.scaling);
  double v = 0.5 + u; if (w == 1 || w == 2) v = clip(v);
  if (wt > 0.0625) vx_check_eq(mp[w][0], v, "a uniform change in the rock reaches its markers, whatever the air holds");
}
