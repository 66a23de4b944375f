/*VX {"default": {"budget": 300, "max_paths": 20000, "bounds": "two markers, every callback of the setup present or absent in turn, arbitrary values; 2x2 cells with up to 2x3 markers per cell in a box with arbitrary origin and spacing; lithostatic columns of 2x4 cells"}, "case": {"layout": {"weight": 3}, "noise": {"bounds": "2x1 cells, random numbers 0, 1/2 and 1"}, "name": {"bounds": "paths of up to 5 characters before the extension"}}} */
#include "part.h"
/* --- markers take the values of the setup's callbacks, or the documented defaults */
static SetParticles_ff sp;
enum { fPHASE, fT, fADJ, fDUAL, fVX, fVZ, fD, fPHI, fRHO, fX, fP, fTXX, fTZZ, fTXZ, fNOISE, fF, fANGLE, NF };
static double val_[NF][2];
static double px[2], pz[2];
static int ph1[2], ph2[2], du[2];
static int who(Coordinates c) { vx_check((c.x == px[0] && c.z == pz[0]) || (c.x == px[1] && c.z == pz[1]), "coordinates passed to the callback"); return c.x == px[0] ? 0 : 1; }
static int cur_[2];
static double get(int f, Coordinates c, int phase) { int i = who(c); vx_check_eqi(phase, cur_[i], "phase passed to the callback"); return val_[f][i]; }
static int cPhase(MdoodzInput *in, Coordinates c) { return ph1[who(c)]; }
static double cT(MdoodzInput *in, Coordinates c) { return val_[fT][who(c)]; }
static double wantT[2];
static int cAdj(MdoodzInput *in, Coordinates c, double T, int phase) { int i = who(c); vx_check_eq(T, wantT[i], "temperature passed to the callback"); vx_check_eqi(phase, sp.SetPhase ? ph1[i] : 0, "phase passed to the callback"); return ph2[i]; }
static int cDual(MdoodzInput *in, Coordinates c, int phase) { int i = who(c); vx_check_eqi(phase, cur_[i], "phase passed to the callback"); return du[i]; }
static double cVx(MdoodzInput *in, Coordinates c) { return val_[fVX][who(c)]; }
static double cVz(MdoodzInput *in, Coordinates c) { return val_[fVZ][who(c)]; }
static double cD(MdoodzInput *in, Coordinates c, int p) { return get(fD, c, p); }
static double cPhi(MdoodzInput *in, Coordinates c, int p) { return get(fPHI, c, p); }
static double cRho(MdoodzInput *in, Coordinates c, int p) { return get(fRHO, c, p); }
static double cX(MdoodzInput *in, Coordinates c, int p) { return get(fX, c, p); }
static double cP(MdoodzInput *in, Coordinates c, int p) { return get(fP, c, p); }
static double cTxx(MdoodzInput *in, Coordinates c, int p) { return get(fTXX, c, p); }
static double cTzz(MdoodzInput *in, Coordinates c, int p) { return get(fTZZ, c, p); }
static double cTxz(MdoodzInput *in, Coordinates c, int p) { return get(fTXZ, c, p); }
static double cNoise(MdoodzInput *in, Coordinates c, int p) { return get(fNOISE, c, p); }
static Tensor2D cF(MdoodzInput *in, Coordinates c, int p) { double v = get(fF, c, p); Tensor2D F; F.xx = v; F.xz = 2*v; F.zx = 3*v; F.zz = 4*v; return F; }
static double cAng(MdoodzInput *in, Coordinates c, int p, double pre) { return get(fANGLE, c, p); }
void vx_case_markers(void) {
  vx_flag("exit_is_violation", 1); mdx_model(3, 3); mdx_box(-2, -3, 1.5, 1.25); MODEL.Nb_phases = 3; MODEL.finite_strain = vx_int("finite_strain", 0, 1); MODEL.anisotropy = MODEL.marker_aniso_angle = 1; MODEL.bkg_strain_rate = vx_real("rate", -4, 4); I_.scaling.T = 4;
  part_alloc(2, 3); memset(&sp, 0, sizeof sp); int one = vx_int("callback", -1, NF-1), inv = vx_int("others", 0, 1); char b[16];
  for (int i = 0; i < 3; i++) { sprintf(b, "rho%d", i); I_.materials.rho[i] = vx_real(b, 1, 8); }
  px[0] = vx_real("x0", -2, -0.5); px[1] = vx_real("x1", -0.25, 1); for (int i = 0; i < 2; i++) { sprintf(b, "z%d", i); pz[i] = vx_real(b, -3, -0.5); mk.x[i] = px[i]; mk.z[i] = pz[i]; }
  for (int f = 0; f < NF; f++) for (int i = 0; i < 2; i++) { sprintf(b, "v%d_%d", f, i); val_[f][i] = vx_real(b, -4, 8); }
  for (int i = 0; i < 2; i++) { ph1[i] = 1 + i; ph2[i] = i ? 0 : 2; du[i] = i ? 1 : 0; }
#define USE(f) (inv ? one != (f) : one == (f))
  if (USE(fPHASE)) sp.SetPhase = cPhase; if (USE(fT)) sp.SetTemperature = cT; if (USE(fADJ)) sp.AdjustPhaseToTemperature = cAdj; if (USE(fDUAL)) sp.SetDualPhase = cDual; if (USE(fVX)) sp.SetHorizontalVelocity = cVx; if (USE(fVZ)) sp.SetVerticalVelocity = cVz;
  if (USE(fD)) sp.SetGrainSize = cD; if (USE(fPHI)) sp.SetPorosity = cPhi; if (USE(fRHO)) sp.SetDensity = cRho; if (USE(fX)) sp.SetXComponent = cX; if (USE(fP)) sp.SetPressure = cP; if (USE(fTXX)) sp.SetTxx = cTxx; if (USE(fTZZ)) sp.SetTzz = cTzz; if (USE(fTXZ)) sp.SetTxz = cTxz; if (USE(fNOISE)) sp.SetNoise = cNoise; if (USE(fF)) sp.SetDefGrad = cF; if (USE(fANGLE)) sp.SetAnisoAngle = cAng;
  for (int i = 0; i < 2; i++) { wantT[i] = USE(fT) ? val_[fT][i] : 273.15/4; cur_[i] = USE(fADJ) ? ph2[i] : USE(fPHASE) ? ph1[i] : 0; }
  SetParticles(sp, &I_, &mk);
#define D_(f, fld, def, msg) vx_check_eq(fld[i], USE(f) ? val_[f][i] : (def), msg)
  for (int i = 0; i < 2; i++) {
    vx_check_eqi(mk.phase[i], cur_[i], "phase of a marker"); vx_check_eqi(mk.dual[i], USE(fDUAL) ? du[i] : cur_[i], "dual phase of a marker");
    vx_check_eq(mk.x[i], px[i], "position of a marker"); vx_check_eq(mk.z[i], pz[i], "position of a marker");
    D_(fT, mk.T, wantT[i], "temperature of a marker"); D_(fVX, mk.Vx, -px[i]*MODEL.bkg_strain_rate, "horizontal velocity of a marker"); D_(fVZ, mk.Vz, pz[i]*MODEL.bkg_strain_rate, "vertical velocity of a marker");
    D_(fD, mk.d, 0, "grain size of a marker"); D_(fPHI, mk.phi, 0, "porosity of a marker"); D_(fRHO, mk.rho, I_.materials.rho[cur_[i]], "density of a marker"); D_(fX, mk.X, 0, "composition of a marker"); D_(fP, mk.P, 0, "pressure of a marker");
    D_(fTXX, mk.sxxd, 0, "xx stress of a marker"); D_(fTZZ, mk.szzd, 0, "zz stress of a marker"); D_(fTXZ, mk.sxz, 0, "xz stress of a marker"); D_(fNOISE, mk.noise, 0, "noise of a marker");
    if (USE(fANGLE)) vx_check_eq(mk.aniso_angle[i], val_[fANGLE][i], "fabric angle of a marker");
    if (MODEL.finite_strain) { double v = val_[fF][i]; int s = USE(fF); vx_check_eq(mk.Fxx[i], s ? v : 1, "Fxx"); vx_check_eq(mk.Fxz[i], s ? 2*v : 0, "Fxz"); vx_check_eq(mk.Fzx[i], s ? 3*v : 0, "Fzx"); vx_check_eq(mk.Fzz[i], s ? 4*v : 1, "Fzz"); }
  }
}
/* a phase outside of the phases given is refused */
static int bad;
static int cBad(MdoodzInput *in, Coordinates c) { return bad; }
void vx_case_phase(void) {
  mdx_model(3, 3); mdx_box(-2, -3, 1.5, 1.25); MODEL.Nb_phases = vx_int("nphases", 1, 3); part_alloc(1, 2); memset(&sp, 0, sizeof sp); bad = vx_int("phase", 0, 5); int ok = bad < MODEL.Nb_phases; vx_flag("exit_is_violation", ok);
  mk.x[0] = mk.z[0] = 0; sp.SetPhase = cBad; SetParticles(sp, &I_, &mk); vx_check(ok, "a phase that does not exist is refused"); vx_check_eqi(mk.phase[0], bad, "phase of the marker");
}
/* initial markers written to a file come back */
static int cPh(MdoodzInput *in, Coordinates c) { return 2; }
void vx_case_reload(void) {
  vx_flag("exit_is_violation", 1); mdx_model(3, 3); mdx_box(-2, -3, 1.5, 1.25); MODEL.Nb_phases = 3; part_alloc(3, 4); memset(&sp, 0, sizeof sp); MODEL.initial_markers_file = "ini.dat"; sp.SetPhase = cPh;
  double x[3], z[3]; mdx_fill(x, 3, "x", -2, 1); mdx_fill(z, 3, "z", -3, -1); for (int i = 0; i < 3; i++) { mk.x[i] = x[i]; mk.z[i] = z[i]; }
  MODEL.save_initial_markers = 1; SetParticles(sp, &I_, &mk); for (int i = 0; i < 3; i++) { vx_check_eq(mk.x[i], x[i], "saving leaves the markers alone"); vx_check_eqi(mk.phase[i], 2, "saving leaves the markers alone"); mk.x[i] = mk.z[i] = 0; mk.phase[i] = 0; }
  sp.SetPhase = NULL; MODEL.save_initial_markers = 0; MODEL.load_initial_markers = 1; SetParticles(sp, &I_, &mk);
  for (int i = 0; i < 3; i++) { vx_check_eq(mk.x[i], x[i], "x of a reloaded marker"); vx_check_eq(mk.z[i], z[i], "z of a reloaded marker"); vx_check_eqi(mk.phase[i], 2, "phase of a reloaded marker"); }
}
/* --- markers are laid out regularly in every cell, below the surface only */
static void layout(int fs) {
  vx_flag("exit_is_violation", 1); mdx_model(3, fs ? 2 : 3); MODEL.free_surface = fs; if (fs) mdx_box(-1, -2, 1.5, 2.5); else mdx_box_sym(); mdx_grid(); int px_ = fs ? 1 : 2, pz_ = fs ? 2 : 3, n = fs ? 4 : 24, kept = 0; part_alloc(0, 24); mk.Nx_part = px_; mk.Nz_part = pz_;
  double aa[2] = { 0, 0 }, bb[2] = { 0, 0 }; if (fs) { topo.a = aa; topo.b = bb; int q = vx_int("column", 0, 1); aa[q] = vx_real("a", -2, 2); bb[q] = vx_real("b", -4, 4); }
  PutPartInBox(&mk, &mesh, MODEL, topo, I_.scaling);
  for (int c = 0; c < n; c++) {
    int i = c % px_, r = c / px_, j = r % pz_; r /= pz_; int k = r % 2, l = r/2; double x = mesh.xg_coord[k] + (i + 0.5)/px_*mesh.dx, z = mesh.zg_coord[l] + (j + 0.5)/pz_*mesh.dz; int m = 0, want = !fs || z < bb[k] + aa[k]*x;
    for (int p = 0; p < mk.Nb_part; p++) { double ex = mk.x[p] - x, ez = mk.z[p] - z; if (ex < 1e-6*mesh.dx && ex > -1e-6*mesh.dx && ez < 1e-6*mesh.dz && ez > -1e-6*mesh.dz) m++; }
    vx_check_eqi(m, want, "one marker at every regular position below the surface"); kept += want;
  }
  vx_check_eqi(mk.Nb_part, kept, "number of markers");
}
void vx_case_layout(void) { layout(0); }
void vx_case_belowsurface(void) { layout(1); }
void vx_case_noise(void) {
  vx_flag("exit_is_violation", 1); vx_rand(3); mdx_model(2, 2); MODEL.initial_noise = 1; MODEL.free_surface = vx_int("fs", 0, 1); MODEL.periodic_x = vx_int("per", 0, 1); mdx_box_sym(); mdx_grid(); part_alloc(0, 8); mk.Nx_part = 2; mk.Nz_part = 1; double a = 0, b = MODEL.zmax + 1; topo.a = &a; topo.b = &b;
  PutPartInBox(&mk, &mesh, MODEL, topo, I_.scaling); vx_check_eqi(mk.Nb_part, 2, "number of markers");
  for (int p = 0; p < mk.Nb_part; p++) {
    vx_check(mk.phase[p] != -1, "a marker is lost"); int near = 0;
    for (int i = 0; i < 2; i++) { double x = MODEL.xmin + (i + 0.5)*0.5*mesh.dx, d = mk.x[p] - x; if (d <= 0.051*mesh.dx && d >= -0.051*mesh.dx) near++; }
    vx_check_eqi(near, 1, "the noise is a tenth of the marker spacing"); double d = mk.z[p] - (MODEL.zmin + 0.5*mesh.dz); vx_check(d <= 0.101*mesh.dz && d >= -0.101*mesh.dz, "the noise is a tenth of the marker spacing");
  }
}
/* --- shapes used by setups */
void vx_case_ellipse(void) {
  Ellipse e; double L = 2, x = vx_real("x", -4, 4), z = vx_real("z", -4, 4); e.centreX = vx_real("cx", -4, 4); e.centreZ = vx_real("cz", -4, 4); e.radiusX = 3; e.radiusZ = 5; e.angle = 0; Coordinates c; c.x = x; c.z = z; c.k = c.l = 0;
  int in = IsEllipseCoordinates(c, e, L); double dx = x - e.centreX/L, dz = z - e.centreZ/L, q = dx*dx/(0.75*0.75) + dz*dz/(1.25*1.25); if (in) vx_check(q <= 1, "a point outside of the ellipse is not in it"); else vx_check(q >= 1, "a point inside of the ellipse is in it");
}
/* the shape does not depend on where it is */
void vx_case_turned(void) {
  Ellipse e; double x = vx_real("x", -1, 1), z = vx_real("z", -1, 1); double cx = vx_real("cx", -4, 4), cz = vx_real("cz", -4, 4); e.radiusX = 1; e.radiusZ = 2; e.angle = 90; Coordinates c; c.k = c.l = 0;
  e.centreX = cx; e.centreZ = cz; c.x = cx + x; c.z = cz + z; int in = IsEllipseCoordinates(c, e, 1); double q = z*z*4 + x*x; if (in) vx_check(q <= 1.000001, "turned by a right angle the axes are exchanged"); else vx_check(q >= 0.999999, "turned by a right angle the axes are exchanged");
}
void vx_case_rectangle(void) {
  Rectangle e; double L = 2, x = vx_real("x", -4, 4), z = vx_real("z", -4, 4); e.centreX = vx_real("cx", -4, 4); e.centreZ = vx_real("cz", -4, 4); e.sizeX = vx_real("sx", 1, 4); e.sizeZ = vx_real("sz", 1, 4); e.angle = 0; Coordinates c; c.x = x; c.z = z; c.k = c.l = 0;
  int in = IsRectangleCoordinates(c, e, L); double dx = fabs(L*x - e.centreX), dz = fabs(L*z - e.centreZ); if (in) vx_check(2*dx <= e.sizeX && 2*dz <= e.sizeZ, "a point outside of the rectangle is not in it"); else vx_check(2*dx >= e.sizeX || 2*dz >= e.sizeZ, "a point inside of the rectangle is in it");
}
/* name of the parameter file of a setup */
void vx_case_name(void) {
  static const char AL[5] = "a./\\b"; char f[16]; int n = vx_int("length", 1, 4); for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "c%d", i); f[i] = AL[i == n-1 ? 0 : vx_int(b, 0, 3)]; } strcpy(f + n, ".c");
  char *r = DefaultTextFilename(f); printf("\n"); int s = 0; for (int i = 0; i < n; i++) if (f[i] == '/' || f[i] == '\\') s = i + 1;
  vx_check_eqi((int)strlen(r), n - s + 4, "length of the name"); for (int i = s; i < n; i++) vx_check_eqi(r[i - s], f[i], "base name"); vx_check(strcmp(r + (n - s), ".txt") == 0, "extension");
}
/* --- grid */
void vx_case_coordinates(void) {
  mdx_model(4, 3); double a = vx_real("a", -4, 4), b = vx_real("b", -4, 4), u = vx_real("u", 1, 4), w = vx_real("w", 1, 4), p = vx_real("p", -4, 4), q = vx_real("q", 1, 4); MODEL.xmin = a; MODEL.xmax = a + u; MODEL.zmin = b; MODEL.zmax = b + w; MODEL.xmin0 = p; MODEL.xmax0 = p + q; MODEL.zmin0 = b - 1; MODEL.zmax0 = b + 1;
  mesh = GridAlloc(&MODEL); SetGridCoordinates(&mesh, &MODEL, 4, 3); GridIndices(&mesh); double dx = u/3, dz = w/2;
  vx_check_eq(mesh.dx, dx, "dx"); vx_check_eq(mesh.dz, dz, "dz"); vx_check_eq(MODEL.dx, dx, "dx"); vx_check_eq(MODEL.dz, dz, "dz");
  for (int i = 0; i < 4; i++) { vx_check_eq(mesh.xg_coord[i], a + i*dx, "node x"); vx_check_eq(mesh.xg_coord0[i], p + i*q/3, "initial node x"); if (i < 3) vx_check_eq(mesh.xc_coord[i], a + (i + 0.5)*dx, "centre x"); }
  for (int i = 0; i < 3; i++) { vx_check_eq(mesh.zg_coord[i], b + i*dz, "node z"); vx_check_eq(mesh.zg_coord0[i], b - 1 + i, "initial node z"); if (i < 2) vx_check_eq(mesh.zc_coord[i], b + (i + 0.5)*dz, "centre z"); }
  for (int i = 0; i < 5; i++) vx_check_eq(mesh.xvz_coord[i], a + (i - 0.5)*dx, "Vz node x"); for (int i = 0; i < 4; i++) vx_check_eq(mesh.zvx_coord[i], b + (i - 0.5)*dz, "Vx node z");
  for (int i = 0; i < 6; i++) vx_check_eq(mesh.xg_coord_ext[i], a + (i - 1)*dx, "extended node x"); for (int i = 0; i < 5; i++) vx_check_eq(mesh.zg_coord_ext[i], b + (i - 1)*dz, "extended node z");
  for (int i = 0; i < 12; i++) vx_check(mesh.kn[i] == i%4 && mesh.ln[i] == i/4, "node index"); for (int i = 0; i < 16; i++) vx_check(mesh.kvx[i] == i%4 && mesh.lvx[i] == i/4, "Vx index"); for (int i = 0; i < 15; i++) vx_check(mesh.kvz[i] == i%5 && mesh.lvz[i] == i/5, "Vz index"); for (int i = 0; i < 6; i++) vx_check(mesh.kp[i] == i%3 && mesh.lp[i] == i/3, "cell index");
}
/* --- weight of the rock column above the middle of each cell */
void vx_case_lithostatic(void) {
  vx_flag("exit_is_violation", 1); mdx_model(3, 5); mdx_box_sym(); mdx_grid(); double g = vx_real("g", -8, 0), P0 = vx_real("P", 0, 8), ref = vx_real("ref", 1, 8); MODEL.gz = g; MODEL.bkg_pressure = P0; int mode = vx_int("mode", 0, 1), ty = vx_int("airtype", 30, 31); mdx_fill(mesh.rho_n, 8, "rho", 0, 8); for (int i = 0; i < 15; i++) mesh.rho_s[i] = 1;
  int h[2]; h[0] = vx_int("h0", 0, 4); h[1] = vx_int("h1", 3, 4); for (int k = 0; k < 2; k++) for (int l = h[k]; l < 4; l++) mesh.BCp.type[k+2*l] = l == h[k] ? ty : 30;
  ComputeLithostaticPressure(&mesh, &MODEL, ref, I_.scaling, mode);
  for (int k = 0; k < 2; k++) for (int l = 0; l < 4; l++) { double w = 0; for (int m = l; m < h[k]; m++) w += (m == l ? 0.5 : 1)*(mode ? mesh.rho_n[k+2*m] : ref)*mesh.dz; vx_check_eq(mesh.p_lith[k+2*l], l >= h[k] ? 0 : P0 - g*w, "weight of the column above"); }
}
/* --- thermal perturbation */
void vx_case_perturb(void) {
  mdx_model(3, 3); mdx_box(-1, -1, 1, 1); mdx_grid(); double T0[4]; mdx_fill(T0, 4, "T", 0, 8); for (int i = 0; i < 4; i++) mesh.T[i] = T0[i]; double x = vx_real("x", -2, 2), z = vx_real("z", -2, 2), d = vx_real("d", 1, 8); MODEL.therm_perturb_x0 = x; MODEL.therm_perturb_z0 = z; MODEL.therm_perturb_dT = d; MODEL.therm_perturb_rad_x = 0.5; MODEL.therm_perturb_rad_z = 0.75;
  SetThermalPert(&mesh, MODEL, I_.scaling); int in = 0;
  for (int i = 0; i < 4; i++) { double X = -0.5 + i%2 - x, Z = -0.5 + i/2 - z, q = X*X*4 + Z*Z*16/9; if (q < 1) vx_check_eq(mesh.T[i], T0[i] + d, "inside of the perturbation"); else vx_check_eq(mesh.T[i], T0[i], "outside of the perturbation"); }
  (void)in;
}
