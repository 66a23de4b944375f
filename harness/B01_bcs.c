/*VX {"default": {"budget": 300, "max_paths": 20000, "bounds": "4x4 nodes (5x4 for temperature), every side, corner and air pattern listed, arbitrary values, coordinates of a box with arbitrary origin and spacing"}} */
#include "mdx.h"
static const int OK_T[6] = { 0, 11, 13, 2, -2, -12 };
static SetBCs_ff ff;
static POSITION ref_pos(int k, int l, int nk, int nl) {
  if (k == 0) return l == nl-1 ? NW : l == 0 ? SW : W;
  if (k == nk-1) return l == nl-1 ? NE : l == 0 ? SE : E;
  return l == 0 ? S : l == nl-1 ? N : INTERNAL;
}
static double X0, Z0, DX, DZ;
static int sideT, cornT, badK = -1, badL = -1, seen[64], isz;
static double vv[64];
static SetBC given(POSITION p, int c) { SetBC b; b.value = p == INTERNAL ? 0 : vv[c]; b.type = p == INTERNAL ? -1 : (p == W || p == E || p == S || p == N) ? sideT : cornT; return b; }
static SetBC zeroBC(MdoodzInput *in, POSITION p, Coordinates c) { SetBC b; b.value = 0; b.type = p == INTERNAL ? -1 : 13; return b; }
static SetBC myV(MdoodzInput *in, POSITION p, Coordinates c) {
  int nk = isz ? MODEL.Nx+1 : MODEL.Nx, nl = isz ? MODEL.Nz : MODEL.Nz+1, i = c.k + c.l*nk;
  vx_check(c.k >= 0 && c.k < nk && c.l >= 0 && c.l < nl, "node index passed to the callback"); seen[i]++;
  vx_check_eqi(p, ref_pos(c.k, c.l, nk, nl), "position passed to the callback");
  vx_check_eq(c.x, X0 + DX*(isz ? c.k - 0.5 : c.k), "x passed to the callback"); vx_check_eq(c.z, Z0 + DZ*(isz ? c.l : c.l - 0.5), "z passed to the callback");
  SetBC b = given(p, i); if (c.k == badK && c.l == badL) b.type = p == INTERNAL ? 0 : -1; return b;
}
static void box(int nx, int nz) { mdx_model(nx, nz); mdx_box_sym(); mdx_grid(); X0 = MODEL.xmin; Z0 = MODEL.zmin; DX = mesh.dx; DZ = mesh.dz; memset(seen, 0, sizeof seen); badK = badL = -1; }
static void velocity(int z) {
  vx_flag("exit_is_violation", 1); box(4, 4); isz = z; ff.SetBCVx = z ? zeroBC : myV; ff.SetBCVz = z ? myV : zeroBC; int nk = z ? 5 : 4, nl = z ? 4 : 5, n = nk*nl;
  sideT = OK_T[vx_int("side", 0, 5)]; cornT = OK_T[vx_int("corner", 0, 5)]; mdx_fill(vv, n, "v", -4, 4);
  char *ty = z ? mesh.BCv.type : mesh.BCu.type; double *va = z ? mesh.BCv.val : mesh.BCu.val;
  for (int i = 0; i < n; i++) { ty[i] = -1; va[i] = 99; } int air = vx_int("air", 0, 3); if (air) { ty[n-1] = 30; ty[n-1-nk] = 30; } if (air > 1) ty[n-2] = ty[n-nk-2] = 30; if (air > 2) ty[n-nk] = 30;
  char a0[32]; memcpy(a0, ty, n); LateralFlux fl; I_.flux = &fl; fl.west = fl.east = 77;
  SetBCs(ff, &I_, &mesh, &topo);
  double w = 0, e = 0; int corner = 0;
  for (int l = 0; l < nl; l++) for (int k = 0; k < nk; k++) {
    int i = k + l*nk; vx_check(a0[i] == 30 || seen[i], "every node that is not air is set");
    if (a0[i] == 30) { vx_check_eqi(ty[i], 30, "air nodes stay air"); continue; }
    SetBC b = given(ref_pos(k, l, nk, nl), i); vx_check_eqi(ty[i], b.type, "type of the condition"); vx_check_eq(va[i], b.type == 11 ? 2*b.value : b.value, "value of the condition");
    if (!z) { int inner = l > 0 && l < nl-1; if (k == 0) { if (inner) w += b.value; } if (k == nk-1 && inner) e += b.value; (void)corner; }
  }
  if (z) { vx_check_eq(fl.west, 0, "flux through the west side"); vx_check_eq(fl.east, 0, "flux through the east side"); }
  if (!z && cornT == 13) for (int j = 0; j < 0; j++) ;
}
void vx_case_vx(void) { velocity(0); }
void vx_case_vz(void) { velocity(1); }
/* flow through the sides handed to the bottom condition */
void vx_case_flux(void) {
  vx_flag("exit_is_violation", 1); box(4, 4); isz = 0; ff.SetBCVx = myV; ff.SetBCVz = zeroBC; sideT = 0; cornT = 13; mdx_fill(vv, 20, "v", -4, 4); vv[0] = vv[3] = vv[16] = vv[19] = 0; LateralFlux fl; I_.flux = &fl;
  for (int i = 0; i < 20; i++) mesh.BCu.type[i] = -1; int air = vx_int("air", 0, 1); if (air) mesh.BCu.type[19] = mesh.BCu.type[15] = 30; SetBCs(ff, &I_, &mesh, &topo);
  vx_check_eq(fl.west, DZ*(vv[4] + vv[8] + vv[12]), "flow through the west side"); vx_check_eq(fl.east, DZ*(vv[7] + vv[11] + (air ? 0 : vv[15])), "flow through the east side");
}
/* a setup that types an inner node, or leaves a boundary node untyped, is refused */
static void misuse(int z) {
  box(4, 4); isz = z; ff.SetBCVx = z ? zeroBC : myV; ff.SetBCVz = z ? myV : zeroBC; sideT = 0; cornT = 13; int nk = z ? 5 : 4, nl = z ? 4 : 5; for (int i = 0; i < 20; i++) vv[i] = 0;
  for (int i = 0; i < 20; i++) (z ? mesh.BCv.type : mesh.BCu.type)[i] = -1;
  int w = vx_int("node", -1, 19); if (w >= 0) { badK = w % nk; badL = w/nk; } (void)nl;
  vx_flag("exit_is_violation", w < 0); SetBCs(ff, &I_, &mesh, &topo); vx_check(w < 0, "a wrong condition type is refused");
}
void vx_case_misusex(void) { misuse(0); }
void vx_case_misusez(void) { misuse(1); }
/* temperature and composition: conditions sit on the ghost cells around the grid; a free surface on its last rock cell */
static int tcalls, chem;
static double fieldv[32];
static SetBC myS(MdoodzInput *in, POSITION p, Coordinates c, double v) {
  SetBC b; int ncx = MODEL.Nx-1, i = c.k + c.l*ncx; tcalls++; vx_check(c.k >= 0 && c.k < ncx && c.l >= 0 && c.l < MODEL.Nz-1, "cell passed to the callback");
  vx_check_eq(c.x, X0 + DX*(c.k + 0.5), "x passed to the callback"); vx_check_eq(c.z, Z0 + DZ*(c.l + 0.5), "z passed to the callback"); vx_check_eq(v, fieldv[i], "field value passed to the callback");
  b.type = p == W ? 1 : p == E ? 0 : p == S ? sideT : p == N ? cornT : 1; b.value = p == W ? vv[(int)c.l] : p == E ? vv[4+(int)c.l] : p == S ? vv[8+(int)c.k] : p == N ? vv[12+(int)c.k] : vv[16+(int)c.k]; return b;
}
static void scalar(int ch) {
  vx_flag("exit_is_violation", 1); chem = ch; mdx_model(5, 4); MODEL.chemical_diffusion = 1; MODEL.thermal = 1; mdx_box_sym(); mdx_grid(); X0 = MODEL.xmin; Z0 = MODEL.zmin; DX = mesh.dx; DZ = mesh.dz; tcalls = 0; ff.SetBCVx = ff.SetBCVz = zeroBC; if (ch) ff.SetBCC = myS; else ff.SetBCT = myS;
  int ncx = 4, ncz = 3, n = 12; mdx_fill(fieldv, n, "f", 0, 8); mdx_fill(vv, 20, "v", -4, 4); sideT = vx_int("south", -2, 1); cornT = vx_int("north", 0, 1);
  double *f = ch ? mesh.X_n : mesh.T, *other = ch ? mesh.T : mesh.X_n; for (int i = 0; i < n; i++) { f[i] = fieldv[i]; other[i] = -50 - i; }
  int h[4], air[12], topair = 0; for (int k = 0; k < 4; k++) { char b[8]; sprintf(b, "h%d", k); h[k] = k < 2 ? vx_int(b, 1, 3) : k == 2 ? 3 : 2; for (int l = 0; l < 3; l++) { air[k + 4*l] = l >= h[k]; if (air[k + 4*l]) mesh.BCt.type[k + 4*l] = mesh.BCc.type[k + 4*l] = mesh.BCp.type[k + 4*l] = 30; } } (void)topair;
  BC *e = ch ? &mesh.BCC_exp : &mesh.BCT_exp; SetBCs(ff, &I_, &mesh, &topo);
  int calls = 0;
  for (int l = 0; l < ncz; l++) for (int k = 0; k < ncx; k++) {
    int g = (k+1) + (l+1)*(ncx+2), i = k + l*ncx; if (air[i]) { vx_check_eqi(e->type[g], 30, "air cells stay air"); continue; }
    int fs = l < ncz-1 && air[i + ncx]; if (fs) { calls++; vx_check_eqi(e->type[g], 1, "free surface condition"); vx_check_eq(e->val[g], vv[16+k], "free surface value"); } else vx_check_eqi(e->type[g], -1, "rock cells are solved for");
    if (k == 0) { calls++; vx_check_eqi(e->type[g-1], 1, "west condition"); vx_check_eq(e->val[g-1], vv[l], "west value"); } if (k == ncx-1) { calls++; vx_check_eqi(e->type[g+1], 0, "east condition"); vx_check_eq(e->val[g+1], vv[4+l], "east value"); }
    if (l == 0) { calls++; vx_check_eqi(e->type[g-ncx-2], sideT, "south condition"); vx_check_eq(e->val[g-ncx-2], vv[8+k], "south value"); } if (l == ncz-1) { calls++; vx_check_eqi(e->type[g+ncx+2], cornT, "north condition"); vx_check_eq(e->val[g+ncx+2], vv[12+k], "north value"); }
  }
  vx_check(tcalls >= calls, "a condition is asked for on every boundary face");
}
void vx_case_heat(void)  { scalar(0); }
void vx_case_chem(void)  { scalar(1); }
/* pressure */
static int hP[4];
static char myP(MdoodzInput *in, POSITION p) { return p == INTERNAL ? -1 : p == free_surface ? 1 : (p == NE || p == NW || p == SE || p == SW) ? 0 : -1; }
void vx_case_pressure(void) {
  vx_flag("exit_is_violation", 1); box(5, 5); ff.SetBCVx = ff.SetBCVz = zeroBC; int cb = vx_int("callback", 0, 1); ff.SetBCPType = cb ? myP : NULL; int air[16];
  for (int k = 0; k < 4; k++) { char b[8]; sprintf(b, "h%d", k); hP[k] = k == 1 || k == 2 ? vx_int(b, 2, 4) : 4; for (int l = 0; l < 4; l++) { int i = k + 4*l; air[i] = l >= hP[k]; mesh.BCp.val[i] = 5; if (air[i]) mesh.BCt.type[i] = 30, mesh.BCp.type[i] = 30; } }
  SetBCs(ff, &I_, &mesh, &topo);
  for (int l = 0; l < 4; l++) for (int k = 0; k < 4; k++) { int i = k + 4*l; if (air[i]) { vx_check_eqi(mesh.BCp.type[i], 30, "air cells stay air"); continue; } POSITION p = ref_pos(k, l, 4, 4); if (p == INTERNAL && air[i+4]) p = free_surface; vx_check_eqi(mesh.BCp.type[i], cb ? myP(&I_, p) : -1, "pressure condition"); vx_check_eq(mesh.BCp.val[i], 0, "pressure value"); }
}
/* the conditions hold on the velocity field: at the wall, half way between ghost and first inner node */
static void apply(int z) {
  vx_flag("exit_is_violation", 1); box(4, 4); MODEL.step = 1; isz = z; ff.SetBCVx = z ? zeroBC : myV; ff.SetBCVz = z ? myV : zeroBC; int nk = z ? 5 : 4, nl = z ? 4 : 5, n = 20; mdx_fill(vv, n, "v", -4, 4);
  for (int i = 0; i < n; i++) (z ? mesh.BCv.type : mesh.BCu.type)[i] = -1; sideT = 0; cornT = vx_int("type", 0, 1) ? 11 : 13;
  SetBCs(ff, &I_, &mesh, &topo);
  char *ty = z ? mesh.BCv.type : mesh.BCu.type; double *va = z ? mesh.BCv.val : mesh.BCu.val, *u = z ? mesh.v_in : mesh.u_in, v0[20];
  /* walls parallel to the component: all ghosts of the given type */
  for (int l = 0; l < nl; l++) for (int k = 0; k < nk; k++) { int i = k + l*nk, ghost = z ? (k == 0 || k == nk-1) : (l == 0 || l == nl-1); if (ghost) { ty[i] = cornT; va[i] = cornT == 11 ? 2*vv[i] : 0; } else if (ty[i] != -1) { ty[i] = 0; va[i] = vv[i]; } }
  mdx_fill(u, n, "u", -4, 4); memcpy(v0, u, sizeof v0);
  InitialiseSolutionFields(&mesh, &MODEL);
  for (int l = 0; l < nl; l++) for (int k = 0; k < nk; k++) {
    int i = k + l*nk, ghost = z ? (k == 0 || k == nk-1) : (l == 0 || l == nl-1), in = z ? (k == 0 ? i+1 : i-1) : (l == 0 ? i+nk : i-nk);
    if (ghost && cornT == 13) vx_check_eq(u[i], u[in], "no shear stress at the wall"); else if (ghost) vx_check_eq(0.5*(u[i] + u[in]), vv[i], "prescribed velocity along the wall");
    else vx_check_eq(u[i], ty[i] == 0 ? vv[i] : v0[i], ty[i] == 0 ? "prescribed velocity on the wall" : "inner velocities are left alone");
  }
}
void vx_case_applyx(void) { apply(0); }
void vx_case_applyz(void) { apply(1); }
/* simple shear in a box at any height: the walls move apart at the rate given, and the seam of a periodic box is one line of nodes */
void vx_case_periodic(void) {
  vx_flag("exit_is_violation", 1); box(4, 4); double e = vx_real("rate", -4, 4), v[20], u[20]; MODEL.bkg_strain_rate = e; MODEL.step = 1; MODEL.shear_style = MODEL.periodic_x = 1; ff.SetBCVx = SetPureOrSimpleShearBCVx; ff.SetBCVz = SetPureOrSimpleShearBCVz; for (int i = 0; i < 20; i++) mesh.BCu.type[i] = mesh.BCv.type[i] = -1;
  SetBCs(ff, &I_, &mesh, &topo); mdx_fill(u, 20, "u", -4, 4); mdx_fill(v, 20, "v", -4, 4); for (int i = 0; i < 20; i++) { mesh.u_in[i] = u[i]; mesh.v_in[i] = v[i]; } InitialiseSolutionFields(&mesh, &MODEL);
  for (int l = 1; l < 4; l++) { vx_check_eq(mesh.u_in[4*l], u[4*l], "inner velocities are left alone"); vx_check_eq(mesh.u_in[3 + 4*l], u[4*l], "both ends of a row are the same node"); }
  for (int l = 0; l < 4; l++) { int s = l == 0 || l == 3; vx_check_eq(mesh.v_in[1 + 5*l], s ? 0 : v[1 + 5*l], "vertical velocity"); vx_check_eq(mesh.v_in[3 + 5*l], s ? 0 : v[3 + 5*l], "vertical velocity"); vx_check_eq(mesh.v_in[5*l], s ? 0 : v[3 + 5*l], "west of the first column lies the last one"); vx_check_eq(mesh.v_in[4 + 5*l], s ? 0 : v[1 + 5*l], "east of the last column lies the first one"); }
  for (int k = 0; k < 4; k++) { double a = 0.5*(mesh.u_in[k] + mesh.u_in[k+4]), b = 0.5*(mesh.u_in[k+16] + mesh.u_in[k+12]); if (k < 3) vx_check_eq(b - a, 2*e*(MODEL.zmax - MODEL.zmin), "the walls move past each other at the rate given"); }
}
/* templates: the initial flow is the homogeneous one and agrees with its own conditions */
void vx_case_templates(void) {
  vx_flag("exit_is_violation", 1); box(4, 5); double e = vx_real("rate", -4, 4); vx_assume_ne(e, 0); MODEL.bkg_strain_rate = e; MODEL.step = vx_int("step", 0, 1); int ss = vx_int("shear", 0, 1), direct = vx_int("direct", 0, 1); MODEL.shear_style = ss; MODEL.periodic_x = ss; if (ss) { vx_assume_eq(MODEL.zmin, -MODEL.zmax); }
  ff.SetBCVx = !direct ? SetPureOrSimpleShearBCVx : ss ? SetSimpleShearBCVx : SetPureShearBCVx; ff.SetBCVz = !direct ? SetPureOrSimpleShearBCVz : ss ? SetSimpleShearBCVz : SetPureShearBCVz;
  int nx = 4, nz = 5; for (int i = 0; i < nx*(nz+1); i++) mesh.BCu.type[i] = -1; for (int i = 0; i < (nx+1)*nz; i++) mesh.BCv.type[i] = -1;
  for (int l = 0; l <= nz; l++) for (int k = 0; k < nx; k++) mesh.u_in[k + l*nx] = ss ? 2*e*mesh.zvx_coord[l] : -e*mesh.xg_coord[k];
  for (int l = 0; l < nz; l++) for (int k = 0; k <= nx; k++) mesh.v_in[k + l*(nx+1)] = ss ? 0 : e*mesh.zg_coord[l];
  if (MODEL.step == 0) { for (int i = 0; i < nx*(nz+1); i++) mesh.u_in[i] = 50; for (int i = 0; i < (nx+1)*nz; i++) mesh.v_in[i] = 50; }
  SetBCs(ff, &I_, &mesh, &topo); InitialiseSolutionFields(&mesh, &MODEL);
  for (int l = 0; l <= nz; l++) for (int k = 0; k < nx; k++) vx_check_eq(mesh.u_in[k + l*nx], ss ? 2*e*mesh.zvx_coord[l] : -e*mesh.xg_coord[k], "homogeneous shear of the given rate, horizontal velocity");
  for (int l = 0; l < nz; l++) for (int k = 0; k <= nx; k++) vx_check_eq(mesh.v_in[k + l*(nx+1)], ss ? 0 : e*mesh.zg_coord[l], "homogeneous shear of the given rate, vertical velocity");
  if (ss) for (int l = 1; l < nz; l++) vx_check(mesh.BCu.type[l*nx] == -2 && mesh.BCu.type[l*nx+nx-1] == -12, "simple shear is periodic");
}
/* initial flow and pressure with a background divergence */
void vx_case_initial(void) {
  vx_flag("exit_is_violation", 1); box(4, 4); double e = vx_real("rate", -4, 4), d = vx_real("div", -4, 4), P = vx_real("P", 0, 8); int per = vx_int("per", 0, 1), step = vx_int("step", 0, 1), q = vx_int("air", 0, 8), ty = vx_int("airtype", 30, 31); vx_assume_ne(e, 0); MODEL.bkg_strain_rate = e; MODEL.bkg_div_rate = d; MODEL.bkg_pressure = P; MODEL.periodic_x = per; MODEL.step = step;
  for (int i = 0; i < 16+4; i++) mesh.BCu.type[i] = mesh.BCv.type[i] = -1; mesh.BCp.type[q] = ty; mesh.BCu.type[9] = 30; mesh.BCv.type[7] = 30; for (int i = 0; i < 20; i++) mesh.u_in[i] = mesh.v_in[i] = 50 + i; for (int i = 0; i < 9; i++) mesh.p_in[i] = 60 + i;
  InitialiseSolutionFields(&mesh, &MODEL);
  for (int l = 0; l < 5; l++) for (int k = 0; k < 4; k++) { int i = k + 4*l; vx_check_eq(mesh.u_in[i], i == 9 ? 0 : step ? 50 + i : per ? 2*e*mesh.zvx_coord[l] + d/3*mesh.xg_coord[k] : (d/3 - e)*mesh.xg_coord[k], "initial horizontal velocity"); }
  for (int l = 0; l < 4; l++) for (int k = 0; k < 5; k++) { int i = k + 5*l; vx_check_eq(mesh.v_in[i], i == 7 ? 0 : step ? 50 + i : per ? d/3*mesh.zg_coord[l] : (d/3 + e)*mesh.zg_coord[l], "initial vertical velocity"); }
  for (int i = 0; i < 9; i++) vx_check_eq(mesh.p_in[i], i == q ? 0 : step ? 60 + i : P, i == q ? "no pressure in the air" : "initial pressure");
}
