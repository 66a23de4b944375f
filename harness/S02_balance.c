/*VX {"default": {"budget": 240, "bounds": "grids 4x4 to 6x7 nodes, every stress/pressure/density/velocity/gravity value symbolic, symbolic box"}, "polar": {"math_approx": true}} */
#include "stokes.h"
/* symbolic stress, pressure, density fields (no relation between them) */
static void anyfields2(void);
static void anyfields(void) {
  fields(); anyfields2();
}
static void anyfields2(void) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  EvaluateRHS(&mesh, MODEL, I_.scaling, 0.0);
  StrainRateComponents(&mesh, I_.scaling, &MODEL);
  RheologicalOperators(&mesh, &MODEL, &I_.materials, &I_.scaling, 0, 0);
  mdx_fill(mesh.sxxd, ncx*ncz, "sxx", -8, 8);
  mdx_fill(mesh.szzd, ncx*ncz, "szz", -8, 8);
  mdx_fill(mesh.sxz, nx*nz, "sxz", -8, 8);
  for (int c = 0; c < ncx*ncz; c++) if (mesh.BCp.type[c] != -1) mesh.sxxd[c] = mesh.szzd[c] = 0;
  for (int c = 0; c < nx*nz; c++) if (mesh.BCg.type[c] == 30) mesh.sxz[c] = 0;
}
static double stab; static int incised;
static void balance(int bodyforce_at_stress_nodes) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  double dx = (MODEL.xmax-MODEL.xmin)/ncx, dz = (MODEL.zmax-MODEL.zmin)/ncz, vol = dx*dz;
  alloc();
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 0);
  int nu = 0;
  for (int l = 1; l < nz; l++) for (int k = 0; k < nx; k++) {
    int c = k + l*nx, t = mesh.BCu.type[c];
    if (t != -1 && t != -2 && t != 2) continue;
    int W = (k == 0 ? ncx-1 : k-1) + (l-1)*ncx, E = (k == nx-1 ? 0 : k) + (l-1)*ncx;
    double sW = mesh.sxxd[W] - mesh.p_in[W], sE = mesh.sxxd[E] - mesh.p_in[E], f;
    double shear = (mesh.sxz[c] - mesh.sxz[c-nx])*dx, rx = 0.5*(mesh.rho_s[c] + mesh.rho_s[c-nx]) - stab*MODEL.dt*mesh.u_in[c]*(mesh.rho_n[E] - mesh.rho_n[W])/dx, body = MODEL.gx*rx*vol;
    if (t == 2) { /* half control volume bounded by the prescribed traction */
      f = 0.5*shear + body;
      f += k == 0 ? (sE - mesh.BCu.val[c])*dz : (mesh.BCu.val[c] - sW)*dz;
    }
    else f = (sE - sW)*dz + shear + body;
    vx_check_eq(SA.F[St.eqn_u[c]], -f, "horizontal force balance of a velocity control volume");
    nu++;
  }
  for (int l = 0; l < nz; l++) for (int k = 1; k < nx; k++) {
    int c = k + l*(nx+1), t = mesh.BCv.type[c];
    if (t != -1 && t != 2) continue;
    int S_ = k-1 + (l == 0 ? 0 : l-1)*ncx, N_ = k-1 + (l == nz-1 ? ncz-1 : l)*ncx;
    double sS = mesh.szzd[S_] - mesh.p_in[S_], sN = mesh.szzd[N_] - mesh.p_in[N_], f;
    double shear = (mesh.sxz[k + l*nx] - mesh.sxz[k-1 + l*nx])*dz, rz = 0.5*(mesh.rho_n[S_] + mesh.rho_n[N_]) - stab*MODEL.dt*mesh.v_in[c]*(mesh.rho_n[N_] - mesh.rho_n[S_])/dz, body = MODEL.gz*rz*vol;
    if (incised && mesh.BCp.type[N_] == 31 && fabs(MODEL.xmin + (k-0.5)*dx) <= MODEL.surf_Winc/2) body -= 2*stab*MODEL.surf_Vinc*MODEL.dt*MODEL.gz*(mesh.rho_n[N_] - mesh.rho_n[S_])/dz*vol;
    if (t == 2) {
      f = 0.5*shear;
      f += l == 0 ? (sN - mesh.BCv.val[c])*dx : (mesh.BCv.val[c] - sS)*dx;
    }
    else f = (sN - sS)*dx + shear + body;
    vx_check_eq(SA.F[St.eqn_v[c]], -f, "vertical force balance of a velocity control volume");
    nu++;
  }
  vx_check_eqi(nu, St.neq_mom, "one momentum equation per free velocity");
  int np = 0;
  for (int l = 0; l < ncz; l++) for (int k = 0; k < ncx; k++) {
    int c = k + l*ncx;
    if (mesh.BCp.type[c] != -1) continue;
    double out = (mesh.u_in[k+1 + (l+1)*nx] - mesh.u_in[k + (l+1)*nx])*dz + (mesh.v_in[k+1 + (l+1)*(nx+1)] - mesh.v_in[k+1 + l*(nx+1)])*dx;
    if (MODEL.out_of_plane) out *= 1.5;
    double storage = 0;
    if (MODEL.compressible) {
      storage = vol*mesh.bet_n[c]*(mesh.p_in[c] - mesh.p0_n[c])/MODEL.dt;
      if (MODEL.density_variations) storage = vol*(log(mesh.rho_n[c]) - log(mesh.rho0_n[c]))/MODEL.dt;
      storage -= vol*mesh.divth0_n[c];
    }
    vx_check_eq(SC.F[St.eqn_p[c] - St.neq_mom], out + storage, "mass balance of a cell");
    np++;
  }
  vx_check_eqi(np, St.neq_cont, "one continuity equation per free pressure");
}
void vx_case_closed(void) {
  mdx_model(5, 4); mdx_box_sym(); mdx_grid();
  bcN = vx_int("bcN", 0, 1); bcS = vx_int("bcS", 0, 1); bcE = 1-bcN; bcW = 1-bcS;
  build(); anyfields(); balance(0);
}
/* surface stabilisation: the weight is that of the density the flow will have brought in by the end of the step (density decreasing against gravity) */
static void stabilised(int nx, int nz, int lev) {
  mdx_model(nx, nz); mdx_box_sym(); mdx_grid(); bcN = bcE = bcS = bcW = 0; if (lev) { air(lev); }
  MODEL.free_surface_stab = stab = vx_real("theta", 0.25, 1); build(); fields(); MODEL.gx = vx_real("gxs", -4, 0); MODEL.gz = vx_real("gzs", -16, 0); double r[64]; mdx_fill(r, (nx-1)*(nz-1), "r", 0, 0.5);
  for (int l = 0; l < nz-1; l++) for (int k = 0; k < nx-1; k++) mesh.rho_n[k + l*(nx-1)] = 16 - k - l - r[k + l*(nx-1)];
  anyfields2(); balance(0);
}
void vx_case_stabilised(void)    { stabilised(5, 4, 0); }
void vx_case_stabilisedair(void) { stabilised(4, 6, 3); }
/* polar set-up: gravity points to the origin everywhere */
static void near(double a, double b, const char *w) { vx_check_le(a - b, 1e-6, w); vx_check_le(b - a, 1e-6, w); }
void vx_case_polar(void) {
  mdx_model(4, 5); MODEL.polar = 1; mdx_box(-1.25, 0.5, 1, 0.5); mdx_grid(); bcN = bcE = bcS = bcW = 0; build(); int nx = 4, nz = 5, ncx = 3; double dx = mesh.dx, dz = mesh.dz;
  mdx_fill(mesh.rho_n, 12, "rho_n", 0, 16); mdx_fill(mesh.rho_s, 20, "rho_s", 0, 16); MODEL.gx = vx_real("gx", -4, 4); MODEL.gz = vx_real("gz", -16, 4); MODEL.dt = 1;
  EvaluateRHS(&mesh, MODEL, I_.scaling, 0.0);
  for (int l = 1; l < nz; l++) for (int k = 1; k < nx-1; k++) { double x = -1.25 + k*dx, z = 0.5 + (l-0.5)*dz; int W = k-1 + (l-1)*ncx; near(mesh.roger_x[k + l*nx], MODEL.gz*x/sqrt(x*x + z*z)*0.5*(mesh.rho_n[W] + mesh.rho_n[W+1]), "polar set-up: weight along x"); }
  for (int l = 1; l < nz-1; l++) for (int k = 1; k < nx; k++) { double x = -1.25 + (k-0.5)*dx, z = 0.5 + l*dz; int S_ = k-1 + (l-1)*ncx; near(mesh.roger_z[k + l*(nx+1)], MODEL.gz*z/sqrt(x*x + z*z)*0.5*(mesh.rho_n[S_] + mesh.rho_n[S_+ncx]), "polar set-up: weight along z"); }
}
/* under an incising valley the surface nodes get twice the weight of the rock removed during the step */
static void incision(int nx, int nz, int lev) {
  mdx_model(nx, nz); mdx_box(-1.5, 0, 1, 0.5); mdx_grid(); bcN = bcE = bcS = bcW = 0; air(lev); build(); fields(); incised = MODEL.surface_processes = vx_int("process", 0, 3); MODEL.surf_Winc = vx_real("Winc", 0, 8); MODEL.surf_Vinc = vx_real("Vinc", 0, 4);
  MODEL.free_surface_stab = stab = vx_real("theta", 0.25, 1); MODEL.gx = vx_real("gxs", -4, 0); MODEL.gz = vx_real("gzs", -16, 0); double r[64]; mdx_fill(r, (nx-1)*(nz-1), "r", 0, 0.5);
  for (int l = 0; l < nz-1; l++) for (int k = 0; k < nx-1; k++) mesh.rho_n[k + l*(nx-1)] = 16 - k - l - r[k + l*(nx-1)];
  anyfields2(); balance(0);
}
void vx_case_incision(void) { incision(5, 6, 3); }
void vx_case_stress(void) {
  mdx_model(4, 4); mdx_box_sym(); mdx_grid();
  bcN = vx_int("bcN", 0, 2); bcS = vx_int("bcS", 0, 2); bcE = vx_int("bcE", 0, 2); bcW = vx_int("bcW", 0, 2);
  build(); anyfields(); balance(0);
}
void vx_case_periodic(void) {
  mdx_model(5, 4); MODEL.periodic_x = 1; MODEL.bkg_strain_rate = vx_real("bkg", -2, 2); mdx_box_sym(); mdx_grid();
  build(); anyfields(); balance(0);
}
void vx_case_compressible(void) {
  mdx_model(4, 5); MODEL.compressible = 1; MODEL.out_of_plane = vx_int("oop", 0, 1); mdx_box_sym(); mdx_grid();
  bcN = bcE = 0; bcS = bcW = 1;
  mdx_fill(mesh.divth0_n, (MODEL.Nx-1)*(MODEL.Nz-1), "divth", -2, 2);
  build(); anyfields(); balance(0);
}
void vx_case_densityvar(void) {
  mdx_model(4, 4); MODEL.compressible = 1; MODEL.density_variations = 1; mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  build(); fields();
  mdx_fill(mesh.rho_n, (MODEL.Nx-1)*(MODEL.Nz-1), "rhonow", 0.5, 8);
  mdx_fill(mesh.rho0_n, (MODEL.Nx-1)*(MODEL.Nz-1), "rhoold", 0.5, 8);
  stresses(); balance(0);
}
void vx_case_freesurface(void) {
  mdx_model(5, 6); MODEL.compressible = vx_int("comp", 0, 1); mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  air(vx_int("level", 2, 3));
  build(); anyfields(); balance(0);
}
/* linear velocity fields have exact, uniform strain rate, rotation rate and divergence at every cell and vertex */
void vx_case_linearflow(void) {
  mdx_model(5, 4); MODEL.compressible = vx_int("comp", 0, 1); MODEL.out_of_plane = vx_int("oop", 0, 1); mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  build();
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  double dx = (MODEL.xmax-MODEL.xmin)/ncx, dz = (MODEL.zmax-MODEL.zmin)/ncz;
  double a = vx_real("a", -4, 4), b = vx_real("b", -4, 4), c = vx_real("c", -4, 4), d = vx_real("d", -4, 4), e = vx_real("e", -4, 4), f = vx_real("f", -4, 4);
  for (int l = 0; l <= nz; l++) for (int k = 0; k < nx; k++) mesh.u_in[k + l*nx] = a + b*(MODEL.xmin + k*dx) + c*(MODEL.zmin + (l-0.5)*dz);
  for (int l = 0; l < nz; l++) for (int k = 0; k <= nx; k++) mesh.v_in[k + l*(nx+1)] = d + e*(MODEL.xmin + (k-0.5)*dx) + f*(MODEL.zmin + l*dz);
  StrainRateComponents(&mesh, I_.scaling, &MODEL);
  double div = (b + f)*(MODEL.out_of_plane ? 1.5 : 1.0), third = MODEL.compressible ? div/3.0 : 0.0;
  for (int i = 0; i < ncx*ncz; i++) {
    vx_check_eq(mesh.div_u[i], div, "divergence of a linear flow");
    vx_check_eq(mesh.exxd[i], b - third, "horizontal strain rate of a linear flow");
    vx_check_eq(mesh.ezzd[i], f - third, "vertical strain rate of a linear flow");
    vx_check_eq(mesh.exz_n[i], 0.5*(c + e), "shear strain rate of a linear flow at cells");
    vx_check_eq(mesh.wxz_n[i], 0.5*(e - c), "rotation rate of a linear flow at cells");
  }
  for (int i = 0; i < nx*nz; i++) {
    vx_check_eq(mesh.exz[i], 0.5*(c + e), "shear strain rate of a linear flow at vertices");
    vx_check_eq(mesh.wxz[i], 0.5*(e - c), "rotation rate of a linear flow at vertices");
    vx_check_eq(mesh.exxd_s[i], b - third, "horizontal strain rate of a linear flow at vertices");
    vx_check_eq(mesh.ezzd_s[i], f - third, "vertical strain rate of a linear flow at vertices");
    vx_check_eq(mesh.div_u_s[i], div, "divergence of a linear flow at vertices");
  }
}
/* cell values of shear strain rate and rotation are the mean of the four corners */
void vx_case_corneraverage(void) {
  mdx_model(5, 4); mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  build(); fields();
  StrainRateComponents(&mesh, I_.scaling, &MODEL);
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  double dx = (MODEL.xmax-MODEL.xmin)/ncx, dz = (MODEL.zmax-MODEL.zmin)/ncz;
  for (int l = 0; l < ncz; l++) for (int k = 0; k < ncx; k++) {
    double e = 0, w = 0;
    for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) {
      int a = k+i, b = l+j;
      double dudz = (mesh.u_in[a + (b+1)*nx] - mesh.u_in[a + b*nx])/dz, dvdx = (mesh.v_in[a+1 + b*(nx+1)] - mesh.v_in[a + b*(nx+1)])/dx;
      e += 0.125*(dudz + dvdx); w += 0.125*(dvdx - dudz);
    }
    vx_check_eq(mesh.exz_n[k + l*ncx], e, "shear strain rate of a cell"); vx_check_eq(mesh.wxz_n[k + l*ncx], w, "rotation rate of a cell");
    double exx = (mesh.u_in[k+1 + (l+1)*nx] - mesh.u_in[k + (l+1)*nx])/dx, ezz = (mesh.v_in[k+1 + (l+1)*(nx+1)] - mesh.v_in[k+1 + l*(nx+1)])/dz;
    vx_check_eq(mesh.exxd[k + l*ncx], exx, "horizontal strain rate of a cell"); vx_check_eq(mesh.ezzd[k + l*ncx], ezz, "vertical strain rate of a cell");
  }
}
/* column of uniform density: pressure linear in depth balances gravity exactly */
void vx_case_hydrostatic(void) {
  mdx_model(4, 5); mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  build();
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  double dz = (MODEL.zmax-MODEL.zmin)/ncz, rho = vx_real("rho", 0, 16), gz = vx_real("gz", -16, 4), p0 = vx_real("p0", -8, 8);
  MODEL.gz = gz;
  for (int i = 0; i < ncx*ncz; i++) { mesh.rho_n[i] = rho; mesh.p_in[i] = mesh.p_corr[i] = p0 + rho*gz*(i/ncx)*dz; mesh.eta_n[i] = 1; }
  for (int i = 0; i < nx*nz; i++) { mesh.rho_s[i] = rho; mesh.eta_s[i] = 1; }
  for (int i = 0; i < nx*(nz+1); i++) mesh.BCu.val[i] = 0;
  for (int i = 0; i < (nx+1)*nz; i++) mesh.BCv.val[i] = 0;
  stresses();
  alloc();
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 0);
  for (int i = 0; i < St.neq_mom; i++) vx_check_eq(SA.F[i], 0, "a column at rest under hydrostatic pressure is in equilibrium");
  for (int i = 0; i < St.neq_cont; i++) vx_check_eq(SC.F[i], 0, "a column at rest conserves mass");
}
