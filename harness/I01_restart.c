/*VX {"default": {"budget": 300, "max_paths": 4000, "weight": 20, "bounds": "3x4 nodes, 2 markers, 3+2 surface points, 2 phases, 2 recorded steps; every stored number and the eight scales arbitrary"}} */
#include "part.h"
static markers tc, tci;
static double snap[4000]; static int ns, chk, restart; static const char *what;
/* mode 0: give every number an arbitrary value and remember it; mode 1: compare */
static void D(double *a, int n, const char *nm) {
  char b[160];
  for (int i = 0; i < n; i++) {
    if (!chk) { sprintf(b, "%s_%d", nm, i); snap[ns] = a[i] = vx_real(b, -1024, 1024); }
    else { sprintf(b, "%s: %s[%d]", what, nm, i); vx_check_eq(a[i], snap[ns], b); }
    ns++;
  }
}
static void In(int *a, int n, const char *nm) {
  char b[160];
  for (int i = 0; i < n; i++) { if (!chk) { snap[ns] = a[i] = (5*ns + i) % 7 - 1; } else { sprintf(b, "%s: %s[%d]", what, nm, i); vx_check_eqi(a[i], (int)snap[ns], b); } ns++; }
}
static void Y(char *a, int n, const char *nm) {
  char b[160];
  for (int i = 0; i < n; i++) { if (!chk) { snap[ns] = a[i] = (5*ns + i) % 33 - 2; } else { sprintf(b, "%s: %s[%d]", what, nm, i); vx_check_eqi(a[i], (int)snap[ns], b); } ns++; }
}
static void chain(markers *t, const char *nm, int n) {
  char b[160];
  if (chk) { sprintf(b, "%s: %s.n", what, nm); vx_check_eqi(t->Nb_part, n, b); } else t->Nb_part = n;
  sprintf(b, "%s.x", nm); D(t->x, n, b); sprintf(b, "%s.z", nm); D(t->z, n, b); sprintf(b, "%s.Vx", nm); D(t->Vx, n, b); sprintf(b, "%s.Vz", nm); D(t->Vz, n, b);
}
static void surf(surface *t, const char *nm) {
  char b[160]; int Nx = MODEL.Nx;
  sprintf(b, "%s.h", nm); D(t->height, Nx, b); sprintf(b, "%s.h0", nm); D(t->height0, Nx, b); sprintf(b, "%s.a", nm); D(t->a, Nx-1, b); sprintf(b, "%s.a0", nm); D(t->a0, Nx-1, b);
  sprintf(b, "%s.b", nm); D(t->b, Nx-1, b); sprintf(b, "%s.b0", nm); D(t->b0, Nx-1, b); sprintf(b, "%s.vx", nm); D(t->vx, Nx, b); sprintf(b, "%s.vz", nm); D(t->vz, Nx+1, b);
}
static void state(void) {
  int Nx = MODEL.Nx, Nz = MODEL.Nz, nc = (Nx-1)*(Nz-1), nv = Nx*Nz, nu = Nx*(Nz+1), nw = Nz*(Nx+1), n = 2, t = MODEL.Nt+1; ns = 0;
  D(&MODEL.dt, 1, "dt"); D(&MODEL.dt0, 1, "dt0"); D(&MODEL.time, 1, "time"); D(&MODEL.L0, 1, "L0");
  D(&MODEL.xmin, 1, "xmin"); D(&MODEL.xmax, 1, "xmax"); D(&MODEL.zmin, 1, "zmin"); D(&MODEL.zmax, 1, "zmax");
  if (chk) { char b[160]; sprintf(b, "%s: number of markers", what); vx_check_eqi(mk.Nb_part, n, b); }
#define P(f) D(mk.f, n, "p." #f)
  P(x); P(z); P(P); P(rho); P(Vx); P(Vz); P(phi); P(X); P(noise); P(strain); P(strain_el); P(strain_pl); P(strain_pwl); P(strain_exp); P(strain_lin); P(strain_gbs); P(d); P(divth); P(T);
  In(mk.phase, n, "p.phase"); In(mk.dual, n, "p.dual");
  if (MODEL.elastic) { P(sxxd); P(szzd); P(sxz); }
  if (MODEL.finite_strain) { P(Fxx); P(Fxz); P(Fzx); P(Fzz); }
  if (MODEL.anisotropy) { P(nx); P(nz); }
  if (MODEL.track_T_P_x_z) { P(T0); P(P0); P(x0); P(z0); P(Tmax); P(Pmax); }
#define M(f, k) D(mesh.f, k, #f)
  M(u_in, nu); M(v_in, nw); M(p_in, nc); M(p_lith, nc); M(p_lith0, nc); M(p0_n, nc); M(T0_n, nc); M(divth0_n, nc); M(X0_n, nc); M(X0_s, nv); M(d0_n, nc); M(phi0_n, nc); M(rho0_n, nc); M(eta_phys_n, nc); M(eta_phys_s, nv);
  if (MODEL.elastic) { M(eta_n, nc); M(eta_s, nv); M(VE_n, nc); M(VE_s, nv); }
  D(&mesh.Uthermal, 1, "Uthermal"); D(&mesh.Work, 1, "Work");
  for (int k = 0; k < MODEL.Nb_phases; k++) { M(phase_perc_n[k], nc); M(phase_perc_s[k], nv); }
  In(mesh.nb_part_cell, nc, "nb_part_cell"); In(mesh.nb_part_vert, nv, "nb_part_vert");
  Y(mesh.BCt.type, nc, "BCt.type"); Y(mesh.BCp.type, nc, "BCp.type"); Y(mesh.BCu.type, nu, "BCu.type"); Y(mesh.BCv.type, nw, "BCv.type"); Y(mesh.BCg.type, nv, "BCg.type");
  M(BCp.val, nc); M(BCu.val, nu); M(BCv.val, nw); M(BCg.val, nv);
  M(Time_time, t); M(Short_time, t); M(Work_time, t); M(Uthermal_time, t); M(Uelastic_time, t); M(T_mean_time, t); M(P_mean_time, t); M(sxxd_mean_time, t); M(szzd_mean_time, t); M(sxz_mean_time, t); M(Tii_mean_time, t); M(exxd_mean_time, t); M(ezzd_mean_time, t); M(exz_mean_time, t); M(Eii_mean_time, t);
  if (MODEL.free_surface) { chain(&tc, "chain", 3); chain(&tci, "chain0", 2); surf(&topo, "topo"); surf(&topo_ini, "topo0"); }
  if (!restart) { M(sxxd0, nc); M(szzd0, nc); M(sxz0, nv); M(u_adv, nu); M(v_adv, nw); if (!MODEL.elastic) { M(eta_n, nc); M(eta_s, nv); M(VE_n, nc); M(VE_s, nv); } }   /* recomputed after a restart, but in use when a breakpoint is written */
}
static void fresh(void) {
  mdx_grid(); part_alloc(2, 4);
  if (MODEL.free_surface) { AllocateMarkerChain(&topo, &tc, MODEL); AllocateMarkerChain(&topo_ini, &tci, MODEL); }
}
static void setup(void) {
  mdx_model(3, 4); mdx_box(0, 0, 1, 0.5); MODEL.Nb_phases = 2;
  scale *s = &I_.scaling;
  s->L = vx_real("sL", 0.0625, 16); s->t = vx_real("st", 0.0625, 16); s->V = vx_real("sV", 0.0625, 16); s->S = vx_real("sS", 0.0625, 16); s->E = vx_real("sE", 0.0625, 16); s->T = vx_real("sT", 0.0625, 16); s->eta = vx_real("seta", 0.0625, 16); s->rho = vx_real("srho", 0.0625, 16); s->rhoE = vx_real("srhoE", 0.0625, 16);
}
static void trip(int mode) {
  setup(); vx_flag("exit_is_violation", 1); vx_flag("div0_is_violation", 1);
  if (mode == 0) MODEL.free_surface = 1; 
  else { MODEL.elastic = vx_int("elastic", 0, 1); MODEL.finite_strain = vx_int("fs", 0, 1); MODEL.anisotropy = vx_int("aniso", 0, 1); MODEL.track_T_P_x_z = vx_int("track", 0, 1); if (mode == 2) MODEL.free_surface = MODEL.melting = 1; }
  MODEL.delete_breakpoints = mode == 1 ? 0 : vx_int("del", -1, 1); MODEL.step = vx_int("step", 1, 2) == 1 ? 7 : 123456;
  fresh(); chk = 0; state();
  MakeBreakpointParticles(&mk, &mesh, &tc, &tci, MODEL, &topo, &topo_ini, I_.scaling);
  chk = 1; what = "writing a breakpoint leaves the running model unchanged"; state();
  double dx = mesh.dx; params keep = MODEL;
  MODEL.dt = MODEL.dt0 = 1; MODEL.time = 0; MODEL.L0 = 2; mdx_box(0, 0, 1, 0.5); fresh(); (void)dx; (void)keep;
  LoadBreakpointParticles(&mk, &mesh, &tc, &tci, &MODEL, &topo, &topo_ini, I_.scaling);
  restart = 1; what = "a restart resumes from the saved state"; state();
}
void vx_case_surface(void) { trip(0); }
void vx_case_fields(void)  { trip(1); }
void vx_case_all(void)     { trip(2); }
/* later breakpoints do not disturb earlier ones */
void vx_case_two(void) {
  setup(); vx_flag("exit_is_violation", 1); MODEL.step = 4; fresh(); chk = 0; state(); static double keep[4000]; memcpy(keep, snap, sizeof keep);
  MakeBreakpointParticles(&mk, &mesh, &tc, &tci, MODEL, &topo, &topo_ini, I_.scaling);
  for (int k = 0; k < 2; k++) { mk.x[k] += 1; mk.T[k] *= 2; mk.phase[k] = 3; } MODEL.time += MODEL.dt; MODEL.step = 8;
  MakeBreakpointParticles(&mk, &mesh, &tc, &tci, MODEL, &topo, &topo_ini, I_.scaling);
  mdx_box(0, 0, 1, 0.5); MODEL.step = 4; fresh();
  LoadBreakpointParticles(&mk, &mesh, &tc, &tci, &MODEL, &topo, &topo_ini, I_.scaling);
  chk = restart = 1; what = "a restart resumes from the step asked for"; memcpy(snap, keep, sizeof snap); state();
}
/* asking for a breakpoint that is not there stops the run with a message, and does not crash it */
void vx_case_missing(void) {
  setup(); MODEL.step = 8; fresh(); chk = 0; state(); double t0 = MODEL.time;
  MakeBreakpointParticles(&mk, &mesh, &tc, &tci, MODEL, &topo, &topo_ini, I_.scaling);
  MODEL.step = vx_int("asked", 7, 9); MODEL.time = -77;
  LoadBreakpointParticles(&mk, &mesh, &tc, &tci, &MODEL, &topo, &topo_ini, I_.scaling);
  vx_check_eqi(MODEL.step, 8, "a missing breakpoint is refused"); vx_check_eq(MODEL.time, t0, "time of the breakpoint");
}
