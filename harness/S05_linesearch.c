/*VX {"default": {"budget": 300, "bounds": "4x4 nodes, six trial steps, arbitrary trial residuals"}} */
#include "stokes.h"
void UpdateNonLinearity( grid* mesh, markers* particles, markers* topo_chain, surface *topo, mat_prop materials, params *model, Nparams *Nmodel, scale scaling, int mode, int h_contin ) { }
static double trial[8][3], tried[8]; static int ntrial, mode, c0; static double d0, u0;
/* the residual of each trial state is arbitrary; the state it is evaluated for is recorded */
void EvaluateStokesResidualDecoupled( SparseMat *Stokes, SparseMat *StokesA, SparseMat *StokesB, SparseMat *StokesC, SparseMat *StokesD, Nparams *Nmodel, grid *mesh, params model, scale scaling, int quiet ) {
  char b[32]; sprintf(b, "r%d", ntrial);
  double r = vx_real(b, 0, 8);
  vx_check(ntrial < 8, "more trials than the search announces");
  Nmodel->resx = mode == 0 ? r : mode == 3 ? 3*r : 0; Nmodel->resz = mode == 1 ? r : mode == 3 ? 4*r : 0; Nmodel->resp = mode == 2 ? r : 0;
  trial[ntrial][0] = r; tried[ntrial] = (mesh->u_in[c0] - u0)/d0;
  ntrial++;
}
static void search(int md) {
  mode = md; ntrial = 0;
  mdx_model(4, 4); mdx_box(0, 0, 1, 0.5); mdx_grid();
  bcN = bcW = 0; bcS = bcE = 1;
  build(); 
  int nx = MODEL.Nx, nz = MODEL.Nz, n = 0;
  for (int i = 0; i < nx*(nz+1); i++) mesh.u_in[i] = 0.25*i; for (int i = 0; i < (nx+1)*nz; i++) mesh.v_in[i] = 1 - 0.5*i; for (int i = 0; i < (nx-1)*(nz-1); i++) mesh.p_in[i] = 3+i;
  ApplyBC(&mesh, &MODEL);
  alloc();
  MODEL.Newton = vx_int("newton", 0, 1); MODEL.line_search_min = vx_int("minstep", 0, 1)*0.25;
  double *d = malloc(St.neq*8); for (int i = 0; i < St.neq; i++) d[i] = 1 + 0.125*i;
  c0 = 1 + nx; d0 = d[St.eqn_u[c0]]; u0 = mesh.u_in[c0];
  double *U = malloc(nx*(nz+1)*8), *V = malloc((nx+1)*nz*8), *P = malloc((nx-1)*(nz-1)*8);
  for (int i = 0; i < nx*(nz+1); i++) U[i] = mesh.u_in[i]; for (int i = 0; i < (nx+1)*nz; i++) V[i] = mesh.v_in[i]; for (int i = 0; i < (nx-1)*(nz-1); i++) P[i] = mesh.p_in[i];
  Nparams q; memset(&q, 0, sizeof q); markers m, tc; memset(&m, 0, sizeof m); memset(&tc, 0, sizeof tc);
  double r0 = vx_real("rstart", 0, 8);
  q.resx_f = md == 0 ? r0 : md == 3 ? 3*r0 : 0; q.resz_f = md == 1 ? r0 : md == 3 ? 4*r0 : 0; q.resp_f = md == 2 ? r0 : 0;
  double a = LineSearchDecoupled(&St, &SA, &SB, &SC, &SD, d, &mesh, &MODEL, &q, &m, &tc, &topo, I_.materials, I_.scaling);
  for (int i = 0; i < nx*(nz+1); i++) vx_check_eq(mesh.u_in[i], U[i], "the search leaves the horizontal velocity as it was");
  for (int i = 0; i < (nx+1)*nz; i++) vx_check_eq(mesh.v_in[i], V[i], "the search leaves the vertical velocity as it was");
  for (int i = 0; i < (nx-1)*(nz-1); i++) vx_check_eq(mesh.p_in[i], P[i], "the search leaves the pressure as it was");
  vx_check(ntrial >= 2, "at least two steps are tried");
  double best = trial[0][0]; int full = 0;
  for (int k = 1; k < ntrial; k++) if (trial[k][0] < best) best = trial[k][0];
  int hit = 0;
  for (int k = 0; k < ntrial; k++) if (fabs(tried[k] - a) < 1e-9) { hit = 1; if (!q.stagnated) vx_check_le(trial[k][0], best, "the chosen step has the smallest residual of all tried"); }
  for (int k = 0; k < ntrial; k++) { if (fabs(tried[k] + 1.0) < 1e-9) full = 1; vx_check(tried[k] <= 1e-9 && tried[k] >= -2.5-1e-9, "trial steps lie in the search interval"); }
  if (MODEL.Newton) vx_check(full, "the full Newton step is among the trials");
  if (q.stagnated) { vx_check_eq(a, 0, "a stagnated search leaves the solution unchanged"); }
  else { vx_check(hit, "the chosen step is one of those tried"); vx_check_lt(best, r0, "a step is only taken if it lowers the residual"); vx_check(a < 0, "the step goes down the correction"); }
  if (best < r0 && trial[0][0] > best) vx_check(!q.stagnated, "a step that lowers the residual is not refused");
}
void vx_case_x(void) { search(0); }
void vx_case_z(void) { search(1); }
void vx_case_p(void) { search(2); }
void vx_case_xz(void) { search(3); }
