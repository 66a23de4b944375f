/* Shared set-up of a small Stokes problem through the repository's own routines. */
#ifndef STOKES_H
#define STOKES_H
#include "mdx.h"

/* ---- boundary conditions used by the cases ---- */
void ExtractSolutions2(SparseMat *Stokes, grid *mesh, params *model, double *dx, double alpha);
static int bcN, bcS, bcE, bcW;            /* 0: free slip   1: no slip / prescribed tangential   2: stress */
static double bcval(const char *nm, double k, double l) { char b[64]; sprintf(b, "%s_%d_%d", nm, (int)k, (int)l); return vx_real(b, -4, 4); }
static SetBC myVx(MdoodzInput *in, POSITION p, Coordinates c) {
  SetBC bc; bc.value = 0; bc.type = -1;
  int side = (p==N||p==NW||p==NE) ? bcN : (p==S||p==SW||p==SE) ? bcS : -1;
  if (side >= 0) {
    bc.type = side==1 ? 11 : 13;
    if (bc.type == 11) bc.value = bcval("bcu", c.k, c.l);
  } else if (p==W || p==E) {
    int s = p==W ? bcW : bcE;
    bc.type  = s==2 ? 2 : 0;
    bc.value = bcval("bcu", c.k, c.l);
  }
  return bc;
}
static SetBC myVz(MdoodzInput *in, POSITION p, Coordinates c) {
  SetBC bc; bc.value = 0; bc.type = -1;
  int side = (p==W||p==NW||p==SW) ? bcW : (p==E||p==NE||p==SE) ? bcE : -1;
  if (side >= 0) {
    bc.type = side==1 ? 11 : 13;
    if (bc.type == 11) bc.value = bcval("bcv", c.k, c.l);
  } else if (p==S || p==N) {
    int s = p==S ? bcS : bcN;
    bc.type  = s==2 ? 2 : 0;
    bc.value = bcval("bcv", c.k, c.l);
  }
  return bc;
}
static SetBCs_ff ff;

static void build(void) {
  ff.SetBCVx = MODEL.periodic_x ? SetSimpleShearBCVx : myVx;
  ff.SetBCVz = MODEL.periodic_x ? SetSimpleShearBCVz : myVz;
  SetBCs(ff, &I_, &mesh, &topo);
}
static void fields(void) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  mdx_fill(mesh.eta_n, ncx*ncz, "eta_n", 0.0625, 64);
  mdx_fill(mesh.eta_s, nx*nz,   "eta_s", 0.0625, 64);
  mdx_fill(mesh.rho_n, ncx*ncz, "rho_n", 0, 16);
  mdx_fill(mesh.rho_s, nx*nz,   "rho_s", 0, 16);
  MODEL.gx = vx_real("gx", -4, 4); MODEL.gz = vx_real("gz", -16, 4);
  MODEL.dt = vx_real("dt", 0.0625, 4);
  if (MODEL.compressible) {
    mdx_fill(mesh.bet_n, ncx*ncz, "bet", 0.0625, 4);
    mdx_fill(mesh.p0_n,  ncx*ncz, "p0", -8, 8);
    DetectCompressibleCells(&mesh, &MODEL);
  }
  mdx_fill(mesh.p_in, ncx*ncz, "p", -8, 8);
  for (int i = 0; i < ncx*ncz; i++) if (mesh.BCp.type[i] == 30 || mesh.BCp.type[i] == 31) { mesh.p_in[i] = 0; mesh.rho_n[i] = mesh.rho_n[i]; }
  for (int i = 0; i < ncx*ncz; i++) mesh.p_corr[i] = mesh.p_in[i];
  char b[64];
  for (int i = 0; i < nx*(nz+1); i++) {
    int t = mesh.BCu.type[i];
    if (t==-1 || t==2 || t==-2) { sprintf(b, "u%d", i); mesh.u_in[i] = vx_real(b, -8, 8); }
    else if (t==0) mesh.u_in[i] = mesh.BCu.val[i];
  }
  for (int i = 0; i < (nx+1)*nz; i++) {
    int t = mesh.BCv.type[i];
    if (t==-1 || t==2) { sprintf(b, "v%d", i); mesh.v_in[i] = vx_real(b, -8, 8); }
    else if (t==0) mesh.v_in[i] = mesh.BCv.val[i];
  }
  ApplyBC(&mesh, &MODEL);
}
static void stresses(void) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  StrainRateComponents(&mesh, I_.scaling, &MODEL);
  RheologicalOperators(&mesh, &MODEL, &I_.materials, &I_.scaling, 0, 0);
  for (int i = 0; i < ncx*ncz; i++) {
    mesh.sxxd[i] = mesh.D11_n[i]*mesh.exxd[i] + mesh.D12_n[i]*mesh.ezzd[i];
    mesh.szzd[i] = mesh.D21_n[i]*mesh.exxd[i] + mesh.D22_n[i]*mesh.ezzd[i];
  }
  for (int i = 0; i < nx*nz; i++) mesh.sxz[i] = 2.0*mesh.D33_s[i]*mesh.exz[i];
  EvaluateRHS(&mesh, MODEL, I_.scaling, 0.0);
}
static void alloc(void) {
  EvalNumberOfEquations(&mesh, &St);
  SAlloc(&St, St.neq);
  SAlloc(&SA, St.neq_mom); SAlloc(&SB, St.neq_mom); SAlloc(&SC, St.neq_cont); SAlloc(&SD, St.neq_cont);
}
static double row(SparseMat *M, int i, double *x) {
  double s = 0;
  for (int k = M->Ic[i]; k < M->Ic[i+1]; k++) s += M->A[k]*x[M->J[k]];
  return s;
}
/* internal free surface: the flags are those CellFlagging leaves behind for a flat surface two cells below the top */
static void air(int lsurf) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1;
  for (int l = lsurf; l < ncz; l++) for (int k = 0; k < ncx; k++) {
    int t = l == lsurf ? 31 : 30;
    mesh.BCp.type[k+l*ncx] = t; mesh.BCt.type[k+l*ncx] = 30;
  }
  for (int l = 0; l < nz+1; l++) for (int k = 0; k < nx; k++) if (l-1 >= lsurf) mesh.BCu.type[k+l*nx] = 30;
  for (int l = 0; l < nz; l++) for (int k = 0; k < nx+1; k++) if (l > lsurf) mesh.BCv.type[k+l*(nx+1)] = 30;
  for (int l = 0; l < nz; l++) for (int k = 0; k < nx; k++) if (l >= lsurf) mesh.BCg.type[k+l*nx] = 30;
}
#endif
