/* Shared harness helpers: build a small model with the repository's own allocation/setup routines. */
#ifndef MDX_H
#define MDX_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "vx.h"
#include "mdoodz-private.h"
static MdoodzInput I_;
static grid mesh;
static surface topo, topo_ini;
static SparseMat St, SA, SB, SC, SD, JA, JB, JC, JD, Jc;
#define MODEL (I_.model)

static void mdx_fill(double *a, int n, const char *nm, double lo, double hi) {
  char b[64];
  for (int i = 0; i < n; i++) { sprintf(b, "%s%d", nm, i); a[i] = vx_real(b, lo, hi); }
}
static void mdx_unit_scaling(void) {
  scale *s = &I_.scaling;
  s->eta = s->L = s->V = s->T = s->t = s->a = s->E = s->S = s->m = s->rho = s->F = s->J = s->W = s->Cp = s->rhoE = s->k = 1.0;
}
/* symbolic box [x0,x0+Lx]x[z0,z0+Lz]; the spacing is symbolic */
static void mdx_model(int Nx, int Nz) {
  memset(&I_, 0, sizeof(I_));
  mdx_unit_scaling();
  MODEL.Nx = Nx; MODEL.Nz = Nz; MODEL.Nb_phases = 1;
  MODEL.Nt = 1;
  MODEL.dt = 1.0; MODEL.dt0 = 1.0;
  MODEL.interp_stencil = 1; MODEL.noisy = 0;
  MODEL.mechanical = 1;
}
static void mdx_box_sym(void) {
  double dx = vx_real("dx", 0.125, 8), dz = vx_real("dz", 0.125, 8);
  double x0 = vx_real("x0", -16, 16), z0 = vx_real("z0", -16, 16);
  MODEL.xmin = x0; MODEL.zmin = z0; MODEL.xmax = x0 + dx*(MODEL.Nx-1); MODEL.zmax = z0 + dz*(MODEL.Nz-1);
  MODEL.xmin0 = MODEL.xmin; MODEL.xmax0 = MODEL.xmax; MODEL.zmin0 = MODEL.zmin; MODEL.zmax0 = MODEL.zmax;
}
static void mdx_box(double x0, double z0, double dx, double dz) {
  MODEL.xmin = x0; MODEL.zmin = z0; MODEL.xmax = x0 + dx*(MODEL.Nx-1); MODEL.zmax = z0 + dz*(MODEL.Nz-1);
  MODEL.xmin0 = MODEL.xmin; MODEL.xmax0 = MODEL.xmax; MODEL.zmin0 = MODEL.zmin; MODEL.zmax0 = MODEL.zmax;
}
static void mdx_grid(void) {
  mesh = GridAlloc(&MODEL);
  SetGridCoordinates(&mesh, &MODEL, MODEL.Nx, MODEL.Nz);
  GridIndices(&mesh);
  int n = (MODEL.Nx-1)*(MODEL.Nz-1);
  for (int i = 0; i < n; i++) { mesh.BCt.type[i] = -1; mesh.BCp.type[i] = -1; mesh.BCc.type[i] = -1; }
  for (int i = 0; i < MODEL.Nx*MODEL.Nz; i++) mesh.BCg.type[i] = -1;
}
#endif
