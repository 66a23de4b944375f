/* markers at arbitrary positions in the box */
#ifndef PART_H
#define PART_H
#include "mdx.h"
static markers mk;
static double ps_[16], pt_[16];          /* position of a marker in cell units from the lower-left corner */
static void part_alloc(int n, int nmax) { ParticlesInput pi; memset(&pi, 0, sizeof pi); pi.Nb_part = n; pi.Nb_part_max = nmax; pi.Nx_part = pi.Nz_part = 1; pi.min_part_cell = 1; mk = PartAlloc(pi, &MODEL); }
static void part_at(int k, double s, double t) { ps_[k] = s; pt_[k] = t; mk.x[k] = MODEL.xmin + mesh.dx*s; mk.z[k] = MODEL.zmin + mesh.dz*t; }
static void part_sym(int k) { char b[16]; sprintf(b, "s%d", k); double s = vx_real(b, 0, MODEL.Nx-1); sprintf(b, "t%d", k); double t = vx_real(b, 0, MODEL.Nz-1); part_at(k, s, t); }
#endif
