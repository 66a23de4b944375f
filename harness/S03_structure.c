/*VX {"default": {"budget": 240, "bounds": "grids 4x4 to 6x7 nodes, all viscosities symbolic, all combinations of side conditions"}} */
#include "stokes.h"
static double entry(SparseMat *M, int i, int j) {
  double s = 0;
  for (int k = M->Ic[i]; k < M->Ic[i+1]; k++) if (M->J[k] == j) s += M->A[k];
  return s;
}
static void csr(SparseMat *M, int rows, int cols) {
  vx_check_eqi(M->Ic[0], 0, "row pointers start at zero");
  vx_check_eqi(M->Ic[rows], M->nnz, "row pointers end at the number of entries");
  for (int i = 0; i < rows; i++) {
    vx_check(M->Ic[i] <= M->Ic[i+1], "row pointers increase");
    for (int k = M->Ic[i]; k < M->Ic[i+1]; k++) vx_check(M->J[k] >= 0 && M->J[k] < cols, "column index within the system");
  }
}
static void numbering(void) {
  int nx = MODEL.Nx, nz = MODEL.Nz, ncx = nx-1, ncz = nz-1, n = 0, np = 0;
  int *seen = calloc(St.neq + 1, sizeof(int));
  for (int c = 0; c < nx*(nz+1); c++) { int t = mesh.BCu.type[c]; if (t == -1 || t == 2 || t == -2) { int e = St.eqn_u[c]; n++; vx_check(e >= 0 && e < St.neq_mom, "equation number of a horizontal velocity is out of range"); seen[e]++; } }
  for (int c = 0; c < (nx+1)*nz; c++) { int t = mesh.BCv.type[c]; if (t == -1 || t == 2) { int e = St.eqn_v[c]; n++; vx_check(e >= 0 && e < St.neq_mom, "equation number of a vertical velocity is out of range"); seen[e]++; } }
  for (int c = 0; c < ncx*ncz; c++) if (mesh.BCp.type[c] == -1) { int e = St.eqn_p[c]; np++; vx_check(e >= St.neq_mom && e < St.neq, "equation number of a pressure is out of range"); seen[e]++; }
  vx_check_eqi(n, St.neq_mom, "number of momentum equations"); vx_check_eqi(np, St.neq_cont, "number of continuity equations"); vx_check_eqi(n+np, St.neq, "number of equations");
  for (int e = 0; e < St.neq; e++) vx_check_eqi(seen[e], 1, "every equation belongs to exactly one unknown");
  if (MODEL.periodic_x) for (int l = 1; l < nz; l++) vx_check_eqi(St.eqn_u[nx-1 + l*nx], St.eqn_u[l*nx], "periodic sides share one unknown");
}
static void structure(void) {
  alloc();
  numbering();
  BuildStokesOperatorDecoupled(&mesh, MODEL, 0, mesh.p_corr, mesh.p_in, mesh.u_in, mesh.v_in, &St, &SA, &SB, &SC, &SD, 1);
  int nm = St.neq_mom, nc = St.neq_cont;
  csr(&SA, nm, nm); csr(&SB, nm, nc); csr(&SC, nc, nm);
  double oop = MODEL.out_of_plane ? 1.5 : 1.0;
  int stress = bcN == 2 || bcS == 2 || bcE == 2 || bcW == 2;   /* one-sided half volumes there: consistent (S01), not symmetric */
  if (!stress) for (int i = 0; i < nm; i++) for (int j = 0; j < i; j++)
    vx_check_eq(entry(&SA, i, j), entry(&SA, j, i), "the viscous operator is symmetric");
  if (!stress) for (int i = 0; i < nm; i++) for (int j = 0; j < nc; j++)
    vx_check_eq(oop*entry(&SB, i, j), -entry(&SC, j, i), "the pressure gradient is the negative transpose of the divergence");
  for (int i = 0; i < nm; i++) vx_check_lt(0, entry(&SA, i, i), "the diagonal of the viscous operator is positive");
}
/* A annihilates rigid translation away from the boundaries */
static void rigid(void) {
  int nx = MODEL.Nx, nz = MODEL.Nz, nm = St.neq_mom;
  double *t = calloc(nm, sizeof(double)), a = vx_real("tx", -4, 4), b = vx_real("tz", -4, 4);
  for (int c = 0; c < nx*(nz+1); c++) { int y = mesh.BCu.type[c]; if (y == -1 || y == 2 || y == -2) t[St.eqn_u[c]] = a; }
  for (int c = 0; c < (nx+1)*nz; c++) { int y = mesh.BCv.type[c]; if (y == -1 || y == 2) t[St.eqn_v[c]] = b; }
  for (int l = 2; l < nz-1; l++) for (int k = 2; k < nx-2; k++) if (mesh.BCu.type[k + l*nx] == -1) vx_check_eq(row(&SA, St.eqn_u[k + l*nx], t), 0, "rigid translation causes no viscous force");
  for (int l = 2; l < nz-2; l++) for (int k = 2; k < nx-1; k++) if (mesh.BCv.type[k + l*(nx+1)] == -1) vx_check_eq(row(&SA, St.eqn_v[k + l*(nx+1)], t), 0, "rigid translation causes no viscous force");
}
void vx_case_sides(void) {
  mdx_model(4, 4); mdx_box_sym(); mdx_grid();
  bcN = vx_int("bcN", 0, 2); bcS = vx_int("bcS", 0, 2); bcE = vx_int("bcE", 0, 2); bcW = vx_int("bcW", 0, 2);
  build(); fields(); stresses(); structure();
}
void vx_case_compressible(void) {
  mdx_model(4, 4); MODEL.compressible = 1; MODEL.out_of_plane = vx_int("oop", 0, 1); mdx_box_sym(); mdx_grid();
  bcN = vx_int("bcN", 0, 1); bcS = vx_int("bcS", 0, 1); bcE = vx_int("bcE", 0, 1); bcW = vx_int("bcW", 0, 1);
  build(); fields(); stresses(); structure();
}
void vx_case_periodic(void) {
  mdx_model(vx_int("Nx", 4, 5), 4); MODEL.periodic_x = 1; MODEL.bkg_strain_rate = vx_real("bkg", -2, 2); mdx_box_sym(); mdx_grid();
  build(); fields();
  for (int l = 0; l < MODEL.Nz; l++) mesh.eta_s[l*MODEL.Nx + MODEL.Nx-1] = mesh.eta_s[l*MODEL.Nx];
  stresses(); structure();
}
void vx_case_freesurface(void) {
  mdx_model(5, 6); MODEL.compressible = vx_int("comp", 0, 1); mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = vx_int("sides", 0, 1);
  air(vx_int("level", 2, 4));
  build(); fields(); stresses(); structure();
}
void vx_case_interior(void) {
  mdx_model(7, 7); mdx_box_sym(); mdx_grid();
  bcN = bcE = bcS = bcW = 0;
  build(); fields(); stresses(); structure(); rigid();
}
