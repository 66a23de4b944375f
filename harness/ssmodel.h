/* Contract models of the SuiteSparse routines the code calls.  A factor remembers the matrix it was made from (dense, symmetric
   from the stored triangle); a solve returns ARBITRARY numbers x and records  matrix*x - b  for the harness. */
#ifndef SSMODEL_H
#define SSMODEL_H
#include <stdlib.h>
#include "mdx.h"
cs_di *cs_di_spalloc(int m, int n, int nzmax, int values, int triplet) {
  cs_di *A = calloc(1, sizeof(cs_di)); A->m = m; A->n = n; A->nzmax = nzmax > 1 ? nzmax : 1; A->nz = triplet ? 0 : -1;
  A->p = calloc(triplet ? A->nzmax : n+1, sizeof(int)); A->i = calloc(A->nzmax, sizeof(int)); A->x = values ? calloc(A->nzmax, sizeof(double)) : NULL; return A;
}
cs_di *cs_di_spfree(cs_di *A) { if (A) { free(A->p); free(A->i); if (A->x) free(A->x); free(A); } return NULL; }
cs_di *cs_di_compress(const cs_di *T) {
  cs_di *C = cs_di_spalloc(T->m, T->n, T->nz, 1, 0); int q = 0;
  for (int j = 0; j < T->n; j++) { C->p[j] = q; for (int k = 0; k < T->nz; k++) if (T->p[k] == j) { C->i[q] = T->i[k]; C->x[q] = T->x[k]; q++; } }
  C->p[T->n] = q; return C;
}
cs_di *cs_di_transpose(const cs_di *A, int values) {
  int nz = A->p[A->n], q = 0; cs_di *C = cs_di_spalloc(A->n, A->m, nz, 1, 0);
  for (int r = 0; r < A->m; r++) { C->p[r] = q; for (int j = 0; j < A->n; j++) for (int k = A->p[j]; k < A->p[j+1]; k++) if (A->i[k] == r) { C->i[q] = j; C->x[q] = A->x[k]; q++; } }
  C->p[A->m] = q; return C;
}
static double *ssm_dense(const cs_di *A) { double *d = calloc((size_t)A->m*A->n, sizeof(double)); for (int j = 0; j < A->n; j++) for (int k = A->p[j]; k < A->p[j+1]; k++) d[A->i[k] + j*A->m] += A->x[k]; return d; }
static char *ssm_pat(const cs_di *A) { char *d = calloc((size_t)A->m*A->n, 1); for (int j = 0; j < A->n; j++) for (int k = A->p[j]; k < A->p[j+1]; k++) d[A->i[k] + j*A->m] = 1; return d; }
cs_di *cs_di_multiply(const cs_di *A, const cs_di *B) {
  double *a = ssm_dense(A), *b = ssm_dense(B); char *pa = ssm_pat(A), *pb = ssm_pat(B);
  cs_di *C = cs_di_spalloc(A->m, B->n, A->m*B->n, 1, 0); int q = 0;
  for (int j = 0; j < B->n; j++) { C->p[j] = q; for (int i = 0; i < A->m; i++) { double s = 0; int in = 0; for (int k = 0; k < A->n; k++) if (pa[i + k*A->m] && pb[k + j*B->m]) { s += a[i + k*A->m]*b[k + j*B->m]; in = 1; } if (in) { C->i[q] = i; C->x[q] = s; q++; } } }
  C->p[B->n] = q; C->nzmax = q; free(a); free(b); free(pa); free(pb); return C;
}
cs_di *cs_di_add(const cs_di *A, const cs_di *B, double alpha, double beta) {
  double *a = ssm_dense(A), *b = ssm_dense(B); char *pa = ssm_pat(A), *pb = ssm_pat(B);
  cs_di *C = cs_di_spalloc(A->m, A->n, A->m*A->n, 1, 0); int q = 0;
  for (int j = 0; j < A->n; j++) { C->p[j] = q; for (int i = 0; i < A->m; i++) if (pa[i + j*A->m] || pb[i + j*A->m]) { C->i[q] = i; C->x[q] = alpha*a[i + j*A->m] + beta*b[i + j*A->m]; q++; } }
  C->p[A->n] = q; C->nzmax = q; free(a); free(b); free(pa); free(pb); return C;
}
int cs_di_gaxpy(const cs_di *A, const double *x, double *y) { for (int j = 0; j < A->n; j++) for (int k = A->p[j]; k < A->p[j+1]; k++) y[A->i[k]] += A->x[k]*x[j]; return 1; }
/* ---- CHOLMOD ---- */
int cholmod_start(cholmod_common *c) { memset(c, 0, sizeof *c); return 1; }
int cholmod_finish(cholmod_common *c) { return 1; }
cholmod_sparse *cholmod_allocate_sparse(size_t nrow, size_t ncol, size_t nzmax, int sorted, int packed, int stype, int xtype, cholmod_common *c) {
  cholmod_sparse *A = calloc(1, sizeof *A); A->nrow = nrow; A->ncol = ncol; A->nzmax = nzmax > 1 ? nzmax : 1; A->stype = stype; A->packed = 1; A->xtype = CHOLMOD_REAL; A->sorted = sorted;
  A->p = calloc(ncol+1, sizeof(int)); A->i = calloc(A->nzmax, sizeof(int)); A->x = calloc(A->nzmax, sizeof(double)); return A;
}
int cholmod_free_sparse(cholmod_sparse **H, cholmod_common *c) { if (*H) { free((*H)->p); free((*H)->i); free((*H)->x); free(*H); } *H = NULL; return 1; }
/* only from an unsymmetric matrix: stype -1 keeps the lower triangle, 1 the upper, 0 everything */
cholmod_sparse *cholmod_copy(cholmod_sparse *A, int stype, int mode, cholmod_common *c) {
  cholmod_sparse *B = cholmod_allocate_sparse(A->nrow, A->ncol, A->nzmax, 1, 1, stype, 1, c); int q = 0;
  for (int j = 0; j < (int)A->ncol; j++) { ((int*)B->p)[j] = q; for (int k = ((int*)A->p)[j]; k < ((int*)A->p)[j+1]; k++) { int i = ((int*)A->i)[k]; if (stype == 0 || (stype < 0 && i >= j) || (stype > 0 && i <= j)) { ((int*)B->i)[q] = i; ((double*)B->x)[q] = ((double*)A->x)[k]; q++; } } }
  ((int*)B->p)[A->ncol] = q; return B;
}
cholmod_factor *cholmod_analyze(cholmod_sparse *A, cholmod_common *c) { cholmod_factor *L = calloc(1, sizeof *L); L->n = A->nrow; L->minor = L->n; L->is_super = 1; L->x = calloc((size_t)A->nrow*A->nrow, sizeof(double)); return L; }
static double *ssm_full(cholmod_sparse *A) {
  int n = A->nrow; double *d = calloc((size_t)n*A->ncol, sizeof(double));
  for (int j = 0; j < (int)A->ncol; j++) for (int k = ((int*)A->p)[j]; k < ((int*)A->p)[j+1]; k++) {
    int i = ((int*)A->i)[k]; double v = ((double*)A->x)[k];
    if ((A->stype < 0 && i < j) || (A->stype > 0 && i > j)) continue;
    d[i + j*n] += v; if (A->stype != 0 && i != j) d[j + i*n] += v;
  }
  return d;
}
int cholmod_factorize(cholmod_sparse *A, cholmod_factor *L, cholmod_common *c) { double *d = ssm_full(A); free(L->x); L->x = d; return 1; }
int cholmod_change_factor(int a, int b, int e, int f, int g, cholmod_factor *L, cholmod_common *c) { return 1; }
cholmod_factor *cholmod_copy_factor(cholmod_factor *L, cholmod_common *c) { cholmod_factor *M = calloc(1, sizeof *M); *M = *L; size_t n = L->n; M->x = malloc((n*n ? n*n : 1)*sizeof(double)); for (size_t k = 0; k < n*n; k++) ((double*)M->x)[k] = ((double*)L->x)[k]; return M; }
int cholmod_free_factor(cholmod_factor **L, cholmod_common *c) { if (*L) { free((*L)->x); free(*L); } *L = NULL; return 1; }
cholmod_dense *cholmod_allocate_dense(size_t nrow, size_t ncol, size_t d, int xtype, cholmod_common *c) { cholmod_dense *X = calloc(1, sizeof *X); X->nrow = nrow; X->ncol = ncol; X->d = d; X->nzmax = nrow*ncol; X->xtype = xtype; X->x = calloc(nrow*ncol, sizeof(double)); return X; }
cholmod_dense *cholmod_zeros(size_t nrow, size_t ncol, int xtype, cholmod_common *c) { return cholmod_allocate_dense(nrow, ncol, nrow, xtype, c); }
int cholmod_free_dense(cholmod_dense **X, cholmod_common *c) { if (*X) { free((*X)->x); free(*X); } *X = NULL; return 1; }
#define SSM_MAX 12
static int ssm_nsolve, ssm_n[SSM_MAX]; static double *ssm_x[SSM_MAX], *ssm_r[SSM_MAX], ssm_lo = -4, ssm_hi = 4;
cholmod_dense *cholmod_solve(int sys, cholmod_factor *L, cholmod_dense *B, cholmod_common *c) {
  int n = L->n; cholmod_dense *X = cholmod_allocate_dense(n, 1, n, CHOLMOD_REAL, c); char nm[32];
  vx_check(ssm_nsolve < SSM_MAX, "number of linear solves"); vx_check_eqi(B->nrow, n, "right-hand side has one entry per equation");
  double *x = malloc(n*sizeof(double)), *r = malloc(n*sizeof(double)), *A = L->x;
  for (int i = 0; i < n; i++) { sprintf(nm, "x%d_%d", ssm_nsolve, i); x[i] = vx_real(nm, ssm_lo, ssm_hi); ((double*)X->x)[i] = x[i]; }
  for (int i = 0; i < n; i++) { r[i] = -((double*)B->x)[i]; for (int j = 0; j < n; j++) r[i] += A[i + j*n]*x[j]; }
  ssm_n[ssm_nsolve] = n; ssm_x[ssm_nsolve] = x; ssm_r[ssm_nsolve] = r; ssm_nsolve++;
  return X;
}
#endif
