/* Native side of the harness API: replays one recorded assignment against the real code. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
static struct { char n[96]; double v; int used; } T[200000];
static int nT = 0, nchecks = 0, trace = 0;
static struct { char n[64]; int k; } C[4000];
static int nC = 0;
static double TOL = 1e-7;
static int key(const char *n) {
  for (int i = 0; i < nC; i++) if (!strcmp(C[i].n, n)) return C[i].k++;
  snprintf(C[nC].n, 64, "%s", n); C[nC].k = 1; nC++; return 0;
}
static int hint = 0;
static double get(const char *n, double dflt) {
  char b[96]; snprintf(b, 96, "%s#%d", n, key(n));
  for (int q = 0; q < nT; q++) { int i = (hint + q) % nT; if (!strcmp(T[i].n, b)) { hint = i + 1; return T[i].v; } }
  return dflt;
}
double vx_real(const char *n, double lo, double hi) {
  double d = (lo <= 0 && hi >= 0) ? 0.0 : (lo > 0 ? lo : hi);
  if (isfinite(lo) && isfinite(hi)) d = 0.5 * (lo + hi);
  if (lo == hi) { get(n, lo); return lo; }
  double v = get(n, d);
  if (v < lo) v = lo; if (v > hi) v = hi;
  return v;
}
double vx_any(const char *n) { return get(n, 0.0); }
int vx_int(const char *n, int lo, int hi) { (void)hi; return (int)get(n, lo); }
static void rej(void) { printf("VXASSUME\n"); fflush(stdout); _exit(77); }
void vx_assume(int c) { if (!c) rej(); }
void vx_assume_lt(double a, double b) { if (!(a < b)) rej(); }
void vx_assume_le(double a, double b) { if (!(a <= b + 1e-12 * (fabs(a) + fabs(b)))) rej(); }
void vx_assume_eq(double a, double b) { if (!(fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)))) rej(); }
void vx_assume_ne(double a, double b) { if (a == b) rej(); }
static void fail(const char *m, double a, double b) {
  printf("VXFAIL %s | %.12g vs %.12g\n", m, a, b); fflush(stdout);
  if (!trace) _exit(66);
}
static double sc(double a, double b) { double s = fmax(fabs(a), fabs(b)); return s > 1.0 ? s : 1.0; }
void vx_check(int c, const char *m) { nchecks++; if (trace) printf("VXT c %d\n", c != 0); if (!c) fail(m, c, 1); }
void vx_check_eq(double a, double b, const char *m) {
  nchecks++; if (trace) printf("VXT eq %.17g %.17g\n", a, b);
  if (isinf(a) && a == b) return;
  if (!(fabs(a - b) <= TOL * sc(a, b))) fail(m, a, b);
}
void vx_check_le(double a, double b, const char *m) {
  nchecks++; if (trace) printf("VXT le %.17g %.17g\n", a, b);
  if (!(a <= b || a - b <= TOL * sc(a, b))) fail(m, a, b);
}
void vx_check_lt(double a, double b, const char *m) {
  nchecks++; if (trace) printf("VXT lt %.17g %.17g\n", a, b);
  if (!(a < b)) fail(m, a, b);
}
void vx_check_eqi(int a, int b, const char *m) {
  nchecks++; if (trace) printf("VXT eqi %d %d\n", a, b);
  if (a != b) fail(m, a, b);
}
static int exit_bad = 0;
void vx_flag(const char *n, int v) { if (!strcmp(n, "exit_is_violation")) exit_bad = v; if (!strcmp(n, "tol_ppb")) TOL = v*1e-9; }
static int rnd_n = 0;
void vx_rand(int n) { rnd_n = n; }
int vx_symbolic(void) { return 0; }
void vx_print(const char *s, double v) { printf("VX %s %.12g\n", s, v); }
void vx_file(const char *name, const char *text) { FILE *f = fopen(name, "w"); if (f) { fputs(text, f); fclose(f); } }
int vx_num(char *buf, double v) { return sprintf(buf, "%.17g", v); }
long vx_objsize(void *p) { (void)p; return -1; }
static void atx(void) { if (exit_bad) { printf("VXFAIL the run was aborted (exit called)\n"); fflush(stdout); _exit(66); } }
void VXCASE(void);
int main(int ac, char **av) {
  const char *tr = getenv("VX_TRACE"); trace = tr != NULL;
  if (getenv("VX_TOL")) TOL = atof(getenv("VX_TOL"));
  if (ac > 1) {
    FILE *f = fopen(av[1], "r"); char n[96]; double v;
    while (f && fscanf(f, "%95s %lf", n, &v) == 2) { snprintf(T[nT].n, 96, "%s", n); T[nT].v = v; nT++; }
    if (f) fclose(f);
  }
  atexit(atx);
  VXCASE();
  printf("VXOK %d checks\n", nchecks); fflush(stdout);
  _exit(0);
}
