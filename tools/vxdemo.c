/* Runtime for demonstrations: every input is drawn pseudo-randomly; a failed assertion ends the program with 66. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <sys/wait.h>
#include <unistd.h>
#include "vx.h"
static unsigned long long st;
static double rnd(void) { st = st*6364136223846793005ULL + 1442695040888963407ULL; return ((st >> 20) & 0xffffffffULL)/4294967296.0; }
double vx_real(const char *n, double lo, double hi) { double r = lo + (hi-lo)*rnd(); if (rnd() < 0.06) r = lo; else if (rnd() < 0.06) r = hi; return r; }
double vx_any(const char *n) { return 8*rnd()-4; }
int vx_int(const char *n, int lo, int hi) { int v = lo + (int)(rnd()*(hi-lo+1)); return v > hi ? hi : v; }
void vx_assume(int c) { if (!c) _exit(77); }
void vx_assume_lt(double a, double b) { vx_assume(a < b); }
void vx_assume_le(double a, double b) { vx_assume(a <= b); }
void vx_assume_eq(double a, double b) { vx_assume(fabs(a-b) <= 1e-12); }
void vx_assume_ne(double a, double b) { vx_assume(a != b); }
static void fail(const char *m, double a, double b) { printf("FAILED: %s (%.10g vs %.10g)\n", m, a, b); fflush(stdout); _exit(66); }
static double TOL = 1e-7;
static double tol(double a, double b) { return TOL*fmax(1, fmax(fabs(a), fabs(b))); }
void vx_check(int c, const char *m) { if (!c) fail(m, 0, 1); }
void vx_check_eq(double a, double b, const char *m) { if (!(fabs(a-b) <= tol(a, b)) && !(a == b)) fail(m, a, b); }
void vx_check_le(double a, double b, const char *m) { if (!(a <= b + tol(a, b))) fail(m, a, b); }
void vx_check_lt(double a, double b, const char *m) { if (!(a < b + tol(a, b))) fail(m, a, b); }
void vx_check_eqi(int a, int b, const char *m) { if (a != b) fail(m, a, b); }
void vx_flag(const char *n, int v) { if (!strcmp(n, "tol_ppb")) TOL = v*1e-9; }
void vx_rand(int n) {}
int  vx_symbolic(void) { return 0; }
void vx_print(const char *s, double v) {}
void vx_file(const char *n, const char *t) { FILE *f = fopen(n, "w"); fputs(t, f); fclose(f); }
int  vx_num(char *b, double v) { return sprintf(b, "%.17g", v); }
long vx_objsize(void *p) { return -1; }
extern void VXCASE(void);
int main(int argc, char **argv) {
  int n = argc > 1 ? atoi(argv[1]) : 100, ran = 0;
  for (int i = 0; i < n; i++) {
    fflush(stdout);
    pid_t p = fork();
    if (!p) { st = 88172645463325252ULL + 7919ULL*i; for (int k = 0; k < 8; k++) rnd(); VXCASE(); fflush(stdout); _exit(0); }
    int s; waitpid(p, &s, 0);
    if (WIFSIGNALED(s)) { printf("crashed with signal %d\n", WTERMSIG(s)); return 1; }
    int rc = WEXITSTATUS(s);
    if (rc == 66 || (rc && rc != 77 && !getenv("EXIT_OK"))) { printf("run %d: exit %d\n", i, rc); return 1; }
    if (rc == 0) ran++;
  }
  printf("%d runs fine\n", ran);
  return ran ? 0 : 2;
}
