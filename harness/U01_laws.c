/*VX {"default": {"budget": 300, "max_paths": 4000, "math_approx": true, "bounds": "every law of the library, the four scales and the user-defined parameters arbitrary (user-defined exponents 1, 2, 3, 3.5)"}} */
#include "mdx.h"
/* The library in SI units, as published. Stress exponent n, grain size exponent m, fugacity exponent r. */
static const double T_pwl[][10] = { /* number, t, n, m, r, Q, V, A, f, a */
 {10, 1, 3.3, 0.0, 0.0, 186.5e3, 0.0e-6, 3.1623e-26, 0.0, 0.0}, /* Westerly Granite (dry) - Hansen & Carter (1983) */
 {11, 1, 4.7, 0.0, 0.0, 485.0e3, 0.0e-6, 5.0477e-28, 0.0, 0.0}, /* Maryland Diabase - Mackwell et al. (1998) */
 {12, 1, 3.0, 0.0, 0.0, 276.0e3, 0.0e-6, 3.2e-20, 0.0, 0.0}, /* Maryland Diabase - Carter & Tsenn (1987) */
 {13, 1, 2.3, 0.0, 0.0, 154.0e3, 0.0e-6, 5.0717e-18, 0.0, 0.0}, /* Wet Quartzite - Ranalli (1995) */
 {14, 1, 5.3, 0.0, 0.0, 102.0e3, 0.0e-6, 9.9848e-32, 0.0, 0.0}, /* Rocksalt - Ranalli (1995) */
 {15, 1, 4.7, 0.0, 0.0, 297.0e3, 0.0e-6, 1.5849e-25, 0.0, 0.0}, /* Calcite - Renner et al. (2002) */
 {16, 1, 3.1, 0.0, 0.0, 243.0e3, 0.0e-6, 2.0095e-21, 0.0, 0.0}, /* Felsic granulite - Ranalli (1995) */
 {17, 1, 4.2, 0.0, 0.0, 445.0e3, 0.0e-6, 8.8334e-22, 0.0, 0.0}, /* Mafic granulite - Ranalli (1995) */
 {18, 1, 4.7, 0.0, 0.0, 297.0e3, 0.0e-6, 1.5849e-25, 0.0, 0.0}, /* Calcite - Schmid et al. (1977) */
 {19, 1, 3.0, 0.0, 0.0, 356.0e3, 0.0e-6, 3.9811e-16, 0.0, 0.0}, /* Anorthite 100 - 0.007 H20 Wt%% - Rybacki & Dresen (2000, 2004) */
 {20, 1, 2.22, 0.0, 0.0, 485.0e3, 0.0e-6, 2.7952e-07, 0.0, 0.0}, /* Garnet - Ji and Martignole (1994) */
 {21, 1, 3.5, 0.0, 0.0, 310.0e3, 0.0e-6, 1.0e-23, 0.0, 0.0}, /* Omphacite - Zhang et al. (2006) */
 {22, 1, 2.72, 0.0, 0.0, 134.0e3, 0.0e-6, 7.3191e-24, 0.0, 0.0}, /* Qtz - Koch et al. (1989) */
 {23, 1, 3.2, 0.0, 0.0, 238.0e3, 0.0e-6, 2.0632e-23, 0.0, 0.0}, /* Fsp - Shelton and Tullis (1981) */
 {24, 1, 18.0, 0.0, 0.0, 51.0e3, 0.0e-6, 1.0000e-138, 0.0, 0.0}, /* Mica - Kronenberg et al. (1990) */
 {25, 1, 4.0, 0.0, 0.0, 431.0e3, 0.0e-6, 7.9433e-24, 0.0, 0.0}, /* Plagioclase - Shelton (1981) - Ph.D. Thesis */
 {26, 1, 2.4, 0.0, 0.0, 160.0e3, 0.0e-6, 3.981e-19, 0.0, 0.0}, /* Wet Quartzite - Burov (2011), Brace and Kohlstedt (1980), Kirby and Kronenberg (1987), Kohlstedt et al. (1995) */
 {27, 1, 2.4, 0.0, 0.0, 156.0e3, 0.0e-6, 2.667e-20, 0.0, 0.0}, /* Dry Quartz - Ranalli et al. (1995, 1997), Ranalli (2003) */
 {28, 1, 4.0, 0.0, 0.0, 135.0e3, 0.0e-6, 6.3096e-36, 0.0, 0.0}, /* Qtz - Hirth et al. (2001) - uniaxial */
 {29, 0.0, 3.7, 0.0, 0.0, 244e3, 0.0, 6.9405e-27, 0.0, 0.0}, /* Basalt - Hacker & Chritie (1990) */
 {30, 1, 3.0, 0.0, 0.0, 648.0e3, 0.0e-6, 5.0119e-06, 0.0, 0.0}, /* Anorthite dry - Rybacki and Dresen (2000) */
 {31, 1, 4.7, 0.0, 0.0, 760.0e3, 0.0e-6, 3.9811e-19, 0.0, 0.0}, /* DRY CPX - Bystricky & Mackwell, 2001 */
 {32, 1, 3.0, 0.0, 0.0, 235.0e3, 0.0e-6, 3.16228e-20, 0.0, 0.0}, /* Anorthite 60 - Rybacki & Dresen (2004) */
 {33, 1, 2.22, 0.0, 0.0, 485.0e3, 10e-6, 2.7952e-07, 0.0, 0.0}, /* Garnet - Ji and Martignole (1994) */
 {34, 1, 3.3, 0.0, 0.0, 186.5e3, 0.0e-6, 3.1623e-26, 0.0, 50.0}, /* Westerly Granite + melt weakening (dry) - Hansen & Carter (1983) */
 {40, 1, 3.5, 0.0, 0.0, 530.0e3, 11.0e-6, 1.1000e-16, 0.0, 0.0}, /* Olivine Dry Dislocation creep - Hirth & Kohlstedt (2003) */
 {41, 1, 3.5, 0.0, 1.2, 480.0e3, 11.0e-6, 5.6786e-27, 1.0e9, 0.0}, /* Olivine Wet Dislocation creep - Hirth & Kohlstedt (2003) */
 {42, 1, 3.5, 0.0, 0.0, 532.0e3, 0.0e-6, 2.5119e-17, 0.0, 0.0}, /* Dry Olivine average from Ranalli (1995) - Kirby & Kronenberg (1987) */
 {43, 1, 4.0, 0.0, 0.0, 471.0e3, 0.0e-6, 1.9953e-21, 0.0, 0.0}, /* Wet Olivine average from Ranalli (1995) - Kirby & Kronenberg (1987) */
 {44, 1, 3.0, 0.0, 0.0, 520.0e3, 0.0e-6, 1.0e-14, 0.0, 0.0}, /* Olivine - Chopra and Paterson 1984 */
 {45, 1, 3.5, 0.0, 0.0, 520.0e3, 0.0e-6, 1.60e-18, 0.0, 0.0}, /* Olivine Dry Dislocation creep - Hirth & Kohlstedt (2003) */
 {46, 1, 5.8, 0.0, 0.0, 17.6e3, 0.0e-6, 5.3443e-41, 0.0, 0.0}, /* Serpentine 1 GPa - Hilairet et al. (2007) */
};
static const double T_lin[][10] = { /* number, t, n, m, r, Q, V, A, f, a */
 {1, 1, 3.3, 0.0, 0.0, 186.5e3, 0.0, 3.1623e-26, 0.0, 0.0}, /* Siltstone */
 {15, 1.0, 1.1, 3.3, 0.0, 200e3, 0e-6, 1.7119e-19, 0.0, 0.0}, /* Calcite Diffusion creep - Herwegh (2003) */
 {19, 1.0, 1.0, 3.0, 0.0, 170e3, 0e-6, 5.0119e-23, 0.0, 0.0}, /* Anorthite 100 - 0.007 H20 Wt%% - Rybacki & Dresen (2000, 2004) */
 {25, 1.0, 1.0, 3.0, 0.0, 268e3, 0e-6, 1.2589e-19, 0.0, 0.0}, /* Plagioclase Diffusion creep - Rybacki and Dresen (2000) */
 {40, 1, 1.0, 3.0, 0.0, 375e3, 4.0e-6, 1.5000e-15, 0.0, 0.0}, /* Olivine Dry Diffusion creep - Hirth & Kohlstedt (2003) */
 {41, 1, 1.0, 3.0, 1.0, 375e3, 7e-6, 2.5000e-23, 1e9, 0.0}, /* Olivine Wet Diffusion creep - Hirth & Kohlstedt (2003) */
};
static const double T_gbs[][10] = { /* number, t, n, m, r, Q, V, A, f, a */
 {40, 1, 3.5, 2.0, 0.0, 400e3, 0.0, 6.5000e-30, 0.0, 0.0}, /* Olivine Low T GBS T<1250°C - Hirth & Kohlstedt (2003) */
 {41, 1, 3.5, 2.0, 0.0, 600e3, 0.0, 4.7000e-23, 0.0, 0.0}, /* Olivine Low T GBS T>1250°C - Hirth & Kohlstedt (2003) */
};
static const double T_exp[][9] = { /* number, t, q, G, S, Q, V, E, n */
 {25, 1, 2.0, 0.2, 9.831e9, 431.0e3, 0e-6, 3.02e-9, 2.0}, /* Plagioclase Peierls creep - Azuma et al., 2014 / Regularized - Kameyama et al. (1999) */
 {40, 1, 2.0, 0.1, 8.5e9, 5.4e5, 0.0e-6, 5.7e11, 0.0}, /* Olivine Peierls creep - Evans & Goetze (1979) / Regularized - Kameyama et al. (1999) */
};

static mat_prop m; static params M; static scale s;
static void begin(void) {
  s.eta = vx_real("s_eta", 0.125, 8); s.L = vx_real("s_L", 0.125, 8); s.V = vx_real("s_V", 0.125, 8); s.T = vx_real("s_T", 0.125, 8); ScaleMe(&s); memset(&M, 0, sizeof M); memset(&m, 0, sizeof m);
}
static char nm[120];
static void eq(double got, double unit, double want, const char *law, int no, const char *what) {
  sprintf(nm, "%s law %d: %s in SI units", law, no, what);
  if (want == 0) vx_check_eq(got, 0, nm); else vx_check_eq(got*unit/want, 1, nm);
}
/* F converts the law of the experiment to invariants: axial compression e = A s^n with eII = sqrt(3)/2 e, s = sqrt(3) tII; simple shear 2 eII = A (2 tII)^n; none */
static void conv(double F, double n, int t, const char *law, int no) {
  sprintf(nm, "%s law %d: conversion to invariants", law, no);
  if (t == 0) vx_check_eq(F, 1, nm);
  const double q3 = 1.7320508075688772; double v = t == 1 ? q3/2*pow(2*q3*F, n) : t == 2 ? 0.5*pow(4*F, n) : 1;
  vx_check(v > 1 - 1e-9 && v < 1 + 1e-9, nm);
}
#define CREEP(suf, read, law) static void do_##suf(int i, int neg) { \
  const double *p = T_##suf[i]; int no = p[0]; double n = p[2], mm = p[3], r = p[4]; \
  read(&m, &M, 1, neg ? -no : no, &s); \
  eq(m.t##suf[1], 1, p[1], law, no, "type"); eq(m.n##suf[1], 1, n, law, no, "stress exponent"); eq(m.m##suf[1], 1, mm, law, no, "grain size exponent"); eq(m.r##suf[1], 1, r, law, no, "fugacity exponent"); \
  eq(m.Q##suf[1], s.S*s.L*s.L*s.L, p[5], law, no, "activation energy"); if (!(M.force_act_vol_ast && no == 40)) eq(m.V##suf[1], s.L*s.L*s.L, p[6], law, no, "activation volume"); \
  eq(m.A##suf[1], pow(s.S, -n)*pow(s.S, -r)*pow(s.L, mm)/s.t, p[7], law, no, "prefactor"); eq(m.f##suf[1], s.S, p[8], law, no, "fugacity"); if (!M.force_melt_weak) eq(m.a##suf[1], 1, p[9], law, no, "melt weakening"); \
  conv(m.F##suf[1], n, neg ? 0 : (int)p[1], law, no); \
  vx_check(m.Q##suf[0] == 0 && m.A##suf[0] == 0 && m.n##suf[0] == 0 && m.Q##suf[2] == 0, "other phases untouched"); }
CREEP(pwl, ReadDataPowerLaw, "power")
CREEP(lin, ReadDataLinear, "diffusion")
CREEP(gbs, ReadDataGBS, "boundary sliding")
/* the parameters of the other mechanisms of the phase stay */
static double keep[40]; static int nk;
#define FIELDS(X, suf) X(t##suf) X(n##suf) X(m##suf) X(r##suf) X(Q##suf) X(V##suf) X(A##suf) X(f##suf) X(a##suf) X(F##suf)
#define EXPF(F) F(texp) F(qexp) F(Gexp) F(Sexp) F(Qexp) F(Vexp) F(Eexp) F(nexp)
#define SET(f) { m.f[1] = 1.5 + nk*0.25; keep[nk++] = m.f[1]; }
#define SAME(f) vx_check_eq(m.f[1], keep[nk++], "a flow law leaves the other mechanisms of its phase alone");
static void others(int w) {
  nk = 0; if (w != 0) { FIELDS(SET, pwl) } if (w != 1) { FIELDS(SET, lin) } if (w != 2) { FIELDS(SET, gbs) } if (w != 3) { EXPF(SET) }
}
static void same(int w) {
  nk = 0; if (w != 0) { FIELDS(SAME, pwl) } if (w != 1) { FIELDS(SAME, lin) } if (w != 2) { FIELDS(SAME, gbs) } if (w != 3) { EXPF(SAME) }
}
#define LEN(a) ((int)(sizeof a/sizeof a[0]))
void vx_case_power(void)     { begin(); int neg = vx_int("neg", 0, 1); for (int i = 0; i < LEN(T_pwl); i++) do_pwl(i, neg); }
void vx_case_diffusion(void) { begin(); int neg = vx_int("neg", 0, 1); for (int i = 0; i < LEN(T_lin); i++) do_lin(i, neg); }
void vx_case_sliding(void)   { begin(); int neg = vx_int("neg", 0, 1); for (int i = 0; i < LEN(T_gbs); i++) do_gbs(i, neg); }
/* forced activation volumes and melt weakening are taken in SI */
void vx_case_forced(void) {
  begin(); M.force_act_vol_ast = 1; M.force_melt_weak = vx_int("fm", 0, 1); M.act_vol_dis_ast = vx_real("Vdis", 1, 8); M.act_vol_dif_ast = vx_real("Vdif", 1, 8); M.melt_weak = vx_real("weak", 1, 64);
  for (int i = 0; i < LEN(T_pwl); i++) if (T_pwl[i][0] >= 34) { do_pwl(i, 0); if (M.force_melt_weak) vx_check_eq(m.apwl[1], M.melt_weak, "melt weakening as given"); if (T_pwl[i][0] == 40) vx_check_eq(m.Vpwl[1]*s.L*s.L*s.L, M.act_vol_dis_ast, "activation volume of dislocation creep as given"); }
  for (int i = 0; i < LEN(T_lin); i++) { do_lin(i, 0); if (T_lin[i][0] == 40) vx_check_eq(m.Vlin[1]*s.L*s.L*s.L, M.act_vol_dif_ast, "activation volume of diffusion creep as given"); }
}
void vx_case_peierls(void) {
  begin(); int neg = vx_int("neg", 0, 1);
  for (int i = 0; i < LEN(T_exp); i++) {
    const double *p = T_exp[i]; int no = p[0]; ReadDataExponential(&m, &M, 1, neg ? -no : no, &s);
    eq(m.texp[1], 1, neg ? 0 : p[1], "Peierls", no, "type"); eq(m.qexp[1], 1, p[2], "Peierls", no, "exponent"); eq(m.Gexp[1], 1, p[3], "Peierls", no, "regularisation"); eq(m.Sexp[1], s.S, p[4], "Peierls", no, "stress"); eq(m.Qexp[1], s.S*s.L*s.L*s.L, p[5], "Peierls", no, "activation energy"); eq(m.Vexp[1], s.L*s.L*s.L, p[6], "Peierls", no, "activation volume"); eq(m.Eexp[1], pow(s.S, -p[8])/s.t, p[7], "Peierls", no, "rate"); eq(m.nexp[1], 1, p[8], "Peierls", no, "stress exponent");
  }
}
/* user-defined laws: viscosity eta0 at unit strain rate; stress tau0 at strain rate eps0 */
void vx_case_user(void) {
  begin(); static const double ns[4] = { 1, 2, 3, 3.5 }; double eta0 = vx_real("eta0", 0.25, 4), tau0 = vx_real("tau0", 0.25, 4), eps0 = vx_real("eps0", 0.25, 4), Q = vx_real("Q", 0, 8);
  for (int i = 0; i < 4; i++) for (int kind = 1; kind <= 2; kind++) {
    double n = ns[i]; m.npwl[1] = n; m.eta0[1] = eta0/s.eta; m.tau0[1] = tau0/s.S; m.eps0[1] = eps0*s.t; m.Qpwl[1] = Q;
    ReadDataPowerLaw(&m, &M, 1, kind, &s); double A = m.Apwl[1]*pow(s.S, -n)/s.t; vx_check_eq(m.Fpwl[1], 1, "user-defined law: no conversion"); vx_check_eq(m.Qpwl[1]*s.S*s.L*s.L*s.L, Q, "user-defined law: activation energy"); vx_check_eq(m.npwl[1], n, "user-defined law: exponent");
    vx_check_eq(m.mpwl[1] + m.rpwl[1] + m.Vpwl[1] + m.fpwl[1] + m.apwl[1], 0, "user-defined law: no other dependence");
    if (kind == 1) vx_check_eq(A*pow(eta0, n), 1, "user-defined law: viscosity eta0 at unit strain rate");
    else vx_check_eq(A*pow(tau0/2, n)/eps0, 1, "user-defined law: stress tau0 at strain rate eps0");
  }
}
/* number, p, K, Q, gamma, c, lambda; piezometers: d = K tau^-p */
static const double T_gs[][7] = {
 {9, 3, 2.5e-9, 175e3, 1, M_PI, 0.01}, {10, 3, 2.5e-9, 175e3, 1, M_PI, 0.1}, {11, 1.14, 0, 0, 0, 0, 0}, {12, 0.9767, 0, 0, 0, 0, 0}, {40, 2, 607e-12, 200e3, 0.1, 1.2197, 0.1}, {41, 4, 497075e-24, 300e3, 0.1, 1.2197, 0.1}, {42, 3.2, 0, 620e3, 1.4, 3.1415, 0.01} };
void vx_case_grains(void) {
  begin();
  for (int i = 0; i < LEN(T_gs); i++) {
    const double *q = T_gs[i]; int no = q[0], pz = no == 11 || no == 12; double p = q[1], K = no == 11 ? pow(10.0, 3.31 - 6 + 6*p) : no == 12 ? pow(10.0, 2.63 - 6 + 6*p) : no == 42 ? 1800*pow(10.0, -6*p) : q[2];
    ReadDataGSE(&m, &M, 1, no, &s); eq(m.ppzm[1], 1, p, "grain size", no, "exponent"); eq(m.Kpzm[1], pz ? s.L*pow(s.S, p) : pow(s.L, p)/s.t, K, "grain size", no, "rate"); eq(m.Qpzm[1], s.S*s.L*s.L*s.L, q[3], "grain size", no, "activation energy"); eq(m.Gpzm[1], s.S*s.L, q[4], "grain size", no, "surface energy"); eq(m.cpzm[1], 1, q[5], "grain size", no, "shape"); eq(m.Lpzm[1], 1, q[6], "grain size", no, "work fraction"); if (no == 42) eq(m.Vpzm[1], s.L*s.L*s.L, 5e-6, "grain size", no, "activation volume");
  }
  ReadDataKinetics(&m, &M, 1, 9, &s); printf("\n"); eq(m.Skin[1], 1/s.L, 3.35e4, "kinetics", 9, "grain surface"); eq(m.kkin[1], s.L/s.t/s.T, 0.185, "kinetics", 9, "growth rate"); eq(m.Qkin[1], s.S*s.L*s.L*s.L, 243e3, "kinetics", 9, "activation energy");
}
void vx_case_others(void) {
  begin(); int neg = vx_int("neg", 0, 1), sg = neg ? -1 : 1;
  for (int i = 0; i < LEN(T_pwl); i++) { others(0); ReadDataPowerLaw(&m, &M, 1, sg*(int)T_pwl[i][0], &s); same(0); }
  for (int i = 0; i < LEN(T_lin); i++) { others(1); ReadDataLinear(&m, &M, 1, sg*(int)T_lin[i][0], &s); same(1); }
  for (int i = 0; i < LEN(T_gbs); i++) { others(2); ReadDataGBS(&m, &M, 1, sg*(int)T_gbs[i][0], &s); same(2); }
  for (int i = 0; i < LEN(T_exp); i++) { others(3); ReadDataExponential(&m, &M, 1, sg*(int)T_exp[i][0], &s); same(3); }
}
/* unknown numbers stop the run; known ones do not */
static int in_list(int no, int w) {
  if (w == 0) { if (no == 1 || no == 2) return 1; for (int i = 0; i < LEN(T_pwl); i++) if (T_pwl[i][0] == no) return 1; }
  if (w == 1) { if (no == 1) return 1; for (int i = 0; i < LEN(T_lin); i++) if (T_lin[i][0] == no) return 1; }
  if (w == 2) for (int i = 0; i < LEN(T_gbs); i++) if (T_gbs[i][0] == no) return 1;
  if (w == 3) for (int i = 0; i < LEN(T_exp); i++) if (T_exp[i][0] == no) return 1;
  if (w == 4) for (int i = 0; i < LEN(T_gs); i++) if (T_gs[i][0] == no) return 1;
  if (w == 5) return no == 1 || no == 9;
  return 0;
}
void vx_case_unknown(void) {
  begin(); int w = vx_int("which", 0, 5), no = vx_int("no", 0, 60), known = in_list(no, w);
  vx_flag("exit_is_violation", known);
  if (w == 0) ReadDataPowerLaw(&m, &M, 1, no, &s); if (w == 1) ReadDataLinear(&m, &M, 1, no, &s); if (w == 2) ReadDataGBS(&m, &M, 1, no, &s); if (w == 3) ReadDataExponential(&m, &M, 1, no, &s); if (w == 4) ReadDataGSE(&m, &M, 1, no, &s); if (w == 5) ReadDataKinetics(&m, &M, 1, no, &s);
  vx_check_eqi(known, 1, "a law number that is not in the library is refused");
}
