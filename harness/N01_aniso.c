/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "one material point, all orientations of the layering, all strain rates, pressures, anisotropy factors and parameters"},
 "creep1": {"exp_hom": true}, "creep2": {"exp_hom": true}, "creep3": {"exp_hom": true}, "diffusion": {"exp_hom": true}, "diffusion2": {"exp_hom": true}, "peierls": {"math_approx": true}} */
#include "mdx.h"
static mat_prop *M;
static double Txx, Tzz, Txz, eVE, Eel, Epl, Epwl, Eexp, Elin, Egbs, Ecst, d1, X1, Ov, Pco, rho, dve, dvp, dvr, Wt, We, Wd;
static double exx, ezz, exz, Eii, G, T, P, d, phi, X0, bet, dil, fric, C, P0, T0, txx0, tzz0, txz0, dvt, str, del, lx, lz;
double EvaluateDensity(int p, double Tt, double Pp, double X, double ph, params *m, mat_prop *mm) { return 3 + Tt*Tt/1048576 + 2*Pp + X + ph/4; }
static double run(int pp, int cent, int fu) {
  return ViscosityConciseAniso(0, lx*lz, lx*lx, 0, del, G, T, P, d, phi, X0, exx, ezz, exz, txx0, tzz0, txz0, M, &MODEL, &I_.scaling, &Txx, &Tzz, &Txz, &eVE, &Eel, &Epl, &Epwl, &Eexp, &Elin, &Egbs, &Ecst, &d1, str, dil, fric, C, P0, T0, &X1, &Ov, &Pco, &rho, bet, dvt, &dve, &dvp, &dvr, &Wt, &We, &Wd, pp, cent, fu, 0);
}
/* layering along (lx, lz): 0 along x, 1 any of some directions, 2 all directions */
static void init(int dir) {
  mdx_model(3, 3); M = &I_.materials; M->Nb_phases = 2; M->R = 1; M->Slim[0] = 1e30; M->n_vp[0] = 1; M->gs_ref[0] = 1e-3; M->eta0[0] = 1;
  MODEL.dt = 0.5; MODEL.step = 1; MODEL.elastic = 0; MODEL.anisotropy = 1; MODEL.min_eta = 0; MODEL.max_eta = 1e30; MODEL.eta_tol = 1e-11;
  G = 1; T = 400; P = 1; d = 1; bet = 1; T0 = 400; P0 = 1; M->rho[0] = 3; del = vx_real("delta", 1, 16); X0 = vx_real("X", 0, 1);
  lx = 1; lz = 0; if (dir == 1) { int k = vx_int("dir", 0, 4); static const double A[5] = { 1, 0, 0.6, -0.8, 0.28 }, B[5] = { 0, 1, 0.8, 0.6, -0.96 }; lx = A[k]; lz = B[k]; }
  if (dir == 2) { double t = vx_real("t", -1, 1); lx = (1 - t*t)/(1 + t*t); lz = 2*t/(1 + t*t); }
}
/* 2 eta E, with the shear along the layering divided by the anisotropy factor */
static void law(double eta) {
  double e = lx*(exx*-lz + exz*lx) + lz*(exz*-lz + ezz*lx), w = 2*eta*(1 - 1/del)*e;      /* shear strain rate on the layering, tangent (lx,lz), normal (-lz,lx) */
  vx_check_eq(Txx, 2*eta*exx - w*(-2*lx*lz), "stress xx: shear along the layering is weaker"); vx_check_eq(Tzz, 2*eta*ezz - w*(2*lx*lz), "stress zz: shear along the layering is weaker"); vx_check_eq(Txz, 2*eta*exz - w*(lx*lx - lz*lz), "stress xz: shear along the layering is weaker");
}
static double clampd(double a, double lo, double hi) { return a < lo ? lo : (a > hi ? hi : a); }
static double inv2(double a, double b, double c) { return 0.5*(a*a + b*b + (a+b)*(a+b)) + c*c; }
static void point(int dir, int el, int lim) {
  init(dir); MODEL.elastic = el; MODEL.step = el < 2; if (el == 2) MODEL.elastic = 1; M->cstv[0] = 1; M->eta0[0] = (dir == 1 && el) || dir == 2 ? 2 : vx_real("eta0", 0.25, 16);
  if (dir == 2) { exx = 0.375; ezz = -0.375; exz = 0.5; } else { exx = vx_real("exx", 0.0625, 4); ezz = -exx; exz = vx_real("exz", -4, 4); }
  G = dir == 1 && el ? 2 : vx_real("G", 0.25, 16); phi = 0.5; P = vx_real("P", -4, 4); P0 = vx_real("P0", -4, 4);
  if (lim) { MODEL.min_eta = vx_real("mn", 0.0625, 1); MODEL.max_eta = vx_real("mx", 2, 16); }
  txx0 = vx_real("txx0", -2, 2); tzz0 = -txx0; txz0 = vx_real("txz0", -2, 2); Eii = sqrt(inv2(exx, ezz, exz));
  int cent = vx_int("cent", 0, 1); double eta = run(1, cent, 0), e0 = M->eta0[0], h = el == 1 ? e0*G*0.5/(e0 + G*0.5) : e0; law(h);
  vx_check_eq(eVE, clampd(h, MODEL.min_eta, MODEL.max_eta), "effective viscosity is the series combination, within its limits"); vx_check_eq(eta, clampd(e0, MODEL.min_eta, MODEL.max_eta), "returned viscosity is the dissipative one, within its limits");
  vx_check_eq(X1, X0, "composition is kept"); vx_check_eq(d1, d, "grain size is kept"); vx_check_eq(Pco, P, "pressure is kept"); vx_check_eq(Epl, 0, "no plastic strain rate"); vx_check_eq(dvp, 0, "no plastic dilation"); vx_check_eq(Ov, 0, "no overstress");
  vx_check_eq(Ecst*e0, h*Eii, "viscous strain rate carries the stress");
  if (cent) { vx_check_eq(rho, 3 + T*T/1048576 + 2*P + X0 + phi/4, "density of the phase at the pressure");
    vx_check_eq(Wd*e0, (Txx*exx + Tzz*ezz + 2*Txz*exz)*h, "dissipation is stress times viscous strain rate"); } else vx_check_eq(Wd, 0, "vertices carry no dissipation");
  if (el == 1) { /* elastic strain rate: stress change over 2 G dt, shear along the layering delta times softer */
    double a = (Txx - txx0)/(2*G*0.5), b = (Tzz - tzz0)/(2*G*0.5), c = (Txz - txz0)/(2*G*0.5), s = -lx*lz*a + lx*lz*b + (lx*lx - lz*lz)*c; vx_check_eq(Eel*Eel, inv2(a, b, c) + (del*del - 1)*s*s, "elastic strain rate is the stress change over 2 G dt"); vx_check_eq(dve, -(P - P0)*bet/0.5, "elastic volume change follows the pressure change"); }
  else vx_check_eq(Eel, 0, "no elastic strain rate without elasticity");
}
void vx_case_viscous(void) { point(1, 0, 1); }
void vx_case_elastic(void) { point(1, 1, 0); }
void vx_case_elasticlim(void) { point(0, 1, 1); }
void vx_case_first(void) { point(1, 2, 0); }
void vx_case_turned(void) { point(2, 0, 0); }
/* dislocation creep: shear along the layering is delta times easier at the same invariant */
static void creep(int n) {
  init(0); M->pwlv[0] = 1; M->npwl[0] = n; double A = vx_real("A", 0.0625, 16), Q = vx_real("Q", 0, 4), V = vx_real("V", 0, 4), F = vx_real("F", 0.25, 4), pre = vx_real("pre", 0.25, 4), f = vx_real("f", 0.25, 4); int m = vx_int("m", 0, 3), r = vx_int("r", 0, 2); double a = vx_real("a", 0, 4);
  exz = vx_real("exz", 0.0625, 8); M->Apwl[0] = A; M->Qpwl[0] = Q; M->Vpwl[0] = V; M->Fpwl[0] = F; M->pref_pwl[0] = pre; M->fpwl[0] = f; M->mpwl[0] = m; M->rpwl[0] = r; M->apwl[0] = a; T = vx_real("T", 300, 2000); P = vx_real("P", 0, 8); d = vx_real("d", 0.25, 4); phi = vx_real("phi", 0, 1); M->R = vx_real("R", 1, 9);
  run(1, 1, 0); double t = del*Txz/(2*F*pre), q = A*pow(f, r)/pow(d, m), Tn = 1; for (int k = 0; k < n; k++) Tn *= t*exp(a*phi/n)*exp(-(Q + P*V)/M->R/n/T);
  vx_check_eq(q*Tn, exz, "stress and strain rate obey the power law"); vx_check_eq(Epwl, exz, "all strain rate is dislocation creep"); vx_check_eq(Wd, 2*Txz*exz, "dissipation is stress times strain rate");
}
void vx_case_creep1(void) { creep(1); }
void vx_case_creep2(void) { creep(2); }
void vx_case_creep3(void) { creep(3); }
static void diffusion(int n) {
  init(0); M->linv[0] = 1; M->nlin[0] = n; double A = vx_real("A", 0.0625, 16), Q = vx_real("Q", 0, 4), V = vx_real("V", 0, 4), F = vx_real("F", 0.25, 4), f = vx_real("f", 0.25, 4); int m = vx_int("m", 0, 3), r = vx_int("r", 0, 2); double a = vx_real("a", 0, 4);
  exz = vx_real("exz", 0.0625, 8); M->Alin[0] = A; M->Qlin[0] = Q; M->Vlin[0] = V; M->Flin[0] = F; M->flin[0] = f; M->mlin[0] = m; M->rlin[0] = r; M->alin[0] = a; T = vx_real("T", 300, 2000); P = vx_real("P", 0, 8); d = vx_real("d", 0.25, 4); phi = vx_real("phi", 0, 1); M->R = vx_real("R", 1, 9);
  run(1, 1, 0); double Tn = 1; for (int k = 0; k < n; k++) Tn *= del*Txz/(2*F)*exp(a*phi/n)*exp(-(Q + P*V)/M->R/n/T); vx_check_eq(A*pow(f, r)*Tn, exz*pow(d, m), "stress and strain rate obey the diffusion creep law"); vx_check_eq(Elin, exz, "all strain rate is diffusion creep"); vx_check_eq(Wd, 2*Txz*exz, "dissipation is stress times strain rate");
}
void vx_case_diffusion(void) { diffusion(1); }
void vx_case_diffusion2(void) { diffusion(2); }
void vx_case_peierls(void) {
  init(0); int hot = vx_int("hot", 0, 1); I_.scaling.T = 2; exz = vx_real("exz", 0.0625, 8); M->expv[0] = 1; M->cstv[0] = hot; M->eta0[0] = 2; M->nexp[0] = 1; M->Gexp[0] = 0.5; M->Sexp[0] = vx_real("S", 1, 8); M->Eexp[0] = vx_real("E", 0.25, 4); M->R = 0.25; T = hot ? 740 : 700; M->Qexp[0] = 4*T/4;
  run(1, 1, 0); if (hot) { vx_check_eq(del*Txz, 4*exz, "low-temperature plasticity is off above 1200 C"); vx_check_eq(Eexp, 0, "no such strain rate above 1200 C"); return; }
  double t = del*Txz/2, F3 = 0.25/9, Arr = exp(-1.0); vx_check_eq(t*t*t*M->Eexp[0]*Arr, F3*0.25*M->Sexp[0]*M->Sexp[0]*exz, "stress and strain rate obey the exponential creep law"); vx_check_eq(Eexp, exz, "all strain rate is exponential creep");
}
void vx_case_series(void) {
  init(0); exz = vx_real("exz", 0.0625, 8); int el = vx_int("el", 0, 1), cs = vx_int("cs", 0, 1), pw = vx_int("pw", 0, 1), li = vx_int("li", 0, 1); vx_assume(cs + pw + li > 0);
  MODEL.elastic = el; M->cstv[0] = cs; M->pwlv[0] = pw; M->linv[0] = li; M->npwl[0] = M->nlin[0] = 1; M->Apwl[0] = vx_real("Ap", 0.25, 4); M->Alin[0] = vx_real("Al", 0.25, 4); M->eta0[0] = vx_real("eta0", 0.25, 4); M->Fpwl[0] = M->Flin[0] = M->pref_pwl[0] = M->fpwl[0] = M->flin[0] = 1; G = vx_real("G", 0.25, 4);
  run(1, 1, 0); double inv = cs/M->eta0[0] + pw*M->Apwl[0] + li*M->Alin[0], t = del*Txz;
  vx_check_eq(eVE*(inv + el/(G*0.5)), 1, "mechanisms act in series"); vx_check_eq(t, 2*eVE*exz, "stress is twice the viscosity times the strain rate, over the anisotropy factor"); vx_check_eq(Wd, del*Txz*Txz*inv, "dissipation collects the viscous mechanisms only");
  vx_check_eq(Ecst, cs*t/2/M->eta0[0], "constant-viscosity part"); vx_check_eq(Epwl, pw*t/2*M->Apwl[0], "dislocation part"); vx_check_eq(Elin, li*t/2*M->Alin[0], "diffusion part");
}
/* plasticity acts on the invariant in which shear along the layering counts delta times */
static void plastic(int dila, int slim) {
  init(1); exx = vx_real("exx", 0.0625, 8); ezz = -exx; Eii = sqrt(inv2(exx, ezz, 0)); MODEL.elastic = vx_int("el", 0, 1); int el = MODEL.elastic; M->cstv[0] = 1; M->plast[0] = 1; M->eta0[0] = 2; G = 2; P = vx_real("P", 0, 4); C = vx_real("C", 0.25, 4);
  bet = 0.5; fric = vx_real("fric", 0.0625, 1); dil = dila ? vx_real("dil", 0.0625, 1) : 0; M->eta_vp[0] = vx_real("evp", 0, 1); P0 = vx_real("P0", -4, 4); if (slim) M->Slim[0] = vx_real("Slim", 0.25, 4);
  double Y = C*cos(fric) + P*sin(fric); vx_assume_lt(0.03125, Y); int cut = slim && M->Slim[0] < Y; if (cut) Y = M->Slim[0];
  double eve = el ? 2.0/3 : 2, Tt = 2*eve*Eii; vx_assume(Tt < Y || Tt > Y + 0.0009765625); int fu = vx_int("final", 0, 1);
  run(1, 1, fu); double s = lx*lz*(Tzz - Txx) + (lx*lx - lz*lz)*Txz, J2 = inv2(Txx, Tzz, Txz) + (del*del - 1)*s*s, Tii = eVE*2*Eii;
  vx_check_eq(J2, Tii*Tii, "invariant of the stress"); vx_check_eq(rho, 3 + T*T/1048576 + 2*(fu ? Pco : P) + X0, "density of the phase at the pressure");
  if (Tt < Y) { vx_check_eq(eVE, eve, "below yield the stress is visco-elastic"); vx_check_eq(Epl, 0, "below yield there is no plastic flow"); vx_check_eq(Pco, P, "below yield the pressure is kept"); return; }
  double g = 2*Epl; vx_check_le(0, g, "plastic flow is forward"); vx_check_eq(Tii, Tt - eve*g, "plastic strain rate relaxes the trial stress"); vx_check_eq(dvp, g*sin(el ? dil : 0), "plastic dilation follows the dilation angle"); vx_check_eq(Ov, M->eta_vp[0]*g, "overstress is viscoplastic viscosity times plastic strain rate");
  vx_check_eq(Tii, Y + (cut ? 0 : (Pco - P)*sin(fric)) + Ov, "stress lies on the yield surface at the corrected pressure"); vx_check_eq(Pco, P + (el ? 0.5/bet : 0)*dvp, "dilation raises the pressure"); if (el) vx_check_eq(dve, -(Pco - P0)*bet/0.5, "elastic volume change follows the corrected pressure");
}
void vx_case_plastic(void) { plastic(0, 0); }
void vx_case_dilatant(void) { plastic(1, 0); }
void vx_case_cutoff(void) { plastic(1, 1); }
