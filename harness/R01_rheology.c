/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "one material point, all strain rates, pressures, temperatures and parameters"},
 "power1": {"exp_hom": true}, "power2": {"exp_hom": true}, "power3": {"exp_hom": true}, "diffusion3": {"exp_hom": true}, "cold": {"exp_hom": true}, "diffusion": {"exp_hom": true}, "plasticc": {"math_approx": true}, "peierls": {"math_approx": true}, "mix2": {"exp_hom": true}} */
#include "mdx.h"
static mat_prop *M;
static double Txx, Tzz, Txz, eVE, VE, Eel, Epl, Epwl, Eexp, Elin, Egbs, Ecst, d1, X1, Ov, Pco, rho, dve, dvp, dvr, Wt, We, Wd;
static double exx, ezz, exz, Eii, G, T, P, d, phi, X0, bet, dil, fric, C, P0, T0, txx0, tzz0, txz0, dvt, str;
static double run(int pp, int cent) {
  return ViscosityConcise(0, G, T, P, d, phi, X0, exx, ezz, exz, txx0, tzz0, txz0, M, &MODEL, &I_.scaling, &Txx, &Tzz, &Txz, &eVE, &VE, &Eel, &Epl, &Epwl, &Eexp, &Elin, &Egbs, &Ecst, &d1, str, dil, fric, C, P0, T0, &X1, &Ov, &Pco, &rho, bet, dvt, &dve, &dvp, &dvr, &Wt, &We, &Wd, pp, cent, 0, 0);
}
static void init(int comps) {
  mdx_model(3, 3); M = &I_.materials; M->Nb_phases = 2; M->R = 1; M->Slim[0] = 1e30; M->n_vp[0] = 1; M->gs_ref[0] = 1e-3; M->eta0[0] = 1;
  MODEL.dt = 0.5; MODEL.step = 1; MODEL.elastic = 0; MODEL.min_eta = 0; MODEL.max_eta = 1e30; MODEL.eta_tol = 1e-11;
  G = 1; T = 400; P = 1; d = 1; bet = 1; T0 = 400; P0 = 1; M->rho[0] = 3;
  if (comps & 1) exx = vx_real("exx", 0.0625, 4);
  if (comps & 2) ezz = vx_real("ezz", -4, 4);
  if (comps & 4) exz = vx_real("exz", -4, 4);
  Eii = sqrt(0.5*(exx*exx + ezz*ezz + (exx+ezz)*(exx+ezz)) + exz*exz);
}
static double clampd(double a, double lo, double hi) { return a < lo ? lo : (a > hi ? hi : a); }
/* linear viscosity, with or without elasticity */
static void linear(int el, int step, int lim) {
  init(lim && el && step ? 4 : 7); if (lim && el && step) { exz = 1; Eii = 1; } MODEL.elastic = el; MODEL.step = step;
  double e0 = vx_real("eta0", 0.0625, 16); M->cstv[0] = 1; M->eta0[0] = e0;
  G = vx_real("G", 0.0625, 16); MODEL.dt = vx_real("dt", 0.0625, 4); bet = vx_real("bet", 0.0625, 1); P = vx_real("P", -4, 4); P0 = vx_real("P0", -4, 4);
  if (lim) { MODEL.min_eta = vx_real("mn", 0.0625, 1); MODEL.max_eta = vx_real("mx", 2, 16); }
  txx0 = vx_real("txx0", -2, 2); tzz0 = vx_real("tzz0", -2, 2); txz0 = vx_real("txz0", -2, 2);
  double eta = run(1, 1), hel = el && step;
  double h = hel ? e0*G*MODEL.dt/(e0 + G*MODEL.dt) : e0;
  vx_check_eq(eVE, clampd(h, MODEL.min_eta, MODEL.max_eta), "effective viscosity is the series combination of viscous and elastic element, within its limits");
  vx_check_eq(eta, clampd(e0, MODEL.min_eta, MODEL.max_eta), "returned viscosity is the dissipative one, within its limits");
  vx_check_eq(Txx, 2*h*exx, "stress xx"); vx_check_eq(Tzz, 2*h*ezz, "stress zz"); vx_check_eq(Txz, 2*h*exz, "stress xz");
  vx_check_eq(Ecst*2*e0, 2*h*Eii, "viscous strain rate carries the stress");
  if (hel) {
    double a = (Txx-txx0)/(2*G*MODEL.dt), b = (Tzz-tzz0)/(2*G*MODEL.dt), c = (Txz-txz0)/(2*G*MODEL.dt);
    vx_check_eq(Eel*Eel, 0.5*(a*a + b*b + (a+b)*(a+b)) + c*c, "elastic strain rate is the stress change over 2 G dt");
    vx_check_eq(dve, -(P-P0)*bet/MODEL.dt, "elastic volume change follows the pressure change");
  } else vx_check_eq(Eel, 0, "no elastic strain rate without elasticity");
  vx_check_eq(Wd*e0, 4*h*h*Eii*Eii, "dissipation is stress times viscous strain rate");
  vx_check_eq(Epl, 0, "no plastic strain rate"); vx_check_eq(dvp, 0, "no plastic dilation"); vx_check_eq(Pco, P, "pressure is not corrected"); vx_check_eq(Ov, 0, "no overstress");
   vx_check_eq(X1, X0, "composition is kept");
}
void vx_case_linear0(void) { linear(0, 1, 1); }
void vx_case_linear1(void) { linear(1, 1, 0); }
void vx_case_linear3(void) { linear(1, 1, 1); }
void vx_case_linear2(void) { linear(1, 0, 1); }
/* power law creep: the resulting stress drives exactly the given strain rate */
static void power(int n) {
  init(0); exz = 0.5; Eii = 0.5; M->pwlv[0] = 1; M->npwl[0] = n;
  double A = vx_real("A", 0.0625, 16), Q = vx_real("Q", 0, 4), V = vx_real("V", 0, 4), F = vx_real("F", 0.25, 4), pre = vx_real("pre", 0.25, 4), f = vx_real("f", 0.25, 4);
  exz = vx_real("exz", 0.0625, 8); Eii = exz; int m = vx_int("m", 0, 3), r = vx_int("r", 0, 2); double a = vx_real("a", 0, 4);
  M->Apwl[0] = A; M->Qpwl[0] = Q; M->Vpwl[0] = V; M->Fpwl[0] = F; M->pref_pwl[0] = pre; M->fpwl[0] = f; M->mpwl[0] = m; M->rpwl[0] = r; M->apwl[0] = a;
  T = vx_real("T", 300, 2000); P = vx_real("P", 0, 8); d = vx_real("d", 0.25, 4); phi = vx_real("phi", 0, 1); M->R = vx_real("R", 1, 9);
  run(1, 1);
  double t = Txz/(2*F*pre), q = A*pow(f, r)/pow(d, m), Tn = 1; for (int k = 0; k < n; k++) Tn *= t*exp(a*phi/n)*exp(-(Q + P*V)/M->R/n/T);
  vx_check_eq(q*Tn, Eii, "stress and strain rate obey the power law"); vx_check_eq(Epwl, Eii, "all strain rate is dislocation creep"); vx_check_eq(Wd, 2*Txz*exz, "dissipation is stress times strain rate");
}
void vx_case_power1(void) { power(1); }
void vx_case_power2(void) { power(2); }
void vx_case_power3(void) { power(3); }
void vx_case_cold(void) {
  init(0); exz = vx_real("exz", 0.0625, 8); M->pwlv[0] = 1; M->npwl[0] = 1; M->Apwl[0] = M->Fpwl[0] = M->pref_pwl[0] = M->fpwl[0] = 1; M->Qpwl[0] = vx_real("Q", 100, 400); I_.scaling.T = 2;
  T = vx_real("T", 1, 300); double Tc = T < 273.15/2 ? 273.15/2 : T;
  run(0, 0); vx_check_eq(Txz, 2*exz*exp(M->Qpwl[0]/Tc), "temperature does not act below the zero of the Celsius scale");
}
static void diffusion(int m) {
  init(0); M->linv[0] = 1; M->nlin[0] = 1;
  double A = vx_real("A", 0.0625, 16), Q = vx_real("Q", 0, 4), V = vx_real("V", 0, 4), F = vx_real("F", 0.25, 4), f = vx_real("f", 0.25, 4);
  exz = vx_real("exz", 0.0625, 8); Eii = exz; int r = vx_int("r", 0, 2); double a = vx_real("a", 0, 4);
  M->Alin[0] = A; M->Qlin[0] = Q; M->Vlin[0] = V; M->Flin[0] = F; M->flin[0] = f; M->mlin[0] = m; M->rlin[0] = r; M->alin[0] = a;
  T = vx_real("T", 300, 2000); P = vx_real("P", 0, 8); d = vx_real("d", 0.25, 4); M->gs_ref[0] = d; phi = vx_real("phi", 0, 1); M->R = vx_real("R", 1, 9);
  run(1, 1);
  vx_check_eq(A*pow(f, r)*exp(a*phi)*exp(-(Q + P*V)/M->R/T)*(Txz/(2*F)), Eii*pow(d, m), "stress and strain rate obey the diffusion creep law");
  vx_check_eq(Elin, Eii, "all strain rate is diffusion creep"); vx_check_eq(Wd, 2*Txz*exz, "dissipation is stress times strain rate"); vx_check_eq(d1, d, "grain size is the reference one");
}
void vx_case_diffusion(void)  { diffusion(0); }
void vx_case_diffusion3(void) { diffusion(3); }
/* two creep mechanisms and elasticity in series: with linear laws one correction suffices */
void vx_case_series(void) {
  init(0); exz = vx_real("exz", 0.0625, 8); Eii = exz; int el = vx_int("el", 0, 1), cs = vx_int("cs", 0, 1), pw = vx_int("pw", 0, 1), li = vx_int("li", 0, 1), gb = vx_int("gb", 0, 1);
  vx_assume(cs + pw + li + gb > 0);
  MODEL.elastic = el; M->cstv[0] = cs; M->pwlv[0] = pw; M->linv[0] = li; M->gbsv[0] = gb; M->npwl[0] = M->nlin[0] = M->ngbs[0] = 1; M->Agbs[0] = vx_real("Ag", 0.25, 4); M->Fgbs[0] = M->fgbs[0] = 1;
  M->Apwl[0] = vx_real("Ap", 0.25, 4); M->Alin[0] = vx_real("Al", 0.25, 4); M->eta0[0] = vx_real("eta0", 0.25, 4); M->Fpwl[0] = M->Flin[0] = M->pref_pwl[0] = M->fpwl[0] = M->flin[0] = 1; G = vx_real("G", 0.25, 4);
  run(1, 1);
  double inv = cs/M->eta0[0] + pw*M->Apwl[0] + li*M->Alin[0] + gb*M->Agbs[0];
  vx_check_eq(eVE*(inv + el/(G*0.5)), 1, "mechanisms act in series");
  vx_check_eq(Wd, Txz*Txz*inv, "dissipation collects the viscous mechanisms only");
  vx_check_eq(Ecst, cs*Txz/2/M->eta0[0], "constant-viscosity part"); vx_check_eq(Epwl, pw*Txz/2*M->Apwl[0], "dislocation part"); vx_check_eq(Egbs, gb*Txz/2*M->Agbs[0], "grain boundary sliding part"); vx_check_eq(Elin, li*Txz/2*M->Alin[0], "diffusion part");
}
/* Drucker-Prager with linear overstress on a visco-elastic trial state */
static void plastic(int dila, int slim, int el) {
  init(0); exz = vx_real("exz", 0.0625, 8); Eii = exz; MODEL.elastic = el; M->cstv[0] = 1; M->plast[0] = 1; M->eta0[0] = 2; G = 2;
    P = vx_real("P", 0, 4); C = vx_real("C", 0.25, 4);
  if (dila < 2) { bet = vx_real("bet", 0.25, 4); fric = vx_real("fric", 0.0625, 1); dil = dila ? vx_real("dil", 0.0625, 1) : 0; M->eta_vp[0] = vx_real("evp", 0, 1); }
  else { bet = 0.5; fric = 0.5; dil = 0.25; M->eta_vp[0] = 0.25; }
  P0 = vx_real("P0", -4, 4);
  if (slim) M->Slim[0] = vx_real("Slim", 0.25, 4);
  MODEL.eta_tol = 1e-9; I_.scaling.S = 1e5*64; /* minimum stress 1/64 */
  double Y = C*cos(fric) + P*sin(fric); vx_assume_lt(0.03125, Y); int cut = slim && M->Slim[0] < Y; if (cut) Y = M->Slim[0];
  double eve = el ? M->eta0[0]*G*0.5/(M->eta0[0] + G*0.5) : M->eta0[0], Tt = 2*eve*exz;
  vx_assume(Tt < Y || Tt > Y + 0.0009765625);
  run(1, 1);
  if (Tt < Y) { vx_check_eq(Txz, Tt, "below yield the stress is visco-elastic"); vx_check_eq(Epl, 0, "below yield there is no plastic flow"); vx_check_eq(Pco, P, "below yield the pressure is kept"); return; }
  double g = 2*Epl;
  vx_check_le(0, g, "plastic flow is forward"); vx_check_eq(Txz, Tt - eve*g, "plastic strain rate relaxes the trial stress");
  vx_check_eq(dvp, g*sin(el ? dil : 0), "plastic dilation follows the dilation angle"); vx_check_eq(Ov, M->eta_vp[0]*g, "overstress is viscoplastic viscosity times plastic strain rate");
  vx_check_eq(Txz, Y + (cut ? 0 : (Pco - P)*sin(fric)) + Ov, "stress lies on the yield surface at the corrected pressure");
  vx_check_eq(Pco, P + (el ? 0.5/bet : 0)*dvp, "dilation raises the pressure"); if (el) vx_check_eq(dve, -(Pco - P0)*bet/0.5, "elastic volume change follows the corrected pressure");
  vx_check_eq(Wd, Txz*Txz/M->eta0[0] + Txz*g, "dissipation is viscous plus plastic");
}
void vx_case_plastic(void)  { plastic(0, 0, 0); }
void vx_case_plastice(void) { plastic(0, 0, 1); }
void vx_case_plasticd(void) { plastic(1, 0, 1); }
void vx_case_plasticc(void) { plastic(2, 0, 1); }
void vx_case_slim(void)     { plastic(0, 1, 1); }
void vx_case_slimd(void)    { plastic(1, 1, 1); }
/* Peierls creep in the exponential-product form, stress exponent ST + n = 3 (or off when hot) */
void vx_case_peierls(void) {
  init(0); int hot = vx_int("hot", 0, 1); I_.scaling.T = 2; exz = vx_real("exz", 0.0625, 8); Eii = exz;
  M->expv[0] = 1; M->cstv[0] = hot; M->eta0[0] = 2; M->nexp[0] = 1; M->Gexp[0] = 0.5; M->Sexp[0] = vx_real("S", 1, 8); M->Eexp[0] = vx_real("E", 0.25, 4); M->R = 0.25; T = hot ? 740 : 700; M->Qexp[0] = 4*T/4;
  run(1, 1);
  if (hot) { vx_check_eq(Txz, 4*exz, "low-temperature plasticity is off above 1200 C"); vx_check_eq(Eexp, 0, "no such strain rate above 1200 C"); return; }
  double t = Txz/2; /* plane to uniaxial conversion: F^3 = 2^-2/3^2 */
  double F3 = 0.25/9; double Arr = exp(-1.0);
  vx_check_eq(t*t*t*M->Eexp[0]*Arr, F3*0.25*M->Sexp[0]*M->Sexp[0]*Eii, "stress and strain rate obey the exponential creep law"); vx_check_eq(Eexp, Eii, "all strain rate is exponential creep");
}
/* composition-weighted mixture of two constant viscosities */
static void mix(int avg) {
  init(0); exz = 1; M->cstv[0] = 1; M->phase_mix[0] = 1; M->phase_two[0] = 1; MODEL.diffuse_X = vx_int("on", 0, 1); MODEL.diffuse_avg = avg;
  double a = M->eta0[0] = vx_real("a", 0.25, 4), b = M->eta0[1] = vx_real("b", 0.25, 4); X0 = vx_real("X", 0, 1);
  run(0, 0);
  if (!MODEL.diffuse_X) vx_check_eq(eVE, a, "no mixing without composition");
  else if (avg == 0) vx_check_eq(eVE, X0*a + (1-X0)*b, "arithmetic mixture");
  else if (avg == 1) vx_check_eq(1/eVE, X0/a + (1-X0)/b, "harmonic mixture");
  else vx_check_eq(eVE, exp(X0*log(a) + (1-X0)*log(b)), "geometric mixture");
}
void vx_case_mix0(void) { mix(0); }
void vx_case_mix1(void) { mix(1); }
void vx_case_mix2(void) { mix(2); }
/* reaction progress relaxes to its pressure-dependent equilibrium */
static mat_prop *Mh; static double hX; static int hn;
void HuetAveragingModel(double *B, double *Cc, double *n, int ph, double R, double Tt, int t, double X, double pre, mat_prop *m) { hX = X; hn++; }
void vx_case_reaction(void) {
  init(0); exz = 1; M->cstv[0] = 1; M->reac_soft[0] = vx_int("soft", 0, 1); MODEL.chemical_production = vx_int("prod", 0, 1); MODEL.elastic = vx_int("el", 0, 1);
  MODEL.dt = vx_real("dt", 0.0625, 4); M->tau_kin[0] = vx_real("tau", 0.0625, 4); M->Pr[0] = vx_real("Pr", -4, 4); M->dPr[0] = vx_real("dPr", 0.0625, 2); P = vx_real("P", -8, 8); X0 = vx_real("X", 0, 1);
  run(1, 1);
  if (!(M->reac_soft[0] && MODEL.chemical_production)) { vx_check_eq(X1, X0, "composition is kept without reaction"); vx_check_eqi(hn, 0, "no mixture law without reaction"); return; }
  double eq = 1 - 0.5*erfc((P - M->Pr[0])/M->dPr[0]);
  vx_check_eq((X1 - X0)*M->tau_kin[0], (eq - X1)*MODEL.dt, "reaction progress relaxes to its equilibrium over the kinetic time");
  vx_check_le(0, X1, "reaction progress is not negative"); vx_check_le(X1, 1, "reaction progress is at most one"); vx_check_eqi(hn, 1, "mixture law used once"); vx_check_eq(hX, X1, "mixture law sees the new composition");
}
/* density relaxation */
static double rq[2]; static int nq;
double EvaluateDensity(int p, double Tt, double Pp, double X, double ph, params *m, mat_prop *mm) {
  if (vx_symbolic() || 1) { nq++; return 3 + Tt*Tt/1048576 + 2*Pp + X + ph/4; } }
void vx_case_kinetics(void) {
  init(0); exz = 1; M->cstv[0] = 1; M->kin[0] = vx_int("kin", 0, 1); MODEL.density_variations = vx_int("var", 0, 1); M->tau_kin[0] = vx_real("tau", 0, 4); MODEL.dt = vx_real("dt", 0.0625, 4);
  T = vx_real("T", 300, 500); T0 = vx_real("T0", 300, 500); P = vx_real("P", 0, 4); P0 = vx_real("P0", 0, 4); X0 = vx_real("X", 0, 1); phi = vx_real("phi", 0, 1); int cent = vx_int("cent", 0, 1);
  run(1, cent);
  double now = 3 + T*T/1048576 + 2*P + X0 + phi/4, old = 3 + T0*T0/1048576 + 2*P0 + X0 + phi/4;
  if (!cent) { vx_check_eq(rho, 0, "vertices carry no density"); vx_check_eqi(nq, 0, "no density evaluation at vertices"); return; }
  if (MODEL.density_variations || !M->kin[0]) vx_check_eq(rho, now, "density is the current one");
  else vx_check_eq((rho - old)*M->tau_kin[0], (now - rho)*MODEL.dt, "density relaxes to its equilibrium over the kinetic time");
}
