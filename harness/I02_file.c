/*VX {"default": {"budget": 400, "max_paths": 2000, "weight": 30, "bounds": "complete setup files: all model parameters with 1 phase / all material parameters of 2 phases in either order; every real value and the four scales arbitrary"}} */
#include "mdx.h"
#include "include/mdoodz.h"
static char txt[40000];
static void put(const char *k, double v) { char b[64]; vx_num(b, v); sprintf(txt + strlen(txt), "%s = %s\n", k, b); }
static void puti(const char *k, int v) { sprintf(txt + strlen(txt), "%s = %d / c\n", k, v); }
#define Ga_ (1e9*365.25*3600*24)
/* integer switches: field, key, value in the file, default */
#define INTS(X) \
 X(model.istep,"istep",7,0) X(model.irestart,"irestart",1,0) X(model.writer,"writer",3,0) X(model.writer_step,"writer_step",5,1) X(model.writer_markers,"writer_markers",2,0) X(model.writer_debug,"writer_debug",4,0) X(model.noisy,"noisy",6,1) \
 X(model.track_T_P_x_z,"track_T_P_x_z",1,0) X(model.delete_breakpoints,"delete_breakpoints",-1,1) X(model.gnuplot_log_res,"gnuplot_log_res",2,0) X(model.save_initial_markers,"save_initial_markers",1,0) X(model.load_initial_markers,"load_initial_markers",2,0) \
 X(model.Nx,"Nx",5,10) X(model.Nz,"Nz",9,10) X(model.balance_boundaries,"balance_boundaries",1,0) X(model.zero_mean_topo,"zero_mean_topo",2,0) X(model.Nt,"Nt",12,1) X(model.RK,"RK",2,4) X(model.constant_dt,"constant_dt",1,0) X(model.stress_rotation,"stress_rotation",2,1) \
 X(model.mechanical,"mechanical",0,1) X(model.advection,"advection",0,1) X(model.elastic,"elastic",1,0) X(model.thermal,"thermal",1,0) X(model.anisotropy,"anisotropy",0,0) X(model.polar,"polar",1,0) X(model.finite_strain,"finite_strain",1,0) X(model.compressible,"compressible",1,0) X(model.density_variations,"density_variations",1,0) X(model.out_of_plane,"out_of_plane",1,0) X(model.melting,"melting",1,0) \
 X(model.diag_scaling,"diag_scaling",0,1) X(model.preconditioner,"preconditioner",-1,0) X(model.lin_solver,"lin_solver",1,2) X(model.max_its_PH,"max_its_PH",4,10) X(Nmodel.nit_max,"nit_max",8,1) X(model.Newton,"Newton",0,0) X(Nmodel.max_its_Pic,"max_its_Pic",3,10) X(Nmodel.let_res_grow,"let_res_grow",1,0) X(model.max_its_KSP,"max_its_KSP",55,100) X(model.safe_mode,"safe_mode",1,0) X(model.max_num_stag,"max_num_stag",9,3) X(model.line_search,"line_search",1,0) X(model.residual_form,"residual_form",0,1) \
 X(model.ani_average,"ani_average",2,1) X(model.eta_average,"eta_average",1,0) X(model.interp_stencil,"interp_stencil",9,1) X(model.subgrid_diffusion,"subgrid_diffusion",2,0) X(model.conserv_interp,"conserv_interp",1,0) X(model.direct_neighbour,"direct_neighbour",1,0) X(model.initial_noise,"initial_noise",1,0) X(model.marker_noise,"marker_noise",1,0) X(model.reseed_markers,"reseed_markers",0,1) X(model.reseed_mode,"reseed_mode",1,0) X(particles.Nx_part,"Nx_part",3,4) X(particles.Nz_part,"Nz_part",2,4) X(particles.min_part_cell,"min_part_cell",6,16) \
 X(model.shear_style,"shear_style",1,0) X(model.pure_shear_ALE,"pure_shear_ALE",-1,0) X(model.free_surface,"free_surface",1,0) X(model.topo_update,"topo_update",0,1) X(model.initial_cooling,"initial_cooling",1,0) X(model.shear_heating,"shear_heating",0,1) X(model.adiab_heating,"adiab_heating",2,0) X(model.surface_processes,"surface_processes",3,0) X(model.marker_aniso_angle,"marker_aniso_angle",1,0) X(model.layering,"layering",1,0) X(model.chemical_diffusion,"chemical_diffusion",1,0) X(model.chemical_production,"chemical_production",2,0) X(model.smooth_softening,"smooth_softening",0,1) X(model.fix_temperature,"fix_temperature",1,0) X(model.surf_ised1,"surf_ised1",2,0) X(model.surf_ised2,"surf_ised2",3,0) X(model.preload,"preload",1,0) X(model.therm_perturb,"therm_perturb",1,0) X(model.force_act_vol_ast,"force_act_vol_ast",1,0) X(model.force_melt_weak,"force_melt_weak",1,0) X(model.diffuse_X,"diffuse_X",1,0) X(model.diffuse_avg,"diffuse_avg",2,0) X(model.deformation_maps,"deformation_maps",1,0) X(model.nT,"nT",3,11) X(model.nE,"nE",4,11) X(model.nd,"nd",5,11)
/* real parameters: field, key, unit, default */
#define REALS(X) \
 X(model.xmin,"xmin",s.L,-1) X(model.xmax,"xmax",s.L,1) X(model.zmin,"zmin",s.L,-1) X(model.zmax,"zmax",s.L,1) X(model.dt,"dt",s.t,0) X(model.Courant,"Courant",1,0.5) X(model.dt_max,"dt_max",s.t,1e20) X(model.dt_min,"dt_min",s.t,-1e20) X(model.dt_reduction_factor,"dt_reduction_factor",1,1) \
 X(model.penalty,"penalty",1,1e3) X(model.auto_penalty,"auto_penalty",1,0) X(model.lin_abs_div,"lin_abs_div",1,1e-9) X(model.lin_rel_div,"lin_rel_div",1,1e-5) X(model.lin_abs_mom,"lin_abs_mom",1,1e-9) X(model.lin_rel_mom,"lin_rel_mom",1,1e-5) X(Nmodel.Picard2Newton_tol,"Picard2Newton_tol",1,1e-1) X(model.rel_tol_KSP,"rel_tol_KSP",1,1e-4) X(Nmodel.nonlin_abs_mom,"nonlin_abs_mom",1,1e-6) X(Nmodel.nonlin_abs_div,"nonlin_abs_div",1,1e-6) X(Nmodel.nonlin_rel_mom,"nonlin_rel_mom",1,1e-6) X(Nmodel.nonlin_rel_div,"nonlin_rel_div",1,1e-6) X(model.min_eta,"min_eta",s.eta,1e18) X(model.max_eta,"max_eta",s.eta,1e24) X(model.safe_dt_div,"safe_dt_div",1,5) X(model.line_search_min,"line_search_min",1,0) \
 X(model.free_surface_stab,"free_surface_stab",1,0) X(model.cooling_duration,"cooling_duration",s.t,Ga_) X(model.bkg_strain_rate,"bkg_strain_rate",(1/s.t),1e-30) X(model.bkg_div_rate,"bkg_div_rate",(1/s.t),0) X(model.bkg_pressure,"bkg_pressure",S_,0) X(model.bkg_temperature,"bkg_temperature",s.T,0) X(model.surf_diff,"surf_diff",(s.L*s.L/s.t),0) X(model.surf_sedirate,"surf_sedirate",s.V,0) X(model.surf_baselev,"surf_baselev",s.L,0) X(model.surf_Winc,"surf_Winc",s.L,0) X(model.surf_Vinc,"surf_Vinc",s.V,0) X(model.preload_sxxd,"preload_sxxd",S_,0) X(model.preload_szzd,"preload_szzd",S_,0) X(model.preload_sxz,"preload_sxz",S_,0) \
 X(model.therm_perturb_x0,"therm_perturb_x0",s.L,0) X(model.therm_perturb_z0,"therm_perturb_z0",s.L,0) X(model.therm_perturb_rad_x,"therm_perturb_rad_x",s.L,0) X(model.therm_perturb_rad_z,"therm_perturb_rad_z",s.L,0) X(model.therm_perturb_dT,"therm_perturb_dT",s.T,0) X(model.act_vol_dis_ast,"act_vol_dis_ast",1,0) X(model.act_vol_dif_ast,"act_vol_dif_ast",1,0) X(model.melt_weak,"melt_weak",1,0) X(model.user0,"user0",1,0) X(model.user1,"user1",1,0) X(model.user2,"user2",1,0) X(model.user3,"user3",1,0) X(model.user4,"user4",1,0) X(model.user5,"user5",1,0) X(model.user6,"user6",1,0) X(model.user7,"user7",1,0) X(model.user8,"user8",1,0) X(model.user9,"user9",1,0) \
 X(model.diffusion_length,"diffusion_length",s.L,0) X(model.gx,"gx",(s.V/s.t),0) X(model.gz,"gz",(s.V/s.t),0) X(model.Emin,"Emin",1,-30) X(model.Emax,"Emax",1,-4) X(model.dmin,"dmin",1,-7) X(model.dmax,"dmax",1,-2) X(model.Pn,"Pn",S_,5e8)
/* material parameters: field, key, unit, default */
#define MATS(X) \
 X(rho,"rho",(S_*s.t*s.t/(s.L*s.L)),2700) X(G,"G",S_,1e10) X(Cp,"Cp",(s.L*s.L/(s.t*s.t*s.T)),1e3) X(k,"k",(S_*s.L*s.L/(s.t*s.T)),1e-6) X(k_eff,"k",(S_*s.L*s.L/(s.t*s.T)),1e-6) X(Qr,"Qr",(S_/s.t),1e-30) X(alp,"alp",(1/s.T),0) X(bet,"bet",(1/S_),1e-40) X(drho,"drho",(S_*s.t*s.t/(s.L*s.L)),0) \
 X(sig_tens,"sig_tens",S_,1e7) X(sig1,"sig1",S_,1e7) X(dsig1,"dsig1",S_,1e7) X(C,"C",S_,1e7) X(phi,"phi",(180.0/M_PI),30) X(psi,"psi",(180.0/M_PI),0) X(Slim,"Slim",S_,1e90) X(eta_vp,"eta_vp",(S_*s.t),0) \
 X(C_end,"Ce",S_,1e7) X(phi_end,"phie",(180.0/M_PI),30) X(psi_end,"psie",(180.0/M_PI),0) X(pls_start,"plss",1,1) X(pls_end,"plse",1,2) X(eps0,"eps0",(1/s.t),1e-14) X(tau0,"tau0",S_,2e6) X(eta0,"eta0",s.eta,1e20) X(npwl,"npwl",1,1) X(pref_pwl,"pref_pwl",1,1) X(gs_ref,"gs_ref",s.L,2e-3) \
 X(Pr,"Pr",S_,0) X(dPr,"dPr",S_,0) X(tau_kin,"tau_kin",s.t,0) X(k_chem,"k_chem",(s.L*s.L/s.t),0) X(aniso_angle,"aniso_angle",(180.0/M_PI),90) X(aniso_factor,"aniso_factor",1,1) X(ani_fac_max,"ani_fac_max",1,1000) X(axx,"axx",1,1) X(azz,"azz",1,1) X(ayy,"ayy",1,1) X(transmutation_temperature,"transmutation_temperature",s.T,1300)
#define MATI(X) \
 X(melt,"melt",11,0) X(plast,"plast",0,1) X(yield,"yield",2,1) X(coh_soft,"coh_soft",2,0) X(phi_soft,"phi_soft",3,0) X(psi_soft,"psi_soft",2,0) X(reac_soft,"reac_soft",2,0) X(reac_phase,"reac_phase",1,0) X(density_model,"density_model",1,3) X(phase_diagram,"phase_diagram",-2,-1) X(phase_mix,"phase_mix",3,0) X(phase_two,"phase_two",5,-99) X(ani_fstrain,"ani_fstrain",2,0) X(transmutation,"transmutation",-1,0) X(transmutation_phase,"transmutation_phase",4,1)
static scale s; static double S_;
static void scales(void) {
  s.eta = vx_real("s_eta", 0.125, 8); s.L = vx_real("s_L", 0.125, 8); s.V = vx_real("s_V", 0.125, 8); s.T = vx_real("s_T", 0.125, 8); s.t = s.L/s.V; S_ = s.eta/s.t;
  txt[0] = 0; put("eta", s.eta); put("L", s.L); put("V", s.V); put("T", s.T);
}
static double num(const char *k, int ph) { char b[64]; sprintf(b, "%s_%d", k, ph); double d = vx_real(b, 0.0625, 16); return d; }
static Input in;
static void readit(void) { vx_flag("exit_is_violation", 1); vx_flag("div0_is_violation", 1); vx_file("s.txt", txt); in = ReadInputFile("s.txt"); }
/* all model parameters given */
static double rv[200];
void vx_case_model(void) {
  scales(); int n = 0;
#define X(f,k,v,d) puti(k, v);
  INTS(X)
#undef X
#define X(f,k,u,d) rv[n] = num(k, 0); put(k, rv[n]); n++;
  REALS(X)
#undef X
  double Tmin = num("Tmin", 0), Tmax = num("Tmax", 0); put("Tmin", Tmin); put("Tmax", Tmax);
  strcat(txt, "writer_subfolder = out/put\nimport_file = geo.bin\nimport_files_dir = imp/dir\ninitial_markers_file = m.bin\nNb_phases = 1\n\nID = 0\ncstv = 1\n"); readit(); n = 0;
#define X(f,k,v,d) vx_check_eqi(in.f, v, "setup file switch " k);
  INTS(X)
#undef X
#define X(f,k,u,d) vx_check_eq(in.f*(u), rv[n], "setup file parameter " k); n++;
  REALS(X)
#undef X
  vx_check_eq(in.model.Tmin*s.T, Tmin + 273.15, "Tmin in Kelvin"); vx_check_eq(in.model.Tmax*s.T, Tmax + 273.15, "Tmax in Kelvin");
  vx_check(!strcmp(in.model.writer_subfolder, "out/put") && !strcmp(in.model.import_files_dir, "imp/dir") && !strcmp(in.model.import_file, "geo.bin") && !strcmp(in.model.initial_markers_file, "m.bin"), "text parameters");
  vx_check_eq(in.model.dx*4, in.model.xmax - in.model.xmin, "horizontal spacing"); vx_check_eq(in.model.dz*8, in.model.zmax - in.model.zmin, "vertical spacing");
  vx_check_eq(in.model.dt0, in.model.dt, "previous step starts as the step"); vx_check_eq(in.model.dt_start, in.model.dt, "starting step is the step");
  vx_check_eq(in.model.xmin0, in.model.xmin, "initial box"); vx_check_eq(in.model.xmax0, in.model.xmax, "initial box"); vx_check_eq(in.model.zmin0, in.model.zmin, "initial box"); vx_check_eq(in.model.zmax0, in.model.zmax, "initial box");
  vx_check_eqi(in.particles.Nb_part, 4*8*3*2, "number of markers"); vx_check(in.particles.Nb_part_max >= in.particles.Nb_part, "room for all markers");
  vx_check_eqi(in.model.periodic_x, 1, "simple shear is periodic"); vx_check_eqi(in.model.Nb_phases, 1, "phases"); vx_check_eqi(in.materials.Nb_phases, 1, "phases");
#define U(f,v) vx_check_eq(in.scaling.f, v, "unit " #f);
  U(eta, s.eta) U(L, s.L) U(V, s.V) U(T, s.T) U(t, s.t) U(a, s.L/(s.t*s.t)) U(E, 1/s.t) U(S, S_) U(m, S_*s.L*s.t*s.t) U(rho, S_*s.t*s.t/(s.L*s.L)) U(F, S_*s.L*s.L) U(J, S_*s.L*s.L*s.L) U(W, S_*s.L*s.L*s.L/s.t) U(Cp, s.L*s.L/(s.t*s.t*s.T)) U(rhoE, S_) U(k, S_*s.L*s.L/(s.t*s.T))
  vx_check_eq(in.materials.R*S_*s.L*s.L*s.L/s.T, 8.314510, "gas constant");
}
/* nothing given: defaults */
void vx_case_defaults(void) {
  scales(); strcat(txt, "Nb_phases = 1\nID = 0\ncstv = 1\n"); readit();
#define X(f,k,v,d) vx_check_eqi(in.f, d, "default of switch " k);
  INTS(X)
#undef X
#define X(f,k,u,d) vx_check_eq(in.f*(u), d, "default of parameter " k);
  REALS(X)
#undef X
#define X(f,k,u,d) vx_check_eq(in.materials.f[0]*(u), d, "default of material parameter " k);
  MATS(X)
#undef X
#define X(f,k,v,d) vx_check_eqi(in.materials.f[0], d == -99 ? 0 : d, "default of material switch " k);
  MATI(X)
#undef X
  vx_check_eqi(in.model.periodic_x, 0, "pure shear is not periodic"); vx_check(!strcmp(in.model.writer_subfolder, "./"), "default folder");
}
/* all material parameters of two phases, blocks in either order */
static double mv[2][60];
static void mats(int swap) {
  scales(); strcat(txt, "compressible = 1\nNb_phases = 2\n");
  for (int q = 0; q < 2; q++) {
    int p = swap ? 1 - q : q, n = 0; puti("ID", p); puti("cstv", 1 + p); puti("gsel", 0);
#define X(f,k,u,d) { if (strcmp(#f, "k_eff")) { mv[p][n] = num(k, p) + (strcmp(k, "Slim") ? 0 : 16); put(k, mv[p][n]); } else mv[p][n] = mv[p][n-1]; n++; }
    MATS(X)
#undef X
#define X(f,k,v,d) puti(k, v == 1 || v == 11 ? v - p : v + p);
    MATI(X)
#undef X
  }
  readit();
  for (int p = 0; p < 2; p++) {
    int n = 0; vx_check_eqi(in.materials.cstv[p], 1 + p, "flow law switch");
#define X(f,k,u,d) vx_check_eq(in.materials.f[p]*(u), mv[p][n], "material parameter " k); n++;
    MATS(X)
#undef X
#define X(f,k,v,d) vx_check_eqi(in.materials.f[p], v == 1 || v == 11 ? v - p : v + p, "material switch " k);
    MATI(X)
#undef X
    vx_check_eq(in.materials.T0[p]*s.T, 273.15, "reference temperature"); vx_check_eq(in.materials.P0[p]*S_, 1e5, "reference pressure");
  }
}
void vx_case_mats(void)  { mats(0); }
void vx_case_mats2(void) { mats(1); }
/* contradictory or incomplete files are refused */
void vx_case_refuse(void) {
  int bad = vx_int("bad", 0, 9); txt[0] = 0; double C = vx_real("C", 1, 2), Sl = vx_real("Sl", 1, 3);
  if (bad != 1) vx_assume_le(C, Sl); else vx_assume_lt(Sl, C);
  puti("interp_stencil", bad == 2 ? 4 : 9); puti("compressible", bad == 3 || bad == 4 ? 0 : 1); puti("Nb_phases", 1); puti("ID", 0); puti("cstv", bad == 5 ? 0 : 1);
  put("C", C); put("Slim", Sl); put("psi", bad == 4 ? 0 : 5); puti("psi_soft", bad == 4 ? 2 : 0); put("n_vp", bad == 6 ? 2 : 1);
  if (bad == 7) { puti("reac_soft", 1); puti("reac_phase", 1); } if (bad == 8) { puti("coh_soft", 1); put("Ce", C); }
  vx_file("s.txt", txt); in = ReadInputFile(bad == 9 ? "other.txt" : "s.txt");
  vx_check_eqi(bad, 0, "a contradictory setup file is refused");
}
/* switches that imply others */
void vx_case_implied(void) {
  int an = vx_int("an", 0, 1), nt = vx_int("nt", 0, 1), ls = vx_int("ls", 0, 2), ss = vx_int("ss", 0, 2), p2n = vx_int("p2n", 0, 1), st = vx_int("st", 0, 1), re = vx_int("re", 0, 1); vx_assume(st == 0 || (an + nt == 0)); txt[0] = 0;
  puti("anisotropy", an); puti("Newton", nt); puti("lin_solver", ls); puti("shear_style", ss); puti("Picard2Newton", p2n); puti("periodic_x", 1); puti("istep", st); puti("irestart", re); puti("Nb_phases", 1); puti("ID", 0); puti("cstv", 1);
  vx_flag("exit_is_violation", 1); vx_file("s.txt", txt); in = ReadInputFile("s.txt");
  vx_check_eqi(in.model.finite_strain, an, "anisotropy tracks finite strain"); vx_check_eqi(in.model.line_search, nt, "Newton uses line search");
  vx_check_eqi(in.model.lin_solver, ls == 0 || an || nt ? 2 : ls, "solver type"); vx_check_eqi(in.model.periodic_x, ss != 0, "periodicity follows the shear style"); vx_check_eqi(in.Nmodel.Picard2Newton, nt && p2n, "no switch to Newton in Picard mode");
  vx_check_eqi(in.model.irestart, st == 0 ? 0 : re, "a run from step 0 is not a restart");
}
/* strength parameters at the end of softening default to those at its start */
void vx_case_soft(void) {
  scales(); double C = num("C", 0), ph = num("phi", 0), ps = num("psi", 0); strcat(txt, "compressible = 1\nNb_phases = 2\nID = 0\ncstv = 1\n"); put("C", C); put("phi", ph); put("psi", ps); put("Slim", 64); strcat(txt, "ID = 1\ncstv = 1\nCe = 3e7\nphie = 5\n"); readit();
  vx_check_eq(in.materials.C_end[0]*S_, C, "cohesion after softening defaults to the cohesion"); vx_check_eq(in.materials.phi_end[0]*(180.0/M_PI), ph, "friction after softening defaults to the friction"); vx_check_eq(in.materials.psi_end[0]*(180.0/M_PI), ps, "dilation after softening defaults to the dilation");
  vx_check_eq(in.materials.C_end[1]*S_, 3e7, "cohesion after softening of the other phase"); vx_check_eq(in.materials.phi_end[1]*(180.0/M_PI), 5, "friction after softening of the other phase"); vx_check_eq(in.materials.C[1]*S_, 1e7, "cohesion of the other phase");
}
