/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "one material point, all orientations of the layering, all strain rates, pressures, anisotropy factors and parameters", "omp": 24}, "N01_creep1": {"exp_hom": true}, "N01_creep2": {"exp_hom": true}, "N01_creep3": {"exp_hom": true}, "N01_diffusion": {"exp_hom": true}, "N01_diffusion2": {"exp_hom": true}, "N01_peierls": {"math_approx": true}} */
#include "N01_aniso.c"
void vx_case_N01_viscous(void) { vx_case_viscous(); }
void vx_case_N01_elastic(void) { vx_case_elastic(); }
void vx_case_N01_elasticlim(void) { vx_case_elasticlim(); }
void vx_case_N01_first(void) { vx_case_first(); }
void vx_case_N01_turned(void) { vx_case_turned(); }
void vx_case_N01_creep1(void) { vx_case_creep1(); }
void vx_case_N01_creep2(void) { vx_case_creep2(); }
void vx_case_N01_creep3(void) { vx_case_creep3(); }
void vx_case_N01_diffusion(void) { vx_case_diffusion(); }
void vx_case_N01_diffusion2(void) { vx_case_diffusion2(); }
void vx_case_N01_peierls(void) { vx_case_peierls(); }
void vx_case_N01_series(void) { vx_case_series(); }
void vx_case_N01_plastic(void) { vx_case_plastic(); }
void vx_case_N01_dilatant(void) { vx_case_dilatant(); }
void vx_case_N01_cutoff(void) { vx_case_cutoff(); }
