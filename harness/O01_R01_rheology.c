/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "one material point, all strain rates, pressures, temperatures and parameters", "omp": 24}, "R01_power1": {"exp_hom": true}, "R01_power2": {"exp_hom": true}, "R01_power3": {"exp_hom": true}, "R01_cold": {"exp_hom": true}, "R01_diffusion": {"exp_hom": true}, "R01_diffusion3": {"exp_hom": true}, "R01_plasticc": {"math_approx": true}, "R01_peierls": {"math_approx": true}, "R01_mix2": {"exp_hom": true}} */
#include "R01_rheology.c"
void vx_case_R01_linear0(void) { vx_case_linear0(); }
void vx_case_R01_linear1(void) { vx_case_linear1(); }
void vx_case_R01_linear3(void) { vx_case_linear3(); }
void vx_case_R01_linear2(void) { vx_case_linear2(); }
void vx_case_R01_power1(void) { vx_case_power1(); }
void vx_case_R01_power2(void) { vx_case_power2(); }
void vx_case_R01_power3(void) { vx_case_power3(); }
void vx_case_R01_cold(void) { vx_case_cold(); }
void vx_case_R01_diffusion(void) { vx_case_diffusion(); }
void vx_case_R01_diffusion3(void) { vx_case_diffusion3(); }
void vx_case_R01_series(void) { vx_case_series(); }
void vx_case_R01_plastic(void) { vx_case_plastic(); }
void vx_case_R01_plastice(void) { vx_case_plastice(); }
void vx_case_R01_plasticd(void) { vx_case_plasticd(); }
void vx_case_R01_plasticc(void) { vx_case_plasticc(); }
void vx_case_R01_slim(void) { vx_case_slim(); }
void vx_case_R01_slimd(void) { vx_case_slimd(); }
void vx_case_R01_peierls(void) { vx_case_peierls(); }
void vx_case_R01_mix0(void) { vx_case_mix0(); }
void vx_case_R01_mix1(void) { vx_case_mix1(); }
void vx_case_R01_mix2(void) { vx_case_mix2(); }
void vx_case_R01_reaction(void) { vx_case_reaction(); }
void vx_case_R01_kinetics(void) { vx_case_kinetics(); }
