/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "3x3 nodes, two phases, all fields", "math_approx": true, "omp": 24}, "N01_grid2": {"exp_hom": true, "math_approx": false}, "N01_factor": {"exp_hom": true, "math_approx": false}} */
#include "N01_grid.c"
void vx_case_N01_grid0(void) { vx_case_grid0(); }
void vx_case_N01_grid1(void) { vx_case_grid1(); }
void vx_case_N01_grid2(void) { vx_case_grid2(); }
void vx_case_N01_factor(void) { vx_case_factor(); }
void vx_case_N01_isotropic(void) { vx_case_isotropic(); }
void vx_case_N01_director(void) { vx_case_director(); }
void vx_case_N01_unit(void) { vx_case_unit(); }
