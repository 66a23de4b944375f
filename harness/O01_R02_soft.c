/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "2x2 cells, two phases, one softening; all strains, parameters and fractions", "omp": 24}, "R02_linear": {"tier": "thorough"}} */
#include "R02_soft.c"
void vx_case_R02_linear(void) { vx_case_linear(); }
void vx_case_R02_smooth(void) { vx_case_smooth(); }
