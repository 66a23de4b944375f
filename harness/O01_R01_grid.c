/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "3x3 nodes, two phases, all fields", "exp_hom": true, "omp": 24}} */
#include "R01_grid.c"
void vx_case_R01_grid0(void) { vx_case_grid0(); }
void vx_case_R01_grid1(void) { vx_case_grid1(); }
void vx_case_R01_grid2(void) { vx_case_grid2(); }
