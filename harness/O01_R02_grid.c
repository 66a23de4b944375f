/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "3x3 nodes, two phases, all fields", "omp": 24}} */
#include "R02_grid.c"
void vx_case_R02_density(void) { vx_case_density(); }
void vx_case_R02_meltgrid(void) { vx_case_meltgrid(); }
void vx_case_R02_alphacp(void) { vx_case_alphacp(); }
void vx_case_R02_source(void) { vx_case_source(); }
