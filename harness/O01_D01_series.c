/*VX {"default": {"budget": 200, "max_paths": 4000, "bounds": "2x2 and 3x2 cells, any subset of them empty (air) as long as one is not, all fields", "omp": 24}} */
#include "D01_series.c"
void vx_case_D01_means(void) { vx_case_means(); }
void vx_case_D01_meanswide(void) { vx_case_meanswide(); }
void vx_case_D01_meanstall(void) { vx_case_meanstall(); }
