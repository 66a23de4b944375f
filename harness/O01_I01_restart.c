/*VX {"default": {"budget": 300, "max_paths": 4000, "weight": 20, "bounds": "3x4 nodes, 2 markers, 3+2 surface points, 2 phases, 2 recorded steps; every stored number and the eight scales arbitrary", "omp": 24}} */
#include "I01_restart.c"
void vx_case_I01_surface(void) { vx_case_surface(); }
void vx_case_I01_fields(void) { vx_case_fields(); }
void vx_case_I01_all(void) { vx_case_all(); }
void vx_case_I01_two(void) { vx_case_two(); }
void vx_case_I01_missing(void) { vx_case_missing(); }
