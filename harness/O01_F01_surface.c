/*VX {"default": {"budget": 300, "max_paths": 20000, "bounds": "3 to 4 columns, 3 to 4 rows, arbitrary surface heights and marker positions within the box", "omp": 24}, "F01_flags": {"weight": 5, "budget": 600, "max_paths": 6000, "bounds": "3x4 cells, arbitrary node heights that stay inside of the box and differ by at most one cell height between neighbours", "tier": "thorough"}, "F01_cliffs": {"weight": 6, "budget": 600, "bounds": "3x5 cells, arbitrary node heights that stay inside of the box", "tier": "thorough"}} */
#include "F01_surface.c"
void vx_case_F01_flags(void) { vx_case_flags(); }
void vx_case_F01_cliffs(void) { vx_case_cliffs(); }
void vx_case_F01_chain(void) { vx_case_chain(); }
void vx_case_F01_lines(void) { vx_case_lines(); }
void vx_case_F01_project(void) { vx_case_project(); }
void vx_case_F01_flat(void) { vx_case_flat(); }
void vx_case_F01_cleanup(void) { vx_case_cleanup(); }
void vx_case_F01_density(void) { vx_case_density(); }
void vx_case_F01_erosion(void) { vx_case_erosion(); }
void vx_case_F01_valley(void) { vx_case_valley(); }
void vx_case_F01_filling(void) { vx_case_filling(); }
void vx_case_F01_sediment(void) { vx_case_sediment(); }
void vx_case_F01_sedimentfull(void) { vx_case_sedimentfull(); }
void vx_case_F01_velocity(void) { vx_case_velocity(); }
void vx_case_F01_addmarkers(void) { vx_case_addmarkers(); }
void vx_case_F01_resetmarkers(void) { vx_case_resetmarkers(); }
void vx_case_F01_zeromean(void) { vx_case_zeromean(); }
