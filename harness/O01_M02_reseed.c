/*VX {"default": {"budget": 400, "max_paths": 20000, "bounds": "2x2 cells (4x4 seeding cells), 1 or 2 markers per seeding cell with holes in listed patterns, one marker anywhere, 0 to 3 lost markers", "omp": 24}, "M02_surface": {"tier": "thorough"}, "M02_coarse": {"tier": "thorough"}, "M02_fine": {"tier": "thorough"}} */
#include "M02_reseed.c"
void vx_case_M02_coarse(void) { vx_case_coarse(); }
void vx_case_M02_fine(void) { vx_case_fine(); }
void vx_case_M02_count(void) { vx_case_count(); }
void vx_case_M02_surface(void) { vx_case_surface(); }
void vx_case_M02_fromgrid(void) { vx_case_fromgrid(); }
void vx_case_M02_full(void) { vx_case_full(); }
void vx_case_M02_few(void) { vx_case_few(); }
void vx_case_M02_inflow(void) { vx_case_inflow(); }
void vx_case_M02_inflowfull(void) { vx_case_inflowfull(); }
