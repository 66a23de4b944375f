/*VX {"default": {"budget": 240, "bounds": "grids 4x4 to 6x7 nodes, all viscosities symbolic, all combinations of side conditions", "omp": 4}} */
#include "S03_structure.c"
void vx_case_S03_sides(void) { vx_case_sides(); }
void vx_case_S03_compressible(void) { vx_case_compressible(); }
void vx_case_S03_periodic(void) { vx_case_periodic(); }
void vx_case_S03_freesurface(void) { vx_case_freesurface(); }
void vx_case_S03_interior(void) { vx_case_interior(); }
