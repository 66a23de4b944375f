/*VX {"default": {"budget": 300, "bounds": "grids up to 5x5 nodes; all compositions, diffusivities, spacings and boundary values symbolic; every solution of the linear system", "omp": 24}} */
#include "T02_chem.c"
void vx_case_T02_sides(void) { vx_case_sides(); }
void vx_case_T02_periodic(void) { vx_case_periodic(); }
void vx_case_T02_tall(void) { vx_case_tall(); }
