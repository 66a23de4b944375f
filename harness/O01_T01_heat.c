/*VX {"default": {"budget": 300, "bounds": "grids up to 5x5 nodes (4x4 cells); all temperatures, properties, sources, spacings and boundary values symbolic; every solution of the linear system", "omp": 24}} */
#include "T01_heat.c"
void vx_case_T01_sides(void) { vx_case_sides(); }
void vx_case_T01_sources(void) { vx_case_sources(); }
void vx_case_T01_periodic(void) { vx_case_periodic(); }
void vx_case_T01_surface(void) { vx_case_surface(); }
void vx_case_T01_steps(void) { vx_case_steps(); }
void vx_case_T01_equilibration(void) { vx_case_equilibration(); }
void vx_case_T01_perturbation(void) { vx_case_perturbation(); }
