/*VX {"default": {"budget": 240, "bounds": "grids 5x5 to 6x6 nodes; every entry of the tangent tensor symbolic and independent per cell and vertex", "omp": 7}} */
#include "S04_jacobian.c"
void vx_case_S04_interior(void) { vx_case_interior(); }
void vx_case_S04_noslip(void) { vx_case_noslip(); }
void vx_case_S04_periodicint(void) { vx_case_periodicint(); }
void vx_case_S04_isotropic(void) { vx_case_isotropic(); }
void vx_case_S04_isoperiodic(void) { vx_case_isoperiodic(); }
void vx_case_S04_freesurface(void) { vx_case_freesurface(); }
