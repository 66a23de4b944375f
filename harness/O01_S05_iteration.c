/*VX {"default": {"budget": 300, "bounds": "grids 4x4 to 7x7 nodes; all fields, increments and trial residuals symbolic", "omp": 5}} */
#include "S05_iteration.c"
void vx_case_S05_scaling(void) { vx_case_scaling(); }
void vx_case_S05_scalingperiodic(void) { vx_case_scalingperiodic(); }
void vx_case_S05_scalingsurface(void) { vx_case_scalingsurface(); }
void vx_case_S05_update(void) { vx_case_update(); }
void vx_case_S05_updatestress(void) { vx_case_updatestress(); }
void vx_case_S05_updateperiodic(void) { vx_case_updateperiodic(); }
