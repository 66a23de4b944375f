/*VX {"default": {"budget": 240, "bounds": "grids 4x4 to 6x7 nodes, every stress/pressure/density/velocity/gravity value symbolic, symbolic box", "omp": 5}} */
#include "S02_balance.c"
void vx_case_S02_closed(void) { vx_case_closed(); }
void vx_case_S02_stress(void) { vx_case_stress(); }
void vx_case_S02_periodic(void) { vx_case_periodic(); }
void vx_case_S02_compressible(void) { vx_case_compressible(); }
void vx_case_S02_densityvar(void) { vx_case_densityvar(); }
void vx_case_S02_freesurface(void) { vx_case_freesurface(); }
void vx_case_S02_linearflow(void) { vx_case_linearflow(); }
void vx_case_S02_corneraverage(void) { vx_case_corneraverage(); }
void vx_case_S02_hydrostatic(void) { vx_case_hydrostatic(); }
