/*VX {"default": {"budget": 240, "bounds": "see DESIGN.md", "omp": 3}} */
#include "S01_stokes.c"
void vx_case_S01_freeslip(void) { vx_case_freeslip(); }
void vx_case_S01_noslip(void) { vx_case_noslip(); }
void vx_case_S01_mixed(void) { vx_case_mixed(); }
void vx_case_S01_stressW(void) { vx_case_stressW(); }
void vx_case_S01_stressN(void) { vx_case_stressN(); }
void vx_case_S01_stressE(void) { vx_case_stressE(); }
void vx_case_S01_stressS(void) { vx_case_stressS(); }
void vx_case_S01_periodic(void) { vx_case_periodic(); }
void vx_case_S01_compressible(void) { vx_case_compressible(); }
void vx_case_S01_outofplane(void) { vx_case_outofplane(); }
void vx_case_S01_freesurface(void) { vx_case_freesurface(); }
void vx_case_S01_stabilised(void) { vx_case_stabilised(); }
void vx_case_S01_allbc(void) { vx_case_allbc(); }
void vx_case_S01_periodicfull(void) { vx_case_periodicfull(); }
void vx_case_S01_surfacefull(void) { vx_case_surfacefull(); }
