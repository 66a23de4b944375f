/*VX {"default": {"budget": 300, "max_paths": 20000, "bounds": "4x4 nodes (5x4 for temperature), every side, corner and air pattern listed, arbitrary values, coordinates of a box with arbitrary origin and spacing", "omp": 24}} */
#include "B01_bcs.c"
void vx_case_B01_vx(void) { vx_case_vx(); }
void vx_case_B01_vz(void) { vx_case_vz(); }
void vx_case_B01_flux(void) { vx_case_flux(); }
void vx_case_B01_misusex(void) { vx_case_misusex(); }
void vx_case_B01_misusez(void) { vx_case_misusez(); }
void vx_case_B01_heat(void) { vx_case_heat(); }
void vx_case_B01_chem(void) { vx_case_chem(); }
void vx_case_B01_pressure(void) { vx_case_pressure(); }
void vx_case_B01_applyx(void) { vx_case_applyx(); }
void vx_case_B01_applyz(void) { vx_case_applyz(); }
void vx_case_B01_periodic(void) { vx_case_periodic(); }
void vx_case_B01_templates(void) { vx_case_templates(); }
void vx_case_B01_initial(void) { vx_case_initial(); }
