/*VX {"default": {"budget": 300, "bounds": "4x4 nodes, six trial steps, arbitrary trial residuals", "omp": 5}, "S05_z": {"tier": "thorough"}, "S05_xz": {"tier": "thorough"}, "S05_p": {"tier": "thorough"}} */
#include "S05_linesearch.c"
void vx_case_S05_x(void) { vx_case_x(); }
void vx_case_S05_z(void) { vx_case_z(); }
void vx_case_S05_p(void) { vx_case_p(); }
void vx_case_S05_xz(void) { vx_case_xz(); }
