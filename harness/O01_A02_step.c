/*VX {"default": {"budget": 300, "max_paths": 20000, "fabs_fork": true, "bounds": "3x3 nodes, all velocities, spacings, limits and previous time steps", "omp": 24}, "A02_courantz": {"tier": "thorough"}} */
#include "A02_step.c"
void vx_case_A02_courantx(void) { vx_case_courantx(); }
void vx_case_A02_courantz(void) { vx_case_courantz(); }
void vx_case_A02_still(void) { vx_case_still(); }
void vx_case_A02_limits(void) { vx_case_limits(); }
void vx_case_A02_fixed(void) { vx_case_fixed(); }
void vx_case_A02_initial(void) { vx_case_initial(); }
void vx_case_A02_ale(void) { vx_case_ale(); }
void vx_case_A02_ale1(void) { vx_case_ale1(); }
void vx_case_A02_ale2(void) { vx_case_ale2(); }
