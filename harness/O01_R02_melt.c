/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "one material point, all temperatures, previous melt fractions, times; every melting model", "omp": 24}} */
#include "R02_melt.c"
void vx_case_R02_range(void) { vx_case_range(); }
void vx_case_R02_off(void) { vx_case_off(); }
void vx_case_R02_mono(void) { vx_case_mono(); }
void vx_case_R02_jump0(void) { vx_case_jump0(); }
void vx_case_R02_jump1(void) { vx_case_jump1(); }
void vx_case_R02_jump2(void) { vx_case_jump2(); }
void vx_case_R02_jump3(void) { vx_case_jump3(); }
void vx_case_R02_jump4(void) { vx_case_jump4(); }
void vx_case_R02_units(void) { vx_case_units(); }
