/*VX {"default": {"budget": 300, "max_paths": 4000, "bounds": "one material point or one cell/vertex with two phases; tables with 3x4 entries; all values", "omp": 24}, "R02_dens": {"exp_hom": true}, "R02_huet0": {"exp_hom": true}, "R02_huet1": {"exp_hom": true}} */
#include "R02_state.c"
void vx_case_R02_dens(void) { vx_case_dens(); }
void vx_case_R02_table1(void) { vx_case_table1(); }
void vx_case_R02_table2(void) { vx_case_table2(); }
void vx_case_R02_huetmix(void) { vx_case_huetmix(); }
void vx_case_R02_huet0(void) { vx_case_huet0(); }
void vx_case_R02_huet1(void) { vx_case_huet1(); }
void vx_case_R02_moduli(void) { vx_case_moduli(); }
