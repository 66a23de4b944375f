/*VX {"default": {"budget": 300, "max_paths": 6000, "bounds": "3x3 nodes, one marker at any position (plus an inactive one), all nodal values, time steps and marker states", "omp": 24}, "M01_aspect": {"budget": 200}, "M01_aspect1": {"tier": "thorough"}, "M01_aspect2": {"tier": "thorough"}} */
#include "M01_state.c"
void vx_case_M01_strain(void) { vx_case_strain(); }
void vx_case_M01_strainstep(void) { vx_case_strainstep(); }
void vx_case_M01_strainair(void) { vx_case_strainair(); }
void vx_case_M01_gradient(void) { vx_case_gradient(); }
void vx_case_M01_director(void) { vx_case_director(); }
void vx_case_M01_aspect(void) { vx_case_aspect(); }
void vx_case_M01_aspect1(void) { vx_case_aspect1(); }
void vx_case_M01_aspect2(void) { vx_case_aspect2(); }
void vx_case_M01_peak(void) { vx_case_peak(); }
void vx_case_M01_density(void) { vx_case_density(); }
void vx_case_M01_melt(void) { vx_case_melt(); }
void vx_case_M01_comp(void) { vx_case_comp(); }
void vx_case_M01_temp(void) { vx_case_temp(); }
void vx_case_M01_pres(void) { vx_case_pres(); }
void vx_case_M01_divth(void) { vx_case_divth(); }
void vx_case_M01_grain(void) { vx_case_grain(); }
void vx_case_M01_stress(void) { vx_case_stress(); }
void vx_case_M01_jaumann(void) { vx_case_jaumann(); }
void vx_case_M01_rotate(void) { vx_case_rotate(); }
void vx_case_M01_subT(void) { vx_case_subT(); }
void vx_case_M01_subP(void) { vx_case_subP(); }
void vx_case_M01_subS(void) { vx_case_subS(); }
void vx_case_M01_transmute(void) { vx_case_transmute(); }
void vx_case_M01_grainini(void) { vx_case_grainini(); }
void vx_case_M01_gradfield(void) { vx_case_gradfield(); }
void vx_case_M01_dirfield(void) { vx_case_dirfield(); }
void vx_case_M01_changeair(void) { vx_case_changeair(); }
