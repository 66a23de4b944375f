/*VX {"default": {"budget": 300, "max_paths": 4000, "fabs_fork": true, "bounds": "3x2 nodes, two phases of any shares whose viscosity, plastic divergence and density are any quadratic function of strain rate and pressure from a list; all strain rates, stresses and pressures away from zero", "omp": 24}} */
#include "J01_tangent.c"
void vx_case_J01_arithmetic(void) { vx_case_arithmetic(); }
void vx_case_J01_harmonic(void) { vx_case_harmonic(); }
void vx_case_J01_geometric(void) { vx_case_geometric(); }
void vx_case_J01_elastic(void) { vx_case_elastic(); }
void vx_case_J01_director(void) { vx_case_director(); }
