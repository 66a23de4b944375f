/*VX {"default": {"fabs_fork": true, "budget": 300, "max_paths": 20000, "bounds": "3x3 to 4x3 nodes, 1-2 markers anywhere in the box, all velocities, spacings and time steps allowed by a Courant number of one half", "omp": 24}, "A01_uniform": {"tier": "thorough"}} */
#include "A01_advect.c"
void vx_case_A01_velocity(void) { vx_case_velocity(); }
void vx_case_A01_linear(void) { vx_case_linear(); }
void vx_case_A01_conserv(void) { vx_case_conserv(); }
void vx_case_A01_airvel(void) { vx_case_airvel(); }
void vx_case_A01_rk4shear(void) { vx_case_rk4shear(); }
void vx_case_A01_rk4strain(void) { vx_case_rk4strain(); }
void vx_case_A01_uniform(void) { vx_case_uniform(); }
void vx_case_A01_isout(void) { vx_case_isout(); }
