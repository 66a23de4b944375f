/*VX {"default": {"budget": 300, "max_paths": 20000, "bounds": "two markers, every callback of the setup present or absent in turn, arbitrary values; 2x2 cells with up to 2x3 markers per cell in a box with arbitrary origin and spacing; lithostatic columns of 2x4 cells", "omp": 24}, "B02_layout": {"weight": 3}, "B02_noise": {"bounds": "2x1 cells, random numbers 0, 1/2 and 1"}, "B02_name": {"bounds": "paths of up to 5 characters before the extension"}} */
#include "B02_init.c"
void vx_case_B02_markers(void) { vx_case_markers(); }
void vx_case_B02_phase(void) { vx_case_phase(); }
void vx_case_B02_reload(void) { vx_case_reload(); }
void vx_case_B02_layout(void) { vx_case_layout(); }
void vx_case_B02_belowsurface(void) { vx_case_belowsurface(); }
void vx_case_B02_noise(void) { vx_case_noise(); }
void vx_case_B02_ellipse(void) { vx_case_ellipse(); }
void vx_case_B02_turned(void) { vx_case_turned(); }
void vx_case_B02_rectangle(void) { vx_case_rectangle(); }
void vx_case_B02_name(void) { vx_case_name(); }
void vx_case_B02_coordinates(void) { vx_case_coordinates(); }
void vx_case_B02_lithostatic(void) { vx_case_lithostatic(); }
void vx_case_B02_perturb(void) { vx_case_perturb(); }
