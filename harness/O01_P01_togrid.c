/*VX {"default": {"budget": 400, "max_paths": 6000, "bounds": "3x3 nodes, 2-3 markers (one or two at arbitrary positions in the box), 2 phases, symbolic box, all marker values", "omp": 4}} */
#include "P01_togrid.c"
void vx_case_P01_cells1(void) { vx_case_cells1(); }
void vx_case_P01_cells9(void) { vx_case_cells9(); }
void vx_case_P01_nodes1(void) { vx_case_nodes1(); }
void vx_case_P01_nodes9(void) { vx_case_nodes9(); }
void vx_case_P01_vx1(void) { vx_case_vx1(); }
void vx_case_P01_vx9(void) { vx_case_vx9(); }
void vx_case_P01_vz1(void) { vx_case_vz1(); }
void vx_case_P01_vz9(void) { vx_case_vz9(); }
void vx_case_P01_inactive(void) { vx_case_inactive(); }
void vx_case_P01_periodic9(void) { vx_case_periodic9(); }
void vx_case_P01_fraccells1(void) { vx_case_fraccells1(); }
void vx_case_P01_fraccells9(void) { vx_case_fraccells9(); }
void vx_case_P01_fracnodes1(void) { vx_case_fracnodes1(); }
void vx_case_P01_fracnodes9(void) { vx_case_fracnodes9(); }
void vx_case_P01_constant(void) { vx_case_constant(); }
void vx_case_P01_director(void) { vx_case_director(); }
