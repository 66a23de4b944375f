/*VX {"default": {"budget": 300, "max_paths": 6000, "bounds": "4x3 nodes, one marker at any position in the box (plus an inactive one), all nodal values", "omp": 24}} */
#include "P02_topart.c"
void vx_case_P02_vert(void) { vx_case_vert(); }
void vx_case_P02_cent(void) { vx_case_cent(); }
void vx_case_P02_centper(void) { vx_case_centper(); }
void vx_case_P02_cent1(void) { vx_case_cent1(); }
void vx_case_P02_vert1(void) { vx_case_vert1(); }
void vx_case_P02_airvert(void) { vx_case_airvert(); }
void vx_case_P02_airvert1(void) { vx_case_airvert1(); }
void vx_case_P02_aircent(void) { vx_case_aircent(); }
void vx_case_P02_aircent1(void) { vx_case_aircent1(); }
