/*VX {"default": {"budget": 400, "max_paths": 4000, "weight": 3, "bounds": "3x2 cells, one marker in every cell, arbitrary field values and scales, all combinations of the optional fields that are listed"}, "case": {"chunks": {"bounds": "datasets of 1 to 60 entries"}, "viz": {"bounds": "3x2 cells, two markers at arbitrary places of the box, one of them possibly lost, next to a fixed one"}}} */
#include "part.h"
#include <stdint.h>
/* ---- a file that records what is written to it, in place of the HDF5 library */
typedef int64_t hid; typedef unsigned long long hsz;
hid H5T_NATIVE_DOUBLE_g = 101, H5T_NATIVE_FLOAT_g = 102, H5T_NATIVE_INT_g = 103, H5T_NATIVE_SCHAR_g = 104, H5T_NATIVE_UCHAR_g = 105, H5T_STD_I32BE_g = 106, H5T_STD_I32LE_g = 107, H5T_IEEE_F32BE_g = 108, H5T_IEEE_F64BE_g = 109, H5P_CLS_DATASET_CREATE_ID_g = 201;
#define MAXD 140
static char dname[MAXD][48], gname[32][32], fname[128]; static double *dval[MAXD]; static hsz dlen[MAXD], slen, chunk; static int dkind[MAXD], nd, ng, files, groups, sets, spaces, lists, created, opened_set, chunked;
int H5open(void) { return 0; }
int H5check_version(unsigned a, unsigned b, unsigned c) { return 0; }
int H5dont_atexit(void) { return 0; }
static void thefile(const char *n) { vx_check(created && !strcmp(n, fname), "the output goes to the file that was created"); }
hid H5Fcreate(const char *n, unsigned f, hid a, hid b) { vx_check(f == 2, "an earlier file is replaced"); strcpy(fname, n); created++; nd = ng = 0; files++; return 1; }
hid H5Fopen(const char *n, unsigned f, hid a) { thefile(n); vx_check(f == 1, "the file is opened for writing"); files++; return 1; }
int H5Fclose(hid f) { vx_check(f == 1 && files > 0, "an open file is closed"); files--; return 0; }
static int group(const char *n) { for (int i = 0; i < ng; i++) if (!strcmp(gname[i], n)) return 1; return 0; }
hid H5Gcreate2(hid f, const char *n, hid a, hid b, hid c) { vx_check(f == 1 && files > 0, "the file is open"); if (n[0] == '/') n++; vx_check(!group(n) && ng < 32, "a group is made once"); strcpy(gname[ng++], n); groups++; return 2; }
hid H5Gopen2(hid f, const char *n, hid a) { vx_check(f == 1 && files > 0, "the file is open"); if (n[0] == '/') n++; vx_check(group(n), "the group exists"); groups++; return 2; }
int H5Gclose(hid g) { vx_check(g == 2 && groups > 0, "an open group is closed"); groups--; return 0; }
hid H5Pcreate(hid c) { vx_check(c == 201, "creation list"); lists++; chunked = 0; return 3; }
int H5Pset_chunk(hid p, int n, const hsz *d) { vx_check(p == 3 && lists > 0 && n == 1, "chunks of a list"); chunk = d[0]; chunked = 1; vx_check((long)chunk >= 1, "chunks are not empty"); return 0; }
int H5Pset_deflate(hid p, unsigned l) { vx_check(p == 3 && lists > 0 && l <= 9, "compression level"); return 0; }
int H5Pclose(hid p) { vx_check(p == 3 && lists > 0, "list"); lists--; return 0; }
hid H5Screate_simple(int n, const hsz *d, const hsz *m) { vx_check(n == 1, "one dimension"); slen = d[0]; spaces++; return 4; }
int H5Sclose(hid s) { vx_check(s == 4 && spaces > 0, "space"); spaces--; return 0; }
static int kind(hid t) { return t == 101 || t == 109 ? 'd' : t == 102 || t == 108 ? 'f' : t == 103 || t == 106 || t == 107 ? 'i' : t == 104 || t == 105 ? 'c' : 0; }
hid H5Dcreate2(hid f, const char *n, hid t, hid s, hid a, hid p, hid b) {
  vx_check(f == 1 && files > 0 && s == 4 && spaces > 0, "the file is open"); if (n[0] == '/') n++; char g[48]; strcpy(g, n); char *q = strchr(g, '/'); vx_check(q != NULL, "a dataset belongs to a group"); *q = 0; vx_check(group(g), "the group of a dataset exists");
  for (int i = 0; i < nd; i++) vx_check(strcmp(dname[i], n) != 0, "a dataset is written once"); vx_check(nd < MAXD && strlen(n) < 47, "datasets");
  vx_check(p == 0 || (p == 3 && lists > 0), "creation list"); if (p == 3 && chunked) vx_check(chunk <= slen, "chunks fit into the dataset"); vx_check(kind(t) != 0, "type");
  strcpy(dname[nd], n); dlen[nd] = slen; dkind[nd] = kind(t); dval[nd] = NULL; opened_set = nd++; sets++; return 5; }
int H5Dwrite(hid d, hid t, hid a, hid b, hid c, const void *p) {
  vx_check(d == 5 && sets > 0 && a == 0 && b == 0, "the whole dataset is written"); int i = opened_set, k = kind(t); vx_check(dval[i] == NULL && k == dkind[i] && (t == 101 || t == 102 || t == 103 || t == 104 || t == 105), "type of the values in memory"); int n = (int)dlen[i];
  dval[i] = malloc(sizeof(double)*n); for (int j = 0; j < n; j++) dval[i][j] = k == 'd' ? ((const double*)p)[j] : k == 'f' ? (double)((const float*)p)[j] : k == 'i' ? (double)((const int*)p)[j] : (double)((const signed char*)p)[j]; return 0; }
int H5Dclose(hid d) { vx_check(d == 5 && sets > 0, "dataset"); sets--; return 0; }
static void done(const char *n) { vx_check(created == 1 && !strcmp(fname, n), "name of the file"); vx_check(!files && !groups && !sets && !spaces && !lists, "everything is closed again"); for (int i = 0; i < nd; i++) vx_check(dval[i] != NULL, "every dataset is written"); }
static int find(const char *n) { for (int i = 0; i < nd; i++) if (!strcmp(dname[i], n)) return i; return -1; }
static double *get(const char *n, int k, int len) { int i = find(n); if (i < 0) { printf("%s\n", n); vx_check(0, "the dataset is in the file"); } if (!(dkind[i] == k && (int)dlen[i] == len)) printf("%s\n", n); vx_check(dkind[i] == k, "type of a dataset"); vx_check((int)dlen[i] == len, "length of a dataset"); return dval[i]; }
static void is(const char *n, int k, int len, const double *v, double s) { double *g = get(n, k, len); for (int j = 0; j < len; j++) vx_check_eq(g[j], v[j]*s, n); }
static void isc(const char *n, int len, const char *v) { double *g = get(n, 'c', len); for (int j = 0; j < len; j++) vx_check_eq(g[j], v[j], n); }
static void isi(const char *n, int len, const int *v) { double *g = get(n, 'i', len); for (int j = 0; j < len; j++) vx_check_eq(g[j], v[j], n); }
static void params8(void) { double A[8] = { MODEL.time*I_.scaling.t, (MODEL.xmax - MODEL.xmin)*I_.scaling.L, (MODEL.zmax - MODEL.zmin)*I_.scaling.L, MODEL.Nx, MODEL.Nz, MODEL.dx*I_.scaling.L, MODEL.dz*I_.scaling.L, MODEL.dt*I_.scaling.t }; is("Model/Params", 'd', 8, A, 1); }

/* ---- a model */
static markers ch, chi; static Nparams Nm; static mat_prop mats;
#define SC I_.scaling
static void scales(void) { SC.L = vx_real("sL", 0.5, 8); SC.V = vx_real("sV", 0.5, 8); SC.S = vx_real("sS", 0.5, 8); SC.E = vx_real("sE", 0.5, 8); SC.T = vx_real("sT", 0.5, 8); SC.t = vx_real("st", 0.5, 8); SC.eta = vx_real("seta", 0.5, 8); SC.rho = vx_real("srho", 0.5, 8); SC.F = vx_real("sF", 0.5, 8); }
static void box(void) { vx_flag("exit_is_violation", 1); vx_flag("tol_ppb", 4000); mdx_model(4, 3); MODEL.Nt = 2; MODEL.Nb_phases = 6; MODEL.step = 12; MODEL.dx = vx_real("pdx", 0.5, 2); MODEL.dz = vx_real("pdz", 0.5, 2); MODEL.dt = vx_real("pdt", 0.5, 2); MODEL.time = vx_real("time", 0, 9); strcpy(MODEL.description, "a description"); }
static double F_[64][24]; static int nF;
#define NX 4
#define NZ 3
#define NC 6
#define NG 12
#define NU 16
#define NV 15
static void cells(void) { mdx_box(-1.5, -1, 1, 1); double a = MODEL.dx, b = MODEL.dz; mdx_grid(); MODEL.dx = mesh.dx; MODEL.dz = mesh.dz; (void)a; (void)b; scales(); part_alloc(7, 64); for (int k = 0; k < 6; k++) { part_at(k, k%3 + 0.1875 + 0.125*k, k/3 + 0.71875 - 0.0625*k); mk.phase[k] = 0; mk.dual[k] = 1; } part_at(6, 1.5, 1.5); mk.phase[6] = -1; mk.dual[6] = 7; }
static void lines(void) { AllocateMarkerChain(&topo, &ch, MODEL); printf("\n"); AllocateMarkerChain(&topo_ini, &chi, MODEL); printf("\n"); ch.Nb_part = 3; chi.Nb_part = 2; for (int k = 0; k < 3; k++) ch.phase[k] = 4 + k; for (int k = 0; k < 2; k++) chi.phase[k] = 8 + k;
  mdx_fill(ch.x, 3, "cx", -1, 1); mdx_fill(ch.z, 3, "cz", -1, 1); mdx_fill(ch.Vx, 3, "cu", -1, 1); mdx_fill(ch.Vz, 3, "cv", -1, 1); mdx_fill(topo.height, NX, "ch", -1, 1); mdx_fill(topo.height_finer_c, 6, "cf", -1, 1); mdx_fill(topo.vx, NX, "tu", -1, 1); mdx_fill(topo.vz, NX+1, "tv", -1, 1); }
static void all(int strain, int aniso, int track, int surf) {
  box(); MODEL.finite_strain = strain; MODEL.anisotropy = aniso; MODEL.track_T_P_x_z = track; MODEL.free_surface = surf; cells();
#define A(f, n) mdx_fill(mesh.f, n, #f "_", -4, 4);
  A(rho_s, NG) A(rho_n, NC) A(eta_phys_s, NG) A(eta_phys_n, NC) A(u_in, NU) A(v_in, NV) A(p_in, NC) A(sxxd, NC) A(szzd, NC) A(sxz, NG) A(exxd, NC) A(ezzd, NC) A(exz, NG) A(eII_el, NC) A(eII_pl, NC) A(eII_pwl, NC) A(eII_exp, NC) A(eII_lin, NC) A(eII_gbs, NC) A(d_n, NC) A(X_n, NC) A(phi_n, NC) A(OverS_n, NC) A(div_u, NC) A(div_u_el, NC) A(div_u_pl, NC) A(divth0_n, NC) A(div_u_r, NC) A(T, NC) A(fric_n, NC) A(C_n, NC)
  A(Time_time, 3) A(Short_time, 3) A(Work_time, 3) A(Uthermal_time, 3) A(Uelastic_time, 3) A(T_mean_time, 3) A(P_mean_time, 3) A(sxxd_mean_time, 3) A(szzd_mean_time, 3) A(sxz_mean_time, 3) A(Tii_mean_time, 3) A(exxd_mean_time, 3) A(ezzd_mean_time, 3) A(exz_mean_time, 3) A(Eii_mean_time, 3)
#define M(f) { mdx_fill(mk.f, 7, "m" #f "_", 0.25, 4); for (int k = 1; k < 7; k += 2) mk.f[k] = -mk.f[k]; }
  M(strain) M(strain_el) M(strain_pl) M(strain_pwl) M(strain_exp) M(strain_lin) M(strain_gbs) if (strain) { M(Fxx) M(Fxz) M(Fzx) M(Fzz) } if (track) { M(T0) M(P0) M(Tmax) M(Pmax) M(x0) M(z0) } if (aniso) { for (int k = 0; k < 7; k++) { mk.nx[k] = 0.5 + 0.0625*k; mk.nz[k] = 0.25 - 0.125*k; } A(aniso_factor_n, NC) }
  if (surf) lines(); for (int k = 0; k < NG; k++) mesh.BCg.type[k] = k; for (int k = 0; k < NU; k++) mesh.BCu.type[k] = k - 2; for (int k = 0; k < NV; k++) mesh.BCv.type[k] = 11 + k; for (int k = 0; k < 24; k++) mesh.BCt_fine.type[k] = 30 - k;
  Nm.nit_max = 1; Nm.nit = 1; static double r[3][2]; static int l[2] = { 1, 0 }; mdx_fill(r[0], 2, "ra", 0, 1); mdx_fill(r[1], 2, "rb", 0, 1); mdx_fill(r[2], 2, "rc", 0, 1); Nm.rx_abs = r[0]; Nm.rz_abs = r[1]; Nm.rp_abs = r[2]; Nm.LogIsNewtonStep = l;
}
static void markers_are(const char *n, const double *v, double s, double air) { double *g = get(n, 'f', NC); for (int j = 0; j < NC; j++) if (mesh.BCp.type[j] == -1) vx_check_eq(g[j], v[j]*s, n); else if (air >= 0) vx_check_eq(g[j], air, n); }
static void groups_of_fields(void) {
  is("Vertices/rho_s", 'f', NG, mesh.rho_s, SC.rho); is("Centers/rho_n", 'f', NC, mesh.rho_n, SC.rho); is("Vertices/eta_s", 'f', NG, mesh.eta_phys_s, SC.eta); is("Centers/eta_n", 'f', NC, mesh.eta_phys_n, SC.eta);
  is("VxNodes/Vx", 'f', NU, mesh.u_in, SC.V); is("VzNodes/Vz", 'f', NV, mesh.v_in, SC.V); is("Centers/P", 'f', NC, mesh.p_in, SC.S); is("Centers/sxxd", 'f', NC, mesh.sxxd, SC.S); is("Centers/szzd", 'f', NC, mesh.szzd, SC.S); is("Vertices/sxz", 'f', NG, mesh.sxz, SC.S);
  is("Centers/exxd", 'f', NC, mesh.exxd, SC.E); is("Centers/ezzd", 'f', NC, mesh.ezzd, SC.E); is("Vertices/exz", 'f', NG, mesh.exz, SC.E); is("Centers/eII_el", 'f', NC, mesh.eII_el, SC.E); is("Centers/eII_pl", 'f', NC, mesh.eII_pl, SC.E); is("Centers/eII_pwl", 'f', NC, mesh.eII_pwl, SC.E); is("Centers/eII_exp", 'f', NC, mesh.eII_exp, SC.E); is("Centers/eII_lin", 'f', NC, mesh.eII_lin, SC.E); is("Centers/eII_gbs", 'f', NC, mesh.eII_gbs, SC.E);
  is("Centers/d", 'f', NC, mesh.d_n, SC.L); is("Centers/X", 'f', NC, mesh.X_n, 1); is("Centers/phi", 'f', NC, mesh.phi_n, 1); is("Centers/OverS", 'f', NC, mesh.OverS_n, SC.S); is("Centers/divu", 'f', NC, mesh.div_u, SC.E); is("Centers/divu_el", 'f', NC, mesh.div_u_el, SC.E); is("Centers/divu_pl", 'f', NC, mesh.div_u_pl, SC.E); is("Centers/divu_th", 'f', NC, mesh.divth0_n, SC.E); is("Centers/divu_r", 'f', NC, mesh.div_u_r, SC.E); is("Centers/T", 'f', NC, mesh.T, SC.T); is("Centers/friction", 'f', NC, mesh.fric_n, 1); is("Centers/cohesion", 'f', NC, mesh.C_n, SC.S);
  markers_are("Centers/strain", mk.strain, 1, -1); markers_are("Centers/strain_el", mk.strain_el, 1, -1); markers_are("Centers/strain_pl", mk.strain_pl, 1, -1); markers_are("Centers/strain_pwl", mk.strain_pwl, 1, -1); markers_are("Centers/strain_exp", mk.strain_exp, 1, -1); markers_are("Centers/strain_lin", mk.strain_lin, 1, -1); markers_are("Centers/strain_gbs", mk.strain_gbs, 1, -1);
}
static void everything_else(void) {
  params8(); isc("Model/Description", 500, MODEL.description); is("Model/xg_coord", 'f', 4, mesh.xg_coord, SC.L); is("Model/zg_coord", 'f', 3, mesh.zg_coord, SC.L); is("Model/xc_coord", 'f', 3, mesh.xc_coord, SC.L); is("Model/zc_coord", 'f', 2, mesh.zc_coord, SC.L); is("Model/xvz_coord", 'f', 5, mesh.xvz_coord, SC.L); is("Model/zvx_coord", 'f', 4, mesh.zvx_coord, SC.L);
  double xv[7], zv[5]; for (int k = 0; k < 7; k++) xv[k] = -1.5 + 0.5*k; for (int k = 0; k < 5; k++) zv[k] = -1 + 0.5*k; is("VizGrid/xviz", 'f', 4, mesh.xg_coord, SC.L); is("VizGrid/zviz", 'f', 3, mesh.zg_coord, SC.L); is("VizGrid/xviz_hr", 'f', 7, xv, SC.L); is("VizGrid/zviz_hr", 'f', 5, zv, SC.L);
#define TS(f) is("TimeSeries/" #f, 'd', 3, mesh.f, 1);
  TS(Time_time) TS(Short_time) TS(Work_time) TS(Uthermal_time) TS(Uelastic_time) TS(T_mean_time) TS(P_mean_time) TS(sxxd_mean_time) TS(szzd_mean_time) TS(sxz_mean_time) TS(Tii_mean_time) TS(exxd_mean_time) TS(ezzd_mean_time) TS(exz_mean_time) TS(Eii_mean_time)
  isc("Centers/BCp", NC, mesh.BCp.type); isc("Flags/tag_s", NG, mesh.BCg.type); isc("Flags/tag_n", NC, mesh.BCp.type); isc("Flags/tag_u", NU, mesh.BCu.type); isc("Flags/tag_v", NV, mesh.BCv.type); isc("Flags/tag_t_fine", 24, mesh.BCt_fine.type);
  is("Iterations/rx_abs", 'd', 2, Nm.rx_abs, 1); is("Iterations/rz_abs", 'd', 2, Nm.rz_abs, 1); is("Iterations/rp_abs", 'd', 2, Nm.rp_abs, 1); isi("Iterations/LogIsNewtonStep", 2, Nm.LogIsNewtonStep); isi("Iterations/NumberSteps", 1, &Nm.nit);
  const char *o[] = { "Centers/Fxx", "Centers/Fxz", "Centers/Fzx", "Centers/Fzz", "Centers/nx", "Centers/nz", "Centers/ani_fac", "Centers/T0", "Centers/P0", "Centers/Tmax", "Centers/Pmax", "Centers/x0", "Centers/z0", "Topo/z_grid" };
  if (MODEL.finite_strain) { markers_are(o[0], mk.Fxx, 1, -1); markers_are(o[1], mk.Fxz, 1, -1); markers_are(o[2], mk.Fzx, 1, -1); markers_are(o[3], mk.Fzz, 1, -1); }
  if (MODEL.anisotropy) { markers_are(o[4], mk.nx, 1, -1); markers_are(o[5], mk.nz, 1, -1); is(o[6], 'f', NC, mesh.aniso_factor_n, 1); }
  if (MODEL.track_T_P_x_z) { markers_are(o[7], mk.T0, SC.T, 273.15); markers_are(o[8], mk.P0, SC.S, 0); markers_are(o[9], mk.Tmax, SC.T, 273.15); markers_are(o[10], mk.Pmax, SC.S, 0); markers_are(o[11], mk.x0, SC.L, -1); markers_are(o[12], mk.z0, SC.L, -1); }
  if (MODEL.free_surface) { is("Topo/z_grid", 'f', 4, topo.height, SC.L); is("Topo/z_finer_cent", 'f', 6, topo.height_finer_c, SC.L); is("Topo/Vx_grid", 'f', 4, topo.vx, SC.V); is("Topo/Vz_grid", 'f', 5, topo.vz, SC.V); is("Topo/x_mark", 'f', 3, ch.x, SC.L); is("Topo/z_mark", 'f', 3, ch.z, SC.L); is("Topo/Vx_mark", 'f', 3, ch.Vx, SC.V); is("Topo/Vz_mark", 'f', 3, ch.Vz, SC.V); isi("Topo/phase_mark", 3, ch.phase); }
  for (int k = 0; k < 14; k++) { int on = k < 4 ? MODEL.finite_strain : k < 7 ? MODEL.anisotropy : k < 13 ? MODEL.track_T_P_x_z : MODEL.free_surface; vx_check((find(o[k]) >= 0) == (on == 1), "optional fields are there when they are asked for"); }
}
static void go(void) { WriteOutputHDF5(&mesh, &mk, &topo, &ch, MODEL, Nm, "Output", mats, SC); printf("\n"); }
void vx_case_fields(void) { all(0, 0, 0, 0); go(); done("Output00012.gzip.h5"); groups_of_fields(); everything_else(); }
void vx_case_options(void) { all(1, 1, 1, 1); go(); done("Output00012.gzip.h5"); groups_of_fields(); everything_else(); }
void vx_case_air(void) { all(vx_int("strain", 0, 1), 0, 1, 1); for (int c = 3; c < 6; c++) { mesh.BCp.type[c] = c == 4 ? 31 : 30; mesh.BCt.type[c] = 30; } go(); done("Output00012.gzip.h5"); groups_of_fields(); everything_else(); double *g = get("VizGrid/compo_hr", 'c', 24); for (int k = 12; k < 24; k++) vx_check_eq(g[k], -1, "no rock above the surface"); }
void vx_case_switches(void) { all(vx_int("strain", 0, 1), 0, vx_int("track", 0, 1), vx_int("surf", 0, 1)); go(); done("Output00012.gzip.h5"); everything_else(); }
void vx_case_name(void) { all(0, 0, 0, 0); int sub = vx_int("sub", 0, 2); MODEL.writer_subfolder = sub == 0 ? NULL : sub == 1 ? "" : "results"; MODEL.step = vx_int("step", 0, 1) ? 123456 : 7; char n[64]; sprintf(n, "%sOutput%05d.gzip.h5", sub == 2 ? "results/" : "", MODEL.step); go(); done(n); }
/* the model is the same after its output */
void vx_case_unchanged(void) {
  all(0, 0, 0, 0); double *f[] = { mesh.rho_s, mesh.eta_phys_s, mesh.u_in, mesh.v_in, mesh.p_in, mesh.sxxd, mesh.szzd, mesh.sxz, mesh.exz, mesh.T, mesh.X_n, mesh.d_n, mesh.C_n, mesh.OverS_n, mesh.div_u, mesh.exxd, mesh.ezzd }; int n[] = { NG, NG, NU, NV, NC, NC, NC, NG, NG, NC, NC, NC, NC, NC, NC, NC, NC }; double o[17][NU];
  for (int i = 0; i < 17; i++) for (int k = 0; k < n[i]; k++) o[i][k] = f[i][k]; go(); for (int i = 0; i < 17; i++) for (int k = 0; k < n[i]; k++) vx_check_eq(f[i][k], o[i][k], "writing the output leaves the model as it is");
}
/* phases of the markers */
void vx_case_phases(void) {
  all(0, 0, 0, 0); for (int k = 0; k < 6; k++) { mk.phase[k] = vx_int("ph", 0, 1) ? k : 5 - k; mk.dual[k] = 10 + k; } go(); double *c = get("VizGrid/compo", 'c', 6), *h = get("VizGrid/compo_hr", 'c', 24), *d = get("VizGrid/compo_dual_hr", 'c', 24);
  for (int k = 0; k < 6; k++) { vx_check_eq(c[k], mk.dual[k], "phase of a cell"); int i = (int)(2*ps_[k]), j = (int)(2*pt_[k]); for (int q = 0; q < 4; q++) { int a = 2*(k%3) + q%2, b = 2*(k/3) + q/2; int here = a == i && b == j; vx_check_eq(h[a + 6*b], here ? mk.phase[k] : -1, "phase of a quarter of a cell"); vx_check_eq(d[a + 6*b], here ? mk.dual[k] : -1, "dual phase of a quarter of a cell"); } }
}
/* the closest marker decides */
void vx_case_viz(void) {
  box(); cells(); int lost = vx_int("lost", 0, 1); part_sym(0); part_sym(1); part_at(2, 1.125, 0.375); mk.Nb_part = 3; for (int k = 0; k < 3; k++) mk.phase[k] = 3 + k; if (lost) mk.phase[1] = -1; char g[6]; double x[4], z[3]; for (int k = 0; k < 4; k++) x[k] = mesh.xg_coord[k]; for (int k = 0; k < 3; k++) z[k] = mesh.zg_coord[k];
  for (int k = 0; k < 2; k++) { for (int c = 1; c < 3; c++) vx_assume_ne(ps_[k], c); vx_assume_ne(pt_[k], 1); }
  Interp_Phase2VizGrid(mk, mk.phase, &mesh, g, x, z, 4, 3, MODEL, topo); int c[3]; double w[3];
  for (int k = 0; k < 3; k++) { int i = (int)ps_[k], j = (int)pt_[k]; if (i > 2) i = 2; if (j > 1) j = 1; c[k] = i + 3*j; w[k] = (1 - fabs(ps_[k] - i - 0.5))*(1 - fabs(pt_[k] - j - 0.5)); }
  for (int q = 0; q < 6; q++) { int any = 0; for (int k = 0; k < 3; k++) if (c[k] == q && mk.phase[k] != -1) { any = 1; if (g[q] == mk.phase[k]) for (int m = 0; m < 3; m++) if (c[m] == q && mk.phase[m] != -1) vx_check_le(w[m], w[k] + 1e-9, "the closest marker gives the phase"); } if (!any) vx_check_eqi(g[q], -1, "a cell without markers has no phase"); else { int ok = 0; for (int k = 0; k < 3; k++) if (c[k] == q && mk.phase[k] != -1 && g[q] == mk.phase[k]) ok = 1; vx_check(ok, "the phase is that of a marker in the cell"); } }
}
/* markers */
void vx_case_markers(void) {
  box(); MODEL.free_surface = vx_int("surf", 0, 1); MODEL.anisotropy = vx_int("aniso", 0, 1); cells(); int sub = vx_int("sub", 0, 1); MODEL.writer_subfolder = sub ? "results" : NULL; static int gen[7] = { 0, 1, 2, 3, 4, 5, 6 }; for (int k = 0; k < 7; k++) { mk.phase[k] = k == 6 ? -1 : k; mk.generation[k] = gen[k]; } M(Vx) M(Vz) M(P) M(T) M(sxxd) M(sxz) if (MODEL.anisotropy) { M(nx) M(nz) }
  if (MODEL.free_surface) { lines(); mdx_fill(chi.x, 2, "ix", -1, 1); mdx_fill(chi.z, 2, "iz", -1, 1); mdx_fill(chi.Vx, 2, "iu", -1, 1); mdx_fill(chi.Vz, 2, "iv", -1, 1); mdx_fill(topo_ini.height, NX, "ih", -1, 1); mdx_fill(topo_ini.vx, NX, "iu_", -1, 1); mdx_fill(topo_ini.vz, NX+1, "iv_", -1, 1); }
  WriteOutputHDF5Particles(&mesh, &mk, &topo, &ch, &topo_ini, &chi, MODEL, "Particles", mats, SC); done(sub ? "results/Particles00012.gzip.h5" : "Particles00012.gzip.h5"); params8();
  is("Particles/x", 'f', 7, mk.x, SC.L); is("Particles/z", 'f', 7, mk.z, SC.L); is("Particles/Vx", 'f', 7, mk.Vx, SC.V); is("Particles/Vz", 'f', 7, mk.Vz, SC.V); is("Particles/T", 'f', 7, mk.T, SC.T); is("Particles/P", 'f', 7, mk.P, SC.S); is("Particles/sxxd", 'f', 7, mk.sxxd, SC.S); is("Particles/sxz", 'f', 7, mk.sxz, SC.S);
  double *p = get("Particles/phase", 'c', 7), *g = get("Particles/generation", 'c', 7), *x = get("Particles/index", 'i', 7); for (int k = 0; k < 7; k++) { vx_check_eq(p[k], mk.phase[k], "phase of a marker"); vx_check_eq(g[k], mk.generation[k], "generation of a marker"); vx_check_eq(x[k], k, "index of a marker"); }
  if (MODEL.anisotropy) { is("Particles/nx", 'f', 7, mk.nx, 1); is("Particles/nz", 'f', 7, mk.nz, 1); }
  if (MODEL.free_surface) { is("Topo/height", 'f', 4, topo.height, SC.L); is("Topo/vxsurf", 'f', 4, topo.vx, SC.V); is("Topo/vzsurf", 'f', 5, topo.vz, SC.V); is("Topo/x", 'f', 3, ch.x, SC.L); is("Topo/z", 'f', 3, ch.z, SC.L); is("Topo/vx", 'f', 3, ch.Vx, SC.V); is("Topo/vz", 'f', 3, ch.Vz, SC.V); isi("Topo/phase", 3, ch.phase);
    is("Topo_ini/height", 'f', 4, topo_ini.height, SC.L); is("Topo_ini/vxsurf", 'f', 4, topo_ini.vx, SC.V); is("Topo_ini/vzsurf", 'f', 5, topo_ini.vz, SC.V); is("Topo_ini/x", 'f', 2, chi.x, SC.L); is("Topo_ini/z", 'f', 2, chi.z, SC.L); is("Topo_ini/vx", 'f', 2, chi.Vx, SC.V); is("Topo_ini/vz", 'f', 2, chi.Vz, SC.V); isi("Topo_ini/phase", 2, chi.phase); }
}
/* residuals */
void vx_case_residuals(void) {
  box(); cells(); A(eta_phys_n, NC) A(eta_phys_s, NG) A(rho_n, NC) A(rho_s, NG) A(rp, NC) A(ru, NU) A(rv, NV) double o[7][NU], *f[] = { mesh.eta_phys_n, mesh.eta_phys_s, mesh.rho_n, mesh.rho_s, mesh.rp, mesh.ru, mesh.rv }; int n[] = { NC, NG, NC, NG, NC, NU, NV }; for (int i = 0; i < 7; i++) for (int k = 0; k < n[i]; k++) o[i][k] = f[i][k];
  Nm.nit = 3; WriteResiduals(mesh, MODEL, Nm, SC); done("Residuals00003.gzip.h5"); params8(); is("VxNodes/ru", 'd', NU, o[5], SC.F); is("VzNodes/rv", 'd', NV, o[6], SC.F); is("Centers/rp", 'd', NC, o[4], SC.E); is("Centers/rho", 'd', NC, o[2], SC.rho); is("Vertices/rho", 'd', NG, o[3], SC.rho); is("Centers/eta", 'd', NC, o[0], SC.eta); is("Vertices/eta", 'd', NG, o[1], SC.eta);
  for (int i = 0; i < 7; i++) for (int k = 0; k < n[i]; k++) vx_check_eq(f[i][k], o[i][k], "writing the residuals leaves the model as it is");
}
/* datasets of any size and kind */
void vx_case_chunks(void) {
  vx_flag("exit_is_violation", 1); int n = vx_int("n", 1, 60); char k = "dfic"[vx_int("kind", 0, 3)]; double v[60]; float w[60]; int iv[60]; signed char cv[60]; for (int i = 0; i < n; i++) { v[i] = 0.5*i - 3; w[i] = v[i]; iv[i] = 70000*i - 9; cv[i] = i - 9; }
  CreateOutputHDF5("a.h5"); AddGroupToHDF5("a.h5", "G"); AddFieldToGroup("a.h5", "G", "f", k, n, k == 'd' ? (void*)v : k == 'f' ? (void*)w : k == 'i' ? (void*)iv : (void*)cv, 1); done("a.h5"); double *g = get("G/f", k, n); for (int i = 0; i < n; i++) vx_check_eq(g[i], k == 'i' ? iv[i] : k == 'c' ? cv[i] : v[i], "values of a dataset");
}
