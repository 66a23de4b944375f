/*VX {"default": {"budget": 300, "max_paths": 20000, "bounds": "setup files of up to 9 lines: every position of the parameter among lines with similar names, comments, blank lines and lines without blanks, with and without a final newline; every numeric value"},
 "mat": {"weight": 10}} */
#include "mdx.h"
static char txt[4000];
static char *other[6] = { "Ntx   = 7      / a longer name\n", "xNt = 9\n", "\n", "/**** Nt section ****/\n", "Nospace\n", "N = 3\n" };
static char val[64];
static void line(const char *key, int last) { sprintf(txt + strlen(txt), "%s  = %s%s", key, val, last ? "" : "   / comment = 4\n"); }
static FILE *layout(const char *key, int nother) {
  int pos = vx_int("pos", 0, nother), nl = vx_int("final_newline", 0, 1), first = vx_int("first", 0, 5);
  txt[0] = 0;
  for (int i = 0; i <= nother; i++) {
    if (i == pos) line(key, !nl && i == nother);
    if (i < nother) { char *o = other[(first + i) % 6]; strcat(txt, o); }
  }
  int n = strlen(txt); if (!nl && txt[n-1] == '\n') txt[n-1] = 0;
  vx_file("setup.txt", txt); return fopen("setup.txt", "rt");
}
void vx_case_int(void) {
  int v = vx_int("v", 0, 3); int want = v == 0 ? 0 : v == 1 ? -3 : v == 2 ? 5 : 123456;
  sprintf(val, "%d", want); FILE *f = layout("Nt", 6);
  vx_check_eqi(ReadInt2(f, "Nt", 77), want, "an integer parameter has the value of its line");
  vx_check_eqi(ReadInt2(f, "Nothing", -2), -2, "an absent integer parameter has its default");
  vx_check_eqi(ReadInt2(f, "Nt", 77), want, "reading twice gives the same value"); fclose(f);
}
void vx_case_real(void) {
  double v = vx_real("v", -1e6, 1e6); vx_num(val, v); FILE *f = layout("Nt", 6);
  vx_check_eq(ReadDou2(f, "Nt", 77), v, "a real parameter has the value of its line");
  vx_check_eq(ReadDou2(f, "Nothing", 2.5), 2.5, "an absent real parameter has its default");
  vx_check_eq(ReadDou2(f, "Nt", 77), v, "reading twice gives the same value"); fclose(f);
}
void vx_case_text(void) {
  int n = vx_int("n", 1, 3) * 21 - 20;                  /* 1, 22 or 43 characters */
  for (int i = 0; i < n; i++) val[i] = i % 5 == 4 ? '/' : 'a' + i % 26; val[n] = 0;
  char want[64]; strcpy(want, val); FILE *f = layout("Nt", 4); char c; (void)c;
  char *r = ReadChar(f, "Nt", "fallback"); vx_check(strcmp(r, want) == 0, "a text parameter has the value of its line"); free(r);
  r = ReadChar(f, "Nothing", "fallback"); vx_check(strcmp(r, "fallback") == 0, "an absent text parameter has its default"); free(r);
  r = ReadChar(f, "Nt", "fallback"); vx_check(strcmp(r, want) == 0, "reading twice gives the same text"); free(r); fclose(f);
}
/* material properties: the block of the phase counts, whatever the order of the blocks */
void vx_case_mat(void) {
  int swap = vx_int("swap", 0, 1), has = vx_int("has", 0, 3), nl = vx_int("final_newline", 0, 1), pos = vx_int("pos", 0, 2); double v[2]; v[0] = vx_real("v0", -1e6, 1e6); v[1] = vx_real("v1", -1e6, 1e6);
  char b[64]; txt[0] = 0; strcat(txt, "G = 55\n\nNb_phases = 2\n/** PHASES **/\n");
  for (int q = 0; q < 2; q++) {
    int k = swap ? 1-q : q; sprintf(txt + strlen(txt), "ID     = %d\n", k);
    for (int i = 0; i < 3; i++) {
      if (i == pos && (has >> k & 1)) { vx_num(b, v[k]); sprintf(txt + strlen(txt), "G   = %s  / comment = 4\n", b); }
      strcat(txt, i == 0 ? "Gx = 7\n" : i == 1 ? "\n" : "xG = 8 \n");
    }
  }
  int n = strlen(txt); if (!nl) txt[n-2] = 0;
  vx_file("setup.txt", txt); FILE *f = fopen("setup.txt", "rt");
  for (int k = 0; k < 2; k++) vx_check_eq(ReadMatProps(f, "G", k, 2.5), has >> k & 1 ? v[k] : 2.5, "a material property is that of the block of its phase, or the default");
  vx_check_eq(ReadMatProps(f, "G", 0, 2.5), has & 1 ? v[0] : 2.5, "reading again gives the same value"); fclose(f);
}
