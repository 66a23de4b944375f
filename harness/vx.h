/* Harness API.  The symbolic engine models these; native/vxrt.c implements them for replay. */
#ifndef VX_H
#define VX_H
double vx_real(const char *name, double lo, double hi);   /* arbitrary real in [lo,hi] */
double vx_any(const char *name);                          /* arbitrary finite real      */
int    vx_int(const char *name, int lo, int hi);          /* arbitrary int, enumerated  */
void   vx_assume(int c);
void   vx_assume_lt(double a, double b);
void   vx_assume_le(double a, double b);
void   vx_assume_eq(double a, double b);
void   vx_assume_ne(double a, double b);
void   vx_check(int c, const char *msg);
void   vx_check_eq(double a, double b, const char *msg);
void   vx_check_le(double a, double b, const char *msg);
void   vx_check_lt(double a, double b, const char *msg);
void   vx_check_eqi(int a, int b, const char *msg);
void   vx_flag(const char *name, int v);
void   vx_rand(int n);
int    vx_symbolic(void);
void   vx_print(const char *s, double v);
void   vx_file(const char *name, const char *text);
int    vx_num(char *buf, double v);
long   vx_objsize(void *p);
#endif
