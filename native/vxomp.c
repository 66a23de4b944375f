/* Teams of threads for replay: every thread of a region runs in turn on a stack of its own; the accesses that the thread
   sanitizer's instrumentation reports are logged, and accesses that no lock or barrier orders are reported as a race.
   Mirrors engine/omp.py. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#ifndef VXTEAM
#define VXTEAM 3
#endif
static int team = VXTEAM, pushed, in, tid, nth, phase, lock, flushed, nested;
static char *stk; static size_t SS = 4u << 20;
typedef struct { uintptr_t a; int ph, s[4], same, last; uint64_t v; } rec;
static rec *tab; static size_t cap, cnt; static void *pc_of;
void *__real_free(void *);
void __wrap_free(void *p) { if (!in) __real_free(p); }
static rec *find(uintptr_t a, int ph) {
  if (cnt*2 >= cap) { size_t oc = cap; rec *o = tab; cap = cap ? cap*2 : 1 << 16; tab = mmap(0, cap*sizeof(rec), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); for (size_t i = 0; i < oc; i++) if (o[i].a) { size_t h = (o[i].a*2654435761u + o[i].ph) & (cap-1); while (tab[h].a) h = (h+1) & (cap-1); tab[h] = o[i]; } if (o) munmap(o, oc*sizeof(rec)); }
  size_t h = (a*2654435761u + ph) & (cap-1); while (tab[h].a && !(tab[h].a == a && tab[h].ph == ph)) h = (h+1) & (cap-1);
  if (!tab[h].a) { tab[h].a = a; tab[h].ph = ph; for (int i = 0; i < 4; i++) tab[h].s[i] = -1; tab[h].same = 1; tab[h].last = -1; cnt++; } return &tab[h];
}
static uintptr_t pa; static int pn, pph, ptid;   /* the value of a write is known once the store has been made */
static void settle(void) { if (!pa) return; rec *r = find(pa, pph); uint64_t v = 0; memcpy(&v, (void*)pa, pn > 8 ? 8 : pn); if (r->s[1] == -1) { r->s[1] = ptid; r->v = v; } else { if (r->s[1] != ptid) r->s[1] = -2; if (v != r->v) r->same = 0; } r->last = ptid; pa = 0; }
static void acc(void *p, int n, int w) { if (!in) return; settle(); uintptr_t a = (uintptr_t)p; if (stk && a >= (uintptr_t)stk && a < (uintptr_t)(stk + SS*1024)) return; if (w && !lock) { pa = a; pn = n; pph = phase; ptid = tid; return; } rec *r = find(a, phase); if (!w && !lock && r->last == tid) return; int i = w + (lock ? 2 : 0); if (r->s[i] == -1) r->s[i] = tid; else if (r->s[i] != tid) r->s[i] = -2; }
#define T(n) void __tsan_read##n(void *p) { acc(p, n, 0); } void __tsan_write##n(void *p) { acc(p, n, 1); } void __tsan_read_write##n(void *p) { acc(p, n, 0); acc(p, n, 1); } void __tsan_unaligned_read##n(void *p) { acc(p, n, 0); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); } void __tsan_volatile_read##n(void *p) { acc(p, n, 0); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1); }
T(1) T(2) T(4) T(8) T(16)
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {} void __tsan_vptr_update(void **a, void *b) {} void __tsan_vptr_read(void **a) {}
static void rng(void *p, size_t n, int w) { if (in) for (size_t i = 0; i < n; i += 4) acc((char*)p + i, 4, w); }
void __tsan_read_range(void *p, size_t n) { rng(p, n, 0); } void __tsan_write_range(void *p, size_t n) { rng(p, n, 1); }
void *__tsan_memcpy(void *d, void *s, size_t n) { memcpy(d, s, n); rng(s, n, 0); rng(d, n, 1); return d; }
void *__tsan_memmove(void *d, void *s, size_t n) { memmove(d, s, n); rng(s, n, 0); rng(d, n, 1); return d; }
void *__tsan_memset(void *d, int c, size_t n) { memset(d, c, n); rng(d, n, 1); return d; }
#define AT(bits, ty) ty __tsan_atomic##bits##_load(const volatile ty *p, int m) { lock++; acc((void*)p, 8, 0); lock--; return *p; } void __tsan_atomic##bits##_store(volatile ty *p, ty v, int m) { lock++; acc((void*)p, 8, 1); lock--; *p = v; } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int m) { lock++; acc((void*)p, 8, 0); acc((void*)p, 8, 1); lock--; ty o = *p; *p = o + v; return o; } ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int m) { lock++; acc((void*)p, 8, 0); acc((void*)p, 8, 1); lock--; ty o = *p; *p = o - v; return o; } ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int m) { lock++; acc((void*)p, 8, 1); lock--; ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int m, int f) { lock++; acc((void*)p, 8, 0); acc((void*)p, 8, 1); lock--; ty o = *p; if (o == c) *p = v; return o; }
AT(32, int32_t) AT(64, int64_t)
void __tsan_atomic_thread_fence(int m) {} void __tsan_atomic_signal_fence(int m) {}
static ucontext_t back, self; static void (*body)(); static void *arg[64]; static int nargs, tids[1024];
static void tramp(void) { int *t = &tids[tid];
  void **a = arg; typedef void (*F)(void*, ...);
  switch ((nargs + 7)/8) { case 0: case 1: ((F)body)(t, t, a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]); break; case 2: ((F)body)(t, t, a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15]); break;
  case 3: ((F)body)(t, t, a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],a[20],a[21],a[22],a[23]); break;
  default: ((F)body)(t, t, a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],a[20],a[21],a[22],a[23],a[24],a[25],a[26],a[27],a[28],a[29],a[30],a[31],a[32],a[33],a[34],a[35],a[36],a[37],a[38],a[39],a[40],a[41],a[42],a[43],a[44],a[45],a[46],a[47],a[48],a[49],a[50],a[51],a[52],a[53],a[54],a[55],a[56],a[57],a[58],a[59],a[60],a[61],a[62],a[63]); }
  swapcontext(&self, &back); }
void __kmpc_fork_call(void *loc, int n, void (*f)(), ...) {
  va_list ap; va_start(ap, f); void *b[64]; for (int i = 0; i < n && i < 64; i++) b[i] = va_arg(ap, void*); va_end(ap);
  int sn = nargs; void (*sb)() = body; void *sa[64]; memcpy(sa, arg, sizeof arg); memcpy(arg, b, sizeof b); nargs = n; body = f;
  if (in) { int k = nested; nested = 1; int z = 0; void **a = arg; ((void(*)(void*, ...))f)(&z, &z, a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],a[20],a[21],a[22],a[23],a[24],a[25],a[26],a[27],a[28],a[29],a[30],a[31]); nested = k; memcpy(arg, sa, sizeof sa); nargs = sn; body = sb; return; }
  if (!stk) stk = mmap(0, SS*1024, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  nth = pushed ? pushed : team; pushed = 0; flushed = 0; cnt = 0; if (tab) memset(tab, 0, cap*sizeof(rec));
  for (tid = 0; tid < nth; tid++) { phase = lock = 0; tids[tid] = tid; getcontext(&self); self.uc_stack.ss_sp = stk + SS*tid; self.uc_stack.ss_size = SS; self.uc_link = &back; makecontext(&self, tramp, 0); in = 1; swapcontext(&back, &self); settle(); in = 0; }
  tid = 0;
  for (size_t i = 0; i < cap && tab; i++) if (tab[i].a) { int *s = tab[i].s, rp = s[0], wp = s[1], wc = s[3], bad = 0; if (wp == -2 && tab[i].same && rp == -1 && s[2] == -1 && wc == -1) continue; if (wp == -1 && (wc == -1 || rp == -1)) continue; if (wp == -1) { if (flushed || (wc >= 0 && rp == wc)) continue; bad = 1; } else if (wp < 0) bad = 1; else for (int k = 0; k < 4; k++) if (s[k] != -1 && s[k] != wp) bad = 1;
    if (bad) { printf("\nVXFAIL data race between threads of a team | %d vs %d\n", s[0], s[1]); fflush(stdout); _exit(66); } }
  nargs = sn; body = sb;
}
int omp_get_thread_num(void) { return in && !nested ? tid : 0; } int omp_get_num_threads(void) { return in && !nested ? nth : 1; } int omp_get_max_threads(void) { return team; } int omp_get_num_procs(void) { return team; } void omp_set_num_threads(int n) { team = n; } int omp_in_parallel(void) { return in; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
int __kmpc_global_thread_num(void *l) { return omp_get_thread_num(); } void __kmpc_push_num_threads(void *l, int g, int n) { pushed = n; }
static void part(long lo, long up, long inc, long *l, long *u, int *last) { long n = omp_get_num_threads(), t = omp_get_thread_num(), trip = (up - lo)*inc >= 0 ? (up - lo)/inc + 1 : 0; *last = 0; if (trip <= 0) { *l = lo; *u = lo - inc; return; } long q = trip/n, e = trip%n, b = t*q + (t < e ? t : e), c = q + (t < e); if (!c) { *l = up + inc; *u = up; return; } *l = lo + b*inc; *u = lo + (b + c - 1)*inc; *last = b + c == trip; }
#define SI(nm, ty) void nm(void *loc, int g, int sched, int *pl, ty *lo, ty *up, ty *st, ty inc, ty ch) { long l, u; int last; long a = *lo, b = *up; part(a, b, inc, &l, &u, &last); *lo = l; *up = u; *st = ((b > a ? b - a : a - b) + 1)*(omp_get_num_threads() + 1); *pl = last; }
SI(__kmpc_for_static_init_4, int) SI(__kmpc_for_static_init_4u, int) SI(__kmpc_for_static_init_8, long) SI(__kmpc_for_static_init_8u, long)
void __kmpc_for_static_fini(void *l, int g) {} void __kmpc_serialized_parallel(void *l, int g) {} void __kmpc_end_serialized_parallel(void *l, int g) {}
static long dl, du, dinc; static int dlast, dhave;
#define DI(nm, ty) void nm(void *l, int g, int s, ty lb, ty ub, ty inc, ty ch) { part(lb, ub, inc, &dl, &du, &dlast); dinc = inc; dhave = 1; }
DI(__kmpc_dispatch_init_4, int) DI(__kmpc_dispatch_init_4u, int) DI(__kmpc_dispatch_init_8, long)
#define DN(nm, ty) int nm(void *l, int g, int *pl, ty *lo, ty *up, ty *st) { if (!dhave || (du - dl)*dinc < 0) return 0; *lo = dl; *up = du; *st = dinc; *pl = dlast; dhave = 0; return 1; }
DN(__kmpc_dispatch_next_4, int) DN(__kmpc_dispatch_next_4u, int) DN(__kmpc_dispatch_next_8, long)
void __kmpc_barrier(void *l, int g) { if (in && !nested) phase++; }
void __kmpc_critical(void *l, int g, void *k) { lock++; } void __kmpc_end_critical(void *l, int g, void *k) { lock--; }
int __kmpc_reduce_nowait(void *l, int g, int n, size_t s, void *d, void *f, void *k) { lock++; return 1; } void __kmpc_end_reduce_nowait(void *l, int g, void *k) { lock--; }
int __kmpc_reduce(void *l, int g, int n, size_t s, void *d, void *f, void *k) { lock++; return 1; } void __kmpc_end_reduce(void *l, int g, void *k) { lock--; }
void __kmpc_flush(void *l) { flushed = 1; } int __kmpc_master(void *l, int g) { return omp_get_thread_num() == 0; } void __kmpc_end_master(void *l, int g) {} int __kmpc_single(void *l, int g) { return omp_get_thread_num() == 0; } void __kmpc_end_single(void *l, int g) {}
