/* The simulated OpenCL device: runs the work items of one launch in a seeded order. Every memory access of a kernel
   comes through the hooks below (the kernels are compiled with address-sanitizer callbacks): the runtime knows which
   buffer it belongs to, sees conflicts between work items, and, where two items conflict, runs them as fibers switched
   right before the conflicting accesses. */
#define _GNU_SOURCE
#include <math.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

typedef uint32_t u32;
typedef uint64_t u64;
#define ARENA (32u << 20)
#define GUARD (4ull << 30)
#define NFIB 192
#define STK (96 << 10)

static char *arena;
static u32 *shw, *shr;          /* last writer / reader of every byte (word accesses use the first byte's entry) */
static unsigned char *hot;      /* bytes two items of the launch have conflicted on */
static u64 *lo, *hi;
static int nlive, lastlive;
static u64 gs[3], cur[3];
static u32 dims, me, base = 1;
static int track, fibers;
static u64 rng;
static unsigned char *involved;
static ucontext_t sched, fib[NFIB];
static char *stacks;
static int fibstate[NFIB], curfib;
static u64 fibitem[NFIB];
static jmp_buf wild;

struct stats { u64 items, oob_r, oob_w, conflicts, switches, wilds; long f_off, f_size; u64 f_item; long f_write, f_buf;
               u64 c_a, c_b; long c_off, c_write; u64 involved, accesses; };
static struct stats *st;

static u64 rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

void *clrt_init(void) {
  if (!arena) {
    char *p = mmap(0, 2 * GUARD + ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return 0;
    arena = p + GUARD;
    mprotect(arena, ARENA, PROT_READ | PROT_WRITE);
    int f = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
    shw = mmap(0, 4ull * ARENA, PROT_READ | PROT_WRITE, f, -1, 0);
    shr = mmap(0, 4ull * ARENA, PROT_READ | PROT_WRITE, f, -1, 0);
    hot = mmap(0, ARENA, PROT_READ | PROT_WRITE, f, -1, 0);
    stacks = mmap(0, (u64)NFIB * STK, PROT_READ | PROT_WRITE, f, -1, 0);
  }
  return arena;
}

u64 clrt_size(void) { return ARENA; }

void clrt_live(int n, u64 *a, u64 *b) {
  free(lo); free(hi);
  lo = malloc(8 * n + 8); hi = malloc(8 * n + 8);
  memcpy(lo, a, 8 * n); memcpy(hi, b, 8 * n);
  nlive = n; lastlive = 0;
}

static void hook(const void *p, long n, int w) {
  u64 o = (u64)p - (u64)arena;
  if (o >= ARENA) {
    if ((u64)p - ((u64)arena - GUARD) < 2 * GUARD + ARENA && st) {
      st->wilds++;
      if (!st->f_size) { st->f_off = (long)o; st->f_size = n; st->f_item = me; st->f_write = w; st->f_buf = -1; }
      if (!fibers) longjmp(wild, 1);
      longjmp(wild, 2);
    }
    return;
  }
  if (!st) return;
  st->accesses++;
  int k = lastlive;
  if (!(k < nlive && o >= lo[k] && o + n <= hi[k])) {
    for (k = 0; k < nlive; ++k) if (o >= lo[k] && o + n <= hi[k]) break;
    if (k == nlive) {
      if (w) st->oob_w++; else st->oob_r++;
      if (!st->f_size) {
        int b = -1;
        for (k = 0; k < nlive; ++k) if (o + n > lo[k] && o < hi[k] + 64 && (b < 0 || lo[k] > lo[b])) b = k;
        st->f_off = b < 0 ? (long)o : (long)o - (long)lo[b]; st->f_size = n; st->f_item = me; st->f_write = w; st->f_buf = b;
      }
    } else lastlive = k;
  }
  if (track) {
    u32 id = base + me;
    long step = (n >= 4 && !(o & 3)) ? 4 : 1;
    for (long i = 0; i < n; i += step) {
      u64 q = o + i;
      u32 x = shw[q], y = shr[q], other = 0;
      if (x >= base && x != id) other = x;
      else if (w && y >= base && y != id) other = y;
      if (other) {
        if (!st->conflicts) { st->c_a = other - base; st->c_b = me; st->c_off = (long)q; st->c_write = w; }
        st->conflicts++;
        for (int t = 0; t < step; ++t) hot[q + t] = 1;
        if (involved) { involved[me] = 1; involved[other - base] = 1; }
      }
      if (w) shw[q] = id; else shr[q] = id;
    }
  }
  if (fibers && curfib >= 0) {
    for (long i = 0; i < n; ++i) if (hot[o + i]) {
      if (rnd() & 64) { st->switches++; swapcontext(&fib[curfib], &sched); }
      break;
    }
  }
}

#define H(n) void __asan_load##n##_noabort(void *p) { hook(p, n, 0); } void __asan_store##n##_noabort(void *p) { hook(p, n, 1); }
H(1) H(2) H(4) H(8) H(16)
void __asan_loadN_noabort(void *p, long n) { hook(p, n, 0); }
void __asan_storeN_noabort(void *p, long n) { hook(p, n, 1); }
void *__asan_memcpy(void *d, const void *s, size_t n) { hook(s, n, 0); hook(d, n, 1); return memcpy(d, s, n); }
void *__asan_memset(void *d, int c, size_t n) { hook(d, n, 1); return memset(d, c, n); }
void *__asan_memmove(void *d, const void *s, size_t n) { hook(s, n, 0); hook(d, n, 1); return memmove(d, s, n); }
void __asan_handle_no_return(void) {}
void __asan_init(void) {}
void __asan_version_mismatch_check_v8(void) {}

size_t simcl_gid(u32 d) { return d < 3 ? cur[d] : 0; }
size_t simcl_gsize(u32 d) { return d < 3 ? gs[d] : 1; }
size_t simcl_goff(u32 d) { return 0; }
u32 simcl_dim(void) { return dims; }
float simcl_exp(float a) { return expf(a); } float simcl_exp2(float a) { return exp2f(a); }
float simcl_log(float a) { return logf(a); } float simcl_pow(float a, float b) { return powf(a, b); }
float simcl_sin(float a) { return sinf(a); } float simcl_cos(float a) { return cosf(a); }
float simcl_tan(float a) { return tanf(a); } float simcl_atan(float a) { return atanf(a); }
float simcl_atan2(float a, float b) { return atan2f(a, b); } float simcl_acos(float a) { return acosf(a); }
float simcl_asin(float a) { return asinf(a); } float simcl_fmod(float a, float b) { return fmodf(a, b); }

typedef void (*kern)(long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long,
                     long, long, long, long, float, float, float, float, float, float, float, float);
static kern K;
static long A[20];
static float F[8];

static void item(u64 i) {
  me = (u32)i;
  cur[0] = i % gs[0]; cur[1] = i / gs[0] % gs[1]; cur[2] = i / gs[0] / gs[1];
  K(A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10], A[11], A[12], A[13], A[14], A[15], A[16], A[17],
    A[18], A[19], F[0], F[1], F[2], F[3], F[4], F[5], F[6], F[7]);
}

static void body(void) { item(fibitem[curfib]); fibstate[curfib] = 2; swapcontext(&fib[curfib], &sched); }

static u64 pick(u64 k, u64 n, int order, u64 *perm) {
  if (order == 1) return n - 1 - k;
  if (order == 2) return perm[k];
  return k;
}

/* Run a set of items as fibers. */
static void together(u64 *it, int n) {
  int alive = n;
  for (int k = 0; k < n; ++k) {
    getcontext(&fib[k]);
    fib[k].uc_stack.ss_sp = stacks + (u64)k * STK; fib[k].uc_stack.ss_size = STK; fib[k].uc_link = &sched;
    makecontext(&fib[k], body, 0);
    fibstate[k] = 1; fibitem[k] = it[k];
  }
  while (alive) {
    int k = rnd() % n;
    while (fibstate[k] == 2) k = (k + 1) % n;
    curfib = k;
    u64 i = fibitem[k];
    me = (u32)i;
    cur[0] = i % gs[0]; cur[1] = i / gs[0] % gs[1]; cur[2] = i / gs[0] / gs[1];
    swapcontext(&sched, &fib[k]);
    if (fibstate[k] == 2) alive--;
  }
  curfib = -1;
}

int clrt_launch(void *fn, int ni, long *ints, int nf, float *fl, int nd, u64 *g, int order, int races, u64 seed,
                u64 used, struct stats *out) {
  if (ni > 20 || nf > 8) return 2;
  memset(A, 0, sizeof A); memset(F, 0, sizeof F);
  memcpy(A, ints, 8 * ni); memcpy(F, fl, 4 * nf);
  K = (kern)fn; dims = nd;
  u64 n = 1;
  for (int d = 0; d < 3; ++d) { gs[d] = d < nd ? g[d] : 1; n *= gs[d]; }
  memset(out, 0, sizeof *out);
  st = out; st->items = n;
  rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567; rnd(); rnd();
  fibers = 0; curfib = -1; track = races;
  if (base > 0xf0000000u) { memset(shw, 0, 4ull * ARENA); memset(shr, 0, 4ull * ARENA); base = 1; }
  u64 *perm = 0;
  char *snap = 0;
  involved = 0;
  if (order == 2) {
    perm = malloc(8 * n);
    for (u64 i = 0; i < n; ++i) perm[i] = i;
    for (u64 i = n; i > 1; --i) { u64 j = rnd() % i, t = perm[i - 1]; perm[i - 1] = perm[j]; perm[j] = t; }
  }
  if (races) { snap = malloc(used + 1); memcpy(snap, arena, used); involved = calloc(n + 1, 1); }
  int rc = setjmp(wild);
  if (!rc) {
    for (u64 k = 0; k < n; ++k) item(pick(k, n, order, perm));
    if (races && st->conflicts) {
      track = 0;
      memcpy(arena, snap, used);
      u64 set[NFIB]; int m = 0;
      int first = rnd() & 1;
      if (first) for (u64 k = 0; k < n; ++k) { u64 i = pick(k, n, order, perm); if (!involved[i]) item(i); }
      fibers = 1;
      for (u64 i = 0; i < n; ++i) if (involved[i]) {
        set[m++] = i; st->involved++;
        if (m == NFIB) { together(set, m); m = 0; }
      }
      if (m) together(set, m);
      fibers = 0;
      if (!first) for (u64 k = 0; k < n; ++k) { u64 i = pick(k, n, order, perm); if (!involved[i]) item(i); }
    }
  }
  if (races && st->conflicts) memset(hot, 0, ARENA);
  base += (u32)n + 1;
  fibers = 0; track = 0; curfib = -1;
  free(perm); free(snap); free(involved); involved = 0; st = 0;
  return rc ? 1 : 0;
}
