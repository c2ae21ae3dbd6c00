/* OpenCL C built-ins of the simulated device (included before every kernel source). */
typedef unsigned char uchar;
typedef unsigned short ushort;
typedef unsigned int uint;
typedef unsigned long ulong;
typedef unsigned long size_t;
typedef long ptrdiff_t;
/* vectors may start at any element, as on the devices that split vector accesses */
#define VECS(T) \
 typedef T T##2 __attribute__((ext_vector_type(2), aligned(sizeof(T)))); typedef T T##3 __attribute__((ext_vector_type(3), aligned(sizeof(T)))); \
 typedef T T##4 __attribute__((ext_vector_type(4), aligned(sizeof(T)))); typedef T T##8 __attribute__((ext_vector_type(8), aligned(sizeof(T)))); \
 typedef T T##16 __attribute__((ext_vector_type(16), aligned(sizeof(T))));
VECS(char) VECS(uchar) VECS(short) VECS(ushort) VECS(int) VECS(uint) VECS(long) VECS(ulong) VECS(float) VECS(double)
#define OVL static inline __attribute__((overloadable, always_inline))

size_t simcl_gid(uint d), simcl_gsize(uint d), simcl_goff(uint d);
uint simcl_dim(void);
#define get_global_id(d) simcl_gid(d)
#define get_global_size(d) simcl_gsize(d)
#define get_global_offset(d) simcl_goff(d)
#define get_work_dim() simcl_dim()
#define get_local_id(d) ((size_t)0)
#define get_local_size(d) ((size_t)1)
#define get_group_id(d) simcl_gid(d)
#define get_num_groups(d) simcl_gsize(d)
#define CLK_LOCAL_MEM_FENCE 1
#define CLK_GLOBAL_MEM_FENCE 2
#define barrier(x) ((void)0)
#define mem_fence(x) ((void)0)
#define printf(...) ((void)0)

#define MAXFLOAT 3.402823466e+38f
#define FLT_MAX 3.402823466e+38f
#define FLT_MIN 1.175494351e-38f
#define FLT_EPSILON 1.192092896e-07f
#define INFINITY __builtin_inff()
#define NAN __builtin_nanf("")
#define M_PI_F 3.14159274101257f

float simcl_exp(float), simcl_exp2(float), simcl_log(float), simcl_pow(float, float), simcl_sin(float), simcl_cos(float),
      simcl_tan(float), simcl_atan(float), simcl_atan2(float, float), simcl_acos(float), simcl_asin(float),
      simcl_fmod(float, float);
#define VAPPLY1(F, T, n) OVL T##n F(T##n a) { T##n r; for (int i = 0; i < n; ++i) r[i] = F(a[i]); return r; }
#define VAPPLY2(F, T, n) OVL T##n F(T##n a, T##n b) { T##n r; for (int i = 0; i < n; ++i) r[i] = F(a[i], b[i]); return r; }
#define VAPPLY3(F, T, n) OVL T##n F(T##n a, T##n b, T##n c) { T##n r; for (int i = 0; i < n; ++i) r[i] = F(a[i], b[i], c[i]); return r; }
#define VS(M, F, T) M(F, T, 2) M(F, T, 3) M(F, T, 4) M(F, T, 8) M(F, T, 16)
#define F1(F, E) OVL float F(float a) { return E; } VS(VAPPLY1, F, float)
#define F2(F, E) OVL float F(float a, float b) { return E; } VS(VAPPLY2, F, float)
#define F3(F, E) OVL float F(float a, float b, float c) { return E; } VS(VAPPLY3, F, float)
F1(fabs, __builtin_fabsf(a)) F1(sqrt, __builtin_sqrtf(a)) F1(rsqrt, 1.0f / __builtin_sqrtf(a))
F1(floor, __builtin_floorf(a)) F1(ceil, __builtin_ceilf(a)) F1(round, __builtin_roundf(a)) F1(trunc, __builtin_truncf(a))
F1(rint, __builtin_rintf(a))
F1(exp, simcl_exp(a)) F1(exp2, simcl_exp2(a)) F1(log, simcl_log(a)) F1(sin, simcl_sin(a)) F1(cos, simcl_cos(a))
F1(tan, simcl_tan(a)) F1(atan, simcl_atan(a)) F1(acos, simcl_acos(a)) F1(asin, simcl_asin(a))
F1(native_exp, simcl_exp(a)) F1(half_exp, simcl_exp(a)) F1(native_sqrt, __builtin_sqrtf(a)) F1(half_sqrt, __builtin_sqrtf(a))
F1(native_recip, 1.0f / a)
F2(pow, simcl_pow(a, b)) F2(atan2, simcl_atan2(a, b)) F2(fmod, simcl_fmod(a, b)) F2(native_divide, a / b)
F2(fmax, a > b ? a : (b == b ? b : a)) F2(fmin, a < b ? a : (b == b ? b : a))
F3(mad, a * b + c) F3(fma, __builtin_fmaf(a, b, c)) F3(mix, a + (b - a) * c)
#define ORD(T) OVL T max(T a, T b) { return a < b ? b : a; } OVL T min(T a, T b) { return b < a ? b : a; } \
 OVL T clamp(T a, T l, T h) { return min(max(a, l), h); } \
 VS(VAPPLY2, max, T) VS(VAPPLY2, min, T) VS(VAPPLY3, clamp, T)
ORD(char) ORD(uchar) ORD(short) ORD(ushort) ORD(int) ORD(uint) ORD(long) ORD(ulong) ORD(float)
OVL uint abs(int a) { return a < 0 ? -(uint)a : (uint)a; }
OVL ulong abs(long a) { return a < 0 ? -(ulong)a : (ulong)a; }
OVL ulong abs(ulong a) { return a; }
OVL uint abs(uint a) { return a; }
OVL int isnan(float a) { return a != a; }
OVL int isinf(float a) { return a == INFINITY || a == -INFINITY; }
OVL int isfinite(float a) { return !isnan(a) && !isinf(a); }
OVL int isless(float a, float b) { return a < b; }
OVL int isgreater(float a, float b) { return a > b; }
OVL int isequal(float a, float b) { return a == b; }
#define SELS(T, C) OVL T select(T a, T b, C c) { return c ? b : a; }
SELS(float, int) SELS(float, uint) SELS(int, int) SELS(int, uint) SELS(uint, int) SELS(uint, uint) SELS(long, long)
SELS(long, ulong) SELS(ulong, long) SELS(ulong, ulong) SELS(uchar, char) SELS(uchar, uchar)
#define SELV(T, C, n) OVL T##n select(T##n a, T##n b, C##n c) { T##n r; for (int i = 0; i < n; ++i) r[i] = c[i] < 0 ? b[i] : a[i]; return r; }
#define SELV5(T, C) SELV(T, C, 2) SELV(T, C, 3) SELV(T, C, 4) SELV(T, C, 8) SELV(T, C, 16)
SELV5(float, int) SELV5(int, int) SELV5(uint, int) SELV5(uchar, char) SELV5(char, char) SELV5(long, long) SELV5(ulong, long)
#define VRED(n) OVL float dot(float##n a, float##n b) { float r = 0; for (int i = 0; i < n; ++i) r += a[i] * b[i]; return r; } \
 OVL int any(int##n a) { int r = 0; for (int i = 0; i < n; ++i) r |= a[i] < 0; return r; } \
 OVL int all(int##n a) { int r = 1; for (int i = 0; i < n; ++i) r &= a[i] < 0; return r; }
VRED(2) VRED(3) VRED(4) VRED(8) VRED(16)
OVL float length(float2 a) { return sqrt(dot(a, a)); }
#define CONVS(T) \
 OVL T convert_##T(char a) { return (T)a; } OVL T convert_##T(uchar a) { return (T)a; } OVL T convert_##T(short a) { return (T)a; } \
 OVL T convert_##T(ushort a) { return (T)a; } OVL T convert_##T(int a) { return (T)a; } OVL T convert_##T(uint a) { return (T)a; } \
 OVL T convert_##T(long a) { return (T)a; } OVL T convert_##T(ulong a) { return (T)a; } OVL T convert_##T(float a) { return (T)a; }
CONVS(char) CONVS(uchar) CONVS(short) CONVS(ushort) CONVS(int) CONVS(uint) CONVS(long) CONVS(ulong) CONVS(float)
#define CONVV1(T, S, n) OVL T##n convert_##T##n(S##n a) { return __builtin_convertvector(a, T##n); }
#define CONVV(T, S) CONVV1(T, S, 2) CONVV1(T, S, 3) CONVV1(T, S, 4) CONVV1(T, S, 8) CONVV1(T, S, 16)
CONVV(float, uchar) CONVV(float, ushort) CONVV(float, int) CONVV(float, uint) CONVV(float, long) CONVV(float, ulong)
CONVV(uchar, float) CONVV(uchar, int) CONVV(int, float) CONVV(int, uchar) CONVV(uchar, ushort) CONVV(int, long) CONVV(long, int)
#define VLOAD(T, n) OVL T##n vload##n(size_t o, const __global T *p) { T##n r; for (int i = 0; i < n; ++i) r[i] = p[o * n + i]; return r; } \
 OVL void vstore##n(T##n v, size_t o, __global T *p) { for (int i = 0; i < n; ++i) p[o * n + i] = v[i]; }
VLOAD(float, 2) VLOAD(float, 4) VLOAD(float, 8) VLOAD(float, 16) VLOAD(uchar, 16) VLOAD(ushort, 16)
