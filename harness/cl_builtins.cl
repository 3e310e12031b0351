// Built-in functions of OpenCL C for kernels that run on the CPU stand-in.
#define O __attribute__((overloadable))
size_t cl_gid(uint d); size_t cl_gsz(uint d);
size_t O get_global_id(uint d) { return cl_gid(d); }
size_t O get_global_size(uint d) { return cl_gsz(d); }
size_t O get_global_offset(uint d) { return 0; }
size_t O get_local_id(uint d) { return 0; }
size_t O get_local_size(uint d) { return 1; }
size_t O get_group_id(uint d) { return cl_gid(d); }
size_t O get_num_groups(uint d) { return cl_gsz(d); }
uint O get_work_dim(void) { return 3; }
#define F1(n) float O n(float x) { return __builtin_##n##f(x); }
F1(tanh) F1(exp) F1(exp2) F1(log) F1(log2) F1(log10) F1(sqrt) F1(fabs) F1(floor) F1(ceil) F1(rint) F1(round) F1(trunc) F1(sin) F1(cos) F1(tan) F1(sinh) F1(cosh) F1(atan) F1(expm1) F1(log1p)
#define F2(n) float O n(float x, float y) { return __builtin_##n##f(x, y); }
F2(pow) F2(fmod) F2(fmin) F2(fmax) F2(atan2) F2(hypot)
#define D1(n) double O n(double x) { return __builtin_##n(x); }
D1(tanh) D1(exp) D1(log) D1(sqrt) D1(fabs) D1(floor) D1(ceil)
double O pow(double x, double y) { return __builtin_pow(x, y); }
double O fmin(double x, double y) { return __builtin_fmin(x, y); }
double O fmax(double x, double y) { return __builtin_fmax(x, y); }
float O native_exp(float x) { return __builtin_expf(x); }
float O native_recip(float x) { return 1.0f / x; }
float O native_divide(float x, float y) { return x / y; }
float O native_sqrt(float x) { return __builtin_sqrtf(x); }
float O rsqrt(float x) { return 1.0f / __builtin_sqrtf(x); }
float O native_rsqrt(float x) { return 1.0f / __builtin_sqrtf(x); }
float O native_tanh(float x) { return __builtin_tanhf(x); }
float O mad(float a, float b, float c) { return a * b + c; }
float O fma(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
float O sign(float x) { return x > 0 ? 1.0f : x < 0 ? -1.0f : x; }
#define MM(t) t O min(t a, t b) { return b < a ? b : a; } t O max(t a, t b) { return a < b ? b : a; } t O clamp(t x, t lo, t hi) { return min(max(x, lo), hi); }
MM(int) MM(uint) MM(long) MM(ulong) MM(float) MM(double)
uint O abs(int x) { return x < 0 ? -(uint)x : (uint)x; }
uint O abs_diff(uint x, uint y) { return x < y ? y - x : x - y; }
int O mul24(int a, int b) { return a * b; }
uint O mul24(uint a, uint b) { return a * b; }
int O mad24(int a, int b, int c) { return a * b + c; }
uint O mad24(uint a, uint b, uint c) { return a * b + c; }
float O mix(float a, float b, float t) { return a + (b - a) * t; }
float O step(float e, float x) { return x < e ? 0.0f : 1.0f; }
float O dot(float a, float b) { return a * b; }
float O dot(float2 a, float2 b) { return a.x * b.x + a.y * b.y; }
float O dot(float3 a, float3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
float O dot(float4 a, float4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
float2 O vload2(size_t o, const __global float* p) { return (float2)(p[2 * o], p[2 * o + 1]); }
float3 O vload3(size_t o, const __global float* p) { return (float3)(p[3 * o], p[3 * o + 1], p[3 * o + 2]); }
float4 O vload4(size_t o, const __global float* p) { return (float4)(p[4 * o], p[4 * o + 1], p[4 * o + 2], p[4 * o + 3]); }
void O vstore2(float2 v, size_t o, __global float* p) { p[2 * o] = v.x; p[2 * o + 1] = v.y; }
void O vstore4(float4 v, size_t o, __global float* p) { p[4 * o] = v.x; p[4 * o + 1] = v.y; p[4 * o + 2] = v.z; p[4 * o + 3] = v.w; }
int O isnan(float x) { return x != x; }
int O isinf(float x) { return __builtin_isinf(x); }
