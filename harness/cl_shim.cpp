// OpenCL stand-in: the host API the repository uses, executing its kernels
// (compiled from kernels/*.cl by clang, with AddressSanitizer) on the CPU.  Device
// buffers are separate allocations, so any access outside of one is reported;
// fresh buffers hold NaN; commands are queued and run later, at the latest when the
// host waits; work items run in random order, twice in two orders whose results
// have to agree (otherwise items race).
#include "cl_shim.h"
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <vector>
#include "cl_table.h"

void (*cl_report)(const std::string&, const std::string&) = nullptr;
static ClStats S; ClStats& cl_stats() { return S; }
static uint64_t seed_ = 1; static uint64_t rnd() { seed_ += 0x9E3779B97F4A7C15ull; uint64_t z = seed_; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void cl_reseed(uint64_t s) { seed_ = s; }
static int64_t fail_in = 0; static int fail_code = 0; static bool failed_ = false, lost_ = false;
void cl_fail_in(int64_t n, int code, bool lost) { fail_in = n; fail_code = code; failed_ = false; lost_ = lost; }
bool cl_failed() { return failed_; }
static uint64_t calls_ = 0; uint64_t cl_calls() { return calls_; }
static bool inject(cl_int* e) { calls_++; if (failed_ && lost_ && fail_in == 0 && fail_code) { if (e) *e = fail_code; return true; } if (fail_in > 0 && --fail_in == 0) { failed_ = true; if (e) *e = fail_code; return true; } return false; }
static void report(const std::string& sig, const std::string& m) { S.refused++; if (cl_report) cl_report(sig, m); else { fprintf(stderr, "OpenCL misuse: %s: %s\n", sig.c_str(), m.c_str()); abort(); } }

struct ClBuf { char* p; size_t n; ~ClBuf() { free(p); } };
typedef std::shared_ptr<ClBuf> B;
struct _cl_mem { B b; int refs = 1; bool dead = false; };
struct _cl_program { std::string src; const ClProgram* p = nullptr; bool built = false; std::string log; };
struct _cl_kernel { const ClKernel* k; std::vector<std::string> raw; std::vector<B> buf; std::vector<char> set; };
struct _cl_platform_id { int x; }; struct _cl_device_id { int x; }; struct _cl_context { int x; }; struct _cl_command_queue { int x; };
static _cl_platform_id PLAT[4]; static _cl_device_id DEV[4][4]; static int np_ = 1, nd_ = 1, cp_ = -1, cd_ = -1;
void cl_devices(int platforms, int devices) { np_ = platforms; nd_ = devices; cp_ = cd_ = -1; }
void cl_chosen(int& p, int& d) { p = cp_; d = cd_; }
static bool find(const _cl_device_id* q, int& p, int& d) { for (p = 0; p < np_; p++) for (d = 0; d < nd_; d++) if (q == &DEV[p][d]) return true; return false; }
static _cl_context CTX; static _cl_command_queue QUEUE;
// released handles stay recognisable: the one released longest ago, of 4096 or more, is used for a new buffer
static _cl_mem** ring = nullptr; static size_t head = 0, dead_ = 0; static const size_t RING = 1 << 17;
static void bury(_cl_mem* m) { ring[(head + dead_++) % RING] = m; }
static _cl_mem* handle() {
  if (!ring) { ring = new _cl_mem*[RING]; for (int i = 0; i < 4096; i++) { auto* m = new _cl_mem; m->dead = true; bury(m); } }
  if (!dead_) return new _cl_mem; _cl_mem* m = ring[head]; head = (head + 1) % RING; dead_--; m->dead = false; m->refs = 1; return m; }
static std::vector<_cl_program*>& programs() { static auto* g = new std::vector<_cl_program*>; return *g; }
static std::deque<std::function<void()>>& queue() { static auto* q = new std::deque<std::function<void()>>; return *q; }
static void flush() { while (!queue().empty()) { auto f = queue().front(); queue().pop_front(); f(); } }

thread_local static size_t gid[3], gsz[3];
extern "C" size_t cl_gid(unsigned d) { return d < 3 ? gid[d] : 0; }
extern "C" size_t cl_gsz(unsigned d) { return d < 3 ? gsz[d] : 1; }

static void items(const ClKernel* k, void** args, std::vector<size_t>& order) {
  for (size_t q : order) { gid[0] = q % gsz[0]; gid[1] = q / gsz[0] % gsz[1]; gid[2] = q / (gsz[0] * gsz[1]); k->call(args); }
}
static void launch(const ClKernel* k, std::vector<std::string> raw, std::vector<B> buf, std::vector<size_t> g) {
  for (int d = 0; d < 3; d++) gsz[d] = d < (int)g.size() ? g[d] : 1;
  size_t n = gsz[0] * gsz[1] * gsz[2]; std::vector<size_t> order(n); for (size_t i = 0; i < n; i++) order[i] = i;
  std::vector<void*> args(raw.size()); std::vector<char*> ptr(raw.size());
  for (size_t i = 0; i < raw.size(); i++) { if (buf[i]) { ptr[i] = buf[i]->p; args[i] = &ptr[i]; } else args[i] = &raw[i][0]; }
  auto shuffle = [&] { switch (rnd() % 3) { case 0: break; case 1: std::reverse(order.begin(), order.end()); break; default: for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[rnd() % i]); } };
  std::vector<std::string> before; bool twice = rnd() % 3 == 0 && n > 1;
  if (twice) for (auto& b : buf) before.push_back(b ? std::string(b->p, b->n) : "");
  shuffle(); items(k, args.data(), order);
  if (twice) {
    std::vector<std::string> after; for (auto& b : buf) after.push_back(b ? std::string(b->p, b->n) : "");
    for (size_t i = 0; i < buf.size(); i++) if (buf[i]) memcpy(buf[i]->p, before[i].data(), buf[i]->n);
    auto o = order; do { shuffle(); if (order == o) std::reverse(order.begin(), order.end()); } while (order == o);
    items(k, args.data(), order);
    for (size_t i = 0; i < buf.size(); i++) if (buf[i] && memcmp(buf[i]->p, after[i].data(), buf[i]->n)) { report(std::string("order:") + k->name, std::string("kernel ") + k->name + ": the result depends on the order of the work items"); break; }
    S.kernels["launches compared in two orders"]++;
  }
  S.items += n; S.kernels[k->name]++;
}

#define WL if ((ne != 0) != (ev != nullptr)) return CL_INVALID_EVENT_WAIT_LIST
extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* c) { if (c) *c = np_; if (p) for (cl_uint i = 0; i < n && (int)i < np_; i++) p[i] = &PLAT[i]; return np_ ? CL_SUCCESS : -1001; }
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type, cl_uint n, cl_device_id* d, cl_uint* c) {
  if (p < PLAT || p >= PLAT + np_) { report("platform", "an invalid platform is asked for its devices"); return CL_INVALID_PLATFORM; }
  if (c) *c = nd_; if (d) for (cl_uint i = 0; i < n && (int)i < nd_; i++) d[i] = &DEV[p - PLAT][i]; return nd_ ? CL_SUCCESS : CL_DEVICE_NOT_FOUND; }
cl_int clGetDeviceInfo(cl_device_id dv, cl_device_info w, size_t n, void* v, size_t* r) {
  int a, b; if (!find(dv, a, b)) { report("device", "an invalid device is asked for its properties"); return CL_INVALID_DEVICE; }
  if (w == CL_DEVICE_NAME || w == CL_DEVICE_VERSION) { std::string s = w == CL_DEVICE_NAME ? "monitored CPU stand-in" : "OpenCL 1.2 stand-in"; if (v) { if (n < s.size() + 1) return CL_INVALID_VALUE; memcpy(v, s.c_str(), s.size() + 1); } if (r) *r = s.size() + 1; return CL_SUCCESS; }
  if (v) { if (n < 4) return CL_INVALID_VALUE; memset(v, 0, 4); } if (r) *r = 4; return CL_SUCCESS;
}
cl_context clCreateContext(const cl_context_properties* pr, cl_uint n, const cl_device_id* d, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* e) { if (e) *e = CL_SUCCESS; if (inject(e)) return nullptr; int a, b; if (n != 1 || !find(d[0], a, b) || !pr || pr[0] != CL_CONTEXT_PLATFORM || (cl_platform_id)pr[1] != &PLAT[a]) { if (e) *e = CL_INVALID_DEVICE; return nullptr; } if (pr[2]) { if (e) *e = CL_INVALID_PROPERTY; return nullptr; } cp_ = a; cd_ = b; return &CTX; }
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties, cl_int* e) { if (e) *e = CL_SUCCESS; if (inject(e)) return nullptr; if (c != &CTX || cp_ < 0 || d != &DEV[cp_][cd_]) { if (e) *e = CL_INVALID_CONTEXT; return nullptr; } return &QUEUE; }
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char** s, const size_t* len, cl_int* e) {
  if (e) *e = CL_SUCCESS; if (inject(e)) return nullptr;
  if (c != &CTX || !n) { if (e) *e = CL_INVALID_VALUE; return nullptr; }
  auto* p = new _cl_program; programs().push_back(p); for (cl_uint i = 0; i < n; i++) p->src += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]); return p;
}
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id*, const char*, void (CL_CALLBACK*)(cl_program, void*), void*) {
  cl_int e; if (inject(&e)) { p->log = "injected"; return e; }
  for (const ClProgram* q = cl_programs; q->src; q++) if (p->src == q->src) { p->p = q; if (q->error) { p->log = q->error; report(std::string("kernel-source:") + q->file, std::string("the OpenCL compiler refuses ") + q->file + ": " + q->error); return CL_BUILD_PROGRAM_FAILURE; } p->built = true; return CL_SUCCESS; }
  p->log = "source text not among the repository's kernels"; report("kernel-unknown", p->log); return CL_BUILD_PROGRAM_FAILURE;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info, size_t n, void* v, size_t* r) { if (v && n) { size_t k = std::min(n - 1, p->log.size()); memcpy(v, p->log.data(), k); ((char*)v)[k] = 0; } if (r) *r = p->log.size() + 1; return CL_SUCCESS; }
cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* e) {
  if (e) *e = CL_SUCCESS; if (inject(e)) return nullptr;
  if (!p || !p->built) { if (e) *e = CL_INVALID_PROGRAM_EXECUTABLE; return nullptr; }
  for (const ClKernel* k = p->p->kernels; k->name; k++) if (!strcmp(k->name, name)) { auto* q = new _cl_kernel; q->k = k; size_t n = strlen(k->args); q->raw.resize(n); q->buf.resize(n); q->set.assign(n, 0); return q; }
  if (e) *e = CL_INVALID_KERNEL_NAME; return nullptr;
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void* v) {
  cl_int e; if (inject(&e)) return e;
  if (!k) return CL_INVALID_KERNEL; if (i >= k->raw.size()) { S.refused++; return CL_INVALID_ARG_INDEX; }
  char t = k->k->args[i]; size_t want = t == 'p' ? sizeof(cl_mem) : t == 'l' || t == 'd' ? 8 : 4;
  if (n != want) { S.refused++; return CL_INVALID_ARG_SIZE; } if (!v) return CL_INVALID_ARG_VALUE;
  k->buf[i].reset();
  if (t == 'p') {
    cl_mem m = *(cl_mem*)v;
    if (m && m->dead) { report("released-buffer", std::string("argument ") + std::to_string(i) + " of kernel " + k->k->name + " is a released buffer"); return CL_INVALID_MEM_OBJECT; }
    if (m) k->buf[i] = m->b; k->raw[i].assign(8, 0);
  } else k->raw[i].assign((const char*)v, n);
  k->set[i] = 1; return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t* off, const size_t* g, const size_t* loc, cl_uint ne, const cl_event* ev, cl_event*) {
  cl_int e; if (inject(&e)) return e; WL;
  if (off) for (cl_uint i = 0; i < dim && i < 3; i++) if (off[i]) return CL_INVALID_GLOBAL_OFFSET; // offsets are not simulated: report them
  if (loc) for (cl_uint i = 0; i < dim && i < 3; i++) if (!loc[i] || g[i] % loc[i]) return CL_INVALID_WORK_GROUP_SIZE;
  if (q != &QUEUE) return CL_INVALID_COMMAND_QUEUE; if (!k) return CL_INVALID_KERNEL; if (dim < 1 || dim > 3) return CL_INVALID_WORK_DIMENSION;
  for (char s : k->set) if (!s) return CL_INVALID_KERNEL_ARGS;
  std::vector<size_t> gs(g, g + dim); for (size_t x : gs) if (!x) return CL_INVALID_GLOBAL_WORK_SIZE;
  for (size_t i = 0; i < k->raw.size(); i++) if (k->k->args[i] == 'p' && !k->buf[i]) { report("null-buffer", std::string("kernel ") + k->k->name + " is started with a null buffer as argument " + std::to_string(i)); return CL_INVALID_KERNEL_ARGS; }
  const ClKernel* c = k->k; auto raw = k->raw; auto buf = k->buf; queue().push_back([=] { launch(c, raw, buf, gs); });
  S.launches++; if (rnd() % 3 == 0) flush(); else S.deferred++; return CL_SUCCESS;
}
cl_mem clCreateBuffer(cl_context c, cl_mem_flags, size_t n, void*, cl_int* e) {
  if (e) *e = CL_SUCCESS; if (inject(e)) return nullptr;
  if (c != &CTX) { if (e) *e = CL_INVALID_CONTEXT; return nullptr; } if (!n) { if (e) *e = CL_INVALID_BUFFER_SIZE; return nullptr; }
  auto* m = handle(); m->b = std::make_shared<ClBuf>(); m->b->p = (char*)malloc(n); m->b->n = n; for (size_t i = 0; i + 4 <= n; i += 4) { uint32_t u = 0x7fc0dead; memcpy(m->b->p + i, &u, 4); } S.created++; S.live++; return m;
}
cl_int clRetainMemObject(cl_mem m) { if (!m || m->dead) return CL_INVALID_MEM_OBJECT; m->refs++; return CL_SUCCESS; }
cl_int clReleaseMemObject(cl_mem m) {
  if (!m) return CL_INVALID_MEM_OBJECT; if (m->dead) { report("double-release", "a buffer is released twice"); return CL_INVALID_MEM_OBJECT; }
  if (--m->refs == 0) { m->dead = true; m->b.reset(); S.released++; S.live--; bury(m); }
  return CL_SUCCESS;
}
static cl_int transfer(bool write, cl_command_queue q, cl_mem m, cl_bool blocking, size_t off, size_t n, void* p) {
  cl_int e; if (inject(&e)) return e;
  if (q != &QUEUE) return CL_INVALID_COMMAND_QUEUE; if (!m) return CL_INVALID_MEM_OBJECT;
  if (m->dead) { report("released-buffer", "transfer with a released buffer"); return CL_INVALID_MEM_OBJECT; }
  if (!p || !n || off + n > m->b->n || off + n < off) return CL_INVALID_VALUE;
  B b = m->b; queue().push_back([=] { if (write) memcpy(b->p + off, p, n); else memcpy(p, b->p + off, n); });
  (write ? S.writes : S.reads)++; if (blocking || rnd() % 3 == 0) flush(); return CL_SUCCESS;
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t off, size_t n, void* p, cl_uint ne, const cl_event* ev, cl_event*) { WL; return transfer(false, q, m, b, off, n, p); }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t off, size_t n, const void* p, cl_uint ne, const cl_event* ev, cl_event*) { WL; return transfer(true, q, m, b, off, n, (void*)p); }
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem s, cl_mem d, size_t so, size_t to, size_t n, cl_uint ne, const cl_event* ev, cl_event*) {
  WL; cl_int e; if (inject(&e)) return e; if (q != &QUEUE) return CL_INVALID_COMMAND_QUEUE; if (!s || !d || s->dead || d->dead) return CL_INVALID_MEM_OBJECT; if (so + n > s->b->n || to + n > d->b->n) return CL_INVALID_VALUE;
  B a = s->b, b = d->b; queue().push_back([=] { memmove(b->p + to, a->p + so, n); }); return CL_SUCCESS; }
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem d, const void* v, size_t vn, size_t off, size_t n, cl_uint ne, const cl_event* ev, cl_event*) {
  WL; cl_int e; if (inject(&e)) return e; if (q != &QUEUE) return CL_INVALID_COMMAND_QUEUE; if (!d || d->dead) return CL_INVALID_MEM_OBJECT; if (!vn || n % vn || off + n > d->b->n) return CL_INVALID_VALUE;
  std::string val((const char*)v, vn); B b = d->b; queue().push_back([=] { for (size_t i = 0; i < n; i += val.size()) memcpy(b->p + off + i, val.data(), val.size()); }); return CL_SUCCESS; }
cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }
cl_int clFinish(cl_command_queue q) { cl_int e; if (inject(&e)) return e; if (q != &QUEUE) return CL_INVALID_COMMAND_QUEUE; flush(); return CL_SUCCESS; }
cl_int clWaitForEvents(cl_uint, const cl_event*) { flush(); return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }
cl_int clReleaseKernel(cl_kernel k) { delete k; return CL_SUCCESS; }
cl_int clReleaseProgram(cl_program) { return CL_SUCCESS; }
cl_int clReleaseCommandQueue(cl_command_queue) { flush(); return CL_SUCCESS; }
cl_int clReleaseContext(cl_context) { return CL_SUCCESS; }
}
