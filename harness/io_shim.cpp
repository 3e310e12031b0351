// Interposed C library calls (see io_shim.h). Programs are armed through the
// environment: IOF_PATH, IOF_AT, IOF_OPEN, IOF_MMAP; IOF_LOG receives a byte
// per injected error.
#include "io_shim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#undef fopen
#undef fopen64
#undef open
#undef open64
namespace {
char g_path[PATH_MAX]; char g_log[PATH_MAX]; long g_at = -1, g_hits = 0, g_reads = 0; int g_open = 0, g_mmap = 0; bool g_armed = false, g_init = false;
void init() {
  if (g_init) return; g_init = true;
  const char* p = getenv("IOF_PATH"); if (!p) return; const char* v;
  io_fault_set(p, (v = getenv("IOF_AT")) ? atol(v) : -1, (v = getenv("IOF_OPEN")) ? atoi(v) : 0, (v = getenv("IOF_MMAP")) ? atoi(v) : 0);
  if ((v = getenv("IOF_LOG"))) { strncpy(g_log, v, sizeof g_log - 1); }
}
void hit() { g_hits++; if (g_log[0]) { int fd = (int)syscall(SYS_openat, AT_FDCWD, g_log, O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { syscall(SYS_write, fd, "x", 1); syscall(SYS_close, fd); } } }
bool target(int fd) {
  if (!g_armed || fd < 0) return false; char l[64], b[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  long n = syscall(SYS_readlinkat, AT_FDCWD, l, b, sizeof b - 1); if (n <= 0) return false; b[n] = 0; return !strcmp(b, g_path);
}
bool target_name(const char* p) { init(); return g_armed && p && !strcmp(p, g_path); }
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
bool open_fails(const char* p) { if (!target_name(p) || g_open <= 0) return false; if (--g_open == 0) { hit(); errno = EMFILE; return true; } return false; }
}  // namespace
extern "C" {
void io_fault_set(const char* path, long at, int open_n, int mmap_n) { g_init = true; strncpy(g_path, path, sizeof g_path - 1); g_at = at; g_open = open_n; g_mmap = mmap_n; g_hits = g_reads = 0; g_armed = true; }
void io_fault_clear() { g_armed = false; }
long io_fault_hits() { return g_hits; }
long io_fault_reads() { return g_reads; }

ssize_t read(int fd, void* buf, size_t n) {
  static ssize_t (*r)(int, void*, size_t) = nullptr; static thread_local bool busy = false;
  if (!r) { if (busy) return syscall(SYS_read, fd, buf, n); busy = true; r = real<ssize_t (*)(int, void*, size_t)>("read"); busy = false; }
  init();
  if (n && target(fd)) {
    long off = lseek(fd, 0, SEEK_CUR); if (g_at >= 0 && off >= g_at) { hit(); errno = EIO; return -1; }
    if (g_at >= 0 && (long)n > g_at - off) n = g_at - off;
    g_reads++;
  }
  return r(fd, buf, n);
}
size_t fread(void* p, size_t s, size_t c, FILE* f) {
  static size_t (*r)(void*, size_t, size_t, FILE*) = nullptr; if (!r) r = real<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
  init();
  if (g_armed && s && c && target(fileno(f))) {
    long off = ftell(f); g_reads++;
    if (g_at >= 0 && off + (long)(s * c) > g_at) {
      // what a C library does when the device fails: the bytes before the fault, then the error flag
      fseek(f, 0, SEEK_END); long end = ftell(f); fseek(f, off, SEEK_SET);
      size_t k = g_at > off ? (g_at - off) / s : 0; size_t got = k ? r(p, s, k, f) : 0;
      (void)end; hit(); f->_flags |= 0x20; errno = EIO; return got;
    }
  }
  return r(p, s, c, f);
}
FILE* fopen(const char* p, const char* m) { static FILE* (*r)(const char*, const char*) = nullptr; if (!r) r = real<FILE* (*)(const char*, const char*)>("fopen"); if (open_fails(p)) return nullptr; return r(p, m); }
FILE* fopen64(const char* p, const char* m) { static FILE* (*r)(const char*, const char*) = nullptr; if (!r) r = real<FILE* (*)(const char*, const char*)>("fopen64"); if (open_fails(p)) return nullptr; return r(p, m); }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); static int (*r)(const char*, int, ...) = nullptr; if (!r) r = real<int (*)(const char*, int, ...)>("open"); if (open_fails(p)) return -1; return r(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); static int (*r)(const char*, int, ...) = nullptr; if (!r) r = real<int (*)(const char*, int, ...)>("open64"); if (open_fails(p)) return -1; return r(p, fl, m); }
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off64_t off) {
  static void* (*r)(void*, size_t, int, int, int, off64_t) = nullptr; if (!r) r = real<void* (*)(void*, size_t, int, int, int, off64_t)>("mmap64");
  if (g_armed && g_mmap > 0 && target(fd) && --g_mmap == 0) { hit(); errno = ENOMEM; return MAP_FAILED; }
  if (!r) return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, off);
  return r(a, n, pr, fl, fd, off);
}
}
