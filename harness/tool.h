// Runs one of the repository's command line programs (built with the same
// instrumentation; the path arrives in TOOL_<name>) and captures its output.
#pragma once
#include "vh.h"
#include <fcntl.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
extern char** environ;
namespace tl {
struct Res { int rc; std::string out; bool sanitizer; };
inline std::string slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
inline bool exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
// exit code, 1000 + signal if killed, 2000 if it had to be stopped after `limit` seconds
inline Res run(const char* name, const std::vector<std::string>& args, const std::string& in = "", const std::string& cwd = "", int limit = 60, long room = -1, const std::vector<std::string>& more_env = {}) {   // room: bytes the storage takes per file (output then goes through a pipe)
  const char* exe = getenv((std::string("TOOL_") + name).c_str()); if (!exe) { vh::fail("no-tool", name); return {-1, "", false}; }
  std::string o = vh::G().scratch + "/tool.out", i = vh::G().scratch + "/tool.in";
  { FILE* f = fopen(i.c_str(), "wb"); fwrite(in.data(), 1, in.size(), f); fclose(f); }
  std::vector<char*> a{(char*)exe}; for (auto& s : args) a.push_back((char*)s.c_str()); a.push_back(nullptr);
  // an uncaught error ends the tool with SIGABRT; keep that apart from sanitizer reports (exit 99)
  std::string ao = std::string("ASAN_OPTIONS=") + (getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "") + ":handle_abort=0:fast_unwind_on_malloc=1"; std::vector<char*> ev;
  for (char** e = environ; *e; e++) if (strncmp(*e, "ASAN_OPTIONS=", 13)) ev.push_back(*e);
  for (auto& m : more_env) ev.push_back((char*)m.c_str());
  ev.push_back((char*)ao.c_str()); ev.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, i.c_str(), O_RDONLY, 0);
  int pp[2] = {-1, -1}; if (room >= 0) { if (pipe2(pp, O_CLOEXEC)) { vh::fail("no-tool", "pipe"); return {-1, "", false}; } posix_spawn_file_actions_adddup2(&fa, pp[1], 1); }
  else posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_adddup2(&fa, 1, 2);
  if (cwd.size()) posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  struct rlimit lim; if (room >= 0) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &lim); struct rlimit l2 = lim; l2.rlim_cur = room; setrlimit(RLIMIT_FSIZE, &l2); }
  pid_t pid; int e = posix_spawn(&pid, exe, &fa, nullptr, a.data(), ev.data());
  if (room >= 0) setrlimit(RLIMIT_FSIZE, &lim);
  posix_spawn_file_actions_destroy(&fa);
  std::string piped; std::thread rd; if (room >= 0) { close(pp[1]); if (e) close(pp[0]); else rd = std::thread([&piped, fd = pp[0]] { char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) if (piped.size() < 50000000) piped.append(b, n); close(fd); }); }
  if (e) { vh::fail("no-tool", vh::fmt("cannot start %s", exe)); return {-1, "", false}; }
  int st = 0; double waited = 0; bool killed = false;
  for (;;) {
    pid_t p = waitpid(pid, &st, WNOHANG); if (p == pid) break;
    usleep(waited < 0.3 ? 1000 : 10000); waited += waited < 0.3 ? 0.0011 : 0.0101;
    if (waited > limit && !killed) { kill(pid, SIGKILL); killed = true; }
    if (!killed) { struct stat so; if (stat(o.c_str(), &so) == 0 && so.st_size > 200 * 1000 * 1000) { kill(pid, SIGKILL); killed = true; } }
  }
  vh::count(std::string("runs of ") + name);
  Res r; r.rc = killed ? 2000 : WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  if (rd.joinable()) { rd.join(); r.out = piped; } else r.out = slurp(o); if (r.out.size() > 400000) r.out = r.out.substr(r.out.size() - 400000);
  r.sanitizer = r.out.find("AddressSanitizer") != std::string::npos || r.out.find("runtime error:") != std::string::npos || r.out.find("ThreadSanitizer") != std::string::npos || (WIFSIGNALED(st) && !killed && WTERMSIG(st) != SIGABRT);
  if (r.sanitizer) { size_t q = r.out.find("ERROR: "); size_t u = r.out.find("runtime error:"); size_t k = std::min(q, u); vh::fail(std::string("sanitizer-") + name, r.out.substr(k == std::string::npos ? 0 : k > 200 ? k - 200 : 0, 1800)); }
  return r;
}
}  // namespace tl
