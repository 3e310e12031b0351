// C30, the part no other driver covers: what happens when the OpenCL device
// fails. Random programs over tensors, tensor math, layers and whole networks run
// once undisturbed (every call to the OpenCL API is counted), then again with one
// of these calls failing, or all from one on. The error has to be reported, or
// the result has to be the undisturbed one; nothing may be left on the device;
// and afterwards the same program must work again. Start-up takes the configured
// platform and device or reports that there is none.
#include "graph.h"
#include "CLHelper.h"
#include <sys/stat.h>
#include <sys/wait.h>
#ifndef BUILD_OPENCL
#error this driver belongs to the OpenCL build
#endif
using namespace vh; using namespace Conv; using tu::M4;
typedef std::vector<uint32_t> Out;
static void take(Out& o, Tensor& t) { tu::cpu(t); o.push_back(t.samples()); o.push_back(t.width()); o.push_back(t.height()); o.push_back(t.maps()); for (size_t e = 0; e < t.elements(); e++) o.push_back(tu::bits(t.data_ptr()[e])); }
static void fillt(Rng& q, Tensor& t) { tu::cpu(t); for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = (float)tu::rfloat(q); }

static void tensors(Rng q, Out& o, std::string& d) {
  size_t S = q.size(1, 3), w = q.size(1, 6), h = q.size(1, 6), m = q.size(1, 3);
  typedef std::unique_ptr<Tensor> P; std::vector<P> t; for (int k = 0; k < 4; k++) { t.push_back(P(new Tensor(S, w, h, m))); fillt(q, *t[k]); }
  int n = (int)q.range(2, 9); d = fmt("tensors %zu@%zux%zux%zu:", S, w, h, m);
  for (int k = 0; k < n; k++) {
    size_t a = q.range(0, 3), b = (a + q.range(1, 3)) % 4, s = q.range(0, S - 1), s2 = q.range(0, S - 1); int op = (int)q.range(0, 13); d += fmt(" %d", op); Tensor &A = *t[a], &B = *t[b]; float v = (float)q.real(-1, 1);
    switch (op) {
      case 0: A.MoveToGPU(); break;
      case 1: A.MoveToCPU(); break;
      case 2: A.Clear(v, q.chance(0.5) ? -1 : (int)s); break;
      case 3: if (!Tensor::CopySample(A, s, B, s2)) d += "!"; break;
      case 4: if (!Tensor::CopyMap(A, s, 0, B, s2, m - 1)) d += "!"; break;
      case 5: { Tensor C(std::move(A)); A.Resize(C); if (!Tensor::CopySample(C, 0, A, 0)) d += "!"; for (size_t z = 1; z < S; z++) Tensor::CopySample(B, z, A, z); break; }
      case 6: { Tensor C(A, true); t[b].reset(new Tensor(std::move(C))); break; }
      case 7: { std::stringstream ss; A.Serialize(ss); B.Deserialize(ss); break; }
      case 8: TensorMath::ADD(A, B, *t[q.chance(0.5) ? b : (b + 1) % 4]); break;
      case 9: { Tensor C(m, w, h, S); TensorMath::SMS(A, C); TensorMath::SMS(C, B); break; }
      case 10: TensorMath::SETSAMPLE(A, q.chance(0.5) ? -1 : (int)s, v); break;
      case 11: { Tensor C(S, w * 2, h * 2, m); C.Clear(v); tu::scatter(A); TensorMath::UP(A, C, 2, 2, 0.5f); TensorMath::DOWN(C, B, 2, 2, 0.5f); break; }
      case 12: { size_t kw = q.range(1, std::min<size_t>(w, 3)), kh = q.range(1, std::min<size_t>(h, 3)); Tensor C(kw * kh * m, w - kw + 1, h - kh + 1, S); tu::scatter(A); TensorMath::IM2COL(A, w, h, m, S, kw, kh, 1, 1, 0, 0, C); tu::scatter(C); TensorMath::COL2IM(B, w, h, m, S, kw, kh, 1, 1, 0, 0, C); break; }
      default: { Tensor C(1, 1, 1, 1); C.Shadow(A); C.MoveToGPU(); C.MoveToCPU(); break; }
    }
    if (q.chance(0.5)) tu::scatter(A);
  }
  for (auto& x : t) take(o, *x);
}
static void layer(Rng q, Out& o, std::string& d) {
  ly::Case c = ly::any(q, 6); ly::Inst I; std::string why; d = "layer " + c.desc; note(d);
  if (!I.connect(c, why)) throw std::runtime_error(why);
  I.load(c); for (auto* t : I.out) t->data.Clear(0);
  for (int pass = 0; pass < (q.chance(0.3) ? 2 : 1); pass++) {
    for (auto* t : I.in) t->delta.Clear(0); for (auto* t : I.layer->parameters()) t->delta.Clear(0);
    I.ready(); I.layer->FeedForward(); for (auto* t : I.out) take(o, t->data);
    if (!c.has_bwd) continue;
    for (auto* t : I.out) fillt(q, t->delta);
    I.ready(); I.layer->BackPropagate(); for (auto* t : I.in) take(o, t->delta); for (auto* t : I.layer->parameters()) take(o, t->delta);
  }
}
static void network(Rng q, Out& o, std::string& d) {
  gr::Graph g; g.random(q, 6); d = "network " + g.desc; g.build(); g.net.SetIsTesting(true); g.net.Initialize(); g.load();
  for (auto& n : g.N) if (n.kind == 1) for (auto* t : n.spy->owned_) { t->data.Clear(0); t->delta.Clear(0); }
  for (auto* n : g.net.GetNodes()) for (auto* p : n->layer->parameters()) p->delta.Clear(0);
  gr::scatter_all(g.net); g.net.FeedForward(); float L = g.net.AggregateLoss(); o.push_back(tu::bits(L));
  gr::scatter_all(g.net); g.net.BackPropagate();
  for (auto& n : g.N) if (n.kind == 1) for (auto* t : n.spy->owned_) { take(o, t->data); if (&n != &g.N.back()) take(o, t->delta); }
  for (auto* n : g.net.GetNodes()) for (auto* p : n->layer->parameters()) { take(o, p->data); take(o, p->delta); }
  std::stringstream ss; g.net.SerializeParameters(ss); o.push_back((uint32_t)hash_str(ss.str()));
}

static void faults(Rng& r, int64_t i) {
  void (*prog)(Rng, Out&, std::string&) = i % 4 == 0 ? network : i % 4 == 1 ? tensors : layer; const char* pn = i % 4 == 0 ? "network" : i % 4 == 1 ? "tensors" : "layer";
  uint64_t seed = r.next(), sc = r.next(); Out clean; std::string desc; ClStats& S = cl_stats();
  auto run = [&](Out& o) { tu::scatter_rng() = Rng(sc); o.clear(); std::string d; prog(Rng(seed), o, d); desc = d; };
  uint64_t live = S.live, c0 = cl_calls(); run(clean); uint64_t n = cl_calls() - c0; note(desc); nontrivial(desc);
  if (S.live != live) { fail("device-leak", fmt("%s: %llu device buffers left", desc.c_str(), (unsigned long long)(S.live - live))); return; }
  { Out again; run(again); count("undisturbed repetitions compared"); if (again != clean) { fail(std::string("unstable:") + pn, desc + ": a second undisturbed run has another result"); return; } }
  if (!n) { count("programs without device calls"); return; }
  int tries = (int)std::min<uint64_t>(n, 8);
  for (int k = 0; k < tries; k++) {
    uint64_t at = n <= 8 ? k + 1 : r.range(1, n); bool lost = r.chance(0.3); int code = r.pick(std::vector<int>{-4, -5, -6, -30, -36, -9999}); Out o; bool threw = false; std::string what;
    cl_fail_in((int64_t)at, code, lost);
    try { run(o); } catch (std::runtime_error& e) { threw = true; }
    bool hit = cl_failed(); cl_fail_in(0, 0);
    std::string ctx = fmt("%s: OpenCL error %d in call %llu of %llu%s", desc.c_str(), code, (unsigned long long)at, (unsigned long long)n, lost ? " and all after it" : "");
    if (!hit) { fail("harness:not-hit", ctx); return; }
    if (threw) count("device errors reported"); else { count("device errors survived"); if (o != clean) { fail(std::string("silent:") + pn, ctx + ": not reported, and the result differs"); return; } }
    if (S.live != live) { fail(std::string("device-leak-after-error:") + pn, ctx + fmt(": %llu device buffers left", (unsigned long long)(S.live - live))); return; }
    if (r.chance(0.3)) { Out again; run(again); count("runs after a device error compared"); if (again != clean) { fail(std::string("after-error:") + pn, ctx + ": the same program has another result afterwards"); return; } }
  }
}

// start-up, in the process
static void startup(Rng& r) {
  bool ok; int np = (int)r.range(1, 4), nd = (int)r.range(1, 4); unsigned p = 0, d = 0; int64_t at = 0;
  if (r.chance(0.2)) { if (r.chance(0.5)) np = 0; else nd = 0; }
  if (r.chance(0.7)) { p = (unsigned)r.range(0, 5); d = (unsigned)r.range(0, 5); }
  if (r.chance(0.1)) p = r.pick(std::vector<unsigned>{0x80000000u, 0xffffffffu, 1000000u}); if (r.chance(0.1)) d = r.pick(std::vector<unsigned>{0x80000000u, 0xffffffffu, 1000000u});
  if (r.chance(0.4)) at = r.range(1, 60);
  note(fmt("start-up with platform %u of %d, device %u of %d, call %lld fails", p, np, d, nd, (long long)at)); nontrivial(G().note);
  cl_devices(np, nd); cl_fail_in(at, r.pick(std::vector<int>{-5, -6, -11, -2}), false);
  bool threw = false; try { CLHelper::Init(p, d); } catch (std::runtime_error&) { threw = true; }
  bool hit = cl_failed(); cl_fail_in(0, 0); ok = p < (unsigned)np && d < (unsigned)nd && !hit; int a, b; cl_chosen(a, b);
  if (ok && threw) fail("startup-refused", G().note + ": refused");
  else if (!ok && !threw) fail("startup-accepted", G().note + ": no error reported");
  else if (ok && (a != (int)p || b != (int)d)) fail("startup-device", fmt("%s: uses platform %d, device %d", G().note.c_str(), a, b));
  count(ok ? "start-ups" : "start-ups refused");
  cl_devices(1, 1); CLHelper::Init(0, 0);
}
// start-up of a program of its own: configuration file and kernels next to it or one folder up
static int probe(int np, int nd) {
  cl_devices(np, nd); tu::init(); int a, b; cl_chosen(a, b); Tensor t(1, 3, 2, 1), u(1, 6, 4, 1); t.Clear(0.5f); t.MoveToGPU(); TensorMath::UP(t, u, 2, 2, 1); tu::cpu(u);
  for (size_t e = 0; e < u.elements(); e++) if (u.data_ptr()[e] != 0.5f) return 4;
  return 10 + 4 * a + b;
}
static std::string self() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); return std::string(b, n > 0 ? n : 0); }
static bool dup(const std::string& from, const std::string& to) { if (::link(from.c_str(), to.c_str()) == 0) return true; std::string c = tu::slurp(from); tu::spew(to, c); return ::chmod(to.c_str(), 0755) == 0 && c.size(); }
static void program(Rng& r) {
  std::string base = G().scratch + "/prog", dir = base + "/bin", exe = self(), kern = exe.substr(0, exe.rfind('/')) + "/kernels"; auto sys = [](const std::string& c) { return ::system(c.c_str()); };
  sys("rm -rf '" + base + "'"); ::mkdir(base.c_str(), 0755); ::mkdir(dir.c_str(), 0755);
  if (!dup(exe, dir + "/p")) { fail("harness:copy", "cannot copy the test program"); return; }
  int kloc = (int)r.range(0, 3), cloc = (int)r.range(0, 3), np = (int)r.range(1, 4), nd = (int)r.range(1, 4); unsigned p = 0, d = 0; bool bad = false;
  if (kloc < 3) { std::string to = (kloc == 1 ? base : dir) + "/kernels"; sys("cp -r '" + kern + "' '" + to + "'"); if (kloc == 2) { std::vector<std::string> ks; for (auto& k : {"advmaximumPooling", "biasGradient", "biasedConvolution", "im2col", "scaling", "sms", "setValue"}) ks.push_back(k); ::unlink((to + "/" + r.pick(ks) + ".cl").c_str()); } }
  if (kloc >= 2) bad = true;
  if (cloc) { unsigned P = (unsigned)r.range(0, np - (r.chance(0.8) ? 1 : 0)), D = (unsigned)r.range(0, nd - (r.chance(0.8) ? 1 : 0)); std::string c; if (r.chance(0.8)) { c += fmt("opencl_platform=%u\n", P); p = P; } if (r.chance(0.8)) { c += fmt("opencl_device=%u\n", D); d = D; }
    tu::spew((cloc == 2 ? base : dir) + "/config", c); if (cloc == 3) tu::spew(base + "/config", "opencl_platform=9\nopencl_device=9\n"); }
  if ((int)p >= np || (int)d >= nd) bad = true;
  note(fmt("program: kernels %s, configuration %s, platform %u of %d, device %u of %d", kloc == 0 ? "beside" : kloc == 1 ? "above" : kloc == 2 ? "incomplete" : "missing", cloc == 0 ? "none" : cloc == 2 ? "above" : "beside", p, np, d, nd)); nontrivial(G().note);
  int st = sys(fmt("'%s/p' probe %d %d > '%s/out' 2>&1", dir.c_str(), np, nd, base.c_str())); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 255;
  if (bad ? rc != 3 : rc != 10 + 4 * (int)p + (int)d) fail(bad ? "program-accepted" : "program-start", G().note + fmt(": exit status %d, expected %d; ", rc, bad ? 3 : 10 + 4 * (int)p + (int)d) + tu::slurp(base + "/out").substr(0, 300));
  count(bad ? "program starts refused" : "program starts"); sys("rm -rf '" + base + "'");
}
static void one(Rng& r, int64_t i) { if (i % 50 == 49) startup(r); else if (i % 250 == 7) program(r); else faults(r, i); if (i < 8) sample(G().note); }
int main(int argc, char** argv) {
  if (argc == 4 && !strcmp(argv[1], "probe")) { try { return probe(atoi(argv[2]), atoi(argv[3])); } catch (std::runtime_error&) { return 3; } }
  return vh::run(argc, argv, "c30_opencl", one, [] { tu::init(); });
}
