// C17: hyperparameters and option text.  Reference reader of the documented
// line format against ConfigurableFactory::InitOptimalSettings and the option
// parsers used for layer lines and tool commands.
#include "tutil.h"
#include "layers.h"
#include "ConfigurableFactory.h"
#include "ConfigParsing.h"
using namespace Conv;
using vh::Rng;
using vh::fmt;

static std::string num(Rng& r, float& v) {
  switch (r.range(0, 5)) {
    case 0: { int i = (int)r.range(0, 50); v = (float)i; return fmt("%d", i); }
    case 1: { double d = r.range(0, 1000) / 1000.0; std::string s = fmt("%.3f", d); v = strtof(s.c_str(), 0); return s; }
    case 2: { double d = r.range(1, 99); int e = -(int)r.range(1, 12); std::string s = fmt("%ge%d", d, e); v = strtof(s.c_str(), 0); return s; }
    case 3: { std::string s = fmt("%.9g", r.real(0, 2)); v = strtof(s.c_str(), 0); return s; }
    case 4: { std::string s = fmt("-%g", 0.25 * r.range(1, 8)); v = strtof(s.c_str(), 0); return s; }
    default: { std::string s = fmt(".%d", (int)r.range(1, 99)); v = strtof(s.c_str(), 0); return s; }
  }
}
static void settings(Rng& r) {
  struct S { float l1, l2, lr, gamma, momentum, exponent, eta, mu; unsigned it, sb, pb; int m; };
  TrainerSettings d; S s = {d.l1_weight, d.l2_weight, d.learning_rate, d.gamma, d.momentum, d.exponent, d.eta, d.mu, d.iterations, d.sbatchsize, d.pbatchsize, (int)d.optimization_method};
  S want = s; std::string t; bool patch = false;
  int n = (int)r.range(0, 14);
  for (int i = 0; i < n; i++) {
    int k = (int)r.range(0, 16); float v; std::string line;
    bool comment = r.chance(0.12); S w = want;
    static const char* names[] = {"l1", "l2", "lr", "gamma", "momentum", "exponent", "eta", "mu"};
    float* fs[] = {&w.l1, &w.l2, &w.lr, &w.gamma, &w.momentum, &w.exponent, &w.eta, &w.mu};
    if (k < 8) { std::string q = num(r, v); line = std::string(names[k]) + "=" + q; *fs[k] = v; }
    else if (k < 11) { static const char* un[] = {"iterations", "sbatchsize", "pbatchsize"}; unsigned* us[] = {&w.it, &w.sb, &w.pb}; unsigned x = r.chance(0.1) ? (unsigned)r.range(1000, 2000000000) : (unsigned)r.range(0, 500); line = r.chance(0.08) ? fmt("%s=%0*u", un[k - 8], (int)r.range(2, 6), x) : fmt("%s=%u", un[k - 8], x); *us[k - 8] = x; }
    else if (k == 11) { bool q = r.chance(0.5); line = std::string("optimization=") + (q ? "quickprop" : "gradient_descent"); w.m = q ? (int)QUICKPROP : (int)GRADIENT_DESCENT; }
    else if (k == 12) { line = r.pick<std::string>({"?convolutional kernels=3 size=3x3 llr=2 dropout=0.5", "?lrn method=across size=3 alpha=0.1 beta=0.75", "?hmax mu=0.5 weight=0.2", "?output weight=3", "?maxpooling size=2x2"}); }
    else if (k == 13) { line = "method=patch"; if (!comment) patch = true; }
    else if (k == 14) line = "";
    else if (k == 15) line = r.pick<std::string>({"unknown=5", "optimization=other", "zeta=3", "weights=2"});
    else line = "?relu";
    if (comment) { line = "#" + line; } else want = w;
    t += line + "\n";
  }
  if (r.chance(0.3) && !t.empty()) t.pop_back();
  vh::note(t);
  bool tr = r.chance(0.5); std::istringstream is(t); ConfigurableFactory f(is, 1, tr);
  if ((f.method() == PATCH) != (patch && tr)) vh::fail("method", "patch method not as described");
  int reps = r.chance(0.2) ? 2 : 1; for (int q = 0; q < reps; q++) f.InitOptimalSettings();
  TrainerSettings g = f.optimal_settings();
  auto cf = [&](const char* n2, float a, float b) { vh::count("settings compared"); if (memcmp(&a, &b, 4) && !(a == b)) vh::fail("setting", fmt("%s is %.9g, described %.9g", n2, a, b)); };
  cf("l1", g.l1_weight, want.l1); cf("l2", g.l2_weight, want.l2); cf("learning rate", g.learning_rate, want.lr); cf("gamma", g.gamma, want.gamma); cf("momentum", g.momentum, want.momentum);
  cf("exponent", g.exponent, want.exponent); cf("eta", g.eta, want.eta); cf("mu", g.mu, want.mu);
  if (g.iterations != want.it || g.sbatchsize != want.sb || g.pbatchsize != want.pb) vh::fail("setting", fmt("counts %u %u %u, described %u %u %u", g.iterations, g.sbatchsize, g.pbatchsize, want.it, want.sb, want.pb));
  if ((int)g.optimization_method != want.m) vh::fail("setting", "optimization method is not the described one");
  vh::nontrivial(t);
}
// option parsers: value of the option when present, otherwise untouched
static void options(Rng& r) {
  static const std::vector<std::string> names = {"size", "kernels", "stride", "pad", "group", "dropout", "llr", "epochs", "file", "stack", "view"};
  std::vector<std::string> nm = names; for (size_t k = nm.size(); k > 1; k--) std::swap(nm[k - 1], nm[r.range(0, k - 1)]);
  int n = (int)r.range(0, 5); std::map<std::string, int> kind; std::map<std::string, std::string> val; std::string line = r.pick<std::string>({"convolutional", "train", "load", "concat"});
  std::map<std::string, std::pair<unsigned, unsigned>> ks; std::map<std::string, float> fl; std::map<std::string, unsigned> cn;
  for (int i = 0; i < n; i++) {
    int k = (int)r.range(0, 3); kind[nm[i]] = k; std::string v;
    if (k == 0) { unsigned a = r.range(0, 300), b = r.range(0, 300); ks[nm[i]] = {a, b}; v = r.chance(0.08) ? fmt("%03ux%03u", a, b) : fmt("%ux%u", a, b); }
    else if (k == 1) { unsigned a = r.chance(0.1) ? (unsigned)r.range(1, 2147483647) : (unsigned)r.range(0, 100); cn[nm[i]] = a; v = r.chance(0.08) ? fmt("%0*u", (int)r.range(2, 6), a) : fmt("%u", a); }
    else if (k == 2) { float f; v = num(r, f); fl[nm[i]] = f; }
    else { for (int q = (int)r.range(1, 12); q > 0; q--) v += "abcdefghijklmnopqrstuvwyzABC/._-0123"[r.range(0, 35)]; }
    val[nm[i]] = v; line += " " + nm[i] + "=" + v;
  }
  if (r.chance(0.2)) line += " ";
  vh::note(line);
  for (int i = 0; i < (int)nm.size(); i++) {
    bool have = i < n; const std::string& id = nm[i];
    std::string s = "before"; ParseStringParamIfPossible(line, id, s);
    if (s != (have ? val[id] : "before")) vh::fail("string-option", "option " + id + " read as '" + s + "'");
    if (!have) {
      unsigned a = 77, b = 78, c = 79; float f = 5.5f; ParseKernelSizeIfPossible(line, id, a, b); ParseCountIfPossible(line, id, c); ParseDatumParamIfPossible(line, id, f);
      if (a != 77 || b != 78 || c != 79 || f != 5.5f) vh::fail("absent-option", "absent option " + id + " changes its variable");
    } else if (kind[id] == 0) { unsigned a = 77, b = 78; ParseKernelSizeIfPossible(line, id, a, b); if (a != ks[id].first || b != ks[id].second) vh::fail("size-option", fmt("option %s read as %ux%u", id.c_str(), a, b)); }
    else if (kind[id] == 1) { unsigned c = 79; ParseCountIfPossible(line, id, c); if (c != cn[id]) vh::fail("count-option", fmt("option %s read as %u", id.c_str(), c)); }
    else if (kind[id] == 2) { float f = 5.5f; ParseDatumParamIfPossible(line, id, f); if (f != fl[id]) vh::fail("number-option", fmt("option %s read as %.9g", id.c_str(), f)); }
    vh::count("options read");
  }
  vh::nontrivial(line);
}
static void one(Rng& r, int64_t) { for (int i = 0; i < 4; i++) settings(r); for (int i = 0; i < 4; i++) options(r); vh::sample(vh::G().note); }
int main(int argc, char** argv) { return vh::run(argc, argv, "c17_settings", one, [] { tu::init(0); }); }
