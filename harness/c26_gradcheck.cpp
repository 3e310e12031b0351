// C26: the gradient checker finds wrong gradients and changes nothing.  Networks
// of layers with a known exact loss report gradients that are right, slightly
// off, wrong, missing or undefined at chosen elements; verdict and printed counts
// are compared with the ones the construction implies.  Real networks are checked
// for being left as they were.
#include "layers.h"
#include "graph.h"
#include "desc.h"
#include "GradientTester.h"
using namespace vh; using namespace Conv; using tu::M4; using nd::V;

struct Capture { std::ostringstream s; std::streambuf* o; Capture() { o = std::cout.rdbuf(s.rdbuf()); } ~Capture() { std::cout.rdbuf(o); } };
enum Class { OKAY, TOLERABLE, FAILED };
static double factor(Rng& r, Class c, double& a) {   // reported gradient / exact gradient
  switch (c) {
    case OKAY: if (r.chance(0.1)) { a = 0; return 0; } return r.chance(0.5) ? 1 : r.real(0.985, 1.015);
    case TOLERABLE: return r.chance(0.5) ? r.real(0.86, 0.96) : r.real(1.04, 1.22);
    default: switch (r.range(0, 5)) { case 0: return 0; case 1: return -1; case 2: return NAN; case 3: return r.real(1.3, 5); case 4: return r.chance(0.5) ? INFINITY : -INFINITY; default: return r.real(0.1, 0.8); }
  }
}
struct Spec { std::vector<float> p0; std::vector<double> a, q, f; std::vector<Class> c; };   // loss = sum a(p-p0) + q(p-p0)^2, reported gradient a*f
static Spec make(Rng& r, size_t n, double pt, double pf) {
  Spec s; for (size_t e = 0; e < n; e++) { Class c = r.chance(pf) ? FAILED : r.chance(pt) ? TOLERABLE : OKAY; double a = r.real(0.2, 1) * (r.chance(0.5) ? 1 : -1); double f = factor(r, c, a); s.p0.push_back((float)r.real(-1, 1)); s.a.push_back(a); s.q.push_back(a == 0 ? 0 : r.real(-1, 1)); s.f.push_back(f); s.c.push_back(c); }
  return s;
}
static double value(const Spec& s, const Tensor& t) { double v = 0; for (size_t e = 0; e < s.a.size(); e++) { double d = (double)t.data_ptr_const()[e] - s.p0[e]; v += s.a[e] * d + s.q[e] * d * d; } return v; }
static void report(const Spec& s, Tensor& t) { for (size_t e = 0; e < s.a.size(); e++) t.data_ptr()[e] = s.c[e] == FAILED && s.a[e] == 0 ? 1 : std::isinf(s.f[e]) ? s.f[e] : s.a[e] * s.f[e]; }
struct Par : Layer {
  Par(std::vector<Spec> s_, bool safe_) : Layer(""), s(s_), safe(safe_) { for (auto& q : s) { parameters_.push_back(new CombinedTensor(1, q.a.size(), 1, 1)); std::copy(q.p0.begin(), q.p0.end(), parameters_.back()->data.data_ptr()); } }
  ~Par() { for (auto* p : parameters_) delete p; }
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) { if (i.size() != 1) return false; o.push_back(new CombinedTensor(1, 1, 1, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>& i, const std::vector<CombinedTensor*>& o, const NetStatus*) { in = i[0]; out = o[0]; return true; }
  void FeedForward() { acc = 0; for (size_t k = 0; k < s.size(); k++) acc += value(s[k], parameters_[k]->data); ff++; }
  void BackPropagate() { for (size_t k = 0; k < s.size(); k++) report(s[k], parameters_[k]->delta); bp++; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); }
  bool IsNotGradientSafe() { return !safe; }
  std::vector<Spec> s; bool safe; double acc = 0; size_t ff = 0, bp = 0; CombinedTensor *in, *out;
};
struct Loss : Layer, LossFunctionLayer {
  Loss(std::vector<Par*> p_) : Layer(""), p(p_) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) { return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() { v = 0; for (auto* q : p) v += q->acc; }
  void BackPropagate() {}
  datum CalculateLossFunction() { return (datum)v; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>&) {}
  std::vector<Par*> p; double v = 0;
};
struct Printed { long n[3] = {-1, -1, -1}, of[3] = {-1, -1, -1}; };
static Printed parse(const std::string& s) { Printed p; const char* k[] = {" tested gradients okay", " tested gradients tolerable", " tested gradients failed"}; for (int i = 0; i < 3; i++) { size_t q = s.find(k[i]); if (q == std::string::npos) continue; size_t b = s.rfind("--- ", q); if (b != std::string::npos) sscanf(s.c_str() + b + 4, "%ld of %ld", &p.n[i], &p.of[i]); } return p; }

static void scripted(Rng& r) {
  int layers = (int)r.range(1, 4), mode = (int)r.range(0, 3); std::vector<Par*> ps; size_t total = 0;
  double pt = mode == 0 ? 0 : 0.2, pf = mode < 2 ? 0 : mode == 2 ? 0.02 : 0.3;
  for (int l = 0; l < layers; l++) { std::vector<Spec> s; int k = (int)r.range(0, 3); for (int j = 0; j < k; j++) s.push_back(make(r, r.size(1, 40), pt, pf)); ps.push_back(new Par(s, !r.chance(0.2))); }
  unsigned skip = r.chance(0.4) ? 0 : (unsigned)r.size(0, 60); bool fatal = r.chance(0.6);
  long n[3] = {0, 0, 0};
  for (auto* p : ps) if (p->safe) for (auto& s : p->s) for (size_t e = 0; e < s.a.size(); e += (size_t)skip + 1) { n[s.c[e]]++; total++; }
  note(fmt("%d layers, every %u. element of %zu tested: %ld okay, %ld tolerable, %ld wrong, fatal %d", layers, skip + 1, total, n[0], n[1], n[2], fatal));
  NetGraph* g = new NetGraph; V src{M4(1, 1, 1, 1)}; NetGraphNode* last = new NetGraphNode(new gr::Source(src)); last->is_input = true; g->AddNode(last);
  std::vector<NetGraphNode*> all{last}; for (auto* p : ps) { NetGraphNode* q = new NetGraphNode(p, NetGraphConnection(last, 0)); g->AddNode(q); last = q; all.push_back(q); } last->is_output = true;
  Loss* L = new Loss(ps); NetGraphNode* ln = new NetGraphNode(L); ln->input_connections.push_back(NetGraphConnection(last, 0)); g->AddNode(ln); all.push_back(ln);
  g->Initialize(); bool threw = false; std::string out;
  for (auto* p : ps) for (size_t k = 0; k < p->s.size(); k++) for (size_t e = 0; e < p->s[k].a.size(); e++) p->parameters()[k]->delta.data_ptr()[e] = NAN;
  { Capture c; try { GradientTester::TestGradient(*g, skip, fatal); } catch (std::runtime_error&) { threw = true; } out = c.s.str(); }
  bool want = fatal && n[2] > 0; count("networks checked"); count("gradients judged", total); count("wrong gradients planted where tested", n[2]); if (threw) count("checks failed");
  if (threw != want) fail("verdict", fmt("%ld wrong gradients: the check %s", n[2], threw ? "failed" : "passed"));
  Printed P = parse(out); static const char* nm[] = {"okay", "tolerable", "failed"};
  for (int k = 0; k < 3; k++) if (P.n[k] != n[k] || P.of[k] != (long)total) { fail("counts", fmt("printed %ld of %ld %s, planted %ld of %zu", P.n[k], P.of[k], nm[k], n[k], total)); break; }
  for (auto* p : ps) for (size_t k = 0; k < p->s.size(); k++) for (size_t e = 0; e < p->s[k].a.size(); e++) if (tu::bits(p->parameters()[k]->data.data_ptr()[e]) != tu::bits(p->s[k].p0[e])) { fail("restore", fmt("parameter %zu[%zu] is %.9g after the check, was %.9g", k, e, p->parameters()[k]->data.data_ptr()[e], p->s[k].p0[e])); k = p->s.size() - 1; break; }
  for (auto* q : all) { for (auto& b : q->output_buffers) delete b.combined_tensor; delete q->layer; delete q; } delete g;
  nontrivial(G().note); 
}
// ---------------------------------------------------------------- single layer
static Par* CUR; static size_t WROTE;
static void write_deltas(const std::vector<CombinedTensor*>&) { WROTE++; }
static datum loss_of(Layer* l, const std::vector<CombinedTensor*>&) { if (l != CUR) fail("callback", "loss of another layer requested"); return (datum)CUR->acc; }
static void single(Rng& r) {
  size_t n = r.size(1, 60); bool safe = !r.chance(0.1); double pf = r.pick(std::vector<double>{0, 0.05, 0.12, 0.2, 0.5}); Spec s = make(r, n, 0.2, pf);
  Par L({s}, safe); CUR = &L; WROTE = 0; std::vector<CombinedTensor*> outs; float eps = r.chance(0.5) ? 0.005f : 0.01f; size_t bad = 0; for (auto c : s.c) bad += c == FAILED;
  bool want = !safe || bad == 0 || (double)(n - bad) / n > 0.85;
  note(fmt("single layer, %zu of %zu gradients wrong%s", bad, n, safe ? "" : ", not to be tested")); bool got;
  { Capture c; got = GradientTester::DoGradientTest(&L, L.parameters()[0]->data, L.parameters()[0]->delta, outs, eps, write_deltas, loss_of); }
  count("layers checked"); count(want ? "layers to accept" : "layers to refuse");
  if (got != want) fail("layer-verdict", fmt("%zu of %zu gradients wrong: reported %s", bad, n, got ? "right" : "wrong"));
  if (safe && (WROTE == 0 || L.bp == 0)) fail("callback", "the gradient was never computed");
  for (size_t e = 0; e < n; e++) if (tu::bits(L.parameters()[0]->data.data_ptr()[e]) != tu::bits(s.p0[e])) { fail("restore", fmt("element %zu is %.9g after the check, was %.9g", e, L.parameters()[0]->data.data_ptr()[e], s.p0[e])); break; }
  nontrivial(G().note);
}
// ---------------------------------------------------------------- real networks
static void real(Rng& r) {
  nd::Net n; for (;;) { n = nd::generate(r); bool drop = false; size_t e = 0; for (auto& s : n.shape) e += s.n(); for (auto& s : n.st) drop |= s.drop > 0 || s.op == nd::HMAX; if (!drop && n.rx >= 0 && n.ry >= 0 && n.fx * n.fy <= 16 && e < 600) break; }
  size_t W = n.fx * r.range(1, 2), H = n.fy * r.range(1, 2); unsigned skip = (unsigned)r.range(0, 9);
  V in = {tu::random(r, 1, W, H, n.in_maps), tu::random(r, 1, W, H, n.classes), tu::random(r, 1, W, H, 2, 0, 1), tu::random(r, 1, W, H, 1, 0, 2)};
  note("real network, every " + fmt("%u", skip + 1) + ". element\n" + n.text);
  NetGraph g; NetGraphNode* sn = new NetGraphNode(new gr::Source(in)); sn->is_input = true; g.AddNode(sn); std::istringstream ss(n.text); ConfigurableFactory f(ss, 5, false);
  bool ok = f.AddLayers(g, NetGraphConnection(sn, 0), n.classes, true); if (!ok) fail("incomplete", "description reported as incomplete");
  else {
    g.Initialize(); g.InitializeWeights(); g.SetIsTesting(true); std::vector<CombinedTensor*> ps; g.GetParameters(ps); std::vector<std::vector<float>> before, grad; long total = 0;
    for (auto* p : ps) { for (size_t e = 0; e < p->data.elements(); e++) p->data.data_ptr()[e] = (float)r.real(-0.5, 0.5); before.emplace_back(p->data.data_ptr(), p->data.data_ptr() + p->data.elements()); }
    g.FeedForward(); g.BackPropagate(); for (auto* p : ps) { grad.emplace_back(p->delta.data_ptr(), p->delta.data_ptr() + p->delta.elements()); total += (p->delta.elements() + skip) / (skip + 1); }
    std::string out; { Capture c; GradientTester::TestGradient(g, skip, false); out = c.s.str(); }
    Printed P = parse(out);
    for (size_t k = 0; k < ps.size(); k++) { if (memcmp(before[k].data(), ps[k]->data.data_ptr(), before[k].size() * 4)) { fail("restore-real", fmt("parameter %zu changed", k)); break; } if (memcmp(grad[k].data(), ps[k]->delta.data_ptr(), grad[k].size() * 4)) { fail("gradient-real", fmt("the gradient of parameter %zu is not that of a backward pass", k)); break; } }
    if (P.of[0] != total || P.n[0] + P.n[1] + P.n[2] != total) fail("counts-real", fmt("printed %ld+%ld+%ld of %ld, expected %ld", P.n[0], P.n[1], P.n[2], P.of[0], total));
    g.FeedForward(); count("real networks checked"); count("real gradients okay", P.n[0] > 0 ? P.n[0] : 0); count("real gradients beyond 20%", P.n[2] > 0 ? P.n[2] : 0); nontrivial(n.text);
  }
  for (NetGraphNode* k : g.GetNodes()) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; }
}
static void one(Rng& r, int64_t i) { if (i % 10 == 9) real(r); else if (i % 3 == 1) single(r); else scripted(r); if (i < 4) sample(G().note); }
int main(int argc, char** argv) { return vh::run(argc, argv, "c26_gradcheck", one, [] { tu::init(); new HMaxActivationFunction(1, 0); }); }
