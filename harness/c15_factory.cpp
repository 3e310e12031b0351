// C15: a network description file becomes exactly the network it describes.
// A random description is written as text; an independent interpreter of the
// same description (double precision) gives output, loss and directional
// derivative of the loss; patch networks are compared with full-image ones.
#include "layers.h"
#include "graph.h"
#include "desc.h"

using namespace Conv;
using tu::M4;
using vh::Rng;
using vh::fmt;
typedef std::vector<M4> V;
using namespace nd;

struct TrainSource : gr::Source, TrainingLayer {
  TrainSource(const V& v) : gr::Source(v), w(v[1].w), h(v[1].h), b(v[0].s) {}
  void SetTestingMode(bool) {}
  unsigned int GetSamplesInTrainingSet() { return b; }
  unsigned int GetSamplesInTestingSet() { return b; }
  unsigned int GetBatchSize() { return b; }
  datum GetLossSamplingProbability() { return 1; }
  unsigned int GetLabelWidth() { return w; }
  unsigned int GetLabelHeight() { return h; }
  unsigned w, h, b;
};
struct Built {
  NetGraph net; gr::Source* src = nullptr; NetGraphNode* in = nullptr; bool ok = false; std::string why;
  ConfigurableFactory* f = nullptr; std::istringstream ss;
  Built(const Net& n, bool training, const V& inputs, bool loss, unsigned seed) : ss(n.text) {
    src = new TrainSource(inputs); in = new NetGraphNode(src); in->is_input = true; net.AddNode(in);
    f = new ConfigurableFactory(ss, seed, training);
    if (!f->AddLayers(net, NetGraphConnection(in, 0), n.classes, loss)) { why = "description reported as incomplete"; return; }
    ok = true;
  }
  void init() { net.Initialize(); }
  ~Built() {
    for (NetGraphNode* n : net.GetNodes()) { for (auto& b : n->output_buffers) delete b.combined_tensor; delete n->layer; delete n; }
    delete f;
  }
  V params() { std::vector<CombinedTensor*> p; net.GetParameters(p); V v; for (auto* t : p) v.push_back(tu::read(t->data)); return v; }
};

static void one(Rng& r, int64_t) {
  Net n = generate(r);
  vh::note(n.text);
  bool fcn_size_positive = n.rx >= 0 && n.ry >= 0;
  if (!fcn_size_positive) { vh::count("overpadded descriptions skipped"); return; }
  size_t S = r.range(1, 2), cw = r.range(1, 4), ch = r.range(1, 4), W = cw * n.fx, H = ch * n.fy;
  unsigned seed = (unsigned)r.next();
  V in = {tu::random(r, S, W, H, n.in_maps), tu::random(r, S, W, H, n.classes), tu::random(r, S, W, H, 2, 0, 1), tu::random(r, S, W, H, 1, 0, 2)};
  // --- full-image network
  bool loss = r.chance(0.8), as_training = !n.patch && r.chance(0.5);
  Built b(n, as_training, in, loss, seed);
  if (!b.ok) { vh::fail("incomplete", b.why); return; }
  if (b.f->method() != FCN) vh::fail("method", "factory for classification is not fully convolutional");
  b.init();
  auto outs = b.net.GetOutputNodes();
  if (outs.size() != 1) { vh::fail("outputs", fmt("%zu output nodes, expected one", outs.size())); return; }
  Tensor& out = outs[0]->output_buffers[0].combined_tensor->data;
  if (out.width() != W || out.height() != H || out.maps() != (size_t)n.classes || out.samples() != S) { vh::fail("output-size", "image " + in[0].shape() + " gives output " + tu::shape(out)); return; }
  std::vector<CombinedTensor*> ps; b.net.GetParameters(ps);
  if (ps.size() != n.shape.size()) { vh::fail("params", fmt("%zu parameter tensors, description has %zu", ps.size(), n.shape.size())); return; }
  // initial weights depend on the seed only
  b.net.InitializeWeights();
  V w0 = b.params();
  for (size_t i = 0; i < ps.size(); i++) {
    if (w0[i].shape() != n.shape[i].shape()) { vh::fail("params", fmt("parameter %zu is %s, described %s", i, w0[i].shape().c_str(), n.shape[i].shape().c_str())); return; }
    for (double v : w0[i].d) if (!std::isfinite(v)) { vh::fail("init", "initial parameter not finite"); return; }
  }
  // layers draw weights of their own: two layers of one shape do not start as copies of each other
  for (size_t i = 0; i < ps.size(); i++) for (size_t k = i + 1; k < ps.size(); k++) {
    if (w0[i].shape() != w0[k].shape() || w0[i].n() < 6) continue;
    bool same = true, nz = false; for (size_t e = 0; e < w0[i].n(); e++) { same &= w0[i].d[e] == w0[k].d[e]; nz |= w0[i].d[e] != 0; }
    if (!nz) continue;
    vh::count("layers of one shape compared");
    if (same) { vh::fail("init", fmt("parameters %zu and %zu start with the same weights", i, k)); i = ps.size() - 1; break; }
  }
  V par;
  for (auto& s : n.shape) par.push_back(tu::random(r, s.s, s.w, s.h, s.m, -0.8, 0.8));
  for (size_t i = 0; i < ps.size(); i++) tu::put(ps[i]->data, par[i]);
  b.net.SetIsTesting(true);
  b.net.FeedForward();
  Interp I{n, par, true, in[2]};
  M4 want = I.run(in[0]), got = tu::read(out);
  if (want.shape() != got.shape()) { vh::fail("interp-shape", "interpreter " + want.shape() + " vs " + got.shape()); return; }
  vh::count("full-image outputs compared", got.n());
  for (size_t i = 0; i < got.n(); i++) if (!vh::close(got.d[i], want.d[i], 1, 1e-3)) { vh::fail("output", fmt("output element %zu is %.7g, description gives %.7g", i, got.d[i], want.d[i])); break; }
  auto L = [&](const V& p) {
    Interp J{n, p, true, in[2]}; M4 o = J.run(in[0]); double l = 0;
    for (size_t s = 0; s < o.s; s++) for (size_t k = 0; k < o.m; k++) for (size_t y = 0; y < o.h; y++) for (size_t x = 0; x < o.w; x++) { double d = o.at(x, y, k, s) - in[1].at(x, y, k, s); l += 0.5 * d * d * in[3].at(x, y, 0, s) * n.lw; }
    return l; };
  size_t hmaxes = 0; for (auto& s : n.st) hmaxes += s.op == HMAX;   // declare a (zero) loss of their own
  auto lossnodes = b.net.GetLossNodes();
  if (lossnodes.size() != (loss ? 1u : 0u) + hmaxes) vh::fail("loss-nodes", fmt("%zu loss layers", lossnodes.size()));
  else if (loss) {
    double l = b.net.AggregateLoss(), lr = L(par);
    if (!vh::close(l, lr, lr, 1e-3)) vh::fail("loss", fmt("loss %.7g, description gives %.7g", l, lr));
    bool drop = false; for (auto& s : n.st) drop |= s.drop > 0;
    if (!drop) {
      b.net.BackPropagate();
      V dir; for (auto& s : n.shape) { dir.push_back(tu::random(r, s.s, s.w, s.h, s.m)); }
      double an = 0, mag = 0; std::vector<double> llr;
      for (size_t i = 0; i < ps.size(); i++) {
        M4 g = tu::read(ps[i]->delta);
        for (size_t e = 0; e < g.n(); e++) { if (!std::isfinite(g.d[e])) { vh::fail("gradient", "gradient not finite"); return; } an += g.d[e] * dir[i].d[e]; mag += std::fabs(g.d[e] * dir[i].d[e]); }
      }
      auto at = [&](double t) { V p = par; for (size_t i = 0; i < p.size(); i++) for (size_t e = 0; e < p[i].n(); e++) p[i].d[e] += t * dir[i].d[e]; return L(p); };
      double e = 1e-6, fw = (at(e) - lr) / e, bw = (lr - at(-e)) / e, sc = std::fabs(fw) + mag + 1e-3;
      if (std::fabs(fw - bw) < 1e-3 * sc) {
        vh::count("directional derivatives compared");
        if (std::fabs((fw + bw) / 2 - an) > 5e-3 * sc) vh::fail("gradient", fmt("directional derivative %.7g, back-propagated %.7g", (fw + bw) / 2, an));
      } else vh::count("directional derivatives at a kink skipped");
      // one step of plain gradient descent: the learning rates of the description are in effect
      V before = b.params(), grad; for (auto* t : ps) grad.push_back(tu::read(t->delta));
      TrainerSettings ts; ts.learning_rate = 0.05; ts.l1_weight = ts.l2_weight = ts.gamma = ts.momentum = 0; ts.iterations = 1; ts.sbatchsize = 1; ts.pbatchsize = S;
      Trainer tr(b.net, ts); tr.Train(1, false);
      V after = b.params(); bool bad = false;
      for (size_t i = 0; i < ps.size() && !bad; i++) {
        double f = 1; for (auto& s : n.st) if (s.p0 >= 0 && (int)i >= s.p0 && (int)i < s.p0 + (s.op == CONV ? 2 : 1)) { size_t q = s.text.find("llr="); if (q != std::string::npos) f = atof(s.text.c_str() + q + 4); }
        for (size_t e = 0; e < before[i].n() && !bad; e++) {
          double st = 0.05 * f * grad[i].d[e] / (double)(W * H * S), gs = before[i].d[e] - after[i].d[e];
          if (std::fabs(st - gs) > 2e-3 * std::fabs(st) + 2e-7 * (1 + std::fabs(before[i].d[e]))) { vh::fail("learning-rate", fmt("parameter %zu[%zu] moved by %.8g, learning rate of the description gives %.8g", i, e, gs, st)); bad = true; }
        }
      }
      vh::count("training steps compared");
    }
  }
  // same description, same seed: same initial weights; without loss layer as well
  {
    Built c(n, as_training, in, !loss, seed); if (!c.ok) { vh::fail("incomplete", c.why); return; }
    c.init(); c.net.InitializeWeights(); V w1 = c.params(); bool same = w1.size() == w0.size();
    // the last layer's initialisation may depend on the loss layer, not its shape
    for (size_t i = 0; same && i < w0.size(); i++) same = w0[i].shape() == w1[i].shape();
    if (!same) vh::fail("init", "adding a loss layer changes the parameters");
    Built d(n, as_training, in, loss, seed); d.init(); d.net.InitializeWeights(); V w2 = d.params();
    for (size_t i = 0; i < w0.size(); i++) for (size_t e = 0; e < w0[i].n(); e++) if (w0[i].d[e] != w2[i].d[e]) { vh::fail("init", "same seed gives other initial weights"); i = w0.size() - 1; break; }
  }
  // --- patch network: every cell of the full-image output is the patch network on that cell's field of view
  if (n.patch && !n.used_pad) {
    int PX, PY; { std::istringstream s2(n.text); ConfigurableFactory f2(s2, seed, true); PX = f2.patchsizex(); PY = f2.patchsizey(); if (f2.method() != PATCH) { vh::fail("method", "training factory ignores the patch method"); return; } }
    if (PX != n.rx + n.fx || PY != n.ry + n.fy) { vh::fail("patch-size", fmt("patch size %dx%d, field of view of one output is %dx%d", PX, PY, n.rx + n.fx, n.ry + n.fy)); return; }
    size_t P = cw * ch;
    V pin = {M4(P, PX, PY, n.in_maps), M4(P, 1, 1, n.classes), M4(P, 1, 1, 2), M4(P, 1, 1, 1)};
    size_t ox = r.range(0, n.fx - 1), oy = r.range(0, n.fy - 1);
    for (size_t j = 0; j < ch; j++) for (size_t i = 0; i < cw; i++) {
      size_t p = j * cw + i;
      for (int k = 0; k < n.in_maps; k++) for (int y = 0; y < PY; y++) for (int x = 0; x < PX; x++) {
        int X = (int)i * n.fx + x - n.rx / 2, Y = (int)j * n.fy + y - n.ry / 2;
        pin[0].at(x, y, k, p) = (X < 0 || Y < 0 || X >= (int)W || Y >= (int)H) ? 0 : in[0].at(X, Y, k, 0);
      }
      for (int k = 0; k < 2; k++) pin[2].at(0, 0, k, p) = in[2].at(i * n.fx + ox, j * n.fy + oy, k, 0);
    }
    Built q(n, true, pin, r.chance(0.5), seed);
    if (!q.ok) { vh::fail("incomplete", "patch network: " + q.why); return; }
    q.init();
    auto qo = q.net.GetOutputNodes(); if (qo.size() != 1) { vh::fail("outputs", "patch network has no single output"); return; }
    Tensor& po = qo[0]->output_buffers[0].combined_tensor->data;
    if (po.width() != 1 || po.height() != 1 || po.maps() != (size_t)n.classes || po.samples() != P) { vh::fail("patch-output", "patch network output is " + tu::shape(po)); return; }
    std::vector<CombinedTensor*> qs; q.net.GetParameters(qs);
    if (qs.size() != ps.size()) { vh::fail("params", "patch and full-image networks differ in parameters"); return; }
    for (size_t i = 0; i < qs.size(); i++) tu::put(qs[i]->data, par[i]);
    q.net.SetIsTesting(true); q.net.FeedForward();
    vh::count("patch predictions compared", P);
    for (size_t p = 0; p < P; p++) for (int k = 0; k < n.classes; k++) {
      double a = po.data_ptr_const(0, 0, k, p)[0], z = got.at((p % cw) * n.fx + ox, (p / cw) * n.fy + oy, k, 0);
      if (!vh::close(a, z, 1, 1e-3)) { vh::fail("patch-vs-full", fmt("cell %zu,%zu: patch network %.7g, full-image network %.7g", p % cw, p / cw, a, z)); p = P; break; }
    }
  }
  vh::nontrivial(n.text);
  vh::count(n.patch ? "patch descriptions" : "full-image descriptions"); if (n.manual) vh::count("manual field of view");
  vh::sample(fmt("%zux%zu cells, factor %dx%d, border %dx%d: ", cw, ch, n.fx, n.fy, n.rx, n.ry) + n.text.substr(0, 200));
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c15_factory", one, [] {
    tu::init(0);
    // the trainer registers its statistics on first use
    NetGraph* g = new NetGraph; TrainSource* in = new TrainSource(V(4, M4(1, 1, 1, 1))); NetGraphNode* n = new NetGraphNode(in); n->is_input = true; g->AddNode(n);
    Layer* e = new ErrorLayer(1); NetGraphNode* m = new NetGraphNode(e); for (int k : {0, 1, 3}) m->input_connections.push_back(NetGraphConnection(n, k)); g->AddNode(m); NetGraphNode* o = new NetGraphNode(new TanhLayer, NetGraphConnection(n)); o->is_output = true; g->AddNode(o);
    g->Initialize(); TrainerSettings s; Trainer t(*g, s); new HMaxActivationFunction(1, 0); System::stat_aggregator->Initialize(); System::stat_aggregator->StartRecording();
  }); }
