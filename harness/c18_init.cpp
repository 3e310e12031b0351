// C18: weight initialization.  Random dataflow graphs; after InitializeWeights
// every convolution's weights must fill exactly the interval given by its own
// and its consumers' fan-in, all other parameters must be at their start value,
// and the draw must depend on the seeds only - whatever the parameters were.
#include "layers.h"
#include "graph.h"
using namespace Conv;
using tu::M4;
using vh::Rng;
using vh::fmt;

struct N { int kind; std::vector<int> in; unsigned kw, kh, k, g, seed; size_t w, h, m; int area; double drop; NetGraphNode* n = nullptr; Layer* l = nullptr; };
enum { SRC, CONV, ACT, HMX, CAT, SUMM, POOL, LOSSK };

static void build(const std::vector<N>& d, std::vector<N>& o, NetGraph& net, const M4& img) {
  o = d;
  for (auto& n : o) {
    switch (n.kind) {
      case SRC: n.l = new gr::Source({img}); break;
      case CONV: n.l = new ConvolutionLayer(n.kw, n.kh, n.k, 1, 1, n.kw / 2, n.kh / 2, n.g, (int)n.seed, (datum)n.drop); break;
      case ACT: n.l = n.seed % 3 == 0 ? (Layer*)new TanhLayer : n.seed % 3 == 1 ? (Layer*)new ReLULayer : (Layer*)new SigmoidLayer; break;
      case HMX: n.l = new HMaxActivationFunction(1, 0); break;
      case CAT: n.l = new ConcatenationLayer; break;
      case SUMM: n.l = new SumLayer; break;
      case POOL: n.l = n.seed % 2 ? (Layer*)new MaxPoolingLayer(n.kw, n.kh) : (Layer*)new AdvancedMaxPoolingLayer(n.kw, n.kh, n.kw, n.kh); break;
      default: n.l = new ErrorLayer(1);
    }
    n.n = new NetGraphNode(n.l); n.n->is_input = n.kind == SRC;
    for (int i : n.in) n.n->input_connections.push_back(NetGraphConnection(o[i].n, 0, true));
  }
  for (size_t i = o.size(); i-- > 0;) if (o[i].kind != LOSSK) { o[i].n->is_output = true; break; }
  for (auto& n : o) net.AddNode(n.n);
}
static void destroy(NetGraph& net) { for (NetGraphNode* n : net.GetNodes()) { for (auto& b : n->output_buffers) delete b.combined_tensor; delete n->layer; delete n; } }

// one layer told about its consumers directly
static void direct(Rng& r, int64_t) {
  size_t W = r.range(3, 6), H = r.range(3, 6); unsigned m = (unsigned)r.range(1, 5), kw = (unsigned)r.range(1, 3), kh = (unsigned)r.range(1, 3), k = (unsigned)r.range(20, 40); NetStatus st;
  CombinedTensor in(1, W, H, m); std::vector<CombinedTensor*> i{&in}, o; ConvolutionLayer a(kw, kh, k, 1, 1, 0, 0, 1, (int)r.range(1, 10000), 0);
  if (!((Layer&)a).CreateOutputs(i, o) || !((Layer&)a).Connect(i, o, &st)) { vh::fail("connect", "convolution does not connect"); return; }
  std::vector<Layer*> next; std::vector<CombinedTensor*> outs; unsigned sum = 0; int n = (int)r.range(0, 4); std::string d = fmt("direct %ux%u of %u maps, consumers", kw, kh, m);
  for (int q = 0; q < n; q++) {
    unsigned cw = (unsigned)r.range(1, W - kw + 1), ch = (unsigned)r.range(1, H - kh + 1); ConvolutionLayer* l = new ConvolutionLayer(cw, ch, 1, 1, 1, 0, 0, 1, 1, 0); std::vector<CombinedTensor*> lo;
    if (!((Layer*)l)->CreateOutputs(o, lo) || !((Layer*)l)->Connect(o, lo, &st)) { vh::fail("connect", "convolution does not connect"); return; }
    outs.push_back(lo[0]); next.push_back(l); sum += cw * ch * k; d += fmt(" %ux%u", cw, ch);
  }
  vh::note(d); a.OnLayerConnect(next);
  double R = std::sqrt(6.0 / (kw * kh * m + sum)), mx = 0; M4 w = tu::read(a.parameters()[0]->data); for (double v : w.d) mx = std::max(mx, std::fabs(v));
  vh::count("layers told about their consumers directly"); vh::count("weights checked", w.n());
  if (!(mx <= R * 1.00001) || (w.n() >= 60 && mx < (w.n() >= 300 ? 0.9 : 0.7) * R)) vh::fail("range", fmt("weights reach magnitude %g, interval is +-%g", mx, R));
  vh::nontrivial(d); for (auto* l : next) delete l; for (auto* t : outs) delete t; delete o[0];
}
static void one(Rng& r, int64_t c) {
  if (c % 8 == 7) { direct(r, c); return; }
  size_t W = 2 * r.range(1, 3), H = 2 * r.range(1, 3); M4 img = tu::random(r, 1, W, H, r.range(1, 4));
  std::vector<N> d; auto add = [&](N n) { d.push_back(n); return (int)d.size() - 1; };
  add(N{SRC, {}, 0, 0, 0, 1, 0, W, H, img.m, 1, 0});
  int cnt = (int)r.range(2, 9); std::vector<int> used(64, 0);
  for (int i = 0; i < cnt; i++) {
    int a = r.chance(0.6) ? (int)d.size() - 1 : (int)r.range(0, d.size() - 1); N n; n.in = {a}; n.w = d[a].w; n.h = d[a].h; n.m = d[a].m; n.area = 1; n.drop = 0; n.kw = n.kh = 1; n.g = 1; n.k = 0; n.seed = (unsigned)r.next() & 0x7fffffff;
    int k = i == 0 ? 0 : (int)r.range(0, 9);
    if (k <= 3) { n.kind = CONV; n.kw = 2 * r.range(0, 2) + 1; n.kh = 2 * r.range(0, 2) + 1; n.k = (unsigned)r.range(1, 24); if (n.m > 1 && r.chance(0.2)) { n.g = (unsigned)n.m; n.k = n.g * (unsigned)r.range(1, 4); } n.m = n.k; if (r.chance(0.2)) n.drop = 0.5; }
    else if (k <= 5) n.kind = ACT;
    else if (k == 6) n.kind = HMX;
    else if (k == 7 && d[a].w % 2 == 0 && d[a].h % 2 == 0) { n.kind = POOL; n.kw = (unsigned)r.range(1, 2); n.kh = (unsigned)r.range(1, 2); n.w /= n.kw; n.h /= n.kh; n.area = n.kw * n.kh; }
    else if (k == 7) n.kind = ACT;
    else {
      std::vector<int> cand; for (size_t q = 0; q < d.size(); q++) if (d[q].w == d[a].w && d[q].h == d[a].h) cand.push_back((int)q);
      int b = r.pick(cand); n.in = {a, b};
      if (d[a].m == d[b].m && r.chance(0.5)) n.kind = SUMM; else { n.kind = CAT; n.m = d[a].m + d[b].m; }
    }
    add(n);
  }
  // a loss on every unconsumed output, sometimes not on all of them
  std::vector<int> dead; bool leave = r.chance(0.1); for (size_t q = 1; q < d.size(); q++) { bool u = false; for (auto& n : d) for (int i : n.in) u |= i == (int)q; if (!u && (!leave || r.chance(0.5))) dead.push_back((int)q); else if (!u) vh::count("outputs that nobody uses"); }
  for (int q : dead) {
    N s{SRC, {}, 0, 0, 0, 1, 0, d[q].w, d[q].h, d[q].m, 1, 0}; N s2 = s; s2.m = 1; (void)s2;
    N n; n.kind = LOSSK; n.in = {q, q, q}; n.w = n.h = n.m = 0; n.area = 1; n.drop = 0; n.kw = n.kh = 1; n.g = 1; n.k = 0; n.seed = 0;
    if (d[q].m != 1) { // weight input needs one map: use a 1x1 convolution of the same output
      N w; w.kind = CONV; w.in = {q}; w.w = d[q].w; w.h = d[q].h; w.kw = w.kh = 1; w.k = 1; w.m = 1; w.g = 1; w.area = 1; w.drop = 0; w.seed = (unsigned)r.next() & 0x7fffffff; n.in[2] = add(w); }
    add(n);
  }
  std::string desc; for (auto& n : d) { desc += fmt("%d(", n.kind); for (int i : n.in) desc += fmt("%d ", i); desc += fmt("%ux%ux%u) ", n.kw, n.kh, n.k); } vh::note(desc);
  // expected interval: fan-in of the layer and of everything that consumes it
  std::vector<double> G(d.size(), 0), R(d.size(), 0);
  for (size_t q = d.size(); q-- > 0;) {
    unsigned sum = 0; for (auto& n : d) for (int i : n.in) if (i == (int)q) sum += (unsigned)G[&n - &d[0]];
    if (d[q].kind == CONV) { unsigned own = d[q].kw * d[q].kh * (unsigned)d[d[q].in[0]].m; G[q] = own; R[q] = std::sqrt(6.0 / (own + sum)); }
    else G[q] = (unsigned)(sum / d[q].area);
  }
  std::vector<N> A, B; NetGraph na, nb; build(d, A, na, img); build(d, B, nb, img);
  na.Initialize(); nb.Initialize();
  auto params = [&](std::vector<N>& o) { std::vector<std::vector<M4>> v; for (auto& n : o) { std::vector<M4> p; for (auto* t : n.l->parameters()) p.push_back(tu::read(t->data)); v.push_back(p); } return v; };
  auto check = [&](std::vector<std::vector<M4>>& P, const char* when) {
    for (size_t q = 0; q < d.size(); q++) {
      if (d[q].kind == HMX) { for (double v : P[q][0].d) if (v != 1.0) { vh::fail("start-value", fmt("%s: activation parameter starts at %g", when, v)); return; } }
      if (d[q].kind != CONV) continue;
      double mx = 0, mean = 0; std::set<double> dist; for (double v : P[q][0].d) { mx = std::max(mx, std::fabs(v)); mean += v; dist.insert(v); } size_t n = P[q][0].n(); mean /= n;
      vh::count("convolutions checked"); vh::count("weights checked", n);
      if (!(mx <= R[q] * 1.00001)) { vh::fail("range", fmt("%s: weight of magnitude %g, interval is +-%g", when, mx, R[q])); return; }
      if (n >= 300 && mx < 0.9 * R[q]) { vh::fail("range", fmt("%s: %zu weights stay below %g, interval is +-%g", when, n, mx, R[q])); return; }
      if (n >= 300 && std::fabs(mean) > 8 * R[q] / std::sqrt(3.0 * n)) { vh::fail("range", fmt("%s: mean weight %g of %zu, interval is +-%g", when, mean, n, R[q])); return; }
      if (n >= 20 && dist.size() < n * 9 / 10) { vh::fail("distinct", fmt("%s: %zu different values in %zu weights", when, dist.size(), n)); return; }
      for (double v : P[q][1].d) if (v != 0.0) { vh::fail("start-value", fmt("%s: bias starts at %g", when, v)); return; }
    }
  };
  na.InitializeWeights(); nb.InitializeWeights();
  auto a1 = params(A), b1 = params(B); check(a1, "initialization");
  auto same = [&](std::vector<std::vector<M4>>& x, std::vector<std::vector<M4>>& y) { for (size_t q = 0; q < x.size(); q++) for (size_t p = 0; p < x[q].size(); p++) if (x[q][p].d != y[q][p].d) return false; return true; };
  if (!same(a1, b1)) vh::fail("reproducible", "two networks with the same seeds start with different weights");
  // arbitrary parameters in one of them, then a reset of both
  for (auto& n : A) for (auto* t : n.l->parameters()) for (size_t e = 0; e < t->data.elements(); e++) t->data.data_ptr()[e] = (float)r.real(-3, 3);
  if (r.chance(0.5)) { na.SetIsTesting(true); na.FeedForward(); if (r.chance(0.6)) na.BackPropagate(); }
  na.InitializeWeights(); nb.InitializeWeights();
  auto a2 = params(A), b2 = params(B); check(a2, "reset");
  if (!same(a2, b2)) vh::fail("reset", "a reset depends on what the parameters were");
  for (size_t q = 0; q < d.size(); q++) if (d[q].kind == CONV && a1[q][0].n() >= 4 && a1[q][0].d == a2[q][0].d) { vh::fail("reset", "a reset draws the same weights again"); break; }
  vh::count("resets compared"); vh::nontrivial(desc); if (c < 6) vh::sample(desc);
  destroy(na); destroy(nb);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c18_init", one, [] { tu::init(0); }); }
