// Random network graphs made of real layers (each wrapped in a spy that logs
// every call) together with a double-precision reference of the same graph.
#pragma once
#include "layers.h"

namespace gr {
using namespace Conv;
using tu::M4;
using vh::Rng;
using vh::fmt;
using ly::V;

enum Ev { FF, BP };
struct Log { std::vector<std::pair<Ev, int>> ev; };

class Spy : public Layer {
public:
  Spy(Layer* l, int id, Log* log) : Layer(""), l_(l), id_(id), log_(log) {}
  ~Spy() { delete l_; }
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) { bool r = l_->CreateOutputs(i, o); for (auto* t : o) owned_.push_back(t); return r; }
  bool Connect(const std::vector<CombinedTensor*>& i, const std::vector<CombinedTensor*>& o, const NetStatus* s) {
    bool r = l_->Connect(i, o, s); parameters_ = l_->parameters(); return r; }
  void FeedForward() { log_->ev.push_back({FF, id_}); l_->FeedForward(); }
  void BackPropagate() { log_->ev.push_back({BP, id_}); bp_enabled_seen_ = backprop_enabled_; l_->SetBackpropagationEnabled(backprop_enabled_); if (!backprop_enabled_ && id_ % 2 && parameters_.empty()) return;   // told that nobody needs its gradients
    l_->BackPropagate(); }
  void OnLayerConnect(const std::vector<Layer*> n) { l_->OnLayerConnect(n); }
  unsigned int Gain() { return l_->Gain(); }
  bool IsNotGradientSafe() { return l_->IsNotGradientSafe(); }
  bool IsOpenCLAware() { return l_->IsOpenCLAware(); }
  std::string GetLayerDescription() { return l_->GetLayerDescription(); }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { l_->CreateBufferDescriptors(b); }
  Layer* l_; int id_; Log* log_; bool bp_enabled_seen_ = true; std::vector<CombinedTensor*> owned_;
};
class SpyLoss : public Spy, public LossFunctionLayer {
public:
  SpyLoss(ErrorLayer* e, int id, Log* log) : Spy(e, id, log), e_(e) {}
  datum CalculateLossFunction() { return e_->CalculateLossFunction(); }
  ErrorLayer* e_;
};
// In an OpenCL build: content anywhere
inline void scatter_all(NetGraph& net) { for (auto* n : net.GetNodes()) { for (auto& b : n->output_buffers) if (b.combined_tensor) tu::scatter(*b.combined_tensor); if (n->layer->IsOpenCLAware()) for (auto* p : n->layer->parameters()) tu::scatter(*p); } }
// network input with several output buffers, like DatasetInputLayer
class Source : public Layer {
public:
  Source(const std::vector<M4>& s) : Layer(""), s_(s) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) {
    if (!i.empty()) return false;
    for (auto& m : s_) { o.push_back(new CombinedTensor(m.s, m.w, m.h, m.m)); t_.push_back(o.back()); }
    return true;
  }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() { for (size_t k = 0; k < s_.size(); k++) tu::put(t_[k]->data, s_[k]); }
  void BackPropagate() {}
  std::string GetLayerDescription() { return "Source"; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { for (size_t i = 0; i < s_.size(); i++) b.push_back(NetGraphBuffer()); }
  std::vector<M4> s_; std::vector<CombinedTensor*> t_;
};
// several outputs, each a multiple of the input
class Split : public Layer {
public:
  Split(const std::vector<double>& f) : Layer(""), f_(f) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) {
    if (i.size() != 1) return false;
    for (size_t k = 0; k < f_.size(); k++) o.push_back(new CombinedTensor(i[0]->data.samples(), i[0]->data.width(), i[0]->data.height(), i[0]->data.maps()));
    return true;
  }
  bool Connect(const std::vector<CombinedTensor*>& i, const std::vector<CombinedTensor*>& o, const NetStatus*) { in_ = i[0]; out_ = o; return true; }
  void FeedForward() { for (size_t k = 0; k < f_.size(); k++) for (size_t e = 0; e < in_->data.elements(); e++) tu::cpu(out_[k]->data).data_ptr()[e] = (datum)(f_[k] * tu::cpu(in_->data).data_ptr_const()[e]); }
  void BackPropagate() { if (!backprop_enabled_) return; for (size_t e = 0; e < in_->data.elements(); e++) { double v = 0; for (size_t k = 0; k < f_.size(); k++) v += f_[k] * tu::cpu(out_[k]->delta).data_ptr_const()[e]; tu::cpu(in_->delta).data_ptr()[e] = (datum)v; } }
  std::string GetLayerDescription() { return "Split"; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { for (size_t i = 0; i < f_.size(); i++) b.push_back(NetGraphBuffer()); }
  std::vector<double> f_; CombinedTensor* in_ = nullptr; std::vector<CombinedTensor*> out_;
};
// reads its input, writes nothing: a statistics-like consumer
class Watcher : public Layer {
public:
  Watcher() : Layer("") {}
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>&) { return i.size() == 1; }
  bool Connect(const std::vector<CombinedTensor*>& i, const std::vector<CombinedTensor*>&, const NetStatus*) { in_ = i[0]; return true; }
  void FeedForward() { seen_ = tu::read(in_->data); }
  void BackPropagate() {}
  std::string GetLayerDescription() { return "Watcher"; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>&) {}
  CombinedTensor* in_ = nullptr; M4 seen_;
};

struct In { int node; int buf; bool bp; };
struct Node {
  int kind;                  // 0 source, 1 layer, 2 loss, 3 watcher
  ly::Case c;
  float lw = 1;
  std::vector<M4> src;
  std::vector<In> ins;
  NetGraphNode* n = nullptr; Layer* layer = nullptr; Spy* spy = nullptr;
  V out, par, pdelta, odelta;  // reference values
};

struct Graph {
  Log log;
  std::vector<Node> N;
  NetGraph net;
  std::vector<int> order;     // insertion order
  std::string desc;
  int stops = 0;              // connections of layers without back-propagation
  ~Graph() {
    for (auto& n : N) {
      if (n.spy) { for (auto* t : n.spy->owned_) delete t; delete n.spy; }
      else if (n.kind == 0) { for (auto* t : ((Source*)n.layer)->t_) delete t; delete n.layer; }
      else delete n.layer;
    }
    for (NetGraphNode* n : net.GetNodes()) {
      bool mine = false;
      for (auto& k : N) if (k.n == n) mine = true;
      if (!mine) { for (auto& b : n->output_buffers) delete b.combined_tensor; delete n->layer; }
      delete n;
    }
  }
  M4 shape(const In& i) const { const Node& n = N[i.node]; return n.kind == 0 ? n.src[i.buf] : n.out[i.buf]; }

  // smooth layer on input of shape t
  ly::Case layer_for(Rng& r, const M4& t, bool params) {
    ly::Case c;
    int k = params ? 5 : (int)r.range(0, 7);
    Rng rr(r.next());
    if (k == 0 || k == 1) c = ly::pointwise(rr, 2, k ? "tanh" : "sigm");
    else if (k == 2) c = ly::pointwise(rr, 2, "hmax");
    else if (k == 3) c = ly::prior(rr, 2);
    else if (k == 4) {
      unsigned bx = r.range(0, 2), by = r.range(0, 2); size_t w = t.w, h = t.h, m = t.m;
      std::string d = fmt("resize(border=%ux%u)", bx, by);
      c.kind = "resize"; c.desc = d; c.make = [=]() -> Layer* { return LayerFactory::ConstructLayer(d); };
      ly::from_taps(c, V{M4(1, w + bx, h + by, m)}, [=](int) {
        std::vector<ly::Tap> q;
        for (size_t k2 = 0; k2 < m; k2++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) q.push_back(ly::Tap{0, x + bx / 2, y + by / 2, k2, x, y, k2, 1});
        return q; });
    } else {
      unsigned kw = r.range(1, std::min<size_t>(3, t.w)), kh = r.range(1, std::min<size_t>(3, t.h)), om = r.range(1, 3), im = t.m;
      unsigned px = r.chance(0.5) ? kw / 2 : 0, py = r.chance(0.5) ? kh / 2 : 0;
      std::string d = fmt("convolution(size=%ux%u kernels=%u pad=%ux%u)", kw, kh, om, px, py);
      c.kind = "convolution"; c.desc = d; c.make = [=]() -> Layer* { return LayerFactory::ConstructLayer(d); };
      int ow = (int)t.w + 2 * px - kw + 1, oh = (int)t.h + 2 * py - kh + 1;
      c.par.push_back(tu::random(r, om, kw, kh, im, -0.7, 0.7)); c.par.push_back(tu::random(r, 1, om, 1, 1, -0.5, 0.5));
      auto each = [=](const M4& x, std::function<void(size_t s, unsigned m, int ox, int oy, int ix, int iy, unsigned kx, unsigned ky, unsigned i)> f) {
        for (size_t s = 0; s < x.s; s++) for (unsigned m = 0; m < om; m++) for (int oy = 0; oy < oh; oy++) for (int ox = 0; ox < ow; ox++)
          for (unsigned i = 0; i < im; i++) for (unsigned ky = 0; ky < kh; ky++) for (unsigned kx = 0; kx < kw; kx++) {
            int ix = ox + (int)kx - (int)px, iy = oy + (int)ky - (int)py;
            if (ix < 0 || iy < 0 || ix >= (int)x.w || iy >= (int)x.h) continue;
            f(s, m, ox, oy, ix, iy, kx, ky, i);
          }
      };
      c.fwd = [=](const V& in, const V& par) {
        V o{M4(in[0].s, ow, oh, om)};
        for (size_t s = 0; s < in[0].s; s++) for (unsigned m = 0; m < om; m++) for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) o[0].at(x, y, m, s) = par[1].d[m];
        each(in[0], [&](size_t s, unsigned m, int ox, int oy, int ix, int iy, unsigned kx, unsigned ky, unsigned i) { o[0].at(ox, oy, m, s) += in[0].at(ix, iy, i, s) * par[0].at(kx, ky, i, m); });
        return o;
      };
      c.bwd = [=](const V& in, const V& par, const V& od, V& id, V& pd) {
        for (size_t s = 0; s < in[0].s; s++) for (unsigned m = 0; m < om; m++) for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) pd[1].d[m] += od[0].at(x, y, m, s);
        each(in[0], [&](size_t s, unsigned m, int ox, int oy, int ix, int iy, unsigned kx, unsigned ky, unsigned i) {
          pd[0].at(kx, ky, i, m) += od[0].at(ox, oy, m, s) * in[0].at(ix, iy, i, s); id[0].at(ix, iy, i, s) += od[0].at(ox, oy, m, s) * par[0].at(kx, ky, i, m); });
      };
    }
    if (c.kind == "spatialprior") {   // rebuild for this shape
      size_t w = t.w, h = t.h, m = t.m;
      c.fwd = [=](const V& in, const V&) {
        V o{M4(in[0].s, w, h, m + 2)};
        for (size_t s = 0; s < in[0].s; s++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
          o[0].at(x, y, 0, s) = (double)x / w; o[0].at(x, y, 1, s) = (double)y / h;
          for (size_t k2 = 0; k2 < m; k2++) o[0].at(x, y, k2 + 2, s) = in[0].at(x, y, k2, s);
        }
        return o; };
      c.bwd = [=](const V& in, const V&, const V& od, V& id, V&) {
        for (size_t s = 0; s < in[0].s; s++) for (size_t k2 = 0; k2 < m; k2++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) id[0].at(x, y, k2, s) = od[0].at(x, y, k2 + 2, s); };
    }
    return c;
  }
  ly::Case split(Rng& r, const M4& t) {
    ly::Case c; size_t w = t.w, h = t.h, m = t.m; std::vector<double> f; int K = (int)r.range(2, 3); for (int k = 0; k < K; k++) f.push_back(0.25 * r.range(1, 4) * (r.chance(0.5) ? 1 : -1));
    c.kind = c.desc = fmt("split%d", K); c.make = [=]() -> Layer* { return new Split(f); };
    ly::from_taps(c, V(K, M4(1, w, h, m)), [=](int o) {
      std::vector<ly::Tap> q;
      for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) q.push_back(ly::Tap{0, x, y, k, x, y, k, f[o]});
      return q; });
    return c;
  }
  ly::Case two(Rng& r, const M4& a, const M4& b) {
    bool cc = a.m != b.m || r.chance(0.5); ly::Case c; size_t w = a.w, h = a.h, m0 = a.m, m1 = b.m;
    c.kind = c.desc = cc ? "concatenation" : "sum";
    c.make = [=]() -> Layer* { return cc ? (Layer*)new ConcatenationLayer() : (Layer*)new SumLayer(); };
    ly::from_taps(c, V{M4(1, w, h, cc ? m0 + m1 : m0)}, [=](int) {
      std::vector<ly::Tap> q;
      for (int i = 0; i < 2; i++) for (size_t k = 0; k < (i ? m1 : m0); k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) q.push_back(ly::Tap{i, x, y, k + (cc && i ? m0 : 0), x, y, k, 1});
      return q; });
    return c;
  }

  void random(Rng& r, int max_nodes) {
    size_t S = r.big(1, 2, 16), w = r.big(1, 4, 24), h = r.big(1, 4, 24);
    Node s0; s0.kind = 0; int nb = (int)r.range(1, 2);
    for (int i = 0; i < nb; i++) s0.src.push_back(tu::random(r, S, w, h, r.range(1, 2)));
    N.push_back(s0);
    std::vector<In> vals; for (int i = 0; i < nb; i++) vals.push_back(In{0, i, true});
    if (r.chance(0.3)) { Node s1; s1.kind = 0; s1.src.push_back(tu::random(r, S, w, h, r.range(1, 2))); N.push_back(s1); vals.push_back(In{1, 0, true}); }
    int layers = (int)(r.chance(0.015) ? r.range(max_nodes, 4 * max_nodes) : r.range(1, max_nodes)), firstlayer = (int)N.size();
    for (int l = 0; l < layers; l++) {
      Node n; n.kind = 1;
      In a = vals[r.chance(0.5) ? vals.size() - 1 : r.range(0, vals.size() - 1)];
      bool done = false;
      if (r.chance(0.45)) {
        std::vector<In> cand; for (auto& v : vals) if (shape(v).w == shape(a).w && shape(v).h == shape(a).h) cand.push_back(v);
        In b = cand[r.range(0, cand.size() - 1)];
        if (shape(a).m + shape(b).m <= 8) { n.c = two(r, shape(a), shape(b)); n.ins = {a, b}; done = true; }
      }
      if (!done && l > 0 && r.chance(0.15)) { n.c = split(r, shape(a)); n.ins = {a}; done = true; }
      if (!done) { n.c = layer_for(r, shape(a), l == 0); n.ins = {a}; }
      n.par = n.c.par; V in; for (auto& i : n.ins) in.push_back(shape(i));
      n.out = n.c.fwd(in, n.par);
      N.push_back(n);
      for (size_t b = 0; b < n.out.size(); b++) vals.push_back(In{(int)N.size() - 1, (int)b, true});
    }
    // losses on 1..2 layer nodes
    int nl = (int)r.range(1, 2);
    std::vector<int> lossnodes;
    // every layer leads to a loss
    std::vector<In> dead; bool leave = r.chance(0.15);
    for (int q = firstlayer; q < firstlayer + layers; q++) for (int b = q == firstlayer + layers - 1; b < (int)N[q].out.size(); b++) { bool used = false; for (auto& n : N) for (auto& in : n.ins) used |= in.node == q && in.buf == b; if (!used) dead.push_back(In{q, b, true}); }
    for (int i = 0; i < 2 + (int)dead.size(); i++) {
      if (i == 1 && nl == 1) continue;
      if (i >= 2 && leave) continue;   // outputs that nobody uses
      int t = i == 0 ? (int)N.size() - 1 : (int)r.range(firstlayer, firstlayer + layers - 1);
      if (i == 0) t = firstlayer + layers - 1;
      if (i >= 2) t = dead[i - 2].node;
      int tb = i == 0 ? 0 : i == 1 ? (int)r.range(0, (int64_t)N[t].out.size() - 1) : dead[i - 2].buf;
      Node src; src.kind = 0; M4 sh = N[t].out[tb];
      src.src.push_back(tu::random(r, S, sh.w, sh.h, sh.m)); src.src.push_back(tu::random(r, S, sh.w, sh.h, 1, 0, 2)); N.push_back(src);
      int sid = (int)N.size() - 1;
      Node n; n.kind = 2; n.lw = r.chance(0.5) ? 1.0f : (float)(r.real(0.2, 2) * (r.chance(0.1) ? -1 : 1)); n.ins = {In{t, tb, true}, In{sid, 0, r.chance(0.5)}, In{sid, 1, r.chance(0.5)}};
      N.push_back(n); lossnodes.push_back((int)N.size() - 1);
    }
    // some connections carry no gradient
    if (r.chance(0.4)) for (auto& n : N) if (n.kind == 1 || (n.kind == 2 && r.chance(0.5))) for (auto& in : n.ins) if (N[in.node].kind == 1 && r.chance(0.3)) { in.bp = false; stops++; }
    int nw = (int)r.range(0, 2);
    for (int i = 0; i < nw; i++) { Node n; n.kind = 3; int wn = (int)r.range(firstlayer, firstlayer + layers - 1); n.ins = {In{wn, (int)r.range(0, (int64_t)N[wn].out.size() - 1), false}}; N.push_back(n); }
    for (size_t i = 0; i < N.size(); i++) order.push_back((int)i);
    if (r.chance(0.5)) for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[r.range(0, k - 1)]);
    desc = fmt("%zu nodes [", N.size());
    for (auto& n : N) if (n.kind == 1) { desc += n.c.kind + "("; for (auto& i : n.ins) desc += fmt(i.bp ? "%d.%d " : "%d.%d! ", i.node, i.buf); desc += ") "; }
    desc += "]";
  }
  void build() {
    int id = 0;
    for (auto& n : N) {
      if (n.kind == 0) n.layer = new Source(n.src);
      else if (n.kind == 1) { n.layer = n.spy = new Spy(n.c.make(), id, &log); }
      else if (n.kind == 2) { SpyLoss* s = new SpyLoss(new ErrorLayer(n.lw), id, &log); n.layer = n.spy = s; }
      else n.layer = new Watcher();
      n.n = new NetGraphNode(n.layer);
      n.n->is_input = n.kind == 0;
      id++;
    }
    bool outset = false;
    for (size_t i = N.size(); i-- > 0;) if (N[i].kind == 1 && !outset) { N[i].n->is_output = true; outset = true; }
    for (auto& n : N) for (auto& i : n.ins) n.n->input_connections.push_back(NetGraphConnection(N[i.node].n, i.buf, i.bp));
    for (int i : order) net.AddNode(N[i].n);
  }
  void load() {
    for (auto& n : N) {
      if (n.kind == 0) ((Source*)n.layer)->s_ = n.src;
      if (n.kind == 1) for (size_t k = 0; k < n.par.size(); k++) tu::put(n.layer->parameters()[k]->data, n.par[k]);
    }
  }
  void randomise_inputs(Rng& r) { for (auto& n : N) if (n.kind == 0) for (auto& t : n.src) { bool wt = &t != &n.src[0]; for (auto& v : t.d) v = wt ? tu::rfloat(r, 0, 2) : tu::rfloat(r, -1, 1); } }
  double loss() {
    double l = 0;
    for (auto& n : N) if (n.kind == 2) {
      M4 a = shape(n.ins[0]), b = shape(n.ins[1]), wt = shape(n.ins[2]);
      for (size_t s = 0; s < a.s; s++) for (size_t k = 0; k < a.m; k++) for (size_t y = 0; y < a.h; y++) for (size_t x = 0; x < a.w; x++) {
        double d = a.at(x, y, k, s) - b.at(x, y, k, s); l += 0.5 * d * d * wt.at(x, y, 0, s) * n.lw; }
    }
    return l;
  }
  void ref_forward() { for (auto& n : N) if (n.kind == 1) { V in; for (auto& i : n.ins) in.push_back(shape(i)); n.out = n.c.fwd(in, n.par); } }
  void ref_backward() {
    for (auto& n : N) { n.odelta.clear(); n.pdelta.clear(); for (auto& o : n.out) n.odelta.push_back(M4(o.s, o.w, o.h, o.m)); for (auto& p : n.par) n.pdelta.push_back(M4(p.s, p.w, p.h, p.m)); }
    for (size_t q = N.size(); q-- > 0;) {
      Node& n = N[q];
      if (n.kind != 2) continue;
      if (!n.ins[0].bp) continue;
      M4 a = shape(n.ins[0]), b = shape(n.ins[1]), wt = shape(n.ins[2]);
      for (size_t s = 0; s < a.s; s++) for (size_t k = 0; k < a.m; k++) for (size_t y = 0; y < a.h; y++) for (size_t x = 0; x < a.w; x++)
        N[n.ins[0].node].odelta[n.ins[0].buf].at(x, y, k, s) += (a.at(x, y, k, s) - b.at(x, y, k, s)) * wt.at(x, y, 0, s) * n.lw;
    }
    for (size_t q = N.size(); q-- > 0;) {
      Node& n = N[q];
      if (n.kind != 1) continue;
      V in, id; for (auto& i : n.ins) { in.push_back(shape(i)); id.push_back(M4(in.back().s, in.back().w, in.back().h, in.back().m)); }
      n.c.bwd(in, n.par, n.odelta, id, n.pdelta);
      for (size_t k = 0; k < n.ins.size(); k++) if (N[n.ins[k].node].kind == 1 && n.ins[k].bp) { M4& t = N[n.ins[k].node].odelta[n.ins[k].buf]; for (size_t e = 0; e < t.n(); e++) t.d[e] += id[k].d[e]; }
    }
  }
  // does anything send gradients to this output
  bool fed(int i, int b) const { for (auto& n : N) for (auto& in : n.ins) if (in.node == i && in.buf == b && in.bp) return true; return false; }
  // does any path lead from node to a loss
  bool reaches_loss(int i) const {
    for (size_t q = 0; q < N.size(); q++) for (auto& in : N[q].ins) if (in.node == i && (N[q].kind == 2 || (N[q].kind == 1 && reaches_loss((int)q)))) return true;
    return false;
  }
};
}  // namespace gr
