// C31: a layer accepts exactly the inputs it can process.  Every layer is
// offered inputs that fit and inputs that are wrong in one place (a dimension,
// the number of tensors, a missing tensor), directly and inside a network;
// what is accepted must then compute all of its outputs, what is not accepted
// must be refused by an answer or an exception.
#include "graph.h"
#include "BinaryStatLayer.h"
#include "ConfusionMatrixLayer.h"
using namespace gr;
using namespace vh;
typedef std::array<size_t, 4> Sh;                               // samples, width, height, maps
typedef std::vector<Sh> Shs;
static std::string str(const Sh& s) { return fmt("%zus@%zux%zux%zum", s[0], s[1], s[2], s[3]); }
static std::string str(const Shs& v) { std::string r; for (auto& s : v) r += (r.empty() ? "" : ", ") + (s[0] ? str(s) : std::string("none")); return v.empty() ? "no inputs" : r; }
enum Verdict { NO = 0, YES = 1, ANY = 2 };
struct Kind {
  std::string name; std::function<Layer*()> make; Shs good; std::function<Verdict(const Shs&)> fits; std::function<Shs(const Shs&)> outs;
  bool bp = true; int checks = 0;   // output shape: 1 width/height, 2 all dimensions, 4 number of elements
};

static Kind random_kind(Rng& r) {
  Kind k; Sh b{(size_t)r.range(1, 3), (size_t)r.size(1, 9), (size_t)r.size(1, 9), (size_t)r.size(1, 6)};
  auto same = [](const Sh& i, size_t w, size_t h, size_t m) { return Shs{Sh{i[0], w, h, m}}; };
  auto point = [&](std::string n, std::function<Layer*()> f) { k.name = n; k.make = f; k.good = {b}; k.fits = [](const Shs&) { return YES; }; k.outs = [](const Shs& v) { return Shs{v[0]}; }; k.checks = 2; };
  bool text = r.chance(0.5);
  switch (r.range(0, 17)) {
    case 0: case 1: {
      size_t kw = r.size(1, 5), kh = r.size(1, 5), sx = r.size(1, 3), sy = r.size(1, 3), px = r.range(0, 2), py = r.range(0, 2), g = r.chance(0.5) ? 1 : r.range(1, 3), om = g * r.range(1, 3);
      b[3] = g * r.range(1, 3); if (b[1] + 2 * px < kw) b[1] = kw; if (b[2] + 2 * py < kh) b[2] = kh;
      if (r.chance(0.5)) { if (kw > 2 * px) b[1] = kw - 2 * px; if (kh > 2 * py) b[2] = kh - 2 * py; }
      k.name = fmt("convolution(size=%zux%zu stride=%zux%zu pad=%zux%zu group=%zu kernels=%zu)", kw, kh, sx, sy, px, py, g, om); std::string d = k.name;
      k.make = [=]() -> Layer* { if (text) return LayerFactory::ConstructLayer(d); return new ConvolutionLayer(kw, kh, om, sx, sy, px, py, g); };
      k.good = {b}; k.fits = [=](const Shs& v) { const Sh& i = v[0]; return i[1] + 2 * px >= kw && i[2] + 2 * py >= kh && i[3] % g == 0 ? YES : NO; };
      k.outs = [=](const Shs& v) { return same(v[0], (v[0][1] + 2 * px - kw) / sx + 1, (v[0][2] + 2 * py - kh) / sy + 1, om); }; k.checks = 1; break; }
    case 2: case 3: {
      size_t rw = r.range(0, 4) ? r.range(1, 4) : r.range(0, 2), rh = r.range(0, 4) ? r.range(1, 4) : r.range(0, 2); bool zero = !rw || !rh; int which = (int)r.range(0, 1);
      b[1] *= rw ? rw : 1; b[2] *= rh ? rh : 1; k.name = fmt(which ? "InputDownSamplingLayer(%zu, %zu)" : "maxpooling(size=%zux%zu)", rw, rh); std::string d = k.name;
      k.make = [=]() -> Layer* { if (which) return new InputDownSamplingLayer(rw, rh); if (text) return LayerFactory::ConstructLayer(d); return new MaxPoolingLayer(rw, rh); };
      k.good = {b}; k.fits = [=](const Shs& v) { return !zero && v[0][1] % rw == 0 && v[0][2] % rh == 0 ? YES : NO; }; k.outs = [=](const Shs& v) { return same(v[0], v[0][1] / rw, v[0][2] / rh, v[0][3]); }; k.bp = !which; break; }
    case 4: {
      size_t rw = r.range(0, 5) ? r.range(1, 4) : 0, rh = r.range(0, 5) ? r.range(1, 4) : 0, sx = r.range(0, 8) ? r.range(1, 3) : 0, sy = r.range(0, 8) ? r.range(1, 3) : 0; bool zero = !rw || !rh || !sx || !sy;
      b[1] = std::max(b[1], rw); b[2] = std::max(b[2], rh); if (r.chance(0.5)) { b[1] = std::max<size_t>(1, rw); b[2] = std::max<size_t>(1, rh); }
      k.name = fmt("amaxpooling(size=%zux%zu stride=%zux%zu)", rw, rh, sx, sy); std::string d = k.name;
      k.make = [=]() -> Layer* { if (text) return LayerFactory::ConstructLayer(d); return new AdvancedMaxPoolingLayer(rw, rh, sx, sy); };
      k.good = {b}; k.fits = [=](const Shs& v) { return !zero && v[0][1] >= rw && v[0][2] >= rh ? YES : NO; }; k.outs = [=](const Shs& v) { return same(v[0], (v[0][1] - rw) / sx + 1, (v[0][2] - rh) / sy + 1, v[0][3]); }; break; }
    case 5: point("tanh", [] { return (Layer*)new TanhLayer(); }); break;
    case 6: point("sigm", [] { return (Layer*)new SigmoidLayer(); }); break;
    case 7: point("relu", [] { return (Layer*)new ReLULayer(); }); break;
    case 8: point("hmax", [] { return (Layer*)new HMaxActivationFunction(0.5, 0); }); break;
    case 9: { unsigned n = (unsigned)r.range(1, 5); auto m = r.chance(0.5) ? LocalResponseNormalizationLayer::ACROSS_CHANNELS : LocalResponseNormalizationLayer::WITHIN_CHANNELS; point("lrn", [=] { return (Layer*)new LocalResponseNormalizationLayer(n, 0.5, 0.75, m); }); k.checks = 0; k.bp = m == LocalResponseNormalizationLayer::ACROSS_CHANNELS; break; }
    case 10: { unsigned bx = (unsigned)r.range(0, 4), by = (unsigned)r.range(0, 4); point(fmt("ResizeLayer(%u, %u)", bx, by), [=] { return (Layer*)new ResizeLayer(bx, by); }); k.outs = [=](const Shs& v) { return same(v[0], v[0][1] + bx, v[0][2] + by, v[0][3]); }; break; }
    case 11: { unsigned bx = (unsigned)r.range(1, 3), by = (unsigned)r.range(1, 3); point(fmt("UpscaleLayer(%u, %u)", bx, by), [=] { return (Layer*)new UpscaleLayer(bx, by); }); k.outs = [=](const Shs& v) { return same(v[0], v[0][1] * bx, v[0][2] * by, v[0][3]); }; k.checks = 0; break; }
    case 12: point("SpatialPriorLayer", [] { return (Layer*)new SpatialPriorLayer(); }); k.outs = [=](const Shs& v) { return same(v[0], v[0][1], v[0][2], v[0][3] + 2); }; break;
    case 13: k.name = "SumLayer"; k.make = [] { return (Layer*)new SumLayer(); }; k.good = {b, b}; k.fits = [](const Shs& v) { return v[0] == v[1] ? YES : NO; }; k.outs = [](const Shs& v) { return Shs{v[0]}; }; k.checks = 4; break;
    case 14: { Sh c = b; c[3] = r.size(1, 6); k.name = "ConcatenationLayer"; k.make = [] { return (Layer*)new ConcatenationLayer(); }; k.good = {b, c}; k.fits = [](const Shs& v) { return v[0][0] == v[1][0] && v[0][1] == v[1][1] && v[0][2] == v[1][2] ? YES : NO; }; k.outs = [=](const Shs& v) { return same(v[0], v[0][1], v[0][2], v[0][3] + v[1][3]); }; k.checks = 4; break; }
    case 15: { unsigned n = (unsigned)r.range(1, 4); k.name = fmt("GradientAccumulationLayer(%u)", n); k.make = [=] { return (Layer*)new GradientAccumulationLayer(n); }; k.good = {b}; k.fits = [](const Shs&) { return YES; }; k.outs = [=](const Shs& v) { return Shs(n, v[0]); }; k.checks = 4; break; }
    case 16: { Sh w = b; if (r.chance(0.7)) w[3] = 1; k.name = "ErrorLayer"; k.make = [] { return (Layer*)new ErrorLayer(); }; k.good = {b, b, w};
      k.fits = [](const Shs& v) { return v[0] == v[1] && v[0][0] == v[2][0] && v[0][1] == v[2][1] && v[0][2] == v[2][2] ? YES : NO; }; k.outs = [](const Shs&) { return Shs{}; }; break; }
    default: { unsigned n = (unsigned)r.range(2, 6); bool bin = r.chance(0.4); if (bin) b[3] = 1; else b[3] = n; Sh w = b; w[3] = 1; k.good = {b, b, w}; k.bp = false; k.outs = [](const Shs&) { return Shs{}; };
      auto el = [](const Sh& s) { return s[0] * s[1] * s[2] * s[3]; };
      if (bin) { k.name = "BinaryStatLayer"; k.make = [] { return (Layer*)new BinaryStatLayer(); }; k.fits = [=](const Shs& v) { return v[0][0] != v[1][0] || v[0][0] != v[2][0] || el(v[0]) != el(v[1]) || el(v[0]) != el(v[2]) ? NO : v[0] == v[1] && v[0] == v[2] ? YES : ANY; }; }
      else { k.name = fmt("ConfusionMatrixLayer(%u classes)", n); k.make = [=] { return (Layer*)new ConfusionMatrixLayer(std::vector<std::string>(n, "x"), n); };
        k.fits = [=](const Shs& v) { bool s = v[0][0] == v[2][0] && v[0][1] == v[2][1] && v[0][2] == v[2][2] && v[0][1] == v[1][1] && v[0][2] == v[1][2] && el(v[0]) == el(v[1]); return !s || v[0][3] > n || v[1][3] > n ? NO : v[0] == v[1] && v[2][3] == 1 ? YES : ANY; }; } }
  }
  return k;
}

// changes one thing; the result may still fit
static Shs spoil(Rng& r, Shs v, bool direct) {
  if (v.empty()) return v;
  int how = (int)r.range(0, direct ? 11 : 9); size_t i = r.range(0, v.size() - 1), d = r.range(0, 3);
  if (how < 8) { Sh& s = v[i]; if (s[0]) switch (r.range(0, 3)) { case 0: s[d]++; break; case 1: if (s[d] > 1) s[d]--; else s[d]++; break; case 2: s[d] *= 2; break; default: std::swap(s[1], s[2]); if (s[1] == s[2]) std::swap(s[0], s[3]); } }
  else if (how == 8) v.erase(v.begin() + i);
  else if (how == 9) v.insert(v.begin() + i, v[i]);
  else v[i] = Sh{0, 0, 0, 0};
  return v;
}
static Verdict verdict(const Kind& k, const Shs& v) { if (v.size() != k.good.size()) return NO; for (auto& s : v) if (!s[0]) return NO; return k.fits(v); }
static void fill(Rng& r, CombinedTensor* t) { for (size_t e = 0; e < t->data.elements(); e++) { t->data.data_ptr()[e] = (float)r.real(-1, 1); t->delta.data_ptr()[e] = 0; } }

struct Answer { bool ok = false; std::string what; };
static Answer ask(const std::function<bool()>& f) { Answer a; try { a.ok = f(); a.what = a.ok ? "accepted" : "refused"; } catch (std::runtime_error& e) { a.what = std::string("exception"); } return a; }

static void direct(Rng& r) {
  Kind k = random_kind(r); Shs in = r.chance(0.35) ? k.good : spoil(r, k.good, true); if (r.chance(0.15)) in = spoil(r, in, true); Verdict want = verdict(k, in);
  note(k.name + " given " + str(in)); count(want == YES ? "fitting inputs offered" : want == NO ? "unfitting inputs offered" : "inputs offered that may be refused or not");
  std::unique_ptr<Layer> l; if (!ask([&] { l.reset(k.make()); return l != nullptr; }).ok) { fail("construct:" + k.name.substr(0, k.name.find('(')), "the layer cannot be built"); return; }
  std::vector<std::unique_ptr<CombinedTensor>> own; std::vector<CombinedTensor*> i, o; for (auto& s : in) { if (!s[0]) { i.push_back(nullptr); continue; } own.emplace_back(new CombinedTensor(s[0], s[1], s[2], s[3])); i.push_back(own.back().get()); fill(r, i.back()); }
  std::string sig = k.name.substr(0, k.name.find('(')); static NetGraph status; status.SetIsTesting(true);
  Answer c = ask([&] { return l->CreateOutputs(i, o); }); for (auto* t : o) own.emplace_back(t);
  bool ok = c.ok; if (ok) {
    if (want == YES) { Shs e = k.outs(in); bool sh = e.size() == o.size(); for (size_t q = 0; sh && q < e.size(); q++) { Tensor& t = o[q]->data; sh = t.samples() == e[q][0] && t.width() == e[q][1] && t.height() == e[q][2] && t.maps() == e[q][3]; } if (!sh) { fail("outputs:" + sig, "the layer's outputs do not have the promised shape"); return; } count("output shapes compared"); }
    // outputs that are not the layer's: refused where the layer looks at them
    if (want == YES && r.chance(0.4)) {
      std::vector<CombinedTensor*> w = o; std::string d; int how = (int)r.range(0, 4); size_t q = o.empty() ? 0 : r.range(0, o.size() - 1); bool sure = true;
      if (o.empty() || how == 0) { own.emplace_back(new CombinedTensor(1, 1, 1, 1)); w.push_back(own.back().get()); d = "one output too many"; }
      else if (how == 1) { w.pop_back(); d = "one output too few"; }
      else if (how == 2) { w[q] = nullptr; d = "no tensor for an output"; }
      else { Tensor& t = o[q]->data; size_t s[4] = {t.samples(), t.width(), t.height(), t.maps()}; size_t dim = r.range(0, 3); if (s[dim] > 1 && r.chance(0.5)) s[dim]--; else s[dim]++; own.emplace_back(new CombinedTensor(s[0], s[1], s[2], s[3])); w[q] = own.back().get(); d = "an output of the wrong size"; sure = k.checks == 2 || k.checks == 4 || (k.checks == 1 && (dim == 1 || dim == 2)); }
      if (sure) { note(G().note + " connected to " + d); std::unique_ptr<Layer> l2(k.make()); Layer& b = *l2; std::vector<CombinedTensor*> o2; b.CreateOutputs(i, o2); for (auto* t : o2) own.emplace_back(t); Answer a = ask([&] { return b.Connect(i, w, &status); }); if (a.ok) { fail("connect:" + sig, "the layer connects to " + d); return; } count("unfitting outputs refused"); }
    }
    Answer a = ask([&] { return l->Connect(i, o, &status); }); ok = a.ok; }
  if (ok && want == NO) { fail("accepts:" + sig, "the layer accepts inputs it cannot process"); return; }
  if (!ok && want == YES) { fail("refuses:" + sig, "the layer refuses inputs it can process (" + c.what + ")"); return; }
  if (!ok) { count("unfitting inputs refused"); nontrivial(G().note); return; }
  // accepted: everything is computed
  for (auto* t : o) for (size_t e = 0; e < t->data.elements(); e++) { if (sig != "GradientAccumulationLayer") t->data.data_ptr()[e] = NAN; t->delta.data_ptr()[e] = (float)r.real(-1, 1); }
  Rng rr(r.next()); for (auto* p : l->parameters()) fill(rr, p); if (k.bp) for (auto* t : i) for (size_t e = 0; e < t->delta.elements(); e++) t->delta.data_ptr()[e] = NAN; l->FeedForward();
  for (auto* t : o) for (size_t e = 0; e < t->data.elements(); e++) if (std::isnan(t->data.data_ptr()[e])) { fail("unwritten:" + sig, fmt("output element %zu is not computed", e)); return; }
  if (k.bp) { l->SetBackpropagationEnabled(true); l->BackPropagate(); size_t n = sig == "ErrorLayer" ? 1 : i.size();
    for (size_t q = 0; q < n; q++) for (size_t e = 0; e < i[q]->delta.elements(); e++) if (std::isnan(i[q]->delta.data_ptr()[e])) { fail("undelta:" + sig, fmt("gradient element %zu of input %zu is not computed", e, q)); return; } }
  count("accepted layers run"); nontrivial(G().note);
}

// the same inside a network: initializing it either works or throws
static void network(Rng& r) {
  Kind k = random_kind(r); Shs in = r.chance(0.35) ? k.good : spoil(r, k.good, false); Verdict want = verdict(k, in);
  note("network with " + k.name + " given " + str(in)); count("networks offered"); std::string sig = k.name.substr(0, k.name.find('('));
  NetGraph g; std::vector<std::unique_ptr<NetGraphNode>> own; std::vector<std::unique_ptr<Layer>> lay; auto add = [&](Layer* l) { lay.emplace_back(l); own.emplace_back(new NetGraphNode(l)); return own.back().get(); };
  std::vector<NetGraphNode*> src; bool several = r.chance(0.5); V all; for (auto& s : in) all.push_back(tu::random(r, s[0], s[1], s[2], s[3]));
  if (several) for (auto& m : all) src.push_back(add(new Source(V{m}))); else if (!all.empty()) src.push_back(add(new Source(all)));
  if (all.empty()) src.push_back(add(new Source(V{tu::random(r, 1, 2, 2, 1)}))); for (auto* s : src) s->is_input = true;
  NetGraphNode* n = add(k.make()); for (size_t q = 0; q < all.size(); q++) n->input_connections.push_back(several ? NetGraphConnection(src[q], 0, false) : NetGraphConnection(src[0], (unsigned)q, false)); n->is_output = true;
  std::vector<NetGraphNode*> order; for (auto& u : own) order.push_back(u.get()); if (r.chance(0.5)) std::reverse(order.begin(), order.end()); for (auto* q : order) g.AddNode(q);
  g.SetIsTesting(true); Answer a = ask([&] { g.Initialize(); return true; });
  if (a.ok && want == NO) fail("network-accepts:" + sig, "a network with a layer that cannot process its inputs is initialized"); else if (!a.ok && want == YES) fail("network-refuses:" + sig, "a correct network is not initialized");
  else { if (a.ok) { g.FeedForward(); count("networks run"); } else count("networks refused"); nontrivial(G().note); }
  for (auto& u : own) for (auto& b : u->output_buffers) delete b.combined_tensor;
}

// input layers: data, label, helper and weights belong together
static void inputs(Rng& r) {
  Sh b{(size_t)r.range(1, 4), (size_t)r.size(1, 8), (size_t)r.size(1, 8), (size_t)r.size(1, 4)}; std::vector<Sh> s; int n = r.chance(0.3) ? 1 : r.chance(0.4) ? 2 : 4;
  for (int q = 0; q < n; q++) s.push_back(q == 0 ? b : Sh{b[0], (size_t)r.size(1, 8), (size_t)r.size(1, 8), (size_t)r.size(1, 3)}); bool good = true; if (n > 1 && r.chance(0.5)) { size_t q = r.range(1, n - 1); s[q][0] += r.chance(0.5) ? 1 : b[0]; good = false; if (r.chance(0.3)) { s[q][0] = b[0]; good = true; } }
  note(fmt("input layer of %d tensors: ", n) + str(s)); count("input layers offered"); std::vector<std::unique_ptr<Tensor>> t; V val; for (auto& q : s) { val.push_back(tu::random(r, q[0], q[1], q[2], q[3])); t.emplace_back(new Tensor(q[0], q[1], q[2], q[3])); tu::put(*t.back(), val.back()); }
  std::unique_ptr<InputLayer> l; Answer a = ask([&] { l.reset(n == 1 ? new InputLayer(*t[0]) : n == 2 ? new InputLayer(*t[0], *t[1]) : new InputLayer(*t[0], *t[1], *t[2], *t[3])); return true; });
  if (a.ok != good) { fail(good ? "input-refused" : "input-accepted", good ? "tensors of equal sample counts are refused" : "tensors of different sample counts are accepted"); return; }
  nontrivial(G().note); if (!a.ok) { count("input layers refused"); return; }
  std::vector<std::unique_ptr<CombinedTensor>> own; std::vector<CombinedTensor*> i, o; CombinedTensor extra(1, 1, 1, 1); i.push_back(&extra); Layer& L = *l; NetGraph net;
  if (ask([&] { return L.CreateOutputs(i, o); }).ok) { fail("input-inputs", "an input layer accepts inputs"); return; } o.clear(); i.clear();
  if (!ask([&] { return L.CreateOutputs(i, o) && L.Connect(i, o, &net); }).ok || o.size() != 4) { fail("input-outputs", fmt("an input layer does not create its outputs (%zu)", o.size())); return; }
  for (auto* p : o) own.emplace_back(p); L.FeedForward();
  int at[4] = {0, n == 2 ? 2 : 1, 2, 3};     // which output shows which tensor
  for (int q = 0; q < n; q++) { Tensor& x = o[at[q]]->data; if (x.samples() != s[q][0] || x.width() != s[q][1] || x.height() != s[q][2] || x.maps() != s[q][3]) { fail("input-shape", fmt("output %d has another shape than tensor %d", at[q], q)); return; } for (size_t e = 0; e < x.elements(); e++) if (x.data_ptr_const()[e] != (float)val[q].d[e]) { fail("input-content", fmt("output %d differs from tensor %d at %zu", at[q], q, e)); return; } Tensor& dl = o[at[q]]->delta; if (dl.elements() != x.elements()) { fail("input-delta", fmt("gradient of output %d has %zu elements, data %zu", at[q], (size_t)dl.elements(), (size_t)x.elements())); return; } }
  for (int q = 0; q < 4; q++) if (o[q]->data.samples() != b[0]) { fail("input-samples", fmt("output %d has another sample count", q)); return; }
  std::vector<CombinedTensor*> w = o; int how = (int)r.range(0, 2); if (how == 0) w.push_back(&extra); else if (how == 1) { w.pop_back(); w.pop_back(); } else w[r.range(0, 3)] = nullptr; i.clear(); if (ask([&] { return L.Connect(i, w, &net); }).ok) { fail("input-connect", "an input layer connects to a wrong set of outputs"); return; }
  count("input layers run");
}

static void one(Rng& r, int64_t c) { if (c % 12 == 11) inputs(r); else if (c % 3 == 2) network(r); else direct(r); }
int main(int argc, char** argv) { return vh::run(argc, argv, "c31_fit", one, [] { tu::init(); }); }
