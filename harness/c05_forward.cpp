// C05: what every layer writes to its outputs is its mathematical definition,
// on every forward pass of a history of passes; incompatible inputs are refused.
#include "layers.h"
#include <set>
using namespace ly;
using namespace vh;

static void error_layer(Rng& r) {
  float lw = r.chance(0.5) ? 1.0f : (float)r.real(0.1, 3);
  size_t s = r.size(1, 4), w = r.range(1, 8), h = r.range(1, 8), m = r.range(1, 4);
  note(fmt("ErrorLayer(%g) %zus@%zux%zux%zum", lw, s, w, h, m));
  ErrorLayer L(lw);
  CombinedTensor a(s, w, h, m), b(s, w, h, m), c(s, w, h, 1);
  std::vector<CombinedTensor*> in{&a, &b, &c}, out;
  NetStatus st;
  if (!L.CreateOutputs(in, out) || !out.empty() || !L.Connect(in, out, &st)) { fail("error-layer-refused", "error layer refused matching inputs"); return; }
  for (int pass = 0; pass < 3; pass++) {
    M4 A = tu::random(r, s, w, h, m), B = tu::random(r, s, w, h, m), C = tu::random(r, s, w, h, 1, 0, 2);
    if (r.chance(0.3)) for (auto& v : C.d) if (r.chance(0.5)) v = 0;
    if (r.chance(0.15)) for (auto& v : C.d) if (r.chance(0.3)) v = -v;
    tu::put(a.data, A); tu::put(b.data, B); tu::put(c.data, C);
    L.FeedForward();
    double loss = 0, mag = 0;
    for (size_t i = 0; i < s; i++) for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
      double d = A.at(x, y, k, i) - B.at(x, y, k, i), wt = C.at(x, y, 0, i);
      loss += 0.5 * d * d * wt * lw; mag += 0.5 * d * d * std::fabs(wt) * lw;
    }
    double got = L.CalculateLossFunction();
    count("loss values compared");
    if (!vh::close(got, loss, mag)) fail("loss", fmt("loss %g, definition %g", got, loss));
    L.BackPropagate();
    for (size_t i = 0; i < A.n(); i++) if ((float)A.d[i] != tu::cpu(a.data).data_ptr_const()[i]) { fail("input-modified", "error layer changed its input"); return; }
  }
  nontrivial(G().note);
}

// configurations that do not fit together must be refused, not computed
static void refusal(Rng& r) {
  std::string d; size_t s = r.range(1, 3), w = r.range(1, 8), h = r.range(1, 8), m = r.range(1, 4);
  std::vector<std::array<size_t, 4>> shapes{{s, w, h, m}};
  std::function<Layer*()> mk; bool must = true;
  switch (r.range(0, 13)) {
    case 13: { bool z = r.chance(0.5); d = fmt("InputDownSamplingLayer(%d,%d)", !z, (int)z); mk = [=] { return new InputDownSamplingLayer(!z, z); }; break; }
    case 11: { unsigned v[6] = {1, 1, 1, 1, 1, 2}; int z = (int)r.range(0, 5); v[z] = z == 5 ? 3 : 0; unsigned kx = v[0], ky = v[1], sx = v[2], sy = v[3], g = v[4] ? v[5] : 0;   // 2 kernels
               d = fmt("ConvolutionLayer(%u,%u,2,%u,%u,0,0,%u)", kx, ky, sx, sy, g); shapes[0][3] = 6; mk = [=] { return new ConvolutionLayer(kx, ky, 2, sx, sy, 0, 0, g, 7, 0); }; break; }
    case 12: { unsigned v[4] = {1, 1, 1, 1}; bool adv = r.chance(0.5); int z = (int)r.range(0, adv ? 3 : 1); v[z] = 0; unsigned a = v[0], b = v[1], x = v[2], y = v[3];
               d = fmt(adv ? "AdvancedMaxPoolingLayer(%u,%u,%u,%u)" : "MaxPoolingLayer(%u,%u)", a, b, x, y); mk = [=]() -> Layer* { if (adv) return new AdvancedMaxPoolingLayer(a, b, x, y); return new MaxPoolingLayer(a, b); }; break; }
    case 0: { bool xd = r.chance(0.5); unsigned kw = xd ? w + r.range(1, 4) : r.range(1, w), kh = xd ? r.range(1, h) : h + r.range(1, 4);
              d = fmt("convolution(size=%ux%u kernels=2)", kw, kh); mk = [=] { return LayerFactory::ConstructLayer(d); }; break; }
    case 1: { unsigned g = r.range(2, 5); m = g * r.range(1, 2) + r.range(1, g - 1); shapes[0][3] = m;
              d = fmt("convolution(size=1x1 kernels=%u group=%u)", g * 2, g); mk = [=] { return LayerFactory::ConstructLayer(d); }; break; }
    case 2: { unsigned g = r.range(2, 5); d = fmt("convolution(size=1x1 kernels=%u group=%u)", (unsigned)(g + r.range(1, g - 1)), g); shapes[0][3] = g;
              mk = [=] { return LayerFactory::ConstructLayer(d); }; break; }
    case 3: { unsigned q = r.range(2, 4); shapes[0][1] = q * r.range(1, 3) + r.range(1, q - 1); d = fmt("maxpooling(size=%ux1)", q); mk = [=] { return LayerFactory::ConstructLayer(d); }; break; }
    case 4: { unsigned q = r.range(2, 4); shapes[0][2] = q * r.range(1, 3) + r.range(1, q - 1); d = fmt("maxpooling(size=1x%u)", q); mk = [=] { return LayerFactory::ConstructLayer(d); }; break; }
    case 5: { unsigned q = r.range(2, 4); shapes[0][r.chance(0.5) ? 1 : 2] += q * 0 ; shapes[0][1] = q * r.range(1, 3) + r.range(1, q - 1); d = fmt("InputDownSamplingLayer(%u,1)", q); mk = [=] { return new InputDownSamplingLayer(q, 1); }; break; }
    case 6: { bool xd = r.chance(0.5); d = fmt("amaxpooling(size=%zux%zu stride=1x1)", xd ? w + r.range(1, 3) : (size_t)1, xd ? (size_t)1 : h + r.range(1, 3)); mk = [=] { return LayerFactory::ConstructLayer(d); }; break; }
    case 7: { d = "SumLayer"; shapes.push_back(shapes[0]); shapes[1][r.range(0, 3)] += r.range(1, 2); mk = [] { return new SumLayer(); }; break; }
    case 8: { d = "ConcatenationLayer"; shapes.push_back(shapes[0]); shapes[1][r.range(0, 2)] += r.range(1, 2); mk = [] { return new ConcatenationLayer(); }; break; }
    case 9: { d = "ErrorLayer"; shapes.push_back(shapes[0]); shapes.push_back(shapes[0]); shapes[2][3] = 1;
              if (r.chance(0.5)) shapes[1][r.range(0, 3)] += 1; else if (r.chance(0.3)) { if (w != h) std::swap(shapes[1][1], shapes[1][2]); else shapes[1][0]++; } else shapes[2][r.range(0, 2)] += 1; mk = [] { return new ErrorLayer(); }; break; }
    default: { static const char* z[] = {"convolution(size=0x1 kernels=1)", "convolution(size=1x0 kernels=1)", "convolution(size=1x1 kernels=1 stride=0x1)",
                                         "convolution(size=1x1 kernels=1 stride=1x0)", "convolution(size=1x1 kernels=1 group=0)", "convolution(kernels=2)",
                                         "maxpooling(size=0x1)", "maxpooling(size=1x0)", "amaxpooling(size=0x1)", "amaxpooling(size=1x1 stride=0x1)", "amaxpooling(size=1x1 stride=1x0)"};
               d = z[r.range(0, 10)]; mk = [=] { return LayerFactory::ConstructLayer(d); }; }
  }
  std::string sh; for (auto& q : shapes) sh += fmt(" %zus@%zux%zux%zum", q[0], q[1], q[2], q[3]);
  note("must be refused: " + d + " on" + sh);
  std::vector<CombinedTensor*> in, out; bool refused = false; Layer* L = nullptr; NetStatus st; st.SetIsTesting(true);
  for (auto& q : shapes) in.push_back(new CombinedTensor(q[0], q[1], q[2], q[3]));
  try {
    L = mk();
    refused = !L || !L->CreateOutputs(in, out) || !L->Connect(in, out, &st);
    if (!refused) L->FeedForward();
  } catch (std::runtime_error&) { refused = true; }
  count("incompatible configurations tried");
  if (!refused && must) fail("not-refused", "an incompatible configuration was accepted: " + G().note);
  nontrivial(G().note);
  for (auto* t : out) delete t; delete L; for (auto* t : in) delete t;
}

// wrong numbers of tensors, missing tensors and outputs of the wrong size are refused when a layer is wired
static void wiring(Rng& r) {
  Case c = any(r, 5);
  static const std::set<std::string> sized{"relu", "tanh", "sigm", "hmax", "resize", "sum", "concatenation", "spatialprior", "softmax", "gradientaccumulation"};
  if (r.chance(0.1)) {   // the loss layer has no outputs
    c.kind = "error"; c.desc = "ErrorLayer"; c.make = [] { return new ErrorLayer(); };
    M4 a = tu::random(r, r.range(1, 3), r.range(1, 5), r.range(1, 5), r.range(1, 3)); c.in.assign(2, a); c.in.push_back(tu::random(r, a.s, a.w, a.h, 1));
  }
  NetStatus st; st.SetIsTesting(true); bool create = r.chance(0.4); std::string what; bool accepted = false;
  std::vector<CombinedTensor*> in, out, own;
  auto mk = [&](const M4& t) { own.push_back(new CombinedTensor(t.s, t.w, t.h, t.m)); return own.back(); };
  for (auto& t : c.in) in.push_back(mk(t));
  std::unique_ptr<Layer> L(c.make());
  if (!L) { fail("refused", "layer could not be constructed: " + c.desc); return; }
  auto spoil_in = [&](int k) {
    switch (k) {
      case 0: what = "an extra input"; in.push_back(mk(c.in[0])); break;
      case 1: what = "a missing input"; in.pop_back(); break;
      default: what = "a null input"; in[r.range(0, (int)in.size() - 1)] = nullptr;
    }
  };
  size_t madeouts = 0;
  try {
    if (create) { spoil_in((int)r.range(0, 2)); note(c.desc + ": outputs for " + what); accepted = L->CreateOutputs(in, out); }
    else {
      if (!L->CreateOutputs(in, out)) { fail("refused", c.desc + " refuses inputs that fit"); return; }
      madeouts = out.size(); for (auto* t : out) own.push_back(t);
      int k = (int)r.range(0, 6);
      if (k > 2 && out.empty()) k = 4;
      if (k < 3) spoil_in(k);
      else if (k == 3) { what = "a missing output"; out.pop_back(); }
      else if (k == 4) { what = "an extra output"; out.push_back(mk(c.in[0])); }
      else if (k == 5 || !sized.count(c.kind)) { what = "a null output"; out[r.range(0, (int)out.size() - 1)] = nullptr; }
      else {
        auto& q = out[r.range(0, (int)out.size() - 1)]; M4 t; t.s = q->data.samples(); t.w = q->data.width(); t.h = q->data.height(); t.m = q->data.maps();
        what = "an output of the wrong size"; int d = (int)r.range(0, 3); (d == 0 ? t.s : d == 1 ? t.w : d == 2 ? t.h : t.m) += 1; q = mk(t);
      }
      note(c.desc + ": connecting " + what); accepted = L->Connect(in, out, &st);
    }
  } catch (std::runtime_error&) { accepted = false; }
  count("wrong wirings tried: " + what);
  if (accepted) fail("not-refused", G().note + " is accepted");
  nontrivial(G().note);
  if (create) for (auto* t : out) own.push_back(t);
  (void)madeouts;
  for (auto* t : own) delete t;
}

// dropout is not implemented for training: it must be an error there, not a silently different network
static void dropout(Rng& r) {
  std::string d = fmt("convolution(size=1x1 kernels=%d dropout=%g)", (int)r.range(1, 3), r.pick<double>({0.25, 0.5, 0.9}));
  note("training " + d); std::unique_ptr<Layer> L(LayerFactory::ConstructLayer(d)); CombinedTensor in(1, 2, 2, 1); in.data.Clear(0.5); std::vector<CombinedTensor*> o; NetStatus st; st.SetIsTesting(false);
  bool refused = false;
  try { refused = !L || !L->CreateOutputs({&in}, o) || !L->Connect({&in}, o, &st); if (!refused) { L->parameters()[0]->data.Clear(1); L->parameters()[1]->data.Clear(1); L->FeedForward(); } } catch (std::runtime_error&) { refused = true; }
  if (!refused) {   // implemented after all: every map of every sample is dropped or complete
    for (size_t m = 0; m < o[0]->data.maps(); m++) for (size_t e = 0; e < 4; e++) { float v = tu::cpu(o[0]->data).data_ptr_const()[m * 4 + e]; if (v != 0 && std::fabs(v - 1.5) > 1e-5) fail("dropout", "an output that is not dropped has another value"); }
  }
  for (auto* t : o) delete t; count("dropout in training");
}

static void one(Rng& r, int64_t i) {
  if (i % 12 == 9 && r.chance(0.7)) return wiring(r);
  if (i % 240 == 9) return dropout(r);
  if (i % 12 == 10) return error_layer(r);
  if (i % 12 == 11) return refusal(r);
  Case c = any(r, G().thorough && r.chance(0.2) ? 17 : 9);
  std::string ish; for (auto& t : c.in) ish += " " + t.shape();
  note(c.desc + " on" + ish);
  Inst I; std::string why;
  if (!I.connect(c, why)) { fail("refused", why); return; }
  int passes = (int)r.range(2, 4);
  for (int p = 0; p < passes; p++) {
    if (p) refill(r, c);
    if (c.kind == "sigm" && r.chance(0.1)) for (auto& v : c.in[0].d) v *= 30;
    if (c.kind == "tanh" && r.chance(0.1)) for (auto& v : c.in[0].d) v *= 30;
    I.load(c);
    V want = c.fwd(c.in, c.par);
    if (I.out.size() != want.size()) { fail("output-count", fmt("%zu outputs, expected %zu", I.out.size(), want.size())); return; }
    if (c.kind != "gradientaccumulation") for (auto* o : I.out) for (size_t k = 0; k < o->data.elements(); k++) tu::cpu(o->data).data_ptr()[k] = NAN;
    if (r.chance(0.3)) for (auto* o : I.out) for (size_t k = 0; k < o->delta.elements(); k++) tu::cpu(o->delta).data_ptr()[k] = (float)r.real(-1, 1);
    I.ready(); I.layer->FeedForward();
    count("forward passes");
    double bound = 1; for (auto& t : c.in) bound += t.w; (void)bound;
    for (size_t k = 0; k < want.size(); k++) {
      if (!same_shape(I.out[k]->data, want[k])) { fail("output-shape", "output " + tu::shape(I.out[k]->data) + " expected " + want[k].shape()); return; }
      double mag = c.kind == "convolution" ? 1 + std::sqrt((double)(c.par[0].w * c.par[0].h * c.par[0].m)) * 0.5 : 0.1;
      for (size_t e = 0; e < want[k].n(); e++) {
        count("output elements compared");
        if (!vh::close(tu::cpu(I.out[k]->data).data_ptr_const()[e], want[k].d[e], mag)) {
          fail("forward:" + c.kind, fmt("pass %d output %zu element %zu: %.9g, definition %.9g", p, k, e, tu::cpu(I.out[k]->data).data_ptr_const()[e], want[k].d[e]));
          return;
        }
      }
    }
    for (size_t k = 0; k < c.in.size(); k++) for (size_t e = 0; e < c.in[k].n(); e++)
      if ((float)c.in[k].d[e] != tu::cpu(I.in[k]->data).data_ptr_const()[e]) { fail("input-modified:" + c.kind, "forward pass changed its input"); return; }
    for (size_t k = 0; k < c.par.size(); k++) for (size_t e = 0; e < c.par[k].n(); e++)
      if ((float)c.par[k].d[e] != tu::cpu(I.layer->parameters()[k]->data).data_ptr_const()[e]) { fail("param-modified:" + c.kind, "forward pass changed a parameter"); return; }
    if (c.has_bwd && r.chance(0.4)) {   // a backward pass in between must not disturb later forwards
      for (auto* o : I.out) for (size_t k = 0; k < o->delta.elements(); k++) tu::cpu(o->delta).data_ptr()[k] = (float)r.real(-1, 1);
      I.ready(); I.layer->BackPropagate(); count("interleaved backward passes");
    }
  }
  nontrivial(G().note);
  count("layer " + c.kind);
  if (i < 6) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c05_forward", one, [] { tu::init(); }); }
