// C06: BackPropagate computes the exact gradient (vector-Jacobian product) of
// what FeedForward computes, for inputs and parameters, whatever was in the
// delta buffers before.
#include "layers.h"
using namespace ly;
using namespace vh;

static void error_layer(Rng& r) {
  float lw = r.chance(0.5) ? 1.0f : (float)r.real(0.1, 3);
  size_t s = r.size(1, 4), w = r.range(1, 8), h = r.range(1, 8), m = r.range(1, 4);
  note(fmt("ErrorLayer(%g) %zus@%zux%zux%zum", lw, s, w, h, m));
  ErrorLayer L(lw);
  CombinedTensor a(s, w, h, m), b(s, w, h, m), c(s, w, h, 1);
  std::vector<CombinedTensor*> in{&a, &b, &c}, out;
  NetStatus st;
  if (!L.CreateOutputs(in, out) || !L.Connect(in, out, &st)) { fail("error-layer-refused", "error layer refused matching inputs"); return; }
  for (int pass = 0; pass < 3; pass++) {
    M4 A = tu::random(r, s, w, h, m), B = tu::random(r, s, w, h, m), C = tu::random(r, s, w, h, 1, 0, 2);
    tu::put(a.data, A); tu::put(b.data, B); tu::put(c.data, C);
    for (size_t i = 0; i < A.n(); i++) tu::cpu(a.delta).data_ptr()[i] = NAN;
    L.FeedForward(); L.BackPropagate();
    for (size_t i = 0; i < s; i++) for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
      double g = (A.at(x, y, k, i) - B.at(x, y, k, i)) * C.at(x, y, 0, i) * lw;
      double got = *tu::cpu(a.delta).data_ptr_const(x, y, k, i);
      count("input gradient elements compared");
      if (!vh::close(got, g, 0.1)) { fail("grad:error", fmt("d loss/d net = %g, exact %g", got, g)); return; }
    }
  }
  nontrivial(G().note);
}

// several equal maxima in a region: the gradient of every output goes, whole, to
// one of the maxima of its region (any of them), and nowhere else
static void tied_pooling(Rng& r) {
  bool adv = r.chance(0.5); unsigned rw = r.range(1, 4), rh = r.range(1, 4), sx = rw, sy = rh, w, h, S = r.range(1, 3), m = r.range(1, 3);
  if (adv) { sx = r.range(1, 5); sy = r.range(1, 5); w = rw + r.range(0, 8); h = rh + r.range(0, 8); } else { w = rw * r.range(1, 4); h = rh * r.range(1, 4); }
  note(fmt("%s with ties %ux%u/%ux%u on %u@%ux%ux%u", adv ? "amaxpooling" : "maxpooling", rw, rh, sx, sy, S, w, h, m));
  Layer* L; if (adv) L = new AdvancedMaxPoolingLayer(rw, rh, sx, sy); else L = new MaxPoolingLayer(rw, rh);
  CombinedTensor a(S, w, h, m); std::vector<CombinedTensor*> in{&a}, out; NetStatus st;
  if (!L->CreateOutputs(in, out) || !L->Connect(in, out, &st)) { fail("refused", "pooling refused"); delete L; return; }
  bool clean = true, apart = sx >= rw && sy >= rh; unsigned ow = out[0]->data.width(), oh = out[0]->data.height();
  for (int pass = 0; pass < 2 && clean; pass++) {
    M4 A(S, w, h, m); int lo = r.chance(0.5) ? -2 : 0; for (auto& v : A.d) v = (double)r.range(lo, lo + (r.chance(0.3) ? 0 : 2)); tu::put(a.data, A);
    for (size_t i = 0; i < A.n(); i++) tu::cpu(a.delta).data_ptr()[i] = NAN;
    M4 od = tu::random(r, S, ow, oh, m, 0.5, 1.5); tu::put(out[0]->delta, od); for (auto* t : {&a, out[0]}) tu::scatter(*t); L->FeedForward(); for (auto* t : {&a, out[0]}) tu::scatter(*t); L->BackPropagate();
    M4 sup(S, w, h, m); double sum = 0, osum = 0; std::string bad;
    for (size_t s = 0; s < S; s++) for (size_t k = 0; k < m; k++) for (size_t y = 0; y < oh; y++) for (size_t x = 0; x < ow; x++) {
      double b = -1e9; int hits = 0; double g = od.at(x, y, k, s); osum += g;
      for (unsigned j = 0; j < rh; j++) for (unsigned i = 0; i < rw; i++) b = std::max(b, A.at(x * sx + i, y * sy + j, k, s));
      for (unsigned j = 0; j < rh; j++) for (unsigned i = 0; i < rw; i++) { size_t X = x * sx + i, Y = y * sy + j; if (A.at(X, Y, k, s) == b) sup.at(X, Y, k, s) += g;
          if (apart) { double d = *tu::cpu(a.delta).data_ptr_const(X, Y, k, s); if (d == (double)(float)g && A.at(X, Y, k, s) == b) hits++; else if (d != 0) hits = 100; } }
      if (apart && hits != 1 && bad.empty()) bad = fmt("region (%zu,%zu) of map %zu, sample %zu: %d elements carry the gradient", x, y, k, s, hits);
      count("tied pooling regions compared");
    }
    for (size_t e = 0; e < A.n(); e++) { double d = tu::cpu(a.delta).data_ptr()[e]; sum += d; if (!(d >= 0 && d <= sup.d[e] * 1.00001)) bad = fmt("element %zu carries %g, at most %g possible", e, d, sup.d[e]); }
    if (bad.empty() && !(std::fabs(sum - osum) <= 1e-4 * (1 + osum))) bad = fmt("gradients sum to %g, incoming to %g", sum, osum);
    if (!bad.empty()) clean = false, fail("tie:" + std::string(adv ? "amaxpooling" : "maxpooling"), bad);
  }
  delete L; nontrivial(G().note);
}
static void one(Rng& r, int64_t i) {
  if (i % 15 == 13) return tied_pooling(r);
  if (i % 15 == 14) return error_layer(r);
  Case c = any(r, G().thorough && r.chance(0.2) ? 15 : 8);
  for (int k = 0; !c.has_bwd && k < 20; k++) c = any(r, 8);
  if (!c.has_bwd) return;
  std::string ish; for (auto& t : c.in) ish += " " + t.shape();
  note(c.desc + " on" + ish);
  Inst I; std::string why;
  if (!I.connect(c, why)) { fail("refused", why); return; }
  int passes = (int)r.range(1, 4);
  bool bp = !r.chance(0.15);
  I.layer->SetBackpropagationEnabled(bp);
  for (int p = 0; p < passes; p++) {
    if (p) refill(r, c);
    I.load(c);
    V out = c.fwd(c.in, c.par), od;
    for (auto& o : out) od.push_back(tu::random(r, o.s, o.w, o.h, o.m));
    double dsc = r.chance(0.06) ? std::pow(2.0, (double)r.range(-30, 30)) : 1; if (dsc != 1) { count("incoming gradients of unusual magnitude"); for (auto& t : od) for (auto& v : t.d) v *= dsc; }
    if (r.chance(0.2)) for (auto& t : od) for (auto& v : t.d) if (r.chance(0.6)) v = 0;
    I.ready(); I.layer->FeedForward();
    if (r.chance(0.3)) { I.ready(); I.layer->FeedForward(); }
    // whatever is in the buffers beforehand must not matter
    float junk = r.chance(0.5) ? NAN : (float)r.real(-3, 3);
    for (auto* t : I.in) for (size_t k = 0; k < t->delta.elements(); k++) tu::cpu(t->delta).data_ptr()[k] = junk;
    for (auto* t : I.layer->parameters()) for (size_t k = 0; k < t->delta.elements(); k++) tu::cpu(t->delta).data_ptr()[k] = junk;
    for (size_t k = 0; k < od.size(); k++) tu::put(I.out[k]->delta, od[k]);
    I.ready(); I.layer->BackPropagate();
    if (r.chance(0.2)) { I.ready(); I.layer->BackPropagate(); count("repeated backward passes"); }
    count("backward passes");
    V id, pd, mi, mp;
    for (auto& t : c.in) id.push_back(M4(t.s, t.w, t.h, t.m));
    for (auto& t : c.par) pd.push_back(M4(t.s, t.w, t.h, t.m));
    c.bwd(c.in, c.par, od, id, pd);
    if (bp) for (size_t k = 0; k < id.size(); k++) for (size_t e = 0; e < id[k].n(); e++) {
      count("input gradient elements compared");
      double got = tu::cpu(I.in[k]->delta).data_ptr_const()[e];
      if (!vh::close(got / dsc, id[k].d[e] / dsc, 2.0, c.tol)) {
        fail("grad:" + c.kind, fmt("pass %d d/d input%zu[%zu] = %.9g, exact %.9g", p, k, e, got, id[k].d[e])); return; }
    }
    if (pd.size() != I.layer->parameters().size()) { fail("parameter-count", "unexpected number of parameters"); return; }
    for (size_t k = 0; k < pd.size(); k++) {
      if (!same_shape(I.layer->parameters()[k]->delta, pd[k])) { fail("parameter-shape", "parameter gradient has another shape"); return; }
      double mag = std::sqrt((double)out[0].n());
      for (size_t e = 0; e < pd[k].n(); e++) {
        count("parameter gradient elements compared");
        double got = tu::cpu(I.layer->parameters()[k]->delta).data_ptr_const()[e];
        if (!vh::close(got / dsc, pd[k].d[e] / dsc, mag, c.tol)) {
          fail("pgrad:" + c.kind, fmt("pass %d d/d param%zu[%zu] = %.9g, exact %.9g", p, k, e, got, pd[k].d[e])); return; }
      }
    }
    for (size_t k = 0; k < c.in.size(); k++) for (size_t e = 0; e < c.in[k].n(); e++)
      if ((float)c.in[k].d[e] != tu::cpu(I.in[k]->data).data_ptr_const()[e]) { fail("input-modified:" + c.kind, "backward pass changed the input data"); return; }
    for (size_t k = 0; k < od.size(); k++) for (size_t e = 0; e < od[k].n(); e++)
      if ((float)od[k].d[e] != tu::cpu(I.out[k]->delta).data_ptr_const()[e]) { fail("delta-modified:" + c.kind, "backward pass changed the incoming gradient"); return; }
    for (size_t k = 0; k < c.par.size(); k++) for (size_t e = 0; e < c.par[k].n(); e++)
      if ((float)c.par[k].d[e] != tu::cpu(I.layer->parameters()[k]->data).data_ptr_const()[e]) { fail("param-modified:" + c.kind, "backward pass changed a parameter"); return; }
  }
  // self-check of the oracle: numeric directional derivative of the forward definition
  if (r.chance(0.2) && !c.ties && c.kind != "convolution") {
    V out = c.fwd(c.in, c.par), od, id, pd;
    for (auto& o : out) od.push_back(tu::random(r, o.s, o.w, o.h, o.m));
    for (auto& t : c.in) id.push_back(M4(t.s, t.w, t.h, t.m));
    for (auto& t : c.par) pd.push_back(M4(t.s, t.w, t.h, t.m));
    c.bwd(c.in, c.par, od, id, pd);
    size_t k = r.range(0, c.in.size() - 1), e = r.range(0, c.in[k].n() - 1); double eps = 1e-5, L[2];
    for (int q = 0; q < 2; q++) { V in2 = c.in; in2[k].d[e] += q ? eps : -eps; V o = c.fwd(in2, c.par); L[q] = 0; for (size_t a = 0; a < o.size(); a++) for (size_t b = 0; b < o[a].n(); b++) L[q] += o[a].d[b] * od[a].d[b]; }
    if (std::fabs((L[1] - L[0]) / (2 * eps) - id[k].d[e]) > 1e-4) { fprintf(stderr, "oracle self-check failed %s\n", c.desc.c_str()); _exit(95); }
    count("oracle self-checks (numeric derivative)");
  }
  nontrivial(G().note);
  count("layer " + c.kind);
  if (i < 6) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c06_backward", one, [] { tu::init(); }); }
