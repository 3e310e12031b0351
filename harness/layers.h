// Random single-layer instances with an independent double-precision
// definition of what the layer computes and of its exact gradient.
#pragma once
#include "tutil.h"
#include <functional>
#include "ConvolutionLayer.h"

namespace ly {
using namespace Conv;
using tu::M4;
using vh::Rng;
using vh::fmt;
typedef std::vector<M4> V;

struct Case {
  std::string desc, kind;
  std::function<Layer*()> make;
  std::vector<M4> in;                       // inputs
  std::vector<M4> par;                      // parameters (data) to install
  std::function<V(const V& in, const V& par)> fwd;
  // exact vector-Jacobian product: given output deltas, input deltas and parameter deltas
  std::function<void(const V& in, const V& par, const V& odelta, V& idelta, V& pdelta)> bwd;
  bool has_bwd = true;
  bool ties = false;                        // gradient defined only away from ties
  double dlo = -1, dhi = 1;                 // input value range
  double tol = 2e-4;
};

// values pairwise distinct by a margin (max-type layers), and away from zero
inline void distinct_fill(Rng& r, M4& t, double step = 0.01) {
  std::vector<int> p(t.n());
  for (size_t i = 0; i < p.size(); i++) p[i] = (int)i;
  for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.range(0, (int64_t)i - 1)]);
  double off = ((int64_t)p.size()) / 2.0 + (r.chance(0.3) ? p.size() * 0.6 : r.chance(0.3) ? -(double)p.size() * 0.6 : 0.25);
  for (size_t i = 0; i < p.size(); i++) t.d[i] = (double)(float)((p[i] - off) * step + step * 0.3);
}

inline void refill(Rng& r, Case& c) {
  for (auto& t : c.in) {
    if (c.ties) distinct_fill(r, t);
    else for (auto& v : t.d) v = tu::rfloat(r, c.dlo, c.dhi);
  }
  for (auto& t : c.par) for (auto& v : t.d) v = tu::rfloat(r, -1, 1);
}

inline std::string kv(Rng& r, const std::vector<std::string>& parts) {  // random order
  std::vector<std::string> p = parts;
  for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.range(0, (int64_t)i - 1)]);
  std::string s;
  for (auto& x : p) s += (s.empty() ? "" : " ") + x;
  return s;
}

// A few cases have one unusually large quantity: 1 samples, 2 extents, 3 maps, 4 kernels, regions and steps, 5 one extent
static int stretch = 0; static bool lengthened = false;
inline int64_t nb(Rng& r) { return stretch == 1 ? r.range(5, 40) : r.size(1, 4); }
inline int64_t wd(Rng& r, int dim, int lo = 1) { if (stretch == 5 && !lengthened && r.chance(0.6)) { lengthened = true; return r.range(256, 700); } return stretch == 2 && r.chance(0.5) ? r.range(dim, 70) : r.range(lo, dim); }
inline int64_t mp(Rng& r, int hi) { return stretch == 3 && r.chance(0.6) ? r.range(hi, 40) : r.range(1, hi); }
inline int64_t ks(Rng& r, int hi) { return stretch == 4 && r.chance(0.6) ? r.range(hi, 12) : r.size(1, hi); }
inline int64_t far(Rng& r, int hi, int lo = 1) { return stretch == 4 && r.chance(0.6) ? r.range(hi, 9) : r.range(lo, hi); }

inline Case conv(Rng& r, int dim) {
  Case c; c.kind = "convolution";
  unsigned kw = ks(r, std::min(5, dim)), kh = ks(r, std::min(5, dim)), sx = r.chance(0.5) ? 1 : far(r, 3), sy = r.chance(0.5) ? 1 : far(r, 3);
  unsigned px = r.chance(0.5) ? 0 : far(r, 3, 0), py = r.chance(0.5) ? 0 : far(r, 3, 0), g = r.chance(0.6) ? 1 : r.range(1, 3);
  unsigned im = g * mp(r, 3), om = g * mp(r, 4), S = nb(r);
  unsigned w = wd(r, dim), h = wd(r, dim);
  if (w + 2 * px < kw) w = kw; if (h + 2 * py < kh) h = kh;
  double drop = r.chance(0.2) ? (r.chance(0.5) ? 0.5 : 0.25) : 0.0;
  double wf = 1.0 - drop;
  bool str = r.chance(0.5);
  std::vector<std::string> p = {fmt("size=%ux%u", kw, kh), fmt("kernels=%u", om)};
  if (sx != 1 || sy != 1 || r.chance(0.3)) p.push_back(fmt("stride=%ux%u", sx, sy));
  if (px || py || r.chance(0.3)) p.push_back(fmt("pad=%ux%u", px, py));
  if (g != 1 || r.chance(0.3)) p.push_back(fmt("group=%u", g));
  if (drop > 0) p.push_back(fmt("dropout=%g", drop));
  if (r.chance(0.2)) p.push_back(fmt("seed=%d", (int)r.range(1, 10000)));
  std::string d = "convolution(" + kv(r, p) + ")";
  c.desc = d + (str ? "" : " via constructor");
  c.make = [=]() -> Layer* {
    return str ? LayerFactory::ConstructLayer(d) : new ConvolutionLayer(kw, kh, om, sx, sy, px, py, g, 7, (datum)drop);
  };
  c.in.push_back(tu::random(r, S, w, h, im));
  c.par.push_back(tu::random(r, om, kw, kh, im / g));
  c.par.push_back(tu::random(r, 1, om, 1, 1));
  int ow = ((int)w + 2 * px - kw) / sx + 1, oh = ((int)h + 2 * py - kh) / sy + 1;
  c.fwd = [=](const V& in, const V& par) {
    const M4& x = in[0]; V o{M4(x.s, ow, oh, om)};
    for (size_t s = 0; s < x.s; s++) for (unsigned m = 0; m < om; m++) for (int oy = 0; oy < oh; oy++) for (int ox = 0; ox < ow; ox++) {
      double a = par[1].d[m]; unsigned gr = m / (om / g);
      for (unsigned i = 0; i < im / g; i++) for (unsigned ky = 0; ky < kh; ky++) for (unsigned kx = 0; kx < kw; kx++) {
        int ix = ox * (int)sx + (int)kx - (int)px, iy = oy * (int)sy + (int)ky - (int)py;
        if (ix < 0 || iy < 0 || ix >= (int)x.w || iy >= (int)x.h) continue;
        a += x.at(ix, iy, gr * (im / g) + i, s) * par[0].at(kx, ky, i, m);
      }
      o[0].at(ox, oy, m, s) = a * wf;
    }
    return o;
  };
  c.bwd = [=](const V& in, const V& par, const V& od, V& id, V& pd) {
    const M4& x = in[0];
    // dropout scaling is a testing-time transformation; gradients are those of the training-time function
    for (size_t s = 0; s < x.s; s++) for (unsigned m = 0; m < om; m++) for (int oy = 0; oy < oh; oy++) for (int ox = 0; ox < ow; ox++) {
      double e = od[0].at(ox, oy, m, s); unsigned gr = m / (om / g);
      pd[1].d[m] += e;
      for (unsigned i = 0; i < im / g; i++) for (unsigned ky = 0; ky < kh; ky++) for (unsigned kx = 0; kx < kw; kx++) {
        int ix = ox * (int)sx + (int)kx - (int)px, iy = oy * (int)sy + (int)ky - (int)py;
        if (ix < 0 || iy < 0 || ix >= (int)x.w || iy >= (int)x.h) continue;
        pd[0].at(kx, ky, i, m) += e * x.at(ix, iy, gr * (im / g) + i, s);
        id[0].at(ix, iy, gr * (im / g) + i, s) += e * par[0].at(kx, ky, i, m);
      }
    }
  };
  c.tol = 4e-4;
  return c;
}

inline Case pool(Rng& r, int dim, bool adv) {
  Case c; c.kind = adv ? "amaxpooling" : "maxpooling"; c.ties = true;
  unsigned rw = ks(r, 4), rh = ks(r, 4), sx = rw, sy = rh, w, h, S = nb(r), m = mp(r, 3);
  bool str = r.chance(0.5), havestride = adv && r.chance(0.8);
  if (havestride) { sx = far(r, 4); sy = far(r, 4); }
  if (adv) { w = rw + wd(r, dim, 0); h = rh + wd(r, dim, 0); }
  else { w = rw * wd(r, 1 + dim / rw); h = rh * wd(r, 1 + dim / rh); }
  std::vector<std::string> p; if (rw * rh > 1 || r.chance(0.4)) p.push_back(fmt("size=%ux%u", rw, rh));   // the default is 1x1
  if (havestride) p.push_back(fmt("stride=%ux%u", sx, sy));
  std::string d = c.kind + (p.empty() && r.chance(0.5) ? "" : "(" + kv(r, p) + ")");
  c.desc = d + (str ? "" : " via constructor");
  c.make = [=]() -> Layer* {
    if (str) return LayerFactory::ConstructLayer(d);
    if (adv) return new AdvancedMaxPoolingLayer(rw, rh, sx, sy);
    return new MaxPoolingLayer(rw, rh);
  };
  c.in.push_back(M4(S, w, h, m)); distinct_fill(r, c.in[0]);
  int ow = (w - rw) / sx + 1, oh = (h - rh) / sy + 1;
  c.fwd = [=](const V& in, const V&) {
    const M4& x = in[0]; V o{M4(x.s, ow, oh, x.m)};
    for (size_t s = 0; s < x.s; s++) for (size_t k = 0; k < x.m; k++) for (int oy = 0; oy < oh; oy++) for (int ox = 0; ox < ow; ox++) {
      double b = -1e300;
      for (unsigned dy = 0; dy < rh; dy++) for (unsigned dx = 0; dx < rw; dx++) b = std::max(b, x.at(ox * sx + dx, oy * sy + dy, k, s));
      o[0].at(ox, oy, k, s) = b;
    }
    return o;
  };
  c.bwd = [=](const V& in, const V&, const V& od, V& id, V&) {
    const M4& x = in[0];
    for (size_t s = 0; s < x.s; s++) for (size_t k = 0; k < x.m; k++) for (int oy = 0; oy < oh; oy++) for (int ox = 0; ox < ow; ox++) {
      int bx = 0, by = 0; double b = -1e300;
      for (unsigned dy = 0; dy < rh; dy++) for (unsigned dx = 0; dx < rw; dx++) {
        double v = x.at(ox * sx + dx, oy * sy + dy, k, s);
        if (v > b) { b = v; bx = ox * sx + dx; by = oy * sy + dy; }
      }
      id[0].at(bx, by, k, s) += od[0].at(ox, oy, k, s);
    }
  };
  return c;
}

inline Case pointwise(Rng& r, int dim, const std::string& k) {
  Case c; c.kind = k;
  c.dlo = -4; c.dhi = 4;
  bool str = r.chance(0.5);
  std::string d = k + (r.chance(0.3) ? "()" : "");
  c.desc = d + (str ? "" : " via constructor");
  double mu = r.real(0.1, 1.0);
  if (k == "hmax" && r.chance(0.5)) d = fmt("hmax(mu=%g weight=0.0)", mu);
  c.make = [=]() -> Layer* {
    if (str) return LayerFactory::ConstructLayer(d);
    if (k == "tanh") return new TanhLayer(); if (k == "sigm") return new SigmoidLayer();
    if (k == "relu") return new ReLULayer(); return new HMaxActivationFunction((datum)mu, 0.0);
  };
  c.in.push_back(tu::random(r, nb(r), wd(r, dim), wd(r, dim), mp(r, 4), -4, 4));
  if (k == "relu") { c.ties = true; distinct_fill(r, c.in[0]); }
  if (k == "hmax") { c.par.push_back(tu::random(r, 1, 2, 1, 1, -1.5, 1.5)); }
  auto f = [=](double x, const V& par) {
    if (k == "tanh") return std::tanh(x);
    if (k == "sigm") return 1 / (1 + std::exp(-x));
    if (k == "relu") return x > 0 ? x : 0.0;
    return 1 / (1 + std::exp(-par[0].d[0] * x - par[0].d[1]));
  };
  c.fwd = [=](const V& in, const V& par) { V o{in[0]}; for (auto& v : o[0].d) v = f(v, par); return o; };
  c.bwd = [=](const V& in, const V& par, const V& od, V& id, V& pd) {
    for (size_t i = 0; i < in[0].n(); i++) {
      double x = in[0].d[i], y = f(x, par), e = od[0].d[i];
      if (k == "tanh") id[0].d[i] = e * (1 - y * y);
      else if (k == "sigm") id[0].d[i] = e * y * (1 - y);
      else if (k == "relu") id[0].d[i] = x > 0 ? e : 0;
      else { double g = e * y * (1 - y); id[0].d[i] = g * par[0].d[0]; pd[0].d[0] += g * x; pd[0].d[1] += g; }
    }
  };
  c.tol = 5e-4;
  return c;
}

inline Case softmax(Rng& r, int dim) {
  Case c; c.kind = "softmax"; c.desc = "SoftmaxLayer"; c.has_bwd = false;
  c.make = []() -> Layer* { return new SoftmaxLayer(); };
  c.in.push_back(tu::random(r, nb(r), wd(r, dim), 1, 1, -4, 4));
  c.fwd = [](const V& in, const V&) {
    V o{in[0]};
    for (size_t s = 0; s < in[0].s; s++) {
      double t = 0; for (size_t x = 0; x < in[0].w; x++) t += std::exp(in[0].at(x, 0, 0, s));
      for (size_t x = 0; x < in[0].w; x++) o[0].at(x, 0, 0, s) = std::exp(in[0].at(x, 0, 0, s)) / t;
    }
    return o;
  };
  return c;
}

// layers that only move/scale values: taps (out element <- in element * factor)
struct Tap { int in; size_t ox, oy, om; size_t ix, iy, im; double f; };
inline void from_taps(Case& c, std::vector<M4> oshape, std::function<std::vector<Tap>(int out)> taps, double fill = 0) {
  c.fwd = [=](const V& in, const V&) {
    V o;
    for (size_t k = 0; k < oshape.size(); k++) {
      M4 t(in[0].s, oshape[k].w, oshape[k].h, oshape[k].m); (void)fill;
      for (const Tap& q : taps((int)k)) for (size_t s = 0; s < t.s; s++) t.at(q.ox, q.oy, q.om, s) += q.f * in[q.in].at(q.ix, q.iy, q.im, s);
      o.push_back(t);
    }
    return o;
  };
  c.bwd = [=](const V& in, const V&, const V& od, V& id, V&) {
    for (size_t k = 0; k < od.size(); k++)
      for (const Tap& q : taps((int)k)) for (size_t s = 0; s < od[k].s; s++) id[q.in].at(q.ix, q.iy, q.im, s) += q.f * od[k].at(q.ox, q.oy, q.om, s);
  };
}

inline Case resize(Rng& r, int dim) {
  Case c; c.kind = "resize";
  unsigned bx = r.size(0, 7) * (stretch == 4 ? 4 : 1), by = r.size(0, 7); bool str = r.chance(0.5);
  size_t w = wd(r, dim), h = wd(r, dim), m = mp(r, 3);
  std::string d = fmt("resize(border=%ux%u)", bx, by);
  c.desc = d + (str ? "" : " via constructor");
  c.make = [=]() -> Layer* { return str ? LayerFactory::ConstructLayer(d) : new ResizeLayer(bx, by); };
  c.in.push_back(tu::random(r, nb(r), w, h, m));
  from_taps(c, V{M4(1, w + bx, h + by, m)}, [=](int) {
    std::vector<Tap> t;
    for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) t.push_back(Tap{0, x + bx / 2, y + by / 2, k, x, y, k, 1});
    return t; });
  return c;
}
inline Case upscale(Rng& r, int dim) {
  Case c; c.kind = "upscale";
  unsigned rx = ks(r, 4), ry = ks(r, 4); size_t w = wd(r, dim), h = wd(r, dim), m = mp(r, 3);
  c.desc = fmt("UpscaleLayer(%u,%u)", rx, ry);
  c.make = [=]() -> Layer* { return new UpscaleLayer(rx, ry); };
  c.in.push_back(tu::random(r, nb(r), w, h, m));
  from_taps(c, V{M4(1, w * rx, h * ry, m)}, [=](int) {
    std::vector<Tap> t;
    for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h * ry; y++) for (size_t x = 0; x < w * rx; x++) t.push_back(Tap{0, x, y, k, x / rx, y / ry, k, 1});
    return t; });
  return c;
}
inline Case downsample(Rng& r, int dim) {
  Case c; c.kind = "inputdownsampling";
  unsigned rx = ks(r, 4), ry = ks(r, 4); size_t w = wd(r, dim), h = wd(r, dim), m = mp(r, 3);
  c.desc = fmt("InputDownSamplingLayer(%u,%u)", rx, ry);
  c.make = [=]() -> Layer* { return new InputDownSamplingLayer(rx, ry); };
  c.in.push_back(tu::random(r, nb(r), w * rx, h * ry, m));
  from_taps(c, V{M4(1, w, h, m)}, [=](int) {
    std::vector<Tap> t;
    for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h * ry; y++) for (size_t x = 0; x < w * rx; x++) t.push_back(Tap{0, x / rx, y / ry, k, x, y, k, 1.0 / (rx * ry)});
    return t; });
  c.has_bwd = false;
  return c;
}
inline Case sum(Rng& r, int dim) {
  Case c; c.kind = "sum"; c.desc = "SumLayer";
  c.make = []() -> Layer* { return new SumLayer(); };
  size_t s = nb(r), w = wd(r, dim), h = wd(r, dim), m = mp(r, 3);
  for (int i = 0; i < 2; i++) c.in.push_back(tu::random(r, s, w, h, m));
  from_taps(c, V{M4(1, w, h, m)}, [=](int) {
    std::vector<Tap> t;
    for (int i = 0; i < 2; i++) for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) t.push_back(Tap{i, x, y, k, x, y, k, 1});
    return t; });
  return c;
}
inline Case concat(Rng& r, int dim) {
  Case c; c.kind = "concatenation"; c.desc = "ConcatenationLayer";
  c.make = []() -> Layer* { return new ConcatenationLayer(); };
  size_t s = nb(r), w = wd(r, dim), h = wd(r, dim), m[2] = {(size_t)mp(r, 3), (size_t)mp(r, 3)};
  size_t m0 = m[0], m1 = m[1];
  for (int i = 0; i < 2; i++) c.in.push_back(tu::random(r, s, w, h, m[i]));
  from_taps(c, V{M4(1, w, h, m0 + m1)}, [=](int) {
    std::vector<Tap> t;
    for (int i = 0; i < 2; i++) for (size_t k = 0; k < (i ? m1 : m0); k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) t.push_back(Tap{i, x, y, k + (i ? m0 : 0), x, y, k, 1});
    return t; });
  return c;
}
inline Case gradacc(Rng& r, int dim) {
  Case c; c.kind = "gradientaccumulation";
  unsigned n = ks(r, 4); bool str = r.chance(0.5);
  std::string d = fmt("gradientaccumulation(outputs=%u)", n);
  c.desc = d + (str ? "" : " via constructor");
  c.make = [=]() -> Layer* { return str ? LayerFactory::ConstructLayer(d) : new GradientAccumulationLayer(n); };
  size_t w = wd(r, dim), h = wd(r, dim), m = mp(r, 3);
  c.in.push_back(tu::random(r, nb(r), w, h, m));
  from_taps(c, V(n, M4(1, w, h, m)), [=](int) {
    std::vector<Tap> t;
    for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) t.push_back(Tap{0, x, y, k, x, y, k, 1});
    return t; });
  return c;
}
inline Case prior(Rng& r, int dim) {
  Case c; c.kind = "spatialprior"; c.desc = "SpatialPriorLayer";
  c.make = []() -> Layer* { return new SpatialPriorLayer(); };
  size_t w = wd(r, dim), h = wd(r, dim), m = mp(r, 3);
  c.in.push_back(tu::random(r, nb(r), w, h, m));
  c.fwd = [=](const V& in, const V&) {
    V o{M4(in[0].s, w, h, m + 2)};
    for (size_t s = 0; s < in[0].s; s++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
      o[0].at(x, y, 0, s) = (double)x / w; o[0].at(x, y, 1, s) = (double)y / h;
      for (size_t k = 0; k < m; k++) o[0].at(x, y, k + 2, s) = in[0].at(x, y, k, s);
    }
    return o;
  };
  c.bwd = [=](const V& in, const V&, const V& od, V& id, V&) {
    for (size_t s = 0; s < in[0].s; s++) for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++)
      id[0].at(x, y, k, s) = od[0].at(x, y, k + 2, s);
  };
  return c;
}
inline Case lrn(Rng& r, int dim) {
  Case c; c.kind = "lrn";
  unsigned n = far(r, 6); double al = (double)(float)r.real(0.0, 2.0), be = (double)(float)(r.chance(0.3) ? 0.75 : r.real(0.25, 2.0));
  bool across = r.chance(0.5);
  c.kind = across ? "lrn-across" : "lrn-within";
  c.desc = fmt("LocalResponseNormalizationLayer(%u,%g,%g,%s)", n, al, be, across ? "across" : "within");
  c.make = [=]() -> Layer* {
    return new LocalResponseNormalizationLayer(n, (datum)al, (datum)be, across ? LocalResponseNormalizationLayer::ACROSS_CHANNELS : LocalResponseNormalizationLayer::WITHIN_CHANNELS);
  };
  size_t w = wd(r, dim), h = wd(r, dim), m = mp(r, 5);
  c.in.push_back(tu::random(r, nb(r), w, h, m, -1.5, 1.5)); c.dlo = -1.5; c.dhi = 1.5;
  int sub = ((int)n - 1) / 2, add = (int)n / 2;
  auto region = [=](size_t x, size_t y, size_t k, std::function<void(size_t, size_t, size_t)> f) {
    if (across) { for (int q = (int)k - sub; q <= (int)k + add; q++) if (q >= 0 && q < (int)m) f(x, y, q); }
    else for (int b = (int)y - sub; b <= (int)y + add; b++) for (int a = (int)x - sub; a <= (int)x + add; a++)
      if (a >= 0 && b >= 0 && a < (int)w && b < (int)h) f(a, b, k);
  };
  c.fwd = [=](const V& in, const V&) {
    V o{in[0]};
    for (size_t s = 0; s < in[0].s; s++) for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
      double q = 0; int cnt = 0;
      region(x, y, k, [&](size_t a, size_t b, size_t cc) { double v = in[0].at(a, b, cc, s); q += v * v; cnt++; });
      o[0].at(x, y, k, s) = in[0].at(x, y, k, s) / std::pow(1 + al / cnt * q, be);
    }
    return o;
  };
  c.bwd = [=](const V& in, const V&, const V& od, V& id, V&) {
    for (size_t s = 0; s < in[0].s; s++) for (size_t k = 0; k < m; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
      double q = 0; int cnt = 0;
      region(x, y, k, [&](size_t a, size_t b, size_t cc) { double v = in[0].at(a, b, cc, s); q += v * v; cnt++; });
      double u = 1 + al / cnt * q, xi = in[0].at(x, y, k, s), e = od[0].at(x, y, k, s);
      id[0].at(x, y, k, s) += e * std::pow(u, -be);
      region(x, y, k, [&](size_t a, size_t b, size_t cc) { id[0].at(a, b, cc, s) += e * xi * (-be) * std::pow(u, -be - 1) * al / cnt * 2 * in[0].at(a, b, cc, s); });
    }
  };
  c.tol = 1e-3;
  return c;
}

inline Case any(Rng& r, int dim) {
  int pick = (int)r.range(0, 17);
  stretch = r.chance(pick <= 7 ? 0.06 : 0.2) ? (int)r.range(1, 5) : 0; lengthened = false; if (stretch) vh::count(fmt("cases with many %s", stretch == 1 ? "samples" : stretch == 2 ? "columns or rows" : stretch == 3 ? "maps" : stretch == 5 ? "columns or rows, hundreds of them" : "kernel or region elements"));
  switch (pick) {
    case 0: case 1: case 2: case 3: return conv(r, dim);
    case 4: case 5: return pool(r, dim, false);
    case 6: case 7: return pool(r, dim, true);
    case 8: return pointwise(r, dim, r.chance(0.5) ? "tanh" : "sigm");
    case 9: return pointwise(r, dim, r.chance(0.5) ? "relu" : "hmax");
    case 10: return resize(r, dim);
    case 11: return upscale(r, dim);
    case 12: return r.chance(0.5) ? downsample(r, dim) : softmax(r, dim);
    case 13: return sum(r, dim);
    case 14: return concat(r, dim);
    case 15: return gradacc(r, dim);
    case 16: return prior(r, dim);
    default: return lrn(r, dim);
  }
}

// a connected instance of the real layer
struct Inst {
  Layer* layer = nullptr;
  NetStatus status;
  std::vector<CombinedTensor*> in, out;
  ~Inst() { for (auto* t : out) delete t; delete layer; for (auto* t : in) delete t; }
  bool connect(const Case& c, std::string& why) {
    status.SetIsTesting(true);
    layer = c.make();
    if (!layer) { why = "layer could not be constructed"; return false; }
    for (auto& t : c.in) in.push_back(new CombinedTensor(t.s, t.w, t.h, t.m));
    if (!layer->CreateOutputs(in, out)) { why = "CreateOutputs refused"; return false; }
    if (!layer->Connect(in, out, &status)) { why = "Connect refused"; return false; }
    return true;
  }
  // In an OpenCL build: content anywhere, then what NetGraph does before it runs a layer
  void ready() {
#ifdef BUILD_OPENCL
    for (auto* v : {&in, &out}) for (auto* t : *v) { tu::scatter(*t); if (!layer->IsOpenCLAware()) { t->data.MoveToCPU(); t->delta.MoveToCPU(); } }
    if (layer->IsOpenCLAware()) for (auto* t : layer->parameters()) tu::scatter(*t);
#endif
  }
  void load(const Case& c) {
    for (size_t i = 0; i < c.in.size(); i++) tu::put(in[i]->data, c.in[i]);
    for (size_t i = 0; i < c.par.size(); i++) tu::put(layer->parameters()[i]->data, c.par[i]);
  }
};
inline bool same_shape(const Tensor& t, const M4& m) { return t.samples() == m.s && t.width() == m.w && t.height() == m.h && t.maps() == m.m; }

}  // namespace ly
