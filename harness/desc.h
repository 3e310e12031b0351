// Random network descriptions and an independent interpreter of them in
// double precision.  generate() is the only writer, Interp the only reader.
#pragma once
#include "tutil.h"
#include "layers.h"
#include "ConfigurableFactory.h"
namespace nd {
using tu::M4; using vh::Rng; using vh::fmt;
typedef std::vector<M4> V;
enum Op { CONV, MAXP, AMAXP, DOWN, TANH, SIGM, RELU, HMAX, LRN, PRIOR, PUSHA, PUSHB, POPA, POPB, CONCAT, SUM, UPSC, OUT };
struct Step {
  Op op; std::string text;
  int a = 1, b = 1, sx = 1, sy = 1, px = 0, py = 0, k = 1, g = 1; double d1 = 0, d2 = 0, drop = 0; bool flag = false;
  int p0 = -1;  // first parameter index
};

struct Net {
  std::vector<Step> st;
  std::string text;
  bool patch = false;        // file says method=patch
  bool manual = false; int mrx = 0, mry = 0, mfx = 1, mfy = 1;
  int fx = 1, fy = 1, rx = 0, ry = 0; bool used_pad = false;
  int in_maps = 1, classes = 2; double lw = 1;
  std::vector<std::pair<int, int>> npar;   // unused
  std::vector<M4> shape;                    // parameter shapes
};

inline std::string opt(Rng& r, const std::string& name, std::vector<std::string> p) {
  std::string s = ly::kv(r, p);
  return "?" + name + (s.empty() ? "" : " " + s);
}

// random description; the interpreter below is the only thing that reads st
inline Net generate(Rng& r, int in_maps = 0, int classes = 0) {
  Net n; n.in_maps = (int)r.range(1, 3); n.classes = r.chance(0.3) ? 1 : (int)r.range(2, 4);
  if (in_maps) n.in_maps = in_maps;
  if (classes) n.classes = classes;
  n.patch = r.chance(0.35);
  bool pads = !n.patch && r.chance(0.5);
  int maps = n.in_maps, F1 = 1, F2 = 1, rx = 0, ry = 0; bool up = false;
  auto conv = [&](int kx, int ky, int sx, int sy, int px, int py, int k, bool full) {
    Step s; s.op = CONV; s.a = kx; s.b = ky; s.sx = sx; s.sy = sy; s.px = px; s.py = py; s.k = k;
    s.g = (!full && maps > 1 && k % maps == 0 && r.chance(0.2)) ? maps : 1;
    std::vector<std::string> p;
    if (full) { p.push_back((k == n.classes && r.chance(0.5)) ? "neurons=(o)" : fmt("neurons=%d", k)); }
    else {
      if (k != 1 || r.chance(0.6)) p.push_back((k == n.classes && r.chance(0.3)) ? "kernels=(o)" : fmt("kernels=%d", k));
      if (kx != 1 || ky != 1 || r.chance(0.5)) p.push_back(fmt("size=%dx%d", kx, ky));
      if (sx != 1 || sy != 1 || r.chance(0.2)) p.push_back(fmt("stride=%dx%d", sx, sy));
      if (px || py || r.chance(0.1)) p.push_back(fmt("pad=%dx%d", px, py));
      if (s.g != 1) p.push_back(fmt("group=%d", s.g));
    }
    if (r.chance(0.15)) { s.drop = r.chance(0.5) ? 0.5 : 0.25; p.push_back(fmt("dropout=%g", s.drop)); }
    if (r.chance(0.2)) { p.push_back(fmt("llr=%g", 0.5 * r.range(0, 4))); }
    s.text = opt(r, full ? "fullyconnected" : "convolutional", p);
    s.p0 = (int)n.shape.size();
    n.shape.push_back(M4(k, kx, ky, maps / s.g)); n.shape.push_back(M4(1, k, 1, 1));
    n.st.push_back(s);
    if (!up) { rx += F1 * (kx - 1 - 2 * px); ry += F2 * (ky - 1 - 2 * py); F1 *= sx; F2 *= sy; }
    if (px || py) n.used_pad = true;
    maps = k;
  };
  auto simple = [&](Op op, const std::string& t) { Step s; s.op = op; s.text = t; n.st.push_back(s); };
  auto act = [&]() {
    switch (r.range(0, 4)) {
      case 0: simple(TANH, "?tanh"); break;
      case 1: simple(SIGM, "?sigm"); break;
      case 2: simple(RELU, "?relu"); break;
      case 3: { Step s; s.op = HMAX; s.text = r.chance(0.5) ? "?hmax" : "?hmax mu=0.3 weight=0"; s.p0 = (int)n.shape.size(); n.shape.push_back(M4(1, 2, 1, 1)); n.st.push_back(s); break; }
      default: {
        Step s; s.op = LRN; bool across = n.patch || r.chance(0.6); s.flag = across; s.a = across ? (int)r.range(1, 4) : (int)(2 * r.range(0, 1) + 1);
        s.d1 = (double)(float)(0.25 * r.range(1, 4)); s.d2 = r.chance(0.5) ? 0.75 : 0.5;
        std::vector<std::string> p = {fmt("method=%s", across ? "across" : "within")};   // every option has a default of 1
        if (r.chance(0.2)) s.a = 1; else p.push_back(fmt("size=%d", s.a));
        if (r.chance(0.2)) s.d1 = 1; else p.push_back(fmt("alpha=%g", s.d1));
        if (r.chance(0.2)) s.d2 = 1; else p.push_back(fmt("beta=%g", s.d2));
        s.text = opt(r, "lrn", p);
        n.st.push_back(s); }
    }
  };
  bool fpx = false, fpy = false;
  if (r.chance(0.15)) {  // input downsampling
    Step s; s.op = DOWN; s.a = (int)r.range(1, 2); s.b = (int)r.range(1, 2); s.text = s.a * s.b == 1 && r.chance(0.5) ? "?downsampling" : fmt("?downsampling size=%dx%d", s.a, s.b); n.st.push_back(s); F1 *= s.a; F2 *= s.b;
  }
  int blocks = (int)r.big(1, 3, 6); bool branches = !n.patch && r.chance(0.3);
  for (int bl = 0; bl < blocks; bl++) {
    int kx = (int)(r.chance(0.02) ? r.range(4, 8) : r.range(1, 3)), ky = (int)(r.chance(0.02) ? r.range(4, 8) : r.range(1, 3)), px = 0, py = 0;
    if (pads && r.chance(0.5)) { px = r.range(0, (kx - 1) / 2); py = r.range(0, (ky - 1) / 2); }
    int sx = (F1 <= 2 && r.chance(0.2)) ? 2 : 1, sy = (F2 <= 2 && r.chance(0.2)) ? 2 : 1;
    conv(kx, ky, sx, sy, px, py, (int)(r.chance(0.02) ? r.range(5, 20) : r.range(1, 4)), false);
    fpx |= kx - 1 - 2 * px > 0; fpy |= ky - 1 - 2 * py > 0;
    if (r.chance(0.5)) act();
    if (r.chance(0.3) && F1 <= 3 && F2 <= 3) {
      Step s; s.op = MAXP; s.a = (int)r.range(1, 2); s.b = (int)r.range(1, 3); s.sx = s.a; s.sy = s.b; s.text = s.a * s.b == 1 && r.chance(0.5) ? "?maxpooling" : fmt("?maxpooling size=%dx%d", s.a, s.b); n.st.push_back(s); F1 *= s.a; F2 *= s.b;
    } else if (r.chance(0.3) && F1 <= 3 && F2 <= 3) {
      Step s; s.op = AMAXP; s.a = (int)r.range(1, 3); s.b = (int)r.range(1, 3); bool st = r.chance(0.6); s.sx = st ? (int)r.range(1, 2) : s.a; s.sy = st ? (int)r.range(1, 2) : s.b;
      std::vector<std::string> p; if (s.a * s.b > 1 || r.chance(0.5)) p.push_back(fmt("size=%dx%d", s.a, s.b)); if (st) p.push_back(fmt("stride=%dx%d", s.sx, s.sy));
      s.text = opt(r, "amaxpooling", p); n.st.push_back(s); rx += F1 * (s.a - 1); ry += F2 * (s.b - 1); F1 *= s.sx; F2 *= s.sy;
      fpx |= s.a > 1; fpy |= s.b > 1;
    }
    if (branches && r.chance(0.7)) {   // two branches of equal size, joined
      bool cat = r.chance(0.5), useb = r.chance(0.5); int m0 = maps, ma, mb;
      Op SV = useb ? PUSHA : PUSHB, LD = useb ? POPA : POPB, PU = useb ? PUSHB : PUSHA, PO = useb ? POPB : POPA;
      auto w = [&](Op o) { simple(o, o == PUSHA ? "pusha" : o == PUSHB ? "pushb" : o == POPA ? "popa" : "popb"); };
      w(SV);
      int kk = r.chance(0.5) ? 3 : 1; conv(kk, kk, 1, 1, kk / 2, kk / 2, (int)r.range(1, 3), false); ma = maps; if (r.chance(0.5)) act();
      w(PU); w(LD); maps = m0;
      if (r.chance(0.3) && m0 == ma) mb = m0; else { conv(1, 1, 1, 1, 0, 0, cat ? (int)r.range(1, 3) : ma, false); mb = maps; }
      w(PU);
      Step s; s.op = cat ? CONCAT : SUM; s.flag = useb; s.text = std::string(cat ? "?concat" : "?sum") + (useb ? " stack=b" : r.chance(0.3) ? "" : " stack=a"); n.st.push_back(s);
      maps = cat ? ma + mb : ma;
      w(SV); w(PO); w(PO); w(LD);
      if (r.chance(0.5)) act();
    }
  }
  if (!n.patch && !branches && r.chance(0.15)) {}
  if (r.chance(0.3)) conv(1, 1, 1, 1, 0, 0, (int)r.range(1, 4), true);
  if (r.chance(0.3)) { if (!n.patch && r.chance(0.3)) simple(TANH, "?flatten\n?tanh"); else act(); }
  n.fx = F1; n.fy = F2; n.rx = rx; n.ry = ry;
  if (r.chance(0.25)) { simple(PRIOR, "?spatialprior"); maps += 2; up = true; conv(1, 1, 1, 1, 0, 0, (int)r.range(1, 3), r.chance(0.5)); act(); }
  bool explicit_up = !n.patch && !up && r.chance(0.25);
  if (explicit_up && r.chance(0.5)) {
    Step s; s.op = UPSC; s.a = F1; s.b = F2; s.text = fmt("?upscale factor=%dx%d", F1, F2); n.st.push_back(s); up = true; explicit_up = false;
  }
  conv(1, 1, 1, 1, 0, 0, n.classes, r.chance(0.5));
  if (explicit_up) {
    act();
    Step s; s.op = UPSC; s.a = F1; s.b = F2; s.flag = true; s.text = opt(r, "upscale", {fmt("factor=%dx%d", F1, F2), "is_output=1"}); n.st.push_back(s);
  } else {
    Step s; s.op = OUT; if (r.chance(0.4)) { n.lw = 0.25 * r.range(1, 12); s.text = fmt("?output weight=%g", n.lw); } else s.text = "?output"; n.st.push_back(s);
  }
  if (!n.patch && (rx < 0 || ry < 0)) n.rx = std::max(rx, 0);
  // text
  std::string t;
  if (n.patch) t += "method=patch\n";
  if (!n.patch && r.chance(0.25) && rx > 0 && ry > 0) { n.manual = true; t += fmt("manual rfx=%d rfy=%d factorx=%d factory=%d\n", rx, ry, F1, F2); }
  for (auto& s : n.st) {
    if (r.chance(0.1)) t += "# ?maxpooling size=2x2\n";
    if (r.chance(0.05)) t += "#?convolutional kernels=3 size=5x5\n";
    if (r.chance(0.05)) t += "\n";
    if (r.chance(0.05)) t += r.pick<std::string>({"l2=0.01\n", "lr=0.1\n", "momentum=0.9\n", "sbatchsize=2\n"});
    t += s.text + "\n";
  }
  if (r.chance(0.2)) t.pop_back();
  n.text = t;
  (void)fpx; (void)fpy;
  return n;
}

struct Interp {
  const Net& n; const V& par; bool fcn; const M4& helper;
  static M4 sub(const M4& x, int a, int b, int sx, int sy, std::function<double(const M4&, int, int, size_t, size_t)> f) {
    int ow = ((int)x.w - a) / sx + 1, oh = ((int)x.h - b) / sy + 1;
    M4 o(x.s, ow, oh, x.m);
    for (size_t s = 0; s < x.s; s++) for (size_t k = 0; k < x.m; k++) for (int y = 0; y < oh; y++) for (int xx = 0; xx < ow; xx++) o.at(xx, y, k, s) = f(x, xx * sx, y * sy, k, s);
    return o;
  }
  M4 upscale(const M4& x, int a, int b) const {
    M4 o(x.s, x.w * a, x.h * b, x.m);
    for (size_t s = 0; s < o.s; s++) for (size_t k = 0; k < o.m; k++) for (size_t y = 0; y < o.h; y++) for (size_t xx = 0; xx < o.w; xx++) o.at(xx, y, k, s) = x.at(xx / a, y / b, k, s);
    return o;
  }
  M4 run(const M4& img) const {
    M4 x = img; bool up = n.fx == 1 && n.fy == 1;
    if (fcn && n.rx >= 0 && n.ry >= 0 && (n.rx > 0 || n.ry > 0)) {
      M4 o(x.s, x.w + n.rx, x.h + n.ry, x.m);
      for (size_t s = 0; s < x.s; s++) for (size_t k = 0; k < x.m; k++) for (size_t y = 0; y < x.h; y++) for (size_t xx = 0; xx < x.w; xx++) o.at(xx + n.rx / 2, y + n.ry / 2, k, s) = x.at(xx, y, k, s);
      x = o;
    }
    std::vector<M4> A, B;
    auto point = [&](std::function<double(double)> f) { for (auto& v : x.d) v = f(v); };
    for (auto& s : n.st) switch (s.op) {
      case CONV: {
        int ow = ((int)x.w + 2 * s.px - s.a) / s.sx + 1, oh = ((int)x.h + 2 * s.py - s.b) / s.sy + 1; const M4 &w = par[s.p0], &bi = par[s.p0 + 1];
        M4 o(x.s, ow, oh, s.k); int ig = (int)x.m / s.g, og = s.k / s.g;
        for (size_t q = 0; q < x.s; q++) for (int m = 0; m < s.k; m++) for (int y = 0; y < oh; y++) for (int xx = 0; xx < ow; xx++) {
          double v = bi.d[m];
          for (int i = 0; i < ig; i++) for (int ky = 0; ky < s.b; ky++) for (int kx = 0; kx < s.a; kx++) {
            int ix = xx * s.sx + kx - s.px, iy = y * s.sy + ky - s.py; if (ix < 0 || iy < 0 || ix >= (int)x.w || iy >= (int)x.h) continue;
            v += x.at(ix, iy, (m / og) * ig + i, q) * w.at(kx, ky, i, m);
          }
          o.at(xx, y, m, q) = v * (1 - s.drop);
        }
        x = o; break; }
      case MAXP: case AMAXP:
        x = sub(x, s.a, s.b, s.sx, s.sy, [&](const M4& t, int X, int Y, size_t k, size_t q) { double b = -1e300; for (int dy = 0; dy < s.b; dy++) for (int dx = 0; dx < s.a; dx++) b = std::max(b, t.at(X + dx, Y + dy, k, q)); return b; }); break;
      case DOWN:
        x = sub(x, s.a, s.b, s.a, s.b, [&](const M4& t, int X, int Y, size_t k, size_t q) { double b = 0; for (int dy = 0; dy < s.b; dy++) for (int dx = 0; dx < s.a; dx++) b += t.at(X + dx, Y + dy, k, q); return b / (s.a * s.b); }); break;
      case TANH: point([](double v) { return std::tanh(v); }); break;
      case SIGM: point([](double v) { return 1 / (1 + std::exp(-v)); }); break;
      case RELU: point([](double v) { return v > 0 ? v : 0; }); break;
      case HMAX: point([&](double v) { return 1 / (1 + std::exp(-par[s.p0].d[0] * v - par[s.p0].d[1])); }); break;
      case LRN: {
        M4 o = x; int lo = (s.a - 1) / 2, hi = s.a / 2;
        for (size_t q = 0; q < x.s; q++) for (int k = 0; k < (int)x.m; k++) for (int y = 0; y < (int)x.h; y++) for (int xx = 0; xx < (int)x.w; xx++) {
          double t = 0; int c = 0;
          if (s.flag) { for (int z = k - lo; z <= k + hi; z++) if (z >= 0 && z < (int)x.m) { t += x.at(xx, y, z, q) * x.at(xx, y, z, q); c++; } }
          else for (int b = y - lo; b <= y + hi; b++) for (int a = xx - lo; a <= xx + hi; a++) if (a >= 0 && b >= 0 && a < (int)x.w && b < (int)x.h) { t += x.at(a, b, k, q) * x.at(a, b, k, q); c++; }
          o.at(xx, y, k, q) = x.at(xx, y, k, q) / std::pow(1 + s.d1 / c * t, s.d2);
        }
        x = o; break; }
      case PRIOR: {
        if (!up && fcn) { x = upscale(x, n.fx, n.fy); up = true; }
        M4 o(x.s, x.w, x.h, x.m + 2);
        for (size_t q = 0; q < x.s; q++) for (size_t y = 0; y < x.h; y++) for (size_t xx = 0; xx < x.w; xx++) { for (size_t k = 0; k < x.m; k++) o.at(xx, y, k, q) = x.at(xx, y, k, q); for (int k = 0; k < 2; k++) o.at(xx, y, x.m + k, q) = helper.at(xx, y, k, q); }
        x = o; break; }
      case PUSHA: A.push_back(x); break; case PUSHB: B.push_back(x); break;
      case POPA: x = A.back(); A.pop_back(); break; case POPB: x = B.back(); B.pop_back(); break;
      case SUM: case CONCAT: {
        auto& S = s.flag ? B : A; M4 p = S[S.size() - 1], q = S[S.size() - 2];
        if (s.op == SUM) { for (size_t i = 0; i < p.n(); i++) p.d[i] += q.d[i]; x = p; }
        else { M4 o(p.s, p.w, p.h, p.m + q.m); for (size_t z = 0; z < p.s; z++) for (size_t y = 0; y < p.h; y++) for (size_t xx = 0; xx < p.w; xx++) { for (size_t k = 0; k < p.m; k++) o.at(xx, y, k, z) = p.at(xx, y, k, z); for (size_t k = 0; k < q.m; k++) o.at(xx, y, p.m + k, z) = q.at(xx, y, k, z); } x = o; }
        break; }
      case UPSC: x = upscale(x, s.a, s.b); up = true; break;
      case OUT:
        if (n.classes == 1) point([](double v) { return std::tanh(v); }); else point([](double v) { return 1 / (1 + std::exp(-v)); });
        if (!up && fcn) { x = upscale(x, n.fx, n.fy); up = true; }
        break;
    }
    return x;
  }
};

}  // namespace nd
