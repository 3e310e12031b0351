// C22: the command line programs do to files what they say: classifyImage
// writes the colours of the classes the described network predicts for every
// pixel of the image; the tensor tools cut, compress, transpose, reshape and
// patch the tensors of a file; a refused run leaves files alone and says so.
#include "img.h"
#include "desc.h"
#include "tool.h"
#include "TensorStream.h"
#include "CompressedTensor.h"
using namespace vh; using tu::M4; using Conv::Tensor; using nd::V; using im::Img;

static std::string enc(const M4& t) {
  std::string o = tu::u64le(t.s) + tu::u64le(t.w) + tu::u64le(t.h) + tu::u64le(t.m);
  for (double d : t.d) { uint32_t u = tu::bits((float)d); for (int i = 0; i < 4; i++) o += (char)((u >> (8 * i)) & 0xff); }
  return o;
}
static M4 any(Rng& r, int big) { M4 t(r.big(1, 3, 20), r.big(1, big, 80), r.big(1, big, 80), r.big(1, 4, 20)); int z = (int)r.range(0, 2); for (auto& v : t.d) v = z == 0 ? tu::rfloat(r) : z == 1 ? (double)r.range(-1, 1) : r.chance(0.8) ? 0.5 : tu::rfloat(r); return t; }
static int chi(unsigned c, int k) { return (c >> (16 - 8 * k)) & 255; }

// ---------------------------------------------------------------- classifyImage
static void classify(Rng& r) {
  std::string dir = G().scratch + "/c"; mkdir(dir.c_str(), 0755);
  nd::Net n; size_t w, h, W, H; int imaps = (int)r.range(1, 4);
  for (int tries = 0;; tries++) {
    n = nd::generate(r, imaps); w = r.chance(0.3) ? r.range(1, 40) : r.chance(0.05) ? r.range(40, 90) : r.range(1, 17); h = r.chance(0.3) ? r.range(1, 40) : r.chance(0.05) ? r.range(40, 90) : r.range(1, 17);
    W = (w + 7) / 8 * 8; H = (h + 7) / 8 * 8;
    if (n.rx < 0 || n.ry < 0 || W % n.fx || H % n.fy) continue;
    if (n.classes == 1 && n.st.back().op != nd::OUT) continue;
    break;
  }
  std::vector<unsigned> cols; while ((int)cols.size() < n.classes) { unsigned c = r.chance(0.2) ? (unsigned)r.range(0, 255) * 0x010101u : (unsigned)r.range(0, 0xffffff); bool d = false; for (unsigned q : cols) d |= q == c; if (!d) cols.push_back(c); }
  std::string cfg = fmt("classes=%d\n", n.classes); for (int c = 0; c < n.classes; c++) cfg += fmt("c%d\n", c); cfg += "colors\n"; for (unsigned c : cols) cfg += fmt("0x%06X\n", c);
  if (r.chance(0.3)) cfg += fmt("training=%s/there is none.Tensor\n", dir.c_str());   // not loaded for classification
  tu::spew(dir + "/d.set", cfg); tu::spew(dir + "/n.net", n.text);
  V par; std::string pb; std::set<size_t> ends; double sc = r.pick(std::vector<double>{0.8, 0.8, 0.4, 2}); bool nobias = r.chance(0.6);
  for (auto& s : n.shape) { par.push_back(tu::random(r, s.s, s.w, s.h, s.m, -sc, sc)); if (nobias && s.s == 1 && s.h == 1 && s.m == 1) for (auto& v : par.back().d) v *= 0.05; ends.insert(pb.size()); pb += enc(par.back()); }
  tu::spew(dir + "/p.Tensor", pb);
  // image
  M4 img(1, w, h, imaps); std::string fn, b; int kind = imaps == 2 || imaps == 4 ? (int)r.range(0, 1) * 3 : (int)r.range(0, 3);
  static const int types[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA};
  if (kind <= 1) { int depth = kind ? 16 : 8; Img m = im::noise(r, w, h, imaps, depth); b = im::png(r, m, types[imaps - 1]); fn = "in.png"; for (int k = 0; k < imaps; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) img.at(x, y, k, 0) = m.at(x, y, k) / (kind ? 65535.0 : 255.0); }
  else if (kind == 2) { Img m = im::noise(r, w, h, imaps, 8), o; b = im::jpg(r, m, 85); im::unjpg(b, o); fn = "in.jpg"; for (int k = 0; k < imaps; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) img.at(x, y, k, 0) = o.at(x, y, k) / 255.0; }
  else { img = tu::random(r, 1, w, h, imaps, 0, 1); b = enc(img); fn = "in.Tensor"; }
  tu::spew(dir + "/" + fn, b);
  bool tensorout = r.chance(0.4); std::string out = dir + (tensorout ? "/out.Tensor" : "/out.png"); unlink(out.c_str());
  note(fmt("classify %zux%zux%d (%s) -> %zux%zu, %d classes: ", w, h, imaps, fn.c_str(), W, H, n.classes) + n.text);
  int wrong = r.chance(0.2) ? (int)r.range(1, 6) : 0; std::string bad = pb;
  if (wrong == 1 && pb.size() > 40) { do bad = pb.substr(0, pb.size() - r.range(1, (int64_t)pb.size() - 1)); while (ends.count(bad.size()));  // parameters of the first layers alone are allowed
    tu::spew(dir + "/p.Tensor", bad); }
  else if (wrong == 2) { V q = par; size_t k = r.range(0, (int64_t)q.size() - 1); M4 o = q[k]; q[k] = M4(o.s + r.range(0, 1), o.w, o.h, o.m + (r.chance(0.5) ? 1 : 2)); bad.clear(); for (auto& m : q) bad += enc(m); tu::spew(dir + "/p.Tensor", bad); }
  else if (wrong == 3) unlink((dir + "/" + fn).c_str());
  else if (wrong == 4) unlink((dir + "/p.Tensor").c_str());
  else if (wrong == 5) unlink((dir + "/n.net").c_str());
  else if (wrong == 6) unlink((dir + "/d.set").c_str());
  tl::Res t = tl::run("classifyImage", {dir + "/d.set", dir + "/n.net", dir + "/p.Tensor", dir + "/" + fn, out});
  if (t.sanitizer) return;
  if (wrong == 1 && bad.size() == pb.size()) wrong = 0;
  if (wrong) {
    count("refused classifications");
    if (t.rc == 0) fail("classify-accepts", fmt("wrong input %d: the program reports success", wrong));
    if (tl::exists(out)) fail("classify-accepts", fmt("wrong input %d: an output image was written", wrong));
    return;
  }
  if (t.rc) { fail("classify-exit", fmt("exit code %d: ", t.rc) + t.out.substr(t.out.size() > 600 ? t.out.size() - 600 : 0)); return; }
  // what the network says
  M4 in(1, W, H, imaps), helper(1, W, H, 2);
  for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { for (int k = 0; k < imaps; k++) in.at(x, y, k, 0) = img.at(x, y, k, 0); helper.at(x, y, 0, 0) = w > 1 ? (double)x / (w - 1) : 0; helper.at(x, y, 1, 0) = h > 1 ? (double)y / (h - 1) : 0; }
  nd::Interp I{n, par, true, helper}; M4 o = I.run(in);
  if (o.w != W || o.h != H || (int)o.m != n.classes) { fail("interp-shape", o.shape()); return; }
  M4 got(1, w, h, 3);
  if (tensorout) { std::ifstream f(out, std::ios::binary); Tensor t2; t2.Deserialize(f); M4 g = tu::read(t2); if (g.shape() != got.shape()) { fail("classify-size", "image " + img.shape() + " gives " + g.shape()); return; } got = g; }
  else { Img g; if (!im::unpng(tu::slurp(out), g)) { fail("classify-size", "output is not an 8 bit RGB image"); return; } if (g.w != w || g.h != h) { fail("classify-size", fmt("image %zux%zu gives %ux%u", w, h, g.w, g.h)); return; }
    for (int k = 0; k < 3; k++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) got.at(x, y, k, 0) = g.at(x, y, k) / 255.0; }
  size_t ties = 0, tot = 0; std::set<int> seen;
  for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
    if (n.classes == 1) { for (int k = 0; k < 3; k++) { double want = (o.at(x, y, 0, 0) + 1) / 2 * chi(cols[0], k) / 255.0, tol = tensorout ? 1e-3 : 1.001 / 255 + 1e-3; if (!(std::fabs(got.at(x, y, k, 0) - want) <= tol)) { fail("classify-pixel", fmt("pixel (%zu,%zu) channel %d is %g, the network gives %g", x, y, k, got.at(x, y, k, 0), want)); return; } } tot++; }
    else {
      int best = 0, hit = -1; double second = -1e300; for (int k = 1; k < n.classes; k++) if (o.at(x, y, k, 0) > o.at(x, y, best, 0)) best = k; for (int k = 0; k < n.classes; k++) if (k != best) second = std::max(second, o.at(x, y, k, 0));
      for (int k = 0; k < n.classes; k++) { bool eq = true; for (int c = 0; c < 3; c++) eq &= std::fabs(got.at(x, y, c, 0) - chi(cols[k], c) / 255.0) < 1e-4; if (eq) hit = k; }
      if (hit < 0) { fail("classify-pixel", fmt("pixel (%zu,%zu) has the colour of no class", x, y)); return; }
      if (o.at(x, y, best, 0) - second < 2e-3) { ties++; if (o.at(x, y, best, 0) - o.at(x, y, hit, 0) > 4e-3) { fail("classify-pixel", fmt("pixel (%zu,%zu) shows class %d", x, y, hit)); return; } continue; }
      if (hit != best) { fail("classify-pixel", fmt("pixel (%zu,%zu) shows class %d (%g), the network says %d (%g)", x, y, hit, o.at(x, y, hit, 0), best, o.at(x, y, best, 0))); return; }
      tot++; seen.insert(best);
    }
  }
  count("pixels classified", tot); count("pixels too close to call", ties); if (seen.size() > 1) count("images with several predicted classes");
  nontrivial(n.text + fmt("%zu %zu", w, h)); sample(G().note.substr(0, 260));
}

// ---------------------------------------------------------------- tensor files
static void cut(Rng& r) {
  std::string f = G().scratch + "/cut.Tensor"; int n = (int)r.range(1, r.chance(0.2) ? 30 : 6), k = r.chance(0.4) ? n + (int)r.range(-1, 1) : (int)r.range(0, n + 3); std::string b; std::vector<size_t> end{0};
  for (int i = 0; i < n; i++) { b += enc(any(r, 12)); end.push_back(b.size()); }
  bool trunc = r.chance(0.15); std::string file = trunc ? b.substr(0, b.size() - r.range(1, (int64_t)(end[n] - end[n - 1]) - 33)) : b;
  tu::spew(f, file); note(fmt("cut %d tensors to %d%s", n, k, trunc ? " (damaged)" : ""));
  tl::Res t = tl::run("tensorStreamTool", {f, fmt("%d", k)}); if (t.sanitizer) return; std::string now = tu::slurp(f);
  if (trunc) { count("damaged streams"); if (t.rc == 0) fail("cut-damaged", "a damaged stream is accepted"); if (now != file) fail("cut-damaged", "a damaged stream was changed"); return; }
  if (t.rc) { fail("cut-exit", fmt("exit code %d", t.rc)); return; }
  std::string want = k < n ? b.substr(0, end[k]) : b;
  if (now != want) fail("cut", fmt("%d tensors cut to %d: %zu bytes instead of %zu", n, k, now.size(), want.size()));
  bool said = t.out.find("ERR [") != std::string::npos; if (said != (k > n)) { fail("cut-report", fmt("cutting %d tensors to %d %s an error", n, k, said ? "reports" : "does not report")); return; }
  count("streams cut"); nontrivial(G().note + fmt("%zu", b.size()));
}
static void compress(Rng& r) {
  std::string f = G().scratch + "/a.Tensor", c = G().scratch + "/a.CTensor"; int n = (int)r.range(0, r.chance(0.1) ? 30 : 5); std::string b; std::vector<M4> ts;
  for (int i = 0; i < n; i++) { ts.push_back(any(r, r.chance(0.1) ? 70 : 12)); b += enc(ts.back()); }
  tu::spew(f, b); unlink(c.c_str()); note(fmt("compress %d tensors", n));
  if (r.chance(0.1)) {   // wrong use
    std::vector<std::string> a; int k = (int)r.range(0, 3); if (k) a.push_back(f); if (k == 2) { a[0] += "x"; a.push_back(c); } if (k == 3) a.push_back(G().scratch + "/no/such/folder/c.CTensor");
    tl::Res t = tl::run("compressTensorStream", a); if (t.sanitizer) return; count("wrong invocations"); if (t.rc == 0) fail("compress-usage", fmt("wrong invocation %d reports success", k)); if (tu::slurp(f) != b) fail("compress-usage", "input changed"); return;
  }
  tl::Res t = tl::run("compressTensorStream", {f, c}); if (t.sanitizer) return;
  if (t.rc) { fail("compress-exit", fmt("%d tensors: exit code %d ", n, t.rc) + t.out.substr(t.out.size() > 300 ? t.out.size() - 300 : 0)); return; }
  if (tu::slurp(f) != b) { fail("compress-input", "input changed"); return; }
  Conv::TensorStream* s = Conv::TensorStream::FromFile(c);
  if (s->GetTensorCount() != (unsigned)n) { fail("compress-count", fmt("%u tensors instead of %d", s->GetTensorCount(), n)); delete s; return; }
  for (int i = 0; i < n; i++) {
    M4& m = ts[i]; if (s->GetWidth(i) != m.w || s->GetHeight(i) != m.h || s->GetMaps(i) != m.m || s->GetSamples(i) != m.s) { fail("compress-shape", fmt("tensor %d", i)); break; }
    bool ok = true; for (size_t q = 0; q < m.s && ok; q++) { Tensor d(1, m.w, m.h, m.m); ok = s->CopySample(i, q, d, 0); for (size_t e = 0; ok && e < d.elements(); e++) ok = d.data_ptr()[e] == (float)m.d[q * d.elements() + e]; }
    if (!ok) { fail("compress-values", fmt("tensor %d differs after compression", i)); break; }
    count("compressed tensors compared");
  }
  delete s; nontrivial(G().note + fmt("%zu", b.size()));
}
static double refl(int v, int n) { while (v < 0 || v >= n) v = v < 0 ? -v : 2 * n - 1 - v; return v; }
static void usage(Rng& r) {   // too few arguments, files that are not there
  std::string f = G().scratch + "/none.Tensor"; unlink(f.c_str()); int k = (int)r.range(0, 6); note(fmt("wrong invocation %d", k)); tl::Res t;
  const std::vector<std::pair<const char*, std::vector<std::string>>> c = {{"tensorTool", {}}, {"tensorStreamTool", {}}, {"tensorStreamTool", {f}}, {"classifyImage", {}}, {"classifyImage", {f, f, f}}, {"tensorStreamTool", {f, "1"}}, {"tensorTool", {f}}};
  t = tl::run(c[k].first, c[k].second, "q\n", "", 20); if (t.sanitizer) return; count("wrong invocations");
  if (t.rc == 2000) fail("usage-hang", fmt("wrong invocation %d of %s does not end", k, c[k].first));
  else if (t.rc == 0) fail("usage", fmt("wrong invocation %d of %s reports success", k, c[k].first));
  if (tl::exists(f)) fail("usage", "a file appeared");
  // a tensor past the end of its file
  int n = (int)r.range(0, 3), id = n + (int)r.range(0, 2); std::string b; for (int i = 0; i < n; i++) b += enc(any(r, 5)); tu::spew(f, b); note(fmt("tensor %d of a file of %d", id, n));
  t = tl::run("tensorTool", {f, fmt("%d", id)}, "write\nq\n", "", 20); if (t.sanitizer) return; count("wrong invocations");
  if (t.rc == 0) fail("usage", "editing a tensor that is not in the file reports success");
  if (tu::slurp(f) != b) fail("usage-changed", "editing a tensor that is not in the file changed the file");
}
static void census(Rng& r) {   // class statistics of a training set
  int K = (int)r.range(2, 5), n = (int)r.range(1, 4); bool ww = r.chance(0.7); std::vector<double> w(K, 1), cnt(K, 0); std::string f = G().scratch + "/tr.Tensor", cf = G().scratch + "/tr.set", cfg = fmt("classes=%d\n", K), b;
  for (int k = 0; k < K; k++) cfg += fmt("cl%d\n", k); cfg += "colors\n"; for (int k = 0; k < K; k++) cfg += fmt("0x%06X\n", k * 99 + 1);
  if (ww) { cfg += "weights\n"; for (int k = 0; k < K; k++) { w[k] = r.pick(std::vector<double>{0.25, 0.5, 1, 2, 3, 10}); cfg += fmt("%g\n", w[k]); } }
  int miss = r.chance(0.3) ? (int)r.range(0, K - 1) : -1;
  for (int q = 0; q < n; q++) { size_t W = r.big(1, 14, 60), H = r.big(1, 14, 60); M4 im = tu::random(r, 1, W, H, 3), l(1, W, H, K); for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) { int k = (int)r.range(0, K - 1); if (k == miss) k = (k + 1) % K; l.at(x, y, k, 0) = 1; cnt[k]++; } b += enc(im) + enc(l); }
  tu::spew(f, b); cfg += "training=" + f + "\n"; if (r.chance(0.3)) cfg += "testing=" + f + "\n"; tu::spew(cf, cfg); note(fmt("class statistics of %d images\n", n) + cfg);
  tl::Res t = tl::run("tensorStreamStats", {cf}); if (t.sanitizer) return; if (t.rc) { fail("census-exit", fmt("exit code %d", t.rc)); return; }
  size_t cut = t.out.find("Stats when not ignoring weights"); if (cut == std::string::npos) { fail("census", "no statistics: " + t.out.substr(0, 300)); return; }
  for (int half = 0; half < 2; half++) {
    std::string o = half ? t.out.substr(cut) : t.out.substr(0, cut); std::vector<double> c(K); double tot = 0; int present = 0;
    for (int k = 0; k < K; k++) { c[k] = half ? cnt[k] * w[k] : w[k] > 0 ? cnt[k] : 0; tot += c[k]; present += c[k] > 0; } if (!present) { count("training sets without weight"); continue; }
    for (int k = 0; k < K; k++) {
      std::string nm = fmt("cl%d | ", k); size_t p = o.find(nm); double v = -1, pc = -1, co = -1, nw = -1; if (p == std::string::npos || sscanf(o.c_str() + p + nm.size(), "%lf %lf%% %lf %lf", &v, &pc, &co, &nw) != 4) { fail("census", fmt("no line for class %d", k)); return; }
      double ratio = c[k] / tot, corr = c[k] > 0 ? (1.0 / present) / ratio : 0;
      if (v != std::floor(c[k]) || std::fabs(pc - 100 * ratio) > 1e-3 * (1 + pc) || std::fabs(co - corr) > 1e-3 * (1 + corr) || std::fabs(nw - corr * c[k]) > 1.001) { fail("census", fmt("%s weights, class %d: %g pixels, %g%%, factor %g, %g corrected; the images hold %g, %g%%, %g", half ? "with" : "without", k, v, pc, co, nw, c[k], 100 * ratio, corr)); return; }
      count("class frequencies compared");
    }
  }
  nontrivial(G().note + fmt("%zu", b.size()));
}
static void edit(Rng& r) {
  std::string f = G().scratch + "/e.Tensor"; int n = (int)r.range(1, 4), id = (int)r.range(0, n - 1); std::string b; std::vector<M4> ts;
  for (int i = 0; i < n; i++) { ts.push_back(any(r, 7)); b += enc(ts.back()); }
  tu::spew(f, b); M4 m = ts[id]; std::string in, log; std::string want = b; std::vector<double> bin; std::string bf = G().scratch + "/binoutput.data"; unlink(bf.c_str());
  int cmds = (int)r.range(1, 6);
  for (int c = 0; c < cmds; c++) switch (r.range(0, 7)) {
    case 7: {   // 8 bit export of the tensor as it is now
      bool small = m.n() > 0; for (double v : m.d) small &= std::fabs(v) <= 1; if (!small) break;
      in += "bin\n"; log += " bin"; bin.clear(); auto q = [](double v) { return 127.0 + 127.0 * v; };
      if (m.m == 3) { for (size_t s = 0; s < m.s; s++) for (size_t p = 0; p < m.w * m.h; p++) for (int k = 0; k < 3; k++) bin.push_back(q(m.d[(s * 3 + k) * m.w * m.h + p])); } else for (double v : m.d) bin.push_back(q(v));
      break; }
    case 0: case 1: { in += r.chance(0.5) ? "transpose\n" : "transpose "; log += " transpose"; M4 o(m.s, m.h, m.w, m.m); for (size_t s = 0; s < m.s; s++) for (size_t k = 0; k < m.m; k++) for (size_t y = 0; y < m.h; y++) for (size_t x = 0; x < m.w; x++) o.at(y, x, k, s) = m.at(x, y, k, s); m = o; break; }
    case 2: case 3: {
      size_t d[4] = {m.w, m.h, m.m, m.s}; for (int q = 0; q < 3; q++) { int a = (int)r.range(0, 3), z = (int)r.range(0, 3); size_t p = 2 + r.range(0, 3); if (a != z && d[a] % p == 0) { d[a] /= p; d[z] *= p; } } bool bad = r.chance(0.3); if (bad) d[r.range(0, 3)] += r.range(1, 3);
      in += fmt("reshape %zu %zu %zu %zu\n", d[0], d[1], d[2], d[3]); log += bad ? " bad-reshape" : " reshape"; if (d[0] * d[1] * d[2] * d[3] == m.n()) { m.w = d[0]; m.h = d[1]; m.m = d[2]; m.s = d[3]; } break; }
    case 4: { in += r.pick(std::vector<std::string>{"size\n", "help\n", "nonsense\n", "\n\n"}); break; }
    case 5: { in += "write\n"; log += " write"; want = enc(m); break; }
    case 6: {
      if (m.w * m.h > 100) break;
      int px = (int)r.range(1, 5), py = (int)r.range(1, 5), s = (int)r.range(0, (int64_t)m.s - 1); in += "extractpatches\n"; if (m.s != 1) in += fmt("%d\n", s); else s = 0; in += fmt("%d %d\n", px, py); log += fmt(" patches %dx%d", px, py);
      M4 o(m.w * m.h, px, py, m.m);
      for (size_t e = 0; e < o.s; e++) for (size_t k = 0; k < m.m; k++) for (int y = 0; y < py; y++) for (int x = 0; x < px; x++) o.at(x, y, k, e) = m.at((size_t)refl((int)(e % m.w) + x - px / 2, (int)m.w), (size_t)refl((int)(e / m.w) + y - py / 2, (int)m.h), k, s);
      m = o; break; }
  }
  bool save = r.chance(0.7); if (save) { in += "write\n"; want = enc(m); }
  int end = (int)r.range(0, 2); in += end == 0 ? "q\n" : end == 1 ? "quit" : ""; note(fmt("edit tensor %d of %d (%s):", id, n, ts[id].shape().c_str()) + log + (end == 2 ? " end of input" : ""));
  tl::Res t = tl::run("tensorTool", id == 0 && r.chance(0.5) ? std::vector<std::string>{f} : std::vector<std::string>{f, fmt("%d", id)}, in, G().scratch, 20); if (t.sanitizer) return;
  if (t.rc == 2000) { fail("edit-hang", "the program does not end when its input ends"); return; }
  if (t.rc) { fail("edit-exit", fmt("exit code %d", t.rc)); return; }
  std::string now = tu::slurp(f);
  if (now != want) fail("edit", fmt("file has %zu bytes, expected %zu%s", now.size(), want.size(), now.size() == want.size() ? " (content differs)" : ""));
  std::string got = tu::slurp(bf); bool same = got.size() == bin.size(); for (size_t p = 0; same && p < bin.size(); p++) same = std::fabs((unsigned char)got[p] - bin[p]) < 1.001;
  if (!same) fail("edit-bin", fmt("8 bit export has %zu bytes, expected %zu%s", got.size(), bin.size(), got.size() == bin.size() ? " (content differs)" : "")); if (bin.size()) count("8 bit exports");
  count("edit sessions"); nontrivial(G().note);
}
static void one(Rng& r, int64_t i) {
  switch (i % 8) { case 5: cut(r); break; case 6: compress(r); break; case 7: if (r.chance(0.1)) usage(r); else if (r.chance(0.25)) census(r); else edit(r); break; default: classify(r); }
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c22_tools", one, [] { tu::init(); }); }
