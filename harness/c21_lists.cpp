// C21: labelled images given as image lists: the list stream, the datasets on
// top of it and the conversion tools all yield the tensors the image files
// hold, class colours become class labels, and colouring a prediction is the
// inverse of that.
#include "img.h"
#include "TensorStream.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <spawn.h>
extern char** environ;
using namespace im; using namespace vh; using Conv::Tensor; using tu::M4;

struct Pair { M4 img; std::vector<unsigned> lab; size_t w, h; bool skip; };   // lab: 24 bit colours
static int tool(const char* name, const std::vector<std::string>& args) {
  const char* exe = getenv((std::string("TOOL_") + name).c_str()); if (!exe) return -1;
  std::vector<char*> a{(char*)exe}; for (auto& s : args) a.push_back((char*)s.c_str()); a.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, (G().scratch + "/tool.out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_adddup2(&fa, 1, 2); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  pid_t pid; if (posix_spawn(&pid, exe, &fa, nullptr, a.data(), environ)) return -1;
  posix_spawn_file_actions_destroy(&fa); int st; while (waitpid(pid, &st, 0) < 0) {}
  count("tool runs"); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static unsigned chi(unsigned color, int k) { return (color >> (16 - 8 * k)) & 255; }
// the label tensor an image of these colours stands for
static M4 label(const Pair& p, const std::vector<unsigned>& cols) {
  M4 l(1, p.w, p.h, cols.size());
  for (size_t y = 0; y < p.h; y++) for (size_t x = 0; x < p.w; x++) { unsigned c = p.lab[y * p.w + x];
    if (cols.size() == 1) { double d = 0; for (int k = 0; k < 3; k++) { double e = (double)chi(c, k) - chi(cols[0], k); d += e * e / 65025; } l.at(x, y, 0, 0) = 1 - 2 * std::sqrt(d / 3); }
    else for (size_t k = 0; k < cols.size(); k++) l.at(x, y, k, 0) = c == cols[k]; }
  return l;
}
static bool same(const char* what, const Tensor& t, size_t ts, const M4& m, double tol, size_t idx) {   // sample ts of t holds m, zero padded
  size_t bad = 0;
  for (size_t k = 0; k < m.m; k++) for (size_t y = 0; y < t.height(); y++) for (size_t x = 0; x < t.width(); x++) {
    double g = *t.data_ptr_const(x, y, k, ts), w = x < m.w && y < m.h ? m.at(x, y, k, 0) : 0; count("pixels compared");
    if (!(std::fabs(g - w) <= tol)) { if (!bad++) fail(std::string(what) + (idx % 2 ? "-label" : "-image"), fmt("tensor %zu pixel (%zu,%zu) map %zu: %.8g, the files say %.8g", idx, x, y, k, g, w)); }
  }
  return !bad;
}

static void one(Rng& r, int64_t i) {
  std::string dir = G().scratch, id = dir + "/im", ld = dir + "/lab dir"; mkdir(id.c_str(), 0755); mkdir(ld.c_str(), 0755);
  unsigned classes = (unsigned)r.big(1, 6, 40); std::vector<unsigned> cols; 
  while (cols.size() < classes) { unsigned c = r.chance(0.3) ? (unsigned)r.range(0, 255) * 0x010101u : r.chance(0.3) && cols.size() ? cols.back() ^ (1u << r.range(0, 23)) : r.chance(0.2) ? (r.chance(0.5) ? 0u : 0xffffffu) : (unsigned)r.range(0, 0xffffff); bool dup = false; for (unsigned q : cols) dup |= q == c; if (!dup) cols.push_back(c); }
  bool shared = classes > 1 && r.chance(0.06); if (shared) { unsigned a = (unsigned)r.range(0, classes - 1), b = (unsigned)r.range(0, classes - 2); if (b >= a) b++; cols[a] = cols[b]; count("configurations in which two classes share a colour"); }
  int n = (int)r.big(0, 4, 14); std::vector<Pair> ps; std::string il, ll; bool mixed = r.chance(0.2); int imaps = (int)r.range(1, 4);
  for (int k = 0; k < n; k++) {
    Pair p; p.w = r.big(1, 12, 90); p.h = r.big(1, 12, 90); p.skip = false; size_t lw = p.w, lh = p.h;
    if (r.chance(0.15)) { (r.chance(0.5) ? lw : lh) += r.range(1, 3); p.skip = true; }
    int maps = mixed ? (int)r.range(1, 4) : imaps; int kind = maps == 2 || maps == 4 ? (int)r.range(0, 1) : (int)r.range(0, 3); bool brief = r.chance(0.3); std::string fn = brief ? fmt("%d", k) : fmt("image %d", k), b;   // the shortest names allowed have five characters
    if (kind <= 1) { static const int types[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA}; Img m = noise(r, p.w, p.h, maps, kind ? 16 : 8); b = png(r, m, types[maps - 1]); fn += ".png";
      p.img = M4(1, p.w, p.h, maps); for (int c = 0; c < maps; c++) for (size_t y = 0; y < p.h; y++) for (size_t x = 0; x < p.w; x++) p.img.at(x, y, c, 0) = m.at(x, y, c) / (kind ? 65535.0 : 255.0); }
    else if (kind == 2) { Img m = noise(r, p.w, p.h, maps, 8), o; b = jpg(r, m, 90); unjpg(b, o); fn += r.chance(0.5) ? ".jpg" : ".JPG";
      p.img = M4(1, p.w, p.h, maps); for (int c = 0; c < maps; c++) for (size_t y = 0; y < p.h; y++) for (size_t x = 0; x < p.w; x++) p.img.at(x, y, c, 0) = o.at(x, y, c) / 255.0; }
    else { p.img = tu::random(r, 1, p.w, p.h, maps); Tensor t; tu::write(t, p.img); std::stringstream ss; t.Serialize(ss); b = ss.str(); fn += ".Tensor"; }
    tu::spew(id + "/" + fn, b); il += (k ? "\n" : "") + fn;
    // label image
    for (size_t e = 0; e < lw * lh; e++) p.lab.push_back(r.chance(0.75) ? cols[r.range(0, classes - 1)] : r.chance(0.5) ? cols[r.range(0, classes - 1)] ^ (1u << r.range(0, 23)) : (unsigned)r.range(0, 0xffffff));
    bool gray = r.chance(0.2); if (gray) for (auto& c : p.lab) c = (c & 255) * 0x010101u;
    std::string lf = fmt(brief ? "%d.png" : "label%d.png", k), lb;
    { Img m; m.w = lw; m.h = lh; m.c = gray ? 1 : 3; m.depth = 8; for (size_t e = 0; e < lw * lh; e++) for (unsigned c = 0; c < m.c; c++) m.v.push_back(chi(p.lab[e], c)); lb = png(r, m, gray ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB); }
    tu::spew(ld + "/" + lf, lb); ll += (k ? "\n" : "") + lf;
    ps.push_back(p);
  }
  int end = (int)r.range(0, 2); if (end) { il += "\n"; ll += "\n"; } if (end == 2) { il += "\n\nrubbish.png"; ll += "\n\nrubbish.png"; }   // an empty line ends the list
  std::string fi = dir + "/images.txt", fl = dir + "/labels.txt"; tu::spew(fi, il); tu::spew(fl, ll);
  note(fmt("%d pairs %u classes maps %d%s end %d", n, classes, imaps, mixed ? " mixed" : "", end));
  std::vector<const Pair*> want; for (auto& p : ps) if (!p.skip) want.push_back(&p);
  auto check_stream = [&](const char* what, Conv::TensorStream* s, bool rgb, double tol) -> bool {
    if (s->GetTensorCount() != 2 * want.size()) { fail(std::string(what) + "-count", fmt("%u tensors, the lists hold %zu matching pairs", s->GetTensorCount(), want.size())); return false; }
    std::vector<unsigned> order; for (unsigned k = 0; k < 2 * want.size(); k++) order.push_back(k); for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[r.range(0, k - 1)]);
    for (unsigned k : order) {
      const Pair& p = *want[k / 2]; M4 m;
      if (k % 2 == 0) m = p.img; else if (rgb) { m = M4(1, p.w, p.h, 3); for (size_t y = 0; y < p.h; y++) for (size_t x = 0; x < p.w; x++) for (int c = 0; c < 3; c++) m.at(x, y, c, 0) = chi(p.lab[y * p.w + x], c) / 255.0; } else m = label(p, cols);
      if (s->GetWidth(k) != m.w || s->GetHeight(k) != m.h || s->GetMaps(k) != m.m || s->GetSamples(k) != 1) { fail(std::string(what) + "-shape", fmt("tensor %u is reported as %zux%zux%zu, the file holds %s", k, s->GetWidth(k), s->GetHeight(k), s->GetMaps(k), m.shape().c_str())); return false; }
      int mode = (int)r.range(0, 3); size_t S = r.range(1, 3), ts = r.range(0, S - 1); Tensor t(S, m.w + (mode == 1 ? r.range(0, 4) : 0), m.h + (mode == 1 ? r.range(0, 4) : 0), m.m + (mode == 2)); for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = 7;
      size_t ss = mode == 3 ? r.range(0, 1) : 0; bool ok = s->CopySample(k, ss, t, ts);
      count("samples read");
      if (ok != (mode != 2 && ss == 0)) { fail(std::string(what) + "-verdict", fmt("reading sample %zu of tensor %u into %s gives %d", ss, k, tu::shape(t).c_str(), ok)); return false; }
      for (size_t e = 0; e < t.elements(); e++) if (!(ok && e / (t.elements() / S) == ts) && t.data_ptr()[e] != 7) { fail(std::string(what) + "-side-effect", "reading changed something else in the target"); return false; }
      if (ok && !same(what, t, ts, m, tol, k)) return false;
    }
    Tensor t(1, 3, 3, 1); if (s->CopySample((unsigned)(2 * want.size() + r.range(0, 2)), 0, t, 0) || s->GetWidth(2 * want.size()) || s->GetMaps(2 * want.size()) || s->GetHeight(2 * want.size()) || s->GetSamples(2 * want.size())) { fail(std::string(what) + "-past-end", "a tensor past the end is served"); return false; }
    return true;
  };
  auto sep = [&](const std::string& d) { return d + (r.chance(0.5) ? "/" : ""); };
  std::string desc = "list:" + fi + ";" + sep(id) + ";" + fl + ";" + sep(ld);
  Conv::TensorStream* s = Conv::TensorStream::FromFile(desc, cols);
  if (!check_stream("list", s, false, 1e-6)) return;
  // a missing list is an error
  if (r.chance(0.1)) { bool threw = false; try { Conv::TensorStream::FromFile("list:" + fi + "x;" + id + ";" + fl + ";" + ld, cols); } catch (std::runtime_error&) { threw = true; } if (!threw) fail("missing-list", "a list file that does not exist is no error"); }
  // tools convert the same lists
  std::string cfg = fmt("classes=%u\n", classes); for (unsigned c = 0; c < classes; c++) cfg += fmt("c%u\n", c); cfg += "colors\n"; for (unsigned c : cols) cfg += fmt("0x%06X\n", c); tu::spew(dir + "/d.set", cfg);
  if (r.chance(G().thorough ? 0.3 : 0.15)) for (int q = 0; q < 2; q++) {
    bool rgb = r.chance(0.25); std::string out = dir + fmt("/out%d.Tensor", q);
    int rc = tool(q ? "makeCompressedTensorStream" : "makeTensorStream", {dir + "/d.set", fi, sep(id), fl, sep(ld), out, rgb ? "true" : "false"});
    if (rc) { fail("tool-exit", fmt("conversion tool %d exited with %d: ", q, rc) + tu::slurp(dir + "/tool.out").substr(0, 1500)); return; }
    Conv::TensorStream* f = Conv::TensorStream::FromFile(out, cols); if (!check_stream(q ? "ctool" : "tool", f, rgb, 1e-6)) return; delete f;
    count("conversion tool outputs checked");
  }
  // label images with an alpha channel have no class colours
  if (r.chance(0.02)) {
    size_t w = r.range(1, 9), h = r.range(1, 9); int c = r.chance(0.7) ? 2 : 4; Img m = noise(r, w, h, c, 8), im = noise(r, w, h, 3, 8); tu::spew(ld + "/alpha.png", png(r, m, c == 2 ? PNG_COLOR_TYPE_GRAY_ALPHA : PNG_COLOR_TYPE_RGB_ALPHA)); tu::spew(id + "/alpha.png", png(r, im, PNG_COLOR_TYPE_RGB)); tu::spew(dir + "/ai.txt", "alpha.png\n"); bool rgb = r.chance(0.5); std::string out = dir + "/alpha.Tensor"; unlink(out.c_str());
    bool cp = r.chance(0.5); int rc = tool(cp ? "makeCompressedTensorStream" : "makeTensorStream", {dir + "/d.set", dir + "/ai.txt", id, dir + "/ai.txt", ld, out, rgb ? "true" : "false"}); count("label images with alpha channel"); if (rc == 99 && tu::slurp(dir + "/tool.out").find("terminate called after") == std::string::npos) { fail("alpha-memory", "memory error on a label image with alpha channel: " + tu::slurp(dir + "/tool.out").substr(0, 1500)); return; }
    if (rgb && c == 4) { if (rc) { fail("alpha-rgb", fmt("a label image with four channels is refused (%d)", rc)); return; } Conv::TensorStream* f = Conv::TensorStream::FromFile(out, cols); Tensor t(1, w, h, 3); if (f->GetTensorCount() != 2 || !f->CopySample(1, 0, t, 0)) { fail("alpha-rgb", "no label"); return; } for (int q = 0; q < 3; q++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) if (std::fabs(*t.data_ptr_const(x, y, q, 0) - m.at(x, y, q) / 255.0) > 1e-6) { fail("alpha-rgb", "another colour in the label"); return; } delete f; }
    else if (rc == 0) { fail("alpha-accepted", fmt("a label image with %d channels gives a label", c)); return; }
    else if (!rgb) { bool threw = false; try { Conv::TensorStream* f = Conv::TensorStream::FromFile("list:" + dir + "/ai.txt;" + id + ";" + dir + "/ai.txt;" + ld, cols); Tensor t(1, w, h, classes); threw = !f->CopySample(1, 0, t, 0); } catch (std::runtime_error&) { threw = true; } if (!threw) { fail("alpha-list", fmt("a label image with %d channels gives a label", c)); return; } }
  }
  // dataset on top of the list
  bool plain = id.find(' ') == std::string::npos;
  if (plain && want.size() && r.chance(0.4)) {
    std::string ld2 = dir + "/lab"; unlink(ld2.c_str()); if (symlink(ld.c_str(), ld2.c_str())) {}
    bool uniform = true; for (auto* p : want) uniform &= p->img.m == want[0]->img.m;
    std::stringstream c(cfg + (r.chance(0.5) ? "training=" : "testing=") + "list:" + fi + ";" + id + ";" + fl + ";" + ld2 + "\n");
    if (uniform) {
      Conv::TensorStreamDataset* D = Conv::TensorStreamDataset::CreateFromConfiguration(c, false);
      bool tr = D->GetTrainingSamples() > 0; unsigned cnt = tr ? D->GetTrainingSamples() : D->GetTestingSamples();
      if (cnt != want.size()) { fail("dataset-count", fmt("dataset has %u samples, the lists hold %zu", cnt, want.size())); return; }
      unsigned W = D->GetWidth(), H = D->GetHeight(); Tensor d(1, W, H, D->GetInputMaps()), l(1, W, H, D->GetLabelMaps()), hp(1, W, H, 2), wt(1, W, H, 1);
      for (unsigned k = 0; k < cnt; k++) { bool ok = tr ? D->GetTrainingSample(d, l, hp, wt, 0, k) : D->GetTestingSample(d, l, hp, wt, 0, k);
        if (!ok) { fail("dataset-refused", fmt("sample %u refused", k)); return; }
        if (!same("dataset", d, 0, want[k]->img, 1e-6, 2 * k) || !same("dataset", l, 0, label(*want[k], cols), 1e-6, 2 * k + 1)) return; count("dataset samples checked"); }
      delete D;
    }
  }
  // colouring predictions
  { std::stringstream c(cfg); Conv::TensorStreamDataset* D = Conv::TensorStreamDataset::CreateFromConfiguration(c, true);
    size_t S = r.size(1, 3), W = r.size(1, 10), H = r.size(1, 10), M = classes; M4 o = tu::random(r, S, W, H, M, -1, 1); int style = (int)r.range(0, 4);
    for (auto& v : o.d) { if (style == 1) v = (double)(float)(v * 1e-30); if (style == 2) v = (double)(float)(v * 1e30); if (style == 3) v = -1 - std::fabs(v) * 100; v = (double)(float)v; }
    if (style == 4) for (auto& v : o.d) v = r.range(-1, 1);   // ties
    Tensor in, out(S, W, H, 3); tu::write(in, o); for (size_t e = 0; e < out.elements(); e++) out.data_ptr()[e] = 9;
    Tensor before; tu::write(before, o); D->Colorize(in, out);
    if (memcmp(in.data_ptr(), before.data_ptr(), in.elements() * 4)) fail("colorize-input", "colouring changed the prediction");
    for (size_t sm = 0; sm < S; sm++) for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) {
      double got[3]; for (int k = 0; k < 3; k++) got[k] = *out.data_ptr_const(x, y, k, sm); count("pixels coloured");
      if (classes == 1) { for (int k = 0; k < 3; k++) { double w = chi(cols[0], k) / 255.0 * (o.at(x, y, 0, sm) + 1) / 2; if (!close(got[k], w, std::fabs(w), 1e-5)) { fail("colorize", fmt("pixel (%zu,%zu) channel %d: %g, expected %g", x, y, k, got[k], w)); return; } } }
      else { double mx = -1e300; for (size_t k = 0; k < M; k++) mx = std::max(mx, o.at(x, y, k, sm)); bool hit = false; for (size_t k = 0; k < M; k++) if (o.at(x, y, k, sm) == mx) { bool eq = true; for (int q = 0; q < 3; q++) eq &= std::fabs(got[q] - chi(cols[k], q) / 255.0) < 1e-6; hit |= eq; }
        if (!hit) { fail("colorize", fmt("pixel (%zu,%zu) of sample %zu is not coloured as its highest class", x, y, sm)); return; } }
    }
    // the coloured prediction written as an image and read as a label is the prediction again
    if (classes > 1 && !shared && S == 1 && r.chance(0.5)) {
      out.WriteToFile(dir + "/back.png"); tu::spew(dir + "/one.txt", "back.png\n");
      Conv::TensorStream* b = Conv::TensorStream::FromFile("list:" + dir + "/one.txt;" + dir + ";" + dir + "/one.txt;" + dir, cols); Tensor l(1, W, H, classes);
      if (b->GetTensorCount() != 2 || !b->CopySample(1, 0, l, 0)) { fail("back", "a coloured prediction cannot be read as a label image"); return; }
      for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) { double mx = -1e300; for (size_t k = 0; k < M; k++) mx = std::max(mx, o.at(x, y, k, 0)); int ones = 0; bool hit = false; for (size_t k = 0; k < M; k++) { double v = *l.data_ptr_const(x, y, k, 0); if (v == 1) { ones++; hit |= o.at(x, y, k, 0) == mx; } else if (v != 0) ones += 10; } if (ones != 1 || !hit) { fail("back", fmt("pixel (%zu,%zu): the label read from the coloured prediction is not the predicted class", x, y)); return; } }
      count("predictions read back as labels"); delete b;
    }
    delete D; }
  delete s;
  if (want.size()) nontrivial(G().note + fmt("%zu %zu", want[0]->w, want[0]->h));
  if (i < 6) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c21_lists", one, [] { tu::init(); }); }
