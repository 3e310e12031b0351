// C12: a dataset described by a configuration file serves, for every training
// and testing index, exactly the image/label/position/weight content of the
// stored tensors (whole padded images, or every patch position exactly once).
#include "tutil.h"
#include "CompressedTensor.h"
#include "CompressedTensorStream.h"
#include "KITTIData.h"
using namespace Conv;
using tu::M4;
using namespace vh;

struct Set { std::vector<M4> img, lab; };
static Set make_set(Rng& r, size_t n, unsigned im, unsigned lm, int maxd, int mind) {
  Set s;
  for (size_t k = 0; k < n; k++) {
    size_t w = r.range(mind, maxd), h = r.range(mind, maxd);
    if (r.chance(0.1)) w = mind; if (r.chance(0.1)) h = mind;
    s.img.push_back(tu::random(r, 1, w, h, im)); M4 l(1, w, h, lm);
    for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (lm == 1) l.at(x, y, 0, 0) = r.chance(0.5) ? -1 : 1; else if (!r.chance(0.1)) l.at(x, y, r.range(0, lm - 1), 0) = 1; }
    if (r.chance(0.2)) for (auto& v : l.d) v = tu::rfloat(r);
    s.lab.push_back(l);
  }
  return s;
}
static void write_set(const std::string& path, const Set& s, bool comp) {
  std::ofstream f(path, std::ios::binary);
  if (comp) { uint64_t magic = CN24_CTS_MAGIC; f.write((char*)&magic, 8); }
  for (size_t k = 0; k < s.img.size(); k++) for (const M4* m : {&s.img[k], &s.lab[k]}) {
    Tensor t; tu::write(t, *m);
    if (comp) { CompressedTensor c; c.Compress(t); c.Serialize(f); } else t.Serialize(f);
  }
}
static double wfun(bool kitti, unsigned x, unsigned y, unsigned w, unsigned h) {
  if (!kitti) return 1;
  auto ws = [&](double v) { return (int)((float)v * (float)w / 1226.0); }; auto hs = [&](double v) { return (int)((float)v * (float)h / 370.0); };
  int dist = ws(std::abs(ws(613) - (int)x)); bool allowed = !(dist > 3 * ((int)y - hs(140))), below = y > (unsigned)hs(190);
  double q = y <= (unsigned)hs(170) ? 7.0 : std::max(1.0, std::min(7.0, (double)hs(200) / ((double)y - hs(170))));
  return 0.51 * (0.25 + (q * q - 0.25) * (allowed && below ? 1 : 0));
}
static unsigned argmax(const M4& l, size_t x, size_t y) { unsigned b = 0; for (size_t m = 1; m < l.m; m++) if (l.at(x, y, m, 0) > l.at(x, y, b, 0)) b = m; return b; }
static unsigned roundup(unsigned v) { while (v % 64) { for (int b = 0; b < 6; b++) if (v & (1u << b)) { v += 1u << b; } } return v; }

static void one(Rng& r, int64_t i) {
  bool patch = r.chance(0.5), comp = !patch && r.chance(0.4), kitti = r.chance(0.3); if (kitti && r.chance(0.5)) {}
  unsigned classes = r.chance(0.03) ? r.range(5, 30) : r.range(1, 4), lm = r.chance(0.9) ? classes : 1, im = r.range(1, 3);
  bool small_ok = patch && r.chance(0.3);
  unsigned px = r.range(1, 7), py = r.range(1, 7);
  int mind = patch && !small_ok ? std::max(px, py) : 1, maxd = patch ? mind + 8 : r.chance(0.15) ? 80 : 30;
  size_t ntr = r.big(0, 4, 25), nte = r.big(0, 5, 25); if (!patch && r.chance(0.02)) { maxd = 300; ntr = std::min<size_t>(ntr, 1); nte = std::min<size_t>(nte, 1); count("data sets of large images"); } if (ntr + nte == 0) ntr = 1;
  int maxtr = maxd, maxte = maxd;
  if (r.chance(0.12)) { ntr = r.range(5, 24); nte = r.range(1, 3); if (r.chance(0.7)) maxtr = std::min(maxd, mind + 3); else maxte = std::min(maxd, mind + 3); if (r.chance(0.3)) std::swap(ntr, nte); }   // one file of many small images, the other of few and larger ones
  Set tr = make_set(r, ntr, im, lm, maxtr, mind), te = make_set(r, nte, im, lm, maxte, mind);
  std::string dir = G().scratch, ftr = dir + "/tr.Tensor", fte = dir + "/te.Tensor", fcfg = dir + "/d.set";
  write_set(ftr, tr, comp); write_set(fte, te, comp);
  bool weights = r.chance(0.5), nommap = r.chance(0.4);
  std::vector<std::string> names; std::vector<unsigned> colors; std::vector<double> cw(classes, 1.0);
  std::vector<std::string> blocks;
  { std::string s = fmt("classes=%u\n", classes); for (unsigned c = 0; c < classes; c++) { names.push_back(fmt("class %u%s", c, r.chance(0.3) ? " (x)" : "")); s += names.back() + "\n"; }
    s += std::string("colors\n"); for (unsigned c = 0; c < classes; c++) { colors.push_back((unsigned)(r.chance(0.1) ? r.next() : r.range(0, 0xffffff))); s += fmt(r.chance(0.5) ? "%06X\n" : "0x%06x\n", colors.back()); }
    if (weights) { s += "weights\n"; for (unsigned c = 0; c < classes; c++) { cw[c] = (double)(float)r.range(0, 40) / 8; s += fmt("%g\n", cw[c]); } }
    blocks.push_back(s); }
  int sel = ntr && nte ? (int)r.range(0, 3) : 0;   // 0,1 both; 2 training only; 3 testing only
  if (ntr || r.chance(0.5)) { if (!ntr) {} else blocks.push_back("training=" + ftr + "\n"); }
  if (nte) blocks.push_back("testing=" + fte + "\n");
  if (kitti) blocks.push_back("localized_error=kitti\n"); else if (r.chance(0.3)) blocks.push_back("localized_error=default\n");
  if (nommap) blocks.push_back("nommap\n");
  for (size_t k = blocks.size(); k > 1; k--) std::swap(blocks[k - 1], blocks[r.range(0, k - 1)]);
  std::string cfg; for (auto& b : blocks) { cfg += b; if (r.chance(0.2)) cfg += "\n"; }
  tu::spew(fcfg, cfg);
  note(fmt("%s%s classes %u label maps %u input maps %u train %zu test %zu patch %ux%u%s%s select %d", patch ? "patch" : "fcn", comp ? " compressed" : "", classes, lm, im, ntr, nte, px, py, kitti ? " kitti weights" : "", weights ? " class weights" : "", sel) + (nommap ? " nommap" : ""));
  bool both = sel < 2, ltr = both || sel == 2, lte = both || sel == 3;
  DatasetLoadSelection ls = both ? LOAD_BOTH : ltr ? LOAD_TRAINING_ONLY : LOAD_TESTING_ONLY;
  std::ifstream cf(fcfg); Dataset* D;
  if (patch) D = TensorStreamPatchDataset::CreateFromConfiguration(cf, false, ls, px, py); else D = TensorStreamDataset::CreateFromConfiguration(cf, false, ls);
  if (D->GetClasses() != classes || D->GetClassNames() != names || D->GetClassColors() != colors) { fail("config-classes", "class count, names or colors differ from the configuration"); return; }
  for (unsigned c = 0; c < classes; c++) if (D->GetClassWeights()[c] != (float)cw[c]) { fail("config-weights", fmt("class %u weight %g, configured %g", c, D->GetClassWeights()[c], cw[c])); return; }
  if (!ltr) tr = Set(); if (!lte) te = Set();
  if (D->SupportsTesting() != (te.img.size() > 0)) { fail("supports-testing", "SupportsTesting() is wrong"); return; }
  if (D->GetMethod() != (patch ? PATCH : FCN)) { fail("method", "wrong method"); return; }
  if (D->GetInputMaps() != im || D->GetLabelMaps() != lm) { fail("maps", fmt("maps %u/%u reported, %u/%u stored", D->GetInputMaps(), D->GetLabelMaps(), im, lm)); return; }
  unsigned W, H;
  if (patch) { W = px; H = py; } else { unsigned mw = 0, mh = 0; for (Set* s : {&tr, &te}) for (auto& t : s->img) { mw = std::max<unsigned>(mw, t.w); mh = std::max<unsigned>(mh, t.h); } W = roundup(mw); H = roundup(mh);
    // documented: the size of the largest image; the implementation rounds up for pooling
    if (D->GetWidth() < mw || D->GetHeight() < mh) { fail("size", fmt("dataset reports %ux%u, largest image %ux%u", D->GetWidth(), D->GetHeight(), mw, mh)); return; } }
  if (D->GetWidth() != W || D->GetHeight() != H) { fail("size", fmt("dataset reports %ux%u, expected %ux%u", D->GetWidth(), D->GetHeight(), W, H)); return; }
  for (int t = 0; t < 2; t++) {
    Set& s = t ? te : tr;
    std::vector<std::array<size_t, 3>> want;   // image, col, row
    for (size_t k = 0; k < s.img.size(); k++) { if (!patch) want.push_back({k, 0, 0}); else for (size_t y = 0; y + py <= s.img[k].h; y++) for (size_t x = 0; x + px <= s.img[k].w; x++) want.push_back({k, x, y}); }
    unsigned n = t ? D->GetTestingSamples() : D->GetTrainingSamples();
    if (n != want.size()) { fail("sample-count", fmt("%u %s samples reported, the files hold %zu", n, t ? "testing" : "training", want.size())); return; }
    unsigned B = r.range(1, 3);
    Tensor d(B, W, H, im), l(B, patch ? 1 : W, patch ? 1 : H, lm), hp(B, patch ? 1 : W, patch ? 1 : H, 2), wt(B, patch ? 1 : W, patch ? 1 : H, 1);
    size_t stepn = G().thorough ? 1 : std::max<size_t>(1, want.size() / 40);
    for (size_t q = want.size() ? r.range(0, std::min<size_t>(stepn, want.size()) - 1) : 0; q < want.size(); q += stepn) {
      unsigned b = r.range(0, B - 1);
      for (Tensor* x : {&d, &l, &hp, &wt}) for (size_t e = 0; e < x->elements(); e++) x->data_ptr()[e] = 77;
      bool ok = t ? D->GetTestingSample(d, l, hp, wt, b, q) : D->GetTrainingSample(d, l, hp, wt, b, q);
      if (!ok) { fail("sample-refused", fmt("sample %zu of %zu refused", q, want.size())); return; }
      for (Tensor* x : {&d, &l, &hp, &wt}) for (size_t e = 0; e < x->elements(); e++) if (e / (x->elements() / B) != b && x->data_ptr()[e] != 77) { fail("other-slot", "loading a sample changed another batch slot"); return; }
      const M4& I = s.img[want[q][0]]; const M4& Lb = s.lab[want[q][0]]; size_t cx = want[q][1], cy = want[q][2];
      auto chk = [&](const char* what, double got, double w, const char* sig) { count("values compared"); if (!(std::fabs(got - w) <= 1e-5 * (1 + std::fabs(w)))) { fail(sig, fmt("%s sample %zu (image %zu, at %zu,%zu): %s is %.8g, expected %.8g", t ? "testing" : "training", q, want[q][0], cx, cy, what, got, w)); return false; } return true; };
      if (patch) {
        for (unsigned m = 0; m < im; m++) for (unsigned y = 0; y < py; y++) for (unsigned x = 0; x < px; x++) if (!chk("image value", *d.data_ptr_const(x, y, m, b), I.at(cx + x, cy + y, m, 0), "patch-image")) return;
        size_t lx = cx + px / 2, ly = cy + py / 2;
        for (unsigned m = 0; m < lm; m++) if (!chk("label", *l.data_ptr_const(0, 0, m, b), Lb.at(lx, ly, m, 0), "patch-label")) return;
        if (!chk("horizontal position", *hp.data_ptr_const(0, 0, 0, b), I.w > 1 ? (double)cx / (I.w - 1) : 0, "patch-position") || !chk("vertical position", *hp.data_ptr_const(0, 0, 1, b), I.h > 1 ? (double)cy / (I.h - 1) : 0, "patch-position")) return;
        if (!chk("weight", *wt.data_ptr_const(0, 0, 0, b), wfun(kitti, lx, ly, I.w, I.h) * cw[argmax(Lb, lx, ly)], "patch-weight")) return;
        count("patches checked");
      } else {
        for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) {
          bool in = x < I.w && y < I.h;
          for (unsigned m = 0; m < im; m++) if (!chk("image value", *d.data_ptr_const(x, y, m, b), in ? I.at(x, y, m, 0) : 0, "image")) return;
          for (unsigned m = 0; m < lm; m++) if (!chk("label", *l.data_ptr_const(x, y, m, b), in ? Lb.at(x, y, m, 0) : 0, "label")) return;
          if (!chk("horizontal position", *hp.data_ptr_const(x, y, 0, b), in && I.w > 1 ? (double)x / (I.w - 1) : 0, "position") || !chk("vertical position", *hp.data_ptr_const(x, y, 1, b), in && I.h > 1 ? (double)y / (I.h - 1) : 0, "position")) return;
          if (!chk("weight", *wt.data_ptr_const(x, y, 0, b), in ? wfun(kitti, x, y, I.w, I.h) * cw[argmax(Lb, x, y)] : 0, "weight")) return;
        }
        count("whole images checked");
      }
    }
    if (t ? D->GetTestingSample(d, l, hp, wt, 0, want.size()) : D->GetTrainingSample(d, l, hp, wt, 0, want.size())) { fail("past-end", "an index past the last sample is not refused"); return; }
  }
  // a file that ends with an image without label is refused
  if (i % 8 == 3 && (tr.img.size() || te.img.size())) {
    bool t = !tr.img.size() || (te.img.size() && r.chance(0.5)); const Set& q = t ? te : tr; const std::string& f = t ? fte : ftr;
    { std::ofstream o(f, std::ios::binary | std::ios::app); Tensor x; tu::write(x, q.img[0]); if (comp) { CompressedTensor c; c.Compress(x); c.Serialize(o); } else x.Serialize(o); }
    bool threw = false; try { std::ifstream cg(fcfg); if (patch) TensorStreamPatchDataset::CreateFromConfiguration(cg, false, ls, px, py); else TensorStreamDataset::CreateFromConfiguration(cg, false, ls); } catch (std::runtime_error&) { threw = true; }
    if (!threw) { fail("odd", std::string("a ") + (t ? "testing" : "training") + " file that ends with an image without label is accepted"); return; } count("images without labels refused");
  }
  if (ntr + nte > 1) nontrivial(G().note);
  if (i < 5) sample(G().note);
  unlink(ftr.c_str()); unlink(fte.c_str());
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c12_dataset", one, [] { tu::init(); }); }
