// C34: a data set whose parts do not belong together is refused.  The tensor
// files are valid one by one, but labels have other maps or another size than
// announced or than their image, images differ in maps, image and label are
// swapped, class weights are missing.  Creation or the sample is refused, or
// the sample is exactly what the files hold; memory is never left.
#include "tutil.h"
#include "CompressedTensor.h"
#include "CompressedTensorStream.h"
using namespace Conv; using tu::M4; using namespace vh;

struct Pair { M4 im, lb; };
static void put(const std::string& path, const std::vector<M4>& v, bool comp) {
  std::ofstream f(path, std::ios::binary); if (comp) { uint64_t magic = CN24_CTS_MAGIC; f.write((char*)&magic, 8); }
  for (auto& m : v) { Tensor t; tu::write(t, m); if (comp) { CompressedTensor c; c.Compress(t); c.Serialize(f); } else t.Serialize(f); }
}
static void one(Rng& r, int64_t i) {
  bool patch = r.chance(0.6), comp = !patch && r.chance(0.4); unsigned classes = r.range(1, 5), im = r.range(1, 3), px = r.range(1, 6), py = r.range(1, 6);
  std::vector<Pair> set[2]; int mind = patch ? std::max(px, py) : 1; unsigned lm = r.chance(0.85) ? classes : 1;
  for (auto& s : set) for (int k = (int)r.range(1, 4); k > 0; k--) {
    size_t w = mind + r.range(0, 8), h = mind + r.range(0, 8); Pair p; p.im = tu::random(r, 1, w, h, im); p.lb = M4(1, w, h, lm);
    for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (lm == 1) p.lb.at(x, y, 0, 0) = r.chance(0.5) ? -1 : 1; else p.lb.at(x, y, r.range(0, lm - 1), 0) = 1; }
    s.push_back(p);
  }
  auto relabel = [&](size_t w, size_t h, size_t m) { M4 l(1, w, h, m); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) l.at(x, y, r.range(0, m - 1), 0) = 1; return l; };
  std::string what; int muts = r.chance(0.15) ? 0 : (int)r.range(1, 2);
  // what each pair became: 0 as it should be, 1 must be refused, 2 label of another size
  std::vector<int> state[2]; for (int t = 0; t < 2; t++) state[t].assign(set[t].size(), 0);
  for (int q = 0; q < muts; q++) {
    int t = (int)r.range(0, 1); size_t k = r.range(0, (int64_t)set[t].size() - 1); Pair& p = set[t][k]; size_t w = p.lb.w, h = p.lb.h;
    switch (r.range(0, 5)) {
      case 0: { unsigned n = classes + (unsigned)r.range(1, 6); for (auto& s : set) for (auto& x : s) x.lb = relabel(x.lb.w, x.lb.h, n); what += " all labels have more maps than classes;"; break; }
      case 1: { unsigned n; do n = (unsigned)r.range(1, classes + 4); while (n == p.lb.m); p.lb = relabel(w, h, n); what += fmt(" label %d/%zu with %u maps;", t, k, n); break; }
      case 2: { unsigned n; do n = (unsigned)r.range(1, 5); while (n == p.im.m); p.im = tu::random(r, 1, p.im.w, p.im.h, n); what += fmt(" image %d/%zu with %u maps;", t, k, n); break; }
      case 3: { size_t a = r.chance(0.5) ? w : (size_t)r.range(1, 2 * (int64_t)w), b = r.chance(0.5) ? h : (size_t)r.range(1, 2 * (int64_t)h); p.lb = relabel(a, b, p.lb.m); what += fmt(" label %d/%zu of %zux%zu;", t, k, a, b); break; }
      case 4: std::swap(p.im, p.lb); what += fmt(" image and label %d/%zu swapped;", t, k); break;
      default: { size_t a = 1 + r.range(0, 12), b = 1 + r.range(0, 12); p.im = tu::random(r, 1, a, b, p.im.m); what += fmt(" image %d/%zu of %zux%zu;", t, k, a, b); }
    }
  }
  // the maps of the set are those of its first pair
  size_t IM = set[0][0].im.m, LM = set[0][0].lb.m; unsigned mw = 0, mh = 0;
  for (auto& s : set) for (auto& p : s) { mw = std::max<unsigned>(mw, p.im.w); mh = std::max<unsigned>(mh, p.im.h); }
  bool clean = true;
  for (int t = 0; t < 2; t++) for (size_t k = 0; k < set[t].size(); k++) { Pair& p = set[t][k]; int& s = state[t][k]; if (p.im.m != IM || p.lb.m != LM || LM > classes) s = 1; else if (p.im.w != p.lb.w || p.im.h != p.lb.h) s = 2; if (s) clean = false; }
  std::string dir = G().scratch, f[2] = {dir + "/tr.Tensor", dir + "/te.Tensor"};
  for (int t = 0; t < 2; t++) { std::vector<M4> v; for (auto& p : set[t]) { v.push_back(p.im); v.push_back(p.lb); } put(f[t], v, comp); }
  std::string cfg = "training=" + f[0] + "\ntesting=" + f[1] + "\n" + (r.chance(0.4) ? "nommap\n" : "") + fmt("classes=%u\n", classes); for (unsigned c = 0; c < classes; c++) cfg += fmt("c%u\n", c); cfg += "colors\n"; std::vector<unsigned> col;
  for (unsigned c = 0; c < classes; c++) { col.push_back((unsigned)(r.chance(0.3) ? r.next() : r.range(0, 0xffffff))); cfg += fmt("0x%x\n", col.back()); }
  std::vector<double> cw(classes, 1.0); bool cut = false;
  if (r.chance(0.6)) { cfg += "weights\n"; unsigned n = r.chance(0.5) ? classes : (unsigned)r.range(0, classes); cut = n < classes; for (unsigned c = 0; c < n; c++) { cw[c] = 0.25 * r.range(0, 12); cfg += fmt("%g\n", cw[c]); } if (cut) { what += fmt(" %u of %u weights;", n, classes); if (n && r.chance(0.4)) cfg.pop_back(); } }
  note(fmt("%s%s, %u classes, %zu+%zu pairs, patches %ux%u:", patch ? "patches" : "images", comp ? " compressed" : "", classes, set[0].size(), set[1].size(), px, py) + what);
  std::istringstream cs(cfg); Dataset* D = nullptr; TensorStreamDataset* fd = nullptr; TensorStreamPatchDataset* pd = nullptr;
  try { if (patch) D = pd = TensorStreamPatchDataset::CreateFromConfiguration(cs, false, LOAD_BOTH, px, py); else D = fd = TensorStreamDataset::CreateFromConfiguration(cs, false, LOAD_BOTH); }
  catch (std::runtime_error&) { if (clean) { fail("refused", "a data set without contradiction is refused"); return; } count("data sets refused"); nontrivial(G().note); return; }
  struct Free { TensorStreamPatchDataset* p; TensorStreamDataset* f; ~Free() { delete p; delete f; } } freer{pd, fd};
  for (unsigned c = 0; c < classes; c++) { if (D->GetClassWeights()[c] != (float)cw[c]) { fail("weights", fmt("class %u has weight %g, expected %g", c, D->GetClassWeights()[c], cw[c])); return; } if (D->GetClassColors()[c] != col[c]) { fail("colors", fmt("class %u has color %x, written %x", c, D->GetClassColors()[c], col[c])); return; } }
  if (cut) count("data sets with missing class weights");
  unsigned W = D->GetWidth(), H = D->GetHeight(); if (D->GetInputMaps() != IM || D->GetLabelMaps() != LM) { fail("maps", "maps are not those of the first pair"); return; }
  if (!patch && (W < mw || H < mh)) { fail("size", "data set smaller than an image"); return; }
  for (int t = 0; t < 2; t++) {
    unsigned n = t ? D->GetTestingSamples() : D->GetTrainingSamples(); unsigned q = 0;
    Tensor d(1, W, H, IM), l(1, patch ? 1 : W, patch ? 1 : H, LM), hp(1, patch ? 1 : W, patch ? 1 : H, 2), wt(1, patch ? 1 : W, patch ? 1 : H, 1);
    for (size_t k = 0; k < set[t].size(); k++) { const Pair& p = set[t][k]; size_t nx = patch ? (p.im.w < px ? 0 : p.im.w - px + 1) : 1, ny = patch ? (p.im.h < py ? 0 : p.im.h - py + 1) : 1; if (!nx || !ny) nx = ny = 0;
      for (size_t y = 0; y < ny; y++) for (size_t x = 0; x < nx; x++, q++) {
        if (q >= n) { fail("sample-count", fmt("%u samples announced, the files hold more", n)); return; }
        bool ok = false; for (Tensor* z : {&d, &l, &hp, &wt}) z->Clear(77);
        try { ok = t ? D->GetTestingSample(d, l, hp, wt, 0, q) : D->GetTrainingSample(d, l, hp, wt, 0, q); } catch (std::runtime_error&) { ok = false; }
        if (!ok) { if (!state[t][k]) { fail("sample-refused", fmt("sample %u comes from a pair without contradiction and is refused", q)); return; } count("samples refused"); continue; }
        if (state[t][k] == 1) { fail("sample-accepted", fmt("sample %u of a pair whose maps do not fit the data set is served", q)); return; }
        if (state[t][k] == 2 && patch) { fail("sample-accepted", fmt("sample %u of an image with a label of another size is served", q)); return; }
        bool bad = false;
        if (patch) { for (size_t m = 0; m < IM; m++) for (unsigned b = 0; b < py; b++) for (unsigned a = 0; a < px; a++) bad |= *d.data_ptr_const(a, b, m, 0) != (float)p.im.at(x + a, y + b, m, 0); for (size_t m = 0; m < LM; m++) bad |= *l.data_ptr_const(0, 0, m, 0) != (float)p.lb.at(x + px / 2, y + py / 2, m, 0); }
        else { for (size_t m = 0; m < IM; m++) for (unsigned b = 0; b < H; b++) for (unsigned a = 0; a < W; a++) bad |= *d.data_ptr_const(a, b, m, 0) != (a < p.im.w && b < p.im.h ? (float)p.im.at(a, b, m, 0) : 0.f);
          if (!state[t][k]) for (size_t m = 0; m < LM; m++) for (unsigned b = 0; b < H; b++) for (unsigned a = 0; a < W; a++) bad |= *l.data_ptr_const(a, b, m, 0) != (a < p.lb.w && b < p.lb.h ? (float)p.lb.at(a, b, m, 0) : 0.f); }
        if (bad) { fail("content", fmt("sample %u is not what the files hold", q)); return; }
        count("samples compared");
      } }
    if (q != n) { fail("sample-count", fmt("%u samples announced, the files hold %u", n, q)); return; }
  }
  if (!clean) count("data sets with contradictions, accepted"); nontrivial(G().note); if (i < 40) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c34_mismatch", one, [] { tu::init(); }); }
