// C33: what is learned from patches is what labels the image.  A description
// with method=patch (random, or one shipped with the software) is trained on
// the patches of a data set and its parameters are given, through a file, to
// the network the same description makes for whole images of the same data
// set: output, label, weight, loss and gradient of every patch must be found
// at the pixel of the image it stands for.
#include "replay.h"
#include "InputLayer.h"
using namespace vh; using namespace Conv; using tu::M4; using rp::enc;

static std::string REPO;
static void drop(NetGraph& g) { for (NetGraphNode* k : g.GetNodes()) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; } }
struct Shipped { const char* net; const char* par; int classes; };
static const Shipped SHIPPED[] = {{"kitti.net", "kitti_pretrained.Tensor", 1}, {"labelmefacade.net", "lmf_pretrained.Tensor", 9}, {"toy/nets/toy01", "", 3}, {"toy/nets/toy02", "", 3}, {"toy/nets/toy03", "", 3}};

static void one(Rng& r, int64_t cs) {
  std::string dir = G().scratch, text, given; int classes, maps, fx, fy, rx, ry; bool dropout = false, shipped = r.chance(0.06);
  if (shipped) {
    const Shipped& s = SHIPPED[r.range(0, 4)]; text = tu::slurp(REPO + "/example/" + s.net); classes = s.classes; maps = 3;
    if (text.empty()) { fail("shipped", std::string("cannot read ") + s.net); return; }
    if (text.find("method=patch") == std::string::npos) text += "\nmethod=patch\n";
    if (*s.par) { given = tu::slurp(REPO + "/example/" + s.par); count("shipped parameters"); }
    std::string nn = s.net; bool toy = nn.compare(0, 3, "toy") == 0; fx = fy = toy ? 1 : 2; rx = ry = nn == "toy/nets/toy03" ? 2 : toy ? 6 : nn == "kitti.net" ? 22 : -1;
    if (toy) maps = 1;
    count("shipped descriptions"); note(nn); nontrivial(nn);
  } else {
    nd::Net n; for (;;) { n = nd::generate(r); if (!n.patch || n.used_pad || n.rx < 0 || n.ry < 0 || 64 % n.fx || 64 % n.fy || n.rx + n.fx > 48 || n.ry + n.fy > 48) continue; bool prior = false; dropout = false; for (auto& s : n.st) { prior |= s.op == nd::PRIOR; dropout |= s.drop > 0; } if (prior || (dropout && r.chance(0.7)) || ((n.rx | n.ry) & 1 && r.chance(0.5))) continue; break; }
    text = n.text; classes = n.classes; maps = n.in_maps; fx = n.fx; fy = n.fy; rx = n.rx; ry = n.ry; note(text); nontrivial(text);
  }
  // patches
  std::istringstream sp(text), sf(text); ConfigurableFactory fp(sp, 8347734, true), ff(sf, 8347734); fp.InitOptimalSettings();
  if (fp.method() != PATCH) { fail("method", "training factory ignores the patch method"); return; }
  int PX = fp.patchsizex(), PY = fp.patchsizey(); if (rx < 0) { rx = PX - fx; ry = PY - fy; }
  if (PX != rx + fx || PY != ry + fy) { fail("patch-size", fmt("patch size %dx%d, field of view of one output is %dx%d", PX, PY, rx + fx, ry + fy)); return; }
  // data: the same images for training and testing
  int ni = shipped ? 1 : (int)r.range(1, 2); std::string b; std::vector<M4> im, lb;
  for (int q = 0; q < ni; q++) {
    size_t w = PX + r.range(0, shipped ? 5 : 9), h = PY + r.range(0, shipped ? 5 : 9); M4 d = tu::random(r, 1, w, h, maps), l(1, w, h, classes);
    if (shipped && maps == 3) { // a window of a shipped photograph, with a little noise so that every patch is told from the others
      static std::map<int, M4> photo; int k = (int)r.range(1, 2); if (!photo.count(k)) { Tensor t(REPO + fmt("/example/sample%d.jpg", k)); photo[k] = tu::read(t); } const M4& p = photo[k]; size_t ox = r.range(0, p.w - w), oy = r.range(0, p.h - h);
      if (p.m != 3) { fail("shipped", "photograph without three maps"); return; }
      for (int m = 0; m < 3; m++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) d.at(x, y, m, 0) = (double)(float)(p.at(ox + x, oy + y, m, 0) + 0.002 * d.at(x, y, m, 0));
    }
    for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (classes == 1) l.at(x, y, 0, 0) = r.chance(0.5) ? 1 : -1; else l.at(x, y, r.range(0, classes - 1), 0) = 1; }
    im.push_back(d); lb.push_back(l); b += enc(d) + enc(l);
  }
  tu::spew(dir + "/a.Tensor", b);
  std::string cfg = fmt("classes=%d\n", classes); for (int c = 0; c < classes; c++) cfg += fmt("c%d\n", c); cfg += "colors\n"; for (int c = 0; c < classes; c++) cfg += fmt("0x%06X\n", c * 77 + 1);
  if (r.chance(0.5)) { cfg += "weights\n"; for (int c = 0; c < classes; c++) cfg += fmt("%g\n", 0.5 * r.range(1, 6)); }
  cfg += "training=" + dir + "/a.Tensor\ntesting=" + dir + "/a.Tensor\n"; if (r.chance(0.2)) cfg += "nommap\n"; if (r.chance(0.2)) cfg += "localized_error=default\n";
  std::istringstream c1(cfg), c2(cfg);
  TensorStreamPatchDataset* pd = (TensorStreamPatchDataset*)TensorStreamPatchDataset::CreateFromConfiguration(c1, false, LOAD_TRAINING_ONLY, PX, PY);
  TensorStreamDataset* fd = TensorStreamDataset::CreateFromConfiguration(c2, false, LOAD_TESTING_ONLY);
  struct Free { TensorStreamPatchDataset* p; TensorStreamDataset* f; ~Free() { delete p; delete f; } } freer{pd, fd};
  unsigned N = pd->GetTrainingSamples(), wantN = 0; for (auto& d : im) wantN += (d.w - PX + 1) * (d.h - PY + 1);
  if (N != wantN) { fail("patches", fmt("%u patches, the images have %u", N, wantN)); return; }
  std::vector<unsigned> div; for (unsigned k = 1; k <= N && k <= 24; k++) if (N % k == 0) div.push_back(k); unsigned P = r.chance(0.5) ? div.back() : r.pick(div); bool even_batches = !r.chance(0.2); if (!even_batches) { P = (unsigned)r.range(1, 24); even_batches = N % P == 0; }
  NetGraph g; NetGraphNode* in = new NetGraphNode(new DatasetInputLayer(*pd, P, 1.0, (unsigned)r.range(1, 1 << 30))); in->is_input = true; g.AddNode(in);
  struct Drop { NetGraph& g; ~Drop() { drop(g); } } dg{g};
  if (!fp.AddLayers(g, NetGraphConnection(in), pd->GetClasses(), true)) { fail("incomplete", "patch network incomplete"); return; }
  g.Initialize(); g.InitializeWeights(); std::vector<CombinedTensor*> ps; g.GetParameters(ps);
  if (given.size()) { std::istringstream s(given); g.DeserializeParameters(s); std::string back; for (auto* t : ps) back += rp::encf(t->data); if (back != given) { fail("shipped", "parameters shipped for this network are not those it has after loading them"); return; } }
  else { for (auto* t : ps) tu::put(t->data, tu::random(r, t->data.samples(), t->data.width(), t->data.height(), t->data.maps(), -0.8, 0.8)); }
  if (!dropout && !given.size() && even_batches && N / P <= 40 && r.chance(0.3)) { // learn for one epoch
    g.SetIsTesting(false); TrainerSettings ts; ts.learning_rate = 0.001; ts.l1_weight = ts.l2_weight = ts.gamma = ts.momentum = 0; ts.iterations = N / P; ts.sbatchsize = 1; ts.pbatchsize = P; ts.epoch_training_ratio = ts.testing_ratio = 1;
    NetGraph& gr = g; Trainer tr(gr, ts); tr.Train(1, false); count("patch networks trained"); }
  std::string file = dir + "/p.Tensor"; { std::ofstream o(file, std::ios::binary); g.SerializeParameters(o); if (r.chance(0.3)) o << "trailing"; }
  // whole images
  std::vector<M4> out, olab, owt; NetGraph* wg = nullptr; M4 msk; double wloss = 0; std::vector<std::vector<double>> wgrad; bool even = rx % 2 == 0 && ry % 2 == 0, grads = even && !dropout && ni == 1 && even_batches;
  Tensor* keep[4] = {nullptr, nullptr, nullptr, nullptr}; std::vector<CombinedTensor*> qs;
  auto tidy = [&] { if (wg) { drop(*wg); delete wg; wg = nullptr; } for (auto* t : keep) delete t; };
  struct Tidy { std::function<void()> f; ~Tidy() { f(); } } ty{tidy};
  {
    NetGraph w; NetGraphNode* wi = new NetGraphNode(new DatasetInputLayer(*fd, 1, 1.0, 983923)); wi->is_input = true; w.AddNode(wi); Drop dw{w};
    if (!ff.AddLayers(w, NetGraphConnection(wi), fd->GetClasses(), true)) { fail("incomplete", "whole-image network incomplete"); return; }
    w.Initialize(); if (r.chance(0.5)) w.InitializeWeights(); { std::ifstream s(file, std::ios::binary); w.DeserializeParameters(s); }
    w.SetIsTesting(true); ((DatasetInputLayer*)wi->layer)->SetTestingMode(true);
    for (int q = 0; q < ni; q++) { w.FeedForward(); auto o = w.GetOutputNodes(); if (o.size() != 1) { fail("outputs", "no single output"); return; } out.push_back(tu::read(o[0]->output_buffers[0].combined_tensor->data)); olab.push_back(tu::read(wi->output_buffers[1].combined_tensor->data)); owt.push_back(tu::read(wi->output_buffers[3].combined_tensor->data)); }
    for (int q = 0; q < ni; q++) if (out[q].w != fd->GetWidth() || out[q].h != fd->GetHeight() || out[q].m != (size_t)classes) { fail("output-size", "whole-image output is " + out[q].shape()); return; }
  }
  auto whole = [&]() -> bool { // loss and gradient of the whole image, counted at the pixels patches stand for only
    if (!wg) {
      keep[0] = new Tensor(1, fd->GetWidth(), fd->GetHeight(), maps); keep[1] = new Tensor(1, fd->GetWidth(), fd->GetHeight(), fd->GetLabelMaps()); keep[2] = new Tensor(1, fd->GetWidth(), fd->GetHeight(), 2); keep[3] = new Tensor(1, fd->GetWidth(), fd->GetHeight(), 1);
      if (!fd->GetTestingSample(*keep[0], *keep[1], *keep[2], *keep[3], 0, 0)) { fail("sample", "testing sample refused"); return false; }
      M4 k = tu::read(*keep[3]); for (size_t y = 0; y < k.h; y++) for (size_t x = 0; x < k.w; x++) { int col = (int)x - PX / 2, row = (int)y - PY / 2; bool at = (col + rx / 2) % fx == 0 && (row + ry / 2) % fy == 0 && col >= 0 && row >= 0 && col + PX <= (int)im[0].w && row + PY <= (int)im[0].h; if (!at) k.at(x, y, 0, 0) = 0; } tu::put(*keep[3], k);
      std::istringstream* s = new std::istringstream(text); ConfigurableFactory f3(*s, 8347734); wg = new NetGraph; NetGraphNode* i = new NetGraphNode(new InputLayer(*keep[0], *keep[1], *keep[2], *keep[3])); i->is_input = true; wg->AddNode(i);
      bool okk = f3.AddLayers(*wg, NetGraphConnection(i), classes, true); delete s; if (!okk) { fail("incomplete", "whole-image network incomplete"); return false; }
      wg->Initialize(); wg->GetParameters(qs); if (qs.size() != ps.size()) { fail("params", "patch and whole-image networks differ in parameters"); return false; }
    }
    for (size_t k = 0; k < qs.size(); k++) { if (qs[k]->data.elements() != ps[k]->data.elements()) { fail("params", "patch and whole-image networks differ in parameters"); return false; } tu::put(qs[k]->data, tu::read(ps[k]->data)); }
    wg->SetIsTesting(false); wg->FeedForward(); wloss = wg->AggregateLoss(); wg->BackPropagate(); wgrad.clear(); for (auto* t : qs) wgrad.push_back(tu::read(t->delta).d); return true;
  };
  // every patch once
  g.SetIsTesting(!grads && (dropout || r.chance(0.5))); // the input layer keeps giving training samples
  std::set<std::string> seen; unsigned aligned = 0;
  auto pass = [&](bool cmp, bool grad, double& ploss, std::vector<std::vector<double>>& pg, std::vector<std::vector<double>>& mag) -> bool {
    ploss = 0; pg.clear(); mag.clear(); for (auto* t : ps) { pg.emplace_back(t->data.elements(), 0.0); mag.emplace_back(t->data.elements(), 0.0); }
    for (unsigned e = 0; e * P < N; e++) {
      // the input layer feeds first; patches off the grid of output cells are silenced before the loss sees them
      g.FeedForward();
      M4 d = tu::read(in->output_buffers[0].combined_tensor->data), l = tu::read(in->output_buffers[1].combined_tensor->data), w = tu::read(in->output_buffers[3].combined_tensor->data); auto on = g.GetOutputNodes(); if (on.size() != 1) { fail("outputs", "no single output"); return false; } M4 o = tu::read(on[0]->output_buffers[0].combined_tensor->data);
      if (d.w != (size_t)PX || d.h != (size_t)PY || o.w != 1 || o.h != 1 || o.m != (size_t)classes || o.s != P) { fail("patch-output", "patch network turns " + d.shape() + " into " + o.shape()); return false; }
      std::vector<char> on_grid(P, 0);
      for (unsigned s = 0; s < P && e * P + s < N; s++) { // what follows belongs to the next epoch
        int fq = -1, fc = 0, fr = 0; for (int q = 0; q < ni && fq < 0; q++) for (size_t row = 0; row + PY <= im[q].h && fq < 0; row++) for (size_t col = 0; col + PX <= im[q].w; col++) { bool eq = true; for (int m = 0; m < maps && eq; m++) for (int y = 0; y < PY && eq; y++) for (int x = 0; x < PX; x++) if (d.at(x, y, m, s) != (double)(float)im[q].at(col + x, row + y, m, 0)) { eq = false; break; } if (eq) { fq = q; fc = (int)col; fr = (int)row; break; } }
        if (fq < 0) { fail("patch-content", "patch that is not in any of the images"); return false; }
        std::string key = fmt("%d %d %d", fq, fc, fr); if (cmp && !seen.insert(key).second) { fail("patch-repeated", "patch " + key + " twice in one epoch"); return false; }
        int px = fc + PX / 2, py = fr + PY / 2; if (cmp) { count("patches compared");
          for (int m = 0; m < classes; m++) if (l.at(0, 0, m, s) != olab[fq].at(px, py, m, 0)) { fail("label", fmt("image %d patch %d,%d: label %g of class %d, pixel %d,%d of the image has %g", fq, fc, fr, l.at(0, 0, m, s), m, px, py, olab[fq].at(px, py, m, 0))); return false; }
          if (w.at(0, 0, 0, s) != owt[fq].at(px, py, 0, 0)) { fail("weight", fmt("image %d patch %d,%d: weight %g, pixel %d,%d of the image has %g", fq, fc, fr, w.at(0, 0, 0, s), px, py, owt[fq].at(px, py, 0, 0))); return false; } }
        if ((fc + rx / 2) % fx || (fr + ry / 2) % fy) continue; on_grid[s] = 1; if (cmp) aligned++;
        int bx = fc + rx / 2, by = fr + ry / 2; // first pixel of the block of the output cell
        if (cmp) for (int m = 0; m < classes; m++) for (int t = 0; t < 2; t++) { double a = o.at(0, 0, m, s), z = out[fq].at(bx + (t ? fx - 1 : 0), by + (t ? fy - 1 : 0), m, 0); count("predictions compared"); if (!vh::close(a, z, 1, 1e-3)) { fail("output", fmt("image %d patch %d,%d: patch network gives %.7g for class %d, whole-image network %.7g", fq, fc, fr, a, m, z)); return false; } }
      }
      if (!grad) continue;
      // loss and gradient of this batch without the patches off the grid: linear in the weights
      Tensor& wt = in->output_buffers[3].combined_tensor->data; M4 w2 = w; for (unsigned s = 0; s < P; s++) if (!on_grid[s]) w2.at(0, 0, 0, s) = 0; tu::put(wt, w2);
      for (NetGraphNode* k : g.GetLossNodes()) k->layer->FeedForward();
      ploss += g.AggregateLoss(); g.BackPropagate(); for (size_t k = 0; k < ps.size(); k++) { M4 dl = tu::read(ps[k]->delta); for (size_t x = 0; x < dl.n(); x++) { pg[k][x] += dl.d[x]; mag[k][x] += std::fabs(dl.d[x]); } }
    }
    return true;
  };
  double ploss; std::vector<std::vector<double>> pg, mag;
  if (!pass(true, grads, ploss, pg, mag)) return;
  if (!even_batches) count("epochs that end within a batch");
  if (dropout) count("descriptions with dropout");
  if (seen.size() != N) { fail("patches", fmt("%zu different patches in one epoch of %u", seen.size(), N)); return; }
  count("patches on the grid of outputs", aligned); sample(fmt("%d image(s), patches of %dx%d for cells of %dx%d: ", ni, PX, PY, fx, fy) + text.substr(0, 160));
  if (grads && aligned) {
    // at a kink (rectifier, maximum) rounding may decide: what differs must differ again with other parameters
    std::string why;
    for (int t = 0; t < 3; t++) {
      why.clear(); if (!whole()) return;
      if (t) { seen.clear(); if (!pass(false, true, ploss, pg, mag)) return; }
      if (!vh::close(ploss, wloss, ploss, 1e-3)) why = fmt("loss of the patches %.7g, of their pixels in the image %.7g", ploss, wloss);
      double big = 0; for (size_t k = 0; k < pg.size(); k++) for (double v : mag[k]) big = std::max(big, v);
      for (size_t k = 0; k < pg.size() && why.empty(); k++) { double bk = 0; for (double v : mag[k]) bk = std::max(bk, v); for (size_t x = 0; x < pg[k].size(); x++) { if (!std::isfinite(wgrad[k][x])) { why = "gradient not finite"; break; } if (std::fabs(pg[k][x] - wgrad[k][x]) > 2e-3 * (mag[k][x] + 0.01 * bk) + 1e-5 * big + 1e-7) { why = fmt("parameter %zu[%zu]: gradients of the patches add up to %.7g, gradient of the image %.7g", k, x, pg[k][x], wgrad[k][x]); break; } } }
      if (why.empty()) break; count("gradient comparisons repeated");
      for (auto* p : ps) { M4 v = tu::read(p->data); for (auto& q : v.d) q = (double)(float)(q * (1 + 0.02 * r.real(-1, 1))); tu::put(p->data, v); }
    }
    if (!why.empty()) { fail("gradient", why); return; }
    count("gradients compared"); 
  }
}
int main(int argc, char** argv) { const char* e = getenv("VERIF_REPO"); REPO = e && *e ? e : "/repo"; return vh::run(argc, argv, "c33_patchwise", one, [] {
    tu::init(0);
    std::string d = G().scratch; new HMaxActivationFunction(1, 0);
    nd::Net n; n.text = "?fullyconnected neurons=1\n?output\n"; n.classes = 1; tu::spew(d + "/t", enc(M4(1, 1, 1, 1)) + enc(M4(1, 1, 1, 1))); tu::spew(d + "/c", "classes=1\nx\ncolors\n0x1\ntraining=" + d + "/t\n");
    new rp::Replay(n, d + "/c");   // the trainer registers its statistics on first use
    System::stat_aggregator->Initialize();
  }); }
