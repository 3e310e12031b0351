// C11: the dataset input layer serves every training sample exactly once per
// pass over the permutation, the test samples once and in order, padding with
// zero weight, and loss sampling only ever blanks whole 12x12 weight blocks.
#include "tutil.h"
#include "InputLayer.h"
using namespace Conv;
using namespace vh;

struct Fake : Dataset {
  unsigned w, h, im, lm, ntr, nte; Method me;
  std::vector<std::pair<bool, unsigned>> served;   // (testing, index)
  std::vector<unsigned> slots;
  static float val(bool te, unsigned idx, int what, unsigned x, unsigned y, unsigned m) {
    Rng r(mix(((((uint64_t)te * 1000003 + idx) * 31 + what) * 1009 + x) * 1013 + y * 17 + m)); return (float)r.real(0.1, 2); }
  Task GetTask() const { return SEMANTIC_SEGMENTATION; } Method GetMethod() const { return me; }
  unsigned GetWidth() const { return w; } unsigned GetHeight() const { return h; } unsigned GetInputMaps() const { return im; } unsigned GetLabelMaps() const { return lm; }
  unsigned GetClasses() const { return lm; } std::vector<std::string> GetClassNames() const { return std::vector<std::string>(lm, "c"); }
  std::vector<unsigned> GetClassColors() const { return std::vector<unsigned>(lm, 0); } std::vector<datum> GetClassWeights() const { return std::vector<datum>(lm, 1); }
  unsigned GetTrainingSamples() const { return ntr; } unsigned GetTestingSamples() const { return nte; } bool SupportsTesting() const { return nte > 0; }
  bool put(bool te, Tensor& d, Tensor& l, Tensor& h_, Tensor& wt, unsigned s, unsigned i) {
    served.push_back({te, i}); slots.push_back(s);
    if (i >= (te ? nte : ntr)) return false;
    int k = 0; for (Tensor* t : {&d, &l, &h_, &wt}) { for (unsigned m = 0; m < t->maps(); m++) for (unsigned y = 0; y < t->height(); y++) for (unsigned x = 0; x < t->width(); x++) *t->data_ptr(x, y, m, s) = val(te, i, k, x, y, m); k++; }
    return true;
  }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& h_, Tensor& wt, unsigned s, unsigned i) { return put(false, d, l, h_, wt, s, i); }
  bool GetTestingSample(Tensor& d, Tensor& l, Tensor& h_, Tensor& wt, unsigned s, unsigned i) { return put(true, d, l, h_, wt, s, i); }
};

static void one(Rng& r, int64_t i) {
  Fake D; D.me = r.chance(0.6) ? FCN : PATCH;
  D.w = r.chance(0.3) ? r.range(1, 50) : r.range(1, 26); D.h = r.chance(0.3) ? r.range(1, 50) : r.range(1, 26); D.im = r.range(1, 3); D.lm = r.range(1, 3);
  D.ntr = r.big(1, 24, 150); D.nte = r.big(1, 16, 90);
  unsigned B = r.big(1, 7, 40), seed = r.range(1, 100000); float p = r.chance(0.3) ? 1.f : r.chance(0.1) ? 0.f : (float)r.real(0, 1);
  note(fmt("%s %ux%u batch %u train %u test %u sampling %g seed %u", D.me == FCN ? "FCN" : "PATCH", D.w, D.h, B, D.ntr, D.nte, p, seed));
  DatasetInputLayer L(D, B, p, seed);
  std::vector<CombinedTensor*> out, no; NetStatus st;
  if (!L.CreateOutputs(no, out) || out.size() != 4 || !L.Connect(no, out, &st)) { fail("connect", "input layer does not connect"); return; }
  bool fcn = D.me == FCN;
  unsigned lw = fcn ? D.w : 1, lh = fcn ? D.h : 1;
  const unsigned want[4][3] = {{D.w, D.h, D.im}, {lw, lh, D.lm}, {lw, lh, 2}, {lw, lh, 1}};
  for (int k = 0; k < 4; k++) if (out[k]->data.samples() != B || out[k]->data.width() != want[k][0] || out[k]->data.height() != want[k][1] || out[k]->data.maps() != want[k][2]) { fail("shape", fmt("output %d has shape %s", k, tu::shape(out[k]->data).c_str())); return; }
  if (L.GetBatchSize() != B || L.GetSamplesInTrainingSet() != D.ntr || L.GetSamplesInTestingSet() != D.nte || L.GetLabelWidth() != lw || L.GetLabelHeight() != lh || L.GetLossSamplingProbability() != p) { fail("training-layer", "input layer reports other sizes than its dataset"); return; }
  // second, identically seeded instance: same order
  Fake D2 = D; DatasetInputLayer L2(D2, B, p, seed); std::vector<CombinedTensor*> out2; L2.CreateOutputs(no, out2); L2.Connect(no, out2, &st);
  std::vector<unsigned> order; unsigned testpos = 0; bool testing = false;
  size_t blocks = 0, kept = 0, runs = 0; std::vector<std::vector<unsigned>> cycles;
  int steps = (int)r.range(3, 30);
  size_t tests = 0;
  for (int s = 0; s < steps; s++) {
    if (r.chance(0.25)) {
      bool t = r.chance(0.5); if (t && !testing) testpos = 0; testing = t; L.SetTestingMode(t); L2.SetTestingMode(t); count("mode switches");
    }
    size_t before = D.served.size();
    for (auto* t : out) for (size_t e = 0; e < t->data.elements(); e++) t->data.data_ptr()[e] = NAN;
    for (auto* t : out) tu::scatter(t->data);
    L.FeedForward(); L2.FeedForward(); runs++; for (int k = 0; k < 4; k++) { tu::cpu(out[k]->data); tu::cpu(out2[k]->data); }
    for (int k = 0; k < 4; k++) for (size_t e = 0; e < out[k]->data.elements(); e++) if (tu::bits(out[k]->data.data_ptr()[e]) != tu::bits(out2[k]->data.data_ptr()[e])) { fail("seed-determinism", "two input layers with the same seed served different batches"); return; }
    if (D.served.size() - before < B) { fail("batch", "fewer samples than the batch size"); return; }
    std::vector<int> idx(B, -1); std::vector<char> te(B);
    for (size_t q = before; q < D.served.size(); q++) { if (D.slots[q] >= B) { fail("slot", "sample stored outside the batch"); return; } idx[D.slots[q]] = D.served[q].second; te[D.slots[q]] = D.served[q].first; }
    for (unsigned b = 0; b < B; b++) {
      if (idx[b] < 0) { fail("slot", fmt("batch slot %u was not filled", b)); return; }
      if (te[b] != testing) { fail("subset", testing ? "training sample served while testing" : "testing sample served while training"); return; }
      bool blank = false;
      if (testing) { if (testpos < D.nte) { if ((unsigned)idx[b] != testpos) { fail("test-order", fmt("test sample %d served, expected %u", idx[b], testpos)); return; } testpos++; tests++; } else blank = true; }
      else order.push_back(idx[b]);
      for (int k = 0; k < 3; k++) if (!blank) for (unsigned m = 0; m < want[k][2]; m++) for (unsigned y = 0; y < want[k][1]; y++) for (unsigned x = 0; x < want[k][0]; x++)
        if (*out[k]->data.data_ptr_const(x, y, m, b) != Fake::val(testing, idx[b], k, x, y, m)) { fail("content", fmt("output %d slot %u at (%u,%u,%u) is not the selected sample's", k, b, x, y, m)); return; }
      const Tensor& wt = out[3]->data;
      if (blank) { for (unsigned y = 0; y < lh; y++) for (unsigned x = 0; x < lw; x++) if (*wt.data_ptr_const(x, y, 0, b) != 0) { fail("padding-weight", fmt("padding sample in slot %u has non-zero weight", b)); return; } count("padding samples seen"); continue; }
      for (unsigned y = 0; y < lh; y += 12) for (unsigned x = 0; x < lw; x += 12) {
        int z = -1;
        for (unsigned yy = y; yy < std::min(lh, y + 12); yy++) for (unsigned xx = x; xx < std::min(lw, x + 12); xx++) {
          float v = *wt.data_ptr_const(xx, yy, 0, b), w0 = Fake::val(testing, idx[b], 3, xx, yy, 0);
          int zz = v == 0 ? 1 : v == w0 ? 0 : 2;
          if (zz == 2) { fail("weight-value", fmt("weight at (%u,%u) is %g, dataset weight %g", xx, yy, v, w0)); return; }
          if (z >= 0 && zz != z) { fail("partial-block", fmt("loss sampling kept part of the block at (%u,%u)", x, y)); return; }
          z = zz;
        }
        if ((testing || !fcn || p == 1.f) && z == 1) { fail("weight-lost", testing ? "weights were sampled away while testing" : "weights were sampled away although every block is to be kept"); return; }
        if (!testing && fcn) { blocks++; kept += z == 0; count("loss sampling blocks"); }
      }
      count(testing ? "test samples served" : "training samples served");
    }
  }
  for (size_t c = 0; c * D.ntr < order.size(); c++) {
    std::vector<int> seen(D.ntr, 0); std::vector<unsigned> cy;
    for (size_t q = c * D.ntr; q < std::min(order.size(), (c + 1) * D.ntr); q++) {
      if (order[q] >= D.ntr) { fail("index", "training sample index out of range"); return; }
      if (seen[order[q]]++) { fail("exactly-once", fmt("training sample %u served twice within one pass over %u samples", order[q], D.ntr)); return; }
      cy.push_back(order[q]);
    }
    if (cy.size() == D.ntr) { cycles.push_back(cy); count("complete permutations"); }
  }
  if (D.ntr >= 12) {
    for (size_t c = 1; c < cycles.size(); c++) if (cycles[c] == cycles[c - 1]) { fail("reshuffle", "two passes over the training set used the same order"); return; }
    std::vector<unsigned> asc(D.ntr); for (unsigned q = 0; q < D.ntr; q++) asc[q] = q;
    if (cycles.size() && cycles[0] == asc) { fail("shuffle", "training order is not randomised"); return; }
  }
  if (D.ntr >= 2 && cycles.size() >= 3) {   // no place of the order always holds the same sample
    double lp = std::log10((double)D.ntr) * (1.0 - (double)(cycles.size() - 1)) ;
    if (lp < -12) { count("orders of many passes compared"); for (unsigned q = 0; q < D.ntr; q++) { bool all = true; for (auto& c : cycles) all &= c[q] == cycles[0][q]; if (all) { fail("reshuffle", fmt("place %u of the order held sample %u of %u in all %zu passes", q, cycles[0][q], D.ntr, cycles.size())); return; } } }
  }
  if (blocks > 400) { double f = (double)kept / blocks, sd = std::sqrt(p * (1 - p) / blocks); count("sampling rates checked"); if (std::fabs(f - p) > 6 * sd + 1e-3) fail("sampling-rate", fmt("%.4f of the blocks kept, probability %.4f", f, p)); }
  if (p == 0.f && kept > 2) fail("sampling-rate", "blocks kept although the sampling probability is zero");
  if (order.size() > D.ntr || tests) nontrivial(G().note);
  if (i < 5) sample(G().note);
  for (auto* t : out) delete t; for (auto* t : out2) delete t;
}
// an input layer over the user's own tensors
static void user(Rng& r) {
  bool full = r.chance(0.6); size_t S = r.range(1, 3); Tensor t[4]; for (int k = 0; k < 4; k++) { t[k].Resize(S, r.range(1, 6), r.range(1, 6), r.range(1, 3)); for (size_t e = 0; e < t[k].elements(); e++) t[k].data_ptr()[e] = (float)r.real(-1, 1); }
  int bad = r.chance(0.25) ? (int)r.range(full ? 1 : 2, full ? 3 : 2) : 0; if (bad) t[bad].Resize(S + 1, 2, 2, 1);
  note(fmt("input layer over %d tensors of %zu samples%s", full ? 4 : 2, S, bad ? ", one with another number of samples" : "")); InputLayer* L = nullptr; bool threw = false;
  try { L = full ? new InputLayer(t[0], t[1], t[2], t[3]) : new InputLayer(t[0], t[2]); } catch (std::runtime_error&) { threw = true; }
  count("input layers over user tensors"); nontrivial(G().note);
  if (threw != (bad != 0)) { fail("user-input", bad ? "tensors with different numbers of samples are accepted" : "matching tensors are refused"); return; }
  if (bad) return;
  std::vector<CombinedTensor*> none, out; NetStatus st; CombinedTensor x(1, 1, 1, 1);
  { std::vector<CombinedTensor*> in{&x}, o; if (L->CreateOutputs(in, o)) fail("user-input", "an input layer accepts an input"); }
  if (!L->CreateOutputs(none, out) || out.size() != 4) { fail("user-input", "no four outputs are created"); return; }
  std::vector<CombinedTensor*> w = out; int how = (int)r.range(0, 3); const char* what = "the outputs it created"; std::vector<CombinedTensor*> in;
  if (how == 1) { w[r.range(0, 3)] = nullptr; what = "a missing output"; } else if (how == 2) { if (r.chance(0.5)) w.resize(r.range(0, 2)); else w.push_back(&x); what = "the wrong number of outputs"; } else if (how == 3) { in.push_back(&x); what = "an input"; }
  if (L->Connect(in, w, &st) != (how == 0)) { fail("user-input", fmt("connecting %s is %s", what, how ? "accepted" : "refused")); return; }
  for (int k = 0; k < 4; k++) {
    const Tensor& d = out[k]->data; bool have = full || k == 0 || k == 2;
    if (!have) { if (d.samples() != S) fail("user-input", fmt("output %d has another number of samples", k)); continue; }
    if (d.data_ptr_const() != t[k].data_ptr_const() || d.samples() != S || d.width() != t[k].width() || d.height() != t[k].height() || d.maps() != t[k].maps()) { fail("user-input", fmt("output %d is not the tensor that was given", k)); return; }
    std::vector<float> b(d.data_ptr_const(), d.data_ptr_const() + d.elements()); L->FeedForward(); L->BackPropagate(); t[k].data_ptr()[0] = b[0] = 42;
    if (memcmp(b.data(), d.data_ptr_const(), b.size() * 4)) { fail("user-input", fmt("output %d does not show the tensor's contents", k)); return; }
  }
  delete L; for (auto* o : out) delete o;
}
static void wiring(Rng& r) {
  Fake D; D.me = r.chance(0.5) ? FCN : PATCH; D.w = D.h = 3; D.im = D.lm = 1; D.ntr = D.nte = 2; DatasetInputLayer L(D, 2, 1.0, 5); std::vector<CombinedTensor*> out, in; NetStatus st; CombinedTensor x(2, 3, 3, 1);
  if (r.chance(0.2)) { in.push_back(&x); note("dataset input layer: an input"); count("wrong wirings"); if (L.CreateOutputs(in, out)) fail("wiring", "an input is accepted"); for (auto* o : out) delete o; return; }
  if (!L.CreateOutputs(in, out)) { fail("connect", "input layer does not create outputs"); return; }
  std::vector<CombinedTensor*> w = out; std::string what;
  switch (r.range(0, 3)) { case 0: w[r.range(0, 3)] = nullptr; what = "a missing output"; break; case 1: w.resize(r.range(0, 3)); what = "too few outputs"; break; case 2: w.push_back(&x); what = "too many outputs"; break; default: in.push_back(&x); what = "an input"; }
  note("dataset input layer: " + what); count("wrong wirings"); nontrivial(G().note);
  if (L.Connect(in, w, &st)) fail("wiring", "connecting " + what + " is accepted");
  for (auto* o : out) delete o;
}
static void empty(Rng& r) {
  Fake D; D.me = FCN; D.w = D.h = 4; D.im = D.lm = 1; D.ntr = 0; D.nte = 2; note("empty training set");
  DatasetInputLayer L(D, 2, 1.0, 5); std::vector<CombinedTensor*> out, no; NetStatus st; L.CreateOutputs(no, out); L.Connect(no, out, &st);
  bool threw = false; try { L.FeedForward(); } catch (std::runtime_error&) { threw = true; }
  if (!threw) fail("empty-training-set", "training on an empty training set is not refused");
  L.SetTestingMode(true); L.FeedForward();
  if (D.served.size() != 2 || D.served[0].second != 0 || D.served[1].second != 1) fail("test-order", "test samples not served in order");
  count("empty training sets"); (void)r;
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c11_input", [](Rng& r, int64_t i) { if (i % 97 == 96) empty(r); else if (i % 20 == 19) user(r); else if (i % 40 == 38) wiring(r); else one(r, i); }, [] { tu::init(); }); }
