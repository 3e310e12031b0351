// C27: repeated work accumulates nothing. Every operation is repeated and the
// allocator (bytes handed out and not given back), the descriptor table and the
// list of file mappings are read between the repetitions: a program that loads,
// reads, trains, tests, reports or refuses the same thing again must not grow.
#include "img.h"
#include "graph.h"
#include "CompressedTensor.h"
#include "TensorStream.h"
#include "Segmentation.h"
#include "CSVStatSink.h"
#include <sys/stat.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace im; using namespace vh; using namespace Conv; using tu::M4;

static size_t mappings(const std::string& dir) { std::ifstream f("/proc/self/maps"); std::string l; size_t n = 0; while (std::getline(f, l)) n += l.find(dir) != std::string::npos; return n; }
// f is repeated; the first repetitions may fill caches. Growth in each of the
// last three repetitions is accumulation.
static void steady(const std::string& what, const std::function<void()>& f, int warm = 1) {
  for (int k = 0; k < warm; k++) f();
  size_t b[4], d[4], m[4]; std::string dir = G().scratch;
  for (int k = 0; k < 4; k++) { if (k) f(); d[k] = openfds(); m[k] = mappings(dir); b[k] = __sanitizer_get_current_allocated_bytes(); }
  count("repetitions observed", 3); count("repeated: " + what);
  if (b[1] > b[0] && b[2] > b[1] && b[3] > b[2]) fail("memory:" + what, fmt("%s: every repetition keeps memory (%zu, %zu, %zu bytes more)", what.c_str(), b[1] - b[0], b[2] - b[1], b[3] - b[2]));
  if (d[3] > d[0]) fail("descriptors:" + what, fmt("%s: %zu descriptors open before three repetitions, %zu after", what.c_str(), d[0], d[3]));
  if (m[3] > m[0]) fail("mappings:" + what, fmt("%s: %zu file mappings before three repetitions, %zu after", what.c_str(), m[0], m[3]));
}
// an object's life: nothing may be left of it
static void life(const std::string& what, const std::function<void()>& f) { steady(what, f); }

static Tensor* rt(Rng& r) { Tensor* t = new Tensor(r.size(1, 3), r.size(1, 9), r.size(1, 9), r.size(1, 3)); for (size_t e = 0; e < t->elements(); e++) t->data_ptr()[e] = tu::rbits(r); return t; }
static void tensors(Rng& r) {
  uint64_t seed = r.next(); std::string f = G().scratch + "/m.Tensor";
  { std::ofstream o(f, std::ios::binary); Rng q(seed); for (int k = 0; k < 4; k++) { Tensor* t = rt(q); t->Serialize(o); delete t; } }
  note("tensor history"); std::string trace;
  life("tensor history", [&] {
    Rng q(seed); trace.clear(); std::vector<Tensor*> p; for (int k = 0; k < 4; k++) p.push_back(rt(q)); int n = (int)q.range(5, 40);
    std::set<Tensor*> sh;   // shadowing others: must go first
    for (int k = 0; k < n; k++) {
      size_t a = q.range(0, 3), b = q.range(0, 3); int op = (int)q.range(0, 10); trace += fmt("%d:%zu,%zu ", op, a, b);
      switch (op) {
        case 0: p[a]->Resize(q.size(0, 3), q.size(1, 6), q.size(1, 6), q.size(1, 3)); break;
        case 1: p[a]->Reshape(1, p[a]->elements()); break;
        case 2: { Tensor* c = new Tensor(*p[a], true); delete p[b]; p[b] = c; break; }
        case 3: if (a != b) { Tensor s; s.Shadow(*p[a]); Tensor u(std::move(s)); } break;
        case 4: { Tensor* c = new Tensor(std::move(*p[a])); delete p[a]; p[a] = c; break; }
        case 5: if (a != b) p[a]->Resize(*p[b]); break;
        case 6: p[a]->Transpose(); break;
        case 7: { std::ifstream in(f, std::ios::binary); int fd = open(f.c_str(), O_RDONLY); p[a]->Deserialize(in, false, true, fd); p[b]->Deserialize(in, true, false, fd); close(fd); break; }
        case 8: { std::stringstream ss; p[a]->Serialize(ss); p[b]->Deserialize(ss); break; }
        case 9: try { Tensor t(G().scratch + "/none.Tensor"); } catch (std::runtime_error&) {} break;
        default: p[a]->Clear(2); break;
      }
    }
    for (Tensor* t : p) delete t;
  });
  note("tensor history " + trace);
}
static void streams(Rng& r) {
  bool comp = r.chance(0.5), bad = r.chance(0.3); std::string f = G().scratch + "/s.Tensor", b; int n = (int)r.range(1, 3);
  { std::stringstream o; if (comp) { uint64_t magic = CN24_CTS_MAGIC; o.write((char*)&magic, 8); } for (int k = 0; k < 2 * n; k++) { Tensor* t = rt(r); for (size_t e = 0; e < t->elements(); e++) if (!(t->data_ptr()[e] == t->data_ptr()[e])) t->data_ptr()[e] = 0; if (comp) { CompressedTensor c; c.Compress(*t); c.Serialize(o); } else t->Serialize(o); delete t; } b = o.str(); }
  if (bad) b.resize(b.size() - r.range(1, 8)); tu::spew(f, b); uint64_t seed = r.next(); note(fmt("%s stream of %d tensors%s", comp ? "compressed" : "plain", 2 * n, bad ? ", truncated" : ""));
  life(std::string(comp ? "compressed stream" : "plain stream") + (bad ? ", refused" : ""), [&] {
    Rng q(seed); TensorStream* s = nullptr; try { s = TensorStream::FromFile(f); } catch (std::runtime_error&) {}
    if (!s) return;
    for (int k = 0; k < 6; k++) { unsigned i = (unsigned)q.range(0, s->GetTensorCount()); Tensor t(1, s->GetWidth(i), s->GetHeight(i), s->GetMaps(i)); s->CopySample(i, q.range(0, 1), t, 0); }
    delete s;
  });
  if (bad) return;
  TensorStream* s = TensorStream::FromFile(f);
  steady(std::string(comp ? "compressed stream" : "plain stream") + " reading", [&] { Rng q(seed); for (int k = 0; k < 8; k++) { unsigned i = (unsigned)q.range(0, s->GetTensorCount() - 1); Tensor t(1, s->GetWidth(i), s->GetHeight(i), s->GetMaps(i)); s->CopySample(i, 0, t, 0); } });
  delete s;
}
static void compression(Rng& r) {
  Tensor* t = rt(r); for (size_t e = 0; e < t->elements(); e++) if (!(t->data_ptr()[e] == t->data_ptr()[e]) || r.chance(0.6)) t->data_ptr()[e] = 0;
  note("compression of " + tu::shape(*t)); bool damaged = r.chance(0.3); uint64_t seed = r.next();
  CompressedTensor keep; Tensor out;
  steady("compression", [&] { keep.Compress(*t); keep.Decompress(out); std::stringstream ss; keep.Serialize(ss); CompressedTensor c; c.Deserialize(ss); c.Decompress(out); });
  std::stringstream ss; keep.Serialize(ss); std::string b = ss.str();
  if (damaged) { Rng q(seed); if (q.chance(0.5)) b.resize(q.range(0, b.size() - 1)); else b[40 + q.range(0, b.size() - 41)] ^= 1 << q.range(0, 7); }
  steady(damaged ? "damaged compressed tensor" : "compressed tensor", [&] { std::stringstream is(b); try { CompressedTensor c; c.Deserialize(is); Tensor o; c.Decompress(o); } catch (std::runtime_error&) {} });
  delete t;
}
static void images(Rng& r) {
  bool isp = r.chance(0.6); unsigned w = r.size(1, 30), h = r.size(1, 30); std::string b, f; int d = (int)r.range(0, 3);
  if (isp) { static const int types[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA}; int k = (int)r.range(0, 3); bool pal = r.chance(0.15); Img m = noise(r, w, h, pal ? 1 : k + 1, pal || r.chance(0.5) ? 8 : 16); b = png(r, m, pal ? PNG_COLOR_TYPE_PALETTE : types[k]); }
  else { Img m = noise(r, w, h, r.pick(std::vector<unsigned>{1, 3, 4}), 8); b = jpg(r, m, 90); }
  if (d == 1) b.resize(r.range(0, b.size() - 1)); else if (d == 2) b[r.range(0, b.size() - 1)] ^= 1 << r.range(0, 7);
  f = G().scratch + (isp ? "/i.png" : "/i.jpg"); tu::spew(f, b); int how = (int)r.range(0, 2); note(fmt("%s image, damage %d, access %d", isp ? "png" : "jpg", d, how));
  Tensor keep; bool ok = true;
  steady(std::string(isp ? "png" : "jpg") + (d ? " damaged image" : " image"), [&] { try { if (how == 0) Tensor t(f); else if (how == 1) keep.LoadFromFile(f); else { std::ifstream s(f, std::ios::binary); if (isp) PNGUtil::LoadFromStream(s, keep); else JPGUtil::LoadFromFile(f, keep); } } catch (std::runtime_error&) { ok = false; } });
  count(ok ? "images loaded repeatedly" : "images refused repeatedly");
  Tensor t(1, w, h, r.chance(0.8) ? 3 : 2); t.Clear(0.5); std::string o = G().scratch + r.pick(std::vector<std::string>{"/o.png", "/o.jpg", "/none/o.png", "/none/o.jpg"});
  steady("image writing", [&] { try { t.WriteToFile(o); } catch (std::runtime_error&) {} });
}
static void graphs(Rng& r) {
  gr::Graph g; g.random(r, 6); g.build(); bool te = r.chance(0.3); g.net.SetIsTesting(te); g.net.Initialize(); g.net.InitializeWeights(); g.load(); note("graph " + g.desc);
  steady("passes", [&] { g.log.ev.clear(); g.net.FeedForward(); g.net.AggregateLoss(); g.net.BackPropagate(); });
  steady("weight initialization", [&] { g.net.InitializeWeights(); });
  std::stringstream ps; g.net.SerializeParameters(ps); std::string b = ps.str(); bool cut = r.chance(0.4) && b.size(); if (cut) b.resize(r.range(0, b.size() - 1));
  steady(cut ? "loading damaged parameters" : "parameters", [&] { std::stringstream q; g.net.SerializeParameters(q); std::stringstream q2(b); try { g.net.DeserializeParameters(q2); } catch (std::runtime_error&) {} });
}
static void layers(Rng& r) {
  ly::Case c = ly::any(r, 6); note("layer " + c.desc); NetStatus st; st.SetIsTesting(r.chance(0.5) || c.desc.find("dropout") != std::string::npos);
  bool ok = true; std::vector<CombinedTensor*> in; for (auto& m : c.in) { CombinedTensor* t = new CombinedTensor(m.s, m.w, m.h, m.m); tu::put(t->data, m); t->delta.Clear(0); in.push_back(t); }
  auto use = [&](Layer* l, std::vector<CombinedTensor*>& out) { for (size_t k = 0; k < c.par.size(); k++) tu::put(l->parameters()[k]->data, c.par[k]); l->FeedForward(); for (auto* o : out) o->delta.Clear(1); if (c.has_bwd) l->BackPropagate(); };
  steady("layer life", [&] { std::vector<CombinedTensor*> out; Layer* l = c.make(); ok = l->CreateOutputs(in, out) && l->Connect(in, out, &st); if (ok) use(l, out); for (auto* o : out) delete o; delete l; });
  // refused wiring keeps nothing either
  steady("refused layer", [&] { std::vector<CombinedTensor*> out, bad = in; bad.push_back(nullptr); bad.push_back(nullptr); bad.push_back(nullptr); bad.push_back(nullptr); Layer* l = c.make(); if (l->CreateOutputs(bad, out)) ok = false; for (auto* o : out) delete o; delete l; });
  Layer* l = c.make(); std::vector<CombinedTensor*> out;
  if (ok && l->CreateOutputs(in, out) && l->Connect(in, out, &st)) steady("layer passes", [&] { use(l, out); });
  for (auto* t : in) delete t; for (auto* t : out) delete t; delete l;
}
// ------------------------------------------------- training, testing, reporting
struct Stop : StatSink { void Initialize(std::vector<StatDescriptor*>&) {} void Process(HardcodedStats&, std::vector<Stat*>&) { n++; } void SetCurrentExperiment(std::string) {} size_t n = 0; };
static Stop* SINK;
struct Src : Layer, TrainingLayer { Src() : Layer("") {} 
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) { o.push_back(new CombinedTensor(1, 1, 1, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; } void FeedForward() {} void BackPropagate() {} void SetTestingMode(bool) {}
  unsigned int GetSamplesInTrainingSet() { return 1; } unsigned int GetSamplesInTestingSet() { return 1; } unsigned int GetBatchSize() { return 1; } datum GetLossSamplingProbability() { return 1; } unsigned int GetLabelWidth() { return 1; } unsigned int GetLabelHeight() { return 1; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); } };
struct Lo : Layer, LossFunctionLayer { Lo() : Layer("") {} bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) { return true; } bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; } void FeedForward() {} void BackPropagate() {} datum CalculateLossFunction() { return 0; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>&) {} };
static void setup() {   // the trainer and the H-Max layer register their statistics on first use
  tu::init(); SINK = new Stop; System::stat_aggregator->RegisterSink(SINK); new HMaxActivationFunction(1, 0);
  NetGraph g; NetGraphNode n(new Src); n.is_input = true; g.AddNode(&n); NetGraphNode m(new Lo, NetGraphConnection(&n)); m.is_output = true; g.AddNode(&m); g.Initialize(); TrainerSettings s; Trainer t(g, s);
  System::stat_aggregator->Initialize(); System::stat_aggregator->StartRecording();
}
static void training(Rng& r) {
  bool patch = r.chance(0.4), comp = !patch && r.chance(0.4); unsigned C = (unsigned)r.range(1, 3), ntr = (unsigned)r.range(1, 3), nte = (unsigned)r.range(1, 3), B = (unsigned)r.range(1, 3);
  std::string dir = G().scratch, f[2] = {dir + "/tr.Tensor", dir + "/te.Tensor"};
  for (int t = 0; t < 2; t++) { std::ofstream o(f[t], std::ios::binary); if (comp) { uint64_t magic = CN24_CTS_MAGIC; o.write((char*)&magic, 8); }
    for (unsigned k = 0; k < (t ? nte : ntr); k++) { size_t w = r.range(5, 12), h = r.range(5, 12); for (unsigned m : {2u, C}) { Tensor x; tu::write(x, tu::random(r, 1, w, h, m)); if (comp) { CompressedTensor c; c.Compress(x); c.Serialize(o); } else x.Serialize(o); } } }
  std::string cfg = fmt("classes=%u\n", C); for (unsigned c = 0; c < C; c++) cfg += fmt("class%u\n", c); cfg += "colors\n"; for (unsigned c = 0; c < C; c++) cfg += fmt("%06x\n", c * 1000); cfg += "training=" + f[0] + "\ntesting=" + f[1] + "\n";
  std::istringstream cs(cfg); Dataset* D; if (patch) D = TensorStreamPatchDataset::CreateFromConfiguration(cs, false, LOAD_BOTH, 5, 5); else D = TensorStreamDataset::CreateFromConfiguration(cs, false, LOAD_BOTH);
  note(fmt("training on a %s%s dataset of %u and %u images, batch %u", patch ? "patch" : "whole image", comp ? " compressed" : "", ntr, nte, B));
  unsigned lw = patch ? 1 : D->GetWidth(), lh = patch ? 1 : D->GetHeight(); Tensor d(B, D->GetWidth(), D->GetHeight(), 2), l(B, lw, lh, C), hp(B, lw, lh, 2), wt(B, lw, lh, 1);
  unsigned n[2] = {D->GetTrainingSamples(), D->GetTestingSamples()};
  steady("dataset access", [&] { for (unsigned k = 0; k < std::min(n[0], 9u); k++) D->GetTrainingSample(d, l, hp, wt, k % B, k); for (unsigned k = 0; k < std::min(n[1], 9u); k++) D->GetTestingSample(d, l, hp, wt, k % B, k); D->GetTrainingSample(d, l, hp, wt, 0, n[0]); D->GetTestingSample(d, l, hp, wt, 0, n[1]); });
  { Tensor im(B, lw, lh, 3); l.Clear(0.5); steady("colouring", [&] { D->Colorize(l, im); }); }
  NetGraph g; DatasetInputLayer* L = new DatasetInputLayer(*D, B, r.chance(0.5) ? 1.f : 0.5f, (unsigned)r.next());
  NetGraphNode* in = new NetGraphNode(L); in->is_input = true; g.AddNode(in); unsigned K = (unsigned)r.range(1, 5);
  NetGraphNode* cv = new NetGraphNode(new ConvolutionLayer(fmt("kernels=%u size=%ux%u%s", C, K, K, patch ? "" : fmt(" pad=%ux%u", K / 2, K / 2).c_str())), NetGraphConnection(in, 0)); if (patch || K % 2 == 0) { delete cv->layer; cv->layer = new ConvolutionLayer(patch ? fmt("kernels=%u size=5x5", C) : fmt("kernels=%u size=1x1", C)); } g.AddNode(cv);
  NetGraphNode* ac = new NetGraphNode(new TanhLayer(""), NetGraphConnection(cv, 0)); ac->is_output = true; g.AddNode(ac);
  NetGraphNode* er = new NetGraphNode(new ErrorLayer(1.f)); er->input_connections = {NetGraphConnection(ac, 0), NetGraphConnection(in, 1), NetGraphConnection(in, 3)}; g.AddNode(er);
  g.Initialize(); g.InitializeWeights();
  TrainerSettings s; s.learning_rate = 1e-4f; s.iterations = (unsigned)r.range(1, 3); s.sbatchsize = (unsigned)r.range(1, 3); s.optimization_method = r.chance(0.4) ? QUICKPROP : GRADIENT_DESCENT; s.stats_during_training = r.chance(0.5); s.pbatchsize = B;
  Trainer tr(g, s); bool snap = r.chance(0.5); StatAggregator& sa = *System::stat_aggregator;
  steady("training", [&] { tr.Train(1, snap); });
  steady("testing", [&] { tr.Test(); });
  steady("statistics", [&] { sa.StopRecording(); sa.Generate(); sa.Reset(); sa.StartRecording(); sa.Snapshot(); });
  steady("setting the epoch", [&] { tr.SetEpoch(3); tr.Reset(); });
  struct Capture { std::ostringstream s; std::streambuf* o; Capture() { o = std::cout.rdbuf(s.rdbuf()); } ~Capture() { std::cout.rdbuf(o); } };
  if (r.chance(0.15)) steady("gradient checks", [&] { Capture c; GradientTester::TestGradient(g, 7, false); });
}
static void statistics(Rng& r) {
  StatAggregator* old = System::stat_aggregator; System::stat_aggregator = new StatAggregator; unsigned C = (unsigned)r.range(1, 4); bool bin = r.chance(0.4); if (bin) C = 1;
  std::vector<std::string> nm(C, "a"); Layer* L; StatLayer* S; if (bin) { BinaryStatLayer* b = new BinaryStatLayer(13, -1, 1); L = b; S = b; } else { ConfusionMatrixLayer* c = new ConfusionMatrixLayer(nm, C); L = c; S = c; }
  size_t w = r.range(1, 6), h = r.range(1, 6); CombinedTensor a(2, w, h, C), b(2, w, h, C), c(2, w, h, 1); tu::put(a.data, tu::random(r, 2, w, h, C)); tu::put(b.data, tu::random(r, 2, w, h, C)); c.data.Clear(1);
  std::vector<CombinedTensor*> in{&a, &b, &c}, out; NetStatus st; note(fmt("%s statistics", bin ? "binary" : "confusion matrix"));
  if (!L->CreateOutputs(in, out) || !L->Connect(in, out, &st)) fail("refused", "statistics layer refused matching inputs");
  std::string dir = G().scratch; if (chdir(dir.c_str())) return; ::mkdir("csv", 0755); CSVStatSink* csv = r.chance(0.6) ? new CSVStatSink : nullptr; if (csv) System::stat_aggregator->RegisterSink(csv);
  System::stat_aggregator->Initialize(); bool tr = r.chance(0.5), newname = r.chance(0.3); int k = 0;
  steady("statistics layer", [&] { L->FeedForward(); System::stat_aggregator->StartRecording(); S->UpdateAll(); std::ostringstream s; std::streambuf* o = std::cout.rdbuf(s.rdbuf()); S->Print("x", tr); std::cout.rdbuf(o); S->Reset(); S->SetDisabled(k & 1); k++; System::stat_aggregator->StopRecording(); System::stat_aggregator->Generate(); System::stat_aggregator->Reset(); if (newname) System::stat_aggregator->SetCurrentExperiment(k & 1 ? "one" : "two"); }, 2);
  if (csv) count("histories written to a CSV file"); System::stat_aggregator = old;
}
// image lists
static void lists(Rng& r) {
  std::string dir = G().scratch, il, ll; int n = (int)r.range(1, 3); bool bad = r.chance(0.3);
  for (int k = 0; k < n; k++) { unsigned w = r.range(1, 9), h = r.range(1, 9); std::string a = fmt("a%d.png", k), b = fmt("b%d.png", k); bool mis = r.chance(0.2); tu::spew(dir + "/" + a, png(r, noise(r, w, h, 3, 8), PNG_COLOR_TYPE_RGB)); tu::spew(dir + "/" + b, png(r, noise(r, w + mis, h, 3, 8), PNG_COLOR_TYPE_RGB)); il += a + "\n"; ll += b + "\n"; }
  if (bad) { if (r.chance(0.5)) il += "none.png\n", ll += "b0.png\n"; else ll += "b0.png\nb0.png\n"; }
  tu::spew(dir + "/il", il); tu::spew(dir + "/ll", ll); std::vector<unsigned> cols{0, 0xff0000}; note(fmt("list of %d image pairs%s", n, bad ? ", damaged" : ""));
  std::string cfg = "list:" + dir + "/il;" + dir + ";" + dir + "/ll;" + dir;
  life(bad ? "damaged image list" : "image list", [&] { TensorStream* s = nullptr; try { s = TensorStream::FromFile(cfg, cols); } catch (std::runtime_error&) { count("lists refused"); }
    if (s) { count("lists read repeatedly"); for (unsigned k = 0; k < s->GetTensorCount(); k++) { Tensor t(1, s->GetWidth(k), s->GetHeight(k), s->GetMaps(k)); s->CopySample(k, 0, t, 0); } delete s; } });
}
static void segmentation(Rng& r) {
  Tensor src(r.range(1, 2), r.range(1, 9), r.range(1, 9), r.range(1, 3)), t, hp; src.Clear(1); int a = (int)r.range(1, 5), b = (int)r.range(1, 5); bool m = r.chance(0.5); note("patches");
  steady("patch extraction", [&] { Segmentation::ExtractPatches(a, b, t, hp, src, 0, m); });
}
static void one(Rng& r, int64_t i) {
  switch (i % 18) {
    case 0: case 12: tensors(r); break;
    case 1: case 13: streams(r); break;
    case 2: case 14: compression(r); break;
    case 3: case 4: case 15: images(r); break;
    case 5: case 16: graphs(r); break;
    case 6: case 7: case 11: layers(r); break;
    case 8: segmentation(r); break;
    case 9: lists(r); break;
    case 10: statistics(r); break;
    default: training(r);
  }
  nontrivial(G().note); if (i < 18) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c27_resources", one, setup); }
