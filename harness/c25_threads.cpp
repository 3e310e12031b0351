// C25: an OpenMP build computes the same with any number of threads.  Layers and
// whole training sessions run with one thread and with teams of several sizes,
// permuted thread numbers and start delays; every result is compared bit for bit.
// In the ThreadSanitizer flavour every access of every region is also checked for races.
#include "layers.h"
#include "graph.h"
#include "desc.h"
#include "DatasetInputLayer.h"
#include "omp_shim.h"
#include <sys/stat.h>
using namespace vh; using namespace Conv; using tu::M4; using nd::V;

static void put(std::string& o, const Tensor& t) { uint64_t d[4] = {t.samples(), t.width(), t.height(), t.maps()}; o.append((const char*)d, 32); o.append((const char*)t.data_ptr_const(), t.elements() * 4); }
static std::string enc(const M4& m) { std::string o; Tensor t; tu::write(t, m); put(o, t); return o; }
struct TrainSource : gr::Source, TrainingLayer {
  TrainSource(const V& v) : gr::Source(v) {}
  void SetTestingMode(bool) {}
  unsigned int GetSamplesInTrainingSet() { return 1; }
  unsigned int GetSamplesInTestingSet() { return 1; }
  unsigned int GetBatchSize() { return 1; }
  datum GetLossSamplingProbability() { return 1; }
  unsigned int GetLabelWidth() { return 1; }
  unsigned int GetLabelHeight() { return 1; }
};
struct Sink : StatSink {
  void Initialize(std::vector<StatDescriptor*>& d) { desc = d; }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) { log += fmt("row %lu:", h.epoch); for (size_t i = 0; i < s.size(); i++) if (desc[i]->unit.find("/s") == std::string::npos) log += desc[i]->description + (s[i]->is_null ? "=null " : fmt("=%a ", s[i]->value)); rows++; }
  void SetCurrentExperiment(std::string) {}
  std::vector<StatDescriptor*> desc; std::string log; size_t rows = 0;
};
static Sink* SINK;
static void compare(const char* what, const std::string& a, const std::string& b, int threads) {
  count(std::string(what) + " compared"); if (a == b) return;
  size_t p = 0; while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
  fail(std::string("threads:") + what, fmt("%d threads give another result than one (%zu/%zu bytes, first difference at byte %zu)", threads, b.size(), a.size(), p));
}
static int teams(Rng& r) { return r.chance(0.7) ? (int)r.range(2, 5) : (int)r.range(6, 13); }

static void layer(Rng& r) {
  ly::Case c = ly::any(r, 14); std::string ish; for (auto& t : c.in) ish += " " + t.shape(); note(c.desc + " on" + ish);
  std::vector<V> ins, ods; int passes = (int)r.range(1, 2);
  for (int p = 0; p < passes; p++) { if (p) ly::refill(r, c); ins.push_back(c.in); V out = c.fwd(c.in, c.par), od; for (auto& o : out) od.push_back(tu::random(r, o.s, o.w, o.h, o.m)); ods.push_back(od); }
  auto run = [&](int t, uint64_t perturb) {
    std::string o; ly::Inst I; std::string why; if (!I.connect(c, why)) { fail("refused", why); return o; }
    omp_shim_set(t, perturb);
    for (int p = 0; p < passes; p++) {
      c.in = ins[p]; I.load(c); I.layer->FeedForward(); for (auto* q : I.out) put(o, q->data);
      if (!c.has_bwd) continue;
      for (size_t k = 0; k < ods[p].size(); k++) tu::put(I.out[k]->delta, ods[p][k]);
      I.layer->BackPropagate(); for (auto* q : I.in) put(o, q->delta); for (auto* q : I.layer->parameters()) put(o, q->delta);
      if (auto* l = dynamic_cast<LossFunctionLayer*>(I.layer)) o += fmt("%a", (double)l->CalculateLossFunction());
    }
    omp_shim_set(1, 0); return o;
  };
  std::string one = run(1, 0); int k = (int)r.range(1, 2); uint64_t before = omp_shim_parallel_regions();
  for (int q = 0; q < k; q++) { int t = teams(r); compare("layer passes", one, run(t, r.next() | 1), t); }
  if (omp_shim_parallel_regions() > before) { nontrivial(G().note); count("layer " + c.kind + " with parallel regions"); }
}

static void session(Rng& r, int64_t i) {
  std::string dir = G().scratch + "/t"; mkdir(dir.c_str(), 0755);
  nd::Net n; for (;;) { n = nd::generate(r); bool drop = false; for (auto& q : n.st) drop |= q.drop > 0; if (drop || n.rx < 0 || n.ry < 0 || 64 % n.fx || 64 % n.fy || n.rx > 40 || n.ry > 40) continue; if (n.classes == 1 && n.st.back().op != nd::OUT) continue; break; }
  std::string cfg = fmt("classes=%d\n", n.classes); for (int c = 0; c < n.classes; c++) cfg += fmt("c%d\n", c); cfg += "colors\n"; for (int c = 0; c < n.classes; c++) cfg += fmt("0x%06X\n", c * 77 + 1);
  if (r.chance(0.4)) { cfg += "weights\n"; for (int c = 0; c < n.classes; c++) cfg += fmt("%g\n", 0.5 * r.range(1, 6)); }
  if (r.chance(0.3)) cfg += "localized_error=kitti\n";
  int minw = n.patch ? n.rx + n.fx : 1, minh = n.patch ? n.ry + n.fy : 1;
  auto mk = [&](int k) { std::string b; for (int q = 0; q < k; q++) { size_t w = r.range(minw, minw + 10), h = r.range(minh, minh + 10); M4 im = tu::random(r, 1, w, h, n.in_maps), l(1, w, h, n.classes);
      for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (n.classes == 1) l.at(x, y, 0, 0) = r.chance(0.5) ? 1 : -1; else l.at(x, y, r.range(0, n.classes - 1), 0) = 1; } b += enc(im) + enc(l); } return b; };
  tu::spew(dir + "/tr.Tensor", mk((int)r.range(1, 3))); cfg += "training=" + dir + "/tr.Tensor\n"; bool te = !n.patch && r.chance(0.7); if (te) { tu::spew(dir + "/te.Tensor", mk((int)r.range(1, 2))); cfg += "testing=" + dir + "/te.Tensor\n"; }
  TrainerSettings set; set.learning_rate = 0.1; set.momentum = r.chance(0.5) ? 0.9 : 0; set.l2_weight = 0.001; set.iterations = (unsigned)r.range(1, 2); set.pbatchsize = (unsigned)r.range(1, n.patch ? 6 : 3); set.sbatchsize = (unsigned)r.range(1, 2); set.epoch_training_ratio = set.testing_ratio = 1; if (r.chance(0.2)) set.optimization_method = QUICKPROP;
  note(fmt("%s session, batch %u x %u\n", n.patch ? "patch" : "full image", set.pbatchsize, set.sbatchsize) + n.text);
  auto run = [&](int t, uint64_t perturb) {
    omp_shim_set(t, perturb); std::string o; std::istringstream ss(n.text), cs(cfg); ConfigurableFactory f(ss, 8347734, true);
    TensorStreamDataset* fd = nullptr; TensorStreamPatchDataset* pd = nullptr; Dataset* d;
    if (n.patch) d = pd = (TensorStreamPatchDataset*)TensorStreamPatchDataset::CreateFromConfiguration(cs, false, LOAD_TRAINING_ONLY, f.patchsizex(), f.patchsizey()); else d = fd = TensorStreamDataset::CreateFromConfiguration(cs, false, LOAD_BOTH);
    NetGraph g; NetGraphNode* in = new NetGraphNode(new DatasetInputLayer(*d, set.pbatchsize, 0.7, 983923)); in->is_input = true; g.AddNode(in);
    if (!f.AddLayers(g, NetGraphConnection(in), d->GetClasses(), true)) { fail("incomplete", "description reported as incomplete"); return o; }
    NetGraphNode* outn = g.GetOutputNodes()[0];
    g.Initialize(); g.InitializeWeights();
    { Trainer tr(g, set); System::stat_aggregator->Reset(); System::stat_aggregator->StartRecording(); SINK->log.clear(); SINK->rows = 0;
      std::vector<CombinedTensor*> p; auto dump = [&] { p.clear(); g.GetParameters(p); for (auto* q : p) put(o, q->data); };
      dump(); tr.Train(2, true); dump(); if (te) { tr.Test(); put(o, outn->output_buffers[0].combined_tensor->data); } put(o, in->output_buffers[0].combined_tensor->data); put(o, in->output_buffers[3].combined_tensor->data);
      System::stat_aggregator->StopRecording(); o += SINK->log; }
    for (NetGraphNode* k : g.GetNodes()) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; }
    delete fd; delete pd; omp_shim_set(1, 0); return o;
  };
  std::string one = run(1, 0); uint64_t before = omp_shim_parallel_regions(); int t = teams(r);
  compare("training sessions", one, run(t, r.next() | 1), t); if (r.chance(0.3)) compare("training sessions", run(3, 0), one, 3);
  count("parallel regions within sessions", omp_shim_parallel_regions() - before); nontrivial(G().note); if (i < 8) sample(G().note.substr(0, 250));
}
static void one(Rng& r, int64_t i) {
  static uint64_t pr = 0, th = 0, di = 0; if (i % 4 == 3) session(r, i); else layer(r);
  count("parallel regions executed", omp_shim_parallel_regions() - pr); pr = omp_shim_parallel_regions(); count("threads started", omp_shim_threads() - th); th = omp_shim_threads(); count("distinct region/team/assignment combinations", omp_shim_distinct() - di); di = omp_shim_distinct();
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c25_threads", one, [] {
    tu::init(0); omp_shim_set(1, 0);
    SINK = new Sink; System::stat_aggregator->RegisterSink(SINK); new HMaxActivationFunction(1, 0);
    NetGraph* g = new NetGraph; TrainSource* in = new TrainSource(V(4, M4(1, 1, 1, 1))); NetGraphNode* n = new NetGraphNode(in); n->is_input = true; g->AddNode(n);
    Layer* e = new ErrorLayer(1); NetGraphNode* m = new NetGraphNode(e); for (int k : {0, 1, 3}) m->input_connections.push_back(NetGraphConnection(n, k)); g->AddNode(m); NetGraphNode* o = new NetGraphNode(new TanhLayer, NetGraphConnection(n)); o->is_output = true; g->AddNode(o);
    g->Initialize(); TrainerSettings s; s.optimization_method = QUICKPROP; new Trainer(*g, s);   // the trainer registers its statistics on first use
    System::stat_aggregator->Initialize();
  }); }
