// C10: the trainer performs exactly the documented update: event trace of the
// passes, annealed learning rate, averaged minibatch gradients over sequential
// batches, L1/L2 regularisation, momentum / QuickProp, testing changes nothing.
#include "tutil.h"
using namespace Conv;
using tu::M4;
using namespace vh;

enum Ev { FF, BP, LOSS };
struct Event { Ev e; int id; bool testing; };
static std::vector<Event>* LOG;

struct Inp : Layer, TrainingLayer {
  Inp(unsigned w_, unsigned h_, unsigned b_, unsigned ntr_, unsigned nte_, float p_, int id_ = 0) : Layer(""), id(id_), w(w_), h(h_), b(b_), ntr(ntr_), nte(nte_), p(p_) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) { if (i.size()) return false; o.push_back(new CombinedTensor(b, w, h, 1)); t = o[0]; return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus* s) { st = s; return true; }
  void FeedForward() { LOG->push_back({FF, id, st->IsTesting()}); passes++; for (size_t e = 0; e < t->data.elements(); e++) tu::cpu(t->data).data_ptr()[e] = 0; if (mode) tests++; }
  void BackPropagate() { LOG->push_back({BP, id, st->IsTesting()}); }
  void SetTestingMode(bool m) { mode = m; switches.push_back(m); }
  unsigned int GetSamplesInTrainingSet() { return ntr; }
  unsigned int GetSamplesInTestingSet() { return nte; }
  unsigned int GetBatchSize() { return b; }
  datum GetLossSamplingProbability() { return p; }
  unsigned int GetLabelWidth() { return w; }
  unsigned int GetLabelHeight() { return h; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& bu) { bu.push_back(NetGraphBuffer()); }
  int id; unsigned w, h, b, ntr, nte; float p; bool mode = false; CombinedTensor* t = nullptr; const NetStatus* st = nullptr; size_t passes = 0, tests = 0;
  std::vector<bool> switches;
};
// passes data through; parameters receive scripted gradients in BackPropagate
struct Par : Layer {
  Par(int id_, std::vector<size_t> sz, uint64_t seed, double gs) : Layer(""), id(id_), script(seed), gscale(gs) { for (size_t n : sz) parameters_.push_back(new CombinedTensor(1, n, 1, 1)); }
  ~Par() { for (auto* p : parameters_) delete p; delete out; }
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) { if (i.size() != 1) return false; out = new CombinedTensor(i[0]->data.samples(), i[0]->data.width(), i[0]->data.height(), i[0]->data.maps()); o.push_back(out); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus* s) { st = s; return true; }
  static float grad(uint64_t script, size_t call, size_t p, size_t e, double gs) {
    Rng r(mix(script ^ mix(call * 1000003 + p * 1009 + e)));
    if (r.chance(0.08)) return 0.f;
    return (float)(r.real(-1, 1) * gs);
  }
  void FeedForward() { LOG->push_back({FF, id, st->IsTesting()}); }
  void BackPropagate() {
    LOG->push_back({BP, id, st->IsTesting()});
    for (size_t p = 0; p < parameters_.size(); p++) for (size_t e = 0; e < parameters_[p]->delta.elements(); e++) tu::cpu(parameters_[p]->delta).data_ptr()[e] = grad(script, calls, p, e, gscale);
    for (auto* p : parameters_) tu::scatter(*p);
    calls++;
  }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& bu) { bu.push_back(NetGraphBuffer()); }
  int id; uint64_t script; double gscale, llr = 1; size_t calls = 0; CombinedTensor* out = nullptr; const NetStatus* st = nullptr;
};
struct Loss : Layer, LossFunctionLayer {
  Loss(int id_, uint64_t s) : Layer(""), id(id_), seed(s) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>&) { return i.size() == 1; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus* s) { st = s; return true; }
  void FeedForward() { LOG->push_back({FF, id, st->IsTesting()}); n++; }
  void BackPropagate() { LOG->push_back({BP, id, st->IsTesting()}); }
  static double value(uint64_t seed, size_t n) { Rng r(mix(seed + n * 7919)); return (double)(float)r.real(0.1, 3); }
  datum CalculateLossFunction() { LOG->push_back({LOSS, id, st->IsTesting()}); return (datum)value(seed, n); }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>&) {}
  int id; uint64_t seed; size_t n = 0; const NetStatus* st = nullptr;
};
struct StatL : Layer, StatLayer {
  StatL() : Layer("") {}
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>&) { return i.size() == 1; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() { if (!dis) { seen++; } else hidden++; }
  void BackPropagate() {}
  void UpdateAll() { updates++; }
  void Print(std::string, bool tr) { prints.push_back(tr); }
  void Reset() {}
  void SetDisabled(bool d) { dis = d; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>&) {}
  bool dis = false; size_t seen = 0, hidden = 0, updates = 0; std::vector<bool> prints;
};
struct Sink : StatSink {
  void Initialize(std::vector<StatDescriptor*>& d) { desc = d; }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) { hc = h; last.clear(); for (auto* x : s) last.push_back(*x); n++; }
  void SetCurrentExperiment(std::string) {}
  const Stat* by(const std::string& name) { for (size_t i = 0; i < desc.size(); i++) if (desc[i]->description == name && i < last.size()) return &last[i]; return nullptr; }
  std::vector<StatDescriptor*> desc; std::vector<Stat> last; HardcodedStats hc; size_t n = 0;
};
static Sink* SINK;

// reference state of one parameter element
struct W { double w, last = 0, lastg = 0; bool live = true; };

static void one(Rng& r, int64_t i) {
  std::vector<Event> log; LOG = &log;
  bool qp = r.chance(0.35);
  TrainerSettings s;
  s.learning_rate = tu::rfloat(r, 0.001, 0.5); s.gamma = r.chance(0.2) ? 0 : tu::rfloat(r, 0, 0.1); s.exponent = r.chance(0.2) ? 0 : tu::rfloat(r, 0, 1.5);
  s.momentum = r.chance(0.25) ? 0 : tu::rfloat(r, 0, 0.95); s.l1_weight = r.chance(0.4) ? 0 : tu::rfloat(r, 0, 0.05); s.l2_weight = r.chance(0.4) ? 0 : tu::rfloat(r, 0, 0.05);
  s.mu = tu::rfloat(r, 1, 2); s.optimization_method = qp ? QUICKPROP : GRADIENT_DESCENT;
  s.sbatchsize = r.chance(0.4) ? 1 : r.chance(0.03) ? r.range(5, 20) : r.range(2, 4); s.stats_during_training = r.chance(0.5);
  unsigned W0 = r.range(1, 5), H0 = r.range(1, 5), B0 = r.big(1, 4, 30), ntr = r.chance(0.03) ? r.range(8, 60) : r.range(1, 7), nte = r.chance(0.03) ? r.range(10, 70) : r.range(0, 9); float lsp = r.chance(0.5) ? 1.0f : (float)tu::rfloat(r, 0.2, 1);
  s.iterations = r.chance(0.3) ? 0 : r.chance(0.03) ? r.range(8, 60) : r.range(1, 7); s.pbatchsize = B0;
  if (r.chance(0.4)) s.epoch_training_ratio = r.pick(std::vector<float>{0.5f, 0.25f, 2.0f, 0.75f});
  if (r.chance(0.3)) s.testing_ratio = r.pick(std::vector<float>{0.5f, 0.25f, 2.0f});
  Inp* in = new Inp(W0, H0, B0, ntr, nte, lsp);
  NetGraph net; std::vector<NetGraphNode*> nodes; NetGraphNode* n0 = new NetGraphNode(in); n0->is_input = true; net.AddNode(n0); nodes.push_back(n0);
  Inp* in2 = nullptr; if (r.chance(0.2)) { in2 = new Inp(W0, H0, B0, ntr, nte, lsp, 1000); NetGraphNode* n2 = new NetGraphNode(in2); n2->is_input = true; net.AddNode(n2); if (r.chance(0.5)) nodes.push_back(n2); }
  std::vector<Par*> pars; std::vector<Loss*> losses; std::vector<StatL*> stats;
  NetGraphNode* prev = n0; int id = 1;
  size_t np = r.range(1, 4); bool branch = r.chance(0.3);
  for (size_t k = 0; k < np; k++) {
    std::vector<size_t> sz; for (int q = (int)r.range(0, 2); q >= 0; q--) sz.push_back(r.chance(0.02) ? r.range(6, 300) : r.range(1, 5));
    if (r.chance(0.15)) sz.clear();
    Par* p = new Par(id++, sz, r.next(), qp ? 2.0 : 5.0 * W0 * H0 * B0); p->llr = r.chance(0.5) ? 1 : tu::rfloat(r, 0, 2); p->SetLocalLearningRate((float)p->llr);
    for (auto* t : p->parameters()) for (size_t e = 0; e < t->data.elements(); e++) { tu::cpu(t->data).data_ptr()[e] = r.chance(0.1) ? 0.f : (float)tu::rfloat(r, -1, 1); }
    NetGraphNode* n = new NetGraphNode(p, NetGraphConnection(branch ? r.pick(nodes) : prev)); net.AddNode(n); nodes.push_back(n); prev = n; pars.push_back(p);
  }
  prev->is_output = true;
  for (int q = (int)r.range(1, 3); q > 0; q--) { Loss* l = new Loss(id++, r.next()); net.AddNode(new NetGraphNode(l, NetGraphConnection(r.pick(nodes)))); losses.push_back(l); }
  for (int q = (int)r.range(0, 2); q > 0; q--) { StatL* l = new StatL(); net.AddNode(new NetGraphNode(l, NetGraphConnection(r.pick(nodes)))); stats.push_back(l); }
  net.Initialize();
  // scripted connections fan out: gradient buffers exist, their content does not matter here
  Trainer tr(net, s);
  double sc = (double)W0 * H0 * B0;
  note(fmt("%s %s, batch %u, labels %ux%u, sampling %g, training set %u, test set %u, it %u, etr %g, tr %g, stats %d, %zu parameter layers", qp ? "quickprop" : "gd", "", B0, W0, H0, lsp, ntr, nte, s.iterations, s.epoch_training_ratio, s.testing_ratio, (int)s.stats_during_training, np)
       + fmt(" lr %g g %g e %g m %g l1 %g l2 %g mu %g sb %u", s.learning_rate, s.gamma, s.exponent, s.momentum, s.l1_weight, s.l2_weight, s.mu, s.sbatchsize));
  std::vector<std::vector<std::vector<W>>> ref(pars.size());
  auto sync = [&](bool reset) { for (size_t k = 0; k < pars.size(); k++) { auto& P = pars[k]->parameters(); if (ref[k].empty()) ref[k].resize(P.size());
    for (size_t q = 0; q < P.size(); q++) { if (ref[k][q].empty()) { ref[k][q].resize(P[q]->data.elements()); for (size_t e = 0; e < ref[k][q].size(); e++) ref[k][q][e].w = tu::cpu(P[q]->data).data_ptr()[e]; }
      if (reset) for (auto& x : ref[k][q]) { x.last = x.lastg = 0; } } } };
  sync(true);
  bool first = true;
  unsigned epoch = 0;
  unsigned iters = s.iterations ? s.iterations : ntr; iters = (unsigned)((float)iters * s.epoch_training_ratio);
  size_t uncertain = 0; size_t cases[3] = {0, 0, 0}; bool unsure = false;
  std::vector<size_t> calls(pars.size(), 0); size_t lossn = 0;

  auto sim_iteration = [&](unsigned it) {
    double lr = (double)s.learning_rate * std::pow(1.0 + (double)s.gamma * it, -(double)s.exponent);
    for (size_t k = 0; k < pars.size(); k++) {
      for (size_t q = 0; q < ref[k].size(); q++) for (size_t e = 0; e < ref[k][q].size(); e++) {
        W& x = ref[k][q][e];
        double acc = 0; for (unsigned b = 0; b < s.sbatchsize; b++) acc += Par::grad(pars[k]->script, calls[k] + b, q, e, pars[k]->gscale);
        double llr = pars[k]->llr;
        double d = llr * (acc / (sc * s.sbatchsize) * lsp) + llr * (s.l2_weight * x.w + s.l1_weight * ((x.w > 0) - (x.w < 0)));
        if (std::fabs(x.w) < 1e-6 && x.w != 0 && s.l1_weight > 0) x.live = false;   // sign of the weight is decided by rounding
        if (!qp) { double st = lr * d + (double)s.momentum * x.last; x.w -= st; x.last = st; }
        else {
          auto sg = [](double v) { return (v > 0) - (v < 0); };
          double st;
          if (first) { st = -0.1 * d; first = false; }
          else if (std::fabs(d) <= 1e-15) { st = -d * lr; cases[2]++; }
          else {
            if (std::fabs(d) < 1e-6) x.live = false;
            double a = std::fabs(d), b = std::fabs((double)s.mu * (x.lastg - d)), quad;
            if (std::fabs(a - b) < 1e-4 * (a + b) || (std::fabs(x.last) < 1e-7 && x.last != 0) || (std::fabs(x.lastg - d) < 1e-5 * (std::fabs(d) + std::fabs(x.lastg)) && x.lastg != d) || (std::fabs(x.lastg) < 1e-7 && x.lastg != 0)) x.live = false;
            if (a < b && sg(x.last) != sg(x.lastg - d)) { cases[1]++; quad = x.last * d / (x.lastg - d); if (std::fabs(quad) > 5) x.live = false; }
            else { quad = (double)s.mu * x.last; cases[0]++; }
            st = sg(d) == sg(x.lastg) ? quad - lr * d : quad;
          }
          x.w += st; x.last = st; x.lastg = d;
          if (std::fabs(x.w) > 50) x.live = false;
          if (!x.live) unsure = true;
        }
      }
    }
    for (auto& c : calls) c += s.sbatchsize;
  };
  auto compare = [&](const char* when) {
    for (size_t k = 0; k < pars.size(); k++) for (size_t q = 0; q < ref[k].size(); q++) for (size_t e = 0; e < ref[k][q].size(); e++) {
      W& x = ref[k][q][e]; double got = tu::cpu(pars[k]->parameters()[q]->data).data_ptr()[e];
      if (!x.live) { uncertain++; continue; }
      count("weights compared");
      if (!vh::close(got, x.w, 1 + std::fabs(x.last) * 3, qp ? 2e-3 : 2e-4)) { fail(qp ? "quickprop-update" : "sgd-update", fmt("%s: layer %zu parameter %zu[%zu] is %.8g, update rule gives %.8g", when, k, q, e, got, x.w)); return false; }
    }
    return true;
  };
  auto check_trace = [&](unsigned its, bool training) {
    // expected: its x sb x (all layers FF, losses queried, all layers BP)
    size_t layers = 1 + (in2 ? 1 : 0) + pars.size() + losses.size(); size_t pos = 0; unsigned sb = training ? s.sbatchsize : 1;
    for (unsigned b = 0; b < its * sb; b++) {
      std::set<int> ff, bp; size_t ls = 0;
      auto step = [&]() { while (pos < log.size() && log[pos].e == FF && ff.size() < layers) { if (!ff.insert(log[pos].id).second) return false; if (log[pos].testing != !training) return false; pos++; } return ff.size() == layers; };
      if (!step()) { fail(training ? "trace" : "test-trace", fmt("pass %u: not one forward pass over all layers in %s mode", b, training ? "training" : "testing")); return false; }
      while (pos < log.size() && log[pos].e == LOSS) { ls++; pos++; }
      if (ls < losses.size()) { fail("trace-loss", fmt("loss queried %zu times after a forward pass, %zu loss layers", ls, losses.size())); return false; }
      if (training) {
        while (pos < log.size() && log[pos].e == BP && bp.size() < layers) { if (!bp.insert(log[pos].id).second) { fail("trace", "layer back-propagated twice"); return false; } pos++; }
        if (bp.size() < layers - (in2 ? 2 : 1)) { fail("trace", fmt("pass %u: incomplete backward pass (%zu of %zu layers)", b, bp.size(), layers)); return false; }
      }
      count("passes observed");
    }
    if (pos != log.size()) { fail(training ? "trace-extra" : "test-trace-extra", fmt("%zu more events than %u iterations of %u passes", log.size() - pos, its, sb)); return false; }
    return true;
  };
  // the reported throughput times the reported time is what was processed
  auto throughput = [&](double batches) {
    double sec = SINK->hc.seconds_elapsed; const Stat* px = SINK->by("Pixel Throughput"); const Stat* fr = SINK->by("Frame Rate"); count("throughputs compared");
    if (!px || px->is_null || !(sec > 0) || !vh::close(px->value * sec, sc * batches, sc * batches, 1e-9)) { fail("stat-throughput", fmt("%.9g pixels reported in %g s, %.9g processed", px ? px->value * sec : -1, sec, sc * batches)); return false; }
    if (!fr || fr->is_null || !vh::close(fr->value * sec, B0 * batches, B0 * batches, 1e-9)) { fail("stat-throughput", fmt("%.9g images reported in %g s, %.9g processed", fr ? fr->value * sec : -1, sec, B0 * batches)); return false; }
    return true; };
  int ops = (int)r.range(1, 4); unsigned done_train_epochs = 0;
  StatAggregator& sa = *System::stat_aggregator;
  for (int o = 0; o < ops; o++) {
    int k = (int)r.range(0, 9); log.clear();
    for (auto* x : stats) { x->seen = x->hidden = x->updates = 0; x->prints.clear(); }
    in->switches.clear(); if (in2) in2->tests = 0;
    if (k < 6) {
      unsigned ep = r.chance(0.05) ? 0 : r.range(1, 2); bool snap = r.chance(0.4);
      if (!snap) { sa.StopRecording(); sa.Reset(); sa.StartRecording(); } else sa.Snapshot();
      size_t before = SINK->n; unsigned e0 = epoch; cases[0] = cases[1] = cases[2] = 0;
      size_t firstloss = lossn;
      if (ep && r.chance(0.1)) { in->mode = true; if (in2) in2->mode = true; count("trainings of inputs left in testing mode"); }   // by whoever used them last
      tr.Train(ep, snap);
      count("epochs trained", ep);
      if (!check_trace(iters * ep, true)) return;
      for (unsigned q = 0; q < ep; q++) { if (snap) cases[0] = cases[1] = cases[2] = 0; for (unsigned it = 0; it < iters; it++) sim_iteration(epoch * iters + it); epoch++; }
      lossn += (size_t)ep * iters * s.sbatchsize;
      if (tr.epoch() != epoch) { fail("epoch-counter", fmt("epoch() is %u after epoch %u", tr.epoch(), epoch)); return; }
      if (!compare("after training")) return;
      if (in->mode || (in2 && (in2->mode || in2->tests))) { fail("testing-mode", "training ran in testing mode"); return; }
      for (auto* x : stats) {
        size_t passes = (size_t)ep * iters * s.sbatchsize;
        if (x->dis) { fail("stat-enable", "statistics layers stay disabled after training"); return; }
        if (s.stats_during_training ? x->hidden || x->seen != passes : x->seen || x->hidden != passes) { fail("stat-during-training", fmt("statistics layer saw %zu of %zu training passes, stats_during_training=%d", x->seen, passes, (int)s.stats_during_training)); return; }
        if (s.stats_during_training ? x->updates != ep || x->prints != std::vector<bool>(ep, true) : x->updates || x->prints.size()) { fail("stat-print", "statistics reported the wrong number of times in training"); return; }
      }
      // the reported statistics
      if (snap && SINK->n != before + ep) { fail("snapshots", fmt("%zu snapshots for %u epochs", SINK->n - before, ep)); return; }
      if (!snap) { sa.StopRecording(); sa.Generate(); sa.Reset(); sa.StartRecording(); }
      if (ep == 0) { count("training for no epoch"); continue; }
      unsigned span = snap ? 1 : ep;
      if (!throughput((double)span * iters * s.sbatchsize)) return;
      const Stat* al = SINK->by("Average Aggregate Loss");
      double sum = 0; size_t from = firstloss + (size_t)(ep - span) * iters * s.sbatchsize;
      for (size_t p = from; p < lossn; p++) for (auto* l : losses) sum += Loss::value(l->seed, p + 1);
      count("reported losses compared");
      if (SINK->hc.iterations != (unsigned long)span * iters) { fail("stat-iterations", fmt("%lu iterations reported, %u done", SINK->hc.iterations, span * iters)); return; }
      if (SINK->hc.epoch != epoch - 1) { fail("stat-epoch", fmt("epoch %lu reported, %u done", SINK->hc.epoch, epoch - 1)); return; }
      if (!SINK->hc.is_training) { fail("stat-training", "training epoch reported as testing"); return; }
      if (iters) {
        double want = sum / (lsp * sc * s.sbatchsize) / (span * iters);
        if (!al || al->is_null || !vh::close(al->value, want, want, 1e-3)) { fail("stat-loss", fmt("average loss reported %.8g, losses per pixel %.8g", al ? al->value : -1, want)); return; }
        for (const char* c : {"A", "B", "C"}) { const Stat* x = SINK->by(std::string("QuickProp Case ") + c + " Percentage"); if (!x || (!qp && !x->is_null)) { fail("stat-quickprop", "QuickProp statistics are reported without QuickProp"); return; } }
        if (qp) {
          double tot = 0; unsigned long wc = 0; for (auto* p : pars) for (auto* t : p->parameters()) wc += t->data.elements();
          if (SINK->hc.weights != wc) { fail("stat-weights", fmt("%lu weights reported, the network has %lu", SINK->hc.weights, wc)); return; }
          for (const char* c : {"A", "B", "C"}) { const Stat* x = SINK->by(std::string("QuickProp Case ") + c + " Percentage"); if (x && !x->is_null) tot += x->value; }
          if (wc && !unsure) { const char* nm = "ABC"; for (int c = 0; c < 3; c++) { const Stat* x = SINK->by(std::string("QuickProp Case ") + nm[c] + " Percentage"); double want = 100.0 * cases[c] / ((double)wc * span * iters);
            count("quickprop case rates compared"); if (!x || x->is_null || std::fabs(x->value - want) > 1e-6) { fail("stat-quickprop-case", fmt("case %c reported as %g%%, %g%% of the updates were", nm[c], x ? x->value : -1, want)); return; } }
            const Stat* x = SINK->by("QuickProp Case M Percentage"); if (x && !x->is_null && x->value != 0) { fail("stat-quickprop-case", "case M reported"); return; } }
          if (tot > 100.001 || (wc && tot < 99.999 - 100.0 / (wc * span * iters))) { fail("stat-quickprop", fmt("case percentages add up to %g", tot)); return; }
        }
      }
      done_train_epochs += ep; (void)e0;
    } else if (k < 9) {
      sa.StopRecording(); sa.Reset(); sa.StartRecording();
      std::vector<std::vector<float>> before; for (auto* p : pars) for (auto* t : p->parameters()) before.push_back(std::vector<float>(tu::cpu(t->data).data_ptr(), tu::cpu(t->data).data_ptr() + t->data.elements()));
      in->tests = 0; size_t first_loss = lossn;
      tr.Test();
      count("test runs");
      unsigned full = nte / B0 + 1, its = (unsigned)((float)full * s.testing_ratio);
      if (!check_trace(its, false)) return;
      lossn += its;
      if (in->tests != its || (in2 && in2->tests != its)) { fail("test-mode", fmt("%zu of %u test passes in testing mode", in->tests, its)); return; }
      if (in->mode || (in2 && in2->mode)) { fail("test-mode-left", "input stays in testing mode after a test"); return; }
      size_t q = 0; for (auto* p : pars) for (auto* t : p->parameters()) { if (before[q] != std::vector<float>(tu::cpu(t->data).data_ptr(), tu::cpu(t->data).data_ptr() + t->data.elements())) { fail("test-changes-weights", "testing changed the parameters"); return; } q++; }
      for (auto* x : stats) if (x->seen != its || x->hidden || x->updates != 1 || x->prints != std::vector<bool>(1, false)) { fail("stat-testing", fmt("statistics layer saw %zu of %u test passes, reported %zu times", x->seen, its, x->prints.size())); return; }
      sa.StopRecording(); sa.Generate(); sa.Reset(); sa.StartRecording();
      double sum = 0; for (size_t p = first_loss; p < lossn; p++) for (auto* l : losses) sum += Loss::value(l->seed, p + 1);
      const Stat* al = SINK->by("Average Aggregate Loss");
      if (!throughput(its)) return;
      if (SINK->hc.is_training) { fail("stat-training", "test reported as training"); return; }
      if (its) { double want = sum / sc / its; if (!al || al->is_null || !vh::close(al->value, want, want, 1e-3)) { fail("stat-loss", fmt("test: average loss reported %.8g, losses per pixel %.8g", al ? al->value : -1, want)); return; } }
      else if (al && !al->is_null) { fail("stat-loss-null", "loss reported without any iteration"); return; }
    } else {
      unsigned e = r.chance(0.3) ? 0 : r.range(0, 20);
      if (r.chance(0.3)) { tr.Reset(); } else { tr.SetEpoch(e); epoch = e; }
      sync(true); first = true;
      if (tr.epoch() != epoch) { fail("epoch-counter", "SetEpoch has no effect"); return; }
      count("trainer resets");
    }
  }
  if (uncertain) count("elements skipped near a branch boundary", uncertain);
  if (done_train_epochs && iters) { nontrivial(G().note); count(qp ? "quickprop histories" : "gradient descent histories"); }
  if (i < 6) sample(G().note);
  for (auto* p : pars) { p->parameters().size(); delete p; }
  for (auto* n : net.GetNodes()) delete n;
  delete in->t; delete in; if (in2) { delete in2->t; delete in2; } for (auto* l : losses) delete l; for (auto* l : stats) delete l;
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, "c10_trainer", one, [] {
    tu::init(); SINK = new Sink; System::stat_aggregator->RegisterSink(SINK);
    // the trainer registers its statistics on first use
    std::vector<Event> l; LOG = &l; NetGraph g; Inp in(1, 1, 1, 1, 1, 1); NetGraphNode n(&in); n.is_input = true; g.AddNode(&n); Loss lo(1, 1); NetGraphNode m(&lo, NetGraphConnection(&n)); m.is_output = true; g.AddNode(&m); g.Initialize();
    TrainerSettings s; Trainer t(g, s); System::stat_aggregator->Initialize(); System::stat_aggregator->StartRecording(); });
}
