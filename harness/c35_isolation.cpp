// C35: objects that share nothing do not influence one another.  Two or three
// actors (networks, trainings, layers, tensors, streams, data sets, images,
// loaded settings), each deterministic by its own seed, are run alone, one
// after the other, and then again in one interleaved history in which some are
// destroyed early and some late; everything an actor observes must be bit for
// bit what it observed alone.
#include "replay.h"
#include "img.h"
#include "InputLayer.h"
#include "CompressedTensor.h"
#include "CompressedTensorStream.h"
#include "GradientTester.h"
#include "../private/Segmentation.h"
#include <sys/wait.h>
using namespace vh; using namespace Conv; using tu::M4; using nd::V; using rp::Replay; using rp::enc; using rp::encf;

struct Actor {
  std::string kind, dir; Rng r, v;   // r decides the structure, v the values
  std::vector<std::pair<std::string, uint64_t>> log; std::vector<std::function<void()>> steps; std::function<void()> end = [] {}; size_t at = 0; bool dead = false;
  Actor(const std::string& k, const std::string& d, uint64_t s, uint64_t salt) : kind(k), dir(d), r(s), v(mix(s) ^ salt) {}
  void say(const std::string& what, const std::string& bytes) { log.push_back({what, hash_str(bytes)}); }
  void say(const std::string& what, const Tensor& t) { say(what, encf(t)); }
  void say(const std::string& what, double v) { say(what, std::string((char*)&v, 8)); }
  bool step() {
    if (dead || at >= steps.size()) return false;
    try { steps[at](); } catch (std::runtime_error& e) { say("refused", e.what()); }
    at++; return at < steps.size();
  }
  void finish() { if (!dead) { dead = true; end(); } }
};
typedef std::shared_ptr<Actor> A;

static void free_graph(NetGraph& g) { for (NetGraphNode* k : g.GetNodes()) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; } }
static nd::Net simple_net(Rng& r, bool training, bool dropout = false) {
  nd::Net n; for (;;) { n = nd::generate(r); bool drop = false; for (auto& q : n.st) drop |= q.drop > 0; if ((drop && !dropout) || n.rx < 0 || n.ry < 0 || 64 % n.fx || 64 % n.fy || n.rx > 40 || n.ry > 40) continue; if (training && n.classes == 1 && n.st.back().op != nd::OUT) continue; size_t e = 0; for (auto& q : n.shape) e += q.n(); if (e > 1500) continue; break; }
  return n;
}

// a network over tensors of its own: passes, parameter updates, saving and loading
static A network(const std::string& dir, uint64_t seed, uint64_t salt) {
  A a = std::make_shared<Actor>("network", dir, seed, salt); Actor* p = a.get();
  struct S { nd::Net n; std::unique_ptr<std::istringstream> ss; std::unique_ptr<ConfigurableFactory> f; std::unique_ptr<NetGraph> g; Tensor d, l, h, w; NetGraphNode* in = nullptr; bool ok = false; std::vector<std::string> saved; };
  auto s = std::make_shared<S>();
  a->steps.push_back([=] {
    Rng& r = p->r; s->n = simple_net(r, true, true); s->ss.reset(new std::istringstream(s->n.text)); srand((unsigned)r.next());
    s->f.reset(new ConfigurableFactory(*s->ss, 8347734, false)); s->g.reset(new NetGraph());
    int W = s->n.fx * (int)r.range(1, 3), H = s->n.fy * (int)r.range(1, 3), N = (int)r.range(1, 2), lc = s->n.classes;
    tu::write(s->d, tu::random(p->v, N, W, H, s->n.in_maps)); tu::write(s->l, tu::random(p->v, N, W, H, lc)); tu::write(s->h, tu::random(p->v, N, W, H, 2)); tu::write(s->w, tu::random(p->v, N, W, H, 1, 0, 2));
    Tensor* d = new Tensor; tu::write(*d, tu::read(s->d)); Tensor* l = new Tensor; tu::write(*l, tu::read(s->l)); Tensor* h = new Tensor; tu::write(*h, tu::read(s->h)); Tensor* w = new Tensor; tu::write(*w, tu::read(s->w));
    s->in = new NetGraphNode(new InputLayer(*d, *l, *h, *w)); s->in->is_input = true; s->g->AddNode(s->in);
    if (!s->f->AddLayers(*s->g, NetGraphConnection(s->in), lc, true)) { p->say("incomplete", ""); return; }
    for (NetGraphNode* k : s->g->GetNodes()) if (k != s->in) k->layer->SetBackpropagationEnabled(true);
    bool drop = false; for (auto& q : s->n.st) drop |= q.drop > 0; s->g->SetIsTesting(drop || r.chance(0.3)); s->g->Initialize(); srand((unsigned)p->v.next()); s->g->InitializeWeights(); s->ok = true;
    p->say("complete", s->g->IsComplete()); std::vector<CombinedTensor*> ps; s->g->GetParameters(ps); for (auto* t : ps) p->say("initial parameters", t->data);
    count("networks built");
  });
  auto fwd = [=] { if (!s->ok) return; s->g->FeedForward(); for (NetGraphNode* k : s->g->GetNodes()) for (auto& b : k->output_buffers) p->say("output of " + b.description, b.combined_tensor->data); p->say("loss", s->g->AggregateLoss()); };
  auto bwd = [=] { if (!s->ok) return; s->g->BackPropagate(); std::vector<CombinedTensor*> ps; s->g->GetParameters(ps); for (auto* t : ps) p->say("gradient", t->delta); };
  int n = (int)a->r.range(3, 8);
  a->steps.push_back(fwd);
  for (int k = 0; k < n; k++) switch (a->r.range(0, 7)) {
    case 0: case 1: a->steps.push_back(fwd); a->steps.push_back(bwd); break;
    case 2: a->steps.push_back([=] { fwd(); bwd(); }); break;
    case 3: a->steps.push_back([=] { if (!s->ok) return; std::vector<CombinedTensor*> ps; s->g->GetParameters(ps); for (auto* t : ps) for (size_t e = 0; e < t->data.elements(); e++) t->data.data_ptr()[e] += (float)p->v.real(-0.3, 0.3); }); a->steps.push_back(fwd); break;
    case 4: a->steps.push_back([=] { if (!s->ok) return; Tensor& t = s->in->output_buffers[0].combined_tensor->data; for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = (float)p->v.real(-1, 1); }); a->steps.push_back(fwd); a->steps.push_back(bwd); break;
    case 5: a->steps.push_back([=] { if (!s->ok) return; std::ostringstream o; s->g->SerializeParameters(o); s->saved.push_back(o.str()); p->say("saved parameters", o.str()); }); break;
    case 6: a->steps.push_back([=] { if (!s->ok || s->saved.empty()) return; std::istringstream i(s->saved[p->r.range(0, (int)s->saved.size() - 1)]); s->g->DeserializeParameters(i, (unsigned)p->r.range(0, 2)); }); a->steps.push_back(fwd); break;
    default: a->steps.push_back([=] { if (!s->ok) return; s->g->SetIsTesting(p->r.chance(0.5)); }); a->steps.push_back(fwd);
  }
  a->end = [=] { if (s->g) { free_graph(*s->g); s->g.reset(); } };
  return a;
}

// what a training session does, through the library
static A training(const std::string& dir, uint64_t seed, uint64_t salt) {
  A a = std::make_shared<Actor>("training", dir, seed, salt); Actor* p = a.get();
  struct S { nd::Net n; std::unique_ptr<Replay> R; int nte = 0; };
  auto s = std::make_shared<S>();
  auto params = [=] { if (s->R && s->R->ok) { p->say("parameters", s->R->params()); p->say("epoch", s->R->tr->epoch()); } };
  a->steps.push_back([=] {
    Rng& r = p->r; nd::Net& n = s->n; n = simple_net(r, true);
    std::string head = fmt("iterations=%d\npbatchsize=%d\nsbatchsize=%d\nlr=%g\n", (int)r.range(1, 2), (int)r.range(1, 2), (int)r.range(1, 2), r.pick(std::vector<double>{0.01, 0.1, 0.5}));
    if (r.chance(0.5)) head += "momentum=0.9\n"; if (r.chance(0.5)) head += "l2=0.001\n"; if (r.chance(0.3)) head += "l1=0.001\n"; if (r.chance(0.3)) head += "gamma=0.01\nexponent=0.75\n"; if (r.chance(0.3)) head += "optimization=quickprop\nmu=1.75\n";
    n.text = n.text + (n.text.back() == '\n' ? "" : "\n") + head;
    std::string cfg = fmt("classes=%d\n", n.classes); for (int c = 0; c < n.classes; c++) cfg += fmt("c%d\n", c); cfg += "colors\n"; for (int c = 0; c < n.classes; c++) cfg += fmt("0x%06X\n", c * 77 + 1);
    if (r.chance(0.4)) { cfg += "weights\n"; for (int c = 0; c < n.classes; c++) cfg += fmt("%g\n", 0.5 * r.range(1, 6)); }
    int mw = n.patch ? n.rx + n.fx : 1, mh = n.patch ? n.ry + n.fy : 1;
    auto mk = [&](int k) { std::string b; for (int q = 0; q < k; q++) { size_t w = r.range(mw, mw + 5), h = r.range(mh, mh + 5); M4 im = tu::random(p->v, 1, w, h, n.in_maps), l(1, w, h, n.classes);
        for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (n.classes == 1) l.at(x, y, 0, 0) = p->v.chance(0.5) ? 1 : -1; else l.at(x, y, p->v.range(0, n.classes - 1), 0) = 1; } b += enc(im) + enc(l); } return b; };
    tu::spew(p->dir + ".tr", mk((int)r.range(1, 2))); cfg += "training=" + p->dir + ".tr\n"; s->nte = (int)r.range(0, 2); if (s->nte) { tu::spew(p->dir + ".te", mk(s->nte)); cfg += "testing=" + p->dir + ".te\n"; }
    tu::spew(p->dir + ".set", cfg); srand((unsigned)p->v.next());
    s->R.reset(new Replay(n, p->dir + ".set")); params(); count("trainings set up");
  });
  int n = (int)a->r.range(2, 4);
  for (int k = 0; k < n; k++) switch (a->r.range(0, 6)) {
    case 0: a->steps.push_back([=] { if (!s->R->ok) return; std::string b = s->R->params(); std::istringstream i(b); s->R->tr->Reset(); s->R->g.DeserializeParameters(i, 0); params(); }); break;
    case 1: a->steps.push_back([=] { if (s->R->ok) s->R->tr->SetEpoch((unsigned)p->r.range(0, 9)); }); break;
    case 2: a->steps.push_back([=] { if (!s->R->ok) return; s->R->tr->SetStatsDuringTraining(p->r.chance(0.5)); }); break;
    case 3: a->steps.push_back([=] { if (s->R->ok && s->nte && !s->n.patch) { s->R->tr->Test(); params(); } }); break;
    default: a->steps.push_back([=] { if (!s->R->ok) return; s->R->tr->Train(1, false); params(); count("training epochs"); });
  }
  a->steps.push_back([=] { if (!s->R->ok) return; s->R->tr->Train(1, false); params(); count("training epochs"); });
  a->end = [=] { s->R.reset(); };
  return a;
}

// one layer on its own
static A layer(const std::string& dir, uint64_t seed, uint64_t salt) {
  A a = std::make_shared<Actor>("layer", dir, seed, salt); Actor* p = a.get();
  struct S { ly::Case c; std::unique_ptr<ly::Inst> I; bool ok = false; };
  auto s = std::make_shared<S>();
  auto fwd = [=] { if (!s->ok) return; s->I->layer->FeedForward(); for (auto* o : s->I->out) p->say("output of " + s->c.kind, o->data); };
  auto fill = [=] { if (!s->ok) return; ly::refill(p->v, s->c); s->I->load(s->c); };
  a->steps.push_back([=] { s->c = ly::any(p->r, 6); s->I.reset(new ly::Inst); std::string why; s->ok = s->I->connect(s->c, why); p->say("connected", s->ok); if (s->ok) { ly::refill(p->v, s->c); s->I->load(s->c); } count("layers run"); });
  a->steps.push_back(fwd);
  int n = (int)a->r.range(2, 6);
  for (int k = 0; k < n; k++) switch (a->r.range(0, 3)) {
    case 0: a->steps.push_back(fill); a->steps.push_back(fwd); break;
    case 1: a->steps.push_back(fwd); break;
    default: a->steps.push_back([=] { fill(); fwd(); }); a->steps.push_back([=] {
      if (!s->ok || !s->c.has_bwd) return; for (auto* o : s->I->out) for (size_t e = 0; e < o->delta.elements(); e++) o->delta.data_ptr()[e] = (float)p->v.real(-1, 1); for (auto* t : s->I->in) t->delta.Clear(0);
      s->I->layer->BackPropagate(); for (auto* t : s->I->in) p->say("input gradient of " + s->c.kind, t->delta); for (auto* t : s->I->layer->parameters()) p->say("parameter gradient of " + s->c.kind, t->delta); });
  }
  a->end = [=] { s->I.reset(); };
  return a;
}

// tensors of its own: copies, shadows, files, compression
static A tensors(const std::string& dir, uint64_t seed, uint64_t salt) {
  A a = std::make_shared<Actor>("tensors", dir, seed, salt); Actor* p = a.get();
  struct S { std::unique_ptr<Tensor> t[3]; CompressedTensor c; size_t w, h, m; bool packed = false; };
  auto s = std::make_shared<S>();
  auto all = [=](const char* w) { for (auto& t : s->t) p->say(w, *t); };
  a->steps.push_back([=] { s->w = p->r.range(1, 9); s->h = p->r.range(1, 9); s->m = p->r.range(1, 4); for (auto& t : s->t) { t.reset(new Tensor); tu::write(*t, tu::random(p->v, p->r.range(1, 3), s->w, s->h, s->m)); if (p->r.chance(0.5)) for (size_t e = 0; e < t->elements(); e++) t->data_ptr()[e] = p->v.chance(0.8) ? 0.25f : 1.f; } all("tensor"); count("tensor histories"); });
  int n = (int)a->r.range(4, 12);
  for (int k = 0; k < n; k++) switch (a->r.range(0, 8)) {
    case 0: a->steps.push_back([=] { Tensor &x = *s->t[0], &y = *s->t[1]; p->say("copied", Tensor::CopySample(x, p->r.range(0, x.samples() - 1), y, p->r.range(0, y.samples() - 1))); all("after CopySample"); }); break;
    case 1: a->steps.push_back([=] { Tensor &x = *s->t[1], &y = *s->t[2]; p->say("copied", Tensor::CopyMap(x, p->r.range(0, x.samples() - 1), p->r.range(0, s->m - 1), y, p->r.range(0, y.samples() - 1), p->r.range(0, s->m - 1))); all("after CopyMap"); }); break;
    case 2: a->steps.push_back([=] { s->t[0]->Clear((float)p->v.real(-1, 1), (int)p->r.range(-1, (int)s->t[0]->samples() - 1)); all("after Clear"); }); break;
    case 3: a->steps.push_back([=] { std::string f = p->dir + ".Tensor"; { std::ofstream o(f, std::ios::binary); s->t[1]->Serialize(o); } p->say("file", tu::slurp(f)); }); a->steps.push_back([=] { std::ifstream i(p->dir + ".Tensor", std::ios::binary); if (!i) return; s->t[2]->Deserialize(i); all("after Deserialize"); }); break;
    case 4: a->steps.push_back([=] { s->c.Compress(*s->t[0]); s->packed = true; std::ostringstream o; s->c.Serialize(o); p->say("compressed", o.str()); }); break;
    case 5: a->steps.push_back([=] { if (s->packed) { s->c.Decompress(*s->t[2]); all("after Decompress"); } }); break;
    case 6: a->steps.push_back([=] { Tensor c(*s->t[0], true); p->say("copy", c); Tensor m(std::move(c)); p->say("moved", m); }); break;
    case 7: a->steps.push_back([=] { size_t q = p->r.range(1, 3); s->t[1]->Resize(q, s->w, s->h, s->m); for (size_t e = 0; e < s->t[1]->elements(); e++) s->t[1]->data_ptr()[e] = (float)e; all("after Resize"); }); break;
    default: a->steps.push_back([=] { Tensor d, h; int px = (int)p->r.range(1, s->w), py = (int)p->r.range(1, s->h); Segmentation::ExtractPatches(px, py, d, h, *s->t[0], (int)p->r.range(0, s->t[0]->samples() - 1), p->r.chance(0.5)); p->say("patches", d); p->say("patch positions", h); });
  }
  a->end = [=] { for (auto& t : s->t) t.reset(); };
  return a;
}

// a stream of stored tensors
static A stream(const std::string& dir, uint64_t seed, uint64_t salt) {
  A a = std::make_shared<Actor>("stream", dir, seed, salt); Actor* p = a.get();
  struct S { std::unique_ptr<TensorStream> t; int kind; std::vector<unsigned> cols; std::string desc; };
  auto s = std::make_shared<S>();
  a->steps.push_back([=] {
    Rng& r = p->r; s->kind = (int)r.range(0, 2); int n = (int)r.range(1, 4); std::string f = p->dir + ".S"; s->desc = f;
    if (s->kind < 2) {
      std::ofstream o(f, std::ios::binary); if (s->kind) { uint64_t m = CN24_CTS_MAGIC; o.write((char*)&m, 8); }
      for (int k = 0; k < n; k++) { Tensor t; M4 m = tu::random(p->v, r.range(1, 2), r.range(1, 9), r.range(1, 9), r.range(1, 4)); if (r.chance(0.5)) for (auto& v : m.d) v = p->v.chance(0.8) ? 0 : 1; tu::write(t, m); if (s->kind) { CompressedTensor c; c.Compress(t); c.Serialize(o); } else t.Serialize(o); }
    } else {
      for (int c = 0; c < (int)r.range(1, 3); c++) s->cols.push_back((unsigned)p->v.range(0, 0xffffff)); std::string il, ll; size_t w = r.range(1, 9), h = r.range(1, 9);
      for (int k = 0; k < n; k++) { im::Img m = im::noise(p->v, w, h, 3, 8), l = im::noise(p->v, w, h, 3, 8); for (size_t q = 0; q < w * h; q++) { unsigned c = p->v.pick(s->cols); for (int z = 0; z < 3; z++) l.v[q * 3 + z] = c >> (16 - 8 * z) & 255; }
        std::string a1 = p->dir + fmt(".i%d.png", k), a2 = p->dir + fmt(".l%d.png", k); tu::spew(a1, im::png(r, m, PNG_COLOR_TYPE_RGB, false)); tu::spew(a2, im::png(r, l, PNG_COLOR_TYPE_RGB, false)); il += a1.substr(a1.rfind('/') + 1) + "\n"; ll += a2.substr(a2.rfind('/') + 1) + "\n"; }
      tu::spew(f + "i", il); tu::spew(f + "l", ll); std::string base = p->dir.substr(0, p->dir.rfind('/')); s->desc = "list:" + f + "i;" + base + ";" + f + "l;" + base;
    }
  });
  a->steps.push_back([=] { s->t.reset(TensorStream::FromFile(s->desc, s->cols)); p->say("tensors", s->t->GetTensorCount()); for (unsigned k = 0; k < s->t->GetTensorCount(); k++) p->say("dimensions", fmt("%zu %zu %zu %zu", s->t->GetSamples(k), s->t->GetWidth(k), s->t->GetHeight(k), s->t->GetMaps(k))); count("streams opened"); });
  int n = (int)a->r.range(2, 8);
  for (int k = 0; k < n; k++) a->steps.push_back([=] {
    if (!s->t || !s->t->GetTensorCount()) return; unsigned q = (unsigned)p->r.range(0, s->t->GetTensorCount() - 1);
    Tensor t(2, s->t->GetWidth(q) + p->r.range(0, 3), s->t->GetHeight(q) + p->r.range(0, 3), s->t->GetMaps(q)); t.Clear(0.5); p->say("served", s->t->CopySample(q, 0, t, p->r.range(0, 1))); p->say("sample", t); count("stream samples served");
  });
  a->end = [=] { s->t.reset(); };
  return a;
}

// a data set of its own
static A dataset(const std::string& dir, uint64_t seed, uint64_t salt) {
  A a = std::make_shared<Actor>("data set", dir, seed, salt); Actor* p = a.get();
  struct S { TensorStreamDataset* f = nullptr; TensorStreamPatchDataset* q = nullptr; Dataset* d = nullptr; unsigned pw, ph, classes; bool patch; };
  auto s = std::make_shared<S>();
  a->steps.push_back([=] {
    Rng& r = p->r; s->patch = r.chance(0.5); s->classes = (unsigned)r.range(1, 4); unsigned maps = (unsigned)r.range(1, 3); s->pw = (unsigned)r.range(1, 4); s->ph = (unsigned)r.range(1, 4); bool comp = !s->patch && r.chance(0.3);
    std::string cfg = fmt("classes=%u\n", s->classes); for (unsigned c = 0; c < s->classes; c++) cfg += fmt("k%u\n", (unsigned)p->v.range(0, 99)); cfg += "colors\n"; for (unsigned c = 0; c < s->classes; c++) cfg += fmt("0x%06X\n", (unsigned)p->v.range(0, 0xffffff));
    if (r.chance(0.5)) { cfg += "weights\n"; for (unsigned c = 0; c < s->classes; c++) cfg += fmt("%g\n", 0.5 * p->v.range(0, 6)); }
    if (r.chance(0.3)) cfg += "localized_error=kitti\n"; if (r.chance(0.3)) cfg += "nommap\n";
    for (int z = 0; z < 2; z++) { std::string f = p->dir + (z ? ".te" : ".tr"); std::ofstream o(f, std::ios::binary); if (comp) { uint64_t m = CN24_CTS_MAGIC; o.write((char*)&m, 8); }
      for (int k = (int)r.range(1, 3); k > 0; k--) { size_t w = r.range(s->pw, s->pw + 8), h = r.range(s->ph, s->ph + 8); M4 im = tu::random(p->v, 1, w, h, maps), l(1, w, h, s->classes); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) l.at(x, y, p->v.range(0, s->classes - 1), 0) = 1;
        for (M4* m : {&im, &l}) { Tensor t; tu::write(t, *m); if (comp) { CompressedTensor c; c.Compress(t); c.Serialize(o); } else t.Serialize(o); } }
      cfg += (z ? "testing=" : "training=") + f + "\n"; }
    tu::spew(p->dir + ".set", cfg);
  });
  a->steps.push_back([=] {
    std::ifstream c(p->dir + ".set"); if (s->patch) s->d = s->q = (TensorStreamPatchDataset*)TensorStreamPatchDataset::CreateFromConfiguration(c, false, LOAD_BOTH, s->pw, s->ph); else s->d = s->f = TensorStreamDataset::CreateFromConfiguration(c, false, LOAD_BOTH);
    std::string t = fmt("%u %u %u %u %u %u %u", s->d->GetWidth(), s->d->GetHeight(), s->d->GetInputMaps(), s->d->GetLabelMaps(), s->d->GetClasses(), s->d->GetTrainingSamples(), s->d->GetTestingSamples()); for (auto& n : s->d->GetClassNames()) t += n; for (auto n : s->d->GetClassColors()) t += fmt(" %x", n); for (auto n : s->d->GetClassWeights()) t += fmt(" %g", n); p->say("description", t); count("data sets created"); });
  int n = (int)a->r.range(2, 8);
  for (int k = 0; k < n; k++) a->steps.push_back([=] {
    if (!s->d) return; Rng& r = p->r;
    if (r.chance(0.15)) { Tensor o(1, 3, 2, s->classes), t(1, 3, 2, 3); for (size_t e = 0; e < o.elements(); e++) o.data_ptr()[e] = (float)p->v.real(-1, 1); s->d->Colorize(o, t); p->say("colours", t); return; }
    bool te = r.chance(0.4); unsigned tot = te ? s->d->GetTestingSamples() : s->d->GetTrainingSamples(); if (!tot) return; unsigned W = s->d->GetWidth(), H = s->d->GetHeight(), lw = s->patch ? 1 : W, lh = s->patch ? 1 : H;
    Tensor d(2, W, H, s->d->GetInputMaps()), l(2, lw, lh, s->d->GetLabelMaps()), h(2, lw, lh, 2), w(2, lw, lh, 1); d.Clear(); l.Clear(); h.Clear(); w.Clear(); unsigned q = (unsigned)r.range(0, tot - 1), z = (unsigned)r.range(0, 1);
    p->say("served", te ? s->d->GetTestingSample(d, l, h, w, z, q) : s->d->GetTrainingSample(d, l, h, w, z, q)); p->say("image", d); p->say("label", l); p->say("position", h); p->say("weight", w); count("data set samples served"); });
  a->end = [=] { delete s->f; delete s->q; s->f = nullptr; s->q = nullptr; s->d = nullptr; };
  return a;
}

// images
static A images(const std::string& dir, uint64_t seed, uint64_t salt) {
  A a = std::make_shared<Actor>("images", dir, seed, salt); Actor* p = a.get(); auto t = std::make_shared<Tensor>();
  int n = (int)a->r.range(2, 6);
  a->steps.push_back([=] { tu::write(*t, tu::random(p->v, 1, p->r.range(1, 12), p->r.range(1, 12), 3, 0, 1)); });
  for (int k = 0; k < n; k++) switch (a->r.range(0, 3)) {
    case 0: a->steps.push_back([=] { std::ostringstream o; p->say("written", PNGUtil::WriteToStream(o, *t)); im::Img m; p->say("readable", im::unpng(o.str(), m)); std::string v; for (unsigned q : m.v) v += (char)q; p->say("png pixels", v); }); break;
    case 1: a->steps.push_back([=] { im::Img m = im::noise(p->v, p->r.range(1, 12), p->r.range(1, 12), 3, 8); if (p->r.chance(0.3)) { m.c = 1; m.v.resize(m.w * m.h); } std::string b = im::png(p->r, m, m.c == 1 ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB); if (p->r.chance(0.2)) b.resize(b.size() / 2); std::istringstream i(b); Tensor u; bool ok = PNGUtil::LoadFromStream(i, u); p->say("loaded", ok); if (ok) { p->say("image", u); if (u.maps() == 3) tu::write(*t, tu::read(u)); } }); break;
    case 2: a->steps.push_back([=] { std::string f = p->dir + ".jpg"; p->say("written", JPGUtil::WriteToFile(f, *t)); p->say("jpg", tu::slurp(f)); }); break;
    default: a->steps.push_back([=] { std::string f = p->dir + "r.jpg"; im::Img m = im::noise(p->v, p->r.range(1, 20), p->r.range(1, 20), p->r.chance(0.5) ? 3 : 1, 8); tu::spew(f, im::jpg(p->r, m, (int)p->r.range(30, 100))); Tensor u; bool ok = JPGUtil::LoadFromFile(f, u); p->say("loaded", ok); if (ok) p->say("image", u); });
  }
  return a;
}

// descriptions and their settings
static A settings(const std::string& dir, uint64_t seed, uint64_t salt) {
  A a = std::make_shared<Actor>("description", dir, seed, salt); Actor* p = a.get();
  struct S { std::unique_ptr<std::istringstream> ss; std::unique_ptr<ConfigurableFactory> f; };
  auto s = std::make_shared<S>(); int n = (int)a->r.range(1, 4);
  for (int k = 0; k < n; k++) {
    a->steps.push_back([=] { Rng& r = p->r; nd::Net n = simple_net(r, false); std::string t = n.text + (n.text.back() == '\n' ? "" : "\n"); if (r.chance(0.6)) t += fmt("lr=%g\n", r.real(0, 1)); if (r.chance(0.5)) t += fmt("momentum=%g\n", r.real(0, 1)); if (r.chance(0.5)) t += fmt("iterations=%d\n", (int)r.range(1, 99)); if (r.chance(0.5)) t += fmt("pbatchsize=%d\n", (int)r.range(1, 99)); if (r.chance(0.4)) t += fmt("l1=%g\nl2=%g\n", r.real(0, 1), r.real(0, 1)); if (r.chance(0.3)) t += "optimization=quickprop\n"; if (r.chance(0.3)) t += fmt("gamma=%g\nexponent=%g\nmu=%g\neta=%g\n", r.real(0, 1), r.real(0, 1), r.real(0, 1), r.real(0, 1));
      s->f.reset(); s->ss.reset(new std::istringstream(t)); s->f.reset(new ConfigurableFactory(*s->ss, 1, p->r.chance(0.5))); count("descriptions read"); });
    auto show = [=] { ConfigurableFactory& f = *s->f; TrainerSettings t = f.optimal_settings(); p->say("description", fmt("%d %d %d", (int)f.method(), (int)f.patchsizex(), (int)f.patchsizey())); std::ostringstream o; o << t; p->say("settings", o.str() + fmt(" %g %g %g %u %u %u", t.learning_rate, t.momentum, t.l2_weight, t.iterations, t.pbatchsize, t.sbatchsize)); };
    a->steps.push_back(show); a->steps.push_back([=] { s->f->InitOptimalSettings(); show(); }); if (a->r.chance(0.5)) a->steps.push_back(show);
  }
  a->end = [=] { s->f.reset(); };
  return a;
}

static A make(int k, const std::string& dir, uint64_t seed, uint64_t salt) {
  switch (k) { case 0: return network(dir, seed, salt); case 1: return training(dir, seed, salt); case 2: return layer(dir, seed, salt); case 3: return tensors(dir, seed, salt); case 4: return stream(dir, seed, salt); case 5: return dataset(dir, seed, salt); case 6: return images(dir, seed, salt); default: return settings(dir, seed, salt); }
}

// A process forked before the first case, in which nothing ever runs; it forks one child per lone run.
static int ask[2], answer[2];
struct Req { int kind; uint64_t seed, salt; char dir[400]; };
static void lone(const Req& q) {
  A a = make(q.kind, q.dir, q.seed, q.salt); while (a->step()) {} a->finish(); std::string b;
  for (auto& e : a->log) b += e.first + std::string("\0", 1) + std::string((char*)&e.second, 8);
  b += tu::u64le(a->log.size()); tu::spew(std::string(q.dir) + ".log", b);
}
static void zygote() {
  if (pipe(ask) || pipe(answer)) abort(); pid_t z = fork(); if (z < 0) abort(); if (z) { close(ask[0]); close(answer[1]); return; }
  close(ask[1]); close(answer[0]); Req q;
  while (read(ask[0], &q, sizeof q) == (ssize_t)sizeof q) {
    pid_t c = fork(); if (!c) { close(ask[0]); close(answer[1]); alarm(200); signal(SIGALRM, SIG_DFL); lone(q); _exit(0); }
    int st = 0; if (c > 0) while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} unsigned char ok = c > 0 && st == 0; if (write(answer[1], &ok, 1) != 1) break;
  }
  _exit(0);
}
static bool alone(int kind, uint64_t seed, uint64_t salt, const std::string& dir, std::vector<std::pair<std::string, uint64_t>>& log) {
  Req q; memset(&q, 0, sizeof q); q.kind = kind; q.seed = seed; q.salt = salt; strncpy(q.dir, dir.c_str(), sizeof q.dir - 1); unsigned char ok = 0;
  if (write(ask[1], &q, sizeof q) != (ssize_t)sizeof q || read(answer[0], &ok, 1) != 1 || !ok) return false;
  std::string b = tu::slurp(dir + ".log"); size_t p = 0; if (b.size() < 8) return false; uint64_t n; memcpy(&n, b.data() + b.size() - 8, 8);
  for (uint64_t k = 0; k < n; k++) { std::string l(b.c_str() + p); p += l.size() + 1; uint64_t h; memcpy(&h, b.data() + p, 8); p += 8; log.push_back({l, h}); }
  count("lone runs"); return true;
}

static void one(Rng& r, int64_t i) {
  std::string base = G().scratch + "/iso"; mkdir(base.c_str(), 0755); if (system(("rm -rf '" + base + "'/*").c_str())) {}
  int n = r.chance(0.6) ? 2 : 3; struct Spec { int kind; uint64_t seed, salt; }; std::vector<Spec> spec; std::string what;
  for (int k = 0; k < n; k++) {
    static const int w[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 5, 6, 7};
    if (k && r.chance(0.45)) { int q = (int)r.range(0, 9); spec.push_back({spec[0].kind, q < 7 ? spec[0].seed : r.next(), q < 2 ? 0 : r.next()}); if (q < 7) count(q < 2 ? "identical actors" : "actors of one structure with other values"); } else spec.push_back({w[r.range(0, 16)], r.next(), 0});
  }
  std::vector<A> act; std::vector<std::vector<std::pair<std::string, uint64_t>>> solo(n);
  std::string order; for (int k = 0; k < n; k++) { act.push_back(make(spec[k].kind, base + fmt("/x%d", k), spec[k].seed, spec[k].salt)); what += (k ? ", " : "") + act[k]->kind + (k && spec[k].seed == spec[0].seed ? spec[k].salt ? " (the same structure)" : " (the same again)" : ""); }
  std::vector<bool> late(n), cut(n); for (int k = 0; k < n; k++) { late[k] = r.chance(0.5); cut[k] = r.chance(0.15); }
  bool coarse = r.chance(0.2); std::vector<int> live; for (int k = 0; k < n; k++) live.push_back(k); int last = -1; size_t switches = 0;
  note(what + ", each alone"); int run = 0;
  for (int k = 0; k < n; k++) if (!alone(spec[k].kind, spec[k].seed, spec[k].salt, base + fmt("/s%d", k), solo[k])) { fail("alone:" + act[k]->kind, "an actor alone does not come to its end: " + act[k]->kind); return; }
  while (!live.empty()) {
    size_t q = coarse && run > 0 && last >= 0 ? 0 : r.range(0, (int)live.size() - 1); if (coarse) { if (run-- <= 0) run = (int)r.range(2, 5); else for (size_t z = 0; z < live.size(); z++) if (live[z] == last) q = z; }
    int k = live[q]; if (k != last && last >= 0 && act[k]->at) switches++; last = k; order += (char)('a' + k); note(what + ": " + order);
    bool more = act[k]->step(); count("steps in interleaved histories");
    if (more && cut[k] && act[k]->at > 1 && r.chance(0.3)) { act[k]->finish(); more = false; order += '!'; count("actors destroyed early"); }
    if (!more) { if (!late[k]) act[k]->finish(); live.erase(live.begin() + q); }
  }
  while (true) { std::vector<int> z; for (int k = 0; k < n; k++) if (!act[k]->dead) z.push_back(k); if (z.empty()) break; act[r.pick(z)]->finish(); }
  count("switches between actors", switches);
  for (int k = 0; k < n; k++) {
    auto &a = solo[k], &b = act[k]->log; bool all = act[k]->at >= act[k]->steps.size();
    for (size_t e = 0; e < std::min(a.size(), b.size()); e++) { count("observations compared"); if (a[e] != b[e]) { fail("influenced:" + act[k]->kind, fmt("actor %c (%s): observation %zu (%s) differs from that of the same actor alone (%s)", 'a' + k, act[k]->kind.c_str(), e, b[e].first.c_str(), a[e].first.c_str())); return; } }
    if (b.size() > a.size() || (all && a.size() != b.size())) { fail("influenced:" + act[k]->kind, fmt("actor %c (%s): %zu observations, alone %zu", 'a' + k, act[k]->kind.c_str(), b.size(), a.size())); return; }
    for (auto& e : b) if (e.first == "refused") count("operations refused in both runs");
    count("actors: " + act[k]->kind);
  }
  nontrivial(G().note); if (i < 6) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c35_isolation", one, [] {
    tu::init(0);
    std::string d = G().scratch + "/boot"; mkdir(d.c_str(), 0755); new HMaxActivationFunction(1, 0);
    static nd::Net n; n.text = "?fullyconnected neurons=1\n?output\n"; n.classes = 1; tu::spew(d + "/t", enc(M4(1, 1, 1, 1)) + enc(M4(1, 1, 1, 1))); tu::spew(d + "/c", "classes=1\nx\ncolors\n0x1\ntraining=" + d + "/t\n");
    new Replay(n, d + "/c");   // the trainer registers its statistics on first use
    System::stat_aggregator->Initialize(); zygote();
  }); }
