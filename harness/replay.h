// The training program's network, built and trained here through the library.
#pragma once
#include "desc.h"
#include "tool.h"
#include "TensorStream.h"
#include "DatasetInputLayer.h"
namespace rp {
using namespace Conv; using namespace vh; using tu::M4; using nd::V;
inline std::string encf(const Tensor& t) {
  std::string o = tu::u64le(t.samples()) + tu::u64le(t.width()) + tu::u64le(t.height()) + tu::u64le(t.maps());
  o.append((const char*)t.data_ptr_const(), t.elements() * 4); return o;
}
inline std::string enc(const M4& m) { Tensor t; tu::write(t, m); return encf(t); }
inline std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> v(1); for (char q : s) if (q == c) v.emplace_back(); else v.back() += q; return v; }
struct Sink : StatSink {
  void Initialize(std::vector<StatDescriptor*>& d) { desc = d; }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) { Row r; r.h = h; for (size_t i = 0; i < s.size(); i++) if (desc[i]->description == "Average Aggregate Loss") { r.loss = s[i]->value; r.null = s[i]->is_null; } rows.push_back(r); }
  void SetCurrentExperiment(std::string) {}
  struct Row { HardcodedStats h; double loss = 0; bool null = true; };
  std::vector<StatDescriptor*> desc; std::vector<Row> rows;
};
struct Replay {
  nd::Net& n; std::istringstream ss; ConfigurableFactory f; TensorStreamDataset* fd = nullptr; TensorStreamPatchDataset* pd = nullptr; NetGraph g; Trainer* tr = nullptr; NetGraphNode* in; bool ok = false;
  TrainerSettings set; std::vector<NetGraphNode*> named;   // nodes numbered as in the program, which adds its statistics before Initialize adds nodes of its own
  Replay(nd::Net& n_, const std::string& cfg) : n(n_), ss(n_.text), f(ss, 8347734, true) {
    f.InitOptimalSettings(); set = f.optimal_settings(); set.epoch_training_ratio = set.testing_ratio = 1;
    std::ifstream c(cfg); Dataset* d; bool patch = f.method() == PATCH; if (patch != n.patch) { fail("method", "wrong training method"); return; }
    if (patch) d = pd = (TensorStreamPatchDataset*)TensorStreamPatchDataset::CreateFromConfiguration(c, false, LOAD_TRAINING_ONLY, f.patchsizex(), f.patchsizey()); else d = fd = TensorStreamDataset::CreateFromConfiguration(c, false, LOAD_BOTH);
    in = new NetGraphNode(new DatasetInputLayer(*d, set.pbatchsize, patch ? 1.0 : 0.5, 983923)); in->is_input = true; g.AddNode(in);
    if (!f.AddLayers(g, NetGraphConnection(in), d->GetClasses(), true)) { fail("incomplete", "description reported as incomplete"); return; }
    named = g.GetNodes(); g.Initialize(); g.InitializeWeights(); tr = new Trainer(g, set); ok = true;
  }
  ~Replay() {
    delete tr; for (NetGraphNode* k : g.GetNodes()) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; }
    delete fd; delete pd;
  }
  std::string params() { std::vector<CombinedTensor*> p; g.GetParameters(p); std::string s; for (auto* t : p) s += encf(t->data); return s; }
  V values() { std::vector<CombinedTensor*> p; g.GetParameters(p); V v; for (auto* t : p) v.push_back(tu::read(t->data)); return v; }
};
}  // namespace rp
