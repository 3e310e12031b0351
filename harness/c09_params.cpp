// C09: saving a network's parameters and loading them into another instance of
// the same architecture reproduces the network bit for bit; partial loads touch
// exactly the nodes they name.
#include "graph.h"
using namespace gr;
using namespace vh;

static std::vector<std::vector<uint32_t>> snap(Graph& g) {
  std::vector<std::vector<uint32_t>> v;
  for (auto* n : g.net.GetNodes()) for (auto* p : n->layer->parameters()) {
    std::vector<uint32_t> b; for (size_t e = 0; e < p->data.elements(); e++) b.push_back(tu::bits(tu::cpu(p->data).data_ptr_const()[e])); v.push_back(b); }
  return v;
}
static std::string expect_bytes(Graph& g) {   // documented layout: node order, parameter order, 4 x u64 header + floats
  std::string s;
  for (auto* n : g.net.GetNodes()) for (auto* p : n->layer->parameters()) {
    s += tu::u64le(p->data.samples()) + tu::u64le(p->data.width()) + tu::u64le(p->data.height()) + tu::u64le(p->data.maps());
    s.append((const char*)tu::cpu(p->data).data_ptr_const(), p->data.elements() * sizeof(float)); }
  return s;
}
static void fill(Graph& g, Rng& r, bool any) { for (auto* n : g.net.GetNodes()) for (auto* p : n->layer->parameters()) for (size_t e = 0; e < p->data.elements(); e++) tu::cpu(p->data).data_ptr()[e] = any ? tu::rbits(r) : (float)r.real(-1, 1); }

static void one(Rng& r, int64_t i) {
  uint64_t sd = r.next();
  Graph a, b; { Rng q(sd); a.random(q, 8); } { Rng q(sd); b.random(q, 8); }
  note(a.desc);
  a.build(); b.build(); a.net.SetIsTesting(true); b.net.SetIsTesting(true);
  a.net.Initialize(); b.net.Initialize();
  if (r.chance(0.5)) { a.net.InitializeWeights(); b.net.InitializeWeights(); }
  bool special = r.chance(0.5);
  fill(a, r, special); fill(b, r, false);
  auto sa = snap(a), sb = snap(b);
  size_t np = sa.size();
  auto scat = [](Graph& g) { for (auto* n : g.net.GetNodes()) for (auto* p : n->layer->parameters()) tu::scatter(p->data); };
  scat(a); scat(b);
  std::stringstream ss; a.net.SerializeParameters(ss);
  std::string bytes = ss.str();
  count("parameter sets saved", np);
  if (bytes != expect_bytes(a)) { fail("layout", fmt("saved parameters (%zu bytes) are not the concatenation of the parameter tensors (%zu bytes)", bytes.size(), expect_bytes(a).size())); return; }
  if (snap(a) != sa) { fail("save-modifies", "saving changed the parameters"); return; }
  int mode = (int)r.range(0, 3);
  bool file = r.chance(0.3);
  auto load = [&](const std::string& data, unsigned last) {
    if (file) { std::string fn = G().scratch + "/p.cnparam"; tu::spew(fn, data); std::ifstream f(fn, std::ios::binary); b.net.DeserializeParameters(f, last); ::unlink(fn.c_str()); }
    else { std::istringstream is(data); b.net.DeserializeParameters(is, last); }
  };
  auto& nodes = b.net.GetNodes();
  if (mode <= 1) {
    unsigned last = mode == 0 ? 0 : (unsigned)(nodes.size() - 1 + r.range(0, 5));
    load(bytes, last);
    if (snap(b) != sa) { fail("roundtrip", "loaded parameters differ from the saved ones"); return; }
    if (!special) {
      a.load(); for (auto& n : b.N) if (n.kind == 0) ((Source*)n.layer)->s_ = n.src;
      // a.load() installs the model's own parameters; put the saved ones back
      { std::istringstream is(bytes); a.net.DeserializeParameters(is, 0); }
      scatter_all(a.net); scatter_all(b.net); a.net.FeedForward(); b.net.FeedForward();
      for (size_t q = 0; q < a.N.size(); q++) if (a.N[q].kind == 1) for (size_t k = 0; k < a.N[q].n->output_buffers.size(); k++) {
        Tensor& x = a.N[q].n->output_buffers[k].combined_tensor->data; Tensor& y = b.N[q].n->output_buffers[k].combined_tensor->data;
        for (size_t e = 0; e < x.elements(); e++) { count("outputs of the restored network compared"); if (tu::bits(tu::cpu(x).data_ptr_const()[e]) != tu::bits(tu::cpu(y).data_ptr_const()[e])) { fail("behaviour", "the restored network computes other outputs"); return; } }
      }
      if (a.net.AggregateLoss() != b.net.AggregateLoss()) fail("behaviour", "the restored network has another loss");
    }
    std::stringstream s2; b.net.SerializeParameters(s2);
    if (s2.str() != bytes) fail("resave", "saving the restored network gives other bytes");
    count("full round trips");
  } else if (mode == 2 && nodes.size() > 1) {
    unsigned last = (unsigned)r.range(1, nodes.size() - 1);
    load(bytes, last);
    auto now = snap(b); size_t k = 0;
    for (size_t l = 0; l < nodes.size(); l++) for (size_t p = 0; p < nodes[l]->layer->parameters().size(); p++, k++) {
      count("parameter sets checked after a partial load");
      if (now[k] != (l <= last ? sa[k] : sb[k])) { fail("partial", fmt("loading up to node %u: node %zu parameter %zu %s", last, l, p, l <= last ? "was not restored" : "was changed")); return; }
    }
    count("partial loads");
  } else {
    // file ends after some complete tensors
    size_t keep = r.range(0, np); size_t pos = 0, k = 0;
    for (auto* n : a.net.GetNodes()) for (auto* p : n->layer->parameters()) { if (k < keep) pos += 32 + p->data.elements() * 4; k++; }
    bool refused = false;
    try { load(bytes.substr(0, pos), 0); } catch (std::runtime_error&) { refused = true; }
    if (keep == 0 && np > 0) { count("empty files"); for (auto* n : b.net.GetNodes()) for (auto* p : n->layer->parameters()) if (!refused && p->data.elements() == 0) { fail("empty-file", "an empty file emptied the parameters without an error"); return; } }
    else if (refused) { fail("short-file-refused", fmt("file with %zu of %zu parameter sets was refused", keep, np)); return; }
    auto now = snap(b);
    for (k = 0; k < np; k++) if (keep > 0 && now[k] != (k < keep ? sa[k] : sb[k])) { fail("short-file", fmt("file with %zu of %zu parameter sets: set %zu is wrong", keep, np, k)); return; }
    if (keep > 0) count("loads of files with fewer parameter sets");
  }
  if (np) nontrivial(G().note + fmt("%d", mode));
  if (i < 6) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c09_params", one, [] { tu::init(); }); }
