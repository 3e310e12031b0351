// C08: executing a NetGraph = evaluating the dataflow graph it describes:
// every layer runs exactly once per pass in dependency order, fan-out gradients
// are summed, the total loss is the sum of the loss layers, and incomplete
// graphs are reported as such.
#include "graph.h"
using namespace gr;
using namespace vh;

static void incomplete(Rng& r) {
  if (r.chance(0.05)) {   // the smallest networks
    NetGraph g; std::unique_ptr<Source> l(new Source(V{M4(1, 2, 2, 1)})); NetGraphNode n(l.get()); int k = (int)r.range(0, 4); n.is_input = k & 1; n.is_output = k & 2; if (k < 4) g.AddNode(&n); note(k > 3 ? "empty network" : fmt("one node, input %d, output %d", k & 1, k >> 1)); count("completeness checks");
    if (g.IsComplete()) fail("iscomplete-accepts:small", "IsComplete() accepts it: " + G().note); nontrivial(G().note); return;
  }
  Graph g; g.random(r, 5); g.build();
  count("completeness checks");
  if (!g.net.IsComplete()) { fail("iscomplete-rejects", "IsComplete() rejects a well-formed graph: " + g.desc); return; }
  std::vector<Node*> ls; for (auto& n : g.N) if (n.kind == 1) ls.push_back(&n);
  if (r.chance(0.3)) { g.net.SetIsTesting(true); g.net.Initialize(); count("completeness of initialised networks"); }
  NetGraph other; Node& n = *r.pick(ls); int how = (int)r.range(0, 8); std::string d; Layer* hidden = nullptr; NetGraphNode* stray = nullptr; Source* ssrc = nullptr;
  size_t ci = r.range(0, n.ins.size() - 1);
  switch (how) {
    case 0: n.n->input_connections[ci].node = nullptr; d = "null connection"; break;
    case 1: n.n->input_connections[ci].buffer = n.n->input_connections[ci].node->output_buffers.size() + r.range(0, 3); d = "connection to a buffer that does not exist"; break;
    case 2: { ssrc = new Source(std::vector<M4>{g.shape(n.ins[ci])}); stray = new NetGraphNode(ssrc); if (r.chance(0.5)) { stray->is_input = true; other.AddNode(stray); if (r.chance(0.7)) other.Initialize(); count("connections into another network"); } n.n->input_connections[ci] = NetGraphConnection(stray, 0, false); d = "connection to a node outside the network"; break; }
    case 3: n.n->is_input = n.n->is_output = true; d = "node both input and output"; break;
    case 4: for (auto& q : g.N) q.n->is_input = false; d = "no input node"; break;
    case 5: for (auto& q : g.N) q.n->is_output = false; d = "no output node"; break;
    case 6: hidden = n.n->layer; n.n->layer = nullptr; d = "node without layer"; break;
    case 7: { g.net.AddNode(new NetGraphNode(new TanhLayer, NetGraphConnection(nullptr, 0, r.chance(0.7)))); d = "null connection of an added node"; break; }
    default: n.n->unique_name = ""; d = "node without name"; break;
  }
  note(g.desc + " " + d);
  if (g.net.IsComplete()) fail("iscomplete-accepts:" + fmt("%d", how), "IsComplete() accepts a graph with a " + d);
  if (hidden) n.n->layer = hidden;
  if (stray) { n.n->input_connections.clear(); for (auto& b : stray->output_buffers) delete b.combined_tensor; delete stray; delete ssrc; }
  nontrivial(G().note);
}

// an accumulation layer of the caller's own, its outputs used any number of times
static void accumulated(Rng& r) {
  int K = (int)r.range(1, 4), L = (int)r.range(1, 6); size_t S = r.range(1, 3); unsigned im = (unsigned)r.range(1, 3), om = (unsigned)r.range(1, 3);
  M4 x = tu::random(r, S, 2, 2, im), w = tu::random(r, om, 1, 1, im, -0.7, 0.7), bi = tu::random(r, 1, om, 1, 1, -0.5, 0.5); std::vector<M4> lab, wt; std::vector<int> use(L); std::vector<float> lw(L);
  for (int l = 0; l < L; l++) { use[l] = l < K ? l : (int)r.range(0, K - 1); lw[l] = (float)r.real(0.2, 2); lab.push_back(tu::random(r, S, 2, 2, om)); wt.push_back(tu::random(r, S, 2, 2, 1, 0, 2)); } if (L < K) K = L;
  std::string d = fmt("accumulation layer with %d outputs, losses on", K); for (int u : use) d += fmt(" %d", u); note(d);
  NetGraph g; std::vector<NetGraphNode*> own; auto add = [&](Layer* l) { own.push_back(new NetGraphNode(l)); return own.back(); }; V sv{x}; for (int l = 0; l < L; l++) { sv.push_back(lab[l]); sv.push_back(wt[l]); }
  NetGraphNode* in = add(new Source(sv)); in->is_input = true; Layer* cl = LayerFactory::ConstructLayer(fmt("convolution(size=1x1 kernels=%u)", om)); NetGraphNode* c = add(cl); c->input_connections.push_back(NetGraphConnection(in));
  NetGraphNode* a = add(new GradientAccumulationLayer((unsigned)K)); a->input_connections.push_back(NetGraphConnection(c)); a->is_output = true;
  for (int l = 0; l < L; l++) { NetGraphNode* e = add(new ErrorLayer(lw[l])); e->input_connections = {NetGraphConnection(a, use[l]), NetGraphConnection(in, 1 + 2 * l, false), NetGraphConnection(in, 2 + 2 * l, false)}; }
  std::vector<NetGraphNode*> order = own; if (r.chance(0.5)) for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[r.range(0, k - 1)]);
  for (auto* n : order) g.AddNode(n); g.Initialize(); tu::put(cl->parameters()[0]->data, w); tu::put(cl->parameters()[1]->data, bi);
  for (auto* n : g.GetNodes()) for (auto& b : n->output_buffers) for (size_t e = 0; e < b.combined_tensor->delta.elements(); e++) tu::cpu(b.combined_tensor->delta).data_ptr()[e] = NAN;
  g.FeedForward(); g.BackPropagate(); M4 gw(om, 1, 1, im), gb(1, om, 1, 1); double loss = 0;
  for (size_t s = 0; s < S; s++) for (int y = 0; y < 2; y++) for (int xx = 0; xx < 2; xx++) for (unsigned m = 0; m < om; m++) {
    double v = bi.d[m]; for (unsigned k = 0; k < im; k++) v += w.at(0, 0, k, m) * x.at(xx, y, k, s); double dl = 0;
    for (int l = 0; l < L; l++) { double q = (v - lab[l].at(xx, y, m, s)) * wt[l].at(xx, y, 0, s) * lw[l]; dl += q; loss += 0.5 * q * (v - lab[l].at(xx, y, m, s)); }
    gb.d[m] += dl; for (unsigned k = 0; k < im; k++) gw.at(0, 0, k, m) += dl * x.at(xx, y, k, s);
  }
  if (!vh::close(g.AggregateLoss(), loss, loss, 2e-3)) fail("loss", fmt("AggregateLoss() %.8g, sum of the loss layers %.8g", g.AggregateLoss(), loss));
  const M4* want[2] = {&gw, &gb}; for (int k = 0; k < 2; k++) for (size_t e = 0; e < want[k]->n(); e++) { double v = tu::cpu(cl->parameters()[k]->delta).data_ptr_const()[e]; if (!vh::close(v, want[k]->d[e], 6, 1e-3)) { fail("accumulated", fmt("parameter %d[%zu]: gradient %.8g, sum over all uses %.8g", k, e, v, want[k]->d[e])); goto end; } count("gradients through explicit accumulation compared"); }
end:
  for (auto* n : g.GetNodes()) { for (auto& b : n->output_buffers) delete b.combined_tensor; delete n->layer; delete n; }
  nontrivial(G().note);
}

static void one(Rng& r, int64_t i) {
  if (i % 6 == 5) return incomplete(r);
  if (i % 30 == 9) return accumulated(r);
  Graph g; g.random(r, G().thorough ? 14 : 9);
  note(g.desc);
  g.build();
  g.net.SetIsTesting(true);
  g.net.Initialize();
  if (r.chance(0.3)) g.net.InitializeWeights();
  if (!g.net.IsComplete()) { fail("iscomplete-rejects", "IsComplete() rejects an initialised well-formed graph"); return; }
  { std::set<std::string> names; for (auto* n : g.net.GetNodes()) names.insert(n->unique_name);
    if (names.size() != g.net.GetNodes().size()) fail("names", "node names are not unique"); }
  size_t fan = 0; for (size_t q = 0; q < g.N.size(); q++) { size_t c = 0; if (g.N[q].kind == 1) for (auto& n : g.N) for (auto& in : n.ins) c += in.node == (int)q && in.bp && n.kind != 3; fan = std::max(fan, c); }
  int passes = (int)r.range(1, 3);
  for (int p = 0; p < passes; p++) {
    if (p) { g.randomise_inputs(r); for (auto& n : g.N) for (auto& t : n.par) for (auto& v : t.d) v = tu::rfloat(r, -0.7, 0.7); }
    g.load();
    for (auto& n : g.N) if (n.kind == 1) { for (size_t b = 0; b < n.spy->owned_.size(); b++) { CombinedTensor* t = n.spy->owned_[b]; bool fed = g.fed((int)(&n - &g.N[0]), (int)b); for (size_t e = 0; e < t->data.elements(); e++) { tu::cpu(t->data).data_ptr()[e] = NAN; if (fed) tu::cpu(t->delta).data_ptr()[e] = NAN; } }
      for (auto* t : n.layer->parameters()) for (size_t e = 0; e < t->delta.elements(); e++) tu::cpu(t->delta).data_ptr()[e] = NAN; }
    g.log.ev.clear();
    scatter_all(g.net); g.net.FeedForward();
    count("graph forward passes");
    auto order = [&](Ev kind) {
      std::vector<int> pos(g.N.size(), -1); int k = 0;
      for (auto& e : g.log.ev) {
        if (e.first != kind) { fail("wrong-pass", "a layer ran the other direction"); return false; }
        if (pos[e.second] >= 0) { fail(kind == FF ? "ff-twice" : "bp-twice", fmt("node %d ran twice in one pass", e.second)); return false; }
        pos[e.second] = k++; count(kind == FF ? "forward events" : "backward events");
      }
      for (size_t q = 0; q < g.N.size(); q++) if (g.N[q].spy) {
        if (pos[q] < 0) { fail(kind == FF ? "ff-missing" : "bp-missing", fmt("node %zu did not run", q)); return false; }
        for (auto& in : g.N[q].ins) if (g.N[in.node].spy && (kind == FF || in.bp)) {
          if (kind == FF ? pos[in.node] > pos[q] : pos[in.node] < pos[q]) { fail(kind == FF ? "ff-order" : "bp-order", fmt("nodes %d and %zu ran in the wrong order", in.node, q)); return false; }
          count("order constraints checked");
        }
      }
      return true;
    };
    if (!order(FF)) return;
    g.ref_forward();
    for (size_t q = 0; q < g.N.size(); q++) {
      Node& n = g.N[q];
      if (n.kind == 1) for (size_t b = 0; b < n.out.size(); b++) for (size_t e = 0; e < n.out[b].n(); e++) {
        count("node outputs compared");
        double got = tu::cpu(n.n->output_buffers[b].combined_tensor->data).data_ptr_const()[e];
        if (!vh::close(got, n.out[b].d[e], 2, 1e-3)) { fail("graph-output", fmt("pass %d node %zu (%s) output %zu element %zu: %.8g, dataflow value %.8g", p, q, n.c.kind.c_str(), b, e, got, n.out[b].d[e])); return; }
      }
      if (n.kind == 3) { M4 w = g.shape(n.ins[0]); M4& s = ((Watcher*)n.layer)->seen_;
        if (s.n() != w.n()) { fail("watcher-shape", "observer saw another tensor"); return; }
        for (size_t e = 0; e < w.n(); e++) if (!vh::close(s.d[e], w.d[e], 2, 1e-3)) { fail("watcher", fmt("an observing node saw %.8g where its input node computed %.8g", s.d[e], w.d[e])); return; } }
    }
    double want = g.loss(), got = g.net.AggregateLoss();
    count("total losses compared");
    if (!vh::close(got, want, want, 2e-3)) { fail("loss", fmt("AggregateLoss() %.8g, sum of the loss layers %.8g", got, want)); return; }
    g.log.ev.clear();
    scatter_all(g.net); g.net.BackPropagate();
    count("graph backward passes");
    if (!order(BP)) return;
    g.ref_backward();
    for (size_t q = 0; q < g.N.size(); q++) {
      Node& n = g.N[q];
      if (n.kind != 1) continue; if (!g.reaches_loss((int)q)) count("layers without a loss");
      for (size_t k = 0; k < n.par.size(); k++) for (size_t e = 0; e < n.par[k].n(); e++) {
        count("parameter gradients compared");
        double a = tu::cpu(n.layer->parameters()[k]->delta).data_ptr_const()[e], b = n.pdelta[k].d[e];
        if (!vh::close(a, b, 6, 1e-3)) { fail("graph-gradient", fmt("pass %d node %zu (%s) parameter %zu[%zu]: gradient %.8g, exact %.8g", p, q, n.c.kind.c_str(), k, e, a, b)); return; }
      }
      for (size_t b = 0; b < n.out.size(); b++) {
        if (!g.fed((int)q, (int)b)) count("outputs without gradient compared");
        if (n.out.size() > 1) count("multi-output gradients compared", n.odelta[b].n());
        for (size_t e = 0; e < n.odelta[b].n(); e++) {
          count("activation gradients compared");
          double a = tu::cpu(n.n->output_buffers[b].combined_tensor->delta).data_ptr_const()[e], want = n.odelta[b].d[e];
          if (!vh::close(a, want, 6, 1e-3)) { fail("fanout-gradient", fmt("pass %d node %zu (%s) output %zu gradient [%zu]: %.8g, exact %.8g", p, q, n.c.kind.c_str(), b, e, a, want)); return; }
        }
      }
    }
  }
  std::ostringstream ss; g.net.PrintGraph(ss);
  size_t edges = 0, have = 0; for (auto* n : g.net.GetNodes()) edges += n->input_connections.size();
  for (size_t q = ss.str().find(" -> "); q != std::string::npos; q = ss.str().find(" -> ", q + 1)) have++;
  if (edges != have) fail("printgraph", fmt("graph output has %zu edges, the graph %zu", have, edges));
  if (fan > 1) count("graphs with fan-out");
  if (g.stops) count("graphs with gradient-stopping connections");
  count(fmt("max fan-out %zu", std::min<size_t>(fan, 4)));
  if (fan > 1 || g.N.size() > 5) nontrivial(G().note);
  if (i < 6) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c08_graph", one, [] { tu::init(); }); }
