// C16: textual layer descriptions.  Hand-written recogniser of the grammar is
// the oracle for acceptance, splitting and seed injection; accepted
// descriptions of known layers must yield that layer with those options.
#include "tutil.h"
#include "layers.h"
using namespace Conv;
using vh::Rng;
using vh::fmt;

struct Parsed { bool ok = false; std::string type, conf; std::vector<std::pair<std::string, std::string>> kv; bool paren = false; };
static bool lower(char c) { return c >= 'a' && c <= 'z'; }
static bool valch(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '.'; }
static Parsed parse(const std::string& s) {
  Parsed p; size_t i = 0; while (i < s.size() && lower(s[i])) i++;
  if (i == 0) return p;
  p.type = s.substr(0, i);
  if (i == s.size()) { p.ok = true; return p; }
  if (s[i] != '(' || s.back() != ')') return p;
  p.paren = true; p.conf = s.substr(i + 1, s.size() - i - 2);
  if (s.size() - i < 2) return p;
  if (p.conf.empty()) { p.ok = true; return p; }
  size_t q = 0;
  while (true) {
    size_t a = q; while (q < p.conf.size() && lower(p.conf[q])) q++;
    if (q == a || q >= p.conf.size() || p.conf[q] != '=') return p;
    size_t b = ++q; while (q < p.conf.size() && valch(p.conf[q])) q++;
    if (q == b) return p;
    p.kv.push_back({p.conf.substr(a, b - 1 - a), p.conf.substr(b, q - b)});
    if (q == p.conf.size()) { p.ok = true; return p; }
    if (p.conf[q] != ' ') return p;
    q++;
  }
}
static std::string ident(Rng& r) { static const std::vector<std::string> k = {"size", "kernels", "stride", "pad", "group", "dropout", "llr", "seed", "mu", "weight", "border", "outputs"}; if (r.chance(0.8)) return r.pick(k); std::string s; for (int i = (int)r.range(1, 6); i > 0; i--) s += (char)('a' + r.range(0, 25)); return s == "seed" ? "s" : s; }
static std::string value(Rng& r) {
  switch (r.range(0, 4)) { case 0: return fmt("%d", (int)r.range(0, 20)); case 1: return fmt("%dx%d", (int)r.range(1, 9), (int)r.range(1, 9)); case 2: return fmt("%g", 0.125 * r.range(0, 12)); case 3: return fmt("%u", (unsigned)r.next());
    default: { std::string s; for (int i = (int)r.range(1, 7); i > 0; i--) s += "abcXYZ0123.9"[r.range(0, 11)]; return s; } }
}
static void grammar(Rng& r) {
  static const std::vector<std::string> types = {"convolution", "maxpooling", "amaxpooling", "tanh", "sigm", "relu", "gradientaccumulation", "resize", "hmax"};
  std::string s = r.chance(0.7) ? r.pick(types) : ident(r);
  if (r.chance(0.8)) { s += "("; int n = (int)r.range(0, 4); bool seeded = false; for (int i = 0; i < n; i++) { std::string k = ident(r), v = value(r); if (k == "seed") { if (seeded) continue; seeded = true; v = fmt("%u", (unsigned)r.next()); } if (s.back() != '(') s += " "; s += k + "=" + v; } s += ")"; }
  if (r.chance(0.5)) {   // damage
    int e = (int)r.range(1, 3); static const std::string junk = "() =.xX,;-+_\t\n#aZ09";
    for (int i = 0; i < e && !s.empty(); i++) { size_t p = r.range(0, s.size() - 1); switch (r.range(0, 3)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, junk[r.range(0, junk.size() - 1)]); break; case 2: s[p] = junk[r.range(0, junk.size() - 1)]; break; default: s.insert(p, 1, s[p]); } }
    if (r.chance(0.02)) s.clear();
  }
  vh::note(s);
  Parsed p = parse(s); bool v = LayerFactory::IsValidDescriptor(s);
  if (v != p.ok) vh::fail("validity", fmt("'%s' is %s but reported %s", s.c_str(), p.ok ? "well-formed" : "malformed", v ? "valid" : "invalid"));
  vh::count(p.ok ? "well-formed descriptions" : "malformed descriptions");
  if (p.ok) {
    if (LayerFactory::ExtractLayerType(s) != p.type) vh::fail("type", "layer type of '" + s + "' extracted as '" + LayerFactory::ExtractLayerType(s) + "'");
    if (LayerFactory::ExtractConfiguration(s) != p.conf) vh::fail("configuration", "configuration of '" + s + "' extracted as '" + LayerFactory::ExtractConfiguration(s) + "'");
  } else {
    Layer* l = nullptr; try { l = LayerFactory::ConstructLayer(s); } catch (std::exception&) { vh::fail("malformed-throws", "malformed description '" + s + "' throws"); }
    if (l) vh::fail("malformed-accepted", "malformed description '" + s + "' yields a layer");
    delete l;
  }
  // seed injection
  bool odd_seed = false; int seeds = 0; for (auto& kv : p.kv) { if (kv.first == "seed") { seeds++; for (char c : kv.second) odd_seed |= c < '0' || c > '9'; } else if (kv.first.size() > 4 && kv.first.substr(kv.first.size() - 4) == "seed") odd_seed = true; else if (kv.second.find("seed") != std::string::npos) odd_seed = true; }
  if (odd_seed || seeds > 1) return;
  unsigned seed = r.chance(0.1) ? 0 : r.chance(0.1) ? 0xffffffffu : (unsigned)r.next();
  std::string t = LayerFactory::InjectSeed(s, seed);
  vh::count("seed injections");
  if (!p.ok) { if (t != s) vh::fail("inject", "malformed description is changed by seed injection: '" + s + "' -> '" + t + "'"); return; }
  Parsed q = parse(t); std::vector<std::pair<std::string, std::string>> want = p.kv; bool had = false;
  for (auto& kv : want) if (kv.first == "seed") { kv.second = fmt("%u", seed); had = true; }
  if (!had) want.push_back({"seed", fmt("%u", seed)});
  if (!q.ok || q.type != p.type || q.kv != want) vh::fail("inject", fmt("seed %u into '%s' gives '%s'", seed, s.c_str(), t.c_str()));
  else if (LayerFactory::InjectSeed(t, seed) != t) vh::fail("inject", "injecting a seed twice differs from once");
  vh::nontrivial(s);
}
static bool eq(const Tensor& a, const Tensor& b) { return a.elements() == b.elements() && !memcmp(a.data_ptr_const(), b.data_ptr_const(), a.elements() * 4); }
// a network node made from a description holds the layer of that description, and its connection
static void noded(Rng& r) {
  static const std::vector<std::string> types = {"convolution(size=3x2 kernels=2)", "maxpooling(size=2x2)", "amaxpooling(size=2x2 stride=1x1)", "tanh", "sigm", "relu", "gradientaccumulation(outputs=3)", "resize(border=2x2)", "hmax(mu=0.5 weight=2)", "sum", "Tanh", "tanh(", "", "(size=2x2)", "convolution(size=3x2 kernels=2) "};
  std::string s = r.pick(types); vh::note("node from '" + s + "'"); Layer* l = LayerFactory::ConstructLayer(s); NetGraphNode* n = nullptr; NetGraphNode* m = nullptr; bool refused = false;
  TanhLayer tl; NetGraphNode from(&tl); unsigned buf = (unsigned)r.range(0, 5); bool bp = r.chance(0.5);
  try { n = new NetGraphNode(s); m = new NetGraphNode(s, NetGraphConnection(&from, buf, bp)); } catch (std::runtime_error&) { refused = true; }
  if (refused != !l) vh::fail("node-verdict", "description '" + s + "' yields " + (l ? "a layer but no node" : "no layer but a node"));
  else if (l) for (NetGraphNode* q : {n, m}) {
    if (!q->layer || typeid(*q->layer) != typeid(*l) || q->layer->GetLayerDescription() != l->GetLayerDescription()) { vh::fail("node-layer", "node of '" + s + "' holds another layer"); break; }
    if (q->output_buffers.size() != NetGraphNode(l).output_buffers.size()) vh::fail("node-buffers", "node of '" + s + "' has other output buffers than its layer");
    if (q == n ? !q->input_connections.empty() : q->input_connections.size() != 1 || q->input_connections[0].node != &from || q->input_connections[0].buffer != buf || q->input_connections[0].backprop != bp) vh::fail("node-connection", "node of '" + s + "' does not have the given connection");
    if (q->is_input || q->is_output || q->initialized || !q->backprop_connections.empty() || !q->unique_name.empty()) vh::fail("node-state", "node of '" + s + "' starts in a wrong state");
  }
  vh::count("nodes made from descriptions"); vh::nontrivial(vh::G().note);
  for (NetGraphNode* q : {n, m}) if (q) { delete q->layer; delete q; }
  delete l;
}
static void semantics(Rng& r) {
  static const std::vector<std::string> unknown = {"convolutional", "pooling", "sum", "concat", "softmax", "error", "conv", "tanhh", "upscale"};
  if (r.chance(0.1)) {
    std::string s = r.pick(unknown) + (r.chance(0.5) ? "(size=2x2)" : ""); Layer* l = LayerFactory::ConstructLayer(s);
    if (l) vh::fail("unknown-accepted", "unknown layer type '" + s + "' yields a layer");
    vh::count("unknown types"); delete l; return;
  }
  // initial weights: the described layer equals the constructed one with the same options
  if (r.chance(0.5)) {
    unsigned kw = r.range(1, 3), kh = r.range(1, 3), k = r.range(1, 4); int seed = (int)r.range(1, 1 << 30); double llr = 0.25 * r.range(1, 8);
    bool sd = r.chance(0.5);
    std::vector<std::string> p = {fmt("size=%ux%u", kw, kh), fmt("kernels=%u", k), fmt("llr=%g", llr)}; if (sd) p.push_back(fmt("seed=%d", seed));
    std::string s = "convolution(" + ly::kv(r, p) + ")"; vh::note(s);
    Layer* a = LayerFactory::ConstructLayer(s); Layer* b = LayerFactory::ConstructLayer(s);
    Layer* c = new ConvolutionLayer(kw, kh, k, 1, 1, 0, 0, 1, seed, 0);
    std::string plain = fmt("convolution(size=%ux%u kernels=%u)", kw, kh, k); Layer* d = LayerFactory::ConstructLayer(plain);
    NetStatus st; CombinedTensor in(1, 4, 4, 2); std::vector<CombinedTensor*> o[4]; Layer* L[4] = {a, b, c, d};
    for (int i = 0; i < 4; i++) { if (!L[i] || !L[i]->CreateOutputs({&in}, o[i]) || !L[i]->Connect({&in}, o[i], &st)) { vh::fail("connect", "layer from '" + s + "' cannot be connected"); return; } L[i]->OnLayerConnect({}); }
    const Tensor &wa = a->parameters()[0]->data, &wb = b->parameters()[0]->data, &wc = c->parameters()[0]->data;
    if (!eq(wa, wb)) vh::fail("seed-repeat", "the same description gives different initial weights");
    static bool told = false;
    if (sd && !eq(wa, wc)) {
      if (!eq(wa, d->parameters()[0]->data)) vh::fail("seed-wrong", fmt("initial weights are neither those of seed=%d nor those without a seed", seed));
      else if (!told) told = true, vh::fail("seed-ignored", fmt("initial weights of '%s' are those of a layer without a seed", s.c_str()));
    }
    if (!sd && !eq(wa, d->parameters()[0]->data)) vh::fail("seed-repeat", "learning rate changes the initial weights");
    vh::count("initial weights compared");
    for (int i = 0; i < 4; i++) { for (auto* t : o[i]) delete t; delete L[i]; }
    vh::nontrivial(s); return;
  }
  ly::Case c; int kind = (int)r.range(0, 4);
  do { Rng q(r.next()); c = kind == 0 ? ly::conv(q, 6) : kind == 1 ? ly::pool(q, 6, q.chance(0.5)) : kind == 2 ? ly::pointwise(q, 4, q.pick<std::string>({"tanh", "sigm", "relu", "hmax"})) : kind == 3 ? ly::resize(q, 5) : ly::gradacc(q, 4); } while (c.desc.find("via") != std::string::npos);
  vh::note(c.desc);
  ly::Inst I; std::string why; if (!I.connect(c, why)) { vh::fail("connect", c.desc + ": " + why); return; }
  I.load(c); I.layer->FeedForward();
  auto o = c.fwd(c.in, c.par);
  if (I.out.size() != o.size()) { vh::fail("outputs", "number of outputs"); return; }
  for (size_t k = 0; k < o.size(); k++) {
    if (!ly::same_shape(I.out[k]->data, o[k])) { vh::fail("shape", c.desc + " output is " + tu::shape(I.out[k]->data) + ", described " + o[k].shape()); return; }
    for (size_t e = 0; e < o[k].n(); e++) if (!vh::close(I.out[k]->data.data_ptr_const()[e], o[k].d[e], 5, 1e-3)) { vh::fail("function", c.desc + " computes something else"); return; }
  }
  vh::count("described layers evaluated"); vh::nontrivial(c.desc); vh::sample(c.desc);
}
static void bad(Rng& r) {   // descriptions whose options cannot be satisfied are refused with an error
  std::string s = r.pick<std::string>({"convolution(size=0x3 kernels=2)", "convolution(size=3x0 kernels=2)", "convolution(size=2x2 kernels=3 group=2)", "convolution(size=2x2 kernels=2 stride=0x1)", "convolution(size=2x2 kernels=2 group=0)",
    "maxpooling(size=0x2)", "maxpooling(size=2x0)", "amaxpooling(size=0x1)", "amaxpooling(size=2x2 stride=1x0)", "amaxpooling(size=2x2 stride=0x2)"});
  vh::note(s); bool refused = false; Layer* l = nullptr;
  try { l = LayerFactory::ConstructLayer(s); refused = !l; } catch (std::runtime_error&) { refused = true; }
  if (!refused) {   // may also be refused when connected
    CombinedTensor in(1, 4, 4, 2); std::vector<CombinedTensor*> o; NetStatus st;
    try { refused = !l->CreateOutputs({&in}, o) || !l->Connect({&in}, o, &st); } catch (std::runtime_error&) { refused = true; }
  }
  if (!refused) vh::fail("unsatisfiable", "'" + s + "' yields a layer");
  vh::count("unsatisfiable descriptions"); vh::nontrivial(s);
}
static void one(Rng& r, int64_t) { int k = (int)r.range(0, 9); if (r.chance(0.04)) return noded(r); if (k < 5) for (int i = 0; i < 4; i++) grammar(r); else if (k < 9) semantics(r); else bad(r); }
int main(int argc, char** argv) { return vh::run(argc, argv, "c16_descriptor", one, [] { tu::init(0); }); }
