// C32: looking at a network or a tensor tells the truth and changes nothing.
// The graphviz output is parsed and compared with the network's nodes,
// connections, layers and tensors (for descriptions: with the text they were
// made from); reported statistics are recomputed in double precision, in the
// library and in sessions of the training program.
#include "graph.h"
#include "replay.h"
#include "InputLayer.h"
#include <tuple>
using namespace vh; using namespace Conv; using tu::M4;

struct Dot {
  struct N { std::string attr, title; std::vector<std::string> out; bool red = false, blue = false; };
  struct E { std::string from, to; int buf; bool dotted; bool operator<(const E& o) const { return std::tie(from, to, buf, dotted) < std::tie(o.from, o.to, o.buf, o.dotted); } bool operator==(const E& o) const { return !(*this < o) && !(o < *this); } };
  std::map<std::string, N> n; std::multiset<E> e; std::string err;
  Dot(const std::string& s) {
    size_t p = 0; auto trim = [](std::string t) { size_t a = t.find_first_not_of(" \t\n;"), b = t.find_last_not_of(" \t\n;"); return a == std::string::npos ? std::string() : t.substr(a, b - a + 1); };
    for (;;) {
      size_t q = s.find('[', p); if (q == std::string::npos) { if (trim(s.substr(p)).size()) err = "trailing text: " + s.substr(p, 80); return; }
      std::string head = trim(s.substr(p, q - p)), attr; bool quo = false; size_t k = q + 1; for (; k < s.size() && (quo || s[k] != ']'); k++) { if (s[k] == '"') quo = !quo; attr += s[k]; }
      if (k >= s.size()) { err = "unterminated statement: " + head; return; } p = k + 1; if (head == "graph") continue;
      size_t a = head.find(" -> ");
      if (a != std::string::npos) { E x; std::string l = head.substr(0, a), r = head.substr(a + 4); size_t c = l.rfind(":o"), d = r.rfind(":i"); if (c == std::string::npos || d == std::string::npos || d + 2 != r.size()) { err = "edge: " + head; return; }
        x.from = l.substr(0, c); x.buf = atoi(l.c_str() + c + 2); x.to = r.substr(0, d); x.dotted = attr.find("dotted") != std::string::npos; e.insert(x); continue; }
      if (n.count(head)) { err = "node " + head + " occurs twice"; return; }
      N x; x.attr = attr; x.red = attr.find("color=red") != std::string::npos; x.blue = attr.find("color=blue") != std::string::npos; size_t l = attr.find("label=\""); if (l == std::string::npos || attr.back() != '"') { err = "node " + head + " has no label"; return; }
      std::string lab = attr.substr(l + 7, attr.size() - l - 8); size_t t = lab.find("<i>"); if (t == std::string::npos) { err = "label: " + lab; return; } size_t o = lab.find("<o0>"); x.title = trim(lab.substr(t + 3, (o == std::string::npos ? lab.size() : o) - t - 3)); while (x.title.size() && strchr("|{} ", x.title.back())) x.title.pop_back();
      for (int b = 0; o != std::string::npos; b++) { size_t z = lab.find(fmt("<o%d>", b + 1), o); std::string d = trim(lab.substr(o + fmt("<o%d>", b).size(), (z == std::string::npos ? lab.size() : z) - o - fmt("<o%d>", b).size())); while (d.size() && strchr("|{} ", d.back())) d.pop_back(); x.out.push_back(d); o = z; }
      n[head] = x;
    }
  }
};
static std::string size_of(const Tensor& t) { std::ostringstream o; o << "(" << (unsigned long)t.samples() << "s@" << (unsigned long)t.width() << "x" << (unsigned long)t.height() << "x" << (unsigned long)t.maps() << "m)"; return o.str(); }
static std::string strip(std::string t) { while (t.size() && t.back() == ' ') t.pop_back(); while (t.size() && t[0] == ' ') t.erase(0, 1); return t; }

// everything the network holds
static std::string state(NetGraph& g) { std::string s; auto put = [&](CombinedTensor* t) { if (!t) { s += "-"; return; } for (Tensor* q : {&t->data, &t->delta}) { s += tu::shape(*q); s.append((const char*)tu::cpu(*q).data_ptr_const(), q->elements() * 4); } };
  for (auto* n : g.GetNodes()) { s += n->unique_name; for (auto& b : n->output_buffers) put(b.combined_tensor); for (auto* p : n->layer->parameters()) put(p); } return s; }

static bool judge(NetGraph& g, const std::string& text, bool init) {
  Dot d(text); if (d.err.size()) { fail("graph-syntax", d.err); return false; }
  if (d.n.size() != g.GetNodes().size()) { fail("graph-nodes", fmt("%zu nodes drawn, the network has %zu", d.n.size(), g.GetNodes().size())); return false; }
  std::multiset<Dot::E> want;
  for (auto* n : g.GetNodes()) {
    auto it = d.n.find(n->unique_name); if (it == d.n.end()) { fail("graph-node-missing", "node " + n->unique_name + " is not drawn"); return false; } Dot::N& x = it->second; count("drawn nodes compared");
    if (x.title != n->unique_name + ": " + strip(n->layer->GetLayerDescription())) { fail("graph-title", "node " + n->unique_name + " is drawn as \"" + x.title + "\", its layer is " + n->layer->GetLayerDescription()); return false; }
    if (x.red != n->is_input || x.blue != n->is_output) { fail("graph-role", "node " + n->unique_name + fmt(" is %s input and %s output, drawn %d/%d", n->is_input ? "an" : "no", n->is_output ? "an" : "no", x.red, x.blue)); return false; }
    if (x.out.size() != n->output_buffers.size()) { fail("graph-buffers", "node " + n->unique_name + fmt(" is drawn with %zu outputs, has %zu", x.out.size(), n->output_buffers.size())); return false; }
    for (size_t b = 0; b < x.out.size(); b++) { std::string w = strip(n->output_buffers[b].description); if (init) w = strip(w + " " + size_of(n->output_buffers[b].combined_tensor->data)); count("drawn outputs compared");
      if (init ? x.out[b] != w : x.out[b].compare(0, w.size(), w) || x.out[b].find('@') != std::string::npos) { fail("graph-output", "node " + n->unique_name + fmt(" output %zu is drawn as \"", b) + x.out[b] + "\", expected \"" + w + "\""); return false; } }
    for (auto& c : n->input_connections) want.insert(Dot::E{c.node->unique_name, n->unique_name, (int)c.buffer, !c.backprop});
  }
  if (want != d.e) { for (auto& e : want) if (d.e.count(e) != want.count(e)) { fail("graph-edges", "connection " + e.from + fmt(":%d%s -> ", e.buf, e.dotted ? " (no gradient)" : "") + e.to + fmt(" is drawn %zu times instead of %zu", d.e.count(e), want.count(e))); return false; }
    fail("graph-edges", fmt("%zu connections drawn, the network has %zu", d.e.size(), want.size())); return false; }
  count("drawn connections compared", want.size()); return true;
}
static bool draw(NetGraph& g, bool init) {
  std::string a, before = state(g); { std::ostringstream s; g.PrintGraph(s); a = s.str(); } { std::ostringstream s; g.PrintGraph(s); if (s.str() != a) { fail("graph-repeat", "the same network is drawn differently a second time"); return false; } }
  if (state(g) != before) { fail("graph-side-effect", "drawing the network changed it"); return false; } count(init ? "networks drawn" : "networks drawn before they are initialized");
  return judge(g, a, init);
}

static void graphs(Rng& r) {
  gr::Graph g; g.random(r, 9); note("drawing " + g.desc); g.build();
  { NetGraph empty; std::ostringstream s; empty.PrintGraph(s); if (s.str().size()) fail("graph-empty", "an empty network is drawn as " + s.str()); }
  std::set<std::string> names; for (auto* n : g.net.GetNodes()) { if (r.chance(0.2)) n->unique_name += "_" + fmt("%d", (int)r.range(0, 9)); names.insert(n->unique_name); } if (names.size() != g.net.GetNodes().size()) { fail("names", "node names are not unique"); return; }
  if (r.chance(0.3) && !draw(g.net, false)) return;
  g.net.Initialize(); names.clear(); for (auto* n : g.net.GetNodes()) names.insert(n->unique_name); if (names.size() != g.net.GetNodes().size()) { fail("names", "node names are not unique after initialization"); return; }
  g.load(); for (auto* n : g.net.GetNodes()) for (auto& b : n->output_buffers) { b.combined_tensor->data.Clear(); b.combined_tensor->delta.Clear(); }
  if (r.chance(0.5)) { g.net.FeedForward(); if (r.chance(0.5)) g.net.BackPropagate();
    std::string a = state(g.net); g.net.SetLayerViewEnabled(true); g.net.FeedForward(); g.net.SetLayerViewEnabled(false); if (state(g.net) != a) { fail("view-side-effect", "viewing the layers changes the results"); return; } count("passes with layer view"); }
  for (auto* n : g.net.GetNodes()) for (auto& b : n->output_buffers) tu::scatter(*b.combined_tensor);
  if (draw(g.net, true)) nontrivial(G().note);
}

// networks made from descriptions: the layers drawn are those of the text
static bool layers_of(const nd::Net& n, const std::vector<std::string>& titles) {
  static const char* kinds[] = {"Convolutional Layer", "Max-Pooling Layer", "Input Down-Sampling Layer", "H-Max Activation Function", "Local Response Normalization Layer", "Tanh Layer", "Sigmoid Layer", "ReLU Layer"};
  std::map<std::string, int> want, have, wk, hk;
  for (auto& s : n.st) {
    std::string t; switch (s.op) {
      case nd::CONV: t = fmt("Convolutional Layer (%d kernels @ %dx%d)", s.k, s.a, s.b); break;
      case nd::MAXP: case nd::AMAXP: t = fmt("Max-Pooling Layer (%dx%d)", s.a, s.b); break;
      case nd::DOWN: t = fmt("Input Down-Sampling Layer (%dx%d)", s.a, s.b); break;
      case nd::TANH: t = "Tanh Layer"; break; case nd::LRN: t = "Local Response Normalization Layer"; break;
      case nd::SIGM: t = "Sigmoid Layer"; break; case nd::RELU: t = "ReLU Layer"; break; case nd::CONCAT: case nd::PRIOR: t = "Concatenation Layer"; break; case nd::SUM: t = "Sum Layer"; break;
      default: continue; }
    want[t]++;
  }
  for (auto& t : titles) have[t]++;
  // an output step adds an activation of its own
  for (auto& w : want) { int extra = 0; bool act = w.first == "Tanh Layer" || w.first == "Sigmoid Layer"; if (act) extra = 1; int h = have[w.first]; if (h < w.second || h > w.second + extra) { fail("layers-drawn", fmt("%d times \"%s\" drawn, the description has %d", h, w.first.c_str(), w.second)); return false; } count("layers of a description found", w.second); }
  for (auto& h : have) if (!want.count(h.first)) for (const char* k : kinds) if (strcmp(k, "Tanh Layer") && strcmp(k, "Sigmoid Layer") && strcmp(k, "H-Max Activation Function") && h.first.compare(0, strlen(k), k) == 0) { fail("layers-drawn", "\"" + h.first + "\" is drawn, the description has no such layer"); return false; }
  return true;
}

struct Stats { double mn, mx, avg, l2, var, tavg, tl2, tvar; bool ok = true; };
static Stats stats(const M4& m) {
  Stats s; s.mn = 1e300; s.mx = -1e300; double q = 0, t = 0, a = 0, n = (double)m.n(); for (double v : m.d) { if (!std::isfinite(v) || std::fabs(v) > 1e15) s.ok = false; s.mn = std::min(s.mn, v); s.mx = std::max(s.mx, v); t += v; a += std::fabs(v); q += v * v; }
  s.avg = t / n; s.l2 = std::sqrt(q); s.var = 0; for (double v : m.d) s.var += (v - s.avg) * (v - s.avg); s.var /= n;
  const double e = 6e-8 * (n + 8); s.tavg = e * a / n; s.tl2 = e * s.l2 + 1e-22; s.tvar = e * s.var + s.tavg * s.tavg * 4 + 1e-37 + std::fabs(s.tavg) * 1e-6; s.tvar += 4e-7 * std::sqrt(s.var) * (std::fabs(s.avg) + s.tavg); return s;
}
static bool same(double got, double want, double tol) { return std::fabs(got - want) <= tol + 1e-5 * std::fabs(want); }
// the five numbers following position p in a report
struct Rep { double v[5]; bool ok = false; size_t end; };
static Rep report(const std::string& s, size_t p) {
  Rep r; static const char* k[] = {"Minimum", "Maximum", "Average", "L2 Norm", "Variance"}; r.ok = true;
  for (int i = 0; i < 5; i++) { size_t q = s.find(k[i], p); if (q == std::string::npos) { r.ok = false; return r; } size_t c = s.find(':', q); char* e = nullptr; r.v[i] = strtod(s.c_str() + c + 1, &e); if (e == s.c_str() + c + 1) { r.ok = false; return r; } p = c; }
  r.end = p; return r;
}
static bool judge(const Rep& r, const M4& m, const std::string& what) {
  if (!r.ok) { fail("stats-missing", "no complete report for " + what); return false; } if (!m.n()) return true;
  Stats s = stats(m); if (!s.ok) { count("reports on huge or non-finite values"); return true; } count("reported statistics compared", 5);
  if ((float)s.mn != (float)0 ? !same(r.v[0], s.mn, 0) : r.v[0] != 0) { fail("stats-minimum", what + fmt(": minimum reported %g, is %g", r.v[0], s.mn)); return false; }
  if (!same(r.v[1], s.mx, 0)) { fail("stats-maximum", what + fmt(": maximum reported %g, is %g", r.v[1], s.mx)); return false; }
  if (!same(r.v[2], s.avg, s.tavg)) { fail("stats-average", what + fmt(": average reported %g, is %g", r.v[2], s.avg)); return false; }
  if (!same(r.v[3], s.l2, s.tl2)) { fail("stats-norm", what + fmt(": L2 norm reported %g, is %g", r.v[3], s.l2)); return false; }
  if (!same(r.v[4], s.var, s.tvar)) { fail("stats-variance", what + fmt(": variance reported %g, is %g", r.v[4], s.var)); return false; }
  return true;
}
static std::string captured(const std::function<void()>& f, int level) {
  std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); int l = System::log_level; System::log_level = level; try { f(); } catch (...) { std::cout.rdbuf(old); System::log_level = l; throw; } std::cout.rdbuf(old); System::log_level = l; return o.str();
}
static void tensors(Rng& r) {
  size_t s = r.big(1, 4, 40), w = r.big(1, 9, 90), h = r.big(1, 9, 40), m = r.big(1, 5, 30); if (s * w * h * m > 60000) s = 1; int kind = (int)r.range(0, 6); double base = kind == 1 ? r.real(-900, 900) : 0, amp = kind == 2 ? 1e12 : kind == 3 ? 1e-7 : r.real(0.1, 5);
  M4 v(s, w, h, m); for (auto& x : v.d) x = (double)(float)(kind == 4 ? base + 3 : kind == 5 ? -r.real(1, 5) : kind == 6 ? r.real(1, 5) : base + r.real(-amp, amp)); if (r.chance(0.3) && v.n() > 1) v.d[r.chance(0.5) ? v.n() - 1 : 0] = (double)(float)(r.chance(0.5) ? amp * 3 : -amp * 3);
  note(fmt("statistics of %zus@%zux%zux%zum, kind %d, amplitude %g around %g", s, w, h, m, kind, amp, base));
  Tensor t(s, w, h, m); tu::put(t, v); Tensor sh; bool shadow = r.chance(0.3); if (shadow) sh.Shadow(t); Tensor& q = shadow ? sh : t; tu::scatter(q);
  std::string a = captured([&] { q.PrintStats(); }, (int)r.range(2, 3));
  if (!judge(report(a, 0), v, "a tensor")) return;
  M4 after = tu::read(q); if (after.d != v.d) { fail("stats-side-effect", "reporting statistics changed the tensor"); return; }
  if (captured([&] { q.PrintStats(); }, 1).size()) { fail("stats-level", "statistics are reported although information is not to be shown"); return; }
  std::ostringstream o; o << q; if (o.str() != size_of(q) || o.str() != fmt("(%zus@%zux%zux%zum)", s, w, h, m)) { fail("size-text", "a tensor is shown as " + o.str()); return; }
  CombinedTensor both(s, w, h, m); tu::put(both.data, v); CompressedTensor ct; ct.Compress(both.data); o.str(""); o << ct; if (o.str() != "C" + size_of(q)) { fail("size-text", "a compressed tensor is shown as " + o.str()); return; }
  TrainerSettings z; z.learning_rate = (float)r.real(0, 2); z.gamma = (float)r.real(0, 2); z.exponent = (float)r.real(0, 2); z.sbatchsize = r.range(1, 99); z.pbatchsize = r.range(1, 99); z.l1_weight = (float)r.real(0, 2); z.l2_weight = (float)r.real(0, 2); z.momentum = (float)r.real(0, 2); z.mu = (float)r.real(0, 2); z.eta = (float)r.real(0, 2); z.optimization_method = r.chance(0.5) ? QUICKPROP : GRADIENT_DESCENT;
  o.str(""); o << z; std::ostringstream e; e << "LR: " << z.learning_rate << ", GM: " << z.gamma << ", EX: " << z.exponent << ", SB: " << z.sbatchsize << ", PB: " << z.pbatchsize << ", L1: " << z.l1_weight << ", L2: " << z.l2_weight << ", MM: " << z.momentum << ", MU: " << z.mu << ", ET: " << z.eta << ", " << (z.optimization_method == QUICKPROP ? "QP" : "GD"); if (o.str() != e.str()) { fail("settings-text", "settings shown as " + o.str() + ", they are " + e.str()); return; } count("settings shown");
  nontrivial(G().note);
}

static rp::Sink* SINK;
// a session of the training program in which somebody looks around
static void session(Rng& r) {
  std::string dir = G().scratch + "/t"; mkdir(dir.c_str(), 0755); mkdir((dir + "/csv").c_str(), 0755); if (system(("rm -f '" + dir + "'/*.* '" + dir + "'/csv/*").c_str())) {}
  nd::Net n; for (;;) { n = nd::generate(r); bool drop = false; for (auto& q : n.st) drop |= q.drop > 0; if (drop || n.rx < 0 || n.ry < 0 || 64 % n.fx || 64 % n.fy || (n.classes == 1 && n.st.back().op != nd::OUT)) continue; int minw = n.patch ? n.rx + n.fx : 1, minh = n.patch ? n.ry + n.fy : 1; if (minw > 40 || minh > 40) continue; break; }
  int pb = (int)r.range(1, n.patch ? 5 : 2), minw = n.patch ? n.rx + n.fx : 1, minh = n.patch ? n.ry + n.fy : 1; n.text += (n.text.back() == '\n' ? "" : "\n") + fmt("iterations=%d\npbatchsize=%d\nsbatchsize=1\nlr=0.05\n", (int)r.range(1, 2), pb);
  { std::string t; for (auto& l : rp::split(n.text, '\n')) if (l != "lr=0.1" && l != "sbatchsize=2" && l != "") t += l + "\n"; n.text = t; }
  std::string cfg = fmt("classes=%d\n", n.classes); for (int c = 0; c < n.classes; c++) cfg += fmt("c%d\n", c); cfg += "colors\n"; for (int c = 0; c < n.classes; c++) cfg += fmt("0x%06X\n", c * 77 + 1);
  size_t tw = 0, th = 0;
  auto mk = [&](int k, bool te) { std::string b; for (int q = 0; q < k; q++) { size_t w = r.range(minw, minw + 10), h = r.range(minh, minh + 10); if (te) { tw = std::max(tw, w); th = std::max(th, h); } M4 im = tu::random(r, 1, w, h, n.in_maps), l(1, w, h, n.classes);
      for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (n.classes == 1) l.at(x, y, 0, 0) = r.chance(0.5) ? 1 : -1; else l.at(x, y, r.range(0, n.classes - 1), 0) = 1; } b += rp::enc(im) + rp::enc(l); } return b; };
  tu::spew(dir + "/tr.Tensor", mk((int)r.range(1, 3), false)); tu::spew(dir + "/te.Tensor", mk((int)r.range(1, 2), true)); cfg += "training=" + dir + "/tr.Tensor\ntesting=" + dir + "/te.Tensor\n";
  std::string cf = dir + "/d.set"; tu::spew(cf, cfg); tu::spew(dir + "/n.net", n.text); note(n.text + cfg);
  System::stat_aggregator->Reset(); rp::Replay R(n, cf); if (!R.ok) return;
  struct Want { std::string what; bool par; size_t idx; M4 a, b; std::string head; }; std::vector<Want> want; std::vector<std::pair<std::string, bool>> drawn; struct Ep { bool train; unsigned epoch; double loss; }; std::vector<Ep> eps; unsigned epoch = 0; std::string script; bool trained = false, stale = false; std::vector<std::string> saved;
  int cmds = (int)r.range(4, 9);
  for (int c = 0; c < cmds; c++) {
    int k = c == 0 && r.chance(0.8) ? 0 : (int)r.range(0, 9);
    if (k == 0) { script += "train no_snapshots=1\n"; SINK->rows.clear(); System::stat_aggregator->StartRecording(); R.tr->Train(1, false); if (!n.patch) R.tr->SetEpoch(R.tr->epoch()); System::stat_aggregator->StopRecording(); System::stat_aggregator->Generate(); System::stat_aggregator->Reset(); trained = true; stale = false; if (SINK->rows.size() != 1) { fail("rows", "replay recorded no statistics"); return; } eps.push_back(Ep{true, epoch++, SINK->rows[0].loss}); }
    else if (k == 1) { script += "test\n"; if (!n.patch) stale = true; eps.push_back(Ep{false, epoch, 0}); }   // runs the same network
    else if (k == 2) { std::string f = dir + fmt("/g%zu.dot", drawn.size()); bool te = r.chance(0.5); script += "graph file=" + f + (te ? " test\n" : r.chance(0.5) ? " train\n" : "\n"); drawn.push_back({f, te}); }
    else {
      NetGraphNode* q = R.named[r.range(0, (int64_t)R.named.size() - 1)]; bool par = r.chance(0.5); if (par) for (int z = 0; z < 20 && q->layer->parameters().empty(); z++) q = R.named[r.range(0, (int64_t)R.named.size() - 1)];
      bool fresh = par ? trained : trained && !stale; script += (par ? "wstat node=" : "dstat node=") + q->unique_name + "\n"; 
      if (par) for (size_t p = 0; p < q->layer->parameters().size(); p++) { CombinedTensor* t = q->layer->parameters()[p]; want.push_back(Want{q->unique_name + fmt(" parameter %zu", p), true, p, tu::read(t->data), fresh ? tu::read(t->delta) : M4(), fmt("parameter set %zu %s", p, size_of(t->data).c_str())}); }
      else for (auto& b : q->output_buffers) want.push_back(Want{q->unique_name + " buffer " + b.description, false, 0, fresh ? tu::read(b.combined_tensor->data) : M4(), fresh && !q->is_input ? tu::read(b.combined_tensor->delta) : M4(), "buffer " + b.description});
    }
    if (r.chance(0.4)) { std::string f = dir + fmt("/s%zu.Tensor", saved.size()); script += "save file=" + f + "\n"; saved.push_back(R.params()); }
  }
  script += "save file=" + dir + fmt("/s%zu.Tensor\n", saved.size()); saved.push_back(R.params());
  note(fmt("%s session\n", n.patch ? "hybrid" : "fcn") + script + "---\n" + n.text); tu::spew(dir + "/script", script);
  tl::Res t = tl::run("trainNetwork", {cf, dir + "/n.net", dir + "/script"}, "", dir, 100); if (t.sanitizer) return;
  if (t.rc) { fail(t.rc == 2000 ? "hang" : "exit", fmt("exit code %d: ", t.rc) + t.out.substr(t.out.size() > 500 ? t.out.size() - 500 : 0)); return; }
  for (size_t q = 0; q < saved.size(); q++) { if (tu::slurp(dir + fmt("/s%zu.Tensor", q)) != saved[q]) { fail("session-side-effect", fmt("parameters saved in a session with inspections (file %zu) differ from those without", q)); return; } count("saved parameters compared with a session without inspections"); }
  if (t.out.size() < 400000) {
    size_t p = 0; for (size_t q = 0; q < want.size(); q++) {
      p = t.out.find("Reporting stats on ", p); if (p == std::string::npos) { fail("session-reports", fmt("%zu reports, asked for %zu", q, want.size())); return; } p += 19; Want& w = want[q];
      if (t.out.compare(p, w.head.size(), w.head)) { fail("session-head", "report on \"" + t.out.substr(p, 60) + "\" instead of \"" + w.head + "\""); return; }
      Rep a = report(t.out, p); if (!judge(a, w.a, w.what + (w.par ? " weights" : " data"))) return; Rep b = report(t.out, a.end); if (!judge(b, w.b, w.what + (w.par ? " gradients" : " delta"))) return; p = b.end; count("session reports compared"); if (w.a.n()) count("session reports on known values");
    }
    // progress messages
    { TrainerSettings& z = R.set; size_t q = t.out.find("Current training settings: "); double v[10]; static const char* k[] = {"LR: ", "GM: ", "EX: ", "SB: ", "PB: ", "L1: ", "L2: ", "MM: ", "MU: ", "ET: "}; double w[10] = {z.learning_rate, z.gamma, z.exponent, (double)z.sbatchsize, (double)z.pbatchsize, z.l1_weight, z.l2_weight, z.momentum, z.mu, z.eta}; if (q == std::string::npos) { fail("session-settings", "the settings are not shown"); return; }
      std::string l = t.out.substr(q, t.out.find('\n', q) - q); for (int i = 0; i < 10; i++) { size_t u = l.find(k[i]); v[i] = u == std::string::npos ? NAN : atof(l.c_str() + u + 4); if (!(std::fabs(v[i] - w[i]) <= 1e-5 * std::fabs(w[i]))) { fail("session-settings", l + fmt(" but %s is %g", k[i], w[i])); return; } count("shown settings compared"); } if ((l.find("GD") != std::string::npos) != (z.optimization_method == GRADIENT_DESCENT) || (l.find("QP") != std::string::npos) != (z.optimization_method == QUICKPROP)) { fail("session-settings", l); return; } }
    size_t at = 0; std::vector<NetGraphNode*> ln = R.g.GetLossNodes(); for (auto& e : eps) {
      if (e.train) { unsigned long it = R.set.iterations ? R.set.iterations : 0; size_t q = t.out.find("Epoch: ", at); unsigned a = 0, b = 0, c = 0; double lr = 0; if (q == std::string::npos || sscanf(t.out.c_str() + q, "Epoch: %u, it: %u, bsize: %u, current lr: %lf", &a, &b, &c, &lr) != 4) { fail("session-epoch", "a training epoch is not announced"); return; } at = q;
        double want = R.set.learning_rate * std::pow(1.0 + (double)R.set.gamma * e.epoch * it, -(double)R.set.exponent); if (a != e.epoch || b != it || c != R.set.pbatchsize * R.set.sbatchsize || !(std::fabs(lr - want) <= 1e-4 * std::fabs(want))) { fail("session-epoch", t.out.substr(q, 80) + fmt(" but it is epoch %u, %lu iterations of %u, learning rate %g", e.epoch, it, R.set.pbatchsize * R.set.sbatchsize, want)); return; } }
      double sum = 0; bool fin = true; for (size_t q = 0; q < ln.size(); q++) { std::string head = fmt("%s (Epoch %u, node %zu) ", e.train ? "Training" : "Testing", e.epoch, q) + ln[q]->layer->GetLayerDescription() + " lps: "; size_t u = t.out.find(e.train ? "Training (Epoch" : "Testing (Epoch", at); if (u == std::string::npos || t.out.compare(u, head.size(), head)) { fail("session-loss", "expected \"" + head + "\", shown " + (u == std::string::npos ? "nothing" : t.out.substr(u, 90))); return; } at = u + head.size(); double x = atof(t.out.c_str() + at); sum += x; fin &= std::isfinite(x); }
      if (e.train && fin && std::isfinite(e.loss)) { if (!(std::fabs(sum - e.loss) <= 1e-4 * std::fabs(e.loss) + 1e-30)) { fail("session-loss", fmt("losses shown for epoch %u add up to %.8g, recorded are %.8g", e.epoch, sum, e.loss)); return; } count("shown losses compared"); } }
    if (t.out.find("Reporting stats on ", p) != std::string::npos) { fail("session-reports", fmt("more reports than the %zu asked for", want.size())); return; }
  }
  size_t TW = 0, TH = 0; if (n.patch) { std::istringstream c3(cfg); TensorStreamDataset* D = TensorStreamDataset::CreateFromConfiguration(c3, false, LOAD_TESTING_ONLY); TW = D->GetWidth(); TH = D->GetHeight(); delete D; if (TW < tw || TH < th) { fail("session-graph-test", "the testing images do not fit"); return; } }
  for (auto& dr : drawn) {
    std::string s = tu::slurp(dr.first); size_t a = s.find('{'), b = s.rfind('}'); if (s.compare(0, 7, "digraph") || a == std::string::npos || b == a) { fail("session-graph", "the file holds no graph: " + s.substr(0, 80)); return; }
    Dot d(s.substr(a + 1, b - a - 1)); if (d.err.size()) { fail("session-graph-syntax", d.err); return; } count("session graphs compared");
    std::vector<std::string> titles; int stat = 0; for (auto& k : d.n) { size_t c = k.second.title.find(": "); std::string l = c == std::string::npos ? k.second.title : k.second.title.substr(c + 2); titles.push_back(l); if (l == (n.classes == 1 ? "Binary Statistic Layer" : "Confusion Matrix Layer")) { stat++; for (auto& e : d.e) if (e.to == k.first && !e.dotted) { fail("session-graph-stat", "the statistics propagate gradients according to the graph"); return; } } }
    if (stat != (int)R.g.GetOutputNodes().size()) { fail("session-graph-stat", fmt("%d statistics drawn for %zu outputs", stat, R.g.GetOutputNodes().size())); return; }
    if (!layers_of(n, titles)) return;
    bool test = dr.second && n.patch;
    for (auto* q : R.named) { if (!d.n.count(q->unique_name)) { fail("session-graph-node", q->unique_name + " is not drawn"); return; } Dot::N& x = d.n[q->unique_name];
      if (x.title != q->unique_name + ": " + q->layer->GetLayerDescription() && !(n.patch && dr.second)) { fail("session-graph-title", x.title + " is drawn, the node is " + q->layer->GetLayerDescription()); return; }
      if (!test) for (size_t b2 = 0; b2 < x.out.size() && b2 < q->output_buffers.size(); b2++) if (x.out[b2] != strip(strip(q->output_buffers[b2].description) + " " + size_of(q->output_buffers[b2].combined_tensor->data))) { fail("session-graph-size", q->unique_name + " is drawn with " + x.out[b2] + ", it has " + size_of(q->output_buffers[b2].combined_tensor->data)); return; }
      if (test && q->is_input) { std::string sz = fmt("(1s@%zux%zux%dm)", TW, TH, n.in_maps); if (x.out.empty() || x.out[0].find(sz) == std::string::npos) { fail("session-graph-test", "the testing network is drawn with input " + (x.out.empty() ? std::string("none") : x.out[0])); return; } }
    }
  }
  count("progress messages of epochs compared", eps.size()); count(n.patch ? "hybrid sessions" : "fully convolutional sessions"); nontrivial(G().note);
}

static void described(Rng& r) {
  nd::Net n = nd::generate(r); note("drawing\n" + n.text); std::istringstream ss(n.text); ConfigurableFactory f(ss, (int)r.range(1, 99999), true);
  size_t S = r.range(1, 2), w = n.rx + n.fx * r.range(1, 3), h = n.ry + n.fy * r.range(1, 3); if (n.rx < 0 || n.ry < 0 || w > 60 || h > 60) { count("skipped (field of view too large)"); return; }
  if (!n.patch) { w = 64 * 1; h = 64; if (64 % n.fx || 64 % n.fy) { count("skipped (odd factor)"); return; } }
  unsigned lw = n.patch ? 1 : w, lh = n.patch ? 1 : h; if (n.patch) { w = n.rx + n.fx; h = n.ry + n.fy; } Tensor td(S, w, h, n.in_maps), tl(S, lw, lh, n.classes), tp(S, lw, lh, 2), tw(S, lw, lh, 1); NetGraph g;
  NetGraphNode* in = new NetGraphNode(new InputLayer(td, tl, tp, tw)); in->is_input = true; g.AddNode(in);
  f.AddLayers(g, NetGraphConnection(in), n.classes, true); bool before = r.chance(0.3) ? draw(g, false) : true;
  if (before) { g.Initialize(); g.InitializeWeights(); for (auto* k : g.GetNodes()) for (auto& b : k->output_buffers) { b.combined_tensor->data.Clear(); b.combined_tensor->delta.Clear(); }
    if (draw(g, true)) { std::vector<std::string> t; for (auto* k : g.GetNodes()) t.push_back(k->layer->GetLayerDescription()); if (layers_of(n, t)) nontrivial(G().note); } }
  for (auto* k : g.GetNodes()) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; }
}

static void one(Rng& r, int64_t i) {
  if (i % 20 == 19 && getenv("TOOL_trainNetwork")) return session(r);
  if (i % 4 == 0) return described(r);
  if (i % 2 == 0) return tensors(r);
  graphs(r); if (i < 6) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c32_inspect", one, [] {
    tu::init(0); std::string d = G().scratch + "/boot"; mkdir(d.c_str(), 0755); new HMaxActivationFunction(1, 0);
    static nd::Net n; n.text = "?fullyconnected neurons=1\n?output\n"; n.classes = 1; tu::spew(d + "/t", rp::enc(M4(1, 1, 1, 1)) + rp::enc(M4(1, 1, 1, 1))); tu::spew(d + "/c", "classes=1\nx\ncolors\n0x1\ntraining=" + d + "/t\n");
    SINK = new rp::Sink; System::stat_aggregator->RegisterSink(SINK); new rp::Replay(n, d + "/c"); System::stat_aggregator->Initialize();
  }); }
