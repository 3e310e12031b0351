// C23: the training program does what its script says, reproducibly.  The same
// script is replayed on the library in this process (training commands only),
// every saved parameter file must agree bit for bit; statistics reported for
// the test set are recomputed with an independent interpreter of the network
// description in double precision; the CSV files hold one row per epoch/test.
#include "replay.h"
#include "InputLayer.h"
using namespace vh; using namespace Conv; using tu::M4; using nd::V; using rp::Replay; using rp::enc; using rp::encf; using rp::split; using rp::Sink;

static Sink* SINK;
struct Want { bool training; unsigned long epoch, iters; double loss = 0; bool stats = false; double orr, arr, iou; bool weightless = false, bound = false; double lo, hi; int exp = 0; bool nosnap = false, tstat = true; };
// The program's gradient check: the verdict counts must be those of the same check done here, element by element, through the library.
static void gradients(Rng& r, nd::Net& n, const std::string& cf, const std::string& dir, int pb, int nte) {
  std::istringstream ss(n.text); ConfigurableFactory f(ss, 8347734, true); f.InitOptimalSettings(); std::ifstream c(cf); Dataset* D; TensorStreamDataset* fd = nullptr; TensorStreamPatchDataset* pd = nullptr;
  if (n.patch) D = pd = (TensorStreamPatchDataset*)TensorStreamPatchDataset::CreateFromConfiguration(c, false, LOAD_BOTH, f.patchsizex(), f.patchsizey()); else D = fd = TensorStreamDataset::CreateFromConfiguration(c, false, LOAD_BOTH);
  unsigned W = D->GetWidth(), H = D->GetHeight(); bool enough = D->GetTestingSamples() >= (unsigned)pb; std::string none; note("gradient check\n" + n.text);
  long total = 0, lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
  if (enough) {
    unsigned lw = n.patch ? 1 : W, lh = n.patch ? 1 : H; Tensor* d = new Tensor(pb, W, H, D->GetInputMaps()); Tensor* l = new Tensor(pb, lw, lh, D->GetLabelMaps()); Tensor* hp = new Tensor(pb, lw, lh, 2); Tensor* wt = new Tensor(pb, lw, lh, 1);
    for (int b = 0; b < pb; b++) if (!D->GetTestingSample(*d, *l, *hp, *wt, b, b)) { fail("sample", "testing sample refused"); return; }
    NetGraph g; NetGraphNode* in = new NetGraphNode(new InputLayer(*d, *l, *hp, *wt)); in->is_input = true; g.AddNode(in);
    if (!f.AddLayers(g, NetGraphConnection(in), D->GetClasses(), true)) { fail("incomplete", "description reported as incomplete"); return; }
    g.Initialize(); g.InitializeWeights(); g.FeedForward(); g.BackPropagate();
    std::vector<CombinedTensor*> all; for (NetGraphNode* k : g.GetNodes()) for (CombinedTensor* p : k->layer->parameters()) all.push_back(p);
    for (NetGraphNode* k : g.GetNodes()) if (!k->layer->IsNotGradientSafe()) for (CombinedTensor* p : k->layer->parameters()) for (size_t e = 0; e < p->data.elements(); e++) {
      datum old = p->data.data_ptr()[e]; const double eps = 0.005; p->data.data_ptr()[e] = old + eps; g.FeedForward(); double a = g.AggregateLoss(); p->data.data_ptr()[e] = old - eps; g.FeedForward(); double b = g.AggregateLoss(); p->data.data_ptr()[e] = old;
      double num = (a - b) / (2 * eps), rep = p->delta.data_ptr_const()[e], q = num == 0 && rep == 0 ? 1 : num / rep; total++;
      auto cls = [](double v, double s) { return std::fabs(v - 1) <= 0.02 + s ? 0 : std::fabs(v - 1) <= 0.2 + s ? 1 : 2; };
      int c1 = cls(q, 1e-7), c2 = cls(q, -1e-7); hi[c1]++; if (c2 != c1) hi[c2]++; else lo[c1]++;
    }
    for (NetGraphNode* k : g.GetNodes()) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; }
  }
  std::vector<std::string> args; if (r.chance(0.1)) args.push_back("-v"); args.push_back(cf); args.push_back(dir + "/n.net"); args.push_back("gradient_check");
  tl::Res t = tl::run("trainNetwork", args, "train\n", dir, 100); delete fd; delete pd; if (t.sanitizer) return;
  std::string tail = t.out.substr(t.out.size() > 600 ? t.out.size() - 600 : 0);
  if (!enough) { if (t.rc == 0 || t.rc == 2000) fail("gradient-refusal", fmt("fewer testing samples (%d images) than a batch (%d), exit code %d", nte, pb, t.rc)); count("gradient checks without enough samples"); return; }
  if (t.rc) { fail("gradient-exit", fmt("exit code %d: ", t.rc) + tail); return; }
  long sum = 0; const char* kk[] = {" tested gradients okay", " tested gradients tolerable", " tested gradients failed"};
  for (int k = 0; k < 3; k++) { long a = -1, b = -1; size_t q = t.out.rfind(kk[k]), w = q == std::string::npos ? q : t.out.rfind("--- ", q); if (w != std::string::npos) sscanf(t.out.c_str() + w + 4, "%ld of %ld", &a, &b);
    if (b != total || a < lo[k] || a > hi[k]) { fail("gradient-count", fmt("%ld of %ld%s, the check done here finds %ld to %ld of %ld: ", a, b, kk[k], lo[k], hi[k], total) + tail); return; } sum += a; }
  if (sum != total) { fail("gradient-count", fmt("%ld verdicts on %ld values", sum, total)); return; }
  count("gradients judged by the program", total); count("gradient check sessions"); nontrivial(G().note); if (hi[2]) count("gradient checks with failing elements");
}

static void one(Rng& r, int64_t i) {
  bool grad = r.chance(0.12);
  std::string dir = G().scratch + "/t"; mkdir(dir.c_str(), 0755); mkdir((dir + "/csv").c_str(), 0755); if (system(("rm -f '" + dir + "'/*.* '" + dir + "'/csv/*").c_str())) {}
  nd::Net n; for (;;) { n = nd::generate(r); bool drop = false; for (auto& q : n.st) drop |= q.drop > 0; if (drop || n.rx < 0 || n.ry < 0 || 64 % n.fx || 64 % n.fy) continue; if (n.classes == 1 && n.st.back().op != nd::OUT) continue; if (grad) { size_t e = 0; for (auto& q : n.shape) e += q.n(); if (e > 400) continue; } break; }
  // settings
  std::string head; int iters = (int)r.range(1, 3), pb = (int)r.range(1, n.patch ? 6 : 2), sb = (int)r.range(1, 2);
  head += fmt("iterations=%d\npbatchsize=%d\nsbatchsize=%d\n", iters, pb, sb); head += fmt("lr=%g\n", r.pick(std::vector<double>{0.01, 0.1, 0.5}));
  if (r.chance(0.5)) head += "momentum=0.9\n"; if (r.chance(0.5)) head += "l2=0.001\n"; if (r.chance(0.3)) head += "l1=0.001\n"; if (r.chance(0.3)) head += "gamma=0.01\nexponent=0.75\n"; if (r.chance(0.2)) head += "optimization=quickprop\nmu=1.75\n";
  n.text = r.chance(0.5) ? head + n.text : n.text + (n.text.back() == '\n' ? "" : "\n") + head;
  { std::string t; std::istringstream is(n.text); std::string l; bool first = true; while (std::getline(is, l)) { // the generator sprinkles settings of its own: keep only ours
      bool s = l == "l2=0.01" || l == "lr=0.1" || l == "momentum=0.9" || l == "sbatchsize=2"; if (s && head.find(l + "\n") == std::string::npos) continue; t += (first ? "" : "\n") + l; first = false; } n.text = t + "\n"; }
  // data
  std::vector<unsigned> cols; std::string cfg = fmt("classes=%d\n", n.classes); for (int c = 0; c < n.classes; c++) cfg += fmt("c%d\n", c); cfg += "colors\n"; for (int c = 0; c < n.classes; c++) cfg += fmt("0x%06X\n", c * 77 + 1);
  if (r.chance(0.4)) { cfg += "weights\n"; for (int c = 0; c < n.classes; c++) cfg += fmt("%g\n", 0.5 * r.range(1, 6)); }
  int ntr = (int)r.range(1, 3), nte = (int)r.range(n.patch ? 1 : 0, 3); int minw = n.patch ? n.rx + n.fx : 1, minh = n.patch ? n.ry + n.fy : 1; if (minw > 50 || minh > 50) { count("skipped (field of view too large)"); return; }
  auto mk = [&](int k) { std::string b; for (int q = 0; q < k; q++) { size_t w = r.range(minw, minw + 10), h = r.range(minh, minh + 10); M4 im = tu::random(r, 1, w, h, n.in_maps), l(1, w, h, n.classes);
      for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (n.classes == 1) l.at(x, y, 0, 0) = r.chance(0.5) ? 1 : -1; else l.at(x, y, r.range(0, n.classes - 1), 0) = 1; } b += enc(im) + enc(l); } return b; };
  tu::spew(dir + "/tr.Tensor", mk(ntr)); cfg += "training=" + dir + "/tr.Tensor\n"; if (nte) { tu::spew(dir + "/te.Tensor", mk(nte)); cfg += "testing=" + dir + "/te.Tensor\n"; }
  std::string cf = dir + "/d.set"; tu::spew(cf, cfg); tu::spew(dir + "/n.net", n.text);
  { std::string pb2; for (auto& s : n.shape) pb2 += enc(tu::random(r, s.s, s.w, s.h, s.m, -0.6, 0.6)); tu::spew(dir + "/given.Tensor", pb2); }
  if (grad) { gradients(r, n, cf, dir, pb, nte); return; }
  // script and replay
  std::string script; std::vector<std::string> saved; std::vector<std::string> expect; std::vector<Want> rows; std::vector<std::string> exps{"unnamed"}; int cur = 0; bool tstat = true; size_t dstats = 0, wstats = 0; std::string log;
  note(n.text + cfg);
  System::stat_aggregator->Reset();
  Replay R(n, cf); if (!R.ok) return;
  if (R.set.iterations != (unsigned)iters || R.set.pbatchsize != (unsigned)pb || R.set.sbatchsize != (unsigned)sb) { fail("settings", "settings of the description are not in effect"); return; }
  unsigned epoch = 0; int cmds = (int)r.range(2, 7); bool broken = false;
  std::string teCfg; { std::string c2; for (auto& l : split(cfg, '\n')) if (l.compare(0, 9, "training=")) c2 += l + "\n"; teCfg = c2; }
  for (int c = 0; c < cmds && !broken; c++) {
    int k = (int)r.range(0, 11); std::string line;
    if (k <= 3) {
      unsigned E = r.chance(0.5) ? 1 : (unsigned)r.range(1, 3); bool ns = r.chance(0.3); if (r.chance(0.06)) { E = 0; ns = false; } line = "train"; if (E != 1 || r.chance(0.3)) line += fmt(" epochs=%u", E); if (ns) line += " no_snapshots=1"; else if (r.chance(0.1)) line += " no_snapshots=0"; if (r.chance(0.1)) line += " view=0";
      SINK->rows.clear(); System::stat_aggregator->StartRecording(); R.tr->Train(E, !ns); if (!n.patch) R.tr->SetEpoch(R.tr->epoch()); System::stat_aggregator->StopRecording(); if (ns) System::stat_aggregator->Generate(); System::stat_aggregator->Reset();
      if (SINK->rows.size() != (ns ? 1 : E)) { fail("rows", "replay recorded no statistics"); return; }
      for (auto& q : SINK->rows) { Want w; w.training = true; w.epoch = q.h.epoch; w.iters = q.h.iterations; w.loss = q.loss; w.exp = cur; w.nosnap = ns; w.tstat = tstat; rows.push_back(w); }
      epoch += E; log += fmt(" train%u", E);
    } else if (k <= 6 && nte) {
      line = "test"; Want w; w.training = false; w.exp = cur; w.epoch = 0; w.iters = 0;
      V par = R.values(); bool fin = true; for (auto& m : par) for (double v : m.d) fin &= std::isfinite(v) && std::fabs(v) < 1e4;
      if (n.classes > 1 && fin) {
        std::istringstream c3(teCfg); TensorStreamDataset* D = TensorStreamDataset::CreateFromConfiguration(c3, false, LOAD_BOTH); unsigned W = D->GetWidth(), H = D->GetHeight();
        std::vector<double> mat(n.classes * n.classes, 0), per(n.classes, 0); double right = 0, tot = 0, unsure = 0, sure = 0;
        for (unsigned q = 0; q < D->GetTestingSamples(); q++) {
          Tensor d(1, W, H, n.in_maps), l(1, W, H, n.classes), hp(1, W, H, 2), wt(1, W, H, 1); if (!D->GetTestingSample(d, l, hp, wt, 0, q)) { fail("sample", "test sample refused"); return; }
          M4 hm = tu::read(hp); nd::Interp I{n, par, true, hm}; M4 o = I.run(tu::read(d));
          for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) { double v = *wt.data_ptr_const(x, y, 0, 0); if (v == 0) continue;
            int b = 0, lb = 0; for (int m = 1; m < n.classes; m++) { if (o.at(x, y, m, 0) > o.at(x, y, b, 0)) b = m; if (*l.data_ptr_const(x, y, m, 0) > *l.data_ptr_const(x, y, lb, 0)) lb = m; }
            double second = -1e300; for (int m = 0; m < n.classes; m++) if (m != b) second = std::max(second, o.at(x, y, m, 0)); if (o.at(x, y, b, 0) - second < 1e-3) unsure += v; else if (b == lb) sure += v;
            mat[b * n.classes + lb] += v; per[lb] += v; tot += v; if (b == lb) right += v; count("test pixels judged"); }
        }
        delete D;
        if (tot < 1) w.weightless = true;
        else if (unsure == 0) { w.stats = true; w.orr = 100 * right / tot; double s = 0; int cc = 0; for (int m = 0; m < n.classes; m++) if (per[m] > 0) { s += mat[m * n.classes + m] / per[m]; cc++; } w.arr = 100 * s / cc;
          s = 0; for (int m = 0; m < n.classes; m++) { double u = mat[m * n.classes + m]; for (int q = 0; q < n.classes; q++) if (q != m) u += mat[m * n.classes + q] + mat[q * n.classes + m]; s += u > 0 ? mat[m * n.classes + m] / u : 0; } w.iou = 100 * s / n.classes; count("test results predicted"); }
        else { w.bound = true; w.lo = 100 * sure / tot; w.hi = 100 * (sure + unsure) / tot; }
      }
      rows.push_back(w); log += " test";
    } else if (k == 7) {
      bool own = saved.size() && r.chance(0.5); std::string f = own ? saved[r.range(0, (int64_t)saved.size() - 1)] : dir + "/given.Tensor"; line = "load file=" + f; std::string b = own ? "" : tu::slurp(f);
      if (own) for (size_t q = 0; q < saved.size(); q++) if (saved[q] == f) b = expect[q];
      unsigned ll = r.chance(0.3) ? (unsigned)r.range(1, 6) : 0; if (ll) line += fmt(" last_layer=%u", ll);
      std::istringstream is(b); R.g.DeserializeParameters(is, ll); if (!ll) { if (R.params() != b) { fail("replay", "loading does not give the parameters of the file"); return; } } log += ll ? " load-part" : " load";
    } else if (k == 8) { line = "reset"; R.g.InitializeWeights(); R.tr->Reset(); log += " reset"; }
    else if (k == 9) { epoch = (unsigned)r.range(0, 9); line = fmt(r.chance(0.5) ? "set epoch epoch=%u" : "set epoch=%u", epoch); R.tr->SetEpoch(epoch); log += " epoch"; }
    else if (k == 10 && r.chance(0.4)) { tstat = r.chance(0.4); line = fmt("tstat enable=%d", tstat); log += tstat ? " stats-on" : " stats-off"; }
    else if (k == 10) { exps.push_back(fmt("exp%d", c)); cur = (int)exps.size() - 1; line = "set experiment name=" + exps.back(); log += " experiment"; }
    else { line = r.pick(std::vector<std::string>{"", "nonsense", "help", "tstat enable=0", "tstat enable=1", "tstat enable=0", "load file=" + dir + "/missing.Tensor", "save", "load", "graph file=" + dir + "/g.dot", "graph file=" + dir + "/g.dot test", "set experiment", "wstat node=none", "dstat node=none", "dstat", "quit now"});
      if (r.chance(0.4)) { std::vector<NetGraphNode*>& nn = R.named; NetGraphNode* q = nn[r.range(0, (int64_t)nn.size() - 1)]; bool d = r.chance(0.5); line = (d ? "dstat node=" : "wstat node=") + q->unique_name; (d ? dstats : wstats) += d ? q->output_buffers.size() : q->layer->parameters().size(); } if (line.compare(0, 5, "tstat") == 0) tstat = line.back() == '1'; log += " other"; }
    script += line + "\n";
    if (r.chance(0.5) || c == cmds - 1) { std::string f = dir + fmt("/s%zu.Tensor", saved.size()); saved.push_back(f); expect.push_back(R.params()); script += "save file=" + f + "\n"; }
  }
  bool viastdin = r.chance(0.2); int end = (int)r.range(0, 2); if (end == 0) script += r.chance(0.5) ? "quit\nsave file=" + dir + "/never.Tensor\n" : "q\n"; else if (end == 1) script.pop_back();
  note(fmt("%s, %d+%d images, it %d batch %d x %d:", n.patch ? "hybrid" : "fcn", ntr, nte, iters, pb, sb) + log + (viastdin ? " (stdin)" : "") + "\n" + script + "---\n" + n.text);
  tu::spew(dir + "/script", script);
  std::vector<std::string> args; if (r.chance(0.05)) args.push_back("-v"); args.push_back(cf); args.push_back(dir + "/n.net"); if (!viastdin) args.push_back(dir + "/script");
  tl::Res t = tl::run("trainNetwork", args, viastdin ? script : "", dir, 100); if (t.sanitizer) return;
  if (t.rc) { fail(t.rc == 2000 ? "hang" : "exit", fmt("exit code %d: ", t.rc) + t.out.substr(t.out.size() > 500 ? t.out.size() - 500 : 0)); return; }
  if (tl::exists(dir + "/never.Tensor")) fail("after-quit", "a command after quit was executed");
  { size_t d = 0, w = 0; for (size_t p = 0; (p = t.out.find("Reporting stats on buffer", p)) != std::string::npos; p++) d++; for (size_t p = 0; (p = t.out.find("Reporting stats on parameter set", p)) != std::string::npos; p++) w++;
    if (t.out.size() < 400000 && (d != dstats || w != wstats)) { fail("reports", fmt("%zu buffer and %zu parameter reports, asked for %zu and %zu: ", d, w, dstats, wstats) + t.out.substr(t.out.size() > 1500 ? t.out.size() - 1500 : 0)); return; } count("tensor reports", d + w); }
  for (size_t q = 0; q < saved.size(); q++) {
    std::string got = tu::slurp(saved[q]); count("saved parameter files compared");
    if (got != expect[q]) { size_t p = 0; while (p < got.size() && p < expect[q].size() && got[p] == expect[q][p]) p++; fail("parameters", fmt("saved parameters %zu differ from the replay (%zu/%zu bytes, first at %zu)", q, got.size(), expect[q].size(), p)); return; }
  }
  // statistics
  // the console shows the rows of the files, in the order they were recorded
  struct Block { std::string epoch; std::vector<std::pair<std::string, std::string>> v; }; std::vector<Block> con; bool whole = t.out.size() < 400000; std::vector<size_t> next(exps.size(), 0);
  if (whole) for (auto l : split(t.out, '\n')) {
    size_t p = l.find("RESULT --- "); if (p == std::string::npos) continue; l = l.substr(p + 11); p = l.find("\033"); if (p != std::string::npos) l = l.substr(0, p);
    if (l.compare(0, 16, "Stats for epoch ") == 0) { Block b; b.epoch = l.substr(16, l.find(':') - 16); con.push_back(b); continue; }
    p = l.find(": "); if (p == std::string::npos || con.empty()) continue; std::string d = l.substr(0, p), v = l.substr(p + 2), dn; for (char c : d) if (isalnum((unsigned char)c)) dn += c; size_t b = v.find_first_not_of(' '); if (b == std::string::npos) continue; v = v.substr(b); con.back().v.push_back({dn, v.substr(0, v.find(' '))});
  }
  if (whole && con.size() != rows.size()) { fail("console-rows", fmt("%zu reports on the console, %zu expected", con.size(), rows.size())); return; }
  if (whole) for (size_t q = 0; q < rows.size(); q++) {
    size_t e = rows[q].exp; std::vector<std::string> L = split(tu::slurp(dir + "/csv/" + exps[e] + ".csv"), '\n'); size_t k = ++next[e]; if (k >= L.size()) break; std::vector<std::string> h = split(L[0], ','), v = split(L[k], ','); if (h.size() != v.size() || h.size() < 4) break;
    if (con[q].epoch != v[1]) { fail("console-epoch", fmt("report %zu on the console is for epoch %s, the file says %s", q, con[q].epoch.c_str(), v[1].c_str())); return; }
    { std::vector<std::pair<std::string, std::string>> own; for (auto& x : con[q].v) if (std::find(h.begin() + 4, h.end(), x.first) != h.end()) own.push_back(x); con[q].v = own; }   // the rest is the confusion matrix
    size_t i = 0; for (size_t c = 4; c < h.size(); c++) { if (v[c].empty()) continue; if (i >= con[q].v.size() || con[q].v[i].first != h[c]) { fail("console-values", "the console's report lacks " + h[c]); return; } double x = atof(con[q].v[i].second.c_str()), y = atof(v[c].c_str()); i++; count("values on the console compared");
      if (!(std::fabs(x - y) <= 1e-5 * std::fabs(y)) && !(std::isnan(x) && std::isnan(y)) && x != y) { fail("console-values", fmt("%s is %.9g on the console, %.9g in the file", h[c].c_str(), x, y)); return; } }
    if (i != con[q].v.size()) { fail("console-values", "the console reports " + con[q].v[i].first + ", the file has no value for it"); return; }
  }
  for (size_t e = 0; e < exps.size(); e++) {
    std::vector<Want> w; for (auto& q : rows) if (q.exp == (int)e) w.push_back(q);
    std::string csv = tu::slurp(dir + "/csv/" + exps[e] + ".csv"); std::vector<std::string> L = split(csv, '\n'); if (L.size() && L.back().empty()) L.pop_back();
    if (L.size() != w.size() + 1) { fail("csv-rows", fmt("experiment %s has %zu rows, expected %zu", exps[e].c_str(), L.size() - 1, w.size())); return; }
    std::vector<std::string> h = split(L[0], ',');
    for (size_t q = 0; q < w.size(); q++) {
      std::vector<std::string> v = split(L[q + 1], ','); if (v.size() != h.size()) { fail("csv-columns", "a row has another number of columns than the header"); return; }
      auto col = [&](const std::string& name) { std::string s; for (size_t k = 0; k < h.size(); k++) if (h[k] == name && v[k].size()) s = v[k]; return s; };
      count("statistics rows compared");
      if (col("IsTraining") != (w[q].training ? "1" : "0")) { fail("csv-training", fmt("row %zu of %s: IsTraining is %s", q, exps[e].c_str(), col("IsTraining").c_str())); return; }
      if (w[q].training) {
        if (col("Epoch") != fmt("%lu", w[q].epoch) || col("Iterations") != fmt("%lu", w[q].iters)) { fail("csv-epoch", "row " + L[q + 1] + fmt(": expected epoch %lu, %lu iterations", w[q].epoch, w[q].iters)); return; }
        double l = atof(col("AverageAggregateLoss").c_str()); if (!(std::fabs(l - w[q].loss) <= 1e-9 * std::fabs(w[q].loss)) && !(std::isnan(l) && std::isnan(w[q].loss))) { fail("csv-loss", fmt("loss %.12g, replay %.12g", l, w[q].loss)); return; }
        if (!w[q].tstat) count("rows without training statistics"); else if (!col("OverallRecognitionRate").empty()) count("rows with training statistics");
        if (!w[q].tstat && !col("OverallRecognitionRate").empty()) { fail("csv-stats", "statistics are reported for training although disabled"); return; }
      } else if (w[q].bound) {
        double a = atof(col("OverallRecognitionRate").c_str()); if (!(a >= w[q].lo - 1e-6 && a <= w[q].hi + 1e-6)) { fail("csv-test", fmt("recognition rate %.9g, at least %.9g and at most %.9g of the test set is right", a, w[q].lo, w[q].hi)); return; }
        count("test results bounded");
      } else if (w[q].stats) {
        double a = atof(col("OverallRecognitionRate").c_str()), b = atof(col("AverageRecognitionRate").c_str()), c = atof(col("AverageIntersectionoverUnion").c_str());
        if (col("OverallRecognitionRate").empty() || std::fabs(a - w[q].orr) > 1e-6 || std::fabs(b - w[q].arr) > 1e-6 || std::fabs(c - w[q].iou) > 1e-6) { fail("csv-test", fmt("test row reports %.9g/%.9g/%.9g, the network and test set give %.9g/%.9g/%.9g", a, b, c, w[q].orr, w[q].arr, w[q].iou)); return; }
        count("test results compared");
      }
    }
  }
  count(n.patch ? "hybrid sessions" : "fully convolutional sessions"); nontrivial(G().note); if (i < 4) sample(G().note.substr(0, 300));
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c23_train", one, [] {
    tu::init(0);
    SINK = new Sink; System::stat_aggregator->RegisterSink(SINK);
    std::string d = G().scratch + "/boot"; mkdir(d.c_str(), 0755); new HMaxActivationFunction(1, 0);
    nd::Net n; n.text = "?fullyconnected neurons=1\n?output\n"; n.classes = 1; tu::spew(d + "/t", enc(M4(1, 1, 1, 1)) + enc(M4(1, 1, 1, 1))); tu::spew(d + "/c", "classes=1\nx\ncolors\n0x1\ntraining=" + d + "/t\n");
    new Replay(n, d + "/c");   // the trainer registers its statistics on first use
    System::stat_aggregator->Initialize();
  }); }
