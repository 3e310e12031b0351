// C13: classification statistics. Confusion matrix and binary statistics layers
// are fed histories of batches; what they report through the aggregator (and
// print) is compared with counts kept independently in the harness.
#include "tutil.h"
#include "BinaryStatLayer.h"
#include "ConfusionMatrixLayer.h"
using namespace Conv;
using tu::M4;
using namespace vh;

struct Sink : StatSink {
  void Initialize(std::vector<StatDescriptor*>& d) { desc = d; }
  void Process(HardcodedStats&, std::vector<Stat*>& s) { last.clear(); for (auto* x : s) last.push_back(*x); n++; }
  void SetCurrentExperiment(std::string) {}
  const Stat* by(const std::string& name) { for (size_t i = 0; i < desc.size(); i++) if (desc[i]->description == name && i < last.size()) return &last[i]; return nullptr; }
  std::vector<StatDescriptor*> desc; std::vector<Stat> last; size_t n = 0;
};
struct Capture { std::ostringstream s; std::streambuf* o; Capture() { o = std::cout.rdbuf(s.rdbuf()); } ~Capture() { std::cout.rdbuf(o); } };
// one reported value against the expected one (null: not defined)
static bool expect(Sink& k, const char* name, bool defined, double want, double tol = 1e-4) {
  const Stat* s = k.by(name);
  if (!s) { fail("missing", std::string("statistic not reported: ") + name); return false; }
  count(defined ? "defined statistics compared" : "undefined statistics compared");
  if (s->is_null != !defined) { fail(defined ? "null" : "not-null", fmt("%s is %s, %s", name, s->is_null ? "null" : fmt("%g", s->value).c_str(), defined ? fmt("expected %g", want).c_str() : "but is not defined")); return false; }
  if (defined && !(std::fabs(s->value - want) <= tol * (1 + std::fabs(want)))) { fail(std::string("value:") + name, fmt("%s reported as %.10g, counted %.10g", name, s->value, want)); return false; }
  return true;
}
static double wpick(Rng& r, int style) {
  switch (style) {
    case 0: return 1;
    case 1: return r.chance(0.4) ? 0 : r.range(1, 16) / 8.0;
    case 2: return r.chance(0.5) ? 1 : 3e7;                      // counters far beyond 2^24
    case 3: return (float)r.real(0, 3);
    case 5: return r.chance(0.7) ? 0 : 0.25;
    default: return 0;
  }
}

static void confusion(Rng& r, int64_t i) {
  StatAggregator* old = System::stat_aggregator; System::stat_aggregator = new StatAggregator;
  unsigned C = r.chance(0.03) ? r.range(7, 40) : r.range(1, 6); std::vector<std::string> names; for (unsigned c = 0; c < C; c++) names.push_back(fmt("n%u", c) + (r.chance(0.1) ? "averyveryverylongname" : ""));
  size_t s = r.big(1, 3, 12), w = r.big(1, 9, 90), h = r.big(1, 9, 90);
  ConfusionMatrixLayer* L = new ConfusionMatrixLayer(names, C);
  Sink k; System::stat_aggregator->RegisterSink(&k);
  bool early = r.chance(0.3); if (early) System::stat_aggregator->Initialize();
  CombinedTensor a(s, w, h, C), b(s, w, h, C), c(s, w, h, 1);
  std::vector<CombinedTensor*> in{&a, &b, &c}, out; NetStatus st;
  note(fmt("confusion matrix, %u classes, %zus@%zux%zu", C, s, w, h));
  if (!L->CreateOutputs(in, out) || out.size() || !L->Connect(in, out, &st)) { fail("refused", "confusion matrix layer refused matching inputs"); return; }
  if (!early) System::stat_aggregator->Initialize();
  std::vector<double> M(C * C, 0); auto zero = [&] { std::fill(M.begin(), M.end(), 0.0); };
  System::stat_aggregator->StartRecording();
  int steps = (int)r.range(2, 10); bool dis = false;
  for (int q = 0; q < steps; q++) {
    int op = (int)r.range(0, 9);
    if (op < 5) {
      int ws = (int)r.range(0, 5); if (ws == 4 && r.chance(0.7)) ws = 0; bool unit = r.chance(0.1);   // a single counted pixel
      M4 A(s, w, h, C), B(s, w, h, C), W(s, w, h, 1); bool neg = r.chance(0.2), corr = r.chance(0.5), ties = r.chance(0.15);
      unsigned only = r.chance(0.2) ? (unsigned)r.range(0, C - 1) : C;
      for (size_t n = 0; n < s; n++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
        unsigned ac = only < C ? only : (unsigned)r.range(0, C - 1);
        if (r.chance(0.05)) {} else B.at(x, y, ac, n) = 1;
        for (unsigned m = 0; m < C; m++) A.at(x, y, m, n) = ties ? (double)r.range(0, 1) : tu::rfloat(r, -1, 1) - (neg ? 3 : 0) + (corr && m == ac ? 2 : 0);
        W.at(x, y, 0, n) = unit ? (x + y + n == 0) : wpick(r, ws);
        if (!dis) {
          auto am = [&](const M4& t) { unsigned bst = 0; for (unsigned m = 1; m < C; m++) if (t.at(x, y, m, n) > t.at(x, y, bst, n)) bst = m; return bst; };
          M[am(A) * C + am(B)] += W.at(x, y, 0, n);
        }
      }
      tu::put(a.data, A); tu::put(b.data, B); tu::put(c.data, W);
      L->FeedForward(); count("batches fed"); if (dis) count("batches fed while disabled");
      if (r.chance(0.3)) L->BackPropagate();
    } else if (op == 5) { dis = !dis; L->SetDisabled(dis); }
    else if (op == 6 && r.chance(0.5)) { L->Reset(); zero(); count("resets"); }
    else {
      double tot = 0, right = 0; for (unsigned p = 0; p < C; p++) for (unsigned t = 0; t < C; t++) { tot += M[p * C + t]; if (p == t) right += M[p * C + t]; }
      double arr = 0, iou = 0, n = 0;
      for (unsigned t = 0; t < C; t++) {
        double act = 0, pre = 0; for (unsigned p = 0; p < C; p++) { act += M[p * C + t]; pre += M[t * C + p]; }
        if (act > 0) { arr += M[t * C + t] / act; n++; }
        double un = act + pre - M[t * C + t]; if (un > 0) iou += M[t * C + t] / un;
      }
      if (r.chance(0.4)) {   // the printed matrix holds the same counts
        Capture cap; L->Print("P", r.chance(0.5)); std::istringstream is(cap.s.str()); std::string line; std::vector<std::vector<long>> rows;
        while (std::getline(is, line)) {
          size_t p = line.find("RESULT --- "); if (p == std::string::npos) continue; line = line.substr(p + 11); size_t e = line.find("\033"); if (e != std::string::npos) line = line.substr(0, e);
          std::istringstream ls(line); std::string nm; ls >> nm; std::vector<long> v; long x; while (ls >> x) v.push_back(x);
          if (v.size() == C && ls.eof() && line.find("CLS") == std::string::npos && line.find(':') == std::string::npos) rows.push_back(v);
        }
        if (rows.size() != C) { fail("printed-matrix", fmt("%zu matrix rows printed, %u classes", rows.size(), C)); return; }
        for (unsigned p = 0; p < C; p++) for (unsigned t = 0; t < C; t++) if (std::fabs(rows[p][t] - M[p * C + t]) > 1.001 + 1e-6 * M[p * C + t]) { fail("printed-matrix", fmt("row %u column %u printed as %ld, counted %g", p, t, rows[p][t], M[p * C + t])); return; }
        count("printed matrices compared");
      }
      L->UpdateAll(); if (r.chance(0.2)) L->UpdateAll();
      System::stat_aggregator->StopRecording(); System::stat_aggregator->Generate(); System::stat_aggregator->Reset(); System::stat_aggregator->StartRecording();
      bool def = tot >= 1; if (tot > 0 && tot < 1.0000001 && tot > 0.0) { if (tot < 1.0000001 && tot >= 0.999999 && tot != 1) def = !k.by("Overall Recognition Rate")->is_null; }
      if (tot > 0 && tot < 1) count("reports with less than one unit of weight"); if (tot == 1) count("reports with exactly one unit of weight");
      if (!expect(k, "Overall Recognition Rate", def, 100 * right / tot) || !expect(k, "Average Recognition Rate", def, 100 * arr / n) || !expect(k, "Average Intersection over Union", def, 100 * iou / C)) return;
      zero(); count("reports compared");
      if (C > 1 && tot > 0) nontrivial(fmt("%u %zu %zu %zu %g %g", C, s, w, h, tot, right));
    }
  }
  if (i < 8) sample(G().note);
  delete L; delete System::stat_aggregator; System::stat_aggregator = old;
}

static void binary(Rng& r, int64_t i) {
  StatAggregator* old = System::stat_aggregator; System::stat_aggregator = new StatAggregator;
  unsigned T = r.chance(0.3) ? 24 : r.big(1, 30, 300); double lo = -0.458333, hi = 0.5;
  bool deflt = T == 24 && r.chance(0.5); if (!deflt) { lo = tu::rfloat(r, -1, 0.5); hi = r.chance(0.1) ? lo : (double)(float)(lo + r.real(0, 1.5)); }
  size_t s = r.big(1, 3, 12), w = r.big(1, 9, 90), h = r.big(1, 9, 90);
  note(fmt("binary statistics, %u thresholds from %g to %g, %zus@%zux%zu", T, lo, hi, s, w, h));
  BinaryStatLayer* L = deflt ? new BinaryStatLayer() : new BinaryStatLayer(T, (datum)lo, (datum)hi);
  Sink k; System::stat_aggregator->RegisterSink(&k); System::stat_aggregator->Initialize();
  CombinedTensor a(s, w, h, 1), b(s, w, h, 1), c(s, w, h, 1);
  std::vector<CombinedTensor*> in{&a, &b, &c}, out; NetStatus st;
  if (!L->CreateOutputs(in, out) || out.size() || !L->Connect(in, out, &st)) { fail("refused", "binary statistics layer refused matching inputs"); return; }
  std::vector<double> th; for (unsigned t = 0; t < T; t++) th.push_back(T == 1 ? (lo + hi) / 2 : lo + (hi - lo) * t / (T - 1));
  struct Cnt { double tp = 0, fp = 0, tn = 0, fn = 0; }; std::vector<Cnt> cn(T);
  System::stat_aggregator->StartRecording();
  int steps = (int)r.range(2, 10); bool dis = false; int style = (int)r.range(0, 3);
  for (int q = 0; q < steps; q++) {
    int op = (int)r.range(0, 9);
    if (op < 5) {
      int ws = (int)r.range(0, 4); if (ws == 4 && r.chance(0.7)) ws = 0;
      int lab = (int)r.range(0, 4);   // 0: only positive, 1: only negative
      for (size_t e = 0; e < a.data.elements(); e++) {
        double l = lab == 0 ? 1 : lab == 1 ? -1 : r.chance(0.4) ? 1 : -1; if (r.chance(0.03)) l = 0;
        double v = style == 0 ? r.real(-1, 1) : style == 1 ? l * r.real(0, 0.9) + r.real(-0.4, 0.4) : style == 2 ? -l * r.real(0, 1) : r.real(-1, 1) + (r.chance(0.5) ? 2 : -2);
        // keep away from the thresholds: rounding of a threshold decides nothing here
        for (int z = 0; z < 20; z++) { bool near = false; for (double t : th) if (std::fabs(v - t) < 1e-5) near = true; if (!near) break; v += 3.1e-5; }
        v = (float)v; double wt = (float)wpick(r, ws);
        a.data(e) = (float)v; b.data(e) = (float)l; c.data(e) = (float)wt;
        if (!dis) for (unsigned t = 0; t < T; t++) { bool p = v > th[t], x = l > 0; (p ? x ? cn[t].tp : cn[t].fp : x ? cn[t].fn : cn[t].tn) += wt; }
      }
      L->FeedForward(); count("batches fed"); if (dis) count("batches fed while disabled");
    } else if (op == 5) { dis = !dis; L->SetDisabled(dis); }
    else if (op == 6 && r.chance(0.5)) { L->Reset(); for (auto& x : cn) x = Cnt(); count("resets"); }
    else {
      L->UpdateAll();
      System::stat_aggregator->StopRecording(); System::stat_aggregator->Generate(); System::stat_aggregator->Reset(); System::stat_aggregator->StartRecording();
      auto f1 = [](const Cnt& x) { if (x.tp + x.fp <= 0 || x.tp + x.fn <= 0) return -1.0; return 2 * x.tp / (2 * x.tp + x.fp + x.fn); };
      double best = -1; for (auto& x : cn) best = std::max(best, f1(x));
      // which threshold was chosen?  any that reaches the best F1
      auto near = [&](const char* n, bool def, double want) { const Stat* z = k.by(n); return z && z->is_null == !def && (!def || std::fabs(z->value - want) <= 2e-4 * (1 + want)); };
      bool hit = false; std::string got; for (const char* n : {"F1 Value", "Precision", "Recall", "False Positive Rate", "False Negative Rate", "Accuracy"}) { const Stat* z = k.by(n); got += fmt(" %s %s", n, !z ? "missing" : z->is_null ? "null" : fmt("%.7g", z->value).c_str()); }
      std::string cand;
      for (auto& x : cn) if (f1(x) >= best - 1e-5) {
        double P = x.tp + x.fn, N = x.fp + x.tn, Q = x.tp + x.fp;
        bool ok = near("F1 Value", best >= 0, 100 * f1(x)) && near("Precision", Q > 0, 100 * x.tp / Q) && near("Recall", P > 0, 100 * x.tp / P) && near("False Positive Rate", N > 0, 100 * x.fp / N) &&
                  near("False Negative Rate", P > 0, 100 * x.fn / P) && near("Accuracy", P + N > 0, 100 * (x.tp + x.tn) / (P + N));
        if (ok) hit = true;
        if (cand.size() < 300) cand += fmt(" {tp %g fp %g tn %g fn %g}", x.tp, x.fp, x.tn, x.fn);
      }
      count(best >= 0 ? "reports compared" : "reports without a defined F1 compared");
      if (!hit) { fail("binary", "reported" + got + "; counts at the best thresholds:" + cand); return; }
      if (best > 0 && T > 1) nontrivial(fmt("%u %g %g %g", T, lo, hi, best));
      for (auto& x : cn) x = Cnt();
    }
  }
  if (i < 8) sample(G().note);
  delete L; delete System::stat_aggregator; System::stat_aggregator = old;
}

static void refusal(Rng& r) {
  StatAggregator* old = System::stat_aggregator; System::stat_aggregator = new StatAggregator;
  bool bin = r.chance(0.5); size_t s = r.range(1, 3), w = r.range(1, 6), h = r.range(1, 6), m = bin ? 1 : r.range(1, 4);
  size_t d[3][4] = {{s, w, h, m}, {s, w, h, m}, {s, w, h, 1}}; int how = (int)r.range(0, 7); if (bin && how == 4) how = 1;
  if (how == 0) d[1][r.range(0, 2)] += r.range(1, 2); else if (how == 1) d[2][bin ? r.range(0, 2) : 0] += 1; else if (how == 2) d[0][r.range(0, 2)] += r.range(1, 2);
  else if (how == 3 && !bin) d[2][r.range(1, 2)] += 1; else if (how == 3) {}
  unsigned C = how == 4 ? (unsigned)m : (unsigned)(m + r.range(0, 2));
  if (how == 4) { d[0][3] += 1; d[1][3] += 1; }
  note(fmt("%s must refuse %zus@%zux%zux%zu / %zus@%zux%zux%zu / %zus@%zux%zux%zu, kind %d", bin ? "binary statistics" : "confusion matrix", d[0][0], d[0][1], d[0][2], d[0][3], d[1][0], d[1][1], d[1][2], d[1][3], d[2][0], d[2][1], d[2][2], d[2][3], how));
  CombinedTensor* t[3]; for (int k = 0; k < 3; k++) t[k] = new CombinedTensor(d[k][0], d[k][1], d[k][2], d[k][3]);
  std::vector<CombinedTensor*> in{t[0], t[1], t[2]}, out; NetStatus st;
  if (bin && how == 3) in.resize(r.range(0, 2));
  CombinedTensor extra(s, w, h, m); int k = (int)r.range(0, 2);
  Layer* L = bin ? (Layer*)new BinaryStatLayer(4, 0, 1) : (Layer*)new ConfusionMatrixLayer(std::vector<std::string>(C, "x"), C);
  std::vector<CombinedTensor*> bad = in;
  if (how == 5) { bad[k] = nullptr; note(G().note + fmt(": input %d is missing", k)); } else if (how == 6) { if (r.chance(0.5)) bad.pop_back(); else bad.push_back(&extra); note(G().note + ": wrong number of inputs"); }
  bool early = how > 4 && r.chance(0.5);   // wired correctly first, connected wrongly afterwards
  bool refused = !L->CreateOutputs(early || how == 7 ? in : bad, out);
  if (early && refused) { fail("refused", "matching inputs are refused"); }
  if (how == 7) { out.push_back(&extra); note(G().note + ": connected to an output"); }
  if (!refused) refused = !L->Connect(bad, out, &st);
  if (!refused) { if (how < 5) L->FeedForward(); fail("not-refused", "statistics over inputs of different sizes are not refused"); }
  count("mismatched inputs tried");
  delete L; for (auto* x : t) delete x;
  delete System::stat_aggregator; System::stat_aggregator = old;
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, "c13_stats", [](Rng& r, int64_t i) { int k = (int)(i % 9); if (k == 8) refusal(r); else if (k % 2) binary(r, i); else confusion(r, i); }, [] { tu::init(); });
}
