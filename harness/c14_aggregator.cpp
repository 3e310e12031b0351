// C14: statistics aggregation. Random histories of registrations, updates and
// recording states against a model; what every sink receives and what the CSV
// files contain must be the values accumulated while recording.
#include "tutil.h"
#include "CSVStatSink.h"
#include <chrono>
#include <thread>
#include <sys/stat.h>
using namespace Conv;
using namespace vh;
typedef std::chrono::system_clock Clk;
static double since(Clk::time_point t) { return std::chrono::duration<double>(Clk::now() - t).count(); }

struct MStat { StatDescriptor* d; int kind; double a = 0, n = 0; bool null = false; double off;
  // kinds: 0 sum, 1 last value (null until set), 2 mean, 3 maximum with offset in the output, 4 counts updates,
  // 5 sum that is missing below a threshold, 6 last value, missing while negative
  void init() { a = kind == 3 ? -1e300 : 0; n = 0; }
  void upd(double v) { n++; if (kind == 0 || kind == 2 || kind == 5) a += v; else if (kind == 1 || kind == 6) a = v; else if (kind == 3) a = std::max(a, v); else a++; }
  bool isnull() const { return (kind == 1 && n == 0) || (kind == 5 && !(a >= off)) || (kind == 6 && n && a < 0); }
  double out() const { return kind == 2 ? (n ? a / n : 0) : kind == 3 ? a + off : a; }
};
struct Row { double tr, ep, it; double lo, hi; std::vector<std::pair<bool, double>> v; };
struct Rec : StatSink {
  void Initialize(std::vector<StatDescriptor*>& d) { desc = d; inits++; }
  void SetCurrentExperiment(std::string n) { names.push_back(n); }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) { hc = h; v.clear(); for (auto* x : s) v.push_back({x->is_null, x->value}); n++; }
  std::vector<StatDescriptor*> desc; size_t inits = 0, n = 0; std::vector<std::string> names; HardcodedStats hc; std::vector<std::pair<bool, double>> v;
};
static std::string alnum(const std::string& s) { std::string o; for (unsigned char c : s) if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) o += (char)c; return o; }

static void one(Rng& r, int64_t i) {
  StatAggregator* old = System::stat_aggregator; StatAggregator* A = System::stat_aggregator = new StatAggregator;
  std::string dir = G().scratch; if (chdir(dir.c_str())) { fail("scratch", "chdir"); return; }
  bool nodir = r.chance(0.1); std::string sh = "rm -f csv/*; "; (void)sh;
  ::mkdir("csv", 0755);
  std::vector<MStat*> st; std::vector<Rec*> sinks; CSVStatSink* csv = r.chance(0.8) ? new CSVStatSink : nullptr;
  enum { INIT, STOPPED, REC } state = INIT; double lo = 0, hi = 0; Clk::time_point ts, ts0; bool training = false;
  std::string experiment = "unnamed"; std::map<std::string, std::vector<Row>> files; std::set<std::string> dead; size_t ncsv = 0; std::vector<std::string> header;
  NetStatus net; net.SetIsTesting(r.chance(0.5)); training = !net.IsTesting();
  // the system clock may be stepped; then elapsed times prove nothing
  Clk::time_point c0 = Clk::now(); std::chrono::steady_clock::time_point m0 = std::chrono::steady_clock::now();
  auto skew = [&] { return std::fabs(std::chrono::duration<double>(Clk::now() - c0).count() - std::chrono::duration<double>(std::chrono::steady_clock::now() - m0).count()) > 2e-4; };
  std::string trace; size_t upd = 0, ign = 0;
  std::vector<unsigned> ids;
  auto reg = [&] {
    MStat* m = new MStat; m->kind = (int)r.range(0, 6); m->off = tu::rfloat(r, -2, 2); m->d = new StatDescriptor; static const char* nm[] = {"Average Loss", "F1 Value (%)", "x,y;\"z\"", "", "gr\xc3\xb6\xc3\x9f" "e", "QuickProp Case A Percentage", "A_B-C 12"};
    m->d->description = nm[r.range(0, 6)]; m->d->unit = "u"; m->d->nullable = m->kind == 1 || m->kind >= 5; int k = m->kind; double off = m->off;
    // the library only sees the public callbacks; the value field is theirs to use
    struct Acc { double a = 0, n = 0; }; auto acc = std::make_shared<Acc>();
    m->d->init_function = [=](Stat& s) { acc->a = k == 3 ? -1e300 : 0; acc->n = 0; s.is_null = k == 1 || k == 5; s.value = k == 3 ? -1e300 : 0; };
    m->d->update_function = [=](Stat& s, double v) { acc->n++; if (k != 5) s.is_null = k == 6 && v < 0; if (k == 0 || k == 2 || k == 5) s.value += v; else if (k == 1 || k == 6) s.value = v; else if (k == 3) s.value = std::max(s.value, v); else s.value++; };
    m->d->output_function = [=](HardcodedStats&, Stat& s) -> Stat { Stat o = s; if (k == 2) o.value = acc->n ? s.value / acc->n : 0; if (k == 3) o.value = s.value + off; if (k == 5) o.is_null = !(s.value >= off); return o; };
    unsigned id = A->RegisterStat(m->d); if (m->d->stat_id != id) fail("stat-id", "RegisterStat returns another id than it stores");
    for (unsigned q : ids) if (q == id) fail("stat-id", "two statistics share an id");
    ids.push_back(id); m->init(); st.push_back(m);
  };
  auto check_files = [&] {
    for (auto& f : files) {
      std::istringstream is(tu::slurp("csv/" + f.first + ".csv")); std::string line; size_t n = 0;
      if (!std::getline(is, line)) { fail("csv-missing", "no CSV file for experiment " + f.first); return false; }
      std::string want = "IsTraining,Epoch,Iterations,SecondsElapsed,"; for (size_t k = 0; k < header.size(); k++) want += header[k] + (k + 1 < header.size() ? "," : "");
      if (line != want) { fail("csv-header", "header is '" + line + "', expected '" + want + "'"); return false; }
      while (std::getline(is, line)) {
        if (n >= f.second.size()) { fail("csv-rows", fmt("experiment %s: more than %zu rows", f.first.c_str(), n)); return false; }
        Row& row = f.second[n++]; std::vector<std::string> c(1); for (char ch : line) if (ch == ',') c.push_back(""); else c.back() += ch;
        if (c.size() != 4 + std::max<size_t>(1, header.size())) { fail("csv-columns", fmt("row has %zu columns, header %zu", c.size(), 4 + header.size())); return false; }
        if (atof(c[0].c_str()) != row.tr || c[0].size() != 1 || atof(c[1].c_str()) != row.ep || atof(c[2].c_str()) != row.it) { fail("csv-fixed", "fixed columns are " + c[0] + "," + c[1] + "," + c[2]); return false; }
        double s = atof(c[3].c_str()); if (!skew() && s < row.lo - 1e-6 || !skew() && s > row.hi + 1e-6) { fail("csv-seconds", fmt("%g seconds in the file, recorded between %g and %g", s, row.lo, row.hi)); return false; }
        for (size_t k = 0; k < header.size(); k++) { if (row.v[k].first != c[4 + k].empty()) { fail("csv-null", "column " + header[k] + " is '" + c[4 + k] + "'"); return false; }
          if (!row.v[k].first) { char* e; double v = strtod(c[4 + k].c_str(), &e); if (*e || !(std::fabs(v - row.v[k].second) <= 2e-15 * std::fabs(row.v[k].second))) { fail("csv-value", fmt("column %s holds %s, value %.17g", header[k].c_str(), c[4 + k].c_str(), row.v[k].second)); return false; } count("CSV values compared"); } }
      }
      if (n != f.second.size()) { fail("csv-rows", fmt("experiment %s: %zu rows in the file, %zu reports", f.first.c_str(), n, f.second.size())); return false; }
      count("CSV files compared");
    }
    return true;
  };
  auto report = [&](const char* how) {
    Row row{training ? 1.0 : 0.0, 0, 0, lo, hi, {}}; for (auto* m : st) row.v.push_back({m->isnull(), m->out()});
    for (auto* s : sinks) {
      s->n--; if (s->n != 0) { fail("sink-calls", fmt("a sink received %zu reports for one %s", s->n + 1, how)); return false; }
      if (s->v.size() != row.v.size()) { fail("sink-width", fmt("%zu values reported, %zu statistics registered", s->v.size(), row.v.size())); return false; }
      for (size_t k = 0; k < row.v.size(); k++) { if (s->v[k].first != row.v[k].first) { fail("null", fmt("statistic %zu is %s after:%s", k, s->v[k].first ? "null" : "not null", trace.c_str())); return false; }
        if (!row.v[k].first && !(std::fabs(s->v[k].second - row.v[k].second) <= 1e-12 * (1 + std::fabs(row.v[k].second)))) { fail("value", fmt("statistic %zu (kind %d) reported as %.12g, recorded updates give %.12g; after:%s", k, st[k]->kind, s->v[k].second, row.v[k].second, trace.c_str())); return false; }
        count("reported values compared"); }
      if (s->hc.is_training != training) { fail("training-flag", "report carries the wrong training flag"); return false; }
      if (s->hc.current_experiment != experiment) { fail("experiment", "report carries experiment '" + s->hc.current_experiment + "', current is '" + experiment + "'"); return false; }
      if (!skew() && s->hc.seconds_elapsed < lo - 1e-6 || !skew() && s->hc.seconds_elapsed > hi + 1e-6) { fail("seconds", fmt("%.9g seconds reported, recorded between %.9g and %.9g after:%s", s->hc.seconds_elapsed, lo, hi, trace.c_str())); return false; }
    }
    if (csv && ncsv && !dead.count(experiment)) { Row c = row; c.v.resize(header.size()); files[experiment].push_back(c); }
    count("reports checked");
    return true;
  };
  auto stop = [&] { double in = since(ts); A->StopRecording(); double outr = since(ts0); lo += in; hi += outr; };
  auto start = [&] { Clk::time_point b = Clk::now(); A->StartRecording(); if (state == STOPPED) { ts0 = b; ts = Clk::now(); } };
  auto reset = [&] { for (auto* m : st) m->init(); lo = hi = 0; };
  for (int k = (int)(r.chance(0.03) ? r.range(5, 40) : r.range(0, 4)); k > 0; k--) reg();
  for (int k = (int)r.big(1, 2, 8); k > 0; k--) { sinks.push_back(new Rec); A->RegisterSink(sinks.back()); }
  if (csv) A->RegisterSink(csv);
  auto clear_calls = [&] { for (auto* s : sinks) s->n = 0; };
  int steps = (int)r.range(8, 40);
  bool good = true; Clk::time_point snap0;
  for (int q = 0; q < steps && good; q++) {
    int op = (int)r.range(0, 19); if (state == INIT && q > 4 && r.chance(0.5)) op = 1; if (state == STOPPED && r.chance(0.15)) op = 2; clear_calls(); size_t nm = sinks[0]->names.size();
    bool rep = false;
    switch (op) {
      case 0: if (st.size() < 9 && (state == INIT || r.chance(0.3))) { reg(); trace += " register"; if (state != INIT) count("statistics registered late"); } break;
      case 1: { bool was = state == INIT; if (!was && r.chance(0.5)) break; A->Initialize(); trace += " initialize";
        if (was) { state = STOPPED; reset(); for (auto* m : st) header.push_back(alnum(m->d->description));
          for (auto* s : sinks) { if (s->inits != 1 || s->desc.size() != st.size()) { fail("sink-init", "sinks are not initialised with all statistics"); good = false; break; } if (s->names != std::vector<std::string>{"unnamed"}) { fail("sink-experiment", "sinks are not told the experiment name on initialisation"); good = false; break; } }
          ncsv = 1; files["unnamed"]; }
        else for (auto* s : sinks) if (s->inits != 1) { fail("sink-init", "sinks are initialised again"); good = false; break; }
        break; }
      case 2: case 3: start(); trace += " start"; if (state == STOPPED) state = REC; else if (state == REC) {} break;
      case 4: trace += " stop"; if (state == REC) { stop(); state = STOPPED; } else A->StopRecording(); break;
      case 5: trace += " reset"; A->Reset(); if (state == STOPPED) reset(); break;
      case 6: case 7: trace += " generate"; A->Generate(); rep = state != INIT; if (!rep) count("reports before initialisation"); break;
      case 8: { trace += " snapshot"; if (state == REC) { double in = since(ts); snap0 = Clk::now(); A->Snapshot(); double o = since(ts0); lo += in; hi += o; rep = true; } else A->Snapshot(); break; }
      case 9: { std::string n = fmt("e%d", (int)r.range(0, 3)); if (nodir && r.chance(0.5)) n = "no/such/dir";
        trace += " experiment=" + n; A->SetCurrentExperiment(n);
        if (state == STOPPED) { experiment = n; if (csv) { if (n.find('/') != std::string::npos) dead.insert(n); else files[n].clear(); } for (auto* s : sinks) if (s->names.empty() || s->names.back() != n || s->names.size() != nm + 1) { fail("sink-experiment", "a sink is not told the new experiment name"); good = false; break; } count("experiments"); }
        else for (auto* s : sinks) if (s->names.size() != nm) { fail("sink-experiment", "experiment changed while recording"); good = false; break; }
        break; }
      case 10: { bool t = r.chance(0.5); net.SetIsTesting(t); training = !t; break; }
      case 11: if (r.chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(r.range(100, 3000))); break;
      default: {
        if (st.empty() || r.chance(0.03)) { A->Update((unsigned)(ids.size() + r.range(0, 3)), 5); break; }
        size_t k = r.range(0, st.size() - 1); double v = tu::rfloat(r, -10, 10);
        A->Update(ids[k], v); if (state == REC) { st[k]->upd(v); upd++; } else ign++;
        trace += fmt(" u%zu", k);
      }
    }
    if (!good) break;
    if (trace.size() > 500) trace = trace.substr(trace.size() - 400);
    if (rep) { good = report(op == 8 ? "snapshot" : "report"); if (op == 8) { reset(); ts0 = snap0; ts = Clk::now(); } }  // recording restarted somewhere inside Snapshot()
    else for (auto* s : sinks) if (s->n) { fail("sink-calls", "a sink received a report nobody generated"); good = false; break; }
  }
  note(trace);
  if (good && csv && state != INIT) check_files();
  count("updates while recording", upd); count("updates while not recording", ign);
  if (upd) nontrivial(trace);
  if (i < 5) sample(trace);
  delete csv; for (auto& f : files) ::unlink(("csv/" + f.first + ".csv").c_str()); ::unlink("csv/unnamed.csv");
  for (auto* s : sinks) delete s; delete A; for (auto* m : st) { delete m->d; delete m; }
  System::stat_aggregator = old;
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c14_aggregator", one, [] { tu::init(); }); }
