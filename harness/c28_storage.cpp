// C28: output that the storage does not take completely is reported. The
// amount a file may hold is limited (RLIMIT_FSIZE, /dev/full, paths that
// cannot be opened) at every kind of byte; what the library, the programs and
// the statistics file sink say is compared with what is in the file.
#include "img.h"
#include "desc.h"
#include "tool.h"
#include "CSVStatSink.h"
#include "TensorStream.h"
#include "CompressedTensor.h"
using namespace vh; using namespace Conv; using tu::M4; using nd::V; using im::Img;

static std::string encf(const Tensor& t) {
  std::string o = tu::u64le(t.samples()) + tu::u64le(t.width()) + tu::u64le(t.height()) + tu::u64le(t.maps());
  o.append((const char*)t.data_ptr_const(), t.elements() * 4); return o;
}
static std::string enc(const M4& m) { Tensor t; tu::write(t, m); return encf(t); }
static M4 any(Rng& r, int big, int maps = 0) { M4 t(r.size(1, 3), r.size(1, big), r.size(1, big), maps ? maps : r.size(1, 4)); int z = (int)r.range(0, 2); for (auto& v : t.d) v = z == 0 ? tu::rfloat(r) : z == 1 ? (double)r.range(-1, 1) : r.chance(0.8) ? 0.5 : tu::rfloat(r); return t; }
// files of this process hold at most n bytes while the object lives
struct Room { struct rlimit old; explicit Room(long n) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit l = old; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); } ~Room() { setrlimit(RLIMIT_FSIZE, &old); } };
struct Err { std::ostringstream s; std::streambuf* o; Err() { o = std::cerr.rdbuf(s.rdbuf()); } ~Err() { std::cerr.rdbuf(o); } bool any() { return s.str().find("ERR [") != std::string::npos; } };
// a number of bytes that is not enough for n: nothing, all but one, a full buffer, anything
static long few(Rng& r, size_t n) {
  if (n == 0) return -1;
  long k; switch (r.range(0, 4)) { case 0: k = 0; break; case 1: k = (long)n - 1; break; case 2: k = (long)(r.range(1, 8)) * 4096 + r.range(-1, 1); break; case 3: k = (long)n - r.range(1, 40); break; default: k = r.range(0, (int64_t)n - 1); }
  return k < 0 ? 0 : k >= (long)n ? (long)n - 1 : k;
}
static bool prefix(const std::string& got, const std::string& want, long room) { return (long)got.size() <= room && want.compare(0, got.size(), got) == 0; }
static void seen(const std::string& what, size_t n, long room) { count("writes cut off: " + what); count(room == 0 ? "faults at the first byte" : room == (long)n - 1 ? "faults at the last byte" : "faults in between"); nontrivial(what + fmt(" %zu %ld", n, room)); }

// ---------------------------------------------------------------- library
static void files(Rng& r) {   // Tensor::WriteToFile, 8 bit export, serialisation of tensors, compressed tensors and parameters
  int kind = (int)r.range(0, 5); static const char* ext[] = {"png", "jpg", "Tensor", "Tensor", "CTensor", "data"}; std::string f = G().scratch + "/w." + ext[kind];
  M4 m = kind < 2 ? tu::random(r, 1, r.size(1, 50), r.size(1, 50), 3, 0, 1) : any(r, r.chance(0.2) ? 60 : 9); Tensor t; tu::write(t, m); std::string before = encf(t); CompressedTensor c; if (kind == 4) { Tensor q(t); c.Compress(q); }
  auto write = [&]() -> bool {   // true: reported as written
    try {
      if (kind < 3) { t.WriteToFile(f); return true; }
      std::ofstream o(f, std::ios::binary); if (kind == 3) t.Serialize(o); else if (kind == 4) c.Serialize(o); else t.Serialize(o, true); o.close(); return o.good();
    } catch (std::runtime_error&) { return false; }
  };
  note(fmt("writing %s as %s", m.shape().c_str(), ext[kind]));
  if (!write()) { fail("refused", "an image is refused with all the room there is"); return; } std::string full = tu::slurp(f);
  if (kind == 2 || kind == 3) if (full != before) { fail("content", "the file is not the tensor"); return; }
  long room = few(r, full.size()); if (room < 0) return; note(G().note + fmt(", %ld of %zu bytes fit", room, full.size()));
  bool said; { Room lim(room); said = write(); } std::string cut = tu::slurp(f);
  if (said) { fail(std::string("silent:") + ext[kind], fmt("%zu of %zu bytes were written, no error", cut.size(), full.size())); return; }
  if (!prefix(cut, full, room)) { fail("prefix", fmt("%zu bytes in the file", cut.size())); return; }
  if (encf(t) != before) { fail("modified", "a failed write changed the tensor"); return; }
  { Room lim((long)full.size()); said = write(); } if (!said || tu::slurp(f) != full) { fail("again", "with exactly enough room the file is not written"); return; }
  unlink(f.c_str());
  if (r.chance(0.2)) { std::string keep = f; f = r.chance(0.5) ? G().scratch + "/no such folder/w." + ext[kind] : G().scratch; if (f == G().scratch) { f += std::string("/d.") + ext[kind]; ::mkdir(f.c_str(), 0755); } if (write()) fail("unopened", "a file that cannot be opened is reported as written"); ::rmdir(f.c_str()); f = keep; count("files that cannot be opened"); }
  seen(ext[kind], full.size(), room);
}
static void statistics(Rng& r) {   // the file sink says when a report did not arrive
  std::string dir = G().scratch + "/s"; ::mkdir(dir.c_str(), 0755); ::mkdir((dir + "/csv").c_str(), 0755); if (chdir(dir.c_str())) { fail("scratch", "chdir"); return; }
  int n = (int)r.range(0, 4), rows = (int)r.range(1, 6); std::vector<StatDescriptor> d(n); std::vector<StatDescriptor*> dp; for (int k = 0; k < n; k++) { d[k].description = fmt("stat %d", k); d[k].unit = "u"; dp.push_back(&d[k]); }
  std::vector<std::vector<Stat>> v(rows, std::vector<Stat>(n)); for (auto& a : v) for (auto& s : a) { s.is_null = r.chance(0.2); s.value = tu::rfloat(r, -5, 5); }
  std::string file = dir + "/csv/x.csv";
  auto go = [&](long room, int at, bool& early, std::vector<bool>& said) {   // from report `at` on only `room` bytes fit
    Err e; CSVStatSink s; s.Initialize(dp); early = false; said.assign(rows, false);
    std::unique_ptr<Room> lim; if (at < 0 && room >= 0) lim.reset(new Room(room)); s.SetCurrentExperiment("x"); early = e.any(); e.s.str("");
    for (int k = 0; k < rows; k++) { if (k == at && room >= 0) lim.reset(new Room(room)); HardcodedStats h; h.is_training = k % 2; h.epoch = k; h.iterations = 3 * k; h.seconds_elapsed = 0.25; h.current_experiment = "x"; std::vector<Stat*> p; for (auto& q : v[k]) p.push_back(&q); s.Process(h, p); said[k] = e.any(); e.s.str(""); }
  };
  bool early; std::vector<bool> said; go(-1, 0, early, said); std::string full = tu::slurp(file); if (early || std::count(said.begin(), said.end(), true)) { fail("refused", "statistics are refused with all the room there is"); return; }
  std::vector<size_t> end; for (size_t p = 0; p < full.size(); p++) if (full[p] == '\n') end.push_back(p + 1); if ((int)end.size() != rows + 1) { fail("lines", fmt("%zu lines for %d reports", end.size(), rows)); return; }
  long room = few(r, full.size()); note(fmt("%d statistics, %d reports, %ld of %zu bytes fit", n, rows, room, full.size())); go(room, -1, early, said); std::string cut = tu::slurp(file);
  if (!prefix(cut, full, room)) { fail("prefix", fmt("%zu bytes in the file", cut.size())); return; }
  int line = 0; while ((long)end[line] <= room) line++;   // the line that does not fit
  if (line == 0 ? !early : early) { fail("silent:csv", line ? "an error before the header" : "the header does not fit, no error"); return; }
  if (line > 0) { for (int k = 0; k < line - 1; k++) if (said[k]) { fail("csv-early", fmt("report %d fits, but is reported as an error", k)); return; } if (!said[line - 1]) { fail("silent:csv", fmt("report %d does not fit, no error", line - 1)); return; } }
  seen("csv", full.size(), room); unlink(file.c_str());
}
static void parameters(Rng& r) {   // parameters of a network written through the library
  nd::Net n; do n = nd::generate(r); while (n.rx < 0 || n.ry < 0);
  std::istringstream ss(n.text); ConfigurableFactory f(ss, 7, false); Tensor d(1, 8, 8, n.in_maps), h(1, 8, 8, 2); d.Clear(0); h.Clear(0); (void)f; V p; std::string want; for (auto& s : n.shape) p.push_back(tu::random(r, s.s, s.w, s.h, s.m));
  NetGraph g; InputLayer* il = new InputLayer(d, h); NetGraphNode* in = new NetGraphNode(il); in->is_input = true; g.AddNode(in); std::vector<NetGraphNode*> nodes{in}; int L = (int)r.range(1, 3), maps = n.in_maps;
  for (int k = 0; k < L; k++) { int o = (int)r.range(1, 6); NetGraphNode* c = new NetGraphNode(new ConvolutionLayer(1 + 2 * r.range(0, k == 0 ? 1 : 0), 1, o, 1, 1, 0, 0, 1, 5 + k, 0), NetGraphConnection(nodes.back())); maps = o; if (k == L - 1) c->is_output = true; g.AddNode(c); nodes.push_back(c); }
  (void)maps; g.Initialize(); g.InitializeWeights(); std::vector<CombinedTensor*> ps; g.GetParameters(ps); for (auto* t : ps) want += encf(t->data);
  std::string file = G().scratch + "/p.Tensor"; long room = few(r, want.size()); note(fmt("parameters, %ld of %zu bytes fit", room, want.size()));
  auto write = [&] { std::ofstream o(file, std::ios::binary); try { g.SerializeParameters(o); } catch (std::runtime_error&) { return false; } o.close(); return o.good(); };
  bool said; { Room lim(room); said = write(); } if (said) { fail("silent:parameters", "no error"); return; } if (!prefix(tu::slurp(file), want, room)) { fail("prefix", "parameters"); return; }
  std::string now; for (auto* t : ps) now += encf(t->data); if (now != want) { fail("modified", "a failed save changed parameters"); return; }
  if (!write() || tu::slurp(file) != want) { fail("again", "saving after a failed save"); return; }
  seen("parameters", want.size(), room);
  for (NetGraphNode* k : nodes) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; }
}

// ---------------------------------------------------------------- programs
static int errors(const std::string& s) { int n = 0; for (size_t p = 0; (p = s.find("ERR [", p)) != std::string::npos; p++) n++; return n; }
// runs a program that writes `out`: complete run, cut off run, run with exactly enough room
static void program(Rng& r, const char* tool, const std::vector<std::string>& args, const std::string& out, const std::string& in = "", const std::string& cwd = "", bool interactive = false, const std::function<void()>& restore = nullptr) {
  std::vector<std::pair<std::string, std::string>> in_files; for (auto& a : args) if (a != out && tl::exists(a)) { struct stat st; if (stat(a.c_str(), &st) == 0 && S_ISREG(st.st_mode)) in_files.push_back({a, tu::slurp(a)}); }
  tl::Res t = tl::run(tool, args, in, cwd); if (t.sanitizer) return; if (t.rc) { fail(std::string("refused:") + tool, fmt("exit code %d with all the room there is ", t.rc) + t.out.substr(t.out.size() > 300 ? t.out.size() - 300 : 0)); return; }
  std::string full = tu::slurp(out); long room = few(r, full.size()); if (room < 0) { fail(std::string("nothing:") + tool, "nothing was written"); return; } int usual = errors(t.out);
  std::string what = G().note; note(what + fmt(": %ld of %zu bytes fit", room, full.size())); if (restore) restore(); else unlink(out.c_str());
  t = tl::run(tool, args, in, cwd, 60, room); if (t.sanitizer) return; std::string cut = tu::slurp(out);
  if (t.rc == 2000) { fail(std::string("hang:") + tool, "does not end when its output does not fit"); return; }
  if (interactive ? t.rc != 0 || errors(t.out) <= usual : t.rc == 0) { fail(std::string("silent:") + tool, fmt("%zu of %zu bytes were written; exit code %d, %d errors (usually %d)", cut.size(), full.size(), t.rc, errors(t.out), usual)); return; }
  if (!prefix(cut, full, room)) { fail(std::string("prefix:") + tool, fmt("%zu bytes in the file", cut.size())); return; }
  for (auto& f : in_files) if (tu::slurp(f.first) != f.second) { fail(std::string("input:") + tool, "a failed run changed " + f.first); return; }
  if (restore) restore(); if (r.chance(0.3)) { t = tl::run(tool, args, in, cwd, 60, std::max<long>(full.size(), 1)); if (t.sanitizer) return; if (t.rc || tu::slurp(out) != full) { fail(std::string("again:") + tool, fmt("exit code %d with exactly enough room", t.rc)); return; } }
  seen(tool, full.size(), room);
}
static void tools(Rng& r, int k) {
  std::string dir = G().scratch + "/t"; ::mkdir(dir.c_str(), 0755); int n = (int)r.range(1, 4); std::string b; std::vector<size_t> end{0}; for (int i = 0; i < n; i++) { b += enc(any(r, r.chance(0.2) ? 50 : 9)); end.push_back(b.size()); } std::string f = dir + "/a.Tensor", o = dir + "/o.Tensor"; tu::spew(f, b);
  if (k == 0) { note(fmt("compressing %d tensors", n)); program(r, "compressTensorStream", {f, o}, o); }
  else if (k == 1) { if (n < 2) { b += enc(any(r, 9)); n++; tu::spew(f, b); } int c = (int)r.range(1, n - 1); note(fmt("cutting %d tensors to %d", n, c)); program(r, "tensorStreamTool", {f, fmt("%d", c)}, f, "", "", false, [&] { tu::spew(f, b); }); }
  else if (k == 2) { int id = (int)r.range(0, n - 1); bool bin = r.chance(0.3); note(fmt("editing tensor %d of %d%s", id, n, bin ? ", 8 bit export" : "")); unlink((dir + "/binoutput.data").c_str()); program(r, "tensorTool", {f, fmt("%d", id)}, bin ? dir + "/binoutput.data" : f, bin ? "bin\nq\n" : r.chance(0.5) ? "transpose\nwrite\nq\n" : "write\nsize\nq\n", dir, true, [&] { tu::spew(f, b); }); }
  else if (k == 3) {
    bool comp = r.chance(0.5); unsigned K = r.range(1, 4); std::string cfg = fmt("classes=%u\n", K), li, ll; for (unsigned c = 0; c < K; c++) cfg += fmt("c%u\n", c); cfg += "colors\n"; for (unsigned c = 0; c < K; c++) cfg += fmt("0x%06X\n", c * 0x1234 + 5); tu::spew(dir + "/d.set", cfg);
    int q = (int)r.range(1, 3); for (int i = 0; i < q; i++) { unsigned w = r.size(1, 20), h = r.size(1, 20); Img a = im::noise(r, w, h, 3, 8), l = im::noise(r, w, h, 3, 8); tu::spew(dir + fmt("/im%d.png", i), im::png(r, a, PNG_COLOR_TYPE_RGB)); tu::spew(dir + fmt("/la%d.png", i), im::png(r, l, PNG_COLOR_TYPE_RGB)); li += fmt("im%d.png\n", i); ll += fmt("la%d.png\n", i); }
    tu::spew(dir + "/li", li); tu::spew(dir + "/ll", ll); note(fmt("converting %d images%s", q, comp ? ", compressed" : "")); program(r, comp ? "makeCompressedTensorStream" : "makeTensorStream", {dir + "/d.set", dir + "/li", dir + "/", dir + "/ll", dir + "/", o, "false"}, o);
  } else {
    nd::Net n2; for (;;) { n2 = nd::generate(r, 3); bool drop = false; for (auto& q : n2.st) drop |= q.drop > 0; size_t e = 0; for (auto& q : n2.shape) e += q.n(); if (drop || e == 0 || n2.rx < 0 || n2.ry < 0 || 64 % n2.fx || 64 % n2.fy || n2.rx > 20 || n2.ry > 20 || (n2.classes == 1 && n2.st.back().op != nd::OUT)) continue; break; }
    std::string cfg = fmt("classes=%d\n", n2.classes); for (int c = 0; c < n2.classes; c++) cfg += fmt("c%d\n", c); cfg += "colors\n"; for (int c = 0; c < n2.classes; c++) cfg += fmt("0x%06X\n", c * 77 + 1); std::string p; for (auto& s : n2.shape) p += enc(tu::random(r, s.s, s.w, s.h, s.m, -0.5, 0.5)); tu::spew(dir + "/p.Tensor", p); tu::spew(dir + "/n.net", n2.text);
    if (k == 4) {
      size_t w = r.size(1, 40), h = r.size(1, 40); for (size_t z = 0; ((w + 7) / 8 * 8) % n2.fx || ((h + 7) / 8 * 8) % n2.fy; z++) { w = 64; h = 64; if (z) return; }
      tu::spew(dir + "/d.set", cfg); Img a = im::noise(r, w, h, 3, 8); tu::spew(dir + "/in.png", im::png(r, a, PNG_COLOR_TYPE_RGB)); std::string out = dir + (r.chance(0.5) ? "/out.png" : r.chance(0.5) ? "/out.jpg" : "/out.Tensor"); unlink(out.c_str()); note("classifying, " + out.substr(out.size() - 4)); program(r, "classifyImage", {dir + "/d.set", dir + "/n.net", dir + "/p.Tensor", dir + "/in.png", out}, out);
    } else {
      int minw = n2.patch ? n2.rx + n2.fx : 1, minh = n2.patch ? n2.ry + n2.fy : 1; std::string tr; for (int q = 0; q < 2; q++) { size_t w = r.range(minw, minw + 6), h = r.range(minh, minh + 6); M4 im = tu::random(r, 1, w, h, 3), l(1, w, h, n2.classes); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (n2.classes == 1) l.at(x, y, 0, 0) = r.chance(0.5) ? 1 : -1; else l.at(x, y, r.range(0, n2.classes - 1), 0) = 1; } tr += enc(im) + enc(l); }
      tu::spew(dir + "/tr.Tensor", tr); cfg += "training=" + dir + "/tr.Tensor\ntesting=" + dir + "/tr.Tensor\n"; tu::spew(dir + "/d.set", cfg); bool graph = r.chance(0.25); std::string out = dir + (graph ? "/g.dot" : "/save.Tensor"); unlink(out.c_str());
      std::string cmd = graph ? std::string("graph file=") + out + (r.chance(0.5) ? " test" : "") : "save file=" + out; std::string script = "load file=" + dir + "/p.Tensor\n" + cmd + "\n";
      if (r.chance(0.4)) {   // paths that cannot be written at all; the session goes on and a later command works
        std::string bad = r.chance(0.5) ? "/dev/full" : dir + "/no such folder/x"; if (bad != "/dev/full") bad = dir + "/none/x"; std::string s2 = "load file=" + dir + "/p.Tensor\n" + (graph ? "graph file=" : "save file=") + bad + "\nsave file=" + out + "\n"; note("training session, impossible path " + bad);
        tl::Res t0 = tl::run("trainNetwork", {dir + "/d.set", dir + "/n.net"}, "load file=" + dir + "/p.Tensor\nsave file=" + out + "\n", dir); if (t0.sanitizer) return; std::string full = tu::slurp(out); unlink(out.c_str());
        tl::Res t1 = tl::run("trainNetwork", {dir + "/d.set", dir + "/n.net"}, s2, dir); if (t1.sanitizer) return;
        if (t0.rc || t1.rc) { fail("exit:trainNetwork", fmt("exit codes %d, %d", t0.rc, t1.rc)); return; } if (full != p) { fail("content:trainNetwork", "saved parameters are not the loaded ones"); return; }
        if (errors(t1.out) <= errors(t0.out)) { fail("silent:trainNetwork", "nothing could be written to " + bad + ", no error"); return; } if (tu::slurp(out) != full) { fail("again:trainNetwork", "saving after a failed save"); return; }
        count("impossible paths"); return;
      }
      note(std::string("training session, ") + (graph ? "graph" : "save")); program(r, "trainNetwork", {dir + "/d.set", dir + "/n.net"}, out, script, dir, true);
    }
  }
}
static void one(Rng& r, int64_t i) {
  switch (i % 16) { case 11: tools(r, 0); break; case 12: tools(r, 1); break; case 13: tools(r, 2); break; case 14: tools(r, 3); break; case 15: tools(r, r.chance(0.4) ? 4 : 5); break; case 9: parameters(r); break; case 10: statistics(r); break; default: if (i % 3 == 2) statistics(r); else files(r); }
  if (i < 24) sample(G().note.substr(0, 200));
}
int main(int argc, char** argv) { signal(SIGXFSZ, SIG_IGN); return vh::run(argc, argv, "c28_storage", one, [] { tu::init(); }); }
