// C29: input that cannot be read is an error, never a hang and never silently
// shortened data. Reading a chosen file fails from a chosen byte on (EIO), its
// second open fails (EMFILE), its memory map fails (ENOMEM), it is a folder or
// missing, or it ends inside a tensor; the outcome is compared with a run in
// which nothing fails.
#include "img.h"
#include "desc.h"
#include "tool.h"
#include "io_shim.h"
#include "TensorStream.h"
#include "FloatTensorStream.h"
#include "CompressedTensorStream.h"
#include "ListTensorStream.h"
#include "CompressedTensor.h"
using namespace vh; using namespace Conv; using tu::M4; using nd::V; using im::Img;

static std::string encf(const Tensor& t) {
  std::string o = tu::u64le(t.samples()) + tu::u64le(t.width()) + tu::u64le(t.height()) + tu::u64le(t.maps());
  if (t.elements()) o.append((const char*)t.data_ptr_const(), t.elements() * 4); return o;
}
static std::string enc(const M4& m) { Tensor t; tu::write(t, m); return encf(t); }
static std::string encc(const M4& m) { Tensor t; tu::write(t, m); CompressedTensor c; c.Compress(t); std::ostringstream o; c.Serialize(o); return o.str(); }
static M4 any(Rng& r, int big, int maps = 0, size_t s = 1) { M4 t(s, r.size(1, big), r.size(1, big), maps ? maps : r.size(1, 4)); int z = (int)r.range(0, 2); for (auto& v : t.d) v = z == 0 ? tu::rfloat(r) : z == 1 ? (double)r.range(-1, 1) : r.chance(0.8) ? 0.5 : tu::rfloat(r); return t; }
static std::string digest(TensorStream* s) { std::string o = fmt("%u tensors;", s->GetTensorCount()); for (unsigned k = 0; k < s->GetTensorCount(); k++) { Tensor t(1, s->GetWidth(k), s->GetHeight(k), s->GetMaps(k)); t.Clear(-3); s->CopySample(k, 0, t, 0); o += encf(t); } return o; }
static std::string digest(Dataset* d) {
  std::string o = fmt("%u %u %u %u %u %u;", d->GetTrainingSamples(), d->GetTestingSamples(), d->GetWidth(), d->GetHeight(), d->GetInputMaps(), d->GetLabelMaps()); bool p = d->GetMethod() == PATCH; unsigned W = d->GetWidth(), H = d->GetHeight(); for (auto& n : d->GetClassNames()) o += n + ";";
  for (int t = 0; t < 2; t++) for (unsigned q = 0, n = t ? d->GetTestingSamples() : d->GetTrainingSamples(); q < n; q += std::max(1u, n / 6)) { Tensor a(1, W, H, d->GetInputMaps()), l(1, p ? 1 : W, p ? 1 : H, d->GetLabelMaps()), h(1, p ? 1 : W, p ? 1 : H, 2), w(1, p ? 1 : W, p ? 1 : H, 1); if (t) d->GetTestingSample(a, l, h, w, 0, q); else d->GetTrainingSample(a, l, h, w, 0, q); o += encf(a) + encf(l) + encf(h) + encf(w); }
  return o;
}
struct File { std::string path; std::vector<size_t> ends; bool opened_twice = false, mapped = false; };   // ends: where the file may end and is complete, as far as it goes (empty: anywhere)
struct Op { std::string name; std::vector<File> files; std::function<std::string()> go; };

static Op op(Rng& r, int k) {
  std::string dir = G().scratch + "/i"; ::mkdir(dir.c_str(), 0755); Op o;
  auto stream = [&](const std::string& f, bool comp, int n, const std::function<M4(int)>& mk) { std::string b; std::vector<size_t> e{0}; if (comp) { uint64_t m = CN24_CTS_MAGIC; b = std::string((char*)&m, 8); e.push_back(8); } for (int q = 0; q < n; q++) { b += comp ? encc(mk(q)) : enc(mk(q)); e.push_back(b.size()); } tu::spew(f, b); File x; x.path = f; x.ends = e; x.opened_twice = true; x.mapped = n > 0; return x; };
  auto picture = [&](const std::string& f, unsigned w, unsigned h) { Img a = im::noise(r, w, h, 3, 8); bool j = f.back() == 'g' && f[f.size() - 2] == 'p'; tu::spew(f, j ? im::jpg(r, a, 90) : im::png(r, a, PNG_COLOR_TYPE_RGB)); };
  if (k == 0) { static const char* ext[] = {"png", "jpg", "Tensor"}; int e = (int)r.range(0, 2); std::string f = dir + "/a." + ext[e]; File x; x.path = f; if (e < 2) picture(f, r.size(1, 60), r.size(1, 60)); else { std::string b = enc(any(r, r.chance(0.2) ? 60 : 9, 0, r.size(1, 2))); tu::spew(f, b); x.ends = {0, b.size()}; } o.name = std::string("loading ") + ext[e]; o.files = {x}; o.go = [f] { Tensor t; t.LoadFromFile(f); return encf(t); }; }
  else if (k == 1) { bool comp = r.chance(0.5); int n = (int)r.size(1, 5), big = r.chance(0.2) ? 60 : 9, m = (int)r.range(1, 4); File x = stream(dir + (comp ? "/s.CTensor" : "/s.Tensor"), comp, n, [&](int) { return any(r, big, m); }); bool direct = r.chance(0.5); o.name = fmt("%s stream%s", comp ? "compressed" : "float", direct ? "" : " by name"); o.files = {x};
    o.go = [=]() -> std::string { std::unique_ptr<TensorStream> s; if (!direct) s.reset(TensorStream::FromFile(x.path)); else { if (comp) s.reset(new CompressedTensorStream()); else s.reset(new FloatTensorStream()); s->LoadFile(x.path); } return digest(s.get()); }; }
  else if (k == 2) { int n = (int)r.range(1, 3); std::string li, ll; std::vector<File> fs; for (int q = 0; q < n; q++) { unsigned w = r.size(1, 20), h = r.size(1, 20); std::string a = dir + fmt("/im%d.png", q), b = dir + fmt("/la%d.png", q); picture(a, w, h); picture(b, w, h); li += fmt("im%d.png\n", q); ll += fmt("la%d.png\n", q); fs.push_back({a}); fs.push_back({b}); }
    tu::spew(dir + "/li", li); tu::spew(dir + "/ll", ll); File a, b; a.path = dir + "/li"; b.path = dir + "/ll"; fs.push_back(a); fs.push_back(b); fs.push_back(a); fs.push_back(b); o.name = "image list"; o.files = fs; std::string spec = "list:" + dir + "/li;" + dir + "/;" + dir + "/ll;" + dir + "/"; o.go = [spec] { std::unique_ptr<TensorStream> s(TensorStream::FromFile(spec, {0x000000, 0xffffff})); return digest(s.get()); }; }
  else if (k == 3 || k == 4) {
    bool patch = k == 4, comp = !patch && r.chance(0.4), nommap = patch && r.chance(0.5); unsigned K = r.range(2, 4), im = r.range(1, 3), px = r.range(1, 4), py = r.range(1, 4); std::string cfg; if (nommap) cfg += "nommap\n"; cfg += fmt("classes=%u\n", K); for (unsigned c = 0; c < K; c++) cfg += fmt("c%u\n", c); cfg += "colors\n"; for (unsigned c = 0; c < K; c++) cfg += fmt("0x%06X\n", c * 0x1234 + 5); if (r.chance(0.5)) { cfg += "weights\n"; for (unsigned c = 0; c < K; c++) cfg += fmt("%u.5\n", c); }
    std::vector<File> fs; for (int t = 0; t < 2; t++) if (t == 0 || r.chance(0.6)) { M4 im2; File x = stream(dir + (t ? "/te.Tensor" : "/tr.Tensor"), comp, 2 * (int)r.size(1, 3), [&](int q) { if (q % 2 == 0) { im2 = M4(1, r.range(px, px + 7), r.range(py, py + 7), im); for (auto& v : im2.d) v = tu::rfloat(r, -1, 1); return im2; } M4 l(1, im2.w, im2.h, K); for (size_t y = 0; y < l.h; y++) for (size_t xx = 0; xx < l.w; xx++) l.at(xx, y, r.range(0, K - 1), 0) = 1; return l; }); x.opened_twice = !nommap; x.mapped = !nommap; fs.push_back(x); cfg += (t ? "testing=" : "training=") + x.path + "\n"; }
    if (r.chance(0.3)) cfg += "# " + std::string(r.range(1, 9000), 'x') + "\n"; tu::spew(dir + "/d.set", cfg); File c; c.path = dir + "/d.set"; fs.push_back(c); std::string p = c.path; o.name = patch ? nommap ? "patch dataset, not mapped" : "patch dataset" : "dataset"; o.files = fs;
    o.go = [=] { std::ifstream f(p); if (patch) { std::unique_ptr<TensorStreamPatchDataset> d(TensorStreamPatchDataset::CreateFromConfiguration(f, false, LOAD_BOTH, px, py)); return digest(d.get()); } std::unique_ptr<TensorStreamDataset> d(TensorStreamDataset::CreateFromConfiguration(f, false, LOAD_BOTH)); return digest(d.get()); };
  } else if (k == 5) {
    nd::Net n; do n = nd::generate(r); while (n.rx < 0 || n.ry < 0); std::string t = n.text; if (r.chance(0.3)) t += "# " + std::string(r.range(1, 9000), 'y') + "\n"; tu::spew(dir + "/n.net", t); File x; x.path = dir + "/n.net"; o.name = "network description"; o.files = {x}; int in = n.in_maps, cl = n.classes; int which = (int)r.range(0, 1); if (which) o.name += ", settings"; std::string p = x.path;
    o.go = [=] {
      std::ifstream f(p); ConfigurableFactory fac(f, 7, false); std::string s = fmt("%d %d %d %d;", fac.patchsizex(), fac.patchsizey(), (int)fac.optimal_settings().pbatchsize, (int)fac.optimal_settings().iterations);
      if (which) { fac.InitOptimalSettings(); std::ostringstream q; q << fac.optimal_settings(); s += q.str(); return s; }
      NetGraph g; int w = std::max(fac.patchsizex(), 1), h = std::max(fac.patchsizey(), 1); Tensor d(1, w, h, in), hp(1, w, h, 2); d.Clear(0); hp.Clear(0); NetGraphNode* node = new NetGraphNode(new InputLayer(d, hp)); node->is_input = true; g.AddNode(node);
      fac.AddLayers(g, NetGraphConnection(node), cl, false); for (NetGraphNode* q : g.GetNodes()) s += q->layer->GetLayerDescription() + ";"; return s;
    };
  } else {
    int L = (int)r.range(1, 3), maps = (int)r.range(1, 3); std::vector<M4> ps; std::string b; std::vector<size_t> ends{0}; std::vector<int> width; int m = maps; for (int q = 0; q < L; q++) { int out = (int)r.range(1, 6); width.push_back(out); ps.push_back(tu::random(r, out, 1, 1, m)); ps.push_back(tu::random(r, 1, out, 1, 1)); m = out; } (void)ps;
    struct Net { NetGraph g; std::vector<NetGraphNode*> n; Tensor d, h; std::vector<CombinedTensor*> p; Net(int maps, const std::vector<int>& w) : d(1, 4, 4, maps), h(1, 4, 4, 2) { d.Clear(0); h.Clear(0); NetGraphNode* in = new NetGraphNode(new InputLayer(d, h)); in->is_input = true; g.AddNode(in); n.push_back(in); for (size_t q = 0; q < w.size(); q++) { NetGraphNode* c = new NetGraphNode(new ConvolutionLayer(1, 1, w[q], 1, 1, 0, 0, 1, (unsigned)(5 + q), 0), NetGraphConnection(n.back())); if (q + 1 == w.size()) c->is_output = true; g.AddNode(c); n.push_back(c); } g.Initialize(); g.InitializeWeights(); g.GetParameters(p); } std::string text() { std::string s; for (auto* t : p) s += encf(t->data); return s; } ~Net() { for (NetGraphNode* k : n) { for (auto& b : k->output_buffers) delete b.combined_tensor; delete k->layer; delete k; } } };
    { Net t(maps, width); for (auto* q : t.p) { for (size_t e = 0; e < q->data.elements(); e++) q->data.data_ptr()[e] = (float)tu::rfloat(r, -2, 2); b += encf(q->data); ends.push_back(b.size()); } }
    std::string f = dir + "/p.Tensor"; tu::spew(f, b); File x; x.path = f; x.ends = ends; o.name = "network parameters"; o.files = {x};
    o.go = [=] { Net t(maps, width); std::ifstream s(f, std::ios::binary); if (!s.good()) throw std::runtime_error("no file"); bool failed = false; std::string why; try { t.g.DeserializeParameters(s); } catch (std::runtime_error& e) { failed = true; why = e.what(); } if (!failed) return t.text(); io_fault_clear(); std::istringstream again(b); t.g.DeserializeParameters(again); if (t.text() != b) fail("again:parameters", "parameters loaded after a failed load are not those of the file"); throw std::runtime_error(why); };
  }
  return o;
}
// what happened: refused, or the digest
static bool attempt(const Op& o, std::string& dg) { try { dg = o.go(); return true; } catch (std::bad_alloc&) { throw; } catch (std::exception&) { return false; } }
static void library(Rng& r, int k) {
  Op o = op(r, k); std::string want, got; note(o.name); io_fault_clear();
  if (!attempt(o, want)) { fail("refused:" + o.name, "refused although nothing fails"); return; }
  for (int z = 0; z < 3; z++) {
    File& f = o.files[r.range(0, (int64_t)o.files.size() - 1)]; std::string b = tu::slurp(f.path); int kind = (int)r.range(0, 9);
    std::string base = f.path.substr(f.path.rfind('/') + 1);
    if (kind < 6) {   // a device error
      long at = -1; int on = 0, mn = 0; std::string what;
      if (kind == 4 && f.opened_twice) { on = (int)r.range(1, 3); what = fmt("open number %d of %s fails", on, base.c_str()); }
      else if (kind == 5 && f.mapped) { mn = (int)r.range(1, 3); what = fmt("map number %d of %s fails", mn, base.c_str()); }
      else { at = r.chance(0.2) ? 0 : r.chance(0.2) ? (long)b.size() : r.chance(0.2) ? std::max<long>(0, (long)b.size() - r.range(1, 40)) : !f.ends.empty() && r.chance(0.5) ? std::max<long>(0, (long)f.ends[r.range(0, f.ends.size() - 1)] + r.range(-2, 33)) : r.range(0, (int64_t)b.size()); what = fmt("reading %s fails at byte %ld of %zu", base.c_str(), at, b.size()); }
      note(o.name + ": " + what); io_fault_set(f.path.c_str(), at, on, mn); bool ok = attempt(o, got); long hits = io_fault_hits(); io_fault_clear();
      if (hits && ok) { fail("silent:" + o.name, got == want ? "the error is not reported (result complete)" : "the error is not reported and the result is another one"); return; }
      if (!hits && !ok) { fail("refused:" + o.name, "refused although nothing failed"); return; }
      if (ok && got != want) { fail("result:" + o.name, "another result although nothing failed"); return; }
      if (hits) { count(on ? "failing opens" : mn ? "failing memory maps" : "failing reads"); count("device errors: " + o.name); nontrivial(o.name + base + fmt(" %ld %d %d %zu", at, on, mn, b.size())); } else count("faults that were not reached");
    } else if (kind < 8) {   // not a file
      note(o.name + ": " + base + (kind == 6 ? " is a folder" : " is missing")); std::string keep = f.path + ".keep"; rename(f.path.c_str(), keep.c_str()); if (kind == 6) ::mkdir(f.path.c_str(), 0755);
      bool ok = attempt(o, got); if (kind == 6) ::rmdir(f.path.c_str()); rename(keep.c_str(), f.path.c_str());
      if (ok) { fail((kind == 6 ? "folder:" : "missing:") + o.name, "accepted"); return; } count(kind == 6 ? "folders" : "missing files"); count("folders and missing files: " + o.name);
    } else if (!f.ends.empty() && b.size() > 1) {   // the file ends early
      size_t at = r.chance(0.5) ? (size_t)r.range(0, (int64_t)b.size() - 1) : std::min<size_t>(b.size() - 1, f.ends[r.range(0, f.ends.size() - 1)] + r.range(1, 40)); bool clean = std::find(f.ends.begin(), f.ends.end(), at) != f.ends.end();
      note(o.name + fmt(": %s ends after %zu of %zu bytes%s", base.c_str(), at, b.size(), clean ? " (between tensors)" : "")); tu::spew(f.path, b.substr(0, at)); bool ok = attempt(o, got); tu::spew(f.path, b);
      if (!clean && ok) { fail("cut:" + o.name, "a file that ends inside a tensor is accepted"); return; } count(clean ? "files ending between tensors" : "files ending inside a tensor"); if (!clean) nontrivial(o.name + base + fmt(" cut %zu %zu", at, b.size()));
    }
    if (attempt(o, got) ? got != want : true) { fail("after:" + o.name, "after the fault is gone the result is not the usual one"); return; }
  }
}

static int errors(const std::string& s) { int n = 0; for (size_t p = 0; (p = s.find("ERR [", p)) != std::string::npos; p++) n++; return n; }
static std::vector<std::string> fault_env(const std::string& path, long at) { unlink((G().scratch + "/hits").c_str()); return {"IOF_PATH=" + path, fmt("IOF_AT=%ld", at), "IOF_LOG=" + G().scratch + "/hits"}; }
// runs a program once without and twice with a fault of one of its inputs
static void program(Rng& r, const char* tool, const std::vector<std::string>& args, const std::vector<std::string>& inputs, const std::string& in = "", const std::string& cwd = "", bool interactive = false, const std::function<void()>& restore = nullptr) {
  const long room = 60000000; if (restore) restore(); tl::Res t0 = tl::run(tool, args, in, cwd, 60, room); if (t0.sanitizer) return; std::string what = G().note;
  if (t0.rc) { fail(std::string("refused:") + tool, fmt("exit code %d although nothing fails ", t0.rc) + t0.out.substr(t0.out.size() > 300 ? t0.out.size() - 300 : 0)); return; }
  for (int z = 0; z < 2; z++) {
    if (restore) restore(); std::string f = r.pick(inputs), b = tu::slurp(f), base = f.substr(f.rfind('/') + 1); std::map<std::string, std::string> before; for (auto& q : inputs) before[q] = tu::slurp(q);
    int kind = (int)r.range(0, 3); bool hit = true; tl::Res t; long at = -1;
    if (kind < 2) { at = r.chance(0.25) ? 0 : r.chance(0.2) ? (long)b.size() : r.range(0, (int64_t)b.size()); note(what + fmt(": reading %s fails at byte %ld of %zu", base.c_str(), at, b.size())); t = tl::run(tool, args, in, cwd, 20, room, fault_env(f, at)); hit = tl::exists(G().scratch + "/hits"); }
    else { note(what + ": " + base + (kind == 2 ? " is a folder" : " is missing")); std::string keep = f + ".keep"; rename(f.c_str(), keep.c_str()); if (kind == 2) ::mkdir(f.c_str(), 0755); t = tl::run(tool, args, in, cwd, 20, room); if (kind == 2) ::rmdir(f.c_str()); else if (tl::exists(f)) { fail(std::string("created:") + tool, "a missing input was created"); unlink(f.c_str()); } rename(keep.c_str(), f.c_str()); }
    if (t.sanitizer) return;
    if (t.rc == 2000) { fail(std::string("hang:") + tool, "does not end"); return; }
    if (!hit) { if (t.rc || errors(t.out) != errors(t0.out)) { fail(std::string("refused:") + tool, fmt("exit code %d although the fault was not reached", t.rc)); return; } count("program faults that were not reached"); continue; }
    bool err = t.rc != 0 || (interactive && errors(t.out) > errors(t0.out));
    if (!err) { fail(std::string("silent:") + tool, fmt("exit code %d, %d errors (usually %d)", t.rc, errors(t.out), errors(t0.out))); return; }
    for (auto& q : before) if (tu::slurp(q.first) != q.second) { fail(std::string("input:") + tool, "a failed run changed " + q.first.substr(q.first.rfind('/') + 1)); return; }
    count(std::string("program errors: ") + tool); count(kind < 2 ? "program read errors" : kind == 2 ? "program folders" : "program missing files"); nontrivial(std::string(tool) + base + fmt(" %d %ld %zu", kind, at, b.size()));
  }
}
static void tools(Rng& r, int k) {
  std::string dir = G().scratch + "/t"; ::mkdir(dir.c_str(), 0755); int n = (int)r.range(2, 4); std::string b; for (int i = 0; i < n; i++) b += enc(any(r, r.chance(0.2) ? 50 : 9)); std::string f = dir + "/a.Tensor", o = dir + "/o.Tensor"; tu::spew(f, b);
  if (k == 0) { note(fmt("compressing %d tensors", n)); program(r, "compressTensorStream", {f, o}, {f}); }
  else if (k == 1) { int c = (int)r.range(1, n - 1); note(fmt("cutting %d tensors to %d", n, c)); program(r, "tensorStreamTool", {f, fmt("%d", c)}, {f}, "", "", false, [&] { tu::spew(f, b); }); }
  else if (k == 2) { int id = (int)r.range(0, n - 1); note(fmt("editing tensor %d of %d", id, n)); program(r, "tensorTool", {f, fmt("%d", id)}, {f}, "size\nq\n", dir); }
  else {
    nd::Net n2; for (;;) { n2 = nd::generate(r, 3); bool drop = false; for (auto& q : n2.st) drop |= q.drop > 0; size_t e = 0; for (auto& q : n2.shape) e += q.n(); if (drop || e == 0 || n2.rx < 0 || n2.ry < 0 || 64 % n2.fx || 64 % n2.fy || n2.rx > 20 || n2.ry > 20 || (n2.classes == 1 && n2.st.back().op != nd::OUT)) continue; break; }
    std::string cfg = fmt("classes=%d\n", n2.classes); for (int c = 0; c < n2.classes; c++) cfg += fmt("c%d\n", c); cfg += "colors\n"; for (int c = 0; c < n2.classes; c++) cfg += fmt("0x%06X\n", c * 77 + 1); std::string p; for (auto& s : n2.shape) p += enc(tu::random(r, s.s, s.w, s.h, s.m, -0.5, 0.5)); tu::spew(dir + "/p.Tensor", p); tu::spew(dir + "/n.net", n2.text); tu::spew(dir + "/d.set", cfg);
    if (k == 3) { bool comp = r.chance(0.5); std::string li, ll; std::vector<std::string> ins{dir + "/d.set", dir + "/li", dir + "/ll"}; int q = (int)r.range(1, 3); for (int i = 0; i < q; i++) { unsigned w = r.size(1, 20), h = r.size(1, 20); for (int t = 0; t < 2; t++) { Img a = im::noise(r, w, h, 3, 8); std::string g = dir + fmt(t ? "/la%d.png" : "/im%d.png", i); tu::spew(g, im::png(r, a, PNG_COLOR_TYPE_RGB)); ins.push_back(g); } li += fmt("im%d.png\n", i); ll += fmt("la%d.png\n", i); }
      tu::spew(dir + "/li", li); tu::spew(dir + "/ll", ll); note(fmt("converting %d images%s", q, comp ? ", compressed" : "")); program(r, comp ? "makeCompressedTensorStream" : "makeTensorStream", {dir + "/d.set", dir + "/li", dir + "/", dir + "/ll", dir + "/", o, "false"}, ins); return; }
    if (k == 4) { size_t w = r.size(1, 40), h = r.size(1, 40); for (size_t z = 0; ((w + 7) / 8 * 8) % n2.fx || ((h + 7) / 8 * 8) % n2.fy; z++) { w = 64; h = 64; if (z) return; } bool j = r.chance(0.4); std::string g = dir + (j ? "/in.jpg" : "/in.png"); Img a = im::noise(r, w, h, 3, 8); tu::spew(g, j ? im::jpg(r, a, 90) : im::png(r, a, PNG_COLOR_TYPE_RGB)); note("classifying an image"); program(r, "classifyImage", {dir + "/d.set", dir + "/n.net", dir + "/p.Tensor", g, dir + "/out.png"}, {dir + "/d.set", dir + "/n.net", dir + "/p.Tensor", g}); return; }
    int minw = n2.patch ? n2.rx + n2.fx : 1, minh = n2.patch ? n2.ry + n2.fy : 1; std::string tr; for (int q = 0; q < 2; q++) { size_t w = r.range(minw, minw + 6), h = r.range(minh, minh + 6); M4 im = tu::random(r, 1, w, h, 3), l(1, w, h, n2.classes); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { if (n2.classes == 1) l.at(x, y, 0, 0) = r.chance(0.5) ? 1 : -1; else l.at(x, y, r.range(0, n2.classes - 1), 0) = 1; } tr += enc(im) + enc(l); }
    tu::spew(dir + "/tr.Tensor", tr); tu::spew(dir + "/te.Tensor", tr); cfg += "training=" + dir + "/tr.Tensor\ntesting=" + dir + "/te.Tensor\n"; tu::spew(dir + "/d.set", cfg);
    if (k == 5) { note("statistics of a dataset"); program(r, "tensorStreamStats", {dir + "/d.set"}, {dir + "/d.set", dir + "/tr.Tensor", dir + "/te.Tensor"}, "", dir); return; }
    std::string script = "load file=" + dir + "/p.Tensor\nsave file=" + dir + "/o.Tensor\n";
    if (r.chance(0.5)) { note("training session, parameters"); program(r, "trainNetwork", {dir + "/d.set", dir + "/n.net"}, {dir + "/p.Tensor"}, script, dir, true); }
    else { tu::spew(dir + "/s.txt", "help\nhelp\n" + std::string(r.chance(0.2) ? 9000 : 0, ' ') + "\n"); note("training script"); program(r, "trainNetwork", {dir + "/d.set", dir + "/n.net", dir + "/s.txt"}, {dir + "/d.set", dir + "/n.net", dir + "/tr.Tensor", dir + "/s.txt", dir + "/s.txt"}, "", dir); }
  }
}
static void one(Rng& r, int64_t i) {
  int64_t k = i % 32; if (k < 7) tools(r, (int)k); else library(r, (int)(k % 7));
  if (i < 24) sample(G().note.substr(0, 200));
}
int main(int argc, char** argv) { signal(SIGXFSZ, SIG_IGN); return vh::run(argc, argv, "c29_unread", one, [] { tu::init(); }); }
