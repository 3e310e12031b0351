// C03: tensor memory model. Random histories of operations on a population of
// tensors (owners, shadows, copies, moved-from objects) against an independent
// model; every step is followed by a comparison of every live tensor.
#include "tutil.h"
#include "CombinedTensor.h"
#include <algorithm>
using namespace tu; using namespace vh;

struct Buf { std::vector<float> v; };
struct Mod {
  size_t s = 0, w = 0, h = 0, m = 0;
  std::shared_ptr<Buf> b;      // null: empty
  int owner = -1;              // unused for owners; for shadows: index of owner slot at time of shadowing
  bool shadow = false;
  size_t n() const { return s * w * h * m; }
  size_t off(size_t x, size_t y, size_t map, size_t sam) const { return ((sam * m + map) * h + y) * w + x; }
};
struct Obj { std::unique_ptr<Tensor> t; Mod m; };

static bool same(float a, float b) { return bits(a) == bits(b); }
static void one(Rng& r, int64_t c) {
  std::vector<Obj> o(5);
  for (auto& x : o) x.t.reset(new Tensor());
  std::string trace; std::vector<std::pair<std::string, std::string>> files;   // mapped files: nothing done to a tensor may reach them
  std::vector<size_t> pw, ph, pm;  // few distinct sizes, so that copies often fit
  for (int q = 0; q < 3; q++) { pw.push_back(r.big(1, 7, 70)); ph.push_back(r.big(1, 7, 70)); pm.push_back(r.big(1, 4, 40)); }
  pm.resize(r.range(1, 2));
  auto rshape = [&](size_t& s, size_t& w, size_t& h, size_t& m) {
    s = r.big(1, 3, 20); w = r.pick(pw); h = r.pick(ph); m = r.pick(pm);
    if (r.chance(0.04)) { if (r.chance(0.5)) w = 0; else s = 0; }
  };
  // a buffer is in use by someone else: the owner must not free it
  auto shadowed = [&](int i) {
    if (o[i].m.shadow || !o[i].m.b) return false;
    for (int j = 0; j < (int)o.size(); j++) if (j != i && o[j].m.shadow && o[j].m.b == o[i].m.b) return true;
    return false;
  };
  auto fill = [&](int i) { cpu(*o[i].t); for (size_t e = 0; e < o[i].m.n(); e++) { float f = r.chance(0.05) ? rbits(r) : r.chance(0.4) ? (float)r.range(-2, 2) : (float)r.real(-3, 3);
      o[i].m.b->v[e] = f; if (r.chance(0.5)) (*o[i].t)[e] = f; else (*o[i].t)(e) = f; } };
  auto drop = [&](int i) { o[i].m = Mod(); };
  auto alloc = [&](int i, size_t s, size_t w, size_t h, size_t m) {
    Mod& M = o[i].m; size_t n = s * w * h * m;
    if (M.b && M.n() == n) { M.s = s; M.w = w; M.h = h; M.m = m; return false; }
    M = Mod(); if (!n) return false;
    M.s = s; M.w = w; M.h = h; M.m = m; M.b = std::make_shared<Buf>(); M.b->v.resize(n); return true;
  };
  auto verify = [&](const char* op) {
    for (int i = 0; i < (int)o.size(); i++) {
      Tensor& t = *o[i].t; Mod& M = o[i].m;
      if (t.samples() != M.s || t.width() != M.w || t.height() != M.h || t.maps() != M.m || t.elements() != M.n()) {
        fail(std::string("dimensions:") + op, fmt("tensor %d is %s, expected %zus@%zux%zux%zum after:%s", i, shape(t).c_str(), M.s, M.w, M.h, M.m, trace.c_str())); return false; }
      if ((tu::cpu(t).data_ptr() == nullptr) != !M.b) { fail(std::string("null:") + op, fmt("tensor %d data pointer after:%s", i, trace.c_str())); return false; }
      for (size_t e = 0; e < M.n(); e++) if (!same(tu::cpu(t).data_ptr_const()[e], M.b->v[e])) {
        fail(std::string("content:") + op, fmt("tensor %d (%s) element %zu is %g, expected %g after:%s", i, shape(t).c_str(), e, tu::cpu(t).data_ptr_const()[e], M.b->v[e], trace.c_str())); return false; }
      // layout: the address of (x,y,map,sample)
      if (M.n()) { size_t x = r.range(0, M.w - 1), y = r.range(0, M.h - 1), m = r.range(0, M.m - 1), s = r.range(0, M.s - 1);
        if (tu::cpu(t).data_ptr(x, y, m, s) != tu::cpu(t).data_ptr() + M.off(x, y, m, s) || t.Offset(x, y, m, s) != M.off(x, y, m, s)) { fail("layout", "element address"); return false; } }
      // sharing structure: two tensors share memory exactly if one shadows it
      for (int j = 0; j < i; j++) if (M.b && o[j].m.b && (tu::cpu(t).data_ptr() == tu::cpu(*o[j].t).data_ptr()) != (M.b == o[j].m.b)) { fail(std::string("aliasing:") + op, fmt("tensors %d and %d after:%s", i, j, trace.c_str())); return false; }
    }
    count("histories states compared");
    return true;
  };
  int steps = (int)r.range(12, 60);
  for (int q = 0; q < 4; q++) { size_t s, w, h, m; rshape(s, w, h, m); o[q].t->Resize(s, w, h, m); if (alloc(q, s, w, h, m)) fill(q); }
  for (int k = 0; k < steps; k++) {
    int i = (int)r.range(0, 4), j = (int)r.range(0, 4);
    Obj& a = o[i]; Obj& b = o[j];
    int op = (int)r.range(0, 16);
    const char* name = "";
    size_t s, w, h, m;
#ifdef BUILD_OPENCL
    for (auto& x : o) scatter(*x.t, 0.3);
#endif
    switch (op) {
      case 0: case 1: {  // Resize
        rshape(s, w, h, m); name = "resize";
        if (r.chance(0.25) && a.m.b) { s = a.m.m; w = a.m.h; h = a.m.w; m = a.m.s; }  // same element count
        if (shadowed(i) && s * w * h * m != a.m.n()) continue;
        if (r.chance(0.3)) { Tensor like(s, w, h, m); a.t->Resize(like); if (s * w * h * m == 0) s = w = h = m = 0; }
        else a.t->Resize(s, w, h, m);
        if (alloc(i, s, w, h, m)) fill(i);
        break; }
      case 2: {  // Reshape
        rshape(s, w, h, m); name = "reshape";
        if (r.chance(0.7) && a.m.b) { size_t p[4] = {a.m.s, a.m.w, a.m.h, a.m.m}; std::swap(p[r.range(0, 3)], p[r.range(0, 3)]); s = p[0]; w = p[1]; h = p[2]; m = p[3]; }
        bool ok = a.m.b && s * w * h * m == a.m.n();
        bool got = a.t->Reshape(s, w, h, m);
        if (got != ok) fail("reshape-verdict", trace);
        if (ok) { a.m.s = s; a.m.w = w; a.m.h = h; a.m.m = m; count("reshapes accepted"); } else count("reshapes refused");
        break; }
      case 3: {  // Clear
        if (!a.m.b) { if (!a.t->elements()) a.t->Clear(1); continue; }
        name = "clear"; float v = (float)r.range(-3, 3); int sam = r.chance(0.4) ? -1 : (int)r.range(0, a.m.s - 1);
        a.t->Clear(v, sam); size_t per = a.m.w * a.m.h * a.m.m;
        for (size_t e = 0; e < a.m.n(); e++) if (sam < 0 || (e >= per * sam && e < per * (sam + 1))) a.m.b->v[e] = v;
        break; }
      case 4: {  // Transpose
        name = "transpose"; a.t->Transpose();
        if (!a.m.b) break;
        Mod old = a.m; std::vector<float> ov = a.m.b->v; a.m.w = old.h; a.m.h = old.w;
        for (size_t sa = 0; sa < old.s; sa++) for (size_t ma = 0; ma < old.m; ma++) for (size_t y = 0; y < old.h; y++) for (size_t x = 0; x < old.w; x++)
          a.m.b->v[a.m.off(y, x, ma, sa)] = ov[old.off(x, y, ma, sa)];
        break; }
      case 5: case 6: {  // CopySample
        if (i == j || !a.m.b || !b.m.b || a.m.b == b.m.b) continue;
        name = "copysample"; size_t ss = r.chance(0.1) ? a.m.s : r.range(0, a.m.s - 1), ts = r.chance(0.1) ? b.m.s : r.range(0, b.m.s - 1);
        bool ok = a.m.m == b.m.m && a.m.w <= b.m.w && a.m.h <= b.m.h && ss < a.m.s && ts < b.m.s;
        bool got = Tensor::CopySample(*a.t, ss, *b.t, ts);
        if (got != ok) fail("copysample-verdict", fmt("returned %d, expected %d; %s[%zu] -> %s[%zu]", got, ok, shape(*a.t).c_str(), ss, shape(*b.t).c_str(), ts));
        if (ok) for (size_t ma = 0; ma < a.m.m; ma++) for (size_t y = 0; y < b.m.h; y++) for (size_t x = 0; x < b.m.w; x++)
          b.m.b->v[b.m.off(x, y, ma, ts)] = (x < a.m.w && y < a.m.h) ? a.m.b->v[a.m.off(x, y, ma, ss)] : 0.f;
        count(ok ? "sample copies" : "sample copies refused");
        break; }
      case 7: case 8: {  // CopyMap, also inside one tensor
        if (!a.m.b || !b.m.b || (i != j && a.m.b == b.m.b)) continue;
        name = "copymap"; size_t ss = r.chance(0.1) ? a.m.s : r.range(0, a.m.s - 1), ts = r.chance(0.1) ? b.m.s : r.range(0, b.m.s - 1), sm = r.range(0, a.m.m - 1), tm = r.range(0, b.m.m - 1);
        if (i == j && ss == ts && sm == tm) continue;
        bool ok = a.m.w <= b.m.w && a.m.h <= b.m.h && ss < a.m.s && ts < b.m.s;
        bool got = Tensor::CopyMap(*a.t, ss, sm, *b.t, ts, tm);
        if (got != ok) fail("copymap-verdict", fmt("returned %d, expected %d; %s -> %s", got, ok, shape(*a.t).c_str(), shape(*b.t).c_str()));
        if (ok) for (size_t y = 0; y < b.m.h; y++) for (size_t x = 0; x < b.m.w; x++)
          b.m.b->v[b.m.off(x, y, tm, ts)] = (x < a.m.w && y < a.m.h) ? a.m.b->v[a.m.off(x, y, sm, ss)] : 0.f;
        count(ok ? "map copies" : "map copies refused");
        break; }
      case 9: {  // Shadow
        if (i == j || !b.m.b || b.m.shadow || shadowed(i)) continue;
        name = "shadow"; a.t->Shadow(*b.t); a.m = b.m; a.m.shadow = true; count("shadows created");
        break; }
      case 10: {  // copy construction
        if (i == j || shadowed(i)) continue;
        name = "copy"; a.t.reset(r.chance(0.5) ? new Tensor(*b.t) : new Tensor(*b.t, true));
        a.m = b.m; a.m.shadow = false; if (b.m.b) a.m.b = std::make_shared<Buf>(*b.m.b);
        count("deep copies");
        break; }
      case 11: {  // move construction; ownership and shadows travel along
        if (i == j || shadowed(i)) continue;
#ifdef BUILD_OPENCL
        if (shadowed(j)) continue;   // a shadow finds the device memory through the object it shadows
#endif
        name = "move"; a.t.reset(new Tensor(std::move(*b.t))); a.m = b.m; drop(j); count("moves");
        break; }
      case 12: {  // destruction / release
        if (shadowed(i)) continue;
        name = "delete"; if (r.chance(0.5)) a.t->DeleteIfPossible(); else a.t.reset(new Tensor()); drop(i);
        break; }
      case 13: {  // writes through the object
        if (!a.m.b) continue; name = "write"; fill(i); break; }
      case 14: {  // queries
        if (!a.m.b) continue; name = "query";
        bool nan = false; for (float f : a.m.b->v) if (f != f) nan = true;
        if (nan) break;
        size_t sam = r.range(0, a.m.s - 1), per = a.m.w * a.m.h * a.m.m, got = a.t->Maximum(sam);
        const float* d = &a.m.b->v[0] + sam * per; float mx = *std::max_element(d, d + per);
        if (got >= per || d[got] != mx) if (mx > -INFINITY) fail("maximum", fmt("Maximum() returned %zu of %zu in %s", got, per, shape(*a.t).c_str()));
        got = a.t->AbsMaximum(); float am = 0; for (float f : a.m.b->v) am = std::max(am, std::fabs(f));
        if (got >= a.m.n() || std::fabs(a.m.b->v[got]) != am) fail("absmaximum", fmt("AbsMaximum() returned %zu", got));
        size_t x = r.range(0, a.m.w - 1), y = r.range(0, a.m.h - 1), pm = a.t->PixelMaximum(x, y, sam); float pmx = -INFINITY;
        for (size_t q = 0; q < a.m.m; q++) pmx = std::max(pmx, a.m.b->v[a.m.off(x, y, q, sam)]);
        if (pm >= a.m.m || a.m.b->v[a.m.off(x, y, pm, sam)] != pmx) fail("pixelmaximum", fmt("PixelMaximum(%zu,%zu,%zu) returned %zu", x, y, sam, pm));
        std::stringstream ss; ss << *a.t; if (ss.str() != "(" + shape(*a.t) + ")") fail("print", ss.str());
        count("queries");
        break; }
      case 16: {  // load from a stream, or map a file
        if (shadowed(i)) continue;
        bool map = r.chance(0.6); rshape(s, w, h, m); if (s * w * h * m == 0) continue;
        if (r.chance(0.4) && a.m.b) { s = a.m.s; w = a.m.w; h = a.m.h; m = a.m.m; }
        std::string bytes = std::string(r.range(0, 40) * 4, 'p'); size_t at = bytes.size(); bytes += u64le(s) + u64le(w) + u64le(h) + u64le(m); std::vector<float> v(s * w * h * m); for (auto& f : v) f = (float)r.real(-3, 3);
        bytes.append((const char*)v.data(), v.size() * 4);
        if (map) {
          name = "map"; std::string f = G().scratch + fmt("/m%zu.Tensor", files.size()); spew(f, bytes); files.push_back({f, bytes});
          std::ifstream in(f, std::ios::binary); in.seekg(at); int fd = ::open(f.c_str(), O_RDONLY); a.t->Deserialize(in, false, true, fd); ::close(fd);
          a.m = Mod(); count("files mapped");
        } else { name = "load"; std::stringstream in(bytes.substr(at)); a.t->Deserialize(in); count("tensors loaded"); }
        alloc(i, s, w, h, m); a.m.b->v = v;
        break; }
      case 15: {  // construct with dimensions
        if (shadowed(i)) continue;
        rshape(s, w, h, m); name = "construct"; a.t.reset(new Tensor(s, w, h, m)); drop(i); if (alloc(i, s, w, h, m)) fill(i);
        break; }
    }
    trace += fmt(" %s(%d,%d)", name, i, j);
    if (trace.size() > 600) trace = trace.substr(trace.size() - 500);
#ifdef BUILD_OPENCL
    if (r.chance(0.4)) continue;   // looking at the content brings it back from the device
#endif
    if (!verify(name)) break;
  }
  nontrivial(trace);
  if (c < 3) sample(trace);
  for (auto& f : files) { if (slurp(f.first) != f.second) fail("file-changed", "a mapped file was changed by operations on tensors:" + trace); unlink(f.first.c_str()); }
  // shadows first
  for (auto& x : o) if (x.m.shadow) x.t.reset();
}
// pairs of values and gradients have the size asked for; dimensions left out are one
static void pair(Rng& r) {
  size_t s = r.big(1, 4, 20), w = r.big(1, 6, 70), h = r.big(1, 6, 70), m = r.big(1, 4, 40); int k = (int)r.range(0, 4); Conv::CombinedTensor* t;
  switch (k) { case 0: t = new Conv::CombinedTensor(s); w = h = m = 1; break; case 1: t = new Conv::CombinedTensor(s, w); h = m = 1; break; case 2: t = new Conv::CombinedTensor(s, w, h); m = 1; break; default: t = new Conv::CombinedTensor(s, w, h, m); }
  note(fmt("pair of %zus@%zux%zux%zum", s, w, h, m));
  for (Tensor* q : {&t->data, &t->delta}) {
    if (q->samples() != s || q->width() != w || q->height() != h || q->maps() != m || q->elements() != s * w * h * m) fail("pair-size", "is " + shape(*q));
    else for (size_t e = 0; e < q->elements(); e++) (*q)[e] = (float)e + (q == &t->delta ? 1000 : 0);
  }
  for (size_t e = 0; e < t->data.elements() && e < t->delta.elements(); e++) if (t->data[e] != (float)e || t->delta[e] != (float)e + 1000) { fail("pair-content", fmt("element %zu", e)); break; }
  delete t; count("pairs of values and gradients");
}
int main(int argc, char** argv) { return run(argc, argv, "c03_tensor", [](Rng& r, int64_t i) { if (i % 40 == 7) pair(r); one(r, i); }, [] { init(0); }); }
