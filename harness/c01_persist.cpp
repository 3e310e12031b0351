// C01: what is written as tensors is what is read back (stream, file, memory
// map, stream classes), and the bytes follow the documented layout.
#include "tutil.h"
using namespace tu; using namespace vh;

struct Raw { size_t s, w, h, m; std::vector<float> v; };
static Raw mk(Rng& r, int64_t big) {
  Raw t;
  do {
    t.s = r.size(1, 4); t.w = r.size(1, big); t.h = r.size(1, big); t.m = r.big(1, 5, 30);
  } while (t.s * t.w * t.h * t.m > 60000);
  t.v.resize(t.s * t.w * t.h * t.m);
  for (auto& x : t.v) x = rbits(r);
  return t;
}
#include <dirent.h>
static size_t openfds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static size_t maps_of(const std::string& f) {
  std::ifstream m("/proc/self/maps"); std::string l; size_t n = 0;
  while (std::getline(m, l)) if (l.find(f) != std::string::npos) n++;
  return n;
}
static std::string enc(const Raw& t) {  // independent encoder of the on-disk layout
  std::string o = u64le(t.s) + u64le(t.w) + u64le(t.h) + u64le(t.m);
  for (float f : t.v) { uint32_t u = bits(f); for (int i = 0; i < 4; i++) o += (char)((u >> (8 * i)) & 0xff); }
  return o;
}
static void cmp(const Raw& a, const Tensor& t, const char* how) {
  if (t.samples() != a.s || t.width() != a.w || t.height() != a.h || t.maps() != a.m || t.elements() != a.v.size()) {
    fail(std::string("shape-changed:") + how, fmt("%s: wrote %zus@%zux%zux%zum read %s", how, a.s, a.w, a.h, a.m, shape(t).c_str()));
    return;
  }
  for (size_t i = 0; i < a.v.size(); i++)
    if (bits(tu::cpu(t).data_ptr_const()[i]) != bits(a.v[i])) {
      fail(std::string("value-changed:") + how, fmt("%s: element %zu of %zu: wrote %08x read %08x", how, i, a.v.size(), bits(a.v[i]), bits(tu::cpu(t).data_ptr_const()[i])));
      return;
    }
  count("tensors compared bitwise"); count("elements compared", a.v.size());
}

static void one(Rng& r, int64_t c) {
  int kind = c % 7;
  int n = (int)r.big(1, 6, 40);
  std::vector<Raw> ts;
  int64_t big = r.chance(0.3) ? 60 : 12;
  for (int i = 0; i < n; i++) ts.push_back(mk(r, big));
  std::string bytes;
  for (auto& t : ts) bytes += enc(t);
  std::string key = fmt("k%d n%d %zux%zux%zux%zu", kind, n, ts[0].s, ts[0].w, ts[0].h, ts[0].m);
  note(key);
  std::string file = G().scratch + "/t.Tensor";
  switch (kind) {
    case 0: {  // serialize matches the layout; deserialize from a string stream
      std::stringstream ss;
      for (auto& t : ts) {
        Tensor x(t.s, t.w, t.h, t.m);
        memcpy(tu::cpu(x).data_ptr(), t.v.data(), t.v.size() * 4);
        tu::scatter(x); x.Serialize(ss);
      }
      if (ss.str() != bytes) fail("layout", "serialized bytes differ from the documented layout");
      Tensor reused(2, 3, 4, 1);
      for (auto& t : ts) {
        if (r.chance(0.5)) { Tensor fresh; fresh.Deserialize(ss); cmp(t, fresh, "stream"); }
        else { if (r.chance(0.3)) reused.Resize(t.s, t.w, t.h, t.m); tu::scatter(reused); reused.Deserialize(ss); cmp(t, reused, "stream-reuse"); }
      }
      if ((size_t)ss.tellg() != bytes.size()) fail("position", "stream not positioned after the last tensor");
      break;
    }
    case 1: {  // head-only reads skip exactly one tensor, mixed with full reads
      std::stringstream ss(bytes);
      size_t pos = 0;
      for (auto& t : ts) {
        Tensor x;
        bool head = r.chance(0.5);
        x.Deserialize(ss, head);
        pos += 32 + 4 * t.v.size();
        if (head) {
          if (x.samples() != t.s || x.width() != t.w || x.height() != t.h || x.maps() != t.m) fail("head-shape", "head-only read reports the wrong dimensions");
          count("head-only reads");
        } else cmp(t, x, "after-skip");
        if ((size_t)ss.tellg() != pos) { fail("position", fmt("stream at %ld, expected %zu", (long)ss.tellg(), pos)); break; }
      }
      break;
    }
    case 2: {  // memory mapped, any offset in the page
      std::string pre((size_t)r.range(0, 2250) * 4, 'p');
      spew(file, pre + bytes);
      std::ifstream in(file, std::ios::binary);
      in.seekg(pre.size());
      int fd = ::open(file.c_str(), O_RDONLY);
      std::vector<std::unique_ptr<Tensor>> keep;
      for (auto& t : ts) {
        keep.emplace_back(new Tensor());
        bool head = r.chance(0.2);
        if (head) { Tensor h; std::streampos p = in.tellg(); h.Deserialize(in, true); in.seekg(p); }
        keep.back()->Deserialize(in, false, true, fd);
      }
      for (size_t i = 0; i < ts.size(); i++) cmp(ts[i], *keep[i], "mmap");
      // release some, the others must stay intact; copies must not depend on the map
      std::unique_ptr<Tensor> copy(new Tensor(*keep[0], true));
      std::unique_ptr<Tensor> moved(new Tensor(std::move(*keep[n - 1])));
      cmp(ts[n - 1], *moved, "mmap-moved");
      for (int i = 0; i + 1 < n; i++) if (r.chance(0.5)) { keep[i].reset(); }
      for (int i = 0; i + 1 < n; i++) if (keep[i]) cmp(ts[i], *keep[i], "mmap-after-release");
      keep.clear();
      cmp(ts[0], *copy, "mmap-copy");
      cmp(ts[n - 1], *moved, "mmap-moved");
      moved.reset();
      ::close(fd);
      if (maps_of(file)) fail("map-leak", "deleting mapped tensors leaves part of the file mapped");
      count("release checks");
      break;
    }
    case 3: {  // stream class
      spew(file, bytes);
      size_t fds = openfds();
      Conv::TensorStream* st(Conv::TensorStream::FromFile(file));
      if (st->GetTensorCount() != (unsigned)n) { fail("stream-count", fmt("stream has %u tensors, file holds %d", st->GetTensorCount(), n)); break; }
      for (int k = 0; k < n + 2; k++) {
        int i = (int)r.range(0, n - 1);
        auto& t = ts[i];
        if (st->GetWidth(i) != t.w || st->GetHeight(i) != t.h || st->GetMaps(i) != t.m || st->GetSamples(i) != t.s) fail("stream-shape", "stream reports the wrong dimensions");
        size_t ss = r.range(0, t.s - 1);
        Tensor tgt(3, t.w, t.h, t.m); tgt.Clear(7); tu::scatter(tgt);
        bool ok = st->CopySample(i, ss, tgt, 1);
        if (!ok) { fail("stream-refused", "valid sample refused"); continue; }
        size_t per = t.w * t.h * t.m;
        for (size_t e = 0; e < 3 * per; e++) {
          float want = (e >= per && e < 2 * per) ? t.v[ss * per + e - per] : 7.f;
          if (bits(tu::cpu(tgt).data_ptr_const()[e]) != bits(want)) { fail("stream-value", fmt("element %zu of target", e)); break; }
        }
        count("stream samples compared");
      }
      if (st->GetWidth(n) || st->GetHeight(n + 1) || st->GetMaps(n) || st->GetSamples(n)) fail("stream-shape", "dimensions for a tensor that does not exist");
      Tensor tgt(1, 8, 8, 1);
      if (st->CopySample(n, 0, tgt, 0)) fail("stream-accepts", "copy from a tensor that does not exist succeeded");
      if (openfds() != fds) fail("descriptor-leak", "loading a stream leaves the file open");
      delete dynamic_cast<Conv::FloatTensorStream*>(st);
      if (maps_of(file)) fail("map-leak", "deleting a stream leaves part of its file mapped");
      count("release checks");
      break;
    }
    case 4: {  // write to / load from a named file
      Raw& t = ts[0];
      Tensor x(t.s, t.w, t.h, t.m);
      memcpy(tu::cpu(x).data_ptr(), t.v.data(), t.v.size() * 4);
      try {
        tu::scatter(x); x.WriteToFile(file);
        if (slurp(file) != enc(t)) fail("layout-file", "file bytes differ from the documented layout");
        Tensor y; if (r.chance(0.5)) y.Resize(t.s, t.w, t.h, t.m);
        tu::scatter(y); y.LoadFromFile(file); cmp(t, y, "file");
        Tensor z(file); cmp(t, z, "file-ctor");
      } catch (std::exception& e) { fail("file-refused", "a .Tensor file cannot be written or loaded by name"); }
      bool refused = false;
      try { Tensor q; q.LoadFromFile(r.chance(0.5) ? "x" : G().scratch + "/nosuch.Tensor"); } catch (std::runtime_error&) { refused = true; } catch (std::exception& e) { fail("file-error-kind", std::string("loading an unusable name: ") + e.what()); refused = true; }
      if (!refused) fail("file-missing", "loading a file that does not exist reported success");
      break;
    }
    case 5: {  // 8-bit export: interleaved for three maps, planar otherwise
      Raw& t = ts[0];
      Tensor x(t.s, t.w, t.h, t.m);
      for (size_t i = 0; i < t.v.size(); i++) { t.v[i] = (float)r.real(-1, 1); tu::cpu(x).data_ptr()[i] = t.v[i]; }
      std::stringstream ss; tu::scatter(x); x.Serialize(ss, true);
      std::string got = ss.str();
      if (got.size() != t.v.size()) { fail("export-size", fmt("8-bit export has %zu bytes for %zu elements", got.size(), t.v.size())); break; }
      size_t pl = t.w * t.h, o = 0;
      bool bad = false;
      for (size_t s = 0; s < t.s && !bad; s++)
        for (size_t k = 0; k < pl * t.m && !bad; k++, o++) {
          size_t src = t.m == 3 ? s * 3 * pl + (k % 3) * pl + k / 3 : s * t.m * pl + k;
          double want = 127.0 + 127.0 * t.v[src];
          if (std::fabs((unsigned char)got[o] - want) > 1.001) { fail("export-value", fmt("8-bit export element %zu: %d for %g", o, (unsigned char)got[o], t.v[src])); bad = true; }
        }
      count("8-bit exports");
      break;
    }
    case 6: {  // long random history of write / read positions over one file
      std::ofstream f(file, std::ios::binary);
      for (auto& t : ts) { Tensor x(t.s, t.w, t.h, t.m); memcpy(tu::cpu(x).data_ptr(), t.v.data(), t.v.size() * 4); tu::scatter(x); x.Serialize(f); }
      f.close();
      if (slurp(file) != bytes) fail("layout", "serialized bytes differ from the documented layout");
      int fd = ::open(file.c_str(), O_RDONLY);
      std::vector<size_t> off(1, 0);
      for (auto& t : ts) off.push_back(off.back() + 32 + 4 * t.v.size());
      Tensor pool[3];
      for (int k = 0; k < 8; k++) {
        int i = (int)r.range(0, n - 1);
        std::ifstream in(file, std::ios::binary);
        in.seekg(off[i]);
        // pool[2] is only ever memory mapped, and remapped over its old map
        int p = (int)r.range(0, 2);
        pool[p].Deserialize(in, false, p == 2, p == 2 ? fd : 0);
        cmp(ts[i], pool[p], p == 2 ? "remap" : "reread");
        if ((size_t)in.tellg() != off[i + 1]) fail("position", "stream not positioned after the tensor");
      }
      ::close(fd);
      break;
    }
  }
  nontrivial(key);
  if (c < 3) sample(key + fmt(" (%zu bytes)", bytes.size()));
}
int main(int argc, char** argv) { return run(argc, argv, "c01_persist", one, [] { init(0); }); }
