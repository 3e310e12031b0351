// C02: compressed tensors decompress to what was compressed; a compressed
// stream is interchangeable with the uncompressed stream it was made from.
#include "tutil.h"
#include <dirent.h>
using namespace tu; using namespace vh;

struct Raw { size_t s, w, h, m; std::vector<float> v; };

static bool same(float a, float b) {  // sign of zero is not preserved by run-length coding
  if (a == b) return true;
  return bits(a) == bits(b);
}
// Independent decoder of the documented file format.
static bool ref_decode(const unsigned char* p, size_t n, std::vector<unsigned char>& out) {
  for (size_t i = 0; i < n;) {
    if (p[i] != 'X') { out.push_back(p[i++]); continue; }
    if (i + 1 >= n) return false;
    if (p[i + 1] == 'X') { out.push_back('X'); i += 2; continue; }
    if (p[i + 1] != 'Y' || i + 7 > n) return false;
    for (int k = 0; k < p[i + 2]; k++) out.insert(out.end(), p + i + 3, p + i + 7);
    i += 7;
  }
  return true;
}
// Independent encoder: any mix of literal and run coding is a valid file.
static std::string ref_encode(Rng& r, const std::vector<float>& v) {
  std::string o;
  for (size_t i = 0; i < v.size();) {
    size_t run = 1;
    while (i + run < v.size() && run < 253 && bits(v[i + run]) == bits(v[i])) run++;
    char b[4]; memcpy(b, &v[i], 4);
    if (run >= 3 && r.chance(0.8)) { o += "XY"; o += (char)run; o.append(b, 4); i += run; }
    else { for (char c : b) { o += c; if (c == 'X') o += c; } i++; }
  }
  return o;
}
static std::vector<float> content(Rng& r, size_t n) {
  std::vector<float> v;
  static const int lens[] = {1, 1, 2, 2, 3, 4, 5, 7, 100, 250, 251, 252, 253, 254, 255, 256, 257, 505, 506, 507, 508, 759, 1000};
  int style = (int)r.range(0, 5);
  float alt[2] = {rbits(r), rbits(r)};
  while (v.size() < n) {
    switch (style) {
      case 0: v.push_back(rbits(r)); break;                                       // incompressible
      case 1: { float f = rbits(r); int l = lens[r.range(0, 22)]; while (l-- && v.size() < n) v.push_back(f); break; }
      case 2: v.push_back(alt[r.range(0, 1)]); break;
      case 3: { float f = r.chance(0.5) ? 0.f : r.chance(0.5) ? 1.f : rbits(r); int l = (int)r.range(1, 600); while (l-- && v.size() < n) v.push_back(f); break; }
      case 4: { uint32_t u = 0; for (int b = 0; b < 4; b++) u |= (r.chance(0.6) ? 0x58u : r.chance(0.5) ? 0x59u : (uint32_t)r.range(0, 255)) << (8 * b);
                float f; memcpy(&f, &u, 4); int l = (int)r.range(1, 5); while (l-- && v.size() < n) v.push_back(f); break; }
      default: v.push_back(alt[0]);                                                // one long run
    }
  }
  return v;
}
static Raw mk(Rng& r, bool big) {
  Raw t;
  do {
    t.s = r.chance(0.6) ? 1 : r.size(1, 3); t.w = r.size(1, big ? 90 : 14); t.h = r.size(1, big ? 90 : 14); t.m = r.size(1, 4);
  } while (t.s * t.w * t.h * t.m > 40000);
  t.v = content(r, t.s * t.w * t.h * t.m);
  return t;
}
static void cmp(const Raw& a, const Tensor& t, const char* how) {
  if (t.samples() != a.s || t.width() != a.w || t.height() != a.h || t.maps() != a.m || t.elements() != a.v.size()) {
    fail(std::string("shape-changed:") + how, fmt("in %zus@%zux%zux%zum out %s", a.s, a.w, a.h, a.m, shape(t).c_str())); return; }
  for (size_t i = 0; i < a.v.size(); i++)
    if (!same(tu::cpu(t).data_ptr_const()[i], a.v[i])) { fail(std::string("value-changed:") + how, fmt("element %zu of %zu: in %08x out %08x", i, a.v.size(), bits(a.v[i]), bits(tu::cpu(t).data_ptr_const()[i]))); return; }
  count("tensors compared after decompression"); count("elements compared", a.v.size());
}
static uint64_t rd64(const std::string& s, size_t p) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | (unsigned char)s[p + i]; return v; }
static size_t openfds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static size_t maps_of(const std::string& f) { std::ifstream m("/proc/self/maps"); std::string l; size_t n = 0; while (std::getline(m, l)) if (l.find(f) != std::string::npos) n++; return n; }

static void one(Rng& r, int64_t c) {
  int kind = c % 4;
  int n = (int)r.big(1, 5, 30);
  std::vector<Raw> ts;
  bool big = r.chance(0.3);
  for (int i = 0; i < n; i++) ts.push_back(mk(r, big));
  std::string key = fmt("k%d n%d %zux%zux%zux%zu %08x", kind, n, ts[0].s, ts[0].w, ts[0].h, ts[0].m, bits(ts[0].v[0]));
  note(key);
  std::string cf = G().scratch + "/c.Tensor", ff = G().scratch + "/f.Tensor";
  auto load = [](const Raw& t, Tensor& x) { x.Resize(t.s, t.w, t.h, t.m); memcpy(tu::cpu(x).data_ptr(), t.v.data(), t.v.size() * 4); tu::scatter(x); };
  if (kind == 0) {  // compress / serialize / deserialize / decompress, objects reused
    Conv::CompressedTensor reused, reused2; Tensor outreuse;
    std::stringstream ss;
    for (auto& t : ts) {
      Tensor x; load(t, x);
      Conv::CompressedTensor fresh;
      Conv::CompressedTensor& ct = r.chance(0.5) ? reused : fresh;
      ct.Compress(x);
      for (size_t i = 0; i < t.v.size(); i++) if (bits(tu::cpu(x).data_ptr_const()[i]) != bits(t.v[i])) { fail("input-modified", "compressing modified the tensor"); break; }
      if (ct.samples() != t.s || ct.width() != t.w || ct.height() != t.h || ct.maps() != t.m || ct.elements() != t.v.size()) fail("shape-changed:header", "compressed tensor reports other dimensions");
      Tensor y; if (r.chance(0.5)) { y.Resize(t.s, t.w, t.h, t.m); tu::scatter(y); } ct.Decompress(y); cmp(t, y, "direct");
      std::stringstream one_s; ct.Serialize(one_s); ct.Serialize(ss);
      std::string b = one_s.str();
      if (b.size() < 40 || rd64(b, 0) != t.s || rd64(b, 8) != t.w || rd64(b, 16) != t.h || rd64(b, 24) != t.m || rd64(b, 32) != b.size() - 40 || ct.compressed_length() != b.size() - 40) { fail("layout", "compressed header does not describe the payload"); continue; }
      std::vector<unsigned char> dec;
      if (!ref_decode((const unsigned char*)b.data() + 40, b.size() - 40, dec) || dec.size() != t.v.size() * 4) { fail("format", fmt("payload is not valid run-length data (%zu bytes decoded, %zu expected)", dec.size(), t.v.size() * 4)); continue; }
      for (size_t i = 0; i < t.v.size(); i++) { float f; memcpy(&f, &dec[4 * i], 4); if (!same(f, t.v[i])) { fail("format", fmt("payload decodes to another value at element %zu", i)); break; } }
      count("payloads decoded by the reference decoder");
    }
    for (auto& t : ts) {
      Conv::CompressedTensor f2; Conv::CompressedTensor& ct = r.chance(0.5) ? reused2 : f2;
      ct.Deserialize(ss);
      if (r.chance(0.5)) { Tensor y; ct.Decompress(y); cmp(t, y, "stream"); }
      else { std::vector<float> buf(t.v.size()); { Tensor y; y.Resize(1, t.v.size()); ct.Decompress(y, tu::cpu(y).data_ptr()); cmp(t, y, "in-place"); } }
    }
    if ((size_t)ss.tellg() != ss.str().size()) fail("position", "stream not positioned after the last tensor");
  } else if (kind == 1) {  // foreign but valid encodings
    std::string bytes = u64le(CN24_CTS_MAGIC);
    for (auto& t : ts) { std::string e = ref_encode(r, t.v); bytes += u64le(t.s) + u64le(t.w) + u64le(t.h) + u64le(t.m) + u64le(e.size()) + e; }
    spew(cf, bytes);
    std::ifstream in(cf, std::ios::binary); in.seekg(8);
    int fd = ::open(cf.c_str(), O_RDONLY);
    {
      Conv::CompressedTensor remap;
      for (auto& t : ts) {
        int how = (int)r.range(0, 3);
        if (how == 0) { std::streampos p = in.tellg(); Conv::CompressedTensor h; h.Deserialize(in, true);
          if (h.width() != t.w || h.height() != t.h || h.maps() != t.m || h.samples() != t.s) fail("head-shape", "head-only read reports the wrong dimensions");
          std::streampos q = in.tellg(); in.seekg(p); Conv::CompressedTensor ct; ct.Deserialize(in); if (in.tellg() != q) fail("position", "head-only read skips a different amount"); Tensor y; ct.Decompress(y); cmp(t, y, "foreign"); }
        else if (how == 1) { remap.Deserialize(in, false, true, fd); Tensor y; remap.Decompress(y); cmp(t, y, "foreign-remap"); }
        else { Conv::CompressedTensor ct; ct.Deserialize(in, false, how == 2, how == 2 ? fd : 0); Tensor y; ct.Decompress(y); cmp(t, y, "foreign"); }
      }
    }
    ::close(fd);
    if (maps_of(cf)) fail("map-leak", "deleting mapped tensors leaves part of the file mapped");
  } else {  // stream equivalence: a random history of sample requests
    std::ofstream c1(cf, std::ios::binary), f1(ff, std::ios::binary);
    uint64_t magic = CN24_CTS_MAGIC; c1.write((char*)&magic, 8);
    for (auto& t : ts) { Tensor x; load(t, x); Conv::CompressedTensor ct; ct.Compress(x); ct.Serialize(c1); x.Serialize(f1); }
    c1.close(); f1.close();
    size_t fds = openfds();
    Conv::TensorStream* cs = Conv::TensorStream::FromFile(cf); Conv::TensorStream* fs = Conv::TensorStream::FromFile(ff);
    if (openfds() != fds) fail("descriptor-leak", "loading a stream leaves the file open");
    if (cs->GetTensorCount() != (unsigned)n || fs->GetTensorCount() != (unsigned)n) { fail("stream-count", fmt("%u/%u tensors, file holds %d", cs->GetTensorCount(), fs->GetTensorCount(), n)); return; }
    for (int k = 0; k < 14; k++) {
      int i = r.chance(0.05) ? n + (int)r.range(0, 1) : (int)r.range(0, n - 1);
      if (cs->GetWidth(i) != fs->GetWidth(i) || cs->GetHeight(i) != fs->GetHeight(i) || cs->GetMaps(i) != fs->GetMaps(i) || cs->GetSamples(i) != fs->GetSamples(i)) fail("stream-shape", "streams disagree about dimensions");
      const Raw& t = ts[std::min(i, n - 1)];
      size_t tw = t.w, th = t.h, tm = t.m, tsn = r.size(1, 3);
      int how = (int)r.range(0, 5);
      if (how == 1) { tw += r.range(0, 5); th += r.range(0, 5); }
      if (how == 2 && tw > 1) tw--;
      if (how == 3 && th > 1) th--;
      if (how == 4) tm++;
      size_t ss = r.chance(0.7) ? 0 : r.range(0, t.s), tt = r.range(0, tsn - 1);
      if (r.chance(0.08)) tt = tsn + r.range(0, 1);
      Tensor a(tsn, tw, th, tm), b(tsn, tw, th, tm);
      a.Clear(5); b.Clear(5); tu::scatter(a); tu::scatter(b);
      bool ra = cs->CopySample(i, ss, a, tt), rb = fs->CopySample(i, ss, b, tt);
      // reference verdict, computed from the data that was written
      bool valid = i < n && ss < t.s && tt < tsn && tm == t.m && tw >= t.w && th >= t.h;
      if (rb != valid) fail("float-verdict", fmt("uncompressed stream %s a request that %s", rb ? "accepts" : "refuses", valid ? "fits" : "does not fit"));
      if (ra != valid) fail("compressed-verdict", fmt("compressed stream %s a request that %s", ra ? "accepts" : "refuses", valid ? "fits" : "does not fit"));
      for (size_t e = 0; e < a.elements(); e++) {
        size_t x = e % tw, y = (e / tw) % th, m = (e / tw / th) % tm, s = e / tw / th / tm;
        float want = 5;
        if (valid && s == tt) want = (x < t.w && y < t.h) ? t.v[((ss * t.m + m) * t.h + y) * t.w + x] : 0.f;
        if (!same(tu::cpu(b).data_ptr_const()[e], want)) { fail("float-value", fmt("uncompressed stream: element %zu", e)); break; }
        if (!same(tu::cpu(a).data_ptr_const()[e], want)) { fail("compressed-value", fmt("compressed stream: request %d, element %zu (%zu,%zu,%zu,%zu)", k, e, x, y, m, s)); break; }
      }
      count(valid ? "requests compared" : "refusals compared");
    }
    delete dynamic_cast<Conv::CompressedTensorStream*>(cs); delete dynamic_cast<Conv::FloatTensorStream*>(fs);
    if (maps_of(cf) || maps_of(ff)) fail("map-leak", "deleting a stream leaves part of its file mapped");
  }
  nontrivial(key);
  if (c < 4) sample(key);
}
int main(int argc, char** argv) { return run(argc, argv, "c02_compress", one, [] { init(0); }); }
