// C20: damaged or hostile data files. The sanitizers watch for memory errors;
// reference walks over the same bytes say which tensors the file really holds,
// so anything served that is not in the file is a violation too.
#include "img.h"
#include "graph.h"
#include "CompressedTensor.h"
#include "TensorStream.h"
using namespace im; using namespace vh; using Conv::Tensor;
typedef unsigned __int128 u128;
// an allocation that is refused throws, as it does without a sanitizer
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static uint64_t rd64(const std::string& s, size_t p) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | (unsigned char)s[p + i]; return v; }
static void wr64(std::string& s, size_t p, uint64_t v) { for (int i = 0; i < 8; i++) s[p + i] = (char)(v >> (8 * i)); }
static const size_t CAP = 40u << 20;
static uint64_t evil(Rng& r) {
  static const uint64_t e[] = {0, 1, 2, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xaaaaaaaaaaaaaaabull, 0x4000000000000001ull, 0x2000000000000000ull, 65536, 1u << 20, 3, 1ull << 62, 0x4000000000000000ull, 0x5555555555555556ull};
  return r.chance(0.7) ? e[r.range(0, 16)] : r.next() >> r.range(0, 63);
}
// reference walk of uncompressed tensors: what the bytes hold
struct Want { bool refuse = false, unsure = false; std::vector<size_t> pos; };   // positions of the headers of complete tensors
static bool count_elems(const std::string& b, size_t p, uint64_t& n) {   // false: not representable
  u128 t = 1; bool zero = false; for (int i = 0; i < 4; i++) if (!rd64(b, p + 8 * i)) zero = true;
  if (zero) { n = 0; return true; }
  for (int i = 0; i < 4; i++) { t *= rd64(b, p + 8 * i); if (t >> 62) return false; }
  n = (uint64_t)t; return true;
}
static Want walk(const std::string& b, size_t p, bool comp) {
  Want w; size_t H = comp ? 40 : 32;
  while (p < b.size()) {
    if (b.size() - p < H) { w.unsure = true; return w; }        // fragment: refused or ignored
    uint64_t n; if (!count_elems(b, p, n)) { w.refuse = true; return w; }
    bool zero = false; for (int i = 0; i < 4; i++) zero |= !rd64(b, p + 8 * i);
    if (zero) { w.unsure = true; return w; }
    uint64_t len = comp ? rd64(b, p + 32) : n * 4;
    if (comp && len == 0) { w.unsure = true; return w; }
    if (len > b.size() - p - H) { w.refuse = true; return w; }
    if (n * 4 > CAP) w.unsure = true;
    w.pos.push_back(p); p += H + len;
  }
  return w;
}
static bool rle(const std::string& b, size_t p, uint64_t len, uint64_t n, std::string& out) {  // reference decoder
  size_t e = p + len; out.clear();
  while (p < e) {
    if (out.size() > n * 4) return false;
    if (b[p] != 'X') { out += b[p++]; continue; }
    if (p + 1 >= e) return false;
    if (b[p + 1] == 'X') { out += 'X'; p += 2; continue; }
    if (b[p + 1] != 'Y' || e - p < 7) return false;
    for (unsigned k = 0; k < (unsigned char)b[p + 2]; k++) out.append(b, p + 3, 4);
    p += 7;
  }
  return out.size() == n * 4;
}
static std::string raw(Rng& r, std::string* comp) {
  size_t s = r.size(1, 3), w = r.size(1, 12), h = r.size(1, 12), m = r.size(1, 4);
  Tensor t(s, w, h, m); bool runs = r.chance(0.5); float v = 0;
  for (size_t i = 0; i < t.elements(); i++) { if (!runs || r.chance(0.05)) v = tu::rbits(r); if (v != v && comp) v = 1; t.data_ptr()[i] = v; }
  std::stringstream ss;
  if (comp) { Conv::CompressedTensor c; c.Compress(t); c.Serialize(ss); *comp = ss.str(); return *comp; }
  t.Serialize(ss); return ss.str();
}
// damages the bytes; heads: positions of headers
static std::string damage(Rng& r, std::string b, const std::vector<size_t>& heads, size_t H, std::string& d) {
  int n = (int)r.size(1, 3);
  for (int k = 0; k < n; k++) switch (r.range(0, 5)) {
    case 0: { size_t c = r.range(0, b.size()); b.resize(c); d += fmt("cut at %zu ", c); break; }
    case 1: { size_t p = r.pick(heads) + 8 * r.range(0, H / 8 - 1); if (p + 8 <= b.size()) { uint64_t v = evil(r); wr64(b, p, v); d += fmt("word at %zu = %" PRIx64 " ", p, v); } break; }
    case 2: { size_t h = r.pick(heads); if (h + 32 <= b.size()) { for (int i = 0; i < 4; i++) if (r.chance(0.7)) wr64(b, h + 8 * i, evil(r)); d += fmt("all dimensions at %zu ", h); } break; }
    case 3: { if (b.size()) { size_t p = r.range(0, b.size() - 1); b[p] = (char)r.pick(std::vector<int>{'X', 'Y', 0, 255, (int)r.range(0, 255)}); d += fmt("byte at %zu ", p); } break; }
    case 4: { size_t c = r.range(1, 50); for (size_t i = 0; i < c; i++) b += (char)r.range(0, 255); d += fmt("%zu bytes appended ", c); break; }
    default: { size_t h = r.pick(heads); if (h + 40 <= b.size()) { int i = (int)r.range(0, H / 8 - 1); uint64_t v = rd64(b, h + 8 * i) + r.range(-3, 3); wr64(b, h + 8 * i, v); d += fmt("word at %zu nudged ", h + 8 * i); } break; }
  }
  return b;
}
static bool eq(const Tensor& t, const std::string& b, size_t p) {
  if (t.samples() != rd64(b, p) || t.width() != rd64(b, p + 8) || t.height() != rd64(b, p + 16) || t.maps() != rd64(b, p + 24)) return false;
  return t.elements() == 0 || memcmp(t.data_ptr_const(), b.data() + p + 32, t.elements() * 4) == 0;
}

static void tensors(Rng& r) {   // Deserialize from a stream / file, mapped or not
  std::string b, d; std::vector<size_t> heads; int n = (int)r.size(1, 4);
  for (int i = 0; i < n; i++) { heads.push_back(b.size()); b += raw(r, nullptr); }
  b = damage(r, b, heads, 32, d); note("tensors: " + d);
  Want w = walk(b, 0, false); std::string f = G().scratch + "/h.Tensor"; tu::spew(f, b);
  int how = (int)r.range(0, 2); size_t got = 0; bool threw = false;
  std::ifstream fs(f, std::ios::binary); std::stringstream ss(b); std::istream& in = how == 0 ? (std::istream&)ss : fs; int fd = how == 2 ? open(f.c_str(), O_RDONLY) : 0;
  try {
    while (got < w.pos.size() + 1) {
      Tensor t; t.Deserialize(in, false, how == 2, fd);
      if (t.elements() == 0) break;
      if (got >= w.pos.size()) { fail("served-missing", fmt("a tensor %s was returned that the %zu bytes do not hold", tu::shape(t).c_str(), b.size())); break; }
      if (!eq(t, b, w.pos[got])) { fail("served-wrong", "a tensor differs from the bytes of the file"); break; }
      got++; in.peek(); if (in.eof()) break;
    }
  } catch (std::runtime_error&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
  if (fd) close(fd);
  count(threw ? "damaged files refused" : "damaged files read to the end"); count("tensors of damaged files compared", got);
  if (w.refuse && !w.unsure && !threw) fail("truncated-accepted", fmt("reading ended without an error (access %d)", how));
  if (!w.refuse && !w.unsure && threw) fail("intact-refused", fmt("an intact file was refused (access %d)", how));
  if (!w.unsure && !w.refuse && got != w.pos.size()) fail("intact-short", fmt("%zu of %zu intact tensors were read", got, w.pos.size()));
}
// a compressed stream is only read from a compressed file; a missing file is not an empty one
static void kinds(Rng& r) {
  std::string b, x, f = G().scratch + "/h.Tensor"; bool plain = r.chance(0.6); if (plain) for (int i = (int)r.range(0, 3); i > 0; i--) b += raw(r, nullptr); else { uint64_t m = CN24_CTS_MAGIC ^ (1ull << r.range(0, 63)); std::string z(8, 0); memcpy(&z[0], &m, 8); b = z + raw(r, &x); }
  int how = (int)r.range(0, 3); note(fmt("wrong kind of stream %d, %zu bytes", how, b.size())); tu::spew(f, b); bool threw = false;
  Conv::TensorStream* s = how == 1 ? (Conv::TensorStream*)new Conv::FloatTensorStream : new Conv::CompressedTensorStream; if (how == 1 || how == 2) unlink(f.c_str());
  try { if (how == 3 && r.chance(0.5)) { f = G().scratch + "/nothing here"; how = 2; Conv::TensorStream* q = Conv::TensorStream::FromFile(f); delete q; } else s->LoadFile(f); } catch (std::runtime_error&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
  if (!threw) fail("wrong-kind", how == 1 || how == 2 ? "a file that is not there is accepted" : "a file that is not compressed is accepted as a compressed stream"); delete s; count("files of the wrong kind");
}
static void streams(Rng& r, bool comp) {
  std::string b, d, x; std::vector<size_t> heads; int n = (int)r.size(1, 4);
  if (comp) { std::string magic(8, 0); uint64_t m = CN24_CTS_MAGIC; memcpy(&magic[0], &m, 8); b = magic; }
  for (int i = 0; i < n; i++) { heads.push_back(b.size()); b += raw(r, comp ? &x : nullptr); }
  size_t base = comp ? 8 : 0;
  // damage behind the magic: the file must stay a stream of its kind
  std::string tail = b.substr(base); for (auto& h : heads) h -= base;
  tail = damage(r, tail, heads, comp ? 40 : 32, d); b = b.substr(0, base) + tail; note(std::string(comp ? "compressed" : "plain") + " stream: " + d);
  if (!comp && b.size() >= 8) { uint64_t m; memcpy(&m, b.data(), 8); if (m == CN24_CTS_MAGIC) return; }
  Want w = walk(b, base, comp); std::string f = G().scratch + "/h.Tensor"; tu::spew(f, b);
  Conv::TensorStream* s = nullptr; bool threw = false;
  try { s = Conv::TensorStream::FromFile(f); } catch (std::runtime_error&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
  count(threw ? "damaged streams refused" : "damaged streams opened");
  if (w.refuse && !w.unsure && !threw) fail("truncated-stream-accepted", "a truncated stream was opened without an error");
  if (!w.refuse && !w.unsure && threw) fail("intact-stream-refused", "an intact stream was refused");
  if (!s) return;
  if (!w.unsure && s->GetTensorCount() != w.pos.size()) { fail("stream-count", fmt("stream serves %u tensors, the file holds %zu", s->GetTensorCount(), w.pos.size())); return; }
  if (w.unsure && s->GetTensorCount() > w.pos.size()) { fail("stream-count", fmt("stream serves %u tensors, the file holds at most %zu", s->GetTensorCount(), w.pos.size())); return; }
  int reads = (int)r.range(1, 8);
  for (int q = 0; q < reads && s->GetTensorCount(); q++) {
    unsigned k = (unsigned)r.range(0, s->GetTensorCount() - 1); size_t p = w.pos[k];
    size_t S = s->GetSamples(k), W = s->GetWidth(k), H = s->GetHeight(k), M = s->GetMaps(k);
    if (S != rd64(b, p) || W != rd64(b, p + 8) || H != rd64(b, p + 16) || M != rd64(b, p + 24)) { fail("stream-shape", "the stream reports dimensions the file does not hold"); return; }
    if ((u128)W * H * M * 4 > CAP || (u128)S * W * H * M * 4 > CAP) continue;
    std::string ref; bool ok = true;
    if (comp) ok = rle(b, p + 40, rd64(b, p + 32), S * W * H * M, ref); else ref = b.substr(p + 32, S * W * H * M * 4);
    bool larger = r.chance(0.3); size_t sam = r.range(0, S - 1);
    Tensor t(2, W + larger, H + larger, M); size_t ts = r.range(0, 1); bool res = false, ex = false; t.Clear(7);
    try { res = s->CopySample(k, sam, t, ts); } catch (std::runtime_error&) { ex = true; } catch (std::bad_alloc&) { ex = true; }
    count(ex ? "damaged samples refused" : "samples served");
    if (!ok && !ex && res) { fail("damaged-sample-served", "a sample with an invalid encoding was served"); return; }
    if (ok && (!res || ex)) { fail("intact-sample-refused", "an intact sample was refused"); return; }
    for (size_t e = 0; e < t.elements() / 2; e++) if (t.data_ptr()[(1 - ts) * (t.elements() / 2) + e] != 7) { fail("neighbour-overwritten", "reading one sample changed another"); return; }
    if (ok) for (size_t m = 0; m < M; m++) for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) {
      float g = *t.data_ptr(x, y, m, ts), e; memcpy(&e, ref.data() + 4 * (((sam * M + m) * H + y) * W + x), 4);
      if (tu::bits(g) != tu::bits(e)) { fail("served-wrong", "a sample differs from what the file holds"); return; }
    }
  }
  delete s;
}
static void compressed(Rng& r) {
  std::string b, d; raw(r, &b); std::vector<size_t> heads{0};
  b = damage(r, b, heads, 40, d); note("compressed tensor: " + d);
  Want w = walk(b, 0, true); std::stringstream ss(b);
  bool refused = false, dec = false;
  Conv::CompressedTensor c; Tensor t;
  try { c.Deserialize(ss); } catch (std::runtime_error&) { refused = true; } catch (std::bad_alloc&) { refused = true; }
  count(refused ? "damaged files refused" : "damaged files read to the end");
  if (w.pos.empty()) { if (w.refuse && !refused) fail("truncated-accepted", "a truncated compressed tensor was read without an error"); return; }
  if (refused) { if (!w.unsure) fail("intact-refused", "an intact compressed tensor was refused"); return; }
  uint64_t n; count_elems(b, 0, n); if (n * 4 > CAP) return;
  std::string ref; bool ok = rle(b, 40, rd64(b, 32), n, ref);
  try { c.Decompress(t); dec = true; } catch (std::runtime_error&) {} catch (std::bad_alloc&) {}
  count(dec ? "samples served" : "damaged samples refused");
  if (ok != dec) { fail(ok ? "intact-sample-refused" : "damaged-sample-served", ok ? "an intact tensor was not decompressed" : "an invalid encoding was decompressed"); return; }
  if (ok && (t.elements() != n || memcmp(t.data_ptr(), ref.data(), n * 4))) fail("served-wrong", "the decompressed tensor differs from what the file holds");
}
// decodes as the library should; 0 not decodable, 1 fine, 2 cannot say (size)
static int refpng(const std::string& s, Img& o) {
  struct S { const std::string* s; size_t p; } st{&s, 0};
  if (s.size() < 8 || png_sig_cmp((png_bytep)s.data(), 0, 8)) return 0;
  png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, 0, [](png_structp h, png_const_charp) { longjmp(png_jmpbuf(h), 1); }, [](png_structp, png_const_charp) {}); png_infop q = png_create_info_struct(p);
  std::vector<png_byte>* volatile buf = new std::vector<png_byte>; std::vector<png_bytep>* volatile rows = new std::vector<png_bytep>;
  if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &q, 0); delete buf; delete rows; return 0; }
  png_set_read_fn(p, &st, [](png_structp h, png_bytep d, png_size_t n) { S* t = (S*)png_get_io_ptr(h); if (t->p + n > t->s->size()) png_error(h, "eof"); memcpy(d, t->s->data() + t->p, n); t->p += n; });
  png_read_info(p, q);
  o.w = png_get_image_width(p, q); o.h = png_get_image_height(p, q); o.c = png_get_channels(p, q); o.depth = png_get_bit_depth(p, q);
  int rc = 1;
  if (o.depth < 8 || (png_get_color_type(p, q) & PNG_COLOR_MASK_PALETTE)) rc = 0;
  else if ((u128)o.w * o.h * o.c * 2 > CAP) rc = 2;
  if (rc == 1) {
    size_t st2 = (size_t)o.w * o.c * (o.depth / 8); buf->assign(st2 * o.h, 0);
    for (unsigned y = 0; y < o.h; y++) rows->push_back(buf->data() + st2 * y);
    png_read_image(p, rows->data());
    o.v.assign((size_t)o.w * o.h * o.c, 0);
    for (size_t i = 0; i < o.v.size(); i++) o.v[i] = o.depth == 8 ? (*buf)[i] : (*buf)[2 * i] * 256u + (*buf)[2 * i + 1];
  }
  png_destroy_read_struct(&p, &q, 0); delete buf; delete rows;
  return rc;
}
static uint32_t crc32_(const std::string& s, size_t a, size_t n) { uint32_t c = 0xffffffffu; for (size_t i = a; i < a + n; i++) { c ^= (unsigned char)s[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1; } return ~c; }
static void images(Rng& r, bool png) {
  std::string b, d; unsigned w = r.size(1, 20), h = r.size(1, 20); bool few = false;
  if (png) { static const int types[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA}; int k = (int)r.range(0, 3); Img m = noise(r, w, h, k + 1, r.chance(0.5) ? 8 : 16); b = im::png(r, m, types[k]); few = r.chance(0.12);
    // kinds of images that are not supported
    if (few) { bool pal = r.chance(0.5); Img i = noise(r, w, h, 1, 1u << r.range(0, pal ? 3 : 2)); b = im::png(r, i, pal ? PNG_COLOR_TYPE_PALETTE : PNG_COLOR_TYPE_GRAY); d += fmt(pal ? "palette of %u bits " : "gray of %u bits ", i.depth); } }
  else { Img m = noise(r, w, h, r.pick(std::vector<unsigned>{1, 3, 4}), 8); b = jpg(r, m, (int)r.range(1, 100)); }
  int n = few && r.chance(0.7) ? 0 : (int)r.size(1, 4);
  for (int k = 0; k < n && b.size() > 30; k++) switch (r.range(0, 5)) {
    case 0: { size_t c = r.range(0, b.size()); b.resize(c); d += fmt("cut at %zu ", c); break; }
    case 1: { size_t p = r.range(0, b.size() - 1); b[p] ^= 1 << r.range(0, 7); d += fmt("bit at %zu ", p); break; }
    case 2: { size_t p = r.range(0, b.size() - 1), c = r.range(1, 20); b.erase(p, c); d += fmt("%zu bytes missing at %zu ", c, p); break; }
    case 3: { size_t p = r.range(0, b.size() - 1), c = r.range(1, 20); b.insert(p, std::string(c, (char)r.range(0, 255))); d += fmt("%zu bytes inserted at %zu ", c, p); break; }
    default: if (png && b.size() > 33) {   // other header values with a correct checksum
        uint32_t v = (uint32_t)r.pick(std::vector<uint32_t>{0, 1, 2, w + 1, w * 2, 0x7fffffff, 0x80000000u, 65536, 0x10000001u, 46341, 1000000});
        int f = (int)r.range(0, 4); size_t p = f < 2 ? 16 + 4 * f : 22 + f;
        if (f < 2) for (int i = 0; i < 4; i++) b[p + i] = (char)(v >> (24 - 8 * i)); else b[p] = (char)r.range(0, 20);
        uint32_t c = crc32_(b, 12, 17); for (int i = 0; i < 4; i++) b[29 + i] = (char)(c >> (24 - 8 * i));
        d += fmt("header byte %zu changed ", p);
      } else { size_t p = r.range(0, std::min<size_t>(b.size() - 1, 200)); b[p] = (char)r.range(0, 255); d += fmt("byte at %zu ", p); }
  }
  note(fmt("%s %ux%u: ", png ? "png" : "jpg", w, h) + d);
  std::string f = G().scratch + (png ? "/h.png" : "/h.jpg"); tu::spew(f, b);
  Img o; int want = png ? refpng(b, o) : 0;
  if (!png) { 
    // a damaged header may announce an image too large to try
    want = unjpg(b, o) ? 1 : 0; }
  Tensor t; bool threw = false; size_t fds = openfds();
  try { if (png && r.chance(0.3)) { std::stringstream ss(b); threw = !Conv::PNGUtil::LoadFromStream(ss, t); } else t.LoadFromFile(f); }
  catch (std::runtime_error&) { threw = true; } catch (std::bad_alloc&) { threw = true; want = want == 1 && (u128)o.w * o.h * o.c * 4 > CAP ? 2 : want; }
  count(threw ? "damaged images refused" : "damaged images still readable");
  if (want == 1 && threw) fail("readable-refused", "an image that an independent decoder reads was refused");
  if (want == 0 && !threw) fail("damaged-accepted", "an image that cannot be decoded was accepted as " + tu::shape(t));
  if (want == 1 && !threw) {
    if (t.samples() != 1 || t.width() != o.w || t.height() != o.h || t.maps() != o.c) fail("image-shape", "the image was loaded with other dimensions than it has");
    else { double mx = (1u << o.depth) - 1; for (unsigned k = 0; k < o.c; k++) for (unsigned y = 0; y < o.h; y++) for (unsigned x = 0; x < o.w; x++) if (!(std::fabs(*t.data_ptr_const(x, y, k, 0) - o.at(x, y, k) / mx) < 1e-6)) { fail("image-value", fmt("pixel (%u,%u) channel %u differs from an independent decoder", x, y, k)); return; } }
  }
  if (openfds() != fds) fail("descriptor-leak", "a descriptor stays open after a refused image");
}
static void parameters(Rng& r) {   // parameter files that do not belong to the network, or are damaged
  gr::Graph g; g.random(r, 4); g.build(); g.net.SetIsTesting(true); g.net.Initialize(); g.net.InitializeWeights(); g.load();
  std::vector<Conv::CombinedTensor*> ps; g.net.GetParameters(ps); if (ps.empty()) return;
  std::stringstream ss; g.net.SerializeParameters(ss); std::string b = ss.str(), d; std::vector<size_t> heads; size_t p = 0;
  for (auto* c : ps) { heads.push_back(p); p += 32 + 4 * c->data.elements(); }
  b = damage(r, b, heads, 32, d); note("parameters of " + g.desc + ": " + d);
  Want w = walk(b, 0, false); size_t fit = 0; bool mismatch = false;
  for (; fit < w.pos.size() && fit < ps.size(); fit++) { uint64_t n; count_elems(b, w.pos[fit], n); if (n != ps[fit]->data.elements()) { mismatch = true; break; } }
  bool threw = false; std::stringstream in(b); std::vector<size_t> el; for (auto* c : ps) el.push_back(c->data.elements());
  try { g.net.DeserializeParameters(in); } catch (std::runtime_error&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
  count(threw ? "damaged parameter files refused" : "damaged parameter files loaded");
  bool need = mismatch || (w.refuse && fit < ps.size());
  if (need && !w.unsure && !threw) fail("parameters-accepted", "a parameter file that does not fit the network was loaded without an error");
  for (size_t k = 0; k < fit; k++) if (memcmp(ps[k]->data.data_ptr(), b.data() + w.pos[k] + 32, el[k] * 4)) { fail("parameters-wrong", fmt("parameter set %zu differs from the file", k)); return; }
  if (!threw) { for (size_t k = 0; k < ps.size(); k++) if (ps[k]->data.elements() != el[k]) { fail("parameters-resized", fmt("parameter set %zu has %zu elements after loading, the layer needs %zu", k, ps[k]->data.elements(), el[k])); return; }
    g.net.FeedForward(); g.net.BackPropagate(); count("passes after loading damaged files"); }
}

static void one(Rng& r, int64_t i) {
  switch (i % 8) {
    case 0: tensors(r); break;
    case 1: if (r.chance(0.08)) kinds(r); else streams(r, false); break;
    case 2: case 3: streams(r, true); break;
    case 4: compressed(r); break;
    case 5: images(r, true); break;
    case 6: images(r, false); break;
    default: parameters(r);
  }
  nontrivial(G().note); if (i < 8) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c20_hostile", one, [] { tu::init(); }); }
