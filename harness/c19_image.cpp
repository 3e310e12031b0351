// C19: images keep their pixels: what is loaded from PNG/JPG files is what an
// independent decoder sees, what is written comes back, formats are chosen by
// file name, and what cannot be represented is refused.
#include "img.h"
using namespace im; using namespace vh; using Conv::Tensor;

// how: 0 constructor, 1 LoadFromFile into a used tensor, 2 stream (PNG)
static bool load(Rng& r, Tensor& t, const std::string& f, bool png, std::string& why, size_t w = 3, size_t h = 2, size_t c = 3) {
  int how = (int)r.range(0, png ? 2 : 1);
  if (r.chance(0.5)) t.Resize(r.range(1, 3), r.range(1, 9), r.range(1, 9), r.range(1, 4));
  else if (r.chance(0.6)) t.Resize(1, w, h, c);
  tu::scatter(t);
  count(fmt("loads, access %d", how));
  try {
    if (how == 0) { Tensor u(f); t.Resize(u); memcpy(tu::cpu(t).data_ptr(), tu::cpu(u).data_ptr_const(), u.elements() * 4); }
    else if (how == 1) t.LoadFromFile(f);
    else { std::ifstream s(f, std::ios::binary); if (!Conv::PNGUtil::LoadFromStream(s, t)) { why = "LoadFromStream returned false"; return false; } }
  } catch (std::runtime_error& e) { why = "refused"; return false; }
  return true;
}
static bool same(const Tensor& t, Img& m, const char* what) {
  if (t.samples() != 1 || t.width() != m.w || t.height() != m.h || t.maps() != m.c) { fail(std::string(what) + "-shape", fmt("%s: loaded as %s, the image is %ux%u with %u channels", what, tu::shape(t).c_str(), m.w, m.h, m.c)); return false; }
  double mx = (1u << m.depth) - 1;
  for (unsigned k = 0; k < m.c; k++) for (unsigned y = 0; y < m.h; y++) for (unsigned x = 0; x < m.w; x++) {
    double g = *tu::cpu(t).data_ptr_const(x, y, k, 0), e = m.at(x, y, k) / mx;
    count("pixels compared");
    if (!(std::fabs(g - e) <= 1e-6)) { fail(std::string(what) + "-value", fmt("%s: pixel (%u,%u) channel %u loaded as %.9g, the file holds %u of %g", what, x, y, k, g, m.at(x, y, k), mx)); return false; }
  }
  return true;
}
static unsigned dim(Rng& r) { return r.chance(0.05) ? r.range(64, 300) : r.size(1, 40); }

static void one(Rng& r, int64_t i) {
  size_t fds = openfds(); std::string why, dir = G().scratch + "/"; unsigned w = dim(r), h = dim(r);
  while (w * h > 20000) h = dim(r) / 2 + 1;
  switch (i % 7) {
    case 0: case 1: {  // PNG reading
      static const int types[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA};
      int k = (int)r.range(0, 3); unsigned depth = r.chance(0.5) ? 8 : 16;
      Img m = noise(r, w, h, k + 1, depth); std::string f = dir + (r.chance(0.5) ? "i.png" : "i.PNG");
      note(fmt("png %u bit, %u channels, %ux%u", depth, m.c, w, h)); tu::spew(f, png(r, m, types[k]));
      Tensor t; if (!load(r, t, f, true, why, m.w, m.h, m.c)) { fail("png-refused", "a valid PNG was not loaded: " + why); break; }
      same(t, m, "png"); count(fmt("png files, %u bit, %u channels", depth, m.c)); unlink(f.c_str());
      break;
    }
    case 2: {  // PNG formats the library does not represent
      bool pal = r.chance(0.6); unsigned depth = 1u << r.range(0, pal ? 3 : 2);
      Img m = noise(r, w, h, 1, depth); std::string f = dir + "i.png"; note(fmt("unsupported png: %s %u bit %ux%u", pal ? "palette" : "gray", depth, w, h));
      tu::spew(f, png(r, m, pal ? PNG_COLOR_TYPE_PALETTE : PNG_COLOR_TYPE_GRAY));
      Tensor t; if (load(r, t, f, true, why)) fail("unsupported-accepted", "a PNG with a palette or fewer than 8 bits per channel was loaded as " + tu::shape(t));
      count("unsupported files refused");
      break;
    }
    case 3: {  // PNG writing and round trip
      Tensor t(1, w, h, 3); bool bytes = r.chance(0.6); Img m = noise(r, w, h, 3, 8); std::string f = dir + (r.chance(0.5) ? "o.png" : "o.PNG");
      if (r.chance(0.2)) for (size_t q = 0; q < m.v.size(); q++) m.v[q] = q % 256;
      for (unsigned k = 0; k < 3; k++) for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) *tu::cpu(t).data_ptr(x, y, k, 0) = bytes ? DATUM_FROM_UCHAR(m.at(x, y, k)) : (float)r.uni();
      note(fmt("png written, %ux%u, %s", w, h, bytes ? "byte values" : "any values"));
      tu::M4 before = tu::read(t); tu::scatter(t);
      if (r.chance(0.5)) t.WriteToFile(f); else { std::ofstream s(f, std::ios::binary); if (!Conv::PNGUtil::WriteToStream(s, t)) { fail("png-write", "WriteToStream returned false"); break; } }
      if (tu::read(t).d != before.d) fail("png-write-modifies", "writing an image changed the tensor");
      Img o; if (!unpng(tu::slurp(f), o) || o.w != w || o.h != h) { fail("png-written-invalid", "what was written is not an 8-bit RGB PNG of the tensor's size"); break; }
      for (unsigned k = 0; k < 3; k++) for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
        double want = 255.0 * *tu::cpu(t).data_ptr_const(x, y, k, 0); int got = (int)o.at(x, y, k); count("written pixels compared");
        if (bytes ? got != (int)m.at(x, y, k) : !(std::fabs(got - want) < 1.0001)) { fail("png-written-value", fmt("pixel (%u,%u) channel %u: value %.6g of 255 written as %d", x, y, k, want, got)); return; }
      }
      if (bytes) { Tensor u; if (!load(r, u, f, true, why, w, h, 3)) { fail("png-roundtrip", "a written PNG cannot be loaded again"); break; } same(u, m, "png-roundtrip"); count("png round trips"); }
      break;
    }
    case 4: {  // JPG reading
      unsigned c = r.pick(std::vector<unsigned>{1, 3, 3, 4}); Img m = noise(r, w, h, c, 8), ref; std::string d = jpg(r, m, (int)r.range(1, 100)), f = dir + r.pick(std::vector<std::string>{"i.jpg", "i.JPG", "i.jpeg", "i.JPEG"});
      note(fmt("jpg %u channels %ux%u", c, w, h)); tu::spew(f, d); unjpg(d, ref);
      Tensor t; if (!load(r, t, f, false, why, ref.w, ref.h, ref.c)) { fail("jpg-refused", "a valid JPG was not loaded: " + why); break; }
      same(t, ref, "jpg"); count("jpg files"); unlink(f.c_str());
      break;
    }
    case 5: {  // JPG writing: dimensions, and values up to coding loss
      Tensor t(1, w, h, 3); std::string f = dir + r.pick(std::vector<std::string>{"o.jpg", "o.JPG", "o.jpeg", "o.JPEG"}); int style = (int)r.range(0, 2); double base[3] = {r.uni(), r.uni(), r.uni()}, gx[3], gy[3];
      for (int k = 0; k < 3; k++) { gx[k] = r.real(-1, 1) * 0.004; gy[k] = r.real(-1, 1) * 0.004; }
      for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { float gray = (float)r.uni(); for (unsigned k = 0; k < 3; k++)
        *tu::cpu(t).data_ptr(x, y, k, 0) = style == 0 ? gray : style == 1 ? (float)base[k] : (float)std::min(1.0, std::max(0.0, base[k] + gx[k] * x + gy[k] * y)); }
      note(fmt("jpg written, %ux%u style %d", w, h, style));
      tu::scatter(t); t.WriteToFile(f);
      Img o; if (!unjpg(tu::slurp(f), o) || o.w != w || o.h != h || o.c != 3) { fail("jpg-written-invalid", "what was written is not an RGB JPG of the tensor's size"); break; }
      for (unsigned k = 0; k < 3; k++) for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
        double want = 255.0 * *tu::cpu(t).data_ptr_const(x, y, k, 0); count("written pixels compared");
        if (!(std::fabs(o.at(x, y, k) - want) < 9)) { fail("jpg-written-value", fmt("pixel (%u,%u) channel %u: value %.6g of 255 written as %u", x, y, k, want, o.at(x, y, k))); return; }
      }
      break;
    }
    default: {  // names and shapes that are refused; missing files
      int how = (int)r.range(0, 4); bool threw = false; std::string what;
      try {
        if (how == 0) { std::string f = dir + r.pick(std::vector<std::string>{"a.bmp", "a.tensor", "g", "pngx", "a.png.txt", "a.jp"}); what = "loading a file of unknown format " + f; tu::spew(f, "x"); Tensor t; t.LoadFromFile(f); }
        else if (how == 1) { std::string f = dir + r.pick(std::vector<std::string>{"a.bmp", "a.ppm", "g", "pngx", "a.png.txt"}); what = "writing to unknown format " + f; Tensor t(1, 2, 2, 3); t.Clear(0.5); t.WriteToFile(f); }
        else if (how == 2) { std::string f = dir + r.pick(std::vector<std::string>{"none.png", "none.jpg", "none.Tensor"}); what = "loading the missing file " + f; Tensor t(f); }
        else if (how == 3) { std::string f = dir + "nodir/" + r.pick(std::vector<std::string>{"none.png", "none.jpg", "none.Tensor"}); what = "writing to a missing directory"; Tensor t(1, 2, 2, 3); t.Clear(0.5); t.WriteToFile(f); }
        else { std::string f = dir + r.pick(std::vector<std::string>{"a.png", "a.jpg"}); size_t s = r.range(1, 2), m = r.pick(std::vector<size_t>{1, 2, 4}); if (s == 2 && r.chance(0.5)) m = 3; what = fmt("writing %zu samples and %zu maps to %s", s, m, f.c_str()); Tensor t(s, 3, 2, m); t.Clear(0.5); t.WriteToFile(f); }
      } catch (std::runtime_error&) { threw = true; }
      note(what);
      if (!threw) fail(fmt("not-refused:%d", how), what + " did not report an error");
      count("refusals observed");
    }
  }
  size_t now = openfds(); count("descriptor balance checks");
  if (now != fds) fail("descriptor-leak", fmt("%zu descriptors before, %zu after: %s", fds, now, G().note.c_str()));
  nontrivial(G().note); if (i < 7) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c19_image", one, [] { tu::init(); }); }
