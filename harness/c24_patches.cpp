// C24: patch extraction: one patch per pixel, centred on it, holding the image
// where the patch lies inside and its mirror image where it does not; positions
// and mean subtraction accordingly; nothing else is touched.
#include "tutil.h"
#include "Segmentation.h"
using namespace vh; using Conv::Tensor; using tu::M4;
static size_t refl(long v, long n) { for (;;) { if (v < 0) v = -v; else if (v >= n) v = 2 * n - 1 - v; else return (size_t)v; } }
static void one(Rng& r, int64_t i) {
  size_t S = r.big(1, 3, 12), w = r.big(1, 14, 80), h = r.big(1, 14, 80), m = r.big(1, 4, 20); int px = (int)r.size(1, 9), py = (int)r.size(1, 9); if (r.chance(0.1)) px = (int)r.range(1, 31); if (r.chance(0.1)) py = (int)r.range(1, 31); bool mean = r.chance(0.4); int s = (int)r.range(0, (int64_t)S - 1);
  note(fmt("%dx%d patches of sample %d of %zus@%zux%zux%zum%s", px, py, s, S, w, h, m, mean ? ", mean removed" : ""));
  M4 im = tu::random(r, S, w, h, m, r.chance(0.3) ? -100 : -1, 1); Tensor src, t, hp; tu::write(src, im);
  if (r.chance(0.5)) { t.Resize(r.range(1, 3), r.range(1, 3), 1, 1); hp.Resize(2, 2); }
  Conv::Segmentation::ExtractPatches(px, py, t, hp, src, s, mean);
  for (size_t e = 0; e < im.n(); e++) if (src.data_ptr()[e] != (float)im.d[e]) { fail("source", "the image was changed"); return; }
  if (t.samples() != w * h || (int)t.width() != px || (int)t.height() != py || t.maps() != m) { fail("shape", "patches are " + tu::shape(t)); return; }
  if (hp.elements() != 2 * w * h || hp.samples() != w * h) { fail("shape", "positions are " + tu::shape(hp)); return; }
  for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
    size_t e = y * w + x; double sum = 0, mag = 0; std::vector<double> v;
    for (size_t k = 0; k < m; k++) for (int b = 0; b < py; b++) for (int a = 0; a < px; a++) { double q = im.at(refl((long)x + a - px / 2, w), refl((long)y + b - py / 2, h), k, s); v.push_back(q); sum += q; mag += std::fabs(q); }
    double mn = mean ? sum / v.size() : 0; size_t c = 0;
    for (size_t k = 0; k < m; k++) for (int b = 0; b < py; b++) for (int a = 0; a < px; a++, c++) { double g = *t.data_ptr_const(a, b, k, e), want = v[c] - mn; count("patch values compared");
        if (!(std::fabs(g - want) <= (mean ? 1e-5 * (mag / v.size() + std::fabs(v[c])) + 1.2e-7 * mag + 1e-6 : 0))) { fail(mean ? "mean" : "value", fmt("patch at (%zu,%zu), entry (%d,%d) of map %zu is %.8g, expected %.8g", x, y, a, b, k, g, want)); return; } }
    double hy = std::max(0.0, std::min((double)((int)h - (py - 1)), (double)((int)y - py / 2))) / h, hx = std::max(0.0, std::min((double)((int)w - (px - 1)), (double)((int)x - px / 2))) / w;
    if (std::fabs(hp.data_ptr()[2 * e] - hy) > 1e-6 || std::fabs(hp.data_ptr()[2 * e + 1] - hx) > 1e-6) { fail("position", fmt("patch at (%zu,%zu) has position %g,%g, expected %g,%g", x, y, hp.data_ptr()[2 * e], hp.data_ptr()[2 * e + 1], hy, hx)); return; }
  }
  count("patches checked", w * h); if (px / 2 >= (int)w || py / 2 >= (int)h) count("patches reaching over the image more than once");
  // the patch of a pixel does not depend on the image outside its own field of view
  nontrivial(G().note); if (i < 4) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c24_patches", one, [] { tu::init(); }); }
