// C04: the tensor math kernels compute their mathematical definition, for every
// shape, stride, offset and padding, and touch nothing outside their operands.
#include "tutil.h"
using namespace tu; using namespace vh;
typedef Conv::TensorMath TM;

static const float POISON = -12345.5f;
struct Mat {  // a matrix stored with leading dimension ld inside sample `sm` of a tensor of exactly the needed size
  Tensor t; size_t rows, cols, ld, sm, S; std::vector<float> before;
  Mat(Rng& r, size_t rows_, size_t cols_, bool nanfill) : rows(rows_), cols(cols_) {
    ld = cols + (r.chance(0.5) ? 0 : r.range(1, 4)); S = r.range(1, 3); sm = r.range(0, S - 1);
    // the tensor ends exactly with the matrix when it is the last sample
    t.Resize(S, (rows - 1) * ld + cols); for (size_t e = 0; e < t.elements(); e++) t[e] = POISON;
    for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) set(i, j, nanfill ? NAN : (float)rfloat(r, -2, 2));
    snap(); tu::scatter(t);
  }
  size_t idx(size_t i, size_t j) const { return sm * t.width() + i * ld + j; }
  void set(size_t i, size_t j, float f) { tu::cpu(t)[idx(i, j)] = f; }
  float get(size_t i, size_t j) const { return tu::cpu(t).data_ptr_const()[idx(i, j)]; }
  float old(size_t i, size_t j) const { return before[idx(i, j)]; }
  void snap() { before.assign(tu::cpu(t).data_ptr(), tu::cpu(t).data_ptr() + t.elements()); }
  bool untouched_outside(bool all) const {
    for (size_t e = 0; e < t.elements(); e++) {
      long q = (long)e - (long)(sm * t.width()); bool inside = false;
      if (!all && q >= 0 && (size_t)q < t.width() && q % ld < cols) inside = true;
      if (!inside && bits(before[e]) != bits(tu::cpu(t).data_ptr_const()[e])) return false;
    }
    return true;
  }
};
static bool opencl() {
#ifdef BUILD_OPENCL
  return true;
#else
  return false;
#endif
}
// an operand may be a shadow of the tensor that owns the memory
struct Via { std::vector<std::unique_ptr<Tensor>> v; Tensor& operator()(Rng& r, Tensor& t, double p = 0.25) { if (!r.chance(p)) return t; v.emplace_back(new Tensor); v.back()->Shadow(t); count("operands that are shadows"); return *v.back(); } };
static float coef(Rng& r) { return r.chance(0.4) ? 1.f : (float)rfloat(r, -2, 2); }

static void gemm(Rng& r) {
  int M = r.size(1, 9), N = r.size(1, 20), K = r.size(1, 12); if (r.chance(0.05)) { M = r.range(1, 70); N = r.range(1, 70); K = r.range(1, 70); }
  bool ta = r.chance(0.4), tb = r.chance(0.4); float al = coef(r), be = r.chance(0.5) ? 0.f : coef(r);
  Mat A(r, ta ? K : M, ta ? M : K, false), B(r, tb ? N : K, tb ? K : N, false), C(r, M, N, be == 0);
  bool hinted = be == 0 && r.chance(0.5); C.t.hint_ignore_content_ = hinted;
  std::string d = fmt("GEMM M%d N%d K%d tA%d tB%d alpha %g beta %g ld %zu %zu %zu sm %zu %zu %zu", M, N, K, ta, tb, al, be, A.ld, B.ld, C.ld, A.sm, B.sm, C.sm); note(d); nontrivial(d);
  Via via; Tensor &vA = via(r, A.t, 0.1), &vB = via(r, B.t, 0.1), &vC = via(r, C.t, hinted ? 0 : 0.1); for (auto* q : {&A, &B, &C}) scatter(q->t);
  TM::GEMM(true, ta, tb, M, N, K, al, vA, A.sm, A.ld, vB, B.sm, B.ld, be, vC, C.sm, C.ld);
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
    double s = 0, mag = 0;
    for (int k = 0; k < K; k++) { double p = (double)(ta ? A.get(k, i) : A.get(i, k)) * (tb ? B.get(j, k) : B.get(k, j)); s += p; mag += std::fabs(p); }
    double want = al * s + (be == 0 ? 0 : be * (double)C.old(i, j));
    if (!close(C.get(i, j), want, std::fabs(al) * mag + std::fabs(be == 0 ? 0 : be * C.old(i, j)), 2e-5)) { fail("gemm-value", fmt("(%d,%d) is %g, expected %g", i, j, C.get(i, j), want)); return; }
  }
  bool garbage = hinted && opencl();   // content declared worthless need not come back from the device
  if ((!garbage && !C.untouched_outside(false)) || !A.untouched_outside(true) || !B.untouched_outside(true)) fail("gemm-outside", "memory outside the result matrix changed");
  if (C.t.hint_ignore_content_) fail("hint", "result still marked as garbage");
  count("GEMM products"); if (ta || tb) count("GEMM products with transposes");
}
static void gemv(Rng& r) {
  int M = r.big(1, 12, 150), N = r.big(1, 40, 400); bool ta = r.chance(0.3); if (ta) N = M;
  float al = coef(r), be = r.chance(0.5) ? 0.f : coef(r); int ix = r.range(1, 3), iy = r.range(1, 3);
  Mat A(r, M, N, false);
  Mat X(r, N, 1, false), Y(r, M, 1, be == 0);  // increments are leading dimensions of a column
  std::string d = fmt("GEMV M%d N%d tA%d alpha %g beta %g ld %zu inc %zu %zu", M, N, ta, al, be, A.ld, X.ld, Y.ld); note(d); nontrivial(d); (void)ix; (void)iy;
  Via via; Tensor &vA = via(r, A.t, 0.1), &vX = via(r, X.t, 0.1), &vY = via(r, Y.t, 0.1); for (auto* q : {&A, &X, &Y}) scatter(q->t);
  TM::GEMV(true, ta, M, N, al, vA, A.sm, A.ld, vX, X.sm, X.ld, be, vY, Y.sm, Y.ld);
  for (int i = 0; i < M; i++) {
    double s = 0, mag = 0; for (int j = 0; j < N; j++) { double p = (double)(ta ? A.get(j, i) : A.get(i, j)) * X.get(j, 0); s += p; mag += std::fabs(p); }
    double want = al * s + (be == 0 ? 0 : be * (double)Y.old(i, 0));
    if (!close(Y.get(i, 0), want, std::fabs(al) * mag + std::fabs(be == 0 ? 0 : be * Y.old(i, 0)), 2e-5)) { fail("gemv-value", fmt("(%d) is %g, expected %g", i, Y.get(i, 0), want)); return; }
  }
  if (!Y.untouched_outside(false) || !A.untouched_outside(true) || !X.untouched_outside(true)) fail("gemv-outside", "memory outside the result vector changed");
  count("GEMV products");
}
static void im2col(Rng& r) {
  int S = r.big(1, 3, 12), m = r.big(1, 3, 20), w = r.big(1, 12, 70), h = r.big(1, 12, 70), kw, kh, sx = r.big(1, 3, 9), sy = r.big(1, 3, 9), px = r.chance(0.5) ? 0 : r.range(0, 4), py = r.chance(0.5) ? 0 : r.range(0, 4);
  kw = r.size(1, std::min((int)r.big(5, 5, 14), w + 2 * px)); kh = r.size(1, std::min((int)r.big(5, 5, 14), h + 2 * py));
  int ow = (2 * px + w - kw) / sx + 1, oh = (2 * py + h - kh) / sy + 1;
  std::string d = fmt("IM2COL %d@%dx%dx%d k%dx%d s%dx%d p%dx%d", S, w, h, m, kw, kh, sx, sy, px, py); note(d); nontrivial(d);
  M4 src = random(r, S, w, h, m), y = random(r, kw * kh * m, ow, oh, S);
  Tensor st, ct(kw * kh * m, ow, oh, S), yt, bt(S, w, h, m); write(st, src); write(yt, y); ct.Clear(NAN); bt.Clear(NAN); Via via; Tensor &vs = via(r, st), &vc = via(r, ct), &vy = via(r, yt), &vb = via(r, bt); for (Tensor* t : {&st, &ct, &yt, &bt}) scatter(*t);
  TM::IM2COL(vs, w, h, m, S, kw, kh, sx, sy, px, py, vc);
  TM::COL2IM(vb, w, h, m, S, kw, kh, sx, sy, px, py, vy);
  M4 back(S, w, h, m), mag(S, w, h, m); size_t padded = 0;
  for (int s = 0; s < S; s++) for (int im = 0; im < m; im++) for (int ky = 0; ky < kh; ky++) for (int kx = 0; kx < kw; kx++)
    for (int oy = 0; oy < oh; oy++) for (int ox = 0; ox < ow; ox++) {
      int ix = ox * sx - px + kx, iy = oy * sy - py + ky; bool in = ix >= 0 && iy >= 0 && ix < w && iy < h;
      size_t row = (im * kh + ky) * kw + kx; float got = *tu::cpu(ct).data_ptr_const(ox, oy, s, row); double want = in ? src.at(ix, iy, im, s) : 0;
      if (got != want) { fail("im2col-value", fmt("sample %d map %d kernel (%d,%d) at (%d,%d): %g, expected %g", s, im, kx, ky, ox, oy, got, want)); return; }
      if (in) { double v = y.at(ox, oy, s, row); back.at(ix, iy, im, s) += v; mag.at(ix, iy, im, s) += std::fabs(v); } else padded++;
    }
  for (size_t e = 0; e < back.n(); e++) if (!close(tu::cpu(bt).data_ptr_const()[e], back.d[e], mag.d[e], 2e-5)) { fail("col2im-value", fmt("element %zu is %g, expected %g", e, tu::cpu(bt).data_ptr_const()[e], back.d[e])); return; }
  count("IM2COL/COL2IM pairs"); if (padded) count("of these with padding"); count("window elements compared", ct.elements());
  // a target of the wrong size is refused
  if (r.chance(0.1)) { Tensor bad(kw * kh * m + 1, ow, oh, S); bool thrown = false; try { TM::IM2COL(st, w, h, m, S, kw, kh, sx, sy, px, py, bad); } catch (std::runtime_error&) { thrown = true; } if (!thrown) fail("im2col-size", "target of the wrong size accepted"); count("size mismatches refused"); }
}
static void updown(Rng& r) {
  int S = r.big(1, 3, 12), m = r.big(1, 3, 20), w = r.big(1, 6, 40), h = r.big(1, 6, 40), rw = r.big(1, 4, 12), rh = r.big(1, 4, 12), ew = r.chance(0.3) ? r.range(0, 2) : 0, eh = r.chance(0.3) ? r.range(0, 2) : 0;
  float f = r.chance(0.5) ? 1.f / (rw * rh) : coef(r);
  std::string d = fmt("UP/DOWN %d@%dx%dx%d region %dx%d extra %dx%d factor %g", S, w, h, m, rw, rh, ew, eh, f); note(d); nontrivial(d);
  M4 small = random(r, S, w, h, m), large = random(r, S, w * rw + ew, h * rh + eh, m);
  Tensor ts, tl, down(S, w, h, m), up(S, w * rw + ew, h * rh + eh, m); write(ts, small); write(tl, large); down.Clear(NAN); up.Clear(POISON); Via via; Tensor &vs = via(r, ts), &vl = via(r, tl), &vd = via(r, down), &vu = via(r, up); for (Tensor* t : {&ts, &tl, &down, &up}) scatter(*t);
  TM::DOWN(vl, vd, rw, rh, f); TM::UP(vs, vu, rw, rh, f);
  for (int s = 0; s < S; s++) for (int q = 0; q < m; q++) {
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      double sum = 0, mag = 0; for (int b = 0; b < rh; b++) for (int a = 0; a < rw; a++) { double v = large.at(x * rw + a, y * rh + b, q, s); sum += v; mag += std::fabs(v); }
      if (!close(*tu::cpu(down).data_ptr_const(x, y, q, s), f * sum, std::fabs(f) * mag, 2e-5)) { fail("down-value", fmt("(%d,%d,%d,%d) is %g, expected %g", x, y, q, s, *tu::cpu(down).data_ptr_const(x, y, q, s), f * sum)); return; } }
    for (int y = 0; y < h * rh + eh; y++) for (int x = 0; x < w * rw + ew; x++) {
      float got = *tu::cpu(up).data_ptr_const(x, y, q, s); double want = (x < w * rw && y < h * rh) ? f * small.at(x / rw, y / rh, q, s) : POISON;
      if (!close(got, want, 0, 2e-5)) { fail("up-value", fmt("(%d,%d,%d,%d) is %g, expected %g", x, y, q, s, got, want)); return; } }
  }
  count("UP/DOWN pairs");
}
static void misc(Rng& r) {
  int S = r.big(1, 4, 40), m = r.big(1, 4, 40), w = r.big(1, 8, 90), h = r.big(1, 8, 90);
  std::string d = fmt("SMS/ADD/SET %d@%dx%dx%d", S, w, h, m); note(d);
  bool inplace = r.chance(0.3);
  M4 a = random(r, S, w, h, m), b = random(r, S, w, h, m); Tensor ta, tb, tc(S, w, h, m), td(m, w, h, S); write(ta, a); write(tb, b); tc.Clear(NAN); td.Clear(NAN); Via via; Tensor &va = via(r, ta), &vb = via(r, tb), &vd = via(r, td), &vdst = inplace ? vb : via(r, tc); for (Tensor* t : {&ta, &tb, &tc, &td}) scatter(*t);
  nontrivial(d + fmt(" %g", a.d[0])); Tensor& dst = inplace ? tb : tc;
  TM::ADD(va, vb, vdst);
  for (size_t e = 0; e < a.n(); e++) if (tu::cpu(dst).data_ptr_const()[e] != (float)((float)a.d[e] + (float)b.d[e])) { fail("add-value", fmt("element %zu", e)); return; }
  for (Tensor* t : {&ta, &td}) scatter(*t);
  TM::SMS(va, vd);
  for (int s = 0; s < S; s++) for (int q = 0; q < m; q++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++)
    if (*tu::cpu(td).data_ptr_const(x, y, s, q) != a.at(x, y, q, s)) { fail("sms-value", fmt("(%d,%d,%d,%d)", x, y, q, s)); return; }
  int sm = r.chance(0.4) ? -1 : r.range(0, S - 1); float v = coef(r); scatter(ta); TM::SETSAMPLE(va, sm, v);
  for (size_t e = 0; e < a.n(); e++) { bool in = sm < 0 || (int)(e / (w * h * m)) == sm; if (tu::cpu(ta).data_ptr_const()[e] != (in ? v : (float)a.d[e])) { fail("setsample-value", fmt("sample %d, element %zu", sm, e)); return; } }
  if (r.chance(0.3)) { Tensor bad(S, w + 1, h, m); bool thrown = false; try { TM::ADD(ta, tb, bad); } catch (std::runtime_error&) { thrown = true; } if (!thrown) fail("add-size", "mismatched sizes accepted"); count("size mismatches refused"); }
  count("SMS/ADD/SETSAMPLE triples");
}
static void one(Rng& r, int64_t c) {
  switch (c % 5) { case 0: gemm(r); break; case 1: gemv(r); break; case 2: im2col(r); break; case 3: updown(r); break; default: misc(r); }
  if (c < 5) sample(G().note);
}
int main(int argc, char** argv) { return run(argc, argv, "c04_math", one, [] { init(0); }); }
