// C07: samples of a batch do not influence each other: each sample's outputs
// and input gradients are those it gets alone, under permutation and with the
// other samples poisoned; parameter gradients are the sum over samples.
#include "layers.h"
using namespace ly;
using namespace vh;

static M4 slice(const M4& t, size_t s) { M4 o(1, t.w, t.h, t.m); size_t n = o.n(); for (size_t i = 0; i < n; i++) o.d[i] = t.d[s * n + i]; return o; }
static M4 perm(const M4& t, const std::vector<size_t>& p) { M4 o = t; size_t n = t.n() / t.s; for (size_t s = 0; s < t.s; s++) for (size_t i = 0; i < n; i++) o.d[s * n + i] = t.d[p[s] * n + i]; return o; }

struct Res { V out, id, pd; };
static bool go(const Case& c, const V& od, Res& R, bool bwd) {
  Inst I; std::string why;
  if (!I.connect(c, why)) { fail("refused", why); return false; }
  I.load(c);
  for (auto* t : I.in) for (size_t k = 0; k < t->delta.elements(); k++) tu::cpu(t->delta).data_ptr()[k] = 0;
  I.ready(); I.layer->FeedForward();
  for (auto* o : I.out) R.out.push_back(tu::read(o->data));
  if (bwd) {
    for (size_t k = 0; k < od.size(); k++) tu::put(I.out[k]->delta, od[k]);
    I.ready(); I.layer->BackPropagate();
    for (auto* t : I.in) R.id.push_back(tu::read(t->delta));
    for (auto* t : I.layer->parameters()) R.pd.push_back(tu::read(t->delta));
  }
  return true;
}

static void one(Rng& r, int64_t i) {
  Case c = any(r, 7);
  for (int k = 0; c.in[0].s < 2 && k < 50; k++) c = any(r, 7);
  if (c.in[0].s < 2) return;
  size_t S = c.in[0].s;
  std::string ish; for (auto& t : c.in) ish += " " + t.shape();
  note(c.desc + " on" + ish);
  bool bw = c.has_bwd;
  V shp = c.fwd(c.in, c.par), od;
  for (auto& o : shp) od.push_back(tu::random(r, o.s, o.w, o.h, o.m));
  Res B; if (!go(c, od, B, bw)) return;
  auto cmp = [&](const char* what, const M4& got, size_t gs, const M4& want, size_t ws) {
    size_t n = got.n() / got.s;
    for (size_t e = 0; e < n; e++) {
      count("elements compared");
      double a = got.d[gs * n + e], b = want.d[ws * n + e];
      if (!vh::close(a, b, 1.0, 1e-4)) { fail(std::string(what) + ":" + c.kind, fmt("%s: sample %zu element %zu: %.9g vs %.9g", what, gs, e, a, b)); return false; }
    }
    return true;
  };
  // alone
  V sumpd; for (auto& t : B.pd) { M4 z = t; for (auto& v : z.d) v = 0; sumpd.push_back(z); }
  for (size_t s = 0; s < S; s++) {
    Case a = c; V aod; for (auto& t : a.in) t = slice(t, s); for (auto& t : od) aod.push_back(slice(t, s));
    Res A; if (!go(a, aod, A, bw)) return;
    for (size_t k = 0; k < B.out.size(); k++) if (!cmp("alone-out", B.out[k], s, A.out[k], 0)) return;
    if (bw) for (size_t k = 0; k < B.id.size(); k++) if (!cmp("alone-grad", B.id[k], s, A.id[k], 0)) return;
    for (size_t k = 0; k < A.pd.size(); k++) for (size_t e = 0; e < A.pd[k].n(); e++) sumpd[k].d[e] += A.pd[k].d[e];
  }
  for (size_t k = 0; k < B.pd.size(); k++) for (size_t e = 0; e < B.pd[k].n(); e++) {
    count("parameter gradient sums compared");
    if (!vh::close(B.pd[k].d[e], sumpd[k].d[e], std::sqrt((double)shp[0].n()), 2e-4)) {
      fail("pgrad-sum:" + c.kind, fmt("parameter %zu[%zu]: batch gradient %.9g, sum of single-sample gradients %.9g", k, e, B.pd[k].d[e], sumpd[k].d[e])); return; }
  }
  // permuted
  std::vector<size_t> p(S); for (size_t k = 0; k < S; k++) p[k] = k;
  for (size_t k = S; k > 1; k--) std::swap(p[k - 1], p[r.range(0, k - 1)]);
  { Case a = c; V aod; for (auto& t : a.in) t = perm(t, p); for (auto& t : od) aod.push_back(perm(t, p));
    Res A; if (!go(a, aod, A, bw)) return;
    for (size_t k = 0; k < B.out.size(); k++) for (size_t s = 0; s < S; s++) if (!cmp("perm-out", A.out[k], s, B.out[k], p[s])) return;
    if (bw) for (size_t k = 0; k < B.id.size(); k++) for (size_t s = 0; s < S; s++) if (!cmp("perm-grad", A.id[k], s, B.id[k], p[s])) return; }
  // poisoned: every other sample is NaN / huge, this one must come out unchanged
  size_t keep = r.range(0, S - 1);
  { Case a = c; V aod = od; bool nan = r.chance(0.6) && c.kind.find("pool") == std::string::npos;
    auto poison = [&](M4& t) { size_t n = t.n() / t.s; for (size_t s = 0; s < t.s; s++) if (s != keep) for (size_t e = 0; e < n; e++) t.d[s * n + e] = nan ? NAN : (e % 2 ? 3e30 : -3e30); };
    for (auto& t : a.in) poison(t);
    for (auto& t : aod) poison(t);
    Res A; if (!go(a, aod, A, bw)) return;
    for (size_t k = 0; k < B.out.size(); k++) if (!cmp("poison-out", A.out[k], keep, B.out[k], keep)) return;
    if (bw) for (size_t k = 0; k < B.id.size(); k++) if (!cmp("poison-grad", A.id[k], keep, B.id[k], keep)) return;
    count("poisoned batches"); }
  nontrivial(G().note);
  count("layer " + c.kind);
  if (i < 6) sample(G().note);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c07_batch", one, [] { tu::init(); }); }
