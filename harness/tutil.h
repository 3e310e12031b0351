// Helpers shared by drivers: tensor models, filling, comparing.
#pragma once
#include "vh.h"
#include <cn24.h>
#include <fstream>
#include <iostream>
#include <memory>
#ifdef BUILD_OPENCL
#include "cl_shim.h"
#endif

namespace tu {
using Conv::Tensor;
using vh::Rng;
using vh::fmt;

struct M4 {  // reference tensor in double precision, layout computed independently
  size_t s = 0, w = 0, h = 0, m = 0;
  std::vector<double> d;
  M4() {}
  M4(size_t s_, size_t w_, size_t h_, size_t m_) : s(s_), w(w_), h(h_), m(m_), d(s_ * w_ * h_ * m_, 0.0) {}
  size_t n() const { return d.size(); }
  double& at(size_t x, size_t y, size_t map, size_t sam) { return d[((sam * m + map) * h + y) * w + x]; }
  double at(size_t x, size_t y, size_t map, size_t sam) const { return d[((sam * m + map) * h + y) * w + x]; }
  std::string shape() const { return fmt("%zus@%zux%zux%zum", s, w, h, m); }
};

inline std::string shape(const Tensor& t) { return fmt("%zus@%zux%zux%zum", t.samples(), t.width(), t.height(), t.maps()); }

// In an OpenCL build a tensor's content may be in the device's memory.
#ifdef BUILD_OPENCL
inline Tensor& cpu(Tensor& t) { t.MoveToCPU(); return t; }
inline const Tensor& cpu(const Tensor& t) { const_cast<Tensor&>(t).MoveToCPU(); return t; }
// moves the content of some tensors to the device; the copy left behind is made useless
inline Rng& scatter_rng() { static Rng r(1); return r; }
inline void scatter(Tensor& t, double p = 0.5) {
  if (!t.elements() || !scatter_rng().chance(p)) return;
  cpu(t); t.MoveToGPU(); const float bad = -54321.25f; for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = bad;
  vh::count("tensors moved to the device beforehand");
}
#else
inline Tensor& cpu(Tensor& t) { return t; }
inline const Tensor& cpu(const Tensor& t) { return t; }
inline void scatter(Tensor&, double = 0.5) {}
#endif
inline void scatter(Conv::CombinedTensor& t) { scatter(t.data); scatter(t.delta); }

inline M4 read(const Tensor& t) {
  cpu(t);
  M4 m(t.samples(), t.width(), t.height(), t.maps());
  for (size_t i = 0; i < m.n(); i++) m.d[i] = t.data_ptr_const()[i];
  return m;
}
inline void write(Tensor& t, const M4& m) {
  cpu(t); t.Resize(m.s, m.w, m.h, m.m);
  for (size_t i = 0; i < m.n(); i++) t.data_ptr()[i] = (float)m.d[i];
}
inline void put(Tensor& t, const M4& m) {  // same shape, no resize
  cpu(t); for (size_t i = 0; i < m.n(); i++) t.data_ptr()[i] = (float)m.d[i];
}

// float-representable random values
inline double rfloat(Rng& r, double a = -1, double b = 1) { return (double)(float)r.real(a, b); }
inline M4 random(Rng& r, size_t s, size_t w, size_t h, size_t m, double a = -1, double b = 1) {
  M4 t(s, w, h, m);
  for (auto& v : t.d) v = rfloat(r, a, b);
  return t;
}
inline float rbits(Rng& r) {  // any bit pattern, biased to special ones
  static const uint32_t sp[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u, 1u, 0x007fffffu, 0x3f800000u,
                                0x58585858u, 0x58595859u, 0x00580058u, 0x59585958u, 0xffffffffu, 0x7f7fffffu};
  uint32_t u = r.chance(0.3) ? sp[r.range(0, 14)] : (uint32_t)r.next();
  float f; memcpy(&f, &u, 4); return f;
}
inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }

inline std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str();
}
inline void spew(const std::string& p, const std::string& c) { std::ofstream f(p, std::ios::binary); f.write(c.data(), c.size()); }

inline std::string u64le(uint64_t v) { std::string s; for (int i = 0; i < 8; i++) s += (char)((v >> (8 * i)) & 0xff); return s; }

// silent init of the library: no console chatter
inline void init(int level = 0) {
  static vh::NullBuf& nb = *new vh::NullBuf;
  static std::streambuf* o = nullptr;
  if (!o) { o = std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); }
#ifdef BUILD_OPENCL
  cl_report = [](const std::string& sig, const std::string& m) { vh::fail("opencl:" + sig, m); };
  vh::G().before_case = [] { uint64_t s = vh::mix(vh::G().seed * 977 + vh::G().cur); cl_reseed(s); scatter_rng() = Rng(s + 1); };
  vh::G().at_end = [] { ClStats& s = cl_stats(); vh::count("OpenCL: kernels launched", s.launches); vh::count("OpenCL: work items executed", s.items); vh::count("OpenCL: commands deferred", s.deferred); vh::count("OpenCL: transfers", s.reads + s.writes); vh::count("OpenCL: buffers created", s.created); for (auto& k : s.kernels) vh::count("OpenCL: " + k.first, k.second); };
#endif
  Conv::System::Init(level);
}
}  // namespace tu
