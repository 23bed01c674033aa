// Fourier transforms: the inverse undoes the forward transform, both equal the defining sum, work areas keep every pixel in place,
// and the padded size is large enough and a product of small primes.
// SRCS: SEFramework/src/lib/FFT/FFT.cpp
#include "pbt.h"
#include <memory>
#include <functional>
#include <mutex>
#include <cassert>
#include <complex>
#include <thread>
#include <tuple>
#include "SEFramework/FFT/FFT.h"
#include "SEFramework/FFT/FFTHelper.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ImageChunk.h"
using namespace pbt;
using namespace SourceXtractor;

template <typename T> static std::vector<T> gen(Case& c, int n) { std::vector<T> d(n); uint64_t key = c.s.draw(1 << 16); int kind = int(c.s.draw(2));
  for (int i = 0; i < n; ++i) { uint64_t z = key * 2654435761u + uint64_t(i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; d[i] = kind == 0 ? T(i == int(key % n)) : kind == 1 ? T(int(z % 21) - 10) : T(double(z % 100000) / 1e3); } c.note() << "data kind" << kind << " key" << key; return d; }
static int dim(Case& c) { switch (c.s.draw(3)) { case 0: return int(c.s.range(1, 6)); case 1: return fftRoundDimension(int(c.s.range(1, 60))); default: return int(c.s.range(1, 24)); } }

template <typename T> static void roundTrip(Case& c) {
  const double eps = std::is_same<T, float>::value ? 2e-6 : 1e-13; int w = dim(c), h = dim(c); c.note() << w << "x" << h << " "; auto d = gen<T>(c, w * h); c.nontrivial(w > 1 && h > 1); c.label("square", w == h); c.label("odd width", w % 2 == 1);
  auto img = VectorImage<T>::create(w, h, d); int stride = 2 * (w / 2 + 1); double n2 = 0; for (auto v : d) n2 += double(v) * v; double tol = eps * (std::sqrt(n2) * std::sqrt(double(w * h)) + 1) * 4;
  std::vector<T> buf(c.s.coin() ? size_t(stride) * h : 0); if (c.s.coin()) for (auto& v : buf) v = T(-99);
  auto fwd = FFT<T>::createForwardPlan(w, h, buf); c.check(buf.size() >= size_t(stride) * h, "the plan's work area is too small"); auto inv = FFT<T>::createInversePlan(w, h, buf); buf.resize(size_t(stride) * h);
  copyImageToFFTWorkArea(*img, buf); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) c.eq(buf[x + y * stride], d[x + y * w], "pixel in the work area");
  FFT<T>::executeForward(fwd, buf); auto* z = reinterpret_cast<std::complex<T>*>(buf.data()); int cw = w / 2 + 1;
  if (w * h <= 150) for (int v = 0; v < h; ++v) for (int u = 0; u < cw; ++u) { std::complex<double> s; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) s += double(d[x + y * w]) * std::polar(1.0, -2 * M_PI * (double(u) * x / w + double(v) * y / h)); c.close(z[u + v * cw].real(), s.real(), 0, tol, "real part of a coefficient"); c.close(z[u + v * cw].imag(), s.imag(), 0, tol, "imaginary part of a coefficient"); }
  double p = 0; for (int v = 0; v < h; ++v) for (int u = 0; u < cw; ++u) p += std::norm(std::complex<double>(z[u + v * cw])) * (u == 0 || (w % 2 == 0 && u == w / 2) ? 1 : 2); c.close(p, n2 * w * h, 1e-4, 1e-3, "Parseval");
  FFT<T>::executeInverse(inv, buf);
  // back into an image, whole or with margins cut off
  int l = int(c.s.range(0, w - 1)), r = int(c.s.range(0, w - 1 - l)), t = int(c.s.range(0, h - 1)), b = int(c.s.range(0, h - 1 - t)); if (c.s.coin()) l = r = t = b = 0; bool norm = c.s.coin(80);
  auto out = VectorImage<T>::create(w - l - r, h - t - b); copyFFTWorkAreaToImage(buf, *out, r, l, t, b, norm); c.label("margins cut", l + r + t + b > 0);
  for (int y = 0; y < out->getHeight(); ++y) for (int x = 0; x < out->getWidth(); ++x) c.close(double(out->getValue(x, y)) / (norm ? 1.0 : double(w) * h), d[x + l + (y + t) * w], 0, tol / std::sqrt(double(w * h)) + eps * std::sqrt(n2), "pixel after forward and inverse transform");
  c.check(img->getData() == d, "the source image changed"); }
static void roundTripF(Case& c) { roundTrip<float>(c); }
static void roundTripD(Case& c) { roundTrip<double>(c); }

static void rounding(Case& c) { int n = int(c.s.coin(90) ? c.s.range(0, 2100) : c.s.range(2000, 200000)); c.note() << n; c.nontrivial(n > 1); int r = fftRoundDimension(n); c.check(r >= n && r >= 1, "rounded size " + std::to_string(r) + " is smaller than " + std::to_string(n));
  if (n <= 1024) { int q = r, big = 0; for (int p : {2, 3, 5, 7}) while (q % p == 0) q /= p; for (int p : {11, 13}) while (q % p == 0) { q /= p; ++big; } c.check(q == 1 && big <= 1, "rounded size " + std::to_string(r) + " of " + std::to_string(n) + " is not a product of small primes"); }
  else c.check(r % 512 == 0 && r < n + 512, "rounded size " + std::to_string(r) + " of " + std::to_string(n) + " is not the next multiple of 512"); }

// Plans made and used by several threads at once, for sizes that collide in the cache
static void threads(Case& c) { int nt = int(c.s.range(2, 8)); std::vector<std::pair<int, int>> sizes; int ns = int(c.s.range(1, 4)); for (int i = 0; i < ns; ++i) { int a = int(c.s.range(1, 120)), b = int(c.s.range(1, 120)); sizes.push_back({a, b}); sizes.push_back({b, a}); } c.nontrivial(); std::vector<std::thread> t; std::atomic<int> go{0}, bad{0};
  for (int i = 0; i < nt; ++i) t.emplace_back([&, i] { ++go; while (go < nt) ; for (int j = 0; j < int(sizes.size()); ++j) { auto s = sizes[(i + j) % sizes.size()]; auto run = [&](auto tag) { typedef decltype(tag) T; std::vector<T> buf; auto f = FFT<T>::createForwardPlan(s.first, s.second, buf); auto g = FFT<T>::createInversePlan(s.first, s.second, buf); int st = 2 * (s.first / 2 + 1); for (int y = 0; y < s.second; ++y) for (int x = 0; x < s.first; ++x) buf[x + y * st] = T((x * 7 + y * 3) % 11); FFT<T>::executeForward(f, buf); FFT<T>::executeInverse(g, buf); double n = double(s.first) * s.second; for (int y = 0; y < s.second; ++y) for (int x = 0; x < s.first; ++x) if (std::fabs(buf[x + y * st] / n - T((x * 7 + y * 3) % 11)) > 1e-3) ++bad; }; if ((i + j) % 2) run(float()); else run(double()); } });
  for (auto& x : t) x.join(); c.eq(int(bad), 0, "wrong pixels after transforms in several threads"); }

PBT_MAIN({"float", "both sides longer than one", roundTripF, 60000, 800000}, {"double", "both sides longer than one", roundTripD, 60000, 800000}, {"rounding", "size above one", rounding, 60000, 600000}, {"threads", "every case: 2-8 threads", threads, 2000, 30000, 60, true})
