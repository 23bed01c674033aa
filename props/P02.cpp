// Convolution: DFT and direct strategies equal the textbook sum, for odd kernels, any padding rule and any reuse of a context.
// SRCS: SEFramework/src/lib/FFT/FFT.cpp
#include "pbt.h"
#include <memory>
#include <functional>
#include <mutex>
#include <cassert>
#include <thread>
#include <tuple>
#include "SEFramework/Convolution/Convolution.h"
#include "SEFramework/Image/VectorImage.h"
using namespace pbt;
using namespace SourceXtractor;

template <typename T> using VI = std::shared_ptr<VectorImage<T>>;
// An image from few choices: dense noise, sparse spikes, gradient or constant
template <typename T> static VI<T> genImage(Case& c, int w, int h, const char* name) {
  std::vector<T> d(w * h); int64_t key = c.s.range(0, 1 << 16); int kind = int(c.s.draw(4));
  for (int i = 0; i < w * h; ++i) { uint64_t z = uint64_t(key) * 2654435761u + uint64_t(i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32;
    switch (kind) { case 0: d[i] = i == int(key % (w * h)) ? T(1) : T(0); break; case 1: d[i] = T(int64_t(z % 19) - 9); break; case 2: d[i] = z % 7 == 0 ? T(z / 7 % 100) : T(0); break; case 3: d[i] = T(i % w) - 2 * T(i / w) + T(key % 5); break; default: d[i] = T(double(z % 100000) / 1000.0 - 30); } }
  c.note() << name << w << "x" << h << " kind" << kind << " key" << key << " "; return VectorImage<T>::create(w, h, d); }

enum Pad { CONST, REPL, REFL, REFL101, WRAP };
static int coord(Pad p, int n, int v) {
  if (v >= 0 && v < n) return v;
  switch (p) { case CONST: return -1; case REPL: return v < 0 ? 0 : n - 1; case WRAP: return ((v % n) + n) % n;
  case REFL: while (v < 0 || v >= n) v = v < 0 ? -1 - v : 2 * n - 1 - v; return v;
  default: if (n == 1) return 0; while (v < 0 || v >= n) v = v < 0 ? -v : 2 * n - 2 - v; return v; } }
// the textbook definition: out(x,y) = sum over the kernel of k(i,j) * img(x - (i - cx), y - (j - cy))
template <typename T> static std::vector<double> reference(const VectorImage<T>& img, const VectorImage<T>& k, Pad p, double def, double* tol) {
  int w = img.getWidth(), h = img.getHeight(), kw = k.getWidth(), kh = k.getHeight(), cx = kw / 2, cy = kh / 2; std::vector<double> out(w * h);
  double n2k = 0, n2i = 0;
  for (int j = 0; j < kh; ++j) for (int i = 0; i < kw; ++i) n2k += double(k.getValue(i, j)) * k.getValue(i, j);
  for (auto v : img.getData()) n2i += double(v) * v;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = 0;
    for (int j = 0; j < kh; ++j) for (int i = 0; i < kw; ++i) { int sx = coord(p, w, x - (i - cx)), sy = coord(p, h, y - (j - cy)); a += double(k.getValue(i, j)) * (sx < 0 || sy < 0 ? def : double(img.getValue(sx, sy))); }
    out[x + y * w] = a; }
  double pw = w + kw + 64, ph = h + kh + 64; // energy of the padded image, bounded by the densest tiling
  *tol = 1e-5 * std::sqrt(n2k) * (std::sqrt(n2i * (pw * ph) / (double(w) * h)) * 0.25 + std::fabs(def) * std::sqrt(pw * ph) * 0.25) + 1e-6; return out; }
template <typename T> static void compare(Case& c, const VectorImage<T>& got, const std::vector<double>& want, double tol, const char* what) {
  int w = got.getWidth(); for (size_t i = 0; i < want.size(); ++i) if (!(std::fabs(double(got.getData()[i]) - want[i]) <= tol)) { std::ostringstream o; o << what << " at (" << i % w << "," << i / w << "): got " << double(got.getData()[i]) << ", expected " << want[i] << " (tolerance " << tol << ")"; c.fail(o.str()); } }
static int odd(Case& c, int max) { return 2 * int(c.s.skewed(0, max)) + 1; }
static int dim(Case& c) { switch (c.s.draw(3)) { case 0: return int(c.s.range(1, 8)); case 1: return int(c.s.range(1, 70)); default: return int(c.s.range(1, 30)); } }

template <typename T> static void strategies(Case& c, bool large = false) {
  int kw = odd(c, 6), kh = c.s.coin(70) ? kw : odd(c, 6); auto k = genImage<T>(c, kw, kh, "kernel"); auto kd = k->getData();
  int w = dim(c), h = dim(c); if (large) { bool both = c.s.coin(30), wide = c.s.coin(); int a = both ? int(c.s.range(70, 300)) : c.s.coin(30) ? 1024 * int(c.s.range(1, 2)) + int(c.s.range(-20, 20)) : int(c.s.range(300, 2600)), b = both ? int(c.s.range(70, 300)) : int(c.s.range(1, 3)); w = wide ? a : b; h = wide ? b : a; }
  auto img = genImage<T>(c, w, h, "image"); Pad p = Pad(c.s.draw(4)); double tol; T def = T(c.s.range(-3, 3)); bool dft = c.s.coin();
  c.note() << (dft ? "DFT" : "direct") << " pad" << p; c.nontrivial(kw * kh > 1 && w * h > 1); c.label(std::string(dft ? "dft" : "direct") + " pad" + std::to_string(p)); c.label("kernel wider than image", kw > w || kh > h); c.label("non-square kernel", kw != kh);
  auto want = reference(*img, *k, p, double(def), &tol); std::shared_ptr<WriteableImage<T>> wi = img;
  auto viaContext = [&](auto& s, auto... a) { auto ctx = s.prepare(img); s.convolve(wi, ctx, a...); c.check(s.getWidth() == size_t(kw) && s.getHeight() == size_t(kh), "kernel size"); };
  if (dft) switch (p) {
    case CONST: { DFTConvolution<T, PaddedImage<T>> s(k); viaContext(s, def); break; }
    case REPL: { DFTConvolution<T, PaddedImage<T, ReplicateCoordinates>> s(k); viaContext(s); break; }
    case REFL: { DFTConvolution<T, PaddedImage<T, ReflectCoordinates>> s(k); viaContext(s); break; }
    case WRAP: { DFTConvolution<T, PaddedImage<T, WrapCoordinates>> s(k); viaContext(s); break; }
    default: { DFTConvolution<T> s(k); if (c.s.coin()) s.convolve(wi); else viaContext(s); } }
  else switch (p) {
    case CONST: { DirectConvolution<T, PaddedImage<T>> s(k); s.convolve(wi, def); break; }
    case REPL: { DirectConvolution<T, PaddedImage<T, ReplicateCoordinates>> s(k); s.convolve(wi); break; }
    case REFL: { DirectConvolution<T, PaddedImage<T, ReflectCoordinates>> s(k); s.convolve(wi); break; }
    case WRAP: { DirectConvolution<T, PaddedImage<T, WrapCoordinates>> s(k); s.convolve(wi); break; }
    default: { DirectConvolution<T> s(k); s.convolve(wi); c.check(s.getWidth() == size_t(kw) && s.getHeight() == size_t(kh), "kernel size"); } }
  compare(c, *img, want, tol, dft ? "DFT convolution" : "direct convolution"); c.check(k->getData() == kd, "the kernel changed"); }
static void strategiesFloat(Case& c) { strategies<float>(c); }
static void strategiesDouble(Case& c) { strategies<double>(c); }
static void strategiesLarge(Case& c) { strategies<float>(c, true); }

// One prepared context serves any number of images, also smaller ones, in any order
static void contextReuse(Case& c) {
  typedef float T; int kw = odd(c, 5), kh = c.s.coin(70) ? kw : odd(c, 5); auto k = genImage<T>(c, kw, kh, "kernel"); DFTConvolution<T> s(k);
  int w = dim(c), h = dim(c); auto model = VectorImage<T>::create(w, h); std::vector<decltype(s.prepare(model))> ctx; int nc = int(c.s.range(1, 3)); for (int i = 0; i < nc; ++i) ctx.push_back(s.prepare(model));
  int n = int(c.s.range(1, 6)); c.nontrivial(n >= 2 && kw * kh > 1);
  for (int i = 0; i < n; ++i) { bool same = c.s.coin(60); int iw = same ? w : int(c.s.range(1, w)), ih = same ? h : int(c.s.range(1, h)); c.label("image smaller than the context", !same);
    auto img = genImage<T>(c, iw, ih, "image"); double tol; auto want = reference(*img, *k, REFL101, 0, &tol); std::shared_ptr<WriteableImage<T>> wi = img; s.convolve(wi, ctx[c.s.draw(nc - 1)]); compare(c, *img, want, tol * 2, "convolution with a reused context"); } }

// Linear, and commuting with a shift of an image that is surrounded by zeros
static void metamorphic(Case& c) {
  typedef float T; int kw = odd(c, 4); auto k = genImage<T>(c, kw, kw, "kernel"); DFTConvolution<T, PaddedImage<T>> s(k); int w = int(c.s.range(1, 25)), h = int(c.s.range(1, 25)); auto a = genImage<T>(c, w, h, "image"); int dx = int(c.s.range(0, 9)), dy = int(c.s.range(0, 9)), m = kw;
  auto embed = [&](int ox, int oy) { auto e = VectorImage<T>::create(w + 2 * m + 10, h + 2 * m + 10); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) e->setValue(x + ox + m, y + oy + m, a->getValue(x, y)); return e; };
  auto e0 = embed(0, 0), e1 = embed(dx, dy); double tol, sum = 0, ks = 0, is = 0; auto r = reference(*e0, *k, CONST, 0, &tol); std::shared_ptr<WriteableImage<T>> w0 = e0, w1 = e1; auto c0 = s.prepare(e0); s.convolve(w0, c0, T(0)); s.convolve(w1, c0, T(0)); c.nontrivial(w * h > 1 && kw > 1 && dx + dy > 0);
  for (int y = 0; y < e0->getHeight() - dy; ++y) for (int x = 0; x < e0->getWidth() - dx; ++x) c.close(e1->getValue(x + dx, y + dy), e0->getValue(x, y), 0, 2 * tol, "convolution of a shifted image");
  for (auto v : e0->getData()) sum += v; for (auto v : k->getData()) ks += v; for (auto v : a->getData()) is += v;
  c.close(sum, ks * is, 1e-4, tol * std::sqrt(double(e0->getData().size())) * 4, "sum of the convolved image"); }

// Convolutions by several threads, which share the plan cache, give what one thread gives
static void threads(Case& c) {
  typedef float T; int nt = int(c.s.range(2, 6)); std::vector<VI<T>> img, ker; std::vector<std::vector<double>> want; std::vector<double> tol(nt * 3);
  for (int i = 0; i < nt * 3; ++i) { int kw = odd(c, 3); ker.push_back(genImage<T>(c, kw, kw, "kernel")); img.push_back(genImage<T>(c, int(c.s.range(1, 60)), int(c.s.range(1, 60)), "image")); want.push_back(reference(*img[i], *ker[i], REFL101, 0, &tol[i])); }
  c.nontrivial(); std::vector<std::thread> t; std::atomic<int> go{0};
  for (int i = 0; i < nt; ++i) t.emplace_back([&, i] { ++go; while (go < nt) ; for (int j = 0; j < 3; ++j) { DFTConvolution<T> s(ker[i * 3 + j]); std::shared_ptr<WriteableImage<T>> w = img[i * 3 + j]; s.convolve(w); } });
  for (auto& x : t) x.join();
  for (int i = 0; i < nt * 3; ++i) compare(c, *img[i], want[i], tol[i], "convolution in a thread"); }

PBT_MAIN({"strategies_float", "kernel and image of more than one pixel", strategiesFloat, 30000, 500000}, {"strategies_double", "kernel and image of more than one pixel", strategiesDouble, 12000, 200000},
         {"context_reuse", "at least two images through prepared contexts, kernel of more than one pixel", contextReuse, 10000, 150000}, {"shift_and_sum", "a shift by at least one pixel, kernel and image of more than one pixel", metamorphic, 10000, 150000},
         {"large", "kernel of more than one pixel", strategiesLarge, 600, 8000},
         {"threads", "every case: 2-6 threads", threads, 800, 10000, 60, true})
