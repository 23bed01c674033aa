// Filtering the detection image: masked, renormalised correlation with the kernel; replacement of bad pixels; the same whatever the tiling.
// SRCS: SEFramework/src/lib/FFT/FFT.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEImplementation/src/lib/Segmentation/BackgroundConvolution.cpp SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp SEImplementation/src/lib/Segmentation/BgDFTConvolutionImageSource.cpp
// SCALE: 3
#include "pbt.h"
#include <memory>
#include <functional>
#include <mutex>
#include <cassert>
#include <thread>
#include <tuple>
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/InterpolatedImageSource.h"
#include "SEImplementation/Segmentation/BackgroundConvolution.h"
#include "SEImplementation/Segmentation/BgConvolutionImageSource.h"
#include "SEImplementation/Segmentation/BgDFTConvolutionImageSource.h"
using namespace pbt;
using namespace SourceXtractor;
using VF = std::shared_ptr<VectorImage<SeFloat>>;
struct Scene { int w, h; VF img, var; float thr; int masked = 0; bool valid(int x, int y) const { return var->getValue(x, y) < thr; } };
static uint64_t mix(uint64_t k, uint64_t i) { uint64_t z = k * 2654435761u + (i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; z *= 0xD6E8FEB86659FD93ull; return z ^ (z >> 29); }
static Scene genScene(Case& c, int maxn) {
  Scene s; s.w = int(c.s.range(1, maxn)); s.h = int(c.s.range(1, maxn)); s.thr = c.s.coin(50) ? 1.f : float(c.s.logreal(1e-3, 1e3)); uint64_t key = c.s.draw(1 << 20); int kind = int(c.s.draw(3)), density = c.s.pick({0, 10, 40, 90, 100}), garbage = int(c.s.draw(2)); bool blocks = c.s.coin(30);
  std::vector<float> d(s.w * s.h), v(s.w * s.h); int bx = int(c.s.range(1, 9)), by = int(c.s.range(1, 9));
  for (int i = 0; i < s.w * s.h; ++i) { uint64_t z = mix(key, i), m = blocks ? mix(key + 7, (i % s.w) / bx + 1000 * (i / s.w / by)) : mix(key + 3, i); bool bad = int(m % 100) < density;
    d[i] = kind == 0 ? 1.f : kind == 1 ? float(int(z % 19) - 9) : kind == 2 ? (z % 11 ? 0.f : float(z % 100)) : float(double(z % 200001) / 1000 - 100);
    if (bad) { ++s.masked; d[i] = garbage == 0 ? d[i] : garbage == 1 ? 1e30f : std::numeric_limits<float>::quiet_NaN(); v[i] = m % 3 == 0 ? s.thr : m % 3 == 1 ? s.thr * 1.5f : 1e30f; } else v[i] = m % 4 == 0 ? 0.f : m % 4 == 1 ? std::nextafter(s.thr, 0.f) : s.thr * float(m % 1000) / 1001.f; }
  s.img = VectorImage<SeFloat>::create(s.w, s.h, d); s.var = VectorImage<SeFloat>::create(s.w, s.h, v); c.note() << s.w << "x" << s.h << " key " << key << " kind " << kind << " masked " << s.masked << "/" << s.w * s.h << " "; c.label(s.masked == 0 ? "nothing masked" : s.masked == s.w * s.h ? "all masked" : "partly masked"); return s; }
static VF genKernel(Case& c, int maxw, int minw = 1) {
  int w = 2 * int(c.s.range(minw / 2, maxw / 2)) + 1, h = c.s.coin() ? w : 2 * int(c.s.range(0, maxw / 2)) + 1; uint64_t key = c.s.draw(1 << 20); int kind = int(c.s.draw(2)); std::vector<float> d(w * h); double sc = c.s.pick({1., 1., 0.01, 50.});
  for (int i = 0; i < w * h; ++i) { double dx = i % w - w / 2, dy = i / w - h / 2; uint64_t z = mix(key, i); d[i] = float(sc * (kind == 0 ? 1. : kind == 1 ? double(z % 1000) / 1000 : std::exp(-(dx * dx + 0.5 * dy * dy + 0.3 * dx * dy) / 6))); }
  float& mid = d[w / 2 + h / 2 * w]; mid = std::max(mid, float(0.3 * sc)); c.note() << "kernel " << w << "x" << h << " kind " << kind << " "; return VectorImage<SeFloat>::create(w, h, d); }
// the definition; tol: what float arithmetic may cost
static double want(const Scene& s, const VectorImage<SeFloat>& k, int x, int y, double* tol, bool dft) {
  *tol = 1e-7; if (!s.valid(x, y)) return 0; double t = 0, n = 0, a = 0; int cx = k.getWidth() / 2, cy = k.getHeight() / 2;
  for (int j = 0; j < k.getHeight(); ++j) for (int i = 0; i < k.getWidth(); ++i) { int sx = x - (i - cx), sy = y - (j - cy); if (sx < 0 || sy < 0 || sx >= s.w || sy >= s.h || !s.valid(sx, sy)) continue; double v = s.img->getValue(sx, sy), q = k.getValue(i, j); t += v * q; n += q; a += std::fabs(v * q); }
  *tol = 1e-5 * a / n + 1e-7; if (dft) { double e = 0, q2 = 0; for (int i = 0; i < s.w * s.h; ++i) if (s.valid(i % s.w, i / s.w)) e += std::pow(double(s.img->getValue(i % s.w, i / s.w)), 2) + std::pow(t / n, 2); for (float q : k.getData()) q2 += double(q) * q; *tol += 1e-5 * std::sqrt(e * q2) / n; } return t / n; }
static void region(Case& c, const Scene& s, const VectorImage<SeFloat>& k, bool dft, const std::function<double(int, int)>& got, int x0, int y0, int w, int h, const char* what) {
  for (int y = y0; y < y0 + h; ++y) for (int x = x0; x < x0 + w; ++x) { double tol, e = want(s, k, x, y, &tol, dft), g = got(x, y); if (!s.valid(x, y)) c.check(g == 0, std::string(what) + ": masked pixel " + std::to_string(x) + "," + std::to_string(y) + " is not zero but " + std::to_string(g)); else c.close(g, e, 0, tol, std::string(what) + ": pixel " + std::to_string(x) + "," + std::to_string(y)); } }
static void source(Case& c, bool dft) {
  Scene s = genScene(c, 26); VF k = genKernel(c, dft ? 11 : 7); std::shared_ptr<ImageSource> src; if (dft) src = std::make_shared<BgDFTConvolutionImageSource>(s.img, s.var, s.thr, k); else src = std::make_shared<BgConvolutionImageSource>(s.img, s.var, s.thr, k);
  c.nontrivial(s.masked > 0 && s.masked < s.w * s.h && k->getWidth() > 1); bool whole = c.s.coin(25); int x0 = whole ? 0 : int(c.s.range(0, s.w - 1)), y0 = whole ? 0 : int(c.s.range(0, s.h - 1)), w = whole ? s.w : int(c.s.range(1, s.w - x0)), h = whole ? s.h : int(c.s.range(1, s.h - y0)); c.note() << "tile " << x0 << "," << y0 << " " << w << "x" << h; c.label(whole ? "whole image" : "one tile");
  c.eq(src->getWidth(), s.w, "width"); c.eq(src->getHeight(), s.h, "height"); auto t = src->getImageTile(x0, y0, w, h); c.eq(t->getPosX(), x0, "tile x"); c.eq(t->getPosY(), y0, "tile y"); c.eq(t->getWidth(), w, "tile width"); c.eq(t->getHeight(), h, "tile height");
  region(c, s, *k, dft, [&](int x, int y) { return t->getValue<float>(x, y); }, x0, y0, w, h, "tile"); }
static void direct(Case& c) { source(c, false); }
static void dft(Case& c) { source(c, true); }
// The filter as the detection frame uses it: kernel size chooses the algorithm, pixels come in tiles of any size under any memory limit
static void filter(Case& c) {
  Scene s = genScene(c, 40); VF k = genKernel(c, c.s.coin(60) ? 9 : 5); bool norm = c.s.coin(); int tw = int(c.s.range(1, 48)), th = int(c.s.range(1, 48)); if (!c.s.coin(20)) { tw = std::max(tw, 5); th = std::max(th, 5); } int mem = c.s.coin(80) ? 1 : 0; c.note() << "tiles " << tw << "x" << th << " memory " << mem; TileManager::getInstance()->setOptions(tw, th, mem);
  BackgroundConvolution f(k, norm); VF kept = VectorImage<SeFloat>::create(*k); auto out = f.processImage(s.img, s.var, s.thr); c.label(k->getWidth() > 5 ? "large kernel" : "small kernel"); c.nontrivial(s.masked > 0 && s.masked < s.w * s.h && (tw < s.w || th < s.h)); c.eq(out->getWidth(), s.w, "width"); c.eq(out->getHeight(), s.h, "height");
  c.check(kept->getData() == k->getData(), "the caller's kernel was changed");
  for (int n = 0; n < 4; ++n) { int x0 = n == 3 ? 0 : int(c.s.range(0, s.w - 1)), y0 = n == 3 ? 0 : int(c.s.range(0, s.h - 1)), w = n == 3 ? s.w : int(c.s.range(1, s.w - x0)), h = n == 3 ? s.h : int(c.s.range(1, s.h - y0)); auto ch = out->getChunk(x0, y0, w, h); c.eq(ch->getWidth(), w, "chunk width"); c.eq(ch->getHeight(), h, "chunk height"); region(c, s, *k, true, [&](int x, int y) { return ch->getValue(x - x0, y - y0); }, x0, y0, w, h, "filtered image"); }
  out.reset(); TileManager::getInstance()->flush(); }
static void interpolated(Case& c) {
  Scene s = genScene(c, 24); int gap = int(c.s.range(0, 8)); auto src = std::make_shared<InterpolatedImageSource<SeFloat>>(s.img, s.var, s.thr, gap); auto tm = std::make_shared<TileManager>(); int tw = int(c.s.range(1, 12)), th = int(c.s.range(1, 12)); tm->setOptions(tw, th, 1); auto img = BufferedImage<SeFloat>::create(src, tm); c.note() << "gap " << gap << " tiles " << tw << "x" << th; int replaced = 0, hopeless = 0; auto ch = img->getChunk(0, 0, s.w, s.h);
  for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { double e = s.img->getValue(x, y); if (!s.valid(x, y)) { bool done = false; for (int i = 1; i <= gap && !done; ++i) { if (x >= i && s.valid(x - i, y)) { e = s.img->getValue(x - i, y); done = true; } else if (y >= i && s.valid(x, y - i)) { e = s.img->getValue(x, y - i); done = true; } } done ? ++replaced : ++hopeless; } c.close(ch->getValue(x, y), e, 0, 0, "pixel " + std::to_string(x) + "," + std::to_string(y)); }
  c.label("some replaced", replaced > 0); c.label("some beyond the gap", hopeless > 0); c.nontrivial(replaced > 0); }
PBT_MAIN({"direct", "part of the image is masked and the kernel is wider than one pixel", direct, 6000, 300000}, {"dft", "part of the image is masked and the kernel is wider than one pixel", dft, 4000, 150000}, {"filter", "part of the image is masked and the image needs several tiles", filter, 1600, 60000}, {"interpolated", "at least one bad pixel is replaced", interpolated, 4000, 200000})
