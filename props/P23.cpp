// Every layer of a frame is what the present settings define, whatever the order in which they were set.
// SRCS: SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/TileManager.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/BufferedImage.cpp
// LIBS: -lpthread
#include "pbt.h"
#include <cassert>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
using namespace pbt;
using namespace SourceXtractor;
using Img = std::vector<double>;
static uint64_t mix(uint64_t k, uint64_t i) { uint64_t z = k * 2654435761u + (i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; return z ^ (z >> 29); }
static int W, H;
static std::shared_ptr<VectorImage<SeFloat>> image(const Img& v) { auto i = VectorImage<SeFloat>::create(W, H); for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) i->setValue(x, y, float(v[size_t(y) * W + x])); return i; }

// filters which use everything they are given: image, variance and threshold
static Img filtered(int kind, const Img& im, const Img& var, double thr) {
  Img r(im.size()); for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { auto at = [&](const Img& i, int u, int v) { return i[size_t(std::min(std::max(v, 0), H - 1)) * W + std::min(std::max(u, 0), W - 1)]; };
    double q = kind == 1 ? at(im, x, y) * 2 : kind == 2 ? (at(im, x - 1, y) + 2 * at(im, x, y) + at(im, x, y + 1)) / 4 : kind == 3 ? (at(var, x, y) < thr ? at(im, x, y) : -1) : at(im, x, y) - 2; r[size_t(y) * W + x] = q; } return r; }
struct Filter : DetectionImageFrame::ImageFilter { int kind; explicit Filter(int k) : kind(k) {}
  std::shared_ptr<Image<SeFloat>> processImage(std::shared_ptr<Image<SeFloat>> i, std::shared_ptr<Image<SeFloat>> v, SeFloat t) const override { auto get = [](std::shared_ptr<Image<SeFloat>> p) { auto s = VectorImage<SeFloat>::create(*p); Img r; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) r.push_back(s->getValue(x, y)); return r; }; return image(filtered(kind, get(i), get(v), t)); } };

static void history(Case& c) {
  W = int(c.s.skewed(1, 24)); H = int(c.s.skewed(1, 24)); int tw = c.s.coin() ? 256 : int(c.s.range(1, 10)), th = c.s.coin() ? 256 : int(c.s.range(1, 10)); TileManager::getInstance()->setOptions(tw, th, 100); size_t n = size_t(W) * H; c.note() << W << "x" << H << " tiles " << tw << "x" << th;
  auto random = [&](double scale, bool positive) { uint64_t k = c.s.draw(1 << 20); Img v(n); for (size_t i = 0; i < n; ++i) v[i] = float(scale * (double(mix(k, i) % 2001) / 1000 - (positive ? 0 : 1))); return v; };
  auto variance = [&] { Img v = random(c.s.pick({1., 3.}), true); uint64_t k = c.s.draw(1 << 20); int pct = c.s.pick({0, 10, 40, 90}), run = int(c.s.range(1, 5)); for (size_t i = 0; i < n; ++i) { if (int(mix(k, i / run) % 100) < pct) v[i] = mix(k + 5, i) % 3 == 0 ? 1e30f : float(mix(k + 9, i) % 3 == 0 ? 2. : 1e7); } return v; };
  Img img = random(100, false), var = variance(), bg(n, 0.); double vthr = c.s.pick({2., 10., 1e6, double(std::numeric_limits<float>::max())}), thr = 0, rms = 0; int gap = int(c.s.skewed(0, 8)), filter = 0; float gain = float(c.s.range(0, 9)), sat = float(c.s.range(0, 1000)); std::string label; c.note() << " variance threshold " << vthr << " gap " << gap << ":";
  std::unique_ptr<DetectionImageFrame> f; bool simple = c.s.coin(15); if (simple) { gain = sat = 0; gap = 0; vthr = 1e6; bool noVar = c.s.coin(); if (noVar) std::fill(var.begin(), var.end(), double(.0001f)); f.reset(new DetectionImageFrame(image(img), nullptr, noVar ? nullptr : image(var))); c.label("simple constructor"); } else f.reset(new DetectionImageFrame(image(img), image(var), float(vthr), nullptr, gain, sat, gap));
  // a bad pixel takes the nearest good value to the left, else below, no further than the gap
  auto interpolate = [&](const Img& im, bool* used) { Img r = im; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { auto good = [&](int u, int v) { return u >= 0 && v >= 0 && var[size_t(v) * W + u] < float(vthr); }; if (good(x, y)) continue; for (int d = 1; d <= gap; ++d) { if (good(x - d, y)) { r[size_t(y) * W + x] = im[size_t(y) * W + x - d]; *used = true; break; } if (good(x, y - d)) { r[size_t(y) * W + x] = im[size_t(y - d) * W + x]; *used = true; break; } } } return r; };
  int changes = 0, reads = 0; bool interpolated = false; int ops = int(c.s.skewed(1, 25)); for (int o = 0; o < ops; ++o) { int op = int(c.s.draw(9));
    if (op == 0) { var = variance(); f->setVarianceMap(image(var)); c.note() << " variance map;"; ++changes; }
    else if (op == 1) { double t = c.s.pick({0.5, 2., 10., 1e6, double(std::numeric_limits<float>::max())}); f->setVarianceThreshold(float(t)); if (float(vthr) < std::numeric_limits<float>::max()) vthr = t; c.note() << " variance threshold " << t << ";"; ++changes; }
    else if (op == 2) { thr = c.s.pick({0., 1., 2.5}); f->setDetectionThreshold(float(thr)); c.note() << " threshold " << thr << ";"; ++changes; }
    else if (op == 3) { double b = double(c.s.range(-20, 20)); std::fill(bg.begin(), bg.end(), b); rms = 0; f->setBackgroundLevel(float(b)); c.note() << " background " << b << ";"; ++changes; }
    else if (op == 4) { bg = random(10, false); rms = double(c.s.range(0, 9)); f->setBackgroundLevel(image(bg), float(rms)); c.note() << " background map;"; ++changes; }
    else if (op == 5) { filter = int(c.s.range(0, 4)); f->setFilter(filter ? std::make_shared<Filter>(filter) : nullptr); c.note() << " filter " << filter << ";"; ++changes; }
    else if (op == 6) { label = "l" + std::to_string(c.s.draw(9)); f->setLabel(label); f->setHduIndex(o); c.eq(f->getHduIndex(), size_t(o), "HDU"); }
    else { auto layer = FrameImageLayer(c.s.draw(9)); ++reads; c.note() << " read " << layer << ";"; bool used = false; Img inter = interpolate(img, &used), ivar = interpolate(var, &used), sub(n), want; interpolated = interpolated || used; for (size_t i = 0; i < n; ++i) sub[i] = float(float(inter[i]) - float(bg[i])); Img fil = filter ? filtered(filter, sub, ivar, float(vthr)) : sub, fvar = ivar; if (filter) { fvar = filtered(filter, ivar, ivar, float(vthr)); for (auto& v : fvar) v = std::max(v, 0.); }
      if (layer == LayerOriginalImage) want = img; else if (layer == LayerInterpolatedImage) want = inter; else if (layer == LayerSubtractedImage) want = sub; else if (layer == LayerFilteredImage) want = fil; else if (layer == LayerThresholdedImage) { want = fil; for (size_t i = 0; i < n; ++i) want[i] -= std::sqrt(fvar[i]) * thr; } else if (layer == LayerSignalToNoiseMap) { want = fil; for (size_t i = 0; i < n; ++i) want[i] /= std::sqrt(fvar[i]); } else if (layer == LayerOriginalVarianceMap) want = var; else if (layer == LayerUnfilteredVarianceMap) want = ivar; else if (layer == LayerVarianceMap) want = fvar; else { if (filter || (gap > 0 && used)) continue; want = var; for (size_t i = 0; i < n; ++i) want[i] = std::sqrt(want[i]) * thr; }
      auto got = f->getImage(layer); c.eq(got->getWidth(), W, "width"); c.eq(got->getHeight(), H, "height"); int x0 = 0, y0 = 0, w = W, h = H; if (c.s.coin()) { x0 = int(c.s.range(0, W - 1)); y0 = int(c.s.range(0, H - 1)); w = int(c.s.range(1, W - x0)); h = int(c.s.range(1, H - y0)); } auto chunk = got->getChunk(x0, y0, w, h); c.label("layer " + std::to_string(int(layer)));
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double e = want[size_t(y + y0) * W + x + x0]; if (std::isnan(e)) continue; c.close(chunk->getValue(x, y), e, 1e-5, 2e-4, "layer " + std::to_string(int(layer)) + " at (" + std::to_string(x + x0) + "," + std::to_string(y + y0) + ")"); }
      c.eq(f->getVarianceThreshold(), float(vthr), "variance threshold"); c.eq(f->getBackgroundMedianRms(), float(rms), "background rms"); c.eq(f->getGain(), gain, "gain"); c.eq(f->getSaturation(), sat, "saturation"); c.eq(f->getLabel(), label, "label"); auto b = VectorImage<SeFloat>::create(*f->getBackgroundLevelMap()); for (int y = 0; y < H; y += 3) for (int x = 0; x < W; x += 2) c.eq(double(b->getValue(x, y)), double(float(bg[size_t(y) * W + x])), "background level"); } }
  c.label("interpolated", interpolated); c.nontrivial(changes > 1 && reads > 1); }
PBT_MAIN({"history", "settings changed twice and layers read twice", history, 200000, 2000000})
