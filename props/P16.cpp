// Background estimation: robust level and rms per cell, masked pixels without influence, units without influence, constants kept.
// SRCS: SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEImplementation/src/lib/Background/SE/ImageMode.cpp SEImplementation/src/lib/Background/SE/ReplaceUndefImage.cpp SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp SEImplementation/src/lib/Background/SimpleBackgroundAnalyzer.cpp
// SCALE: 3
#include "pbt.h"
#include <memory>
#include <functional>
#include <mutex>
#include <cassert>
#include <thread>
#include <tuple>
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEImplementation/Background/SE/MedianFilter.h"
#include "SEImplementation/Background/SE/ImageMode.h"
#include "SEImplementation/Background/SE/ReplaceUndefImage.h"
#include "SEImplementation/Background/SE/SEBackgroundLevelAnalyzer.h"
#include "SEImplementation/Background/SimpleBackgroundAnalyzer.h"
using namespace pbt;
using namespace SourceXtractor;
using VF = std::shared_ptr<VectorImage<SeFloat>>;
static uint64_t mix(uint64_t k, uint64_t i) { uint64_t z = k * 2654435761u + (i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; z *= 0xD6E8FEB86659FD93ull; return z ^ (z >> 29); }
static double u01(uint64_t k, uint64_t i) { return double(mix(k, i) >> 11) / 9007199254740992.0; }
static double gauss(uint64_t k, uint64_t i) { return std::sqrt(-2 * std::log(1 - u01(k, 2 * i))) * std::cos(2 * M_PI * u01(k, 2 * i + 1)); }
static VF genCells(Case& c, int& w, int& h, float undef, int density) {
  w = int(c.s.range(1, 14)); h = int(c.s.range(1, 14)); uint64_t key = c.s.draw(1 << 20); int kind = int(c.s.draw(2)); std::vector<float> d(w * h); for (int i = 0; i < w * h; ++i) d[i] = int(mix(key + 1, i) % 100) < density ? undef : kind == 0 ? float(mix(key, i) % 5) : kind == 1 ? float(u01(key, i) * 200 - 100) : float(i % w * 3 + i / w); c.note() << w << "x" << h << " key " << key << " kind " << kind; return VectorImage<SeFloat>::create(w, h, d); }
static void replaceUndef(Case& c) {
  float undef = c.s.pick({-1e30f, 0.f, 7.f, std::numeric_limits<float>::lowest()}); int w, h; VF in = genCells(c, w, h, undef, c.s.pick({0, 20, 60, 95, 100})); VF keep = VectorImage<SeFloat>::create(*in); auto out = ReplaceUndef<SeFloat>(*in, undef); c.check(keep->getData() == in->getData(), "the input was changed"); c.eq(out->getWidth(), w, "width"); c.eq(out->getHeight(), h, "height"); int undefs = 0;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double e = in->getValue(x, y); if (e == undef) { ++undefs; int best = INT32_MAX; double s = 0; int n = 0; for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) { double v = in->getValue(i, j); if (v == undef) continue; int d = (i - x) * (i - x) + (j - y) * (j - y); if (d < best) { best = d; s = v; n = 1; } else if (d == best) { s += v; ++n; } } e = n ? s / n : 0; } c.close(out->getValue(x, y), e, 1e-5, 1e-4, "cell " + std::to_string(x) + "," + std::to_string(y)); }
  c.nontrivial(undefs > 0 && undefs < w * h); c.label(undefs == w * h ? "all undefined" : undefs ? "some undefined" : "none undefined"); }
static void median(Case& c) {
  int w, h, w2, h2; VF img = genCells(c, w, h, 0, 0), var = VectorImage<SeFloat>::create(w, h); uint64_t key = c.s.draw(1 << 16); for (int i = 0; i < w * h; ++i) var->getData()[i] = float(u01(key, i) * 10); int bw = int(c.s.range(1, 9)), bh = c.s.coin() ? bw : int(c.s.range(1, 9)); float thr = c.s.coin() ? 0.f : float(c.s.real(0, 60)); c.note() << " box " << bw << "x" << bh << " threshold " << thr;
  auto out = c.s.coin() || bw != bh ? MedianFilter<SeFloat>(bw, bh)(*img, *var, thr) : MedianFilter<SeFloat>(std::array<int, 2>{{bw, bh}})(*img, *var, thr); c.eq(out.first->getWidth(), w, "width"); c.eq(out.second->getHeight(), h, "height"); int replaced = 0;
  auto med = [&](const VF& v, int x, int y) { int hx = std::min({bw / 2, x, w - 1 - x}), hy = std::min({bh / 2, y, h - 1 - y}); std::vector<float> b; for (int j = y - hy; j <= y + hy; ++j) for (int i = x - hx; i <= x + hx; ++i) b.push_back(v->getValue(i, j)); std::nth_element(b.begin(), b.begin() + b.size() / 2, b.end()); return b[b.size() / 2]; };
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { float m = med(img, x, y), v = img->getValue(x, y), d = std::fabs(m - v); if (thr > 0 && std::fabs(d - thr) < 1e-4) continue; bool rep = d >= thr; replaced += rep && m != v; std::string at = " at " + std::to_string(x) + "," + std::to_string(y); c.close(out.first->getValue(x, y), rep ? m : v, 1e-6, 0, "value" + at); c.close(out.second->getValue(x, y), rep ? med(var, x, y) : var->getValue(x, y), 1e-6, 0, "variance" + at); }
  c.nontrivial(replaced > 0); }
using WT = WeightImageConfig::WeightType;
struct Field { int w, h, cw, ch; VF img, var; std::shared_ptr<VectorImage<unsigned char>> mask; float thr = 1e6; double level, sigma; int box; };
static void flush() { TileManager::getInstance()->flush(); }
// mask and variance never hide more than a third of a cell, so that every cell is defined
static Field genField(Case& c, bool small) {
  Field f; f.cw = int(c.s.range(small ? 3 : 16, small ? 12 : 32)); f.ch = c.s.coin() ? f.cw : int(c.s.range(small ? 3 : 16, small ? 12 : 32)); f.w = f.cw * int(c.s.range(1, small ? 6 : 4)) + (c.s.coin(small ? 60 : 0) ? int(c.s.range(0, f.cw - 1)) : 0); f.h = f.ch * int(c.s.range(1, small ? 6 : 4)) + (c.s.coin(small ? 60 : 0) ? int(c.s.range(0, f.ch - 1)) : 0); f.box = int(c.s.range(1, 5)); f.level = c.s.coin(30) ? 0 : c.s.real(-1000, 1000); f.sigma = c.s.logreal(0.1, 100); uint64_t key = c.s.draw(1 << 20);
  std::vector<float> d(f.w * f.h); for (int i = 0; i < f.w * f.h; ++i) d[i] = float(f.level + f.sigma * gauss(key, i)); f.img = VectorImage<SeFloat>::create(f.w, f.h, d); c.note() << f.w << "x" << f.h << " cell " << f.cw << "x" << f.ch << " box " << f.box << " level " << f.level << " sigma " << f.sigma << " key " << key;
  if (c.s.coin()) { std::vector<unsigned char> m(f.w * f.h, 0); for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) if ((x % f.cw) % 3 == 1 && mix(key + 5, x + 1000 * y) % 3) m[x + y * f.w] = 1; f.mask = VectorImage<unsigned char>::create(f.w, f.h, m); c.note() << " masked"; }
  if (c.s.coin()) { double v0 = c.s.logreal(0.1, 10); f.thr = float(v0 * 5); std::vector<float> v(f.w * f.h, float(v0)); for (int i = 0; i < f.w * f.h; ++i) { if (!(i % f.w % f.cw % 3 == 2 && mix(key + 9, i) % 4 == 0)) continue; v[i] = mix(key + 9, i) % 8 ? f.thr : f.thr * 10; } f.var = VectorImage<SeFloat>::create(f.w, f.h, v); c.note() << " variance " << v0; }
  c.label(f.mask ? "mask" : "no mask"); c.label(f.var ? "variance map" : "no variance map"); TileManager::getInstance()->setOptions(int(c.s.range(8, 64)), int(c.s.range(8, 64)), 1); return f; }
static BackgroundModel analyse(const Field& f, VF img) { return SEBackgroundLevelAnalyzer({f.cw, f.ch}, {f.box}, WT::WEIGHT_TYPE_NONE).analyzeBackground(img, f.var, f.mask, f.thr); }
static bool hidden(const Field& f, int i) { return (f.mask && f.mask->getData()[i]) || (f.var && f.var->getData()[i] >= f.thr); }
static std::vector<float> dump(const std::shared_ptr<Image<SeFloat>>& i) { auto ch = i->getChunk(0, 0, i->getWidth(), i->getHeight()); std::vector<float> v; for (int y = 0; y < i->getHeight(); ++y) for (int x = 0; x < i->getWidth(); ++x) v.push_back(ch->getValue(x, y)); return v; }
static void sizes(Case& c, const Field& f, const BackgroundModel& m) { c.eq(m.getLevelMap()->getWidth(), f.w, "width of the level map"); c.eq(m.getLevelMap()->getHeight(), f.h, "height of the level map"); c.eq(m.getVarianceMap()->getWidth(), f.w, "width of the variance map"); c.eq(m.getVarianceMap()->getHeight(), f.h, "height of the variance map"); }
static void constantImage(Case& c) {
  Field f = genField(c, true); double v = c.s.coin(30) ? 0 : c.s.coin() ? c.s.real(-1e4, 1e4) : c.s.logreal(1e-12, 1e12); float fv = float(v); for (auto& p : f.img->getData()) p = fv; c.note() << " constant " << fv; c.nontrivial(fv != 0); auto m = analyse(f, f.img); sizes(c, f, m); for (float l : dump(m.getLevelMap())) c.close(l, fv, 1e-4, 0, "background of a constant image"); c.check(m.getMedianRms() >= 0 && m.getMedianRms() <= 1e-3 * std::fabs(fv), "rms of a constant image is " + std::to_string(m.getMedianRms())); for (float l : dump(m.getVarianceMap())) c.check(l >= 0 && l <= 1e-6 * fv * fv, "variance of a constant image"); flush(); }
static void noise(Case& c) {
  Field f = genField(c, false); int outliers = c.s.pick({0, 0, 2, 5}); double amp = c.s.logreal(20, 1e4); uint64_t key = c.s.draw(1 << 16); for (int i = 0; i < f.w * f.h; ++i) if (int(mix(key, i) % 100) < outliers) f.img->getData()[i] += float(f.sigma * amp); c.note() << " outliers " << outliers << "% of " << amp << " sigma"; c.label(outliers ? "with sources" : "noise only"); c.nontrivial(); auto m = analyse(f, f.img); sizes(c, f, m);
  double n = double(f.cw * f.ch) * 0.6, tol = f.sigma * (outliers ? 0.35 : 0.1) + 14 * f.sigma / std::sqrt(n); auto l = dump(m.getLevelMap()); double mean = 0; for (int y = 0, i = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x, ++i) { bool inner = x >= f.cw / 2 && x <= f.w - 1 - f.cw / 2 && y >= f.ch / 2 && y <= f.h - 1 - f.ch / 2; /* beyond the centres of the outer cells the spline extrapolates */ c.close(l[i], f.level, 0, tol * (inner ? 1 : 4) + 1e-5 * std::fabs(f.level), "background level"); mean += l[i]; } c.close(mean / l.size(), f.level, 0, f.sigma * (outliers ? 0.3 : 0.1) + 6 * f.sigma / std::sqrt(double(f.w * f.h) * 0.6) + 1e-5 * std::fabs(f.level), "mean background level");
  c.close(m.getMedianRms(), f.sigma, outliers ? 0.3 : 0.12 + 3 / std::sqrt(n), 0, "background rms"); auto v = dump(m.getVarianceMap()); double mv = 0; for (float x : v) { c.check(x >= 0, "negative variance"); mv += x; } mv /= v.size(); c.close(mv, f.sigma * f.sigma, outliers ? 0.8 : 0.4 + 6 / std::sqrt(n), 0, "mean background variance");
  if (f.var) { float v0 = *std::min_element(f.var->getData().begin(), f.var->getData().end()); c.close(m.getScalingFactor(), f.sigma * f.sigma / v0, outliers ? 0.8 : 0.4 + 6 / std::sqrt(n), 0, "scaling of the weights"); } else for (float x : v) c.close(x, double(m.getMedianRms()) * m.getMedianRms(), 1e-5, 0, "variance without weights is the square of the rms"); flush(); }
// What hidden pixels hold makes no difference at all; neither does the unit of the image (a power of two, so that rounding is the same)
static void relations(Case& c) {
  Field f = genField(c, true); auto a = analyse(f, f.img); auto la = dump(a.getLevelMap()), va = dump(a.getVarianceMap()); int h = 0; flush();
  { VF img = VectorImage<SeFloat>::create(*f.img); for (int i = 0; i < f.w * f.h; ++i) if (hidden(f, i)) { img->getData()[i] = c.s.pick({0.f, 1e20f, -1e20f}); ++h; } auto b = analyse(f, img); c.check(dump(b.getLevelMap()) == la, "what masked pixels hold changes the level"); c.check(dump(b.getVarianceMap()) == va, "what masked pixels hold changes the variance"); c.eq(b.getMedianRms(), a.getMedianRms(), "rms with other values under the mask"); flush(); }
  int e = int(c.s.range(-50, 50)); float k = std::ldexp(1.f, e); c.note() << " unit 2^" << e; c.nontrivial(e < -20 || e > 20 || h > 0); c.label(e < -20 ? "tiny unit" : e > 20 ? "huge unit" : "similar unit"); VF img = VectorImage<SeFloat>::create(*f.img); for (auto& p : img->getData()) p *= k; auto b = analyse(f, img); auto lb = dump(b.getLevelMap()), vb = dump(b.getVarianceMap()); double s = f.sigma;
  for (size_t i = 0; i < la.size(); ++i) { c.close(lb[i] / double(k), la[i], 1e-4, 1e-3 * s, "background level in other units"); c.close(vb[i] / double(k) / k, va[i], 1e-3, 1e-4 * s * s, "background variance in other units"); } c.close(b.getMedianRms() / k, a.getMedianRms(), 1e-3, 0, "rms in other units"); flush(); }
// A cell is undefined exactly if less than half of its pixels count; the analyser fills it from its neighbours
static void undefinedCells(Case& c) {
  Field f = genField(c, true); f.mask = nullptr; f.var = nullptr; const float bad = std::numeric_limits<float>::lowest(); int W = (f.w + f.cw - 1) / f.cw, H = (f.h + f.ch - 1) / f.ch; uint64_t key = c.s.draw(1 << 16); int all = int(c.s.draw(9)); std::vector<int> pct(W * H); for (int i = 0; i < W * H; ++i) pct[i] = all == 0 ? 100 : int(c.s.pick({0, 30, 50, 70, 100})); std::vector<int> n(W * H, 0), good(W * H, 0); std::vector<unsigned char> m(f.w * f.h, 0);
  for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) { int k = x / f.cw + W * (y / f.ch); ++n[k]; if (int(mix(key, x + 4096 * y) % 100) < pct[k]) { m[x + y * f.w] = 1; f.img->setValue(x, y, bad); } else ++good[k]; }
  ImageMode<SeFloat> mode(f.img, nullptr, f.cw, f.ch, bad); auto img = mode.getModeImage(), sig = mode.getSigmaImage(); c.eq(img->getWidth(), W, "cells in x"); c.eq(img->getHeight(), H, "cells in y"); int undef = 0; for (int i = 0; i < W * H; ++i) { bool u = 2 * good[i] < n[i]; undef += u; double v = img->getData()[i], g = sig->getData()[i]; if (u) { c.check(v == bad && g == bad, "a cell with " + std::to_string(good[i]) + " of " + std::to_string(n[i]) + " pixels is defined"); continue; } float lo = 1e30f, hi = -1e30f; for (int y = i / W * f.ch; y < std::min(f.h, (i / W + 1) * f.ch); ++y) for (int x = i % W * f.cw; x < std::min(f.w, (i % W + 1) * f.cw); ++x) if (!m[x + y * f.w]) { lo = std::min(lo, f.img->getValue(x, y)); hi = std::max(hi, f.img->getValue(x, y)); } double r = hi - lo; c.check(v >= lo - r - 1e-4 * std::fabs(lo) && v <= hi + r + 1e-4 * std::fabs(hi) && g >= 0 && g <= r * 1.01 + 1e-4 * std::fabs(lo), "mode " + std::to_string(v) + " or sigma " + std::to_string(g) + " of a cell is not within its values " + std::to_string(lo) + " to " + std::to_string(hi)); }
  c.nontrivial(undef > 0 && undef < W * H); c.label(undef == 0 ? "all defined" : undef == W * H ? "none defined" : "some defined"); f.mask = VectorImage<unsigned char>::create(f.w, f.h, m); f.thr = 1; if (c.s.coin()) { f.var = VectorImage<SeFloat>::create(f.w, f.h); } auto b = analyse(f, f.img); for (float v : dump(b.getLevelMap())) { c.check(std::isfinite(v), "background is not finite"); if (undef == W * H) c.check(v == 0, "background without any defined cell"); } c.check(std::isfinite(b.getMedianRms()) && b.getMedianRms() >= 0, "rms is not finite"); c.check(std::isfinite(b.getScalingFactor()), "scaling is not finite"); flush(); }
static void rejects(Case& c) {
  Field f = genField(c, true); int dw = int(c.s.range(-2, 2)), dh = int(c.s.range(-2, 2)); if ((!dw && !dh) || f.w + dw < 1 || f.h + dh < 1) c.discard(); bool onMask = c.s.coin(); if (onMask) f.mask = VectorImage<unsigned char>::create(f.w + dw, f.h + dh); else f.var = VectorImage<SeFloat>::create(f.w + dw, f.h + dh); c.nontrivial(); bool thrown = false; try { analyse(f, f.img); } catch (const Elements::Exception&) { thrown = true; } c.check(thrown, std::string("a ") + (onMask ? "mask" : "variance map") + " of another size was accepted"); flush(); }
static void simple(Case& c) {
  int w = int(c.s.range(1, 30)), h = int(c.s.range(1, 30)); uint64_t key = c.s.draw(1 << 20); std::vector<float> d(w * h); bool ties = c.s.coin(); for (int i = 0; i < w * h; ++i) d[i] = ties ? float(mix(key, i) % 7) : float(gauss(key, i) * 30); VF img = VectorImage<SeFloat>::create(w, h, d); c.note() << w << "x" << h << " key " << key; auto m = SimpleBackgroundAnalyzer().analyzeBackground(img, nullptr, nullptr, 0); c.check(img->getData() == d, "the image was changed"); auto s = d; std::sort(s.begin(), s.end()); double med = s[s.size() / 2], v = 0; int n = 0; for (float p : d) if (p < med) { v += (p - med) * (p - med); ++n; } if (n) v /= n; c.nontrivial(n > 0);
  for (float l : dump(m.getLevelMap())) c.close(l, med, 1e-6, 0, "level"); for (float l : dump(m.getVarianceMap())) c.close(l, v, 1e-4, 1e-9, "variance"); c.close(m.getMedianRms(), std::sqrt(v), 1e-4, 1e-9, "rms"); }
PBT_MAIN({"replace_undef", "some cells are undefined", replaceUndef, 6000, 200000}, {"median", "a cell is replaced by another value", median, 6000, 200000}, {"constant", "the constant is not zero", constantImage, 3000, 100000}, {"noise", "always", noise, 800, 40000}, {"relations", "pixels are hidden or the unit changes by more than 2^20", relations, 2000, 80000}, {"undefined_cells", "some but not all cells are defined", undefinedCells, 2000, 80000}, {"rejects", "sizes differ", rejects, 1500, 20000}, {"simple", "some pixels are below the median", simple, 3000, 100000})
