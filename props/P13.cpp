// Rasterised extended models: each pixel is the model's value times the pixel area where smooth, the whole carries the model's flux, geometry follows position, scale, rotation, jacobian and pixel scale.
// SRCS: ModelFitting/src/lib/Models/RotatedModelComponent.cpp ModelFitting/src/lib/Models/ScaledModelComponent.cpp ModelFitting/src/lib/Models/TransformModelComponent.cpp ModelFitting/src/lib/Models/SersicProfile.cpp ModelFitting/src/lib/Models/PositionedModel.cpp ModelFitting/src/lib/Models/AutoSharp.cpp ModelFitting/src/lib/Models/OldSharp.cpp ModelFitting/src/lib/Models/OnlySmooth.cpp ModelFitting/src/lib/Parameters/BasicParameter.cpp SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
// SCALE: 3
#include "pbt.h"
#include <memory>
#include <numeric>
#include "ElementsKernel/Exception.h"
#include "SEImplementation/Image/ImageInterfaceTraits.h"
#include "ModelFitting/Models/ExtendedModel.h"
#include "ModelFitting/Models/TransformedModel.h"
#include "ModelFitting/Models/CompactSersicModel.h"
#include "ModelFitting/Models/CompactExponentialModel.h"
#include "ModelFitting/Models/CircularlySymmetricModelComponent.h"
#include "ModelFitting/Models/AutoSharp.h"
#include "ModelFitting/Models/OldSharp.h"
#include "ModelFitting/Models/OnlySmooth.h"
#include "ModelFitting/Parameters/ManualParameter.h"
using namespace pbt;
using namespace ModelFitting;
using Img = SourceXtractor::ImageInterfaceTypePtr;
using Par = std::shared_ptr<ManualParameter>;
static Par par(double v) { return std::make_shared<ManualParameter>(v); }
using T4 = std::tuple<double, double, double, double>;

struct Comp { double i0, n, k; };
static double prof(const Comp& p, double r) { return p.i0 * std::exp(-p.k * std::pow(r, 1 / p.n)); }
static T4 genT(Case& c) { double t[4]; if (c.s.coin(25)) return T4{1, 0, 0, 1}; for (int i = 0; i < 4; ++i) t[i] = c.s.real(-1.5, 1.5); if (std::fabs(t[0] * t[3] - t[1] * t[2]) < 0.3) { t[0] = 1; t[3] = 1.25; t[1] /= 4; t[2] /= 4; } return T4{t[0], t[1], t[2], t[3]}; }
static std::unique_ptr<SharpRegionManager> manager(int kind) { if (kind == 0) return std::unique_ptr<SharpRegionManager>(new OnlySmooth); if (kind == 1) return std::unique_ptr<SharpRegionManager>(new OldSharp); return std::unique_ptr<SharpRegionManager>(new AutoSharp); }

static void extended(Case& c) {
  bool resolved = c.s.coin(40); int nc = resolved ? 1 : int(c.s.range(1, 3)); std::vector<Comp> comps; std::vector<std::unique_ptr<ModelComponent>> list; int kind = resolved ? int(c.s.range(1, 2)) : int(c.s.draw(2)); double ps = c.s.logreal(0.3, 2);
  for (int i = 0; i < nc; ++i) { Comp p{c.s.logreal(0.1, 100), resolved ? c.s.real(0.5, 1.2) : c.s.real(0.5, 2), c.s.logreal(0.3, resolved ? 0.8 : 2) / (resolved ? ps : 1)}; comps.push_back(p); list.emplace_back(new SersicModelComponent(manager(kind), par(p.i0), par(p.n), par(p.k))); c.note() << "sersic " << p.i0 << "," << p.n << "," << p.k << " "; }
  double xs = c.s.logreal(resolved ? 0.8 : 0.5, 2), ys = c.s.logreal(resolved ? 0.8 : 0.5, 2), rot = c.s.real(-4, 4), cx = c.s.real(-9, 9), cy = c.s.real(-9, 9); bool tr = c.s.coin(); T4 t = tr ? genT(c) : T4{1, 0, 0, 1};
  size_t w = size_t(2 * c.s.range(0, 14) + 1), h = size_t(2 * c.s.range(0, 14) + 1); if (resolved) { w = 2 * (w / 2) + 9; h = 2 * (h / 2) + 9; } else { if (c.s.coin(6)) w += 1; if (c.s.coin(6)) h += 1; }
  double mw = c.s.real(1, 50), mh = c.s.real(1, 50);
  c.note() << "scale " << xs << "," << ys << " rot " << rot << " t " << std::get<0>(t) << "," << std::get<1>(t) << "," << std::get<2>(t) << "," << std::get<3>(t) << " sharp " << kind << " pixel scale " << ps << " size " << w << "x" << h;
  std::shared_ptr<ExtendedModel<Img>> m; if (tr) m = std::make_shared<TransformedModel<Img>>(std::move(list), par(xs), par(ys), par(rot), mw, mh, par(cx), par(cy), t); else if (c.s.coin(20)) m = std::make_shared<TransformedModel<Img>>(std::move(list), par(xs), par(ys), par(rot), mw, mh, par(cx), par(cy)); else m = std::make_shared<ExtendedModel<Img>>(std::move(list), par(xs), par(ys), par(rot), mw, mh, par(cx), par(cy));
  c.eq(m->getWidth(), mw, "width"); c.eq(m->getHeight(), mh, "height"); c.eq(m->getX(), cx, "x"); c.eq(m->getY(), cy, "y"); c.label("sharp " + std::to_string(kind)); c.label("transformed", tr); 
  double t0 = std::get<0>(t), t1 = std::get<1>(t), t2 = std::get<2>(t), t3 = std::get<3>(t), det = t0 * t3 - t1 * t2, co = std::cos(rot), si = std::sin(rot);
  auto radius = [&](double x, double y) { double u = (x * t3 - y * t2) / det, v = (-x * t1 + y * t0) / det; return std::hypot((u * co - v * si) / xs, (u * si + v * co) / ys); };
  auto value = [&](double x, double y) { double r = radius(x, y), s = 0; for (auto& p : comps) s += prof(p, r); return s / std::fabs(det); };
  for (int i = 0; i < 4; ++i) { double x = c.s.real(-6, 6), y = c.s.real(-6, 6); c.close(m->getValue(cx + x, cy + y), value(x, y), 1e-6, 1e-300, "value around the position"); }
  if (w % 2 == 0 || h % 2 == 0) { bool threw = false; try { m->getRasterizedImage(ps, w, h); } catch (const Elements::Exception&) { threw = true; } c.check(threw, "an even size is not rejected"); c.label("even"); c.nontrivial(); return; }
  auto img = m->getRasterizedImage(ps, w, h); c.check(size_t(img->getWidth()) == w && size_t(img->getHeight()) == h, "size of the image"); c.nontrivial(w * h > 9);
  // pixels the sharp region cannot reach: kind 1 is four (component) pixels, kind 2 unknown -> only kind 0 and 1 pixel by pixel
  double f1 = std::min(xs, ys), f2 = std::min(std::hypot(t0, t1), std::hypot(t2, t3)); double R = kind == 0 ? -1 : 4 * ps / f1 / f2; 
  double total = 0, want = 0; for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) { double X = (double(x) - (w - 1) / 2.) * ps, Y = (double(y) - (h - 1) / 2.) * ps; double got = img->getValue(int(x), int(y)); total += got;
      if (kind < 2) { bool out = false; for (int a = -1; a <= 1; a += 2) for (int b = -1; b <= 1; b += 2) if (radius(X + a * ps / 2, Y + b * ps / 2) > R * 1.0001) out = true; if (kind == 0 || out) c.close(got, value(X, Y) * ps * ps, 2e-6, 1e-30, "pixel " + std::to_string(x) + "," + std::to_string(y)); } 
      c.check(std::isfinite(got) && got >= 0, "a pixel is negative or not finite"); }
  if (kind > 0 && comps.size() == 1 && comps[0].n <= 1.3 && w > 8 && h > 8) { // adaptive sampling keeps the flux in the image: compare with a fine sum over the image's area, if the model is resolved
    double spread = std::sqrt(std::fabs(det) * xs * ys) / std::pow(comps[0].k, comps[0].n); double thin = std::min(xs, ys) * std::fabs(det) / std::hypot(std::hypot(t0, t1), std::hypot(t2, t3)) / std::pow(comps[0].k, comps[0].n);
    double nn = t0 * t0 + t1 * t1 + t2 * t2 + t3 * t3, cond = (nn + std::sqrt(std::max(0., nn * nn - 4 * det * det))) / (2 * std::fabs(det)) * std::max(xs / ys, ys / xs); if (thin > 0.7 * ps && cond < 2.5) { int S = 9; for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) for (int a = 0; a < S; ++a) for (int b = 0; b < S; ++b) want += value((double(x) - w / 2. + (a + .5) / S) * ps, (double(y) - h / 2. + (b + .5) / S) * ps) * ps * ps / S / S; (void)spread;
      c.label("flux compared"); double edge = 0; /* samples next to the rim may fall on either side */ for (size_t y = 0; y < h; ++y) edge += img->getValue(0, int(y)) + img->getValue(int(w) - 1, int(y)); for (size_t x = 0; x < w; ++x) edge += img->getValue(int(x), 0) + img->getValue(int(x), int(h) - 1);
      c.close(total, want, 0.05, 0.6 * edge + 1e-6, "flux of the image"); } }
}
static void compact(Case& c) {
  bool sersic = c.s.coin(); double n = sersic ? c.s.real(0.5, 5) : 1, k = c.s.logreal(0.2, 3), i0 = c.s.logreal(1e-2, 1e4), flux = c.s.logreal(1e-2, 1e5); double xs = c.s.logreal(0.5, 2), ys = c.s.logreal(0.2, 2), rot = c.s.real(-4, 4), cx = c.s.real(-9, 9), cy = c.s.real(-9, 9), sr = c.s.pick({0.0, 2.0, 3.0, 5.0}), ps = c.s.logreal(0.3, 2); T4 t = genT(c);
  size_t w = size_t(2 * c.s.range(1, 14) + 1), h = size_t(2 * c.s.range(1, 14) + 1); if (c.s.coin(6)) w += 1; if (c.s.coin(6)) h += 1; double mw = c.s.real(1, 50), mh = c.s.real(1, 50);
  c.note() << (sersic ? "sersic" : "exponential") << " n " << n << " k " << k << " i0 " << i0 << " flux " << flux << " scale " << xs << "," << ys << " rot " << rot << " t " << std::get<0>(t) << "," << std::get<1>(t) << "," << std::get<2>(t) << "," << std::get<3>(t) << " sharp " << sr << " pixel scale " << ps << " size " << w << "x" << h;
  Par pi0 = par(i0), pk = par(k), pn = par(n), pxs = par(xs), pys = par(ys), prot = par(rot), px = par(cx), py = par(cy), pf = par(flux); std::shared_ptr<ExtendedModel<Img>> m;
  if (sersic) m = std::make_shared<CompactSersicModel<Img>>(sr, pi0, pk, pn, pxs, pys, prot, mw, mh, px, py, pf, t); else m = std::make_shared<CompactExponentialModel<Img>>(sr, pi0, pk, pxs, pys, prot, mw, mh, px, py, pf, t);
  c.label(sersic ? "sersic" : "exponential"); c.eq(m->getWidth(), mw, "width"); c.eq(m->getX(), cx, "x"); c.eq(m->getY(), cy, "y");
  double t0 = std::get<0>(t), t1 = std::get<1>(t), t2 = std::get<2>(t), t3 = std::get<3>(t), det = t0 * t3 - t1 * t2;
  auto map = [&](double x, double y, double& u, double& v) { double X = (x * t3 - y * t2) / det, Y = (-x * t1 + y * t0) / det, co = std::cos(rot), si = std::sin(rot); u = (X * co + Y * si) / xs; v = (-X * si + Y * co) / ys; };
  auto radius = [&](double x, double y) { double u, v; map(x, y, u, v); return std::hypot(u, v); };
  for (int i = 0; i < 3; ++i) { double x = c.s.real(-6, 6), y = c.s.real(-6, 6); double want = prof({i0, n, k}, radius(x, y)) / std::fabs(det); c.close(m->getValue(x, y), want, 2e-4 + 1e-6 * k * std::pow(radius(x, y), 1 / n) , 1e-35, "value"); }
  if (w % 2 == 0 || h % 2 == 0) { bool threw = false; try { m->getRasterizedImage(ps, w, h); } catch (const Elements::Exception&) { threw = true; } c.check(threw, "an even size is not rejected"); c.label("even"); c.nontrivial(); return; }
  for (int round = 0; round < 2; ++round) {
    if (round) { flux = c.s.logreal(1e-2, 1e5); rot = c.s.real(-4, 4); ys = c.s.logreal(0.2, 2); pf->setValue(flux); prot->setValue(rot); pys->setValue(ys); }
    auto img = m->getRasterizedImage(ps, w, h); c.check(size_t(img->getWidth()) == w + 8 && size_t(img->getHeight()) == h + 8, "size of the image with its border of four pixels");
    // cut-off radius: the largest circle of the component that fits into 0.95 of the image
    double u[2], v[2]; double X = w * .95 / 2 * ps, Y = h * .95 / 2 * ps, rmax = 1e300; map(1, 0, u[0], v[0]); map(0, 1, u[1], v[1]); double J = std::fabs(u[0] * v[1] - u[1] * v[0]); rmax = std::min(X * J / std::hypot(u[1], v[1]), Y * J / std::hypot(u[0], v[0])); 
    double total = 0, best = 0; for (int y = 0; y < int(h) + 8; ++y) for (int x = 0; x < int(w) + 8; ++x) { double g = img->getValue(x, y); total += g; if (x < 4 || y < 4 || x >= int(w) + 4 || y >= int(h) + 4) c.eq(g, 0.0, "the border is not zero"); best = std::max(best, g); c.check(std::isfinite(g) && g >= 0, "a pixel is negative or not finite"); }
    c.nontrivial(w * h > 25); c.close(total, flux, 1e-4, 0, "the image does not carry the flux of the model");
    // ratio of pixel to unnormalised profile is one constant over the smooth pixels; over the central ones it lies within what the profile takes in the pixel
    std::vector<double> ratio; double centre = -1; 
    for (int y = 0; y < int(h); ++y) for (int x = 0; x < int(w); ++x) { int dx = x - int(w) / 2, dy = y - int(h) / 2; double r = radius(dx * ps, dy * ps), g = img->getValue(x + 4, y + 4); bool smooth = !(dx * dx + dy * dy < sr * sr * (1 - 1e-6)); bool sharp = dx * dx + dy * dy < sr * sr * (1 - 1e-6); 
        if (smooth && !sharp) { if (r > rmax * 1.0001) c.eq(g, 0.0, "a pixel beyond the cut-off radius"); else if (r < rmax * 0.9999) { double p = prof({1, n, k}, r); if (p > 1e-15 * prof({1, n, k}, 0) && g > 1e-30) ratio.push_back(g / p); } } if (dx == 0 && dy == 0) centre = g; }
    if (ratio.size() > 1) { std::nth_element(ratio.begin(), ratio.begin() + long(ratio.size() / 2), ratio.end()); double med = ratio[ratio.size() / 2]; for (double q : ratio) c.close(q, med, 1e-3, 0, "pixels do not follow the profile"); c.label("profile followed");
      if (sr > 0) { double lo = 1e300, hi = 0; for (int a = -20; a <= 20; ++a) for (int b = -20; b <= 20; ++b) { double p = radius(a * ps / 40, b * ps / 40); double q = p < rmax ? prof({1, n, k}, p) : 0; lo = std::min(lo, q); hi = std::max(hi, q); } c.check(centre <= hi * med * 1.001 && centre >= lo * med * 0.999, "the central pixel is outside of what the profile takes in it"); } }
  }
}
PBT_MAIN({"extended", "more than nine pixels or an even size", extended, 6000, 120000}, {"compact", "more than 25 pixels or an even size", compact, 12000, 250000})
