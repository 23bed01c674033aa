// Aperture photometry: flux, variance, areas and flags equal a pixel-by-pixel reference; neighbour masks and crowding flags likewise.
// SRCS: SEFramework/src/lib/Aperture/CircularAperture.cpp SEFramework/src/lib/Aperture/EllipticalAperture.cpp SEFramework/src/lib/Aperture/TransformedAperture.cpp SEFramework/src/lib/Aperture/FluxMeasurement.cpp SEFramework/src/lib/Aperture/Flagging.cpp SEFramework/src/lib/Aperture/NeighbourInfo.cpp
// SCALE: 3
#include "pbt.h"
#include <memory>
#include <tuple>
#include <vector>
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/TransformedAperture.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Aperture/Flagging.h"
#include "SEFramework/Aperture/NeighbourInfo.h"
#include "SEFramework/Image/VectorImage.h"
using namespace pbt;
using namespace SourceXtractor;

static double q(double v) { return double(float(v)); }
// A rectangular aperture with weights of its own: the measurement has to use what the aperture says, and nothing else
struct Patch : Aperture {
  int w, h, ox, oy; std::vector<float> a; 
  SeFloat getArea(SeFloat cx, SeFloat cy, SeFloat x, SeFloat y) const override { int i = int(std::lround(x)) - int(std::floor(cx)) - ox, j = int(std::lround(y)) - int(std::floor(cy)) - oy; return i >= 0 && j >= 0 && i < w && j < h ? a[i + j * w] : 0; }
  SeFloat drawArea(SeFloat cx, SeFloat cy, SeFloat x, SeFloat y) const override { return getArea(cx, cy, x, y); }
  PixelCoordinate getMinPixel(SeFloat cx, SeFloat cy) const override { return PixelCoordinate(int(std::floor(cx)) + ox, int(std::floor(cy)) + oy); }
  PixelCoordinate getMaxPixel(SeFloat cx, SeFloat cy) const override { return PixelCoordinate(int(std::floor(cx)) + ox + w - 1, int(std::floor(cy)) + oy + h - 1); }
  SeFloat getRadiusSquared(SeFloat cx, SeFloat cy, SeFloat x, SeFloat y) const override { return (x - cx) * (x - cx) + (y - cy) * (y - cy); } };
static std::shared_ptr<Aperture> genAperture(Case& c) {
  switch (c.s.draw(3)) {
  case 0: { double r = q(c.s.real(0.5, 6)); c.note() << "circle " << r; return std::make_shared<CircularAperture>(r); }
  case 1: { double a = c.s.real(0.5, 4), b = c.s.real(0.5, 4), t = c.s.real(-3, 3), ct = std::cos(t), st = std::sin(t); c.note() << "ellipse " << a << "," << b << "," << t; return std::make_shared<EllipticalAperture>(ct * ct / (a * a) + st * st / (b * b), st * st / (a * a) + ct * ct / (b * b), 2 * ct * st * (1 / (a * a) - 1 / (b * b)), c.s.real(0.7, 2)); }
  case 2: { double r = q(c.s.real(0.5, 4)), s = c.s.real(0.6, 1.6), t = c.s.real(-3, 3); c.note() << "rotated circle " << r << " scale " << s; return std::make_shared<TransformedAperture>(std::make_shared<CircularAperture>(r), std::make_tuple(s * std::cos(t), s * std::sin(t), -s * std::sin(t), s * std::cos(t))); }
  default: { auto p = std::make_shared<Patch>(); p->w = int(c.s.range(1, 7)); p->h = int(c.s.range(1, 7)); p->ox = -int(c.s.range(0, 6)); p->oy = -int(c.s.range(0, 6)); p->a.resize(p->w * p->h); for (auto& v : p->a) v = float(c.s.range(0, 4)) / 4; c.note() << "patch " << p->w << "x" << p->h; return p; } } }
struct Scene { int w, h; std::shared_ptr<VectorImage<SeFloat>> img, var, thr; double vt; };
static Scene genScene(Case& c) {
  Scene s; s.w = int(c.s.skewed(1, 24)); s.h = int(c.s.skewed(1, 24)); uint64_t key = c.s.draw(1 << 16); int badpct = int(c.s.pick({0, 3, 15, 60, 100})), detpct = int(c.s.pick({0, 10, 40, 100})); s.vt = c.s.coin(20) ? 1e6 : 5; std::vector<SeFloat> i, v, t; bool equal = c.s.coin(20);
  for (int k = 0; k < s.w * s.h; ++k) { uint64_t z = key * 2654435761u + uint64_t(k + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; i.push_back(SeFloat(int(z % 201) - 60) / 4); bool bad = (z >> 20) % 100 < uint64_t(badpct); v.push_back(bad ? SeFloat(s.vt * 2) : equal && (z >> 12) % 5 == 0 ? SeFloat(s.vt) : SeFloat((z >> 28) % 16) / 4); t.push_back((z >> 40) % 100 < uint64_t(detpct) ? SeFloat(1 + (z >> 50) % 5) : SeFloat(-int((z >> 50) % 3))); }
  s.img = VectorImage<SeFloat>::create(s.w, s.h, i); s.var = VectorImage<SeFloat>::create(s.w, s.h, v); s.thr = VectorImage<SeFloat>::create(s.w, s.h, t); c.note() << " on " << s.w << "x" << s.h << " bad " << badpct << "% "; return s; }

static void flux(Case& c) {
  auto ap = genAperture(c); auto s = genScene(c); bool sym = c.s.coin(); double cx = q(c.s.coin(80) ? c.s.real(0, s.w - 1) : c.s.real(-9, s.w + 9)), cy = q(c.s.coin(80) ? c.s.real(0, s.h - 1) : c.s.real(-9, s.h + 9)); c.note() << "at (" << cx << "," << cy << ")" << (sym ? " symmetric" : "");
  auto m = measureFlux(ap, cx, cy, s.img, s.var, s.vt, sym); auto mn = ap->getMinPixel(cx, cy), mx = ap->getMaxPixel(cx, cy);
  bool outside = mx.m_x < 0 || mx.m_y < 0 || mn.m_x >= s.w || mn.m_y >= s.h; c.label("outside", outside); c.label("symmetric", sym);
  if (outside) { c.check(m.m_flags == Flags::OUTSIDE, "an aperture outside of the image is not flagged as outside"); c.check(m.m_flux == 0 && m.m_variance == 0 && m.m_total_area == 0 && m.m_bad_area == 0, "something measured outside of the image"); return; }
  bool clipped = mn.m_x < 0 || mn.m_y < 0 || mx.m_x >= s.w || mx.m_y >= s.h; c.label("clipped", clipped); int x0 = std::max(mn.m_x, 0), y0 = std::max(mn.m_y, 0), x1 = std::min(mx.m_x, s.w - 1), y1 = std::min(mx.m_y, s.h - 1);
  double F = 0, V = 0, A = 0, B = 0, mag = 0, slackF = 0, slackV = 0; int covered = 0, replaced = 0;
  for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) { double a = ap->getArea(cx, cy, x, y); if (a == 0) continue; ++covered; A += a; double v = s.var->getValue(x, y), pv = 0, pvar = 0;
    if (v > s.vt) { ++B; if (sym) { double rx = 2 * cx - x, ry = 2 * cy - y; // the pixel that lies opposite; a tie between two pixels may go either way
        double lo = 1e30, hi = -1e30, lov = 1e30, hiv = -1e30; for (int k = 0; k < 4; ++k) { int qx = int(std::floor(rx + (k & 1 ? 0.501 : 0.499))), qy = int(std::floor(ry + (k & 2 ? 0.501 : 0.499))); double tv = 0, tvar = 0; if (qx >= x0 && qy >= y0 && qx <= x1 && qy <= y1) { double w = s.var->getValue(qx, qy); if (w < s.vt) { tv = s.img->getValue(qx, qy); tvar = w; ++replaced; } else if (w == s.vt) { lo = std::min<double>(lo, s.img->getValue(qx, qy)); hi = std::max<double>(hi, s.img->getValue(qx, qy)); lov = std::min(lov, w); hiv = std::max(hiv, w); } } lo = std::min(lo, tv); hi = std::max(hi, tv); lov = std::min(lov, tvar); hiv = std::max(hiv, tvar); }
        pv = (lo + hi) / 2; pvar = (lov + hiv) / 2; slackF += (hi - lo) / 2 * a; slackV += (hiv - lov) / 2 * a; } }
    else { pv = s.img->getValue(x, y); pvar = v; }
    F += pv * a; V += pvar * a; mag += (std::fabs(pv) + pvar + 1) * a; }
  c.nontrivial(covered > 1); c.label("bad pixel replaced by its mirror", replaced > 0); c.label("has bad pixels", B > 0);
  double tol = 1e-5 * mag + 1e-6; c.close(m.m_flux, F, 0, tol + slackF, "flux"); c.close(m.m_variance, V, 0, tol + slackV, "variance"); c.close(m.m_total_area, A, 1e-5, 1e-6, "total area"); c.close(m.m_bad_area, B, 1e-5, 1e-6, "bad area");
  Flags want = Flags::NONE; if (clipped) want |= Flags::BOUNDARY; double frac = A > 0 ? B / A : 0; if (frac > 0.1) want |= Flags::BIASED; c.label("biased", frac > 0.1);
  if (std::fabs(frac - 0.1) > 1e-4) c.eq(flags2long(m.m_flags), flags2long(want), "flags"); }

static void neighbours(Case& c) {
  auto s = genScene(c); std::vector<PixelCoordinate> pix; int n = int(c.s.range(0, 20)); for (int i = 0; i < n; ++i) pix.push_back(PixelCoordinate(int(c.s.range(0, s.w - 1)), int(c.s.range(0, s.h - 1)))); 
  PixelCoordinate mn(int(c.s.range(-4, s.w - 1)), int(c.s.range(-4, s.h - 1))), mx(int(c.s.range(std::max(mn.m_x, 0), s.w + 3)), int(c.s.range(std::max(mn.m_y, 0), s.h + 3))); c.note() << "box (" << mn.m_x << "," << mn.m_y << ")-(" << mx.m_x << "," << mx.m_y << ") " << n << " own pixels"; NeighbourInfo ni(mn, mx, pix, s.thr); int k = 0;
  for (int y = std::max(0, mn.m_y); y <= std::min(mx.m_y, s.h - 1); ++y) for (int x = std::max(0, mn.m_x); x <= std::min(mx.m_x, s.w - 1); ++x) { bool own = std::find(pix.begin(), pix.end(), PixelCoordinate(x, y)) != pix.end(), want = !own && s.thr->getValue(x, y) > 0; k += want; if (ni.isNeighbourObjectPixel(x, y) != want) c.fail("pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is " + (want ? "" : "not ") + "a neighbour's pixel"); }
  c.nontrivial(k > 0 && n > 0); }

static void flags(Case& c) {
  auto ap = genAperture(c); auto s = genScene(c); double cx = q(c.s.real(0, s.w - 1)), cy = q(c.s.real(0, s.h - 1)); std::vector<PixelCoordinate> pix; int n = int(c.s.range(0, 20)); for (int i = 0; i < n; ++i) pix.push_back(PixelCoordinate(std::min(std::max(int(cx) + int(c.s.range(-4, 4)), 0), s.w - 1), std::min(std::max(int(cy) + int(c.s.range(-4, 4)), 0), s.h - 1)));
  auto mn = ap->getMinPixel(cx, cy), mx = ap->getMaxPixel(cx, cy); if (mx.m_x < 0 || mx.m_y < 0 || mn.m_x >= s.w || mn.m_y >= s.h) c.discard(); bool clipped = mn.m_x < 0 || mn.m_y < 0 || mx.m_x >= s.w || mx.m_y >= s.h;
  auto f = computeFlags(ap, cx, cy, pix, s.img, s.var, s.thr, s.vt); double A = 0, B = 0, N = 0;
  for (int y = std::max(0, mn.m_y); y <= std::min(mx.m_y, s.h - 1); ++y) for (int x = std::max(0, mn.m_x); x <= std::min(mx.m_x, s.w - 1); ++x) { double a = ap->getArea(cx, cy, x, y); if (a == 0) continue; A += a; B += s.var->getValue(x, y) > s.vt; N += s.thr->getValue(x, y) > 0 && std::find(pix.begin(), pix.end(), PixelCoordinate(x, y)) == pix.end(); }
  c.nontrivial(A > 1 && (B > 0 || N > 0)); Flags want = Flags::NONE; if (clipped) want |= Flags::BOUNDARY; double b = A > 0 ? B / A : 0, m = A > 0 ? N / A : 0; if (std::fabs(b - 0.1) < 1e-4 || std::fabs(m - 0.1) < 1e-4) c.discard(); if (b > 0.1) want |= Flags::BIASED; if (m > 0.1) want |= Flags::NEIGHBORS; c.label("biased", b > 0.1); c.label("neighbours", m > 0.1); c.label("boundary", clipped); c.eq(flags2long(f), flags2long(want), "flags"); }

// Flux is additive in the image and does not depend on where in a larger image the scene lies
static void additive(Case& c) {
  auto ap = genAperture(c); auto s = genScene(c); double cx = q(c.s.real(0, s.w - 1)), cy = q(c.s.real(0, s.h - 1)); bool sym = c.s.coin(); auto b = VectorImage<SeFloat>::create(*s.img); double mag = 0; for (auto& v : b->getData()) { v = SeFloat(int(c.s.draw(20)) - 7); } auto sum = VectorImage<SeFloat>::create(*s.img); for (size_t i = 0; i < b->getData().size(); ++i) { sum->getData()[i] += b->getData()[i]; mag += 30; }
  auto m1 = measureFlux(ap, cx, cy, s.img, s.var, s.vt, sym), m2 = measureFlux(ap, cx, cy, b, s.var, s.vt, sym), m3 = measureFlux(ap, cx, cy, sum, s.var, s.vt, sym); c.nontrivial(m1.m_total_area > 1); c.close(m3.m_flux, double(m1.m_flux) + m2.m_flux, 1e-5, 1e-5 * mag, "flux of a sum of images"); c.close(m3.m_variance, m1.m_variance, 1e-6, 1e-6, "variance of a sum of images"); c.check(m1.m_flags == m3.m_flags, "flags depend on the pixel values"); }

PBT_MAIN({"flux", "the aperture covers more than one pixel", flux, 160000, 3000000}, {"neighbours", "own pixels and neighbour pixels in the box", neighbours, 80000, 1500000}, {"flags", "area above 1 with bad or neighbour pixels", flags, 100000, 2000000}, {"additive", "area above 1", additive, 30000, 500000})
