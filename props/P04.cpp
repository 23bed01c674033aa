// Apertures: the area of each pixel inside an aperture agrees with plane geometry, also through a linear distortion, and the
// box an aperture announces contains every pixel it covers.
// SRCS: SEFramework/src/lib/Aperture/CircularAperture.cpp SEFramework/src/lib/Aperture/EllipticalAperture.cpp SEFramework/src/lib/Aperture/TransformedAperture.cpp
#include "pbt.h"
#include <memory>
#include <tuple>
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/TransformedAperture.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Image/VectorImage.h"
using namespace pbt;
using namespace SourceXtractor;

static double q(double v) { return double(float(v)); }
static double centre(Case& c) { return q(c.s.coin(20) ? c.s.real(-4, 4) : c.s.real(0, 60)); }
static double radius(Case& c) { switch (c.s.draw(3)) { case 0: return q(c.s.real(0.05, 1.5)); case 1: return q(c.s.real(0.5, 20)); default: return q(c.s.real(0.5, 6)); } }
// part of the unit square around (x, y) at distance at most r from the origin
static double overlap(double x, double y, double r) { double a = 0; const int n = 64; for (int i = 0; i < n; ++i) { double u = x - 0.5 + (i + 0.5) / n; if (std::fabs(u) >= r) continue; double h = std::sqrt(r * r - u * u); a += std::max(0.0, std::min(h, y + 0.5) - std::max(-h, y - 0.5)); } return a / n; }

static void circle(Case& c) {
  double cx = centre(c), cy = centre(c), r = radius(c); CircularAperture a{float(r)}; c.note() << "circle r=" << r << " at (" << cx << "," << cy << ")"; auto mn = a.getMinPixel(cx, cy), mx = a.getMaxPixel(cx, cy);
  c.nontrivial(r > 0.5); c.label("reaches negative coordinates", cx - r < 0 || cy - r < 0);
  int x0 = int(std::floor(cx - r)) - 3, x1 = int(std::ceil(cx + r)) + 3, y0 = int(std::floor(cy - r)) - 3, y1 = int(std::ceil(cy + r)) + 3; double sum = 0;
  c.check(mn.m_x >= cx - r - 2 && mn.m_y >= cy - r - 2 && mx.m_x <= cx + r + 2 && mx.m_y <= cy + r + 2, "the box is more than two pixels larger than the circle");
  for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) { double g = a.getArea(cx, cy, x, y); std::string p = "(" + std::to_string(x) + "," + std::to_string(y) + ")"; sum += g;
    c.check(g >= 0 && g <= 1 + 1e-5, "area of " + p + " is " + std::to_string(g)); c.close(g, overlap(x - cx, y - cy, r), 0, 0.17, "area of pixel " + p);
    if (g > 0) c.check(x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y, "pixel " + p + " is covered but outside the box");
    double d2 = (x - cx) * (x - cx) + (y - cy) * (y - cy); c.close(a.getRadiusSquared(cx, cy, x, y), d2, 1e-5, 1e-5, "squared radius"); double d = std::sqrt(d2);
    double dr = a.drawArea(cx, cy, x, y); if (d < r - 0.5 - 1e-3 || d > r + 0.5 + 1e-3) c.eq(dr, 0.0, "outline drawn away from the circle at " + p); else if (d > r - 0.5 + 1e-3 && d < r + 0.5 - 1e-3 && d > 1e-3) c.eq(dr, 1.0, "outline not drawn on the circle at " + p); }
  c.close(sum, M_PI * r * r, 0, 0.1 + 0.1 * r, "total area of the circle"); 
  double r2 = r + c.s.real(0, 3); CircularAperture b{float(r2)}; for (int k = 0; k < 6; ++k) { int x = int(c.s.range(x0, x1)), y = int(c.s.range(y0, y1)); c.check(a.getArea(cx, cy, x, y) <= b.getArea(cx, cy, x, y) + 1e-4, "area shrinks with a larger radius"); } }

struct Ell { double cxx, cyy, cxy, rad, a, b, th; };
static Ell genEll(Case& c) { Ell e; e.a = c.s.real(0.3, 8); e.b = c.s.coin(20) ? e.a : c.s.real(0.3, 8); e.th = c.s.coin(25) ? M_PI / 4 * double(c.s.range(0, 7)) : c.s.real(-3.2, 3.2); e.rad = q(c.s.real(0.5, 4)); double ct = std::cos(e.th), st = std::sin(e.th);
  e.cxx = q(ct * ct / (e.a * e.a) + st * st / (e.b * e.b)); e.cyy = q(st * st / (e.a * e.a) + ct * ct / (e.b * e.b)); e.cxy = q(2 * ct * st * (1 / (e.a * e.a) - 1 / (e.b * e.b))); c.note() << "ellipse a=" << e.a << " b=" << e.b << " theta=" << e.th << " times " << e.rad; return e; }
static void ellipse(Case& c) {
  Ell e = genEll(c); double cx = centre(c), cy = centre(c); c.note() << " at (" << cx << "," << cy << ")"; EllipticalAperture a(e.cxx, e.cyy, e.cxy, e.rad); auto mn = a.getMinPixel(cx, cy), mx = a.getMaxPixel(cx, cy); c.nontrivial(e.a * e.b * e.rad > 1); c.label("elongated", e.a > 2 * e.b || e.b > 2 * e.a); c.label("reaches negative coordinates", cx - e.a * e.rad < 0 || cy - e.a * e.rad < 0);
  double det = 4 * e.cxx * e.cyy - e.cxy * e.cxy, dx = e.rad * std::sqrt(4 * e.cyy / det), dy = e.rad * std::sqrt(4 * e.cxx / det);
  bool sharp = std::max(e.a, e.b) / std::min(e.a, e.b) < 12; // the box of a needle suffers from rounding of its coefficients
  if (sharp) c.check(mn.m_x >= cx - dx - 2.1 && mn.m_y >= cy - dy - 2.1 && mx.m_x <= cx + dx + 2.1 && mx.m_y <= cy + dy + 2.1, "the box is more than two pixels larger than the ellipse");
  for (int y = int(cy - dy) - 3; y <= int(cy + dy) + 3; ++y) for (int x = int(cx - dx) - 3; x <= int(cx + dx) + 3; ++x) { std::string p = "(" + std::to_string(x) + "," + std::to_string(y) + ")"; double ux = x - cx, uy = y - cy, r2 = e.cxx * ux * ux + e.cyy * uy * uy + e.cxy * ux * uy, big = e.cxx * ux * ux + e.cyy * uy * uy + std::fabs(e.cxy * ux * uy), eps = 1e-5 * (big + 1), R2 = e.rad * e.rad;
    c.close(a.getRadiusSquared(cx, cy, x, y), r2, 0, eps, "elliptical radius of " + p); double g = a.getArea(cx, cy, x, y);
    if (r2 < R2 - eps) c.eq(g, 1.0, "pixel " + p + " with its centre inside the ellipse"); if (r2 > R2 + eps) c.eq(g, 0.0, "pixel " + p + " with its centre outside the ellipse");
    if (g > 0 && sharp) c.check(x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y, "pixel " + p + " is covered but outside the box");
    double rr = std::max(0.0, e.rad - 1), dr = a.drawArea(cx, cy, x, y); if (r2 < rr * rr - eps || r2 > R2 + eps) c.eq(dr, 0.0, "outline drawn away from the ellipse at " + p); else if (r2 > rr * rr + eps && r2 < R2 - eps && r2 > eps) c.eq(dr, 1.0, "outline not drawn at " + p); } }

// Through a linear map J, the displacement J*u sees what the aperture sees at u
static void transformed(Case& c) {
  std::shared_ptr<Aperture> d; double r = radius(c), ext = r; Ell e{}; bool ell = c.s.coin(35); if (ell) { e = genEll(c); d = std::make_shared<EllipticalAperture>(e.cxx, e.cyy, e.cxy, e.rad); ext = e.rad * std::max(e.a, e.b); } else { d = std::make_shared<CircularAperture>(float(r)); c.note() << "circle r=" << r; }
  double j[4]; switch (c.s.draw(4)) { case 0: j[0] = j[3] = 1; j[1] = j[2] = 0; c.label("identity"); break; case 1: { double t = c.s.real(-3.2, 3.2), s = c.s.real(0.5, 2.5); j[0] = s * std::cos(t); j[1] = s * std::sin(t); j[2] = -j[1]; j[3] = j[0]; c.label("rotation and scale"); break; } case 2: j[0] = c.s.real(0.4, 2.5); j[3] = c.s.real(0.4, 2.5); j[1] = j[2] = 0; c.label("stretch"); break; case 3: j[0] = j[3] = 0; j[1] = 1; j[2] = c.s.coin() ? 1 : -1; c.label("transpose or quarter turn"); break;
    default: for (int k = 0; k < 4; ++k) j[k] = c.s.real(-1.5, 1.5); c.label("general"); }
  double det = j[0] * j[3] - j[1] * j[2]; if (std::fabs(det) < 0.1) { j[0] = j[3] = 1.25; j[1] = 0.5; j[2] = -0.25; det = j[0] * j[3] - j[1] * j[2]; }
  double cx = centre(c), cy = centre(c); c.note() << " through (" << j[0] << "," << j[1] << "," << j[2] << "," << j[3] << ") at (" << cx << "," << cy << ")"; TransformedAperture t(d, std::make_tuple(j[0], j[1], j[2], j[3])); auto mn = t.getMinPixel(cx, cy), mx = t.getMaxPixel(cx, cy); c.nontrivial();
  double span = 3 + ext * (std::fabs(j[0]) + std::fabs(j[1]) + std::fabs(j[2]) + std::fabs(j[3])); int x0 = int(cx - span), y0 = int(cy - span), x1 = int(cx + span), y1 = int(cy + span); double scale = std::sqrt((j[0] * j[0] + j[1] * j[1] + j[2] * j[2] + j[3] * j[3])) / std::fabs(det);
  bool needle = ell && std::max(e.a, e.b) / std::min(e.a, e.b) >= 12;
  for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) { double vx = x - cx, vy = y - cy, ux = (j[3] * vx - j[2] * vy) / det, uy = (-j[1] * vx + j[0] * vy) / det; std::string p = "(" + std::to_string(x) + "," + std::to_string(y) + ")"; double eps = 2e-5 * (1 + scale * 60), g = t.getArea(cx, cy, x, y);
    if (!ell) { c.close(g, overlap(ux, uy, r), 0, 0.17 + eps * 2, "area of pixel " + p); double u = std::sqrt(ux * ux + uy * uy); c.close(t.getRadiusSquared(cx, cy, x, y), u * u, 1e-3, eps * (1 + u), "squared radius of " + p); if (u > r + 0.5 + eps || u < r - 0.5 - eps) c.eq(double(t.drawArea(cx, cy, x, y)), 0.0, "outline drawn away from the circle at " + p); else if (u > 0.01 && u > r - 0.5 + eps && u < r + 0.5 - eps) c.eq(double(t.drawArea(cx, cy, x, y)), 1.0, "outline not drawn at " + p);
      if (u < r - eps && !(x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y)) c.fail("pixel " + p + " has its centre inside the aperture but is outside the box (" + std::to_string(mn.m_x) + "," + std::to_string(mn.m_y) + ")-(" + std::to_string(mx.m_x) + "," + std::to_string(mx.m_y) + ")");
      if (g > 0.02 && j[0] == 1 && j[3] == 1 && j[1] == 0 && j[2] == 0) c.check(x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y, "pixel " + p + " is covered by an undistorted aperture but is outside the box"); }
    else { double r2 = e.cxx * ux * ux + e.cyy * uy * uy + e.cxy * ux * uy, big = e.cxx * ux * ux + e.cyy * uy * uy + std::fabs(e.cxy * ux * uy), ee = 1e-3 * (big + 1), R2 = e.rad * e.rad; c.close(t.getRadiusSquared(cx, cy, x, y), r2, 0, ee, "elliptical radius of " + p);
      if (r2 < R2 - ee) { c.eq(g, 1.0, "pixel " + p + " inside the distorted ellipse"); if (!needle) c.check(x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y, "pixel " + p + " is inside the distorted ellipse but outside the box"); } if (r2 > R2 + ee) c.eq(g, 0.0, "pixel " + p + " outside the distorted ellipse"); } }
  c.check(mn.m_x >= cx - span - ext - 4 && mx.m_x <= cx + span + ext + 4 && mn.m_y >= cy - span - ext - 4 && mx.m_y <= cy + span + ext + 4, "the box is far larger than the aperture"); }

// Filling or outlining an aperture sets exactly the covered pixels that exist
static void paint(Case& c) {
  int w = int(c.s.range(1, 25)), h = int(c.s.range(1, 25)); double r = radius(c), cx = q(c.s.real(-5, 30)), cy = q(c.s.real(-5, 30)); std::shared_ptr<Aperture> a; if (c.s.coin()) a = std::make_shared<CircularAperture>(float(r)); else { Ell e = genEll(c); if (std::max(e.a, e.b) / std::min(e.a, e.b) >= 12) c.discard(); a = std::make_shared<EllipticalAperture>(e.cxx, e.cyy, e.cxy, e.rad); }
  if (c.s.coin(30)) a = std::make_shared<TransformedAperture>(a, std::make_tuple(1., 0., 0., 1.));
  auto img = VectorImage<int>::create(w, h); std::shared_ptr<WriteableImage<int>> wi = img; bool fill = c.s.coin(); c.note() << (fill ? " fill " : " draw ") << w << "x" << h << " r=" << r << " at (" << cx << "," << cy << ")"; if (fill) fillAperture<int>(a, cx, cy, wi, 7); else drawAperture<int>(a, cx, cy, wi, 7); int n = 0;
  auto mn = a->getMinPixel(cx, cy), mx = a->getMaxPixel(cx, cy);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { bool box = x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y; bool in = box && (fill ? a->getArea(cx, cy, x, y) : a->drawArea(cx, cy, x, y)) > 0; n += in; if (in != (img->getValue(x, y) == 7)) c.fail("pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is " + std::to_string(img->getValue(x, y)) + " and " + (in ? "covered" : "not covered")); }
  c.nontrivial(n > 0 && n < w * h); }

PBT_MAIN({"circle", "radius above half a pixel", circle, 10000, 200000}, {"ellipse", "area of more than a pixel or so", ellipse, 40000, 800000}, {"transformed", "every case", transformed, 10000, 200000}, {"paint", "some but not all pixels are covered", paint, 80000, 1500000})
