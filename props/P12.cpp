// Model components: value = profile of the inversely mapped position, sharp samples integrate the same profile over the sharp region, through any chain of scaling, rotation and transformation.
// SRCS: ModelFitting/src/lib/Models/RotatedModelComponent.cpp ModelFitting/src/lib/Models/ScaledModelComponent.cpp ModelFitting/src/lib/Models/TransformModelComponent.cpp ModelFitting/src/lib/Models/SersicProfile.cpp ModelFitting/src/lib/Models/FlattenedMoffatComponent.cpp ModelFitting/src/lib/Models/AutoSharp.cpp ModelFitting/src/lib/Models/OldSharp.cpp ModelFitting/src/lib/Models/OnlySmooth.cpp ModelFitting/src/lib/Parameters/BasicParameter.cpp
// SCALE: 4
#include "pbt.h"
#include <memory>
#include "ModelFitting/Models/CircularlySymmetricModelComponent.h"
#include "ModelFitting/Models/ScaledModelComponent.h"
#include "ModelFitting/Models/RotatedModelComponent.h"
#include "ModelFitting/Models/TransformModelComponent.h"
#include "ModelFitting/Models/FlattenedMoffatComponent.h"
#include "ModelFitting/Models/AutoSharp.h"
#include "ModelFitting/Models/OldSharp.h"
#include "ModelFitting/Models/OnlySmooth.h"
#include "ModelFitting/Parameters/ManualParameter.h"
using namespace pbt;
using namespace ModelFitting;
using Par = std::shared_ptr<ManualParameter>;
static Par par(double v) { return std::make_shared<ManualParameter>(v); }

// One decorator: position in the component = A * position in the decorated one; value = decorated value / valueDiv
struct Deco { int kind; Par a, b; double t[4]; 
  void mat(double m[4]) const { // maps (x, y) of the decorated component outwards
    if (kind == 0) { m[0] = a->getValue(); m[1] = 0; m[2] = 0; m[3] = b->getValue(); }
    else if (kind == 1) { double c = std::cos(a->getValue()), s = std::sin(a->getValue()); m[0] = c; m[1] = s; m[2] = -s; m[3] = c; }
    else { m[0] = t[0]; m[1] = t[2]; m[2] = t[1]; m[3] = t[3]; } }
};
static double det(const double m[4]) { return m[0] * m[3] - m[1] * m[2]; }
struct Leaf { int kind = 0; Par i0, n, k, mink, flat; 
  double at(double x, double y) const {
    if (kind == 0) return i0->getValue() * std::exp(-k->getValue() * std::pow(std::hypot(x, y), 1 / n->getValue()));
    double p = mink->getValue(), z = std::pow(std::pow(std::fabs(x), p) + std::pow(std::fabs(y), p), 1 / p) - flat->getValue(); return z < 0 ? i0->getValue() : i0->getValue() * std::pow(1 + z * z, -n->getValue()); } };
struct Chain { Leaf leaf; std::vector<Deco> decos; // innermost first
  void full(double M[4], double& div) const { M[0] = M[3] = 1; M[1] = M[2] = 0; div = 1; for (auto& d : decos) { double m[4]; d.mat(m); double r[4] = {m[0] * M[0] + m[1] * M[2], m[0] * M[1] + m[1] * M[3], m[2] * M[0] + m[3] * M[2], m[2] * M[1] + m[3] * M[3]}; std::copy(r, r + 4, M); if (d.kind == 2) div *= std::fabs(det(m)); } }
  void inner(double x, double y, double& u, double& v) const { double M[4], dv; full(M, dv); double D = det(M); u = (M[3] * x - M[1] * y) / D; v = (-M[2] * x + M[0] * y) / D; }
  double at(double x, double y) const { double M[4], dv; full(M, dv); double u, v; inner(x, y, u, v); return leaf.at(u, v) / dv; } };
static Leaf genLeaf(Case& c, bool sersic) {
  Leaf l; l.kind = sersic ? 0 : 1; l.i0 = par(c.s.logreal(1e-2, 1e3)); l.n = par(sersic ? c.s.real(0.4, 4.5) : c.s.real(0.6, 5)); l.k = par(c.s.logreal(0.2, 5)); l.mink = par(c.s.real(1, 4)); l.flat = par(c.s.coin() ? 0 : c.s.real(0, 3));
  if (sersic) c.note() << "sersic i0 " << l.i0->getValue() << " n " << l.n->getValue() << " k " << l.k->getValue(); else c.note() << "moffat " << l.i0->getValue() << " index " << l.n->getValue() << " minkowski " << l.mink->getValue() << " flat " << l.flat->getValue(); return l; }
static Deco genDeco(Case& c) { Deco d; d.kind = int(c.s.draw(2));
  if (d.kind == 0) { d.a = par(c.s.logreal(0.3, 3)); d.b = par(c.s.coin(20) ? d.a->getValue() : c.s.logreal(0.3, 3)); c.note() << " scaled " << d.a->getValue() << "," << d.b->getValue(); }
  else if (d.kind == 1) { d.a = par(c.s.coin(20) ? 0 : c.s.real(-4, 4)); c.note() << " rotated " << d.a->getValue(); }
  else { for (int i = 0; i < 4; ++i) d.t[i] = c.s.coin(15) ? (i % 3 ? 0 : 1) : c.s.real(-2, 2); if (std::fabs(det(d.t)) < 0.2) { d.t[0] = d.t[0] < 0 ? -1 : 1; d.t[3] = d.t[0] * 2; d.t[1] /= 2; d.t[2] /= 2; if (std::fabs(det(d.t)) < 0.2) d.t[1] = 0; } c.note() << " transformed " << d.t[0] << "," << d.t[1] << "," << d.t[2] << "," << d.t[3]; }
  return d; }
static std::unique_ptr<ModelComponent> wrap(Case& c, std::unique_ptr<ModelComponent> m, const Deco& d) { // sometimes the decorator is moved after it was made
  bool mv = c.s.coin(25); if (mv) c.label("moved");
  if (d.kind == 0) { std::unique_ptr<ScaledModelComponent> s(new ScaledModelComponent(std::move(m), d.a, d.b)); if (mv) s.reset(new ScaledModelComponent(std::move(*std::unique_ptr<ScaledModelComponent>(std::move(s))))); return s; }
  if (d.kind == 1) { std::unique_ptr<RotatedModelComponent> s(new RotatedModelComponent(std::move(m), d.a)); if (mv) { std::unique_ptr<RotatedModelComponent> old(std::move(s)); s.reset(new RotatedModelComponent(std::move(*old))); } return s; }
  auto t = std::make_tuple(d.t[0], d.t[1], d.t[2], d.t[3]); std::unique_ptr<TransformModelComponent> s(new TransformModelComponent(std::move(m), t)); if (mv) { std::unique_ptr<TransformModelComponent> old(std::move(s)); s.reset(new TransformModelComponent(std::move(*old))); } return s; }
static std::unique_ptr<SharpRegionManager> manager(int kind, double pix, double incr, double first) {
  if (kind == 0) return std::unique_ptr<SharpRegionManager>(new OnlySmooth); if (kind == 1) return std::unique_ptr<SharpRegionManager>(new OldSharp(pix, incr, first)); return std::unique_ptr<SharpRegionManager>(new AutoSharp(incr, first)); }

static void values(Case& c) {
  Chain ch; bool sersic = c.s.coin(75); ch.leaf = genLeaf(c, sersic); int depth = int(c.s.range(0, 4)); std::unique_ptr<ModelComponent> m;
  if (sersic) { if (c.s.coin(30)) { SersicProfile p(ch.leaf.i0, ch.leaf.n, ch.leaf.k); m.reset(new SersicModelComponent(manager(int(c.s.draw(2)), 4, 1.122, 1e-4), p)); } else m.reset(new SersicModelComponent(manager(int(c.s.draw(2)), 4, 1.122, 1e-4), ch.leaf.i0, ch.leaf.n, ch.leaf.k)); }
  else m.reset(new FlattenedMoffatComponent(ch.leaf.i0, ch.leaf.n, ch.leaf.mink, ch.leaf.flat));
  for (int i = 0; i < depth; ++i) { ch.decos.push_back(genDeco(c)); m = wrap(c, std::move(m), ch.decos.back()); }
  c.nontrivial(depth > 0); c.label("depth " + std::to_string(depth)); c.label(sersic ? "sersic" : "moffat");
  for (int round = 0; round < 3; ++round) {
    if (round) { // parameters change, values follow
      if (c.s.coin()) ch.leaf.i0->setValue(c.s.logreal(1e-2, 1e3)); for (auto& d : ch.decos) if (d.kind == 0 && c.s.coin()) d.b->setValue(c.s.logreal(0.3, 3)); else if (d.kind == 1 && c.s.coin()) d.a->setValue(c.s.real(-4, 4)); }
    for (int i = 0; i < 6; ++i) { double x = c.s.coin(20) ? 0 : c.s.real(-6, 6), y = c.s.coin(20) ? 0 : c.s.real(-6, 6); double want = ch.at(x, y);
      double u, v; ch.inner(x, y, u, v); if (!sersic && std::fabs(std::pow(std::pow(std::fabs(u), ch.leaf.mink->getValue()) + std::pow(std::fabs(v), ch.leaf.mink->getValue()), 1 / ch.leaf.mink->getValue()) - ch.leaf.flat->getValue()) < 1e-9) continue;
      if (sersic && std::hypot(u, v) < 1e-6 && (x != 0 || y != 0)) continue; // the cusp: rounding of the position decides
      c.close(m->getValue(x, y), want, 1e-7, 1e-300, "value at " + std::to_string(x) + "," + std::to_string(y)); } }
}
static void sharp(Case& c) { // samples of the sharp region integrate the component over that region: flux, centre and second moments
  Chain ch; ch.leaf = genLeaf(c, true); int depth = int(c.s.range(0, 3)); int kind = int(c.s.range(1, 2)); if (c.s.coin(8)) kind = 0; double pix = c.s.real(1, 5), incr = c.s.real(1.03, 1.15), first = c.s.logreal(1e-5, 1e-3);
  if (ch.leaf.n->getValue() > 2.5) ch.leaf.n->setValue(2.5);
  std::unique_ptr<ModelComponent> m(new SersicModelComponent(manager(kind, pix, incr, first), ch.leaf.i0, ch.leaf.n, ch.leaf.k));
  for (int i = 0; i < depth; ++i) { ch.decos.push_back(genDeco(c)); m = wrap(c, std::move(m), ch.decos.back()); }
  double scale = c.s.logreal(0.2, 2), rmax = scale * c.s.real(2, 15); m->updateRasterizationInfo(scale, rmax); c.note() << " manager " << kind << " " << pix << "," << incr << "," << first << " scale " << scale << " rmax " << rmax;
  // the scale and radius the innermost component has to be asked for, according to the decorators
  double sc = scale, rm = rmax; for (int i = depth - 1; i >= 0; --i) { auto& d = ch.decos[size_t(i)]; double f = d.kind == 0 ? std::min(d.a->getValue(), d.b->getValue()) : d.kind == 1 ? 1 : std::min(std::hypot(d.t[0], d.t[1]), std::hypot(d.t[2], d.t[3])); sc /= f; rm /= f; }
  auto ref = manager(kind, pix, incr, first); ref->updateRasterizationInfo(sc, rm, SersicProfile(ch.leaf.i0, ch.leaf.n, ch.leaf.k));
  for (int i = 0; i < 8; ++i) { double x = c.s.real(-8, 8), y = c.s.real(-8, 8), u, v; ch.inner(x, y, u, v); double r = std::hypot(u, v); bool a = ref->insideSharpRegion(r * (1 - 1e-9)), b = ref->insideSharpRegion(r * (1 + 1e-9)); if (a == b) c.eq(m->insideSharpRegion(x, y), a, "inside the sharp region at " + std::to_string(x) + "," + std::to_string(y)); }
  auto samples = m->getSharpSampling(); c.label("manager " + std::to_string(kind)); c.nontrivial(samples.size() > 100 && depth > 0);
  if (kind == 0) { c.check(samples.empty(), "samples without a sharp region"); return; }
  double R = 0, near = 0, nearFlux = 0; { double r1 = 0, r2 = 0; while (ref->insideSharpRegion(r2)) { auto p = ref->nextRadiusAndAngleNo(r1); r2 = p.first; if (p.second < 3) { near = r2; nearFlux += M_PI * (r2 * r2 - r1 * r1) * ch.leaf.i0->getValue(); } r1 = r2; } R = r1; }
  double I0 = 0, I2 = 0; { int N = 4000; for (int i = 0; i < N; ++i) { double t0 = double(i) / N, t1 = double(i + 1) / N, r0 = R * t0 * t0, r1 = R * t1 * t1, r = (r0 + r1) / 2, f = ch.leaf.at(r, 0); I0 += 2 * M_PI * f * r * (r1 - r0); I2 += M_PI * f * r * r * r * (r1 - r0); } }
  double M[4], div; ch.full(M, div); double J = std::fabs(det(M)) / div, s0 = 0, sx = 0, sy = 0, sxx = 0, sxy = 0, syy = 0;
  for (auto& s : samples) { double u, v; ch.inner(std::get<0>(s), std::get<1>(s), u, v); c.check(std::hypot(u, v) <= R * (1 + 1e-9), "a sample outside of the region"); double w = std::get<2>(s) / J; c.check(w >= 0, "a negative sample"); s0 += w; sx += w * u; sy += w * v; sxx += w * u * u; sxy += w * u * v; syy += w * v * v; }
  double e1 = near * nearFlux, e2 = near * near * nearFlux, tol = 0.02;
  c.close(s0, I0, tol, 1e-12, "flux of the sharp samples"); c.close(sx, 0, 0, e1 + 1e-7 * R * I0, "centre of the samples (x)"); c.close(sy, 0, 0, e1 + 1e-7 * R * I0, "centre of the samples (y)");
  c.close(sxx, I2, tol, e2 + 1e-12, "second moment (xx)"); c.close(syy, I2, tol, e2 + 1e-12, "second moment (yy)"); c.close(sxy, 0, 0, e2 + 1e-7 * I2 + 1e-12, "second moment (xy)");
}
static void rings(Case& c) { // rules of the sharp region managers
  int kind = int(c.s.range(0, 2)); double pix = c.s.real(0.5, 6), incr = c.s.real(1.01, 1.3), first = c.s.logreal(1e-5, 1e-2), tol = c.s.logreal(1e-3, 0.3), minsamp = c.s.real(2, 8); double scale = c.s.logreal(0.1, 3), rmax = scale * c.s.real(1, 20);
  double n = c.s.real(0.4, 4), k = c.s.logreal(0.2, 4); auto profile = [n, k](double r) { return std::exp(-k * std::pow(r, 1 / n)); };
  std::unique_ptr<SharpRegionManager> m; if (kind == 0) m.reset(new OnlySmooth); else if (kind == 1) m.reset(new OldSharp(pix, incr, first)); else m.reset(new AutoSharp(incr, first, tol, minsamp));
  m->updateRasterizationInfo(scale, rmax, profile); c.note() << "kind " << kind << " pix " << pix << " incr " << incr << " first " << first << " tolerance " << tol << " sampling " << minsamp << " scale " << scale << " rmax " << rmax << " n " << n << " k " << k; c.label("kind " + std::to_string(kind)); c.nontrivial(kind > 0);
  if (kind == 0) { c.check(!m->insideSharpRegion(0) && !m->insideSharpRegion(rmax), "smooth only"); return; }
  double lo = 0, hi = 1e6; for (int i = 0; i < 100; ++i) { double mid = (lo + hi) / 2; (m->insideSharpRegion(mid) ? lo : hi) = mid; } double R = lo; // the region is a disc: a threshold on the radius
  for (int i = 0; i < 5; ++i) { double r = R * c.s.real(0, 2); if (std::fabs(r - R) > 1e-9 * R) c.eq(m->insideSharpRegion(r), r < R, "the sharp region is a disc"); }
  if (kind == 1) c.close(R, pix * scale, 1e-9, 0, "radius of the sharp region");
  else { c.check(R >= 4 * scale * (1 - 1e-9), "sharp region smaller than four pixels"); c.check(R <= std::max(rmax, 4 * scale) * (1 + 1e-9), "sharp region larger than the image");
    auto err = [&](double r) { double v1 = profile(r), v2 = profile(r + scale / 2), v3 = profile(r + scale); return std::fabs((v2 - (v3 + v1) / 2) / v2); };
    if (profile(R) < 1e-250) return; if (R > 4 * scale * (1 + 1e-9) && R < rmax * (1 - 1e-9)) c.check(err(R - scale) < tol * (1 + 1e-6), "sharp region ends where the profile is not linear across a pixel");
    for (double r = 0; r + scale < R * (1 - 1e-9) && r + scale < rmax; r += scale) if (R > 4 * scale * (1 + 1e-9)) c.check(err(r) >= tol * (1 - 1e-6) , "sharp region reaches farther than needed");
  }
  double r = 0; int steps = 0; while (m->insideSharpRegion(r) && steps < 5000) { auto p = m->nextRadiusAndAngleNo(r); ++steps;
    if (r == 0) c.eq(p.first, first, "first radius"); else { c.check(p.first > r, "radius does not grow"); c.check(p.first <= r * incr * (1 + 1e-12), "radius grows by more than the factor"); if (kind == 2) { c.check(p.first - r <= scale / minsamp * (1 + 1e-9), "ring wider than the largest step"); c.close(p.first, std::min(r * incr, r + scale / minsamp), 1e-12, 0, "next radius"); } else c.close(p.first, r * incr, 1e-12, 0, "next radius"); }
    c.check(p.second >= 1, "no sample in a ring"); if (kind == 1) c.eq(p.second, 72, "samples of a ring"); else if (p.first > scale / 2 * (1 + 1e-12)) { double arc = 2 * M_PI * r / p.second; c.check(arc <= scale / minsamp * (1 + 1e-9), "samples of a ring farther apart than the largest step"); c.check(p.second <= 2 * M_PI * r * minsamp / scale + 1 + 1e-9, "more samples than needed"); } else if (p.first < scale / 2 * (1 - 1e-12)) c.eq(p.second, 1, "samples inside the central pixel");
    r = p.first; }
  c.check(steps < 5000, "the rings do not end");
}
PBT_MAIN({"values", "at least one decorator", values, 60000, 1500000}, {"sharp_samples", "a decorated component with more than 100 samples", sharp, 1500, 40000}, {"rings", "a sharp region", rings, 40000, 800000})
