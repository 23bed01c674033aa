// World <-> engine conversions: round trip, range, monotony, derivative; the manager's vectors and covariance conversion.
// SRCS: ModelFitting/src/lib/Parameters/BasicParameter.cpp ModelFitting/src/lib/Parameters/EngineParameter.cpp ModelFitting/src/lib/Parameters/NeutralConverter.cpp ModelFitting/src/lib/Parameters/NormalizedConverter.cpp ModelFitting/src/lib/Parameters/SigmoidConverter.cpp ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp ModelFitting/src/lib/Engine/EngineParameterManager.cpp
// SCALE: 6
#include "pbt.h"
#include <memory>
#include <list>
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
#include "ModelFitting/Engine/EngineParameterManager.h"
using namespace pbt;
using namespace ModelFitting;

struct Conv { std::unique_ptr<CoordinateConverter> k; int kind; double lo, hi, f = 1; };
static Conv gen(Case& c) {
  Conv v; v.kind = int(c.s.draw(3)); v.lo = -INFINITY; v.hi = INFINITY;
  switch (v.kind) {
  case 0: v.k.reset(new NeutralConverter); c.note() << "neutral"; break;
  case 1: v.f = c.s.logreal(1e-6, 1e6) * (c.s.coin(30) ? -1 : 1); v.k.reset(new NormalizedConverter(v.f)); c.note() << "normalized by " << v.f; break;
  case 2: v.lo = c.s.coin() ? double(c.s.range(-100, 100)) : c.s.uniform(-1e3, 1e3); v.hi = v.lo + c.s.logreal(1e-3, 1e4); v.k.reset(new SigmoidConverter(v.lo, v.hi)); c.note() << "sigmoid [" << v.lo << "," << v.hi << "]"; break;
  default: v.lo = c.s.logreal(1e-6, 1e4); v.hi = v.lo * c.s.logreal(1.01, 1e8); v.k.reset(new ExpSigmoidConverter(v.lo, v.hi)); c.note() << "exp-sigmoid [" << v.lo << "," << v.hi << "]";
  }
  return v;
}
// a world value inside of the range, not so close to an end that the engine value looks like a constant
static double inside(Case& c, const Conv& v, double margin = 1e-3) {
  if (v.kind < 2) return c.s.coin(70) ? c.s.real(-1000, 1000) : c.s.logreal(1e-9, 1e9);
  double t = margin + (1 - 2 * margin) * c.s.unit(); return v.kind == 2 ? v.lo + t * (v.hi - v.lo) : v.lo * std::pow(v.hi / v.lo, t);
}
static void convert(Case& c) {
  auto v = gen(c); double w = inside(c, v); c.note() << " at " << w; c.nontrivial(v.kind > 0); c.label(v.kind == 0 ? "neutral" : v.kind == 1 ? "normalized" : v.kind == 2 ? "sigmoid" : "exp-sigmoid");
  double e = v.k->worldToEngine(w); c.check(std::isfinite(e), "engine value of a value inside of the range is not finite");
  c.close(v.k->engineToWorld(e), w, 1e-9, v.kind == 2 ? 1e-9 * (std::fabs(v.lo) + std::fabs(v.hi)) : 0, "world -> engine -> world");
  double e2 = c.s.uniform(-20, 20) * (v.kind == 1 ? 1 : 1), w2 = v.k->engineToWorld(e2);
  if (v.kind >= 2) { c.check(w2 >= v.lo - 1e-12 * (std::fabs(v.lo) + std::fabs(v.hi)) && w2 <= v.hi * (1 + 1e-12) + 1e-12 * (std::fabs(v.lo) + std::fabs(v.hi)), "an engine value maps outside of the range: " + std::to_string(w2));
    // any engine value, however large, stays inside
    double far = c.s.coin() ? c.s.logreal(1, 1e300) : -c.s.logreal(1, 1e300), wf = v.k->engineToWorld(far); c.check(wf >= v.lo - 1e-12 * (std::fabs(v.lo) + std::fabs(v.hi)) && wf <= v.hi + 1e-12 * (std::fabs(v.lo) + std::fabs(v.hi)), "a far engine value maps outside of the range");
    // the ends of the range and beyond have finite engine values that map back to the end
    double span = 1e-9 * (std::fabs(v.lo) + std::fabs(v.hi)); double past = c.s.pick({0.0, 0.0, 1.0, 1e6});
    for (bool top : {false, true}) { double x = top ? v.hi + past : v.lo - past, ee = v.k->worldToEngine(x); c.check(std::isfinite(ee), "engine value at the end of the range is not finite"); c.close(v.k->engineToWorld(ee), top ? v.hi : v.lo, 1e-9, span, "the end of the range comes back"); } }
  if (e2 > -18 && e2 < 18 && v.kind < 3 ) { double back = v.k->worldToEngine(w2); double tol = v.kind == 2 ? 1e-6 * std::exp(std::fabs(e2)) * (1 + (std::fabs(v.lo) + std::fabs(v.hi)) / (v.hi - v.lo)) * 1e-7 : 1e-9; c.close(back, e2, 1e-9, tol + 1e-9, "engine -> world -> engine"); }
  // increasing (decreasing for a negative norm), and the derivative is that of the map
  double d = 1e-4 * std::max(1.0, std::fabs(e)), a = v.k->engineToWorld(e - d), b = v.k->engineToWorld(e + d); c.check(v.f < 0 ? a > b : a < b, "the conversion is not monotonic");
  double num = (b - a) / (2 * d), an = v.k->getEngineToWorldDerivative(w); double mag = std::fabs(b) + std::fabs(a); c.close(an, num, 1e-4 + (v.kind == 3 ? 30 * d * d * std::pow(std::log(v.hi / v.lo) + 1, 2) : 30 * d * d), 1e-13 * mag / d, "derivative of world with respect to engine value");
}
static void parameter(Case& c) {
  auto v = gen(c); double w = inside(c, v); auto k = v.k.get(); EngineParameter p(w, std::move(v.k)); int n = int(c.s.range(1, 8)); c.nontrivial(n > 1);
  c.eq(p.getValue(), w, "initial value"); c.eq(p.getEngineValue(), k->worldToEngine(w), "initial engine value");
  for (int i = 0; i < n; ++i) {
    if (c.s.coin()) { double x = inside(c, v); p.setValue(x); c.eq(p.getValue(), x, "value as set"); c.eq(p.getEngineValue(), k->worldToEngine(x), "engine value of the value set"); }
    else { double x = c.s.uniform(-10, 10); p.setEngineValue(x); c.eq(p.getEngineValue(), x, "engine value as set"); c.eq(p.getValue(), k->engineToWorld(x), "value of the engine value set"); }
    c.eq(p.getEngineToWorldDerivative(), k->getEngineToWorldDerivative(p.getValue()), "derivative at the current value");
  }
}
static void manager(Case& c) {
  int n = int(c.s.range(0, 7)); EngineParameterManager m; std::vector<std::shared_ptr<EngineParameter>> p; std::vector<CoordinateConverter*> k;
  for (int i = 0; i < n; ++i) { auto v = gen(c); double w = inside(c, v); k.push_back(v.k.get()); p.push_back(std::make_shared<EngineParameter>(w, std::move(v.k))); m.registerParameter(p.back()); c.note() << " "; }
  c.nontrivial(n > 1); c.eq(m.numberOfParameters(), size_t(n), "number of parameters");
  std::vector<double> e(n + 1, -77); m.getEngineValues(e.begin()); for (int i = 0; i < n; ++i) c.eq(e[i], p[i]->getEngineValue(), "engine value in order"); c.eq(e[n], -77.0, "one value too many");
  std::list<double> set; for (int i = 0; i < n; ++i) set.push_back(c.s.uniform(-3, 3)); m.updateEngineValues(set.begin()); auto it = set.begin(); for (int i = 0; i < n; ++i, ++it) { c.eq(p[i]->getEngineValue(), *it, "engine value " + std::to_string(i) + " after the update"); c.eq(p[i]->getValue(), k[i]->engineToWorld(*it), "world value after the update"); }
  std::vector<double> cov(size_t(n) * n); bool sym = c.s.coin(80); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) cov[i * n + j] = sym && j < i ? cov[j * n + i] : c.s.real(-4, 4);
  auto w = m.convertCovarianceMatrixToWorldSpace(cov); c.eq(w.size(), cov.size(), "size of the converted matrix");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double d = k[i]->getEngineToWorldDerivative(p[i]->getValue()) * k[j]->getEngineToWorldDerivative(p[j]->getValue()); c.close(w[i * n + j], cov[i * n + j] * d, 1e-10, 1e-300, "converted covariance of " + std::to_string(i) + " and " + std::to_string(j)); }
}
static void badRange(Case& c) { // a range that is none is refused
  double a = c.s.real(-10, 10), b = c.s.real(-10, 10); c.note() << a << "," << b; c.nontrivial(a != b); bool t1 = false, t2 = false; try { SigmoidConverter k(a, b); } catch (...) { t1 = true; } try { ExpSigmoidConverter k(a, b); } catch (...) { t2 = true; }
  c.eq(t1, a > b, "linear range refused"); c.eq(t2, a > b || a <= 0, "exponential range refused"); }
PBT_MAIN({"conversion", "not the identity", convert, 400000, 6000000}, {"parameter", "more than one change", parameter, 150000, 2000000}, {"manager", "more than one parameter", manager, 100000, 1500000}, {"bad_range", "two different ends", badRange, 30000, 300000})
