// Residuals: every block appears once, in order, as the comparator of data, model and weight says; comparators are odd, monotonic and equal to the plain difference for small values.
// SRCS: ModelFitting/src/lib/Engine/ResidualEstimator.cpp ModelFitting/src/lib/Engine/WorldValueResidual.cpp ModelFitting/src/lib/Engine/EngineValueResidual.cpp ModelFitting/src/lib/Parameters/BasicParameter.cpp ModelFitting/src/lib/Parameters/EngineParameter.cpp ModelFitting/src/lib/Parameters/NeutralConverter.cpp
// SCALE: 6
#include "pbt.h"
#include <deque>
#include <memory>
#include "ModelFitting/Engine/ResidualEstimator.h"
#include "ModelFitting/Engine/DataVsModelResiduals.h"
#include "ModelFitting/Engine/ChiSquareComparator.h"
#include "ModelFitting/Engine/LogChiSquareComparator.h"
#include "ModelFitting/Engine/AsinhChiSquareComparator.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
#include "ModelFitting/Engine/EngineValueResidual.h"
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
using namespace pbt;
using namespace ModelFitting;

static double ref(int kind, double r, double m, double w, double u0) {
  double d = w * (r - m); if (kind == 0) return d; double a = std::fabs(d) / u0, v = kind == 1 ? u0 * std::log1p(a) : u0 * std::asinh(a); return d < 0 ? -v : v; }
static double call(int kind, double r, double m, double w, double u0) {
  if (kind == 0) return ChiSquareComparator()(r, m, w); if (kind == 1) return LogChiSquareComparator(u0)(r, m, w); return AsinhChiSquareComparator(u0)(r, m, w); }
static void comparators(Case& c) {
  int kind = int(c.s.draw(2)); double u0 = c.s.logreal(0.1, 100), w = c.s.coin(10) ? 0 : c.s.logreal(1e-3, 1e3), r = c.s.coin() ? c.s.real(-1e3, 1e3) : c.s.uniform(-1, 1), m = c.s.coin(10) ? r : c.s.coin() ? c.s.real(-1e3, 1e3) : r + c.s.uniform(-0.01, 0.01);
  c.note() << "kind " << kind << " u0 " << u0 << " w " << w << " " << r << " vs " << m; c.nontrivial(r != m && w > 0); c.label("kind " + std::to_string(kind));
  double v = call(kind, r, m, w, u0); double tol = kind == 2 ? 2e-6 : 1e-12; c.close(v, ref(kind, r, m, w, u0), tol, tol * 1e-6 + (kind == 2 ? 1e-7 * std::fabs(w * (r - m)) : 1e-13), "residual");
  c.close(call(kind, m, r, w, u0), -v, tol, 1e-300, "swapping data and model does not change the sign only"); double m2 = m - c.s.logreal(1e-2, 1e3), v2 = call(kind, r, m2, w, u0); c.check(v2 >= v, "a larger difference gives a smaller residual"); if (kind == 2 && w > 0) c.check(std::fabs(v) <= std::fabs(w * (r - m)) * (1 + 1e-6), "a damped residual exceeds the plain one");
  double dv = ref(kind, r, m, w, u0); if (kind > 0 && std::fabs(dv) < 1e-3 * u0) c.close(v, w * (r - m), 2e-3, 1e-12, "small residual"); 
  if (kind == 1) c.close(LogChiSquareComparator()(r, m, w), ref(1, r, m, w, 10), 1e-12, 1e-13, "default soft threshold"); if (kind == 2) c.close(AsinhChiSquareComparator()(r, m, w), ref(2, r, m, w, 10), tol, 1e-7 * std::fabs(w * (r - m)) + 1e-12, "default soft threshold");
}
struct Block : ResidualBlockProvider { std::vector<double> v; size_t numberOfResiduals() const override { return v.size(); } void populateResidualBlock(double* o) override { for (double x : v) *o++ = x; } };
static void estimator(Case& c) {
  ResidualEstimator e; std::vector<double> want; int blocks = int(c.s.range(0, 6)); bool uneven = false; size_t last = 0; auto mp = std::make_shared<ManualParameter>(c.s.real(-5, 5)); EngineParameter ep(c.s.real(-5, 5), std::unique_ptr<CoordinateConverter>(new NeutralConverter)); std::vector<std::function<void(std::vector<double>&)>> expect; 
  for (int b = 0; b < blocks; ++b) {
    size_t n = size_t(c.s.range(0, 5)); uneven |= b && n != last; last = n; c.note() << " " << n;
    switch (c.s.draw(3)) {
    case 0: { auto p = std::unique_ptr<Block>(new Block); for (size_t i = 0; i < n; ++i) p->v.push_back(c.s.real(-9, 9)); auto v = p->v; expect.push_back([v](std::vector<double>& o) { o.insert(o.end(), v.begin(), v.end()); }); e.registerBlockProvider(std::move(p)); break; }
    case 1: { std::vector<double> d, m, w; for (size_t i = 0; i < n; ++i) { d.push_back(c.s.real(-9, 9)); m.push_back(c.s.real(-9, 9)); w.push_back(c.s.real(0, 3)); } int kind = int(c.s.draw(1)); 
      expect.push_back([=](std::vector<double>& o) { for (size_t i = 0; i < d.size(); ++i) o.push_back(ref(kind, d[i], m[i], w[i], 10)); });
      if (kind == 0) { if (c.s.coin()) { std::deque<double> md(m.begin(), m.end()); e.registerBlockProvider(createDataVsModelResiduals(std::move(d), std::move(md), std::move(w), ChiSquareComparator())); } else e.registerBlockProvider(createDataVsModelResiduals(std::vector<double>(d), std::vector<double>(m), std::vector<double>(w), ChiSquareComparator())); }
      else e.registerBlockProvider(createDataVsModelResiduals(std::vector<double>(d), std::vector<double>(m), std::vector<double>(w), LogChiSquareComparator())); break; }
    case 2: { double x = c.s.real(-5, 5), w = c.s.pick({1.0, 0.5, 3.0}); e.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new WorldValueResidual(mp, x, w))); expect.push_back([=](std::vector<double>& o) { o.push_back(w * (mp->getValue() - x)); }); break; }
    default: { double x = c.s.real(-5, 5), w = c.s.pick({1.0, 0.5, 3.0}); e.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new EngineValueResidual(ep, x, w))); expect.push_back([=, &ep](std::vector<double>& o) { o.push_back(w * (x - ep.getEngineValue())); }); }
    } }
  for (int round = 0; round < 2; ++round) {
    if (round) { mp->setValue(c.s.real(-5, 5)); ep.setEngineValue(c.s.real(-5, 5)); }
    want.clear(); for (auto& f : expect) f(want); c.eq(e.numberOfResiduals(), want.size(), "number of residuals");
    std::vector<double> a(want.size() + 1, -777), b(a); e.populateResiduals(a.data()); if (!want.empty()) e.populateResiduals(b.begin()); std::deque<double> d(want.size(), 0); e.populateResiduals(d.begin());
    for (size_t i = 0; i < want.size(); ++i) { c.close(std::fabs(a[i]), std::fabs(want[i]), 1e-12, 1e-12, "residual " + std::to_string(i)); c.eq(b[i], a[i], "residual through the vector iterator"); c.eq(d[i], a[i], "residual through another iterator"); } c.eq(a[want.size()], -777.0, "wrote past the end"); }
  c.nontrivial(blocks > 1 && !want.empty()); c.label("blocks of different size", uneven);
}
static void sizes(Case& c) { // data, model and weight have to have one size
  size_t a = size_t(c.s.range(0, 4)), b = c.s.coin() ? a : size_t(c.s.range(0, 4)), w = c.s.coin() ? a : size_t(c.s.range(0, 4)); bool threw = false; c.note() << a << "," << b << "," << w; c.nontrivial(a != b || a != w); try { createDataVsModelResiduals(std::vector<double>(a), std::vector<double>(b), std::vector<double>(w), ChiSquareComparator()); } catch (const std::exception&) { threw = true; } c.eq(threw, a != b || a != w, "sizes refused"); }
PBT_MAIN({"comparators", "data and model differ and the weight is not zero", comparators, 400000, 5000000}, {"estimator", "more than one block with residuals", estimator, 120000, 2000000}, {"sizes", "not all the same", sizes, 20000, 100000})
