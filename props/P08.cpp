// Parameter graph: at any point of any history every parameter reads as the function of the current inputs, its observers were told so, and residuals on it follow.
// SRCS: ModelFitting/src/lib/Parameters/BasicParameter.cpp ModelFitting/src/lib/Parameters/EngineParameter.cpp ModelFitting/src/lib/Parameters/NeutralConverter.cpp ModelFitting/src/lib/Parameters/NormalizedConverter.cpp ModelFitting/src/lib/Parameters/SigmoidConverter.cpp ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp ModelFitting/src/lib/Engine/WorldValueResidual.cpp ModelFitting/src/lib/Engine/EngineValueResidual.cpp ModelFitting/src/lib/Models/RotatedModelComponent.cpp
// SCALE: 4
#include "pbt.h"
#include <memory>
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/DependentParameter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
#include "ModelFitting/Engine/EngineValueResidual.h"
#include "ModelFitting/Models/RotatedModelComponent.h"
using namespace pbt;
using namespace ModelFitting;
using Par = std::shared_ptr<BasicParameter>;

static double fn(int kind, const std::vector<double>& v) {
  double s = 0, p = 1; for (size_t i = 0; i < v.size(); ++i) { s += double(i + 1) * v[i]; p *= v[i]; }
  switch (kind) { case 0: return s; case 1: return p + 1; case 2: return s * 0.5 - 3; default: return v[0] >= 0 ? std::sqrt(v[0]) + s : s; }
}
struct Watch { size_t id; std::shared_ptr<std::vector<double>> told; bool live = true; size_t removed_at = 0; };
struct Node {
  enum Kind { Manual, Engine, Dependent } kind; Par p; std::shared_ptr<EngineParameter> e; std::shared_ptr<ManualParameter> m; int f = 0; std::vector<int> in; double want = 0, lo = 0, hi = 0, tol = 0; bool alive = true;
  std::vector<Watch> watches; std::vector<std::pair<std::unique_ptr<WorldValueResidual>, std::pair<double, double>>> wres; std::vector<std::pair<std::unique_ptr<EngineValueResidual>, std::pair<double, double>>> eres;
};
struct Graph {
  std::vector<Node> n;
  double value(int i) const { // what the parameter has to read now, from what was last set
    const Node& x = n[i]; if (x.kind != Node::Dependent) return x.want;
    std::vector<double> v; for (int j : x.in) v.push_back(value(j)); return fn(x.f, v); }
  bool reaches(int from, int to) const { if (from == to) return true; for (int j : n[to].in) if (reaches(from, j)) return true; return false; }
};

static void history(Case& c) {
  Graph g; int steps = int(c.s.skewed(3, 60)), dependents = 0, sets = 0, watched_sets = 0;
  auto pickAlive = [&]() { std::vector<int> a; for (size_t i = 0; i < g.n.size(); ++i) if (g.n[i].alive) a.push_back(int(i)); return c.s.pick(a); };
  auto addRoot = [&] {
    Node x; if (c.s.coin(50)) { x.kind = Node::Manual; x.want = c.s.real(-10, 10); x.m = std::make_shared<ManualParameter>(x.want); x.p = x.m; c.note() << " manual=" << x.want; }
    else { x.kind = Node::Engine; std::unique_ptr<CoordinateConverter> k; x.lo = -1e9; x.hi = 1e9;
      switch (c.s.draw(3)) { case 0: k.reset(new NeutralConverter); break; case 1: k.reset(new NormalizedConverter(c.s.pick({0.5, 4.0, -3.0}))); break;
        case 2: x.lo = -20; x.hi = 20; k.reset(new SigmoidConverter(x.lo, x.hi)); x.tol = 1e-9; break; default: x.lo = 0.5; x.hi = 50; k.reset(new ExpSigmoidConverter(x.lo, x.hi)); x.tol = 1e-9; }
      x.want = c.s.uniform(std::max(-9., x.lo + 0.1), std::min(9., x.hi)); x.e = std::make_shared<EngineParameter>(x.want, std::move(k)); x.p = x.e; c.note() << " engine=" << x.want; }
    g.n.push_back(std::move(x)); };
  addRoot();
  for (int step = 0; step < steps; ++step) {
    switch (c.s.draw(13)) {
    case 0: addRoot(); break;
    case 1: case 2: { // a parameter computed from others
      Node x; x.kind = Node::Dependent; x.f = int(c.s.draw(3)); int k = int(c.s.range(1, 3)); for (int i = 0; i < k; ++i) x.in.push_back(pickAlive()); int f = x.f; 
      auto a = g.n[x.in[0]].p, b = g.n[x.in[k > 1 ? 1 : 0]].p, d = g.n[x.in[k > 2 ? 2 : 0]].p;
      if (k == 1) x.p = createDependentParameter([f](double u) { return fn(f, {u}); }, a); else if (k == 2) x.p = createDependentParameter([f](double u, double v) { return fn(f, {u, v}); }, a, b); else x.p = createDependentParameter([f](double u, double v, double w) { return fn(f, {u, v, w}); }, a, b, d);
      g.n.push_back(std::move(x)); ++dependents; c.note() << " dep" << k; break; }
    case 3: case 4: case 5: case 6: { // change an input
      int i = pickAlive(); Node& x = g.n[i]; if (x.kind == Node::Dependent) break; ++sets;
      std::vector<size_t> before; std::vector<double> old; for (size_t j = 0; j < g.n.size(); ++j) { old.push_back(g.value(int(j))); for (auto& w : g.n[j].watches) before.push_back(w.told->size()); }
      if (x.kind == Node::Manual) { double v = c.s.real(-10, 10); x.m->setValue(v); x.want = v; c.note() << " set" << i << "=" << v; }
      else { double v = c.s.uniform(std::max(-9., x.lo + 0.1), std::min(9., x.hi)); if (c.s.coin()) { x.e->setValue(v); x.want = v; } else { double ev = c.s.uniform(-3, 3); x.e->setEngineValue(ev); c.check(x.e->getEngineValue() == ev, "engine value as set"); x.want = x.e->getValue(); c.check(x.want >= x.lo - 1e-9 && x.want <= x.hi + 1e-9, "world value outside of its range"); } c.note() << " eset" << i; }
      size_t b = 0; for (size_t j = 0; j < g.n.size(); ++j) for (auto& w : g.n[j].watches) { size_t was = before[b++]; if (!w.live) { c.check(w.told->size() == was, "a removed observer was called"); continue; } if (!g.n[j].alive && w.told->size() == was) continue;
        bool dep = g.reaches(i, int(j)); if (dep && w.told->size() == was && g.value(int(j)) == old[j]) continue; if (dep) { ++watched_sets; c.check(w.told->size() > was, "an observer was not told that parameter " + std::to_string(j) + " changed"); c.eq(w.told->back(), g.value(int(j)), "value told to the observer of parameter " + std::to_string(j)); } else c.check(w.told->size() == was, "an observer was told of a change that did not concern it"); }
      break; }
    case 7: { int i = pickAlive(); Watch w; w.told = std::make_shared<std::vector<double>>(); auto t = w.told; w.id = g.n[i].p->addObserver([t](double v) { t->push_back(v); }); g.n[i].watches.push_back(w); c.check(g.n[i].p->isObserved(), "an observed parameter says it is not"); c.note() << " watch" << i; break; }
    case 8: { int i = pickAlive(); for (auto& w : g.n[i].watches) if (w.live) { c.check(g.n[i].p->removeObserver(w.id), "removing an observer that is there"); c.check(!g.n[i].p->removeObserver(w.id), "removing an observer that is gone"); w.live = false; c.note() << " unwatch" << i; break; } break; }
    case 9: { int i = pickAlive(); if (g.n[i].kind != Node::Dependent) break; bool used = false; for (auto& y : g.n) if (y.alive) for (int j : y.in) used |= j == i; if (used) break; // forget a parameter nothing depends on
      g.n[i].wres.clear(); for (auto& w : g.n[i].watches) w.live = false; g.n[i].p.reset(); g.n[i].alive = false; c.note() << " drop" << i; break; }
    case 10: { int i = pickAlive(); double e = c.s.real(-5, 5), w = c.s.pick({1.0, 0.5, 3.0}); if (g.n[i].kind == Node::Engine && c.s.coin()) g.n[i].eres.emplace_back(std::make_unique<EngineValueResidual>(*g.n[i].e, e, w), std::make_pair(e, w)); else g.n[i].wres.emplace_back(std::make_unique<WorldValueResidual>(g.n[i].p, e, w), std::make_pair(e, w)); c.note() << " res" << i; break; }
    case 11: { int i = pickAlive(); if (!g.n[i].wres.empty()) { g.n[i].wres.pop_back(); c.note() << " unres" << i; } break; }
    default: { int i = pickAlive(); c.eq(g.n[i].p->getValue(), g.value(i), "value of parameter " + std::to_string(i)); }
    }
    // residuals are those of the current values
    for (size_t i = 0; i < g.n.size(); ++i) if (g.n[i].alive) {
      for (auto& r : g.n[i].wres) { double v = -1; c.check(r.first->numberOfResiduals() == 1, "one residual"); r.first->populateResidualBlock(&v); c.close(std::fabs(v), std::fabs(r.second.second * (g.value(int(i)) - r.second.first)), 1e-9, 1e-12, "world value residual of parameter " + std::to_string(i)); }
      for (auto& r : g.n[i].eres) { double v = -1; r.first->populateResidualBlock(&v); c.close(std::fabs(v), std::fabs(r.second.second * (g.n[i].e->getEngineValue() - r.second.first)), 1e-9, 1e-12, "engine value residual of parameter " + std::to_string(i)); } }
  }
  for (size_t i = 0; i < g.n.size(); ++i) if (g.n[i].alive) c.eq(g.n[i].p->getValue(), g.value(int(i)), "value of parameter " + std::to_string(i) + " at the end");
  c.nontrivial(dependents > 0 && sets > 0); c.label("observed change", watched_sets > 0); c.label("more than 3 dependents", dependents > 3);
  for (auto& x : g.n) { x.wres.clear(); x.eres.clear(); }
}

// Components that follow an angle keep following it when they are moved, and stop when they are gone
struct Plane : ModelComponent { double getValue(double x, double y) override { return x + 10 * y; } void updateRasterizationInfo(double, double) override {} std::vector<ModelSample> getSharpSampling() override { return {ModelSample(1, 2, 3)}; } bool insideSharpRegion(double x, double) override { return x > 0; } };
static void movedComponent(Case& c) {
  auto angle = std::make_shared<ManualParameter>(c.s.real(-3, 3)); std::vector<std::unique_ptr<RotatedModelComponent>> v; int steps = int(c.s.range(2, 14)); bool moved = false;
  for (int i = 0; i < steps; ++i) {
    int op = int(c.s.draw(4));
    if (op == 0 || v.empty()) { v.emplace_back(new RotatedModelComponent(std::unique_ptr<ModelComponent>(new Plane), angle)); c.note() << " new"; }
    else if (op == 1) { size_t k = c.s.draw(v.size() - 1); v[k].reset(new RotatedModelComponent(std::move(*v[k]))); moved = true; c.note() << " move"; }
    else if (op == 2) { v.erase(v.begin() + c.s.draw(v.size() - 1)); c.note() << " drop"; }
    else { angle->setValue(c.s.real(-3, 3)); c.note() << " angle " << angle->getValue(); }
    double a = angle->getValue(), x = 1.5, y = -0.5; for (auto& r : v) c.close(r->getValue(x, y), (x * std::cos(a) - y * std::sin(a)) + 10 * (x * std::sin(a) + y * std::cos(a)), 1e-9, 1e-9, "value of a rotated component");
  }
  c.nontrivial(moved && !v.empty()); v.clear(); c.check(!angle->isObserved(), "components that are gone still observe the angle");
}
PBT_MAIN({"history", "at least one dependent parameter and one change", history, 120000, 2500000}, {"moved_components", "a component was moved and is in use", movedComponent, 30000, 400000})
