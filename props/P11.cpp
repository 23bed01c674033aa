// Least-squares engine: the fitted parameters are the minimum, the reported errors are those of the linearised problem, and the parameters are left at the solution.
// SRCS: ModelFitting/src/lib/Engine/GSLEngine.cpp ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp ModelFitting/src/lib/Engine/ResidualEstimator.cpp ModelFitting/src/lib/Engine/EngineParameterManager.cpp ModelFitting/src/lib/Engine/WorldValueResidual.cpp ModelFitting/src/lib/Parameters/BasicParameter.cpp ModelFitting/src/lib/Parameters/EngineParameter.cpp ModelFitting/src/lib/Parameters/NeutralConverter.cpp ModelFitting/src/lib/Parameters/NormalizedConverter.cpp ModelFitting/src/lib/Parameters/SigmoidConverter.cpp ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
// SCALE: 8
#include "pbt.h"
#include <memory>
#include <thread>
#include "ModelFitting/Engine/GSLEngine.h"
#include "ModelFitting/Engine/LeastSquareEngineManager.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
using namespace pbt;
using namespace ModelFitting;

struct Fn : ResidualBlockProvider { size_t n; std::function<double(size_t)> f; Fn(size_t n, std::function<double(size_t)> f) : n(n), f(f) {} size_t numberOfResiduals() const override { return n; } void populateResidualBlock(double* o) override { for (size_t i = 0; i < n; ++i) o[i] = f(i); } };
static bool solve(std::vector<std::vector<double>> a, std::vector<double> b, std::vector<double>& x, std::vector<std::vector<double>>* inv = nullptr) { // Gauss-Jordan with pivoting
  size_t n = b.size(); std::vector<std::vector<double>> m(n, std::vector<double>(2 * n + 1, 0)); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) m[i][j] = a[i][j]; m[i][n + i] = 1; m[i][2 * n] = b[i]; }
  for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(m[i][k]) > std::fabs(m[p][k])) p = i; if (std::fabs(m[p][k]) < 1e-9) return false; std::swap(m[p], m[k]); double d = m[k][k]; for (auto& v : m[k]) v /= d; for (size_t i = 0; i < n; ++i) if (i != k) { double f = m[i][k]; for (size_t j = 0; j < m[i].size(); ++j) m[i][j] -= f * m[k][j]; } }
  x.resize(n); for (size_t i = 0; i < n; ++i) x[i] = m[i][2 * n]; if (inv) { inv->assign(n, std::vector<double>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) (*inv)[i][j] = m[i][n + j]; } return true; }
static double cond(const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& inv) { double x = 0, y = 0; for (auto& r : a) for (double v : r) x = std::max(x, std::fabs(v)); for (auto& r : inv) for (double v : r) y = std::max(y, std::fabs(v)); return x * y; }

// Linear models: the answer is the solution of the normal equations, the sigmas their inverse scaled by the reduced chi square
struct Problem { std::vector<std::vector<double>> A; std::vector<double> b, w, x; std::vector<std::vector<double>> inv; double chi = 0; size_t n, p; };
static bool genLinear(Case& c, Problem& q) {
  q.p = size_t(c.s.range(1, 5)); q.n = q.p + size_t(c.s.skewed(1, 25)); bool noise = c.s.coin(70); std::vector<double> truth; for (size_t j = 0; j < q.p; ++j) truth.push_back(c.s.uniform(-6, 6));
  for (size_t i = 0; i < q.n; ++i) { std::vector<double> row; double y = 0; for (size_t j = 0; j < q.p; ++j) { row.push_back(c.s.uniform(-2, 2)); y += row[j] * truth[j]; } q.A.push_back(row); q.b.push_back(y + (noise ? c.s.normal() : 0)); q.w.push_back(c.s.pick({1.0, 1.0, 0.5, 2.0})); }
  std::vector<std::vector<double>> N(q.p, std::vector<double>(q.p, 0)); std::vector<double> r(q.p, 0); for (size_t i = 0; i < q.n; ++i) for (size_t j = 0; j < q.p; ++j) { r[j] += q.w[i] * q.w[i] * q.A[i][j] * q.b[i]; for (size_t k = 0; k < q.p; ++k) N[j][k] += q.w[i] * q.w[i] * q.A[i][j] * q.A[i][k]; }
  if (!solve(N, r, q.x, &q.inv) || cond(N, q.inv) > 300) return false;
  for (size_t i = 0; i < q.n; ++i) { double d = -q.b[i]; for (size_t j = 0; j < q.p; ++j) d += q.A[i][j] * q.x[j]; q.chi += q.w[i] * q.w[i] * d * d; } return true; }
static LeastSquareSummary run(Problem& q, const std::vector<std::shared_ptr<EngineParameter>>& p, const std::string& name, size_t split) {
  EngineParameterManager m; for (auto& x : p) m.registerParameter(x); ResidualEstimator e; auto f = [&q, &p](size_t i) { double d = -q.b[i]; for (size_t j = 0; j < q.p; ++j) d += q.A[i][j] * p[j]->getValue(); return q.w[i] * d; };
  split = std::min(split, q.n); e.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new Fn(split, f))); e.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new Fn(q.n - split, [f, split](size_t i) { return f(i + split); })));
  return LeastSquareEngineManager::create(name)->solveProblem(m, e); }
static void linear(Case& c) {
  Problem q; if (!genLinear(c, q)) c.discard(); std::vector<std::shared_ptr<EngineParameter>> p; bool bounded = false;
  for (size_t j = 0; j < q.p; ++j) { std::unique_ptr<CoordinateConverter> k; double start = c.s.uniform(-6, 6); switch (c.s.draw(3)) { case 0: k.reset(new NeutralConverter); break; case 1: k.reset(new NormalizedConverter(c.s.pick({2.0, 0.5, 10.0}))); break; case 2: { double half = std::fabs(q.x[j]) + 4 + c.s.uniform(0, 10); half = std::max(half, 8.0); k.reset(new SigmoidConverter(-half, half)); bounded = true; break; } default: k.reset(new NeutralConverter); } if (c.s.coin(20)) start = 0; p.push_back(std::make_shared<EngineParameter>(start, std::move(k))); }
  c.note() << q.n << " residuals, " << q.p << " parameters, chi2 " << q.chi; c.nontrivial(q.p > 1); c.label("bounded", bounded); c.label("noisy", q.chi > 1e-9);
  auto s = run(q, p, c.s.pick({"gsl", "GSL", "Gsl"}), size_t(c.s.draw(q.n))); if (s.status_flag != LeastSquareSummary::SUCCESS && (bounded || q.chi < 1e-9)) { c.label("bounded, not converged"); return; } c.check(s.status_flag == LeastSquareSummary::SUCCESS, "the fit did not converge");
  double chi = 0; for (size_t i = 0; i < q.n; ++i) { double d = -q.b[i]; for (size_t j = 0; j < q.p; ++j) d += q.A[i][j] * p[j]->getValue(); chi += q.w[i] * q.w[i] * d * d; }
  double sig2 = q.chi / (q.n - q.p); 
  for (size_t j = 0; j < q.p; ++j) c.close(p[j]->getValue(), q.x[j], 2e-6, 2e-6 * (1 + std::sqrt(sig2)), "fitted parameter " + std::to_string(j) + " of " + std::to_string(q.p));
  c.eq(s.parameter_sigmas.size(), q.p, "number of errors"); if (sig2 > 1e-6) for (size_t j = 0; j < q.p; ++j) c.close(s.parameter_sigmas[j], std::sqrt(q.inv[j][j] * sig2), 2e-2, 1e-6, "error of parameter " + std::to_string(j));
  auto info = boost::any_cast<std::array<double, 10>>(s.underlying_framework_info); c.close(info[1], q.chi, 1e-6, 1e-9, "final sum of squares"); c.check(info[1] <= info[0] * (1 + 1e-12) + 1e-12, "the fit made it worse"); if (s.status_flag == LeastSquareSummary::SUCCESS) c.check(info[6] == 1 || info[6] == 2, "reason reported for a fit that converged: " + std::to_string(info[6])); c.eq(info[5], double(s.iteration_no), "iterations reported");
  for (size_t j = 0; j < q.p; ++j) { double v = p[j]->getValue(); p[j]->setEngineValue(p[j]->getEngineValue()); c.close(p[j]->getValue(), v, 1e-12, 1e-12, "world and engine value of a fitted parameter belong together"); }
}
// A Gaussian profile with non-linear parameters, with exact or noisy data and different starts
static void nonLinear(Case& c) {
  double amp = c.s.uniform(2, 50), mu = c.s.uniform(-2, 2), sg = c.s.uniform(0.8, 3), bg = c.s.uniform(-3, 3); int n = int(c.s.range(15, 40)); std::vector<double> xs, ys; for (int i = 0; i < n; ++i) { double x = -7 + 14.0 * i / (n - 1); xs.push_back(x); ys.push_back(bg + amp * std::exp(-(x - mu) * (x - mu) / (2 * sg * sg))); }
  auto pa = std::make_shared<EngineParameter>(amp * c.s.uniform(0.6, 1.6), std::unique_ptr<CoordinateConverter>(new ExpSigmoidConverter(0.01, 1000))), pm = std::make_shared<EngineParameter>(mu + c.s.uniform(-0.7, 0.7), std::unique_ptr<CoordinateConverter>(new SigmoidConverter(-8, 8))), ps = std::make_shared<EngineParameter>(sg * c.s.uniform(0.75, 1.3), std::unique_ptr<CoordinateConverter>(new ExpSigmoidConverter(0.1, 20))), pb = std::make_shared<EngineParameter>(bg + c.s.uniform(-1, 1), std::unique_ptr<CoordinateConverter>(new NeutralConverter));
  EngineParameterManager m; std::vector<std::shared_ptr<EngineParameter>> order = {pa, pm, ps, pb}; c.s.shuffle(order); for (auto& p : order) m.registerParameter(p); ResidualEstimator e; e.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new Fn(n, [&](size_t i) { double d = xs[i] - pm->getValue(), s = ps->getValue(); return pb->getValue() + pa->getValue() * std::exp(-d * d / (2 * s * s)) - ys[i]; })));
  c.note() << "amp " << amp << " mu " << mu << " sigma " << sg << " bg " << bg; c.nontrivial(); int limit = c.s.coin(35) ? int(c.s.range(1, 7)) : 500; auto chi2 = [&] { double t = 0; for (int i = 0; i < n; ++i) { double d = xs[i] - pm->getValue(), q = ps->getValue(), r = pb->getValue() + pa->getValue() * std::exp(-d * d / (2 * q * q)) - ys[i]; t += r * r; } return t; }; double before = chi2(); GSLEngine g(limit); auto s = g.solveProblem(m, e);
  { auto info = boost::any_cast<std::array<double, 10>>(s.underlying_framework_info); c.close(info[0], before, 1e-9, 1e-12, "sum of squares at the start"); c.close(info[1], chi2(), 1e-9, 1e-12, "sum of squares at the end"); c.check(chi2() <= before * (1 + 1e-12), "the fit made it worse"); c.check(s.iteration_no <= size_t(limit), "more iterations than allowed"); c.eq(info[6] == 3, s.status_flag == LeastSquareSummary::MAX_ITER, "reason and status"); if (s.status_flag == LeastSquareSummary::SUCCESS) c.check(info[6] == 1 || info[6] == 2, "reason of success"); if (s.status_flag == LeastSquareSummary::MAX_ITER) { c.eq(s.iteration_no, size_t(limit), "iterations of a fit that ran out of them"); c.label("out of iterations"); c.check(limit < 500, "the fit did not converge"); return; } } c.check(s.status_flag == LeastSquareSummary::SUCCESS, "the fit did not converge");
  c.close(pa->getValue(), amp, 1e-5, 0, "amplitude"); c.close(pm->getValue(), mu, 1e-5, 1e-5, "position"); c.close(ps->getValue(), sg, 1e-5, 0, "width"); c.close(pb->getValue(), bg, 1e-5, 1e-5, "background"); }
// A prior alone pulls a parameter to its expected value; with data it weighs in as one more measurement
static void prior(Case& c) {
  double x0 = c.s.uniform(-5, 5), w0 = c.s.uniform(0.2, 3), d = c.s.uniform(-5, 5), w = c.s.uniform(0.2, 3); auto p = std::make_shared<EngineParameter>(c.s.uniform(-5, 5), std::unique_ptr<CoordinateConverter>(new NeutralConverter)); EngineParameterManager m; m.registerParameter(p); ResidualEstimator e; e.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new WorldValueResidual(p, x0, w0))); e.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new Fn(1, [&](size_t) { return w * (d - p->getValue()); })));
  c.nontrivial(); GSLEngine().solveProblem(m, e); c.close(p->getValue(), (w0 * w0 * x0 + w * w * d) / (w0 * w0 + w * w), 1e-5, 1e-5, "weighted mean of prior and datum"); }
// Fits in several threads give what they give alone
static void threads(Case& c) {
  size_t n = size_t(c.s.range(2, 4)); std::vector<Problem> q(n); for (auto& x : q) if (!genLinear(c, x)) c.discard(); std::vector<std::vector<double>> got(n); std::vector<std::thread> t; c.nontrivial();
  for (size_t i = 0; i < n; ++i) t.emplace_back([&, i] { std::vector<std::shared_ptr<EngineParameter>> p; for (size_t j = 0; j < q[i].p; ++j) p.push_back(std::make_shared<EngineParameter>(0.5, std::unique_ptr<CoordinateConverter>(new NeutralConverter))); run(q[i], p, "gsl", 3); for (auto& x : p) got[i].push_back(x->getValue()); });
  for (auto& x : t) x.join(); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < q[i].p; ++j) c.close(got[i][j], q[i].x[j], 1e-5, 1e-4, "parameter fitted in thread " + std::to_string(i)); }
// Engines are known by name, whatever the case, and once
static void registry(Case& c) {
  static int serial = 0; std::string name = "eng" + std::to_string(serial++), given = name, other = name; for (auto& x : given) if (c.s.coin(30)) x = char(toupper(x)); for (auto& x : other) if (c.s.coin(30)) x = char(toupper(x)); c.note() << given << " " << other; c.nontrivial(given != other); unsigned seen = 0;
  LeastSquareEngineManager::registerEngine(given, [&seen](unsigned it) { seen = it; return std::make_shared<GSLEngine>(it); }); unsigned it = unsigned(c.s.range(1, 5000)); c.check(LeastSquareEngineManager::create(other, it) != nullptr && seen == it, "the engine registered is created with the iterations given");
  bool again = false; try { LeastSquareEngineManager::registerEngine(other, [](unsigned it) { return std::make_shared<GSLEngine>(it); }); } catch (const std::exception&) { again = true; } c.check(again, "a second engine of the same name (" + other + " after " + given + ") was accepted");
  bool unknown = false; try { LeastSquareEngineManager::create("no" + name); } catch (const std::exception&) { unknown = true; } c.check(unknown, "an unknown engine was created"); auto l = LeastSquareEngineManager::getImplementations(); c.check(std::count(l.begin(), l.end(), name) == 1, "listed once"); c.check(std::count(l.begin(), l.end(), LeastSquareEngineManager::getDefault()) == 1, "the default engine exists"); }
PBT_MAIN({"linear", "more than one parameter", linear, 40000, 500000}, {"non_linear", "every case", nonLinear, 8000, 100000}, {"prior", "every case", prior, 20000, 200000}, {"threads", "every case", threads, 1500, 20000, 60, true}, {"registry", "the names differ in case", registry, 4000, 20000})
