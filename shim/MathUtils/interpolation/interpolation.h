#pragma once
#include <memory>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <cmath>
#include <gsl/gsl_interp.h>
namespace Euclid { namespace MathUtils {
class Function { public: virtual ~Function() = default; virtual double operator()(double) const = 0; virtual std::unique_ptr<Function> clone() const = 0; };
class InterpolationException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
enum class InterpolationType { LINEAR, CUBIC_SPLINE };
namespace detail {
class Interp : public Function {
public:
  Interp(const std::vector<double>& x, const std::vector<double>& y, InterpolationType t, bool ex) : m_x(x), m_y(y), m_t(t), m_ex(ex), m_m(x.size(), 0.) {
    if (x.size() != y.size()) throw InterpolationException("size mismatch");
    for (size_t i = 1; i < x.size(); ++i) if (!(x[i] > x[i-1]) && !(x[i] == x[i-1] && t == InterpolationType::LINEAR)) throw InterpolationException("Only strictly increasing X is allowed");
    size_t n = x.size();
    if (t == InterpolationType::CUBIC_SPLINE && n > 2) { // natural spline: second derivatives
      std::vector<double> a(n), b(n), c(n), d(n);
      for (size_t i = 1; i + 1 < n; ++i) { double h0 = x[i]-x[i-1], h1 = x[i+1]-x[i]; a[i] = h0; b[i] = 2*(h0+h1); c[i] = h1; d[i] = 6*((y[i+1]-y[i])/h1-(y[i]-y[i-1])/h0); }
      for (size_t i = 2; i + 1 < n; ++i) { double w = a[i]/b[i-1]; b[i] -= w*c[i-1]; d[i] -= w*d[i-1]; }
      for (size_t i = n - 2; i >= 1; --i) m_m[i] = (d[i] - (i + 2 < n ? c[i]*m_m[i+1] : 0)) / b[i];
    }
  }
  double operator()(double v) const override {
    size_t n = m_x.size();
    if (n == 0) return 0; 
    if (n == 1) return (m_ex || v == m_x[0]) ? m_y[0] : 0.;
    if ((v < m_x.front() || v > m_x.back()) && !m_ex) return 0.;
    size_t i = std::upper_bound(m_x.begin(), m_x.end(), v) - m_x.begin(); i = std::min(std::max<size_t>(i, 1), n - 1);
    double h = m_x[i]-m_x[i-1]; if (h == 0) return m_y[i];
    double A = (m_x[i]-v)/h, B = (v-m_x[i-1])/h, r = A*m_y[i-1]+B*m_y[i];
    if (m_t == InterpolationType::CUBIC_SPLINE) r += ((A*A*A-A)*m_m[i-1]+(B*B*B-B)*m_m[i])*h*h/6;
    return r;
  }
  std::unique_ptr<Function> clone() const override { return std::unique_ptr<Function>(new Interp(*this)); }
private: std::vector<double> m_x, m_y; InterpolationType m_t; bool m_ex; std::vector<double> m_m;
};
}
inline std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::vector<double>& y, InterpolationType t, bool extrapolate = false) {
  return std::unique_ptr<Function>(new detail::Interp(x, y, t, extrapolate));
}
} }
