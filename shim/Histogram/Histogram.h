#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <tuple>
#include <utility>
#include <vector>
#include <memory>
#include <sys/types.h>
namespace Euclid { namespace Histogram {
template <typename VarType> class BinStrategy {
public:
  virtual ~BinStrategy() = default;
  std::vector<VarType> getEdges() const { std::vector<VarType> e(m_nbins + 1); for (size_t i = 0; i <= m_nbins; ++i) e[i] = getEdge(i); return e; }
  std::pair<VarType, VarType> getBinEdges(size_t i) const { return {getEdge(i), getEdge(i + 1)}; }
  virtual VarType getBin(size_t i) const { return (getEdge(i) + getEdge(i + 1)) / 2; }
  size_t getBinCount() const { return m_nbins; }
  virtual ssize_t getBinIndex(VarType value) const = 0;
  virtual VarType getEdge(size_t i) const = 0;
protected:
  size_t m_nbins = 0;
};
template <typename VarType, typename WeightType = float> class Histogram {
public:
  template <typename It, typename Binning> Histogram(It b, It e, Binning&& strategy) {
    using B = typename std::decay<Binning>::type;
    auto s = std::make_shared<B>(std::forward<Binning>(strategy));
    s->computeBins(b, e); m_bins = s; m_counts.assign(s->getBinCount(), WeightType(0));
    m_first = 0; m_last = ssize_t(s->getBinCount()) - 1;
    for (; b != e; ++b) { ssize_t i = s->getBinIndex(*b); if (i >= 0 && i < ssize_t(m_counts.size())) m_counts[i] += 1; }
  }
  size_t getBinCount() const { return m_last - m_first + 1; }
  std::pair<VarType, VarType> getBinEdges(size_t i) const { return m_bins->getBinEdges(i + m_first); }
  std::vector<VarType> getBins() const { std::vector<VarType> r; for (ssize_t i = m_first; i <= m_last; ++i) r.push_back(m_bins->getBin(i)); return r; }
  std::vector<VarType> getEdges() const { std::vector<VarType> r; for (ssize_t i = m_first; i <= m_last + 1; ++i) r.push_back(m_bins->getEdge(i)); return r; }
  std::vector<WeightType> getCounts() const { return std::vector<WeightType>(m_counts.begin() + m_first, m_counts.begin() + m_last + 1); }
  void clip(VarType mn, VarType mx) {
    ssize_t a = m_bins->getBinIndex(mn), b = m_bins->getBinIndex(mx);
    m_first = std::max(a, m_first); m_last = std::min(b, m_last);
    assert(m_first <= m_last);
  }
  std::tuple<VarType, VarType, VarType> getStats() const {
    VarType total = 0, total_count = 0, sigma = 0; ssize_t low = m_first, high = m_last; WeightType lowsum = 0, highsum = 0;
    // Mean, sigma and the median found by walking from both ends (as SExtractor and Alexandria do)
    while (low <= high) {
      VarType c; ssize_t k;
      if (lowsum < highsum) { k = low++; lowsum += m_counts[k]; } else { k = high--; highsum += m_counts[k]; }
      c = m_bins->getBin(k);
      total += m_counts[k] * c; total_count += m_counts[k]; sigma += m_counts[k] * c * c;
    }
    VarType mean = total / total_count; sigma = sigma / total_count - mean * mean; sigma = sigma > 0 ? std::sqrt(sigma) : 0;
    VarType median;
    if (high >= 0) {
      // bin between the two counters
      VarType edge = m_bins->getBinEdges(high).second, bw = m_bins->getBinEdges(high).second - m_bins->getBinEdges(high).first;
      WeightType mx = std::max(m_counts[low < (ssize_t)m_counts.size() ? low : high], m_counts[high]);
      median = edge + bw * (highsum - lowsum) / (2. * std::max(mx, WeightType(1)));
    } else median = m_bins->getBin(0);
    return std::make_tuple(mean, median, sigma);
  }
private:
  std::shared_ptr<BinStrategy<VarType>> m_bins; std::vector<WeightType> m_counts; ssize_t m_first, m_last;
};
} }
