#pragma once
#include <array>
#include <functional>
#include <numeric>
#include <stdexcept>
#include <vector>
#include <string>
#include <ostream>
namespace Euclid { namespace NdArray {
template <typename T> class NdArray {
public:
  using iterator = typename std::vector<T>::iterator; using const_iterator = typename std::vector<T>::const_iterator;
  explicit NdArray(std::vector<size_t> shape) : m_shape(std::move(shape)), m_data(count(m_shape)) {}
  NdArray(const std::vector<size_t>& shape, const std::vector<T>& d) : m_shape(shape), m_data(d) { if (d.size() != count(shape)) throw std::invalid_argument("Data size does not match the shape"); }
  template <typename It> NdArray(const std::vector<size_t>& shape, It b, It e) : m_shape(shape), m_data(b, e) { if (m_data.size() != count(shape)) throw std::invalid_argument("Data size does not match the shape"); }
  template <typename... D> explicit NdArray(size_t i, D... rest) : NdArray(std::vector<size_t>{i, static_cast<size_t>(rest)...}) {}
  const std::vector<size_t>& shape() const { return m_shape; }
  template <typename... D> NdArray& reshape(size_t i, D... rest) { return reshape(std::vector<size_t>{i, static_cast<size_t>(rest)...}); }
  NdArray& reshape(const std::vector<size_t>& s) { if (count(s) != m_data.size()) throw std::range_error("New shape does not match the number of contained elements"); m_shape = s; return *this; }
  T& at(const std::vector<size_t>& c) { return m_data[index(c)]; }
  const T& at(const std::vector<size_t>& c) const { return m_data[index(c)]; }
  template <typename... D> T& at(size_t i, D... rest) { return at(std::vector<size_t>{i, static_cast<size_t>(rest)...}); }
  template <typename... D> const T& at(size_t i, D... rest) const { return at(std::vector<size_t>{i, static_cast<size_t>(rest)...}); }
  iterator begin() { return m_data.begin(); } iterator end() { return m_data.end(); }
  const_iterator begin() const { return m_data.begin(); } const_iterator end() const { return m_data.end(); }
  size_t size() const { return m_data.size(); }
  bool operator==(const NdArray& o) const { return m_shape == o.m_shape && m_data == o.m_data; }
  bool operator!=(const NdArray& o) const { return !(*this == o); }
private:
  static size_t count(const std::vector<size_t>& s) { return std::accumulate(s.begin(), s.end(), size_t(1), std::multiplies<size_t>()); }
  size_t index(const std::vector<size_t>& c) const {
    if (c.size() != m_shape.size()) throw std::out_of_range("Invalid number of coordinates");
    size_t o = 0; for (size_t i = 0; i < c.size(); ++i) { if (c[i] >= m_shape[i]) throw std::out_of_range("Axis out of range"); o = o * m_shape[i] + c[i]; } return o;
  }
  std::vector<size_t> m_shape; std::vector<T> m_data;
};
template <typename T> std::ostream& operator<<(std::ostream& o, const NdArray<T>& a) {
  o << "<"; for (size_t i = 0; i < a.shape().size(); ++i) o << (i ? "," : "") << a.shape()[i]; o << ">"; bool f = true;
  for (auto& v : a) { o << (f ? "" : ",") << v; f = false; } return o; }
} }
