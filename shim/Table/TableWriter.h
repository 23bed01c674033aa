#pragma once
#include <fstream>
#include <functional>
#include <iostream>
#include <iomanip>
#include "Table/Row.h"
#include "AlexandriaKernel/memory_tools.h"
namespace Euclid { namespace Table {
class TableWriter { public: virtual ~TableWriter() = default; virtual void addComment(const std::string&) = 0;
  void addData(const Table& t) { if (!m_init) { init(t); m_init = true; } append(t); }
protected: virtual void init(const Table&) = 0; virtual void append(const Table&) = 0;
private: bool m_init = false; };
namespace shim_detail {
struct Print : boost::static_visitor<void> { std::ostream& o; explicit Print(std::ostream& s) : o(s) {}
  template <typename T> void operator()(const T& v) const { o << std::setprecision(17) << v; }
  void operator()(float v) const { o << std::setprecision(9) << v; } void operator()(double v) const { o << std::setprecision(17) << v; }
  template <typename T> void operator()(const std::vector<T>& v) const { for (size_t i = 0; i < v.size(); ++i) { o << (i ? "," : "") << std::setprecision(17) << v[i]; } } };
}
} }
