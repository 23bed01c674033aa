#pragma once
#include "Table/TableWriter.h"
namespace Euclid { namespace Table {
class FitsWriter : public TableWriter { public:
  explicit FitsWriter(const std::string& f, bool o = false) : m_f(f) { if (o) std::ofstream(f, std::ios::trunc); }
  FitsWriter& setHduName(const std::string& n) { m_h = n; return *this; }
  void addComment(const std::string&) override {}
protected: void init(const Table&) override {}
  void append(const Table& t) override { std::ofstream o(m_f, std::ios::app); for (auto& r : t) { o << m_h << "|"; for (auto& c : r) { boost::apply_visitor(shim_detail::Print(o), c); o << " "; } o << "\n"; } }
private: std::string m_f, m_h; };
} }
