#pragma once
#include "Table/TableWriter.h"
namespace Euclid { namespace Table {
class AsciiWriter : public TableWriter { public:
  explicit AsciiWriter(const std::string& f) : m_f(std::make_shared<std::ofstream>(f)), m_s(m_f.get()) {}
  explicit AsciiWriter(std::ostream& s) : m_s(&s) {}
  void addComment(const std::string& c) override { *m_s << "# " << c << "\n"; }
protected:
  void init(const Table& t) override { for (size_t i = 0; i < t.getColumnInfo()->size(); ++i) *m_s << "# Column: " << t.getColumnInfo()->getDescription(i).name << "\n"; *m_s << "\n"; }
  void append(const Table& t) override { for (auto& r : t) { for (auto& c : r) { boost::apply_visitor(shim_detail::Print(*m_s), c); *m_s << " "; } *m_s << "\n"; } m_s->flush(); }
private: std::shared_ptr<std::ofstream> m_f; std::ostream* m_s; };
} }
