#pragma once
#include "Table/TableReader.h"
namespace Euclid { namespace Table {
// Columns are strings unless comments of the form "# Column: name type" give their types
class AsciiReader : public TableReader { public: explicit AsciiReader(const std::string& f) : m_f(f) {}
  Table read(long = -1) override { std::ifstream in(m_f); if (!in) throw Elements::Exception() << "can't open " << m_f; std::string line; std::vector<Row> rows; std::shared_ptr<ColumnInfo> ci; std::vector<ColumnInfo::info_type> known;
    while (std::getline(in, line)) { auto h = line.find('#'); if (h != std::string::npos) { std::istringstream s(line.substr(h + 1)); std::string k, n, t; if (s >> k >> n && k == "Column:") { s >> t; known.emplace_back(n, type(t)); } line.resize(h); }
      std::istringstream s(line); std::vector<Row::cell_type> c; std::string w; while (s >> w) c.push_back(cell(w, c.size() < known.size() ? known[c.size()].type : std::type_index(typeid(std::string)))); if (c.empty()) continue;
      if (!ci) { std::vector<ColumnInfo::info_type> l; for (size_t i = 0; i < c.size(); ++i) if (i < known.size()) l.push_back(known[i]); else l.emplace_back("col" + std::to_string(i + 1)); ci = std::make_shared<ColumnInfo>(l); } rows.emplace_back(c, ci); }
    if (rows.empty()) throw Elements::Exception("empty table"); return Table{rows}; }
private: std::string m_f;
  static std::type_index type(const std::string& t) { if (t == "int") return typeid(int32_t); if (t == "long") return typeid(int64_t); if (t == "float") return typeid(float); if (t == "double") return typeid(double); return typeid(std::string); }
  static Row::cell_type cell(const std::string& w, std::type_index t) { if (t == typeid(int32_t)) return int32_t(std::stol(w)); if (t == typeid(int64_t)) return int64_t(std::stoll(w)); if (t == typeid(float)) return std::stof(w); if (t == typeid(double)) return std::stod(w); return w; } };
} }
