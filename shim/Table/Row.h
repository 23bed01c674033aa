#pragma once
#include <boost/variant.hpp>
#include <cstdint>
#include <memory>
#include <sstream>
#include <string>
#include <typeindex>
#include <vector>
#include "ElementsKernel/Exception.h"
#include "NdArray/NdArray.h"
namespace Euclid { namespace Table {
struct ColumnDescription {
  ColumnDescription(std::string n, std::type_index t = typeid(std::string), std::string u = "", std::string d = "") : name(std::move(n)), type(t), unit(std::move(u)), description(std::move(d)) {}
  bool operator==(const ColumnDescription& o) const { return name == o.name && type == o.type && unit == o.unit; }
  std::string name; std::type_index type; std::string unit; std::string description; size_t size = 0;
};
class ColumnInfo {
public:
  using info_type = ColumnDescription;
  explicit ColumnInfo(std::vector<info_type> l) : m_l(std::move(l)) { 
    for (size_t i = 0; i < m_l.size(); ++i) for (size_t j = i + 1; j < m_l.size(); ++j) if (m_l[i].name == m_l[j].name) throw Elements::Exception() << "Duplicate column name " << m_l[i].name; }
  size_t size() const { return m_l.size(); }
  const ColumnDescription& getDescription(size_t i) const { if (i >= m_l.size()) throw Elements::Exception("Column index out of bounds"); return m_l[i]; }
  std::unique_ptr<size_t> find(const std::string& n) const { for (size_t i = 0; i < m_l.size(); ++i) if (m_l[i].name == n) return std::unique_ptr<size_t>(new size_t(i)); return nullptr; }
  bool operator==(const ColumnInfo& o) const { return m_l == o.m_l; }
private: std::vector<info_type> m_l;
};
class Row {
public:
  using cell_type = boost::variant<bool, int32_t, int64_t, float, double, std::string, std::vector<bool>, std::vector<int32_t>, std::vector<int64_t>, std::vector<float>, std::vector<double>,
        NdArray::NdArray<int32_t>, NdArray::NdArray<int64_t>, NdArray::NdArray<float>, NdArray::NdArray<double>>;
  Row(std::vector<cell_type> v, std::shared_ptr<ColumnInfo> c) : m_v(std::move(v)), m_c(std::move(c)) {
    if (!m_c) throw Elements::Exception() << "nullptr column_info";
    if (m_v.size() != m_c->size()) throw Elements::Exception() << "Wrong number of row values (" << m_v.size() << " instead of " << m_c->size();
  }
  std::shared_ptr<ColumnInfo> getColumnInfo() const { return m_c; }
  size_t size() const { return m_v.size(); }
  const cell_type& operator[](size_t i) const { if (i >= m_v.size()) throw Elements::Exception("Index out of bounds"); return m_v[i]; }
  const cell_type& operator[](const std::string& n) const { auto i = m_c->find(n); if (!i) throw Elements::Exception() << "Row does not contain column with name " << n; return m_v[*i]; }
  std::vector<cell_type>::const_iterator begin() const { return m_v.begin(); }
  std::vector<cell_type>::const_iterator end() const { return m_v.end(); }
private: std::vector<cell_type> m_v; std::shared_ptr<ColumnInfo> m_c;
};
class Table {
public:
  explicit Table(std::shared_ptr<ColumnInfo> c) : m_c(std::move(c)) {}
  explicit Table(std::vector<Row> r) : m_r(std::move(r)) { if (m_r.empty()) throw Elements::Exception() << "Construction of an empty Table without ColumnInfo"; m_c = m_r.front().getColumnInfo(); }
  std::shared_ptr<ColumnInfo> getColumnInfo() const { return m_c; }
  size_t size() const { return m_r.size(); }
  const Row& operator[](size_t i) const { return m_r.at(i); }
  std::vector<Row>::const_iterator begin() const { return m_r.begin(); }
  std::vector<Row>::const_iterator end() const { return m_r.end(); }
private: std::vector<Row> m_r; std::shared_ptr<ColumnInfo> m_c;
};
} }
