// Catalogue output: rows hold the enabled columns in order with the values of the right property instance, every row is written once and in order, flags combine and print as sets, LDAC headers carry the metadata over.
// SRCS: SEFramework/src/lib/Output/OutputRegistry.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEImplementation/src/lib/Output/LdacOutput.cpp
#include "pbt.h"
#include <list>
#include <memory>
#include <mutex>
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Source/SourceFlags.h"
#include "SEFramework/Output/OutputRegistry.h"
#include "SEImplementation/Output/FlushableOutput.h"
#include "SEImplementation/Output/AsciiOutput.h"
#include "SEImplementation/Output/FitsOutput.h"
#include "SEFramework/Image/Image.h"
#include "SEImplementation/Configuration/DetectionImageConfig.h"
#include "SEImplementation/Output/LdacOutput.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
using namespace pbt;
using namespace SourceXtractor;
using Euclid::Table::Row; using Euclid::Table::ColumnInfo;
template <int K> struct Num : Property { explicit Num(double v) : v(v) {} double v; };
struct Col { std::string name, unit, text; int prop, fn; unsigned index; };
// the reference: columns per property, in the order of registration
static void registry(Case& c) {
  OutputRegistry reg; std::vector<std::vector<Col>> cols(4); int serial = 0, n = int(c.s.range(1, 8)); std::set<int> known;
  auto add = [&](auto tag, int p) { using P = decltype(tag); Col k; k.name = c.s.pick({"a", "flux", "z_col", "Beta"}) + std::to_string(serial++); k.unit = c.s.coin() ? "" : "mag"; k.text = c.s.coin() ? "" : "text " + std::to_string(serial); k.prop = p; k.fn = int(c.s.draw(3)); k.index = 0; int off = serial; switch (k.fn) { case 0: reg.registerColumnConverter<P, double>(k.name, [off](const P& x) { return x.v + off; }, k.unit, k.text); break; case 1: reg.registerColumnConverter<P, int64_t>(k.name, [off](const P& x) { return int64_t(x.v) * 2 + off; }, k.unit, k.text); break; case 2: reg.registerColumnConverter<P, std::string>(k.name, [off](const P& x) { return std::to_string(int(x.v)) + "#" + std::to_string(off); }, k.unit, k.text); break; default: reg.registerColumnConverter<P, std::vector<double>>(k.name, [off](const P& x) { return std::vector<double>{x.v, double(off)}; }, k.unit, k.text); } k.index = unsigned(off) << 8; cols[p].push_back(k); known.insert(p); };
  auto addTo = [&](int p) { switch (p) { case 0: add(Num<0>(0), 0); break; case 1: add(Num<1>(0), 1); break; case 2: add(Num<2>(0), 2); break; default: add(Num<3>(0), 3); } };
  for (int i = 0; i < n; ++i) addTo(int(c.s.draw(3)));
  int renames = int(c.s.draw(2)); bool renamed = false;
  for (int r = 0; r < renames; ++r) { int p = int(c.s.draw(2)); if (!known.count(p)) continue; renamed = true; std::vector<std::pair<std::string, unsigned>> inst; int m = int(c.s.range(1, 3)); bool one = c.s.coin(); size_t which = cols[p].empty() ? 0 : c.s.draw(cols[p].size() - 1); for (int i = 0; i < m; ++i) inst.emplace_back((one ? "inst" : "i") + std::to_string(serial++), unsigned(c.s.draw(3)));
    std::vector<Col> after; if (one) { if (cols[p].empty()) continue; Col k = cols[p][which]; after = cols[p]; after.erase(after.begin() + which); for (auto& x : inst) { Col q = k; q.name = x.first; q.index = (k.index & ~255u) | x.second; after.push_back(q); } if (p == 0) reg.registerPropertyInstances<Num<0>>(k.name, inst); else if (p == 1) reg.registerPropertyInstances<Num<1>>(k.name, inst); else reg.registerPropertyInstances<Num<2>>(k.name, inst); }
    else { for (auto& k : cols[p]) for (auto& x : inst) { Col q = k; q.name = k.name + "_" + x.first; q.index = (k.index & ~255u) | x.second; after.push_back(q); } if (p == 0) reg.registerPropertyInstances<Num<0>>(inst); else if (p == 1) reg.registerPropertyInstances<Num<1>>(inst); else reg.registerPropertyInstances<Num<2>>(inst); }
    cols[p] = after; }
  std::map<std::string, std::vector<int>> alias; std::vector<std::string> names{"Alpha", "beta", "Gamma"}; int enable = int(c.s.range(1, 6)); std::set<int> configurable;
  for (int i = 0; i < enable; ++i) { int p = int(c.s.draw(3)); std::string a = c.s.pick(names); bool conf = c.s.coin(20), thrown = false; try { if (p == 0) reg.enableOutput<Num<0>>(a, conf); else if (p == 1) reg.enableOutput<Num<1>>(a, conf); else if (p == 2) reg.enableOutput<Num<2>>(a, conf); else reg.enableOutput<Num<3>>(a, conf); } catch (const Elements::Exception&) { thrown = true; } c.eq(thrown, !known.count(p) && !conf, "refusal to enable a property without columns"); if (!thrown) alias[a].push_back(p); }
  { std::set<std::string> w; for (auto& a : alias) w.insert(a.first); c.check(reg.getOutputPropertyNames() == w, "names of the output properties"); }
  { std::vector<std::string> filter; if (c.s.coin()) filter.push_back(c.s.pick(names)); std::ostringstream o; std::string bad; auto* old = std::cout.rdbuf(o.rdbuf()); try { reg.printPropertyColumnMap(filter); } catch (const std::exception& e) { bad = e.what(); } std::cout.rdbuf(old); c.check(bad.empty(), "listing the output properties raised " + bad);
    std::istringstream in(o.str()); std::string l, cur; std::map<std::string, std::multiset<std::string>> got, w; while (std::getline(in, l)) { if (l.compare(0, 4, "  - ") == 0) got[cur].insert(l.substr(4, l.find(' ', 4) - 4)); else if (l.size() > 1 && l.back() == ':') cur = l.substr(0, l.size() - 1), got[cur]; } for (auto& a : alias) if (filter.empty() || filter[0] == a.first) { w[a.first]; for (int p : a.second) for (auto& k : cols[p]) w[a.first].insert(k.name); } c.check(got == w, "listing of the output properties and their columns"); }
  std::vector<std::string> enabled; int ne = int(c.s.draw(5)); for (int i = 0; i < ne; ++i) { std::string e = c.s.pick(names); if (!alias.count(e) && !alias.empty() && !c.s.coin(20)) e = alias.begin()->first; enabled.push_back(e); } bool unknown = false; std::vector<int> order; for (auto& e : enabled) { if (!alias.count(e)) unknown = true; else for (int p : alias[e]) if (std::find(order.begin(), order.end(), p) == order.end()) order.push_back(p); }
  for (auto& e : enabled) c.note() << e << " "; OutputRegistry::SourceToRowConverter conv; bool thrown = false; try { conv = reg.getSourceToRowConverter(enabled); } catch (const Elements::Exception&) { thrown = true; } c.eq(thrown, unknown, "refusal of an unknown output property"); c.label(unknown ? "unknown" : "known"); if (thrown) return;
  std::vector<Col> want; bool generator = true; for (int p : order) { generator = generator && known.count(p); want.insert(want.end(), cols[p].begin(), cols[p].end()); }
  SimpleSource s; std::map<std::pair<int, unsigned>, double> val; for (unsigned i = 0; i < 4; ++i) { double v = double(c.s.range(-500, 500)) + 0.25; s.setIndexedProperty<Num<0>>(i, v); val[{0, i}] = v; v += 1000; s.setIndexedProperty<Num<1>>(i, v); val[{1, i}] = v; v += 1000; s.setIndexedProperty<Num<2>>(i, v); val[{2, i}] = v; v += 1000; s.setIndexedProperty<Num<3>>(i, v); val[{3, i}] = v; }
  for (int rep = 0; rep < 2; ++rep) { try { Row row = conv(s); c.check(generator && !want.empty(), "a row without columns was made"); c.eq(row.size(), want.size(), "cells of the row"); for (size_t i = 0; i < want.size(); ++i) { auto& k = want[i]; auto& d = row.getColumnInfo()->getDescription(i); c.eq(d.name, k.name, "name of column " + std::to_string(i)); c.eq(d.unit, k.unit, "unit of " + k.name); c.eq(d.description, k.text, "description of " + k.name); double v = val[{k.prop, k.index & 255u}]; int off = int(k.index >> 8);
      switch (k.fn) { case 0: c.check(d.type == typeid(double), "type of " + k.name); c.eq(boost::get<double>(row[i]), v + off, "value of " + k.name); break; case 1: c.check(d.type == typeid(int64_t), "type of " + k.name); c.eq(boost::get<int64_t>(row[i]), int64_t(v) * 2 + off, "value of " + k.name); break; case 2: c.eq(boost::get<std::string>(row[i]), std::to_string(int(v)) + "#" + std::to_string(off), "value of " + k.name); break; default: c.check(boost::get<std::vector<double>>(row[i]) == std::vector<double>{v, double(off)}, "value of " + k.name); } } }
    catch (const Elements::Exception& e) { c.check(!generator || want.empty(), std::string("no row: ") + e.what()); } }
  c.nontrivial(want.size() > 1 && order.size() > 1); c.label(renamed ? "instances" : "no instances"); }
struct Sink : FlushableOutput { std::vector<std::vector<double>> batches; Sink(SourceToRowConverter f, size_t n) : FlushableOutput(f, n) {} void nextPart() override {} void writeRows(const std::vector<Row>& rows) override { std::vector<double> b; for (auto& r : rows) b.push_back(boost::get<double>(r[0])); batches.push_back(b); } };
static Row toRow(const SourceInterface& s) { static auto info = std::make_shared<ColumnInfo>(std::vector<ColumnInfo::info_type>{{"v", typeid(double)}}); return Row({s.getProperty<Num<0>>().v}, info); }
static void flushing(Case& c) {
  size_t size = c.s.coin(20) ? 0 : size_t(c.s.skewed(1, 20)); Sink out(toRow, size); size_t sent = 0, flushed = 0; int steps = int(c.s.skewed(1, 40)), groups = 0; c.note() << "flush size " << size << ", " << steps << " steps";
  auto written = [&] { size_t n = 0; for (auto& b : out.batches) { c.check(!b.empty(), "an empty batch was written"); for (double v : b) c.eq(v, double(n++), "row"); } return n; };
  for (int k = 0; k < steps; ++k) { switch (c.s.draw(2)) { case 0: { SimpleSource s; s.setProperty<Num<0>>(double(sent++)); out.outputSource(s); break; } case 1: { auto g = std::make_unique<SimpleSourceGroup>(); int m = int(c.s.draw(6)); for (int i = 0; i < m; ++i) { auto s = std::make_unique<SimpleSource>(); s->setProperty<Num<0>>(double(sent++)); g->addSource(std::move(s)); } groups += m > 0; out.receiveSource(std::move(g)); break; } default: { flushed = out.flush(); c.eq(flushed, sent, "rows written so far as flush tells"); c.eq(written(), sent, "rows written after a flush"); } }
    size_t w = written(); c.check(w <= sent, "more rows than sources"); if (size) c.check(sent - w < size, std::to_string(sent - w) + " rows are held back, the flush size is " + std::to_string(size)); }
  c.eq(out.flush(), sent, "rows written in total"); c.eq(written(), sent, "rows written"); c.nontrivial(groups > 1 && size && sent > size); }
static std::string scratch() { return scratchDir() + "/o"; }
static std::vector<std::string> lines(const std::string& f) { std::ifstream in(f); std::vector<std::string> v; std::string l; while (std::getline(in, l)) v.push_back(l); return v; }
// Files: rows of a part go to the part; the ASCII file has one header
static void files(Case& c) {
  int fmt = int(c.s.draw(2)); size_t size = c.s.coin() ? 0 : size_t(c.s.range(1, 5)); std::string f = scratch(); unlink(f.c_str()); std::vector<int> parts; int total = 0, np = int(c.s.range(1, 4)); for (int i = 0; i < np; ++i) parts.push_back(int(c.s.draw(6))); const char* names[] = {"ascii", "fits", "ldac"}; c.label(names[fmt]); c.note() << names[fmt]; std::vector<std::string> want; bool any = false;
  { std::unique_ptr<Output> out; if (fmt == 0) out.reset(new AsciiOutput(f, toRow, size)); else if (fmt == 1) out.reset(new FitsOutput(f, toRow, size)); else out.reset(new LdacOutput(f, toRow, size));
    for (int p = 0; p < np; ++p) { c.note() << " " << parts[p]; for (int i = 0; i < parts[p]; ++i) { SimpleSource s; s.setProperty<Num<0>>(double(total)); s.setProperty<DetectionFrameInfo>(10, 10, 1.0, 2.0, 3.0, 4.0); out->outputSource(s); std::string hdu = fmt == 0 ? "" : fmt == 1 ? (p ? "CATALOG_" + std::to_string(p) : "CATALOG") : (p ? "LDAC_OBJECTS_" + std::to_string(p) : "LDAC_OBJECTS"); want.push_back((fmt ? hdu + "|" : "") + std::to_string(total++)); } any = any || (p && parts[p]); c.eq(out->flush(), size_t(total), "rows written as flush tells"); out->nextPart(); } }
  std::vector<std::string> got; for (auto l : lines(f)) { if (l.empty() || l[0] == '#' || l.find("LDAC_IMHEAD") == 0) continue; while (!l.empty() && l.back() == ' ') l.pop_back(); got.push_back(l); } c.eq(got.size(), want.size(), "rows in the file"); for (size_t i = 0; i < got.size(); ++i) c.eq(got[i], want[i], "row in the file"); c.nontrivial(any && total > 2); }
// LDAC image header: cards of eighty characters which read back as the metadata, END at the end
static void ldacHeader(Case& c) {
  std::map<std::string, MetadataEntry> meta; int n = int(c.s.skewed(0, 12)), strings = 0, numbers = 0; for (int i = 0; i < n; ++i) { std::string k; int kl = int(c.s.range(1, 7)); for (int j = 0; j < kl; ++j) k += char('A' + c.s.draw(25)); k += char('0' + i % 10); MetadataEntry e; switch (c.s.draw(3)) { case 0: e.m_value = int64_t(c.s.coin() ? c.s.range(-1000, 1000) : int64_t(c.s.draw(UINT64_MAX))); ++numbers; break; case 1: { double v = c.s.coin() ? c.s.real(-360, 360) : c.s.logreal(1e-30, 1e30) * (c.s.coin() ? -1 : 1); e.m_value = v; ++numbers; break; } case 2: e.m_value = bool(c.s.coin()); break; default: { std::string s; int l = c.s.coin(30) ? 68 : int(c.s.range(0, 68)); int len = 0; while (len < l) { char ch = c.s.coin(10) ? '\'' : c.s.coin(10) ? '/' : char(c.s.range(33, 126)); if (ch == '\'' && len + 2 > l) ch = 'x'; len += ch == '\'' ? 2 : 1; s += ch; } e.m_value = s; ++strings; } }
    if (c.s.coin()) e.m_extra["comment"] = std::string(c.s.range(0, 90), 'c'); meta[k] = e; }
  double gain = c.s.logreal(1e-3, 1e6), rms = c.s.logreal(1e-3, 1e6); std::string f = scratch(); unlink(f.c_str()); for (auto& m : meta) c.note() << m.first << "=" << m.second.m_value << " ";
  { LdacOutput out(f, toRow, 0); SimpleSource s; s.setProperty<Num<0>>(1.0); s.setProperty<DetectionFrameInfo>(10, 10, gain, 2.0, 3.0, rms, meta); try { out.outputSource(s); out.flush(); } catch (const std::exception& e) { c.fail(std::string("writing the header failed: ") + e.what()); } }
  auto l = lines(f); c.check(!l.empty() && l[0].find("LDAC_IMHEAD|") == 0, "no header was written first"); std::string h = l[0].substr(12); if (!h.empty()) h.pop_back(); c.eq(h.size() % 80, size_t(0), "length of the header modulo 80"); std::map<std::string, std::string> cards; for (size_t i = 0; i < h.size(); i += 80) { std::string k = h.substr(i, 80), name = k.substr(0, 8); while (!name.empty() && name.back() == ' ') name.pop_back(); if (name == "HISTORY") continue; if (name == "END") { c.eq(i + 80, h.size(), "END is not the last card"); c.eq(k, "END" + std::string(77, ' '), "END card"); name = "END"; } else c.eq(k.substr(8, 2), std::string("= "), "value indicator of " + name); c.check(!cards.count(name), "card " + name + " is there twice"); cards[name] = k.substr(10); }
  c.check(cards.count("END") == 1, "no END card"); c.eq(cards.size(), meta.size() + 3, "number of cards");
  auto number = [&](const std::string& t) { return strtod(t.c_str(), nullptr); }; c.close(number(cards["SPPGAIN"]), gain, 1e-5, 0, "gain in the header"); c.close(number(cards["SPPBKDEV"]), rms, 1e-5, 0, "rms in the header");
  for (auto& m : meta) { c.check(cards.count(m.first) == 1, "no card " + m.first); std::string t = cards[m.first]; auto& v = m.second.m_value; std::string rest; if (auto s = boost::get<std::string>(&v)) { std::string got; size_t p = t.find('\''); c.check(p != std::string::npos && t.find_first_not_of(' ') == p, "string value of " + m.first + " is not quoted"); for (++p; p < t.size(); ++p) { if (t[p] == '\'') { if (p + 1 < t.size() && t[p + 1] == '\'') ++p; else break; } got += t[p]; } c.check(p < t.size(), "string value of " + m.first + " is not closed"); c.eq(got, *s, "value of " + m.first); rest = t.substr(p + 1); } else { char* end; const char* b = t.c_str(); while (*b == ' ') ++b; if (auto q = boost::get<bool>(&v)) { c.check(*b == (*q ? 'T' : 'F') || *b == (*q ? '1' : '0'), "value of " + m.first); end = const_cast<char*>(b + 1); } else if (auto q = boost::get<int64_t>(&v)) { c.eq(int64_t(strtoll(b, &end, 10)), *q, "value of " + m.first); } else { c.close(strtod(b, &end), boost::get<double>(v), 1e-14, 0, "value of " + m.first); } rest = end; }
    size_t p = rest.find_first_not_of(' '); if (p != std::string::npos) { c.eq(rest[p], '/', "what follows the value of " + m.first); if (p + 2 < rest.size()) { std::string cm = m.second.m_extra.count("comment") ? m.second.m_extra["comment"] : ""; std::string t2 = rest.substr(p + 2); while (!t2.empty() && t2.back() == ' ') t2.pop_back(); c.check(cm.compare(0, t2.size(), t2) == 0 && (t2.size() == cm.size() || rest.back() == 'c'), "comment of " + m.first); } } }
  c.nontrivial(strings && numbers); }
// Flags: a set of bits. Numbers are part of the catalogue format.
static void flags(Case& c) {
  const std::vector<std::pair<Flags, std::pair<int, const char*>>> all{{Flags::BIASED, {0, "BIASED"}}, {Flags::BLENDED, {1, "BLENDED"}}, {Flags::SATURATED, {2, "SATURATED"}}, {Flags::BOUNDARY, {3, "BOUNDARY"}}, {Flags::NEIGHBORS, {4, "NEIGHBORS"}}, {Flags::OUTSIDE, {5, "OUTSIDE"}}, {Flags::PARTIAL_FIT, {6, "PARTIAL_FIT"}}, {Flags::INSUFFICIENT_DATA, {7, "INSUFFICIENT_DATA"}}, {Flags::ERROR, {10, "ERROR"}}, {Flags::MEMORY, {11, "MEMORY"}}, {Flags::BAD_PROJECTION, {12, "BAD_PROJECTION"}}, {Flags::DOWNSAMPLED, {13, "DOWNSAMPLED"}}};
  auto make = [&](std::set<int>& s) { Flags f = Flags::NONE; int n = int(c.s.draw(4)); for (int i = 0; i < n; ++i) { auto& x = c.s.pick(all); s.insert(x.second.first); if (c.s.coin()) f |= x.first; else f = f | x.first * true; f |= x.first * false; } return f; };
  std::set<int> a, b; Flags fa = make(a), fb = make(b); auto bits = [](const std::set<int>& s) { int64_t v = 0; for (int i : s) v |= 1ll << i; return v; }; std::set<int> u = a, n; u.insert(b.begin(), b.end()); for (int i : a) if (b.count(i)) n.insert(i);
  c.eq(flags2long(fa), bits(a), "flags as a number"); c.eq(flags2long(fa | fb), bits(u), "union"); c.eq(flags2long(fa & fb), bits(n), "intersection"); c.check((fa * false) == Flags::NONE && (fa * true) == fa, "switching flags"); auto v = flags2long(std::vector<Flags>{fa, fb, Flags::NONE}); c.check(v == std::vector<int64_t>{bits(a), bits(b), 0}, "vector of flags as numbers");
  std::ostringstream o; try { o << fa; } catch (const std::exception& e) { c.fail(std::string("printing raised ") + e.what()); } std::string w; for (auto& x : all) if (a.count(x.second.first)) w += (w.empty() ? "(" : " | ") + std::string(x.second.second); w = w.empty() ? "NONE" : w + ")"; c.eq(o.str(), w, "printed flags"); c.nontrivial(a.size() > 1); }
PBT_MAIN(
  {"registry", "several columns from several properties", registry, 40000, 1000000},
  {"flushing", "several groups and more sources than the flush size", flushing, 40000, 1000000},
  {"files", "rows in more than one part", files, 6000, 100000},
  {"ldac_header", "string and numeric metadata", ldacHeader, 6000, 100000},
  {"flags", "several flags at once", flags, 40000, 500000})
