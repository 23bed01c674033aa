// Grouping and pipeline stages: every source leaves exactly once, in a group that is what the criterion says, never larger than the limit, and observers and signals keep their order.
// SRCS: SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Source/EntangledSource.cpp SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp SEFramework/src/lib/Task/TaskProvider.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp SEFramework/src/lib/Pipeline/SourceGrouping.cpp SEFramework/src/lib/Pipeline/Partition.cpp SEFramework/src/lib/Pipeline/Deblending.cpp SEFramework/src/lib/Pipeline/Segmentation.cpp SEImplementation/src/lib/Grouping/AssocGrouping.cpp SEImplementation/src/lib/Grouping/SplitSourcesGrouping.cpp SEImplementation/src/lib/Grouping/MoffatGrouping.cpp SEImplementation/src/lib/Grouping/AssocCriteria.cpp SEImplementation/src/lib/Grouping/SplitSourcesCriteria.cpp SEImplementation/src/lib/Grouping/OverlappingBoundariesCriteria.cpp SEImplementation/src/lib/Grouping/LineSelectionCriteria.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/BufferedImage.cpp
// LIBS: -lpthread
#include "pbt.h"
#include <list>
#include <memory>
#include <mutex>
#include <numeric>
#include <cassert>
#include <thread>
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroupFactory.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Pipeline/Partition.h"
#include "SEFramework/Pipeline/Deblending.h"
#include "SEFramework/Pipeline/Segmentation.h"
#include "SEImplementation/Grouping/AssocCriteria.h"
#include "SEImplementation/Grouping/AssocGrouping.h"
#include "SEImplementation/Grouping/SplitSourcesGrouping.h"
#include "SEImplementation/Grouping/SplitSourcesCriteria.h"
#include "SEImplementation/Grouping/MoffatGrouping.h"
#include "SEImplementation/Grouping/NoGroupingCriteria.h"
#include "SEImplementation/Grouping/OverlappingBoundariesCriteria.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Property/SourceId.h"
using namespace pbt;
using namespace SourceXtractor;
struct Num : Property { explicit Num(int v) : v(v) {} int v; };
static int idOf(const SourceInterface& s) { return s.getProperty<Num>().v; }
struct Info { int id; PixelBoundaries box{0, 0, 0, 0}; double x = 0, y = 0; unsigned key = 0; };
static uint64_t mix(uint64_t k, uint64_t i) { uint64_t z = k * 2654435761u + (i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; z *= 0xD6E8FEB86659FD93ull; return z ^ (z >> 29); }
struct GraphCriteria : GroupingCriteria { uint64_t key; int density; GraphCriteria(uint64_t k, int d) : key(k), density(d) {} bool linked(int a, int b) const { return int(mix(key, uint64_t(std::min(a, b)) * 1000 + std::max(a, b)) % 1000) < density; } bool shouldGroup(const SourceInterface& a, const SourceInterface& b) const override { return linked(idOf(a), idOf(b)); } std::set<PropertyId> requiredProperties() const override { return {PropertyId::create<Num>(3)}; } };
struct Select : SelectionCriteria { std::set<int> ids; bool mustBeProcessed(const SourceInterface& s) const override { return ids.count(idOf(s)) > 0; } };
struct Collector : PipelineReceiver<SourceGroupInterface> { std::vector<std::vector<int>> groups; int signals = 0; std::vector<std::string>* log = nullptr; void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { std::vector<int> v; for (auto& s : *g) v.push_back(idOf(s)); if (g->size() != v.size()) v.push_back(-1); groups.push_back(v); } void receiveProcessSignal(const ProcessSourcesEvent&) override { ++signals; } };
static void grouping(Case& c) {
  int kind = int(c.s.draw(6)); unsigned limit = c.s.coin(50) ? 0 : unsigned(c.s.skewed(1, 8)); int n = int(c.s.skewed(2, 50)); uint64_t key = c.s.draw(1 << 24); int density = c.s.pick({0, 20, 60, 150, 400, 1000}); double range = c.s.pick({3., 10., 40., 1000.}), field = c.s.pick({5., 30., 100.});
  std::shared_ptr<SourceGroupFactory> gf; if (c.s.coin()) gf = std::make_shared<SimpleSourceGroupFactory>(); else gf = std::make_shared<SourceGroupWithOnDemandPropertiesFactory>(std::make_shared<TaskProvider>(nullptr));
  auto graph = std::make_shared<GraphCriteria>(key, density); std::shared_ptr<SourceGroupingInterface> g; const char* names[] = {"graph", "overlapping", "none", "split", "assoc", "moffat", "criteria of split or assoc"}; bool assoc = c.s.coin();
  switch (kind) { case 0: g = std::make_shared<SourceGrouping>(graph, gf, limit); break; case 1: g = std::make_shared<SourceGrouping>(std::make_shared<OverlappingBoundariesCriteria>(), gf, limit); break; case 2: g = std::make_shared<SourceGrouping>(std::make_shared<NoGroupingCriteria>(), gf, limit); break; case 3: g = std::make_shared<SplitSourcesGrouping>(gf, limit); break; case 4: g = std::make_shared<AssocGrouping>(gf, limit); break; case 5: g = std::make_shared<MoffatGrouping>(graph, gf, limit, float(range)); break; default: g = std::make_shared<SourceGrouping>(assoc ? std::shared_ptr<GroupingCriteria>(std::make_shared<AssocCriteria>()) : std::make_shared<SplitSourcesCriteria>(), gf, limit); }
  auto out = std::make_shared<Collector>(); g->setNextStage(out); c.note() << names[kind] << " limit " << limit << " n " << n << " density " << density << " range " << range; c.label(names[kind]); c.label(limit ? "limited" : "no limit");
  if (kind == 0) c.check(g->requiredProperties().count(PropertyId::create<Num>(3)) == 1, "the properties the criterion needs are not required");
  std::vector<Info> all; std::map<int, int> where; // where: id -> emitted in group number
  auto linked = [&](const Info& a, const Info& b) { switch (kind) { case 0: return graph->linked(a.id, b.id); case 1: { auto l = a.box.getMin(), h = a.box.getMax(), l2 = b.box.getMin(), h2 = b.box.getMax(); return l.m_x <= h2.m_x && l2.m_x <= h.m_x && l.m_y <= h2.m_y && l2.m_y <= h.m_y; } case 2: return false; case 3: case 4: return a.key == b.key; case 5: return graph->linked(a.id, b.id) && (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) <= range * range; default: return a.key == b.key && (!assoc || a.key != 0); } };
  std::vector<int> pending; size_t seen = 0; int selectedSignals = 0, merged = 0;
  auto components = [&](const std::vector<int>& ids) { std::map<int, int> comp; for (int i : ids) comp[i] = i; bool more = true; while (more) { more = false; for (int a : ids) for (int b : ids) if (comp[b] < comp[a] && linked(all[a], all[b])) { comp[a] = comp[b]; more = true; } } std::map<int, std::vector<int>> r; for (int i : ids) r[comp[i]].push_back(i); return r; };
  auto take = [&](const Select* sel) { // groups that left since the last call
    std::vector<std::vector<int>> fresh(out->groups.begin() + seen, out->groups.end()); seen = out->groups.size(); std::vector<int> before = pending;
    for (auto& v : fresh) { c.check(!v.empty(), "an empty group was sent"); c.check(!limit || v.size() <= limit, "a group of " + std::to_string(v.size()) + " sources, the limit is " + std::to_string(limit)); for (int i : v) { auto p = std::find(pending.begin(), pending.end(), i); c.check(p != pending.end(), "source " + std::to_string(i) + " left without being there"); pending.erase(p); } if (v.size() > 1) { auto comp = components(v); c.check(comp.size() == 1, "a group of unrelated sources was sent"); ++merged; }
      if (sel) { bool any = false; for (int i : v) any = any || sel->ids.count(i); c.check(any, "a group without any selected source was sent"); } }
    if (sel) { for (int i : pending) c.check(!sel->ids.count(i), "selected source " + std::to_string(i) + " was kept back");
      if (!limit) { auto comp = components(before); for (auto& v : fresh) { std::vector<int> s = v; std::sort(s.begin(), s.end()); bool found = false; for (auto& k : comp) found = found || k.second == s; c.check(found, "a group is not a connected component of the sources waiting"); } }
      else if (kind != 5) for (size_t a = 0; a < fresh.size(); ++a) for (size_t b = 0; b < a; ++b) if (fresh[a].size() + fresh[b].size() <= limit) for (int i : fresh[a]) for (int j : fresh[b]) c.check(!linked(all[i], all[j]), "related groups were kept apart although the limit allows to merge them"); }
    else { if (!limit) c.check(fresh.empty(), "a group left before it was asked for"); if (kind != 3 && kind != 4 && kind != 5) c.check(fresh.empty(), "a group left before it was asked for"); } };
  bool intersperse = c.s.coin(60);
  for (int k = 0; k < n; ++k) {
    if (intersperse && k && c.s.coin(12)) { auto sel = std::make_shared<Select>(); int d = c.s.pick({5, 30, 100}); for (int i : pending) if (int(mix(key + 7 + k, i) % 100) < d) sel->ids.insert(i); ++selectedSignals; g->receiveProcessSignal(ProcessSourcesEvent(sel)); take(sel.get()); }
    Info f; f.id = k; int bx = int(mix(key, k * 7 + 1) % 60), by = int(mix(key, k * 7 + 2) % 60); f.box = PixelBoundaries(bx, by, bx + int(mix(key, k * 7 + 3) % (density / 20 + 2)), by + int(mix(key, k * 7 + 4) % (density / 20 + 2))); f.x = float(mix(key, k * 7 + 5) % 1000 * field / 1000); f.y = float(mix(key, k * 7 + 6) % 1000 * field / 1000); f.key = unsigned(mix(key, k * 7) % (n / 3 + 2)) + (kind == 4 || kind == 3 ? 1 : 0);
    if (kind == 5) for (auto& o : all) { double d = std::hypot(o.x - f.x, o.y - f.y); if (std::fabs(d - range) < 1e-3) f.x += 0.25; } bool close = false; for (auto& o : all) close = close || (kind == 5 && std::fabs(std::hypot(o.x - f.x, o.y - f.y) - range) < 1e-3); if (close) c.discard();
    all.push_back(f); pending.push_back(k); std::unique_ptr<SourceInterface> s = std::make_unique<SimpleSource>(); s->setProperty<Num>(k); s->setProperty<PixelBoundaries>(f.box); s->setProperty<PixelCentroid>(SeFloat(f.x), SeFloat(f.y)); s->setProperty<SourceId>(f.key); s->setProperty<AssocMode>(true, std::vector<double>(), 0., 0., f.key); g->receiveSource(std::move(s)); take(nullptr); }
  auto sel = std::make_shared<Select>(); for (int i : pending) sel->ids.insert(i); if (c.s.coin()) g->receiveProcessSignal(ProcessSourcesEvent(sel)); else g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); take(sel.get()); c.check(pending.empty(), "sources are left when all were selected");
  if ((kind == 3 || kind == 4) && !selectedSignals) { std::map<unsigned, int> count, groups; for (auto& f : all) ++count[f.key]; for (auto& v : out->groups) ++groups[all[v[0]].key]; for (auto& k : count) c.eq(groups[k.first], limit ? int((k.second + limit - 1) / limit) : 1, "groups for one identifier"); }
  g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); c.eq(out->groups.size(), seen, "groups sent twice"); c.nontrivial(merged > 0 && n > 3); }
// A whole chain: labelling, partition, grouping, deblending; with observers at every stage
struct Labeller : Segmentation::Labelling { std::vector<int> script; explicit Labeller(std::vector<int> s) : script(s) {} void labelImage(Segmentation::LabellingListener& l, std::shared_ptr<const DetectionImageFrame>) override { int n = 0, id = 0; for (int k : script) { if (k < 0) { auto s = std::make_shared<Select>(); for (int i = 0; i < 100000; i += 100) for (int d = 0; d < 4; ++d) if (mix(uint64_t(-k), i) % 2) s->ids.insert(i + d); l.requestProcessing(ProcessSourcesEvent(s)); } else { auto s = std::make_unique<SimpleSource>(); s->setProperty<Num>(100 * id++); l.publishSource(std::move(s)); } l.notifyProgress(++n, int(script.size())); } } };
struct SplitStep : PartitionStep { int mod; uint64_t key; SplitStep(int m, uint64_t k) : mod(m), key(k) {} int parts(int id) const { return int(mix(key, id) % mod); } std::vector<std::unique_ptr<SourceInterface>> partition(std::unique_ptr<SourceInterface> s) const override { std::vector<std::unique_ptr<SourceInterface>> r; int n = parts(idOf(*s)), id = idOf(*s); if (n == 1) { r.push_back(std::move(s)); return r; } for (int i = 0; i < n; ++i) { r.push_back(std::make_unique<SimpleSource>()); r.back()->setProperty<Num>(id + i); } return r; } };
struct DropStep : DeblendStep { uint64_t key; int index; DropStep(uint64_t k, int i) : key(k), index(i) {} bool drop(int id) const { return mix(key, id) % 3 == 0; } void deblend(SourceGroupInterface& g) const override { for (auto it = g.begin(); it != g.end();) if (drop(idOf(*it))) it = g.removeSource(it); else ++it; } std::set<PropertyId> requiredProperties() const override { return {PropertyId::create<Num>(index)}; } };
template <typename T> struct Watch : Observer<T> { std::vector<std::string>& log; std::string name; std::function<std::string(const T&)> text; Watch(std::vector<std::string>& l, std::string n, std::function<std::string(const T&)> t) : log(l), name(n), text(t) {} void handleMessage(const T& m) override { log.push_back(name + text(m)); } };
struct SourceSink : PipelineReceiver<SourceInterface> { std::vector<std::string>& log; PipelineReceiver<SourceInterface>* next; SourceSink(std::vector<std::string>& l, PipelineReceiver<SourceInterface>* n) : log(l), next(n) {} void receiveSource(std::unique_ptr<SourceInterface> s) override { log.push_back("r" + std::to_string(idOf(*s))); if (next) next->receiveSource(std::move(s)); } void receiveProcessSignal(const ProcessSourcesEvent& e) override { log.push_back("signal"); if (next) next->receiveProcessSignal(e); } };
static std::string groupText(const SourceGroupInterface& g) { std::string s; for (auto& m : g) s += " " + std::to_string(idOf(m)); return s; }
struct GroupSink : PipelineReceiver<SourceGroupInterface> { std::vector<std::string>& log; explicit GroupSink(std::vector<std::string>& l) : log(l) {} void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { log.push_back("g" + groupText(*g)); } void receiveProcessSignal(const ProcessSourcesEvent&) override { log.push_back("signal"); } };
static void chain(Case& c) {
  int n = int(c.s.skewed(1, 25)); std::vector<int> script; int sources = 0; for (int i = 0; i < n; ++i) { if (c.s.coin(15)) script.push_back(-int(c.s.range(1, 1000))); else { script.push_back(1); ++sources; } } c.note() << n << " events, " << sources << " sources";
  Segmentation seg(nullptr); seg.setLabelling<Labeller>(script); std::vector<std::shared_ptr<PartitionStep>> steps; std::vector<std::shared_ptr<SplitStep>> splits; int ns = int(c.s.draw(2)); for (int i = 0; i < ns; ++i) { splits.push_back(std::make_shared<SplitStep>(int(c.s.range(2, 4)), c.s.draw(1 << 20))); steps.push_back(splits.back()); } auto part = std::make_shared<Partition>(steps); uint64_t key = c.s.draw(1 << 20); std::vector<std::shared_ptr<DropStep>> drops; std::vector<std::shared_ptr<DeblendStep>> dsteps; int nd = int(c.s.draw(2)); for (int i = 0; i < nd; ++i) { drops.push_back(std::make_shared<DropStep>(c.s.draw(1 << 20), i + 1)); dsteps.push_back(drops.back()); }
  auto graph = std::make_shared<GraphCriteria>(key, c.s.pick({0, 50, 300})); auto grp = std::make_shared<SourceGrouping>(graph, std::make_shared<SimpleSourceGroupFactory>(), 0); auto deb = std::make_shared<Deblending>(dsteps); std::vector<std::string> log1, log2, log3; auto tap = std::make_shared<SourceSink>(log1, grp.get()), mid = std::make_shared<SourceSink>(log2, part.get()); auto sink = std::make_shared<GroupSink>(log3);
  std::set<PropertyId> need; for (int i = 0; i < nd; ++i) need.insert(PropertyId::create<Num>(i + 1)); c.check(deb->requiredProperties() == need, "properties required by the deblending steps");
  int observers = int(c.s.draw(3)); std::vector<std::shared_ptr<Watch<SourceInterface>>> obs; for (int i = 0; i < observers; ++i) { obs.push_back(std::make_shared<Watch<SourceInterface>>(log2, "o" + std::to_string(i) + ":", [](const SourceInterface& s) { return std::to_string(idOf(s)); })); seg.PipelineEmitter<SourceInterface>::addObserver(obs.back()); } std::set<int> removed; for (int i = 0; i < observers; ++i) if (c.s.coin(25)) { seg.PipelineEmitter<SourceInterface>::removeObserver(obs[i]); removed.insert(i); }
  auto gw = std::make_shared<Watch<SourceGroupInterface>>(log3, "w", groupText); deb->addObserver(gw); int last = 0; bool progressOk = true; struct Progress : Observer<SegmentationProgress> { int& last; bool& ok; int total; Progress(int& l, bool& o, int t) : last(l), ok(o), total(t) {} void handleMessage(const SegmentationProgress& p) override { ok = ok && p.position == last + 1 && p.total == total; last = p.position; } }; seg.Observable<SegmentationProgress>::addObserver(std::make_shared<Progress>(last, progressOk, n));
  seg.setNextStage(mid); part->setNextStage(tap); grp->setNextStage(deb); deb->setNextStage(sink); bool thrown = false; try { part->setNextStage(tap); } catch (const Elements::Exception&) { thrown = true; } c.check(thrown, "a second next stage was accepted"); seg.processFrame(nullptr); c.eq(last, n, "progress reports"); c.check(progressOk, "progress is out of order");
  // what has to come out
  std::vector<std::string> w1, w2; std::vector<int> pending, received; int id = 0; size_t merged = 0; std::multiset<std::string> wg; std::vector<int> lost;
  auto deblend = [&](std::vector<int> v) { for (auto& d : drops) v.erase(std::remove_if(v.begin(), v.end(), [&](int i) { return d->drop(i); }), v.end()); return v; };
  auto emit = [&](const std::function<bool(int)>& sel) { std::map<int, std::vector<int>> comp; std::map<int, int> root; for (int i : pending) root[i] = i; bool more = true; while (more) { more = false; for (int a : pending) for (int b : pending) if (a != b && root[b] < root[a] && graph->linked(a, b)) { root[a] = root[b]; more = true; } } for (int i : pending) comp[root[i]].push_back(i); pending.clear(); for (auto& k : comp) { bool any = false; for (int i : k.second) any = any || sel(i); if (!any) { pending.insert(pending.end(), k.second.begin(), k.second.end()); continue; } if (k.second.size() > 1) ++merged; auto v = deblend(k.second); std::sort(v.begin(), v.end()); if (v.empty()) continue; std::string s; for (int i : v) s += " " + std::to_string(i); wg.insert(s); } };
  for (int k : script) { if (k < 0) { w2.push_back("signal"); w1.push_back("signal"); emit([&](int i) { return i % 100 < 4 && mix(uint64_t(-k), i / 100 * 100) % 2; }); continue; } int s = 100 * id++; for (int o = 0; o < observers; ++o) if (!removed.count(o)) w2.push_back("o" + std::to_string(o) + ":" + std::to_string(s)); w2.push_back("r" + std::to_string(s)); std::vector<int> v{s}; for (auto& st : splits) { std::vector<int> t; for (int i : v) { int p = st->parts(i); for (int q = 0; q < p; ++q) t.push_back(p == 1 ? i : i + q); } v = t; } std::set<int> u(v.begin(), v.end()); if (u.size() != v.size()) c.discard(); for (int i : v) { w1.push_back("r" + std::to_string(i)); pending.push_back(i); } }
  w1.push_back("signal"); w2.push_back("signal"); emit([](int) { return true; });
  c.check(log2 == w2, "observers and next stage of the segmentation: other events than expected"); c.check(log1 == w1, "sources or signals after the partition: other events than expected");
  std::multiset<std::string> got; for (size_t i = 0; i < log3.size(); ++i) { if (log3[i] == "signal") continue; if (log3[i][0] == 'w') { c.check(i + 1 < log3.size() && log3[i + 1] == "g" + log3[i].substr(1), "an observer was not told of a group before it was passed on"); continue; } c.check(i > 0 && log3[i - 1][0] == 'w', "a group was passed on without telling the observer"); std::istringstream is(log3[i].substr(1)); std::vector<int> v; int x; while (is >> x) v.push_back(x); std::sort(v.begin(), v.end()); std::string s; for (int i2 : v) s += " " + std::to_string(i2); got.insert(s); }
  c.check(got == wg, "groups after the deblending: other groups than expected"); c.nontrivial(merged > 0 && (ns || nd)); c.label(ns ? "partition" : "no partition"); c.label(nd ? "deblending" : "no deblending"); }
static void criteria(Case& c) {
  auto box = [&] { int x = int(c.s.range(-5, 12)), y = int(c.s.range(-5, 12)); return PixelBoundaries(x, y, x + int(c.s.range(0, 8)), y + int(c.s.range(0, 8))); }; auto a = box(), b = box(); SimpleSource s, t; s.setProperty<PixelBoundaries>(a); t.setProperty<PixelBoundaries>(b); bool meet = false; for (int y = a.getMin().m_y; y <= a.getMax().m_y; ++y) for (int x = a.getMin().m_x; x <= a.getMax().m_x; ++x) meet = meet || (x >= b.getMin().m_x && x <= b.getMax().m_x && y >= b.getMin().m_y && y <= b.getMax().m_y);
  OverlappingBoundariesCriteria o; c.eq(o.shouldGroup(s, t), meet, "overlapping boxes"); c.eq(o.shouldGroup(t, s), meet, "overlapping boxes, the other way round"); c.check(!NoGroupingCriteria().shouldGroup(s, t), "grouped without grouping"); c.nontrivial(meet); c.eq(a.getWidth() * a.getHeight(), (a.getMax().m_x - a.getMin().m_x + 1) * (a.getMax().m_y - a.getMin().m_y + 1), "size of the box");
  unsigned i = unsigned(c.s.draw(2)), j = unsigned(c.s.draw(2)); s.setProperty<SourceId>(i); t.setProperty<SourceId>(j); c.eq(SplitSourcesCriteria().shouldGroup(s, t), i == j, "same detection"); s.setProperty<AssocMode>(true, std::vector<double>(), 0., 0., i); t.setProperty<AssocMode>(true, std::vector<double>(), 0., 0., j); c.eq(AssocCriteria().shouldGroup(s, t), i == j && i != 0, "same group of the catalogue");
  float y = float(c.s.real(-20, 200)); int line = int(c.s.range(0, 180)); s.setProperty<PixelCentroid>(3.f, y); c.eq(LineSelectionCriteria(line).mustBeProcessed(s), y < line, "selection above a line"); c.check(SelectAllCriteria().mustBeProcessed(s), "not all selected"); }
PBT_MAIN(
  {"grouping", "more than three sources and a group of several sources", grouping, 25000, 800000},
  {"chain", "several sources grouped and a partition or deblending step", chain, 25000, 800000},
  {"criteria", "the boxes overlap", criteria, 40000, 1000000})
