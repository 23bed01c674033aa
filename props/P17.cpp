// On-demand properties: a property read from a source, a member of a group or a group is the function of the current membership, computed at most once between changes, explicit values win, unknown ones throw.
// SRCS: SEFramework/src/lib/Source/EntangledSource.cpp SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp SEFramework/src/lib/Task/TaskFactoryRegistry.cpp SEFramework/src/lib/Task/TaskProvider.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp
// LIBS: -lpthread
#include "pbt.h"
#include <list>
#include <memory>
#include <mutex>
#include <thread>
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Source/SimpleSourceFactory.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Source/SourceWithOnDemandPropertiesFactory.h"
#include "SEFramework/Source/SourceGroupWithOnDemandProperties.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Source/SimpleSourceGroupFactory.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/GroupTask.h"
using namespace pbt;
using namespace SourceXtractor;
template <int K> struct Num : Property { explicit Num(double v) : value(v) {} double value; };
using Id = Num<0>;      // set when the source is made
using Base = Num<1>;    // source task: from Id
using Derived = Num<2>; // source task: from Base, sets Twin as well
using Twin = Num<3>;    // the same task as Derived
using Sum = Num<4>;     // group task: sum of Base over the members
using Rank = Num<5>;    // group task: sets on every member its share of Sum
using Override = Num<6>;// source task; also set explicitly
using Failing = Num<7>; // source task that throws
using Forgets = Num<8>; // source task that sets nothing
using GFails = Num<9>;  // group task that throws
using Unknown = Num<10>;// no factory
using Both = Num<11>;   // group task that sets it on the group and on the members, with different values
static std::mutex g_mutex; static std::map<std::pair<double, std::string>, int> g_runs; static std::map<PropertyId, int> g_created; static int g_configured = 0, g_reported = 0;
static void ran(double who, const std::string& what) { std::lock_guard<std::mutex> l(g_mutex); ++g_runs[{who, what}]; }
static double fBase(double id, unsigned i) { return id * 10 + i + 1; }
static double fDerived(double base, unsigned i) { return base * 3 - i; }
static double fOverride(double id, unsigned i) { return -id - i; }
struct SourceFn : SourceTask { unsigned i; int kind; SourceFn(int k, unsigned i_) : i(i_), kind(k) {}
  void computeProperties(SourceInterface& s) const override {
    double id = s.getProperty<Id>().value;
    switch (kind) {
    case 1: ran(id, "Base" + std::to_string(i)); s.setIndexedProperty<Base>(i, fBase(id, i)); break;
    case 2: { ran(id, "Derived" + std::to_string(i)); double b = s.getProperty<Base>(i).value; s.setIndexedProperty<Derived>(i, fDerived(b, i)); s.setIndexedProperty<Twin>(i, fDerived(b, i) + 0.5); break; }
    case 6: ran(id, "Override" + std::to_string(i)); s.setIndexedProperty<Override>(i, fOverride(id, i)); break;
    case 7: throw Elements::Exception() << "cannot compute";
    case 8: break; } } };
struct GroupFn : GroupTask { unsigned i; int kind; GroupFn(int k, unsigned i_) : i(i_), kind(k) {}
  static double first(SourceGroupInterface& g) { double v = 0; for (auto& s : g) { double x = s.getProperty<Id>().value; if (v == 0 || x < v) v = x; } return v; }
  void computeProperties(SourceGroupInterface& g) const override {
    switch (kind) {
    case 4: { ran(-first(g), "Sum" + std::to_string(i)); double t = 0; for (auto& s : g) t += s.getProperty<Base>(i).value; g.setIndexedProperty<Sum>(i, t); break; }
    case 5: { ran(-first(g), "Rank" + std::to_string(i)); double t = g.getProperty<Sum>(i).value; for (auto& s : g) s.setIndexedProperty<Rank>(i, s.getProperty<Derived>(i).value / t); break; }
    case 9: throw Elements::Exception() << "cannot compute";
    case 11: ran(-first(g), "Both" + std::to_string(i)); g.setIndexedProperty<Both>(i, double(g.size())); for (auto& s : g) s.setIndexedProperty<Both>(i, s.getProperty<Id>().value + 1000.0 * g.size()); break; } } };
template <int K> struct Factory : TaskFactory {
  std::shared_ptr<Task> createTask(const PropertyId& p) const override { { std::lock_guard<std::mutex> l(g_mutex); ++g_created[p]; } if (K == 4 || K == 5 || K == 9 || K == 11) return std::make_shared<GroupFn>(K, p.getIndex()); return std::make_shared<SourceFn>(K, p.getIndex()); }
  void configure(Euclid::Configuration::ConfigManager&) override { ++g_configured; }
  void reportConfigDependencies(Euclid::Configuration::ConfigManager&) const override { ++g_reported; } };
static std::shared_ptr<TaskFactoryRegistry> makeRegistry() { auto r = std::make_shared<TaskFactoryRegistry>(); r->registerTaskFactory<Factory<1>, Base>(); r->registerTaskFactory<Factory<2>, Derived, Twin>(); r->registerTaskFactory<Factory<4>, Sum>(); r->registerTaskFactory<Factory<5>, Rank>(); r->registerTaskFactory<Factory<6>, Override>(); r->registerTaskFactory<Factory<7>, Failing>(); r->registerTaskFactory<Factory<8>, Forgets>(); r->registerTaskFactory<Factory<9>, GFails>(); r->registerTaskFactory<Factory<11>, Both>(); return r; }
template <typename P, typename H> static void missing(Case& c, const H& h, unsigned i, const std::string& what) { try { h.template getProperty<P>(i); } catch (const PropertyNotFoundException&) { return; } catch (const std::exception& e) { c.fail(what + " raised something else than PropertyNotFoundException: " + e.what()); } c.fail(what + " was found"); }
// what a source is known to hold: explicit values; base[i] < 0 stands for the default function
struct Src0 { double id; std::map<unsigned, double> base, over; std::map<unsigned, bool> gone; bool overSetInGroup = false; std::map<unsigned, double> memberOver; std::set<unsigned> vague; };
static double vBase(Src0& s, unsigned i) { auto it = s.base.find(i); return it == s.base.end() ? s.base[i] = fBase(s.id, i) : it->second; }
struct Group { std::unique_ptr<SourceGroupInterface> g; std::list<Src0> m; std::map<unsigned, const Property*> sums; int epoch = 0; std::map<unsigned, double> overSum; };
static void history(Case& c) {
  g_runs.clear(); g_created.clear(); auto provider = std::make_shared<TaskProvider>(makeRegistry()); SourceWithOnDemandPropertiesFactory sf(provider); SourceGroupWithOnDemandPropertiesFactory gf(provider);
  std::vector<std::pair<std::unique_ptr<SourceInterface>, Src0>> free; std::vector<Group> groups; double next = 1; int reads = 0, changes = 0, stale_risk = 0; std::map<std::pair<double, std::string>, int> limit; // how often a task may have run
  auto changed = [&](Group& g) { ++changes; g.sums.clear(); g.overSum.clear(); for (auto& s : g.m) { for (auto& o : s.memberOver) s.vague.insert(o.first); s.memberOver.clear(); } ++g.epoch; g_runs.clear(); };
  std::map<std::pair<double, std::string>, int> sourceRuns; // over the whole life of a source
  auto account = [&] { for (auto& r : g_runs) { if (r.first.first > 0) { int n = sourceRuns[r.first] += r.second; c.check(n <= 1, "property " + r.first.second + " of source " + std::to_string(int(r.first.first)) + " was computed " + std::to_string(n) + " times"); } else if (r.first.first < 0) c.check(r.second <= 1, "group property " + r.first.second + " was computed twice for the same members"); } for (auto it = g_runs.begin(); it != g_runs.end();) it = it->first.first > 0 ? g_runs.erase(it) : std::next(it); };
  auto readSource = [&](const SourceInterface& s, Src0& m, bool member, unsigned i, int what) { std::string at = " [" + std::to_string(i) + "] of source " + std::to_string(int(m.id)); ++reads;
    switch (what) {
    case 0: c.eq(s.getProperty<Id>().value, m.id, "Id" + at); break;
    case 1: c.eq(s.getProperty<Base>(i).value, vBase(m, i), "Base" + at); break;
    case 2: { double v = s.getProperty<Derived>(i).value; c.eq(v, fDerived(vBase(m, i), i), "Derived" + at); m.gone[i] = true; c.check(&s.getProperty<Derived>(i) == &s.getProperty<Derived>(i), "a second read returned another object"); break; }
    case 3: c.eq(s.getProperty<Twin>(i).value, fDerived(vBase(m, i), i) + 0.5, "Twin" + at); m.gone[i] = true; break;
    case 4: { if (member && m.vague.count(i)) break; auto it = m.memberOver.find(i); if (member && it != m.memberOver.end()) { c.eq(s.getProperty<Override>(i).value, it->second, "value set on the member" + at); break; } auto o = m.over.find(i); if (o == m.over.end()) o = m.over.emplace(i, fOverride(m.id, i)).first; c.eq(s.getProperty<Override>(i).value, o->second, "Override" + at); break; }
    case 5: missing<Failing>(c, s, i, "a property whose task fails"); break;
    case 6: missing<Forgets>(c, s, i, "a property whose task does not set it"); break;
    case 7: missing<Unknown>(c, s, i, "a property without a task"); break;
    case 8: if (!member) { missing<Sum>(c, s, i, "a group property of a source outside a group"); missing<Rank>(c, s, i, "a member property of a source outside a group"); } break; }
    account(); };
  auto total = [&](Group& g, unsigned i) { double t = 0; for (auto& s : g.m) t += vBase(s, i); return t; };
  int steps = int(c.s.skewed(5, 80));
  for (int k = 0; k < steps; ++k) {
    unsigned i = unsigned(c.s.draw(2)); int op = int(c.s.draw(13));
    if (op <= 1 || (free.empty() && groups.empty())) { // make a source
      auto s = sf.createSource(); Src0 m; m.id = next++; s->setProperty<Id>(m.id); if (c.s.coin(25)) { double v = double(c.s.range(1, 50)); s->setIndexedProperty<Base>(i, v); m.base[i] = v; } if (c.s.coin(25)) { double v = double(c.s.range(1, 50)); s->setIndexedProperty<Override>(i, v); m.over[i] = v; } free.emplace_back(std::move(s), m); c.note() << "new(" << m.id << ") ";
    } else if (op == 2 && !free.empty()) { auto& f = c.s.pick(free); readSource(*f.first, const_cast<Src0&>(f.second), false, i, int(c.s.draw(8)));
    } else if (op == 3 && !free.empty()) { auto& f = const_cast<std::pair<std::unique_ptr<SourceInterface>, Src0>&>(c.s.pick(free)); double v = double(c.s.range(51, 99)); f.first->setIndexedProperty<Override>(i, v); f.second.over[i] = v; // explicit values win, also over values computed before
    } else if (op <= 5 && !free.empty()) { // into a group
      size_t fi = c.s.draw(free.size() - 1); if (groups.empty() || c.s.coin(30)) { Group g; g.g = gf.createSourceGroup(); groups.push_back(std::move(g)); c.check(groups.back().g->size() == 0 && groups.back().g->begin() == groups.back().g->end(), "a new group is not empty"); }
      size_t gi = c.s.draw(groups.size() - 1); auto& g = groups[gi]; c.note() << "add(" << free[fi].second.id << "->" << gi << ") "; g.m.push_back(free[fi].second); if (g.sums.size()) ++stale_risk;
      if (c.s.coin(20)) { std::vector<std::unique_ptr<SourceInterface>> v; v.push_back(std::move(free[fi].first)); g.g->addAllSources(std::move(v)); c.check(v.empty(), "addAllSources left the collection"); } else g.g->addSource(std::move(free[fi].first)); free.erase(free.begin() + fi); changed(g);
    } else if (op == 6 && !groups.empty()) { // take one out
      size_t gi = c.s.draw(groups.size() - 1); auto& g = groups[gi]; if (g.m.empty()) continue; size_t p = c.s.draw(g.m.size() - 1); auto it = g.g->begin(); std::advance(it, p); auto mi = g.m.begin(); std::advance(mi, p); if (g.sums.size()) ++stale_risk; c.note() << "remove(" << mi->id << " of " << gi << ") "; it = g.g->removeSource(it); mi = g.m.erase(mi); c.check((it == g.g->end()) == (mi == g.m.end()), "the iterator after a removal"); if (mi != g.m.end()) c.eq(it->getProperty<Id>().value, mi->id, "the source after the removed one"); changed(g);
    } else if (op == 7 && groups.size() > 1) { // merge
      size_t a = c.s.draw(groups.size() - 1), b = c.s.draw(groups.size() - 1); if (a == b) continue; if (groups[a].sums.size() || groups[b].sums.size()) ++stale_risk; c.note() << "merge(" << a << "<-" << b << ") "; for (auto& s : groups[b].m) { for (auto& o : s.memberOver) s.vague.insert(o.first); s.memberOver.clear(); } groups[a].g->merge(std::move(*groups[b].g)); c.eq(groups[b].g->size(), 0u, "size of a group after it was merged into another"); groups[a].m.splice(groups[a].m.end(), groups[b].m); changed(groups[a]); groups.erase(groups.begin() + b);
    } else if (op <= 11 && !groups.empty()) { // read
      auto& g = groups[c.s.draw(groups.size() - 1)]; bool empty = g.m.empty(); int what = int(c.s.draw(13)); c.note() << "read" << what << "[" << i << "] of " << (&g - &groups[0]) << " ";
      if (what <= 8) { if (empty) continue; size_t p = c.s.draw(g.m.size() - 1); auto it = g.g->begin(); std::advance(it, p); auto mi = g.m.begin(); std::advance(mi, p); readSource(*it, *mi, true, i, what);
        if (what == 8) { std::string at = " seen by a member"; double v = it->getProperty<Sum>(i).value; c.eq(v, g.overSum.count(i) ? g.overSum[i] : total(g, i), "Sum" + at); g.sums[i] = nullptr; account(); } }
      else if (what == 9) { const auto& p = g.g->getProperty<Sum>(i); c.eq(p.value, g.overSum.count(i) ? g.overSum[i] : total(g, i), "Sum of the group"); c.check(!g.sums[i] || g.sums[i] == &p, "the group property moved although nothing changed"); g.sums[i] = &p; }
      else if (what == 10) { if (empty) continue; double t = g.overSum.count(i) ? g.overSum[i] : total(g, i); auto mi = g.m.begin(); for (auto& s : *g.g) { c.close(s.getProperty<Rank>(i).value, fDerived(vBase(*mi, i), i) / t, 1e-12, 0, "Rank of source " + std::to_string(int(mi->id))); ++mi; } if (!g.sums.count(i)) g.sums[i] = nullptr; }
      else if (what == 11) { bool first = c.s.coin() || empty; if (first) c.eq(g.g->getProperty<Both>(i).value, double(g.m.size()), "Both of the group"); if (empty) continue; auto mi = g.m.begin(); for (auto& s : *g.g) { c.eq(s.getProperty<Both>(i).value, mi->id + 1000.0 * g.m.size(), "Both of a member"); ++mi; } g.sums[i + 100] = nullptr; c.eq(g.g->getProperty<Both>(i).value, double(g.m.size()), "Both of the group"); }
      else if (what == 12) { missing<GFails>(c, *g.g, i, "a group property whose task fails"); missing<Unknown>(c, *g.g, i, "a group property without a task"); missing<Base>(c, *g.g, i, "a source property of a group"); missing<Rank>(c, *g.g, i + 50, "a member property of a group"); g_runs.clear(); }
      else if (c.s.coin(50) && !g.sums.count(i)) { double v = double(c.s.range(100, 200)); g.g->setIndexedProperty<Sum>(i, v); g.overSum[i] = v; g.sums[i] = nullptr; }
      ++reads; account();
    } else if (op == 12 && !groups.empty()) { auto& g = groups[c.s.draw(groups.size() - 1)]; if (g.m.empty()) continue; size_t p = c.s.draw(g.m.size() - 1); auto it = g.g->begin(); std::advance(it, p); auto mi = g.m.begin(); std::advance(mi, p); double v = double(c.s.range(200, 300)); it->setIndexedProperty<Override>(i, v); mi->memberOver[i] = v; mi->vague.erase(i);
    } else if (op == 13 && groups.size() > 1) { groups.erase(groups.begin() + c.s.draw(groups.size() - 1)); }
    for (auto& g : groups) { c.eq(size_t(g.g->size()), g.m.size(), "size of a group"); auto mi = g.m.begin(); for (auto& s : *g.g) { c.check(mi != g.m.end(), "more sources than the size tells"); c.eq(s.getProperty<Id>().value, mi->id, "order of the members"); ++mi; } c.check(mi == g.m.end(), "fewer sources than the size tells"); }
  }
  for (auto& p : g_created) c.eq(p.second, 1, "tasks created for " + p.first.getString());
  c.nontrivial(stale_risk > 0 && reads > 0); c.label(changes > 3 ? "many changes of membership" : changes ? "few changes of membership" : "no groups"); c.label("change after group property was read", stale_risk > 0); }
// Explicit holders: what was set last is what is read, per type and index; nothing else is there
static void simple(Case& c) {
  auto source = SimpleSourceFactory().createSource(); auto group = SimpleSourceGroupFactory().createSourceGroup(); auto other = SimpleSourceGroupFactory().createSourceGroup(); std::map<std::pair<int, unsigned>, double> want, gwant; std::vector<double> ids, ids2; double next = 1; int n = int(c.s.range(1, 40)), merges = 0;
  for (int k = 0; k < n; ++k) { unsigned i = c.s.coin(10) ? 4000000000u : unsigned(c.s.draw(4)); double v = double(c.s.range(0, 1000)); int t = int(c.s.draw(2));
    switch (c.s.draw(5)) {
    case 0: if (t == 0) source->setIndexedProperty<Id>(i, v); else if (t == 1) source->setIndexedProperty<Base>(i, v); else source->setIndexedProperty<Sum>(i, v); want[{t, i}] = v; break;
    case 1: { if (t == 0) group->setIndexedProperty<Id>(i, v); else if (t == 1) group->setIndexedProperty<Base>(i, v); else group->setIndexedProperty<Sum>(i, v); gwant[{t, i}] = v; break; }
    case 2: { auto s = SimpleSourceFactory().createSource(); s->setProperty<Id>(next); bool o = c.s.coin(40); (o ? ids2 : ids).push_back(next++); (o ? other : group)->addSource(std::move(s)); gwant.clear(); group = [&] { auto g = SimpleSourceGroupFactory().createSourceGroup(); g->merge(std::move(*group)); return g; }(); break; }
    case 3: if (!ids.empty()) { size_t p = c.s.draw(ids.size() - 1); auto it = group->begin(); std::advance(it, p); it = group->removeSource(it); ids.erase(ids.begin() + p); if (p < ids.size()) c.eq(it->getProperty<Id>().value, ids[p], "source after the removed one"); else c.check(it == group->end(), "iterator after the last"); gwant.clear(); auto g = SimpleSourceGroupFactory().createSourceGroup(); g->merge(std::move(*group)); group = std::move(g); } break;
    case 4: group->merge(std::move(*other)); ids.insert(ids.end(), ids2.begin(), ids2.end()); merges += !ids2.empty(); ids2.clear(); gwant.clear(); c.eq(other->size(), 0u, "size after being merged"); break;
    default: { for (unsigned j = 0; j < 5; ++j) for (int u = 0; u < 3; ++u) { auto get = [&](auto& h) { return u == 0 ? h.template getProperty<Id>(j).value : u == 1 ? h.template getProperty<Base>(j).value : h.template getProperty<Sum>(j).value; }; auto lost = [&](auto& h) { if (u == 0) missing<Id>(c, h, j, "a property never set"); else if (u == 1) missing<Base>(c, h, j, "a property never set"); else missing<Sum>(c, h, j, "a property never set"); };
        auto it = want.find({u, j}); if (it == want.end()) lost(*source); else c.eq(get(*source), it->second, "property of a simple source"); auto gt = gwant.find({u, j}); if (gt == gwant.end()) lost(*group); else c.eq(get(*group), gt->second, "property of a simple group"); } } }
    c.eq(size_t(group->size()), ids.size(), "size"); size_t p = 0; for (auto& s : *group) c.eq(s.getProperty<Id>().value, ids.at(p++), "order of the members"); p = 0; for (auto it = group->cbegin(); it != group->cend(); ++it) ++p; c.eq(p, ids.size(), "length of the constant range"); }
  c.nontrivial(want.size() > 1 && merges > 0); }
// Factories: one per property type, each configured once however many properties it serves; one task per property and index, also when many threads ask
static void registry(Case& c) {
  g_created.clear(); g_configured = g_reported = 0; auto r = std::make_shared<TaskFactoryRegistry>(); std::set<int> taken; int factories = 0, refused = 0, n = int(c.s.skewed(1, 6));
  auto tryReg = [&](std::initializer_list<int> ids, auto fn) { bool dup = false; for (int i : ids) dup = dup || taken.count(i); bool thrown = false; try { fn(); } catch (const TaskFactoryRegistry::DuplicateFactoryException&) { thrown = true; } c.eq(thrown, dup, "refusal of a second factory for a property"); for (int i : ids) { if (taken.count(i)) break; taken.insert(i); } if (!thrown) ++factories; else ++refused; };
  for (int k = 0; k < n && !refused; ++k) switch (c.s.draw(4)) { case 0: tryReg({1}, [&] { r->registerTaskFactory<Factory<1>, Base>(); }); break; case 1: tryReg({2, 3}, [&] { r->registerTaskFactory<Factory<2>, Derived, Twin>(); }); break; case 2: tryReg({4}, [&] { r->registerTaskFactory<Factory<4>, Sum>(); }); break; case 3: tryReg({5, 11}, [&] { r->registerTaskFactory<Factory<5>, Rank, Both>(); }); break; default: tryReg({6, 1}, [&] { r->registerTaskFactory<Factory<6>, Override, Base>(); }); }
  if (!refused) { auto& m = Euclid::Configuration::ConfigManager::getInstance(17); r->reportConfigDependencies(m); r->configure(m); c.eq(g_configured, factories, "factories configured"); c.eq(g_reported, factories, "factories asked for their configuration"); }
  TaskProvider p(r); std::vector<std::thread> threads; std::atomic<int> bad{0}, go{0}; std::mutex lock; std::map<std::pair<int, unsigned>, std::set<const Task*>> seen; int nt = int(c.s.range(1, 6)), each = int(c.s.range(1, 20)); uint64_t key = c.s.draw(1 << 20);
  for (int t = 0; t < nt; ++t) threads.emplace_back([&, t] { ++go; while (go < nt) std::this_thread::yield(); for (int k = 0; k < each; ++k) { uint64_t h = (key + t * 131 + k) * 0x9E3779B97F4A7C15ull; int w = int((h >> 20) % 3); unsigned i = unsigned((h >> 40) % 3); bool have = taken.count(w == 0 ? 1 : w == 1 ? 3 : 4); try { std::shared_ptr<const Task> task; if (w == 0) task = p.getTask<SourceTask>(PropertyId::create<Base>(i)); else if (w == 1) task = p.getTask<SourceTask>(PropertyId::create<Twin>(i)); else task = p.getTask<GroupTask>(PropertyId::create<Sum>(i)); if (!have || !task) ++bad; std::lock_guard<std::mutex> l(lock); seen[{w, i}].insert(task.get()); } catch (const Elements::Exception&) { if (have) ++bad; } } });
  for (auto& t : threads) t.join(); c.eq(bad.load(), 0, "wrong answers of the task provider"); for (auto& s : seen) c.eq(s.second.size(), size_t(1), "different tasks for one property"); for (auto& g : g_created) c.eq(g.second, 1, "tasks created for " + g.first.getString());
  if (taken.count(1)) { c.check(!p.getTask<GroupTask>(PropertyId::create<Base>(0)), "a source task was handed out as a group task"); } TaskProvider none(nullptr); c.check(!none.getTask<SourceTask>(PropertyId::create<Base>(0)), "a provider without factories has a task");
  c.nontrivial(nt > 1 && !seen.empty()); c.label(refused ? "duplicate" : "no duplicate"); }
// Property ids: equal exactly when type and index are, ordered strictly, hashed consistently
static void ids(Case& c) {
  auto make = [&](int t, unsigned i) { return t == 0 ? PropertyId::create<Id>(i) : t == 1 ? PropertyId::create<Base>(i) : t == 2 ? PropertyId::create<Sum>(i) : PropertyId::create<SimpleSource>(i); };
  std::vector<std::pair<int, unsigned>> k; for (int i = 0; i < 3; ++i) k.emplace_back(int(c.s.draw(3)), c.s.coin(20) ? unsigned(c.s.draw(0xffffffffu)) : unsigned(c.s.draw(3))); std::vector<PropertyId> p; for (auto& x : k) p.push_back(make(x.first, x.second)); c.nontrivial(k[0] != k[1]);
  for (int i = 0; i < 3; ++i) { c.eq(p[i].getIndex(), k[i].second, "index"); for (int j = 0; j < 3; ++j) { bool same = k[i] == k[j]; c.eq(p[i] == p[j], same, "equality"); c.check((p[i] < p[j]) + (p[j] < p[i]) == (same ? 0 : 1), "ids are not ordered"); if (same) c.check(std::hash<PropertyId>()(p[i]) == std::hash<PropertyId>()(p[j]), "equal ids have different hashes"); c.eq(p[i].getString() == p[j].getString(), same, "printed form"); for (int l = 0; l < 3; ++l) if (p[i] < p[j] && p[j] < p[l]) c.check(p[i] < p[l], "order is not transitive"); } } }
PBT_MAIN(
  {"history", "a group property was read, the membership changed, and something was read again", history, 60000, 2000000},
  {"simple", "several explicit properties and a merge that moved sources", simple, 60000, 1000000},
  {"registry", "more than one thread obtained a task", registry, 2000, 60000, 60, true},
  {"ids", "different ids", ids, 60000, 1000000})
