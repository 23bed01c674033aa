// Threads: prefetcher, measurement pool and sorter deliver every source once, complete, in order, and end, whatever the schedule; a failing worker is reported.
// SRCS: SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp SEFramework/src/lib/Pipeline/SourceGrouping.cpp SEFramework/src/lib/Pipeline/Deblending.cpp SEImplementation/src/lib/Prefetcher/Prefetcher.cpp SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp SEMain/src/lib/Sorter.cpp
// FLAGS: -include @V/harness/jitter.h -I@REPO/SEMain
// LIBS: -lpthread -ldl
// SAN: address thread
#include "pbt.h"
#include "jitter_mutex.h"
#include <list>
#include <memory>
#include "SEFramework/Property/PropertyHolder.h"
#include "SEFramework/Source/SimpleSourceGroupFactory.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Pipeline/Deblending.h"
#include "SEImplementation/Output/FlushableOutput.h"
#include "SEImplementation/Prefetcher/Prefetcher.h"
#include "SEImplementation/Measurement/DummyMeasurement.h"
#include "SEImplementation/Measurement/MultithreadedMeasurement.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEImplementation/Plugin/GroupInfo/GroupInfo.h"
#include "SEMain/Sorter.h"
using namespace pbt;
using namespace SourceXtractor;
using Euclid::Table::Row; using Euclid::Table::ColumnInfo;
struct Num : Property { explicit Num(int v) : v(v) {} int v; };
struct Pre : Property { explicit Pre(int v) : v(v) {} int v; };
struct Share { std::atomic<int> alive{0}, computed{0}, next_id{1}; int bad_pre = -1, bad_row = -1, work = 0; std::thread::id owner; };
static uint64_t mix(uint64_t k, uint64_t i) { uint64_t z = k * 2654435761u + (i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; z *= 0xD6E8FEB86659FD93ull; return z ^ (z >> 29); }
static void spin(Share& sh, uint64_t i) { if (sh.work) { uint64_t r = mix(77, i) % 8; if (r == 0) usleep(useconds_t(50 * sh.work)); else if (r < 4) std::this_thread::yield(); } jit::jitter(4); }
// Memory of sources is used again at once, as a plain allocator would
struct Pool { static Pool& get() { static Pool p; return p; } std::atomic_flag f = ATOMIC_FLAG_INIT; std::vector<void*> free; void* take(size_t n) { while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); void* p = nullptr; if (!free.empty()) { p = free.back(); free.pop_back(); } f.clear(std::memory_order_release); return p ? p : ::operator new(n); } void give(void* p) { while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); free.push_back(p); f.clear(std::memory_order_release); } };
// Properties on demand: Pre is computed when asked for, SourceID is the next number
struct TestSource : SourceInterface {
  static void* operator new(size_t n) { return Pool::get().take(n); } static void operator delete(void* p) { Pool::get().give(p); }
  TestSource(int n, Share& s) : sh(s) { ++sh.alive; h.setProperty(std::make_unique<Num>(n), PropertyId::create<Num>(0)); num = n; } ~TestSource() { --sh.alive; }
  using SourceInterface::getProperty; using SourceInterface::setProperty;
  const Property& getProperty(const PropertyId& id) const override {
    if (!h.isPropertySet(id)) { if (id == PropertyId::create<Pre>(0)) { spin(sh, uint64_t(num)); if (num == sh.bad_pre) throw Elements::Exception() << "bad source"; ++sh.computed; pre = true; h.setProperty(std::make_unique<Pre>(num * 3 + 1), id); } else if (id == PropertyId::create<SourceID>(0)) h.setProperty(std::make_unique<SourceID>(unsigned(sh.next_id++), 0u), id); else throw PropertyNotFoundException(id); }
    return h.getProperty(id); }
  void setProperty(std::unique_ptr<Property> p, const PropertyId& id) override { h.setProperty(std::move(p), id); }
  Share& sh; int num; mutable PropertyHolder h; mutable bool pre = false; };
// Groups that have a number when one asks for it
struct TestGroup : SimpleSourceGroup { mutable std::unique_ptr<GroupInfo> info; using SourceInterface::getProperty; using SourceInterface::setProperty; const Property& getProperty(const PropertyId& id) const override { static std::atomic<unsigned> next{1}; if (id == PropertyId::create<GroupInfo>(0)) { if (!info) info = std::make_unique<GroupInfo>(next++); return *info; } return SimpleSourceGroup::getProperty(id); } };
struct TestGroups : SourceGroupFactory { std::unique_ptr<SourceGroupInterface> createSourceGroup() const override { return std::make_unique<TestGroup>(); } };
static int idOf(const SourceInterface& s) { return s.getProperty<Num>().v; }
struct Select : SelectionCriteria { std::set<int> ids; bool mustBeProcessed(const SourceInterface& s) const override { return ids.count(idOf(s)) > 0; } };
struct GraphCriteria : GroupingCriteria { uint64_t key; int density; GraphCriteria(uint64_t k, int d) : key(k), density(d) {} bool shouldGroup(const SourceInterface& a, const SourceInterface& b) const override { int x = idOf(a), y = idOf(b); return int(mix(key, uint64_t(std::min(x, y)) * 1000 + std::max(x, y)) % 1000) < density; } std::set<PropertyId> requiredProperties() const override { return {PropertyId::create<Pre>(0)}; } };
struct Dropper : DeblendStep { uint64_t key; int per; Dropper(uint64_t k, int p) : key(k), per(p) {} std::set<PropertyId> requiredProperties() const override { return {}; } void deblend(SourceGroupInterface& g) const override { for (auto it = g.begin(); it != g.end();) { if (int(mix(key, uint64_t(idOf(*it))) % 100) < per) it = g.removeSource(it); else ++it; } } };
struct Step { int source = -1; std::shared_ptr<Select> signal; };
static std::vector<Step> script(Case& c, int& serial, int n) { std::vector<Step> v; std::vector<int> open; for (int i = 0; i < n; ++i) { Step s; if (!open.empty() && c.s.coin(25)) { s.signal = std::make_shared<Select>(); for (auto it = open.begin(); it != open.end();) { if (c.s.coin(70)) { s.signal->ids.insert(*it); it = open.erase(it); } else ++it; } } else { s.source = serial; open.push_back(serial++); } v.push_back(s); } Step last; last.signal = std::make_shared<Select>(); last.signal->ids.insert(open.begin(), open.end()); v.push_back(last); return v; }
// Prefetcher alone: order of sources and signals, computed before delivery, one at a time, bounded queue. Sources die at once so that addresses come again.
struct Sink : PipelineReceiver<SourceInterface> { std::vector<int> log; std::string bad; std::atomic<int> inside{0}, delivered{0}; int keep = 0; Share* sh = nullptr; std::list<std::unique_ptr<SourceInterface>> kept;
  void receiveSource(std::unique_ptr<SourceInterface> s) override { if (++inside != 1) bad = "two deliveries at once"; auto t = static_cast<TestSource*>(s.get()); if (!t) { bad = "an empty source was delivered"; --inside; return; } if (!t->pre) bad = "a source was delivered before its property was computed"; log.push_back(t->num); ++delivered; if (int(mix(5, uint64_t(t->num)) % 100) < keep) kept.push_back(std::move(s)); else s.reset(); spin(*sh, uint64_t(log.size())); --inside; }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override { if (++inside != 1) bad = "two deliveries at once"; auto s = std::dynamic_pointer_cast<Select>(e.m_selection_criteria); log.push_back(-int(s->ids.size()) - 1); spin(*sh, uint64_t(log.size())); --inside; } };
static void prefetch(Case& c) {
  Share sh; sh.work = int(c.s.draw(2)); int threads = int(c.s.range(1, 6)), queue = int(c.s.skewed(1, 12)), n = int(c.s.skewed(1, 60)), serial = 0, frames = int(c.s.range(1, 3)); auto sink = std::make_shared<Sink>(); sink->sh = &sh; sink->keep = c.s.pick({0, 0, 50, 100}); c.note() << threads << " threads, queue of " << queue << ", " << n << " events, " << frames << " frames"; std::vector<int> want; int most = 0;
  uint64_t seed = c.s.draw(1 << 30); int level = int(c.s.draw(3)); std::string bad; jit::begin(seed, level);
  { auto pool = std::make_shared<Euclid::ThreadPool>(threads); Prefetcher p(pool, unsigned(queue)); p.setNextStage(sink); p.requestProperties(std::set<PropertyId>{PropertyId::create<Pre>(0)});
    for (int f = 0; f < frames && bad.empty(); ++f) { for (auto& s : script(c, serial, n)) { if (s.signal) { p.receiveProcessSignal(ProcessSourcesEvent(s.signal)); want.push_back(-int(s.signal->ids.size()) - 1); } else { p.receiveSource(std::make_unique<TestSource>(s.source, sh)); want.push_back(s.source); most = std::max(most, s.source + 1 - sink->delivered.load()); } } if (f + 1 < frames || c.s.coin()) { p.synchronize(); if (sink->log.size() != want.size()) bad = std::to_string(want.size() - sink->log.size()) + " events were not delivered when synchronize returned"; } }
    p.wait(); if (bad.empty() && sink->log.size() != want.size()) bad = "events were not delivered when wait returned"; }
  jit::end(); c.check(bad.empty(), bad); c.check(sink->bad.empty(), sink->bad); c.check(sink->log == want, "order of the events"); c.check(most <= queue, std::to_string(most) + " sources were in the prefetcher, the queue is limited to " + std::to_string(queue)); c.eq(sh.computed.load(), serial, "computations"); sink->kept.clear(); c.eq(sh.alive.load(), 0, "sources alive"); c.nontrivial(threads > 1 && serial > 4); }
// The whole chain against the same stages without threads
static Row toRow(const SourceInterface& s) { auto& t = s.getProperty<Num>(); static auto info = std::make_shared<ColumnInfo>(std::vector<ColumnInfo::info_type>{{"v", typeid(double)}}); return Row({double(t.v)}, info); }
struct Groups : PipelineReceiver<SourceGroupInterface> { std::vector<std::vector<int>> groups; std::atomic<int> inside{0}, signals{0}; std::string bad; void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { if (++inside != 1) bad = "two deliveries at once"; if (!g) bad = "an empty pointer was delivered"; else { std::vector<int> v; for (auto& s : *g) { v.push_back(idOf(s)); } groups.push_back(v); } --inside; } void receiveProcessSignal(const ProcessSourcesEvent&) override { ++signals; } };
struct Plain : PipelineReceiver<SourceGroupInterface>, PipelineEmitter<SourceGroupInterface> { void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { sendSource(std::move(g)); } void receiveProcessSignal(const ProcessSourcesEvent& e) override { sendProcessSignal(e); } };
static void chain(Case& c) {
  Share sh; sh.work = int(c.s.draw(2)); int threads = int(c.s.range(0, 6)), queue = int(c.s.skewed(1, 12)), n = int(c.s.skewed(1, 60)), serial = 0, frames = int(c.s.range(1, 3)), density = c.s.pick({0, 20, 150, 600}), drop = c.s.pick({0, 0, 30}); unsigned limit = c.s.coin() ? 0 : unsigned(c.s.range(1, 4)); uint64_t key = c.s.draw(1 << 20); bool pre = c.s.coin(70) && threads, sorted = c.s.coin(70), sync = c.s.coin(70);
  c.note() << threads << " threads, queue " << queue << (pre ? ", prefetcher" : "") << (sorted ? ", sorter" : "") << " density " << density << " limit " << limit << " drop " << drop << " frames " << frames << " events " << n; std::vector<std::vector<Step>> steps; for (int f = 0; f < frames; ++f) steps.push_back(script(c, serial, n));
  auto stages = [&](std::shared_ptr<SourceGrouping>& g, std::shared_ptr<Deblending>& d) { g = std::make_shared<SourceGrouping>(std::make_shared<GraphCriteria>(key, density), std::make_shared<TestGroups>(), limit); std::vector<std::shared_ptr<DeblendStep>> v; if (drop) v.push_back(std::make_shared<Dropper>(key, drop)); d = std::make_shared<Deblending>(v); g->setNextStage(d); };
  auto feed = [&](PipelineReceiver<SourceInterface>& r, const std::vector<Step>& f, Share& s) { for (auto& x : f) if (x.signal) r.receiveProcessSignal(ProcessSourcesEvent(x.signal)); else r.receiveSource(std::make_unique<TestSource>(x.source, s)); };
  Share rs; auto ref = std::make_shared<Groups>(); std::vector<size_t> upto; { std::shared_ptr<SourceGrouping> g; std::shared_ptr<Deblending> d; stages(g, d); d->setNextStage(ref); for (auto& f : steps) { feed(*g, f, rs); upto.push_back(ref->groups.size()); } }
  auto out = std::make_shared<Groups>(); std::string bad; std::atomic<int> rows{0}; uint64_t seed = c.s.draw(1 << 30); jit::begin(seed, int(c.s.draw(3)));
  { std::shared_ptr<Euclid::ThreadPool> pool; if (threads) pool = std::make_shared<Euclid::ThreadPool>(threads); std::shared_ptr<SourceGrouping> g; std::shared_ptr<Deblending> d; stages(g, d); std::shared_ptr<Measurement> m; if (threads) m = std::make_shared<MultithreadedMeasurement>([&](const SourceInterface& s) { spin(sh, uint64_t(idOf(s)) + 1000); s.getProperty<Pre>(); ++rows; return toRow(s); }, pool, unsigned(queue)); else m = std::make_shared<DummyMeasurement>();
    std::shared_ptr<Prefetcher> p; if (pre) { p = std::make_shared<Prefetcher>(pool, unsigned(queue)); p->requestProperties(g->requiredProperties()); p->setNextStage(g); } d->setNextStage(m); if (sorted) { auto s = std::make_shared<Sorter>(); m->setNextStage(s); s->setNextStage(out); } else m->setNextStage(out);
    m->startThreads(); for (int f = 0; f < frames && bad.empty(); ++f) { feed(p ? static_cast<PipelineReceiver<SourceInterface>&>(*p) : *g, steps[size_t(f)], sh); if (sync || f + 1 < frames) { if (p) p->synchronize(); m->synchronizeThreads(); if (out->groups.size() != upto[size_t(f)]) bad = std::to_string(out->groups.size()) + " of " + std::to_string(upto[size_t(f)]) + " groups were delivered when the synchronisation returned"; } }
    if (p) p->wait(); m->stopThreads(); if (bad.empty() && out->groups.size() != ref->groups.size()) bad = std::to_string(out->groups.size()) + " of " + std::to_string(ref->groups.size()) + " groups were delivered in the end"; }
  jit::end(); c.check(bad.empty(), bad); c.check(out->bad.empty(), out->bad); auto want = ref->groups, got = out->groups; c.eq(out->signals.load(), ref->signals.load(), "signals delivered"); if (!sorted && threads) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); } c.check(got == want, sorted ? "groups, in order" : "groups, in any order"); if (threads) { int k = 0; for (auto& g : want) k += int(g.size()); c.eq(rows.load(), k, "sources measured before they were delivered"); } c.eq(sh.alive.load(), 0, "sources alive"); size_t big = 0; for (auto& g : want) big = std::max(big, g.size()); c.nontrivial(threads > 1 && want.size() > 3 && big > 1); c.label(pre ? "prefetcher" : "no prefetcher"); c.label(sync ? "synchronised" : "stopped at once"); }
// A worker fails: whoever waits is told, and everything ends
static void failing(Case& c) {
  Share sh; sh.work = int(c.s.draw(2)); int threads = int(c.s.range(1, 5)), queue = int(c.s.skewed(1, 12)), n = int(c.s.skewed(1, 40)), serial = 0; bool prefetcher = c.s.coin(), atStop = c.s.coin(); auto steps = script(c, serial, n); (prefetcher ? sh.bad_pre : sh.bad_row) = int(c.s.draw(uint64_t(serial - 1))); c.note() << threads << " threads, queue " << queue << (prefetcher ? ", prefetching source " : ", measuring source ") << std::max(sh.bad_pre, sh.bad_row) << " of " << serial << " fails"; c.label(prefetcher ? "prefetch" : "measure"); c.label(serial > queue ? "more sources than the queue holds" : "queue not full");
  auto out = std::make_shared<Groups>(); bool told = false; std::string other; jit::begin(c.s.draw(1 << 30), int(c.s.draw(3)));
  { auto pool = std::make_shared<Euclid::ThreadPool>(threads); auto g = std::make_shared<SourceGrouping>(std::make_shared<GraphCriteria>(1, 0), std::make_shared<TestGroups>(), 0); auto d = std::make_shared<Deblending>(std::vector<std::shared_ptr<DeblendStep>>()); auto m = std::make_shared<MultithreadedMeasurement>([&](const SourceInterface& s) { spin(sh, uint64_t(idOf(s)) + 1000); if (idOf(s) == sh.bad_row) throw Elements::Exception() << "bad source"; return toRow(s); }, pool, unsigned(queue)); auto p = std::make_shared<Prefetcher>(pool, unsigned(queue)); p->requestProperties(g->requiredProperties()); p->setNextStage(g); g->setNextStage(d); d->setNextStage(m); m->setNextStage(out); m->startThreads();
    try { for (auto& x : steps) if (x.signal) p->receiveProcessSignal(ProcessSourcesEvent(x.signal)); else p->receiveSource(std::make_unique<TestSource>(x.source, sh)); p->synchronize(); if (!atStop) m->synchronizeThreads(); m->stopThreads(); } catch (const std::exception& e) { told = true; if (!std::strstr(e.what(), "bad source")) other = e.what(); } }
  jit::end(); c.check(told, "nobody was told of the failure"); std::set<int> seen; for (auto& gr : out->groups) for (int i : gr) { c.check(seen.insert(i).second, "source " + std::to_string(i) + " was delivered twice"); c.check(i != sh.bad_pre && i != sh.bad_row, "the source which failed was delivered"); } c.eq(sh.alive.load(), 0, "sources alive"); c.nontrivial(serial > 2 && threads > 1); }
// Stages that never ran, or ran without any source, end as well
static void idle(Case& c) {
  int threads = int(c.s.range(1, 4)); bool start = c.s.coin(), stop = start && c.s.coin(); c.note() << threads << (start ? " started" : " not started") << (stop ? " stopped" : ""); c.nontrivial(start); jit::begin(c.s.draw(1 << 30), int(c.s.draw(3)));
  { auto pool = std::make_shared<Euclid::ThreadPool>(threads); MultithreadedMeasurement m(toRow, pool, 3); if (start) { m.startThreads(); m.synchronizeThreads(); } if (stop) m.stopThreads(); else if (start) pool.reset(), m.stopThreads(); } { auto pool = std::make_shared<Euclid::ThreadPool>(threads); Prefetcher p(pool, 2); if (c.s.coin()) p.synchronize(); if (c.s.coin()) p.wait(); } jit::end(); }
PBT_MAIN(
  {"prefetch", "several threads and more than four sources", prefetch, 8000, 120000, 12, true},
  {"chain", "several threads and groups, one of them of several sources", chain, 9000, 150000, 12, true},
  {"failing", "several threads and sources", failing, 6000, 60000, 12, true},
  {"idle", "threads were started", idle, 2000, 20000, 12, true})
