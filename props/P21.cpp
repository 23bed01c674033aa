// Segmentation finds exactly the 8-connected components above the threshold; partition and cleaning conserve pixels and ids and split where defined.
// SRCS: SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp SEFramework/src/lib/Task/TaskProvider.cpp SEFramework/src/lib/Task/TaskFactoryRegistry.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp SEFramework/src/lib/Pipeline/Segmentation.cpp SEImplementation/src/lib/Segmentation/Lutz.cpp SEImplementation/src/lib/Segmentation/LutzSegmentation.cpp SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp SEImplementation/src/lib/Partition/MinAreaPartitionStep.cpp SEImplementation/src/lib/Deblending/Cleaning.cpp SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/TileManager.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEImplementation/src/lib/Grouping/LineSelectionCriteria.cpp SEImplementation/src/lib/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.cpp SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTask.cpp SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.cpp SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTaskFactory.cpp SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTaskFactory.cpp SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp ModelFitting/src/lib/Models/FlattenedMoffatComponent.cpp ModelFitting/src/lib/Models/ScaledModelComponent.cpp ModelFitting/src/lib/Models/PositionedModel.cpp ModelFitting/src/lib/Models/RotatedModelComponent.cpp ModelFitting/src/lib/Parameters/BasicParameter.cpp 
// LIBS: -lpthread
#include "detect.h"
#include "SEFramework/Pipeline/Segmentation.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceFactory.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Deblending/Cleaning.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Partition/AttractorsPartitionStep.h"
#include "SEImplementation/Partition/MinAreaPartitionStep.h"
#include "SEImplementation/Partition/MultiThresholdPartitionStep.h"
#include "SEImplementation/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelEvaluator.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelFitting.h"
#include "SEImplementation/Segmentation/BFSSegmentation.h"
#include "SEImplementation/Segmentation/Lutz.h"
#include "SEImplementation/Segmentation/LutzSegmentation.h"
using namespace pbt;
using namespace detect;

// Patterns of object pixels which make segments start, join and end in every way
static std::vector<char> pattern(Case& c, int w, int h) {
  std::vector<char> m(size_t(w) * h); int kind = int(c.s.draw(6)); uint64_t key = c.s.draw(1 << 20);
  auto at = [&](int x, int y) -> char& { static char dummy; return x >= 0 && y >= 0 && x < w && y < h ? m[size_t(y) * w + x] : dummy; };
  if (kind == 0) { int d = c.s.pick({5, 20, 35, 41, 48, 60, 85, 100}); for (size_t i = 0; i < m.size(); ++i) m[i] = int(mix(key, i) % 100) < d; }
  else if (kind == 1) { bool open = c.s.coin(); int step = int(c.s.range(2, 4)); for (int x = 0; x < w; x += step) for (int y = 0; y < h; ++y) at(x, y) = 1; for (int x = 0; x + step < w; x += step) { int y = open ? ((x / step) % 2 ? 0 : h - 1) : int(mix(key, x) % h); for (int i = 0; i < step; ++i) at(x + i, y) = 1; } }
  else if (kind == 2) { for (int r = 0; 2 * r < std::min(w, h); r += 2) { for (int x = r; x < w - r; ++x) at(x, r) = at(x, h - 1 - r) = 1; for (int y = r; y < h - r; ++y) at(r, y) = at(w - 1 - r, y) = 1; if (mix(key, r) % 3 == 0) at(r + int(mix(key, r + 99) % std::max(1, w - 2 * r)), mix(key, r + 7) % 2 ? r : h - 1 - r) = 0; if (mix(key, r + 3) % 2 == 0) at(r + 1, r + 1) = 1; } }
  else if (kind == 3) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) at(x, y) = (x + y) % 2; }
  else if (kind == 4) { int n = int(c.s.range(1, 12)); for (int i = 0; i < n; ++i) { int x = int(mix(key, 4 * i) % w), y = int(mix(key, 4 * i + 1) % h), a = int(mix(key, 4 * i + 2) % (w / 2 + 1)), b = int(mix(key, 4 * i + 3) % (h / 2 + 1)); bool frame = mix(key, i + 500) % 2; for (int v = 0; v <= b; ++v) for (int u = 0; u <= a; ++u) if (!frame || u == 0 || v == 0 || u == a || v == b) at(x + u, y + v) = 1; } }
  else if (kind == 5) { int n = int(c.s.range(1, 10)); for (int i = 0; i < n; ++i) { int x = int(mix(key, 3 * i) % w), y = int(mix(key, 3 * i + 1) % h); for (int k = 0; k < 3 * (w + h); ++k) { at(x, y) = 1; x += int(mix(key + i, 2 * k) % 3) - 1; y += int(mix(key + i, 2 * k + 1) % 3) - 1; x = std::min(std::max(x, 0), w - 1); y = std::min(std::max(y, 0), h - 1); } } }
  else { int px = int(c.s.range(2, 9)); bool invert = c.s.coin(); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int t = (x % (2 * px)) - px; at(x, y) = ((y % (px + 3)) == std::abs(t)) != invert; } }
  int flips = int(c.s.draw(3)); for (int i = 0; i < flips * w * h / 40; ++i) { auto& p = m[mix(key + 11, i) % m.size()]; p = !p; }
  c.note() << w << "x" << h << " pattern " << kind << " key " << key << " "; c.label("pattern " + std::to_string(kind)); return m;
}
static VF valuesFor(Case& c, const std::vector<char>& m, int w, int h) {
  uint64_t key = c.s.draw(1 << 16); bool extreme = c.s.coin(30); std::vector<float> v(m.size());
  const float pos[] = {1.f, 0.5f, 1e-30f, 1e30f, std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::infinity()}, neg[] = {0.f, -1.f, -1e-30f, -1e30f, -0.f, -std::numeric_limits<float>::infinity()};
  for (size_t i = 0; i < m.size(); ++i) v[i] = (m[i] ? pos : neg)[extreme ? mix(key, i) % 6 : mix(key, i) % 2]; return VectorImage<SeFloat>::create(w, h, v);
}
static void tiles(Case& c) { int tw = c.s.coin() ? 256 : int(c.s.range(1, 20)), th = c.s.coin() ? 256 : int(c.s.range(1, 20)); TileManager::getInstance()->setOptions(tw, th, 100); c.note() << "tiles " << tw << "x" << th << " "; }
static std::multiset<Pixels> asSet(const std::vector<Pixels>& v) { std::multiset<Pixels> s; for (auto& p : v) s.insert(sorted(p)); return s; }

struct Recorder : Lutz::LutzListener {
  Case& c; int line = 0, total, dx, dy; std::vector<Pixels> groups; std::vector<int> when; std::map<int, int> ends; // last line of every component
  Recorder(Case& cc, int t, int x, int y) : c(cc), total(t), dx(x), dy(y) {}
  void publishGroup(Lutz::PixelGroup& g) override { Pixels p; for (auto& q : g.pixel_list) p.emplace_back(q.m_x - dx, q.m_y - dy); groups.push_back(p); when.push_back(line); }
  void notifyProgress(int l, int t) override { c.eq(l, line + 1, "progress line"); c.eq(t, total, "progress total"); line = l; } };
static void lutz(Case& c) {
  int w = int(c.s.skewed(1, 70)), h = int(c.s.skewed(1, 70)); auto m = pattern(c, w, h); auto img = valuesFor(c, m, w, h); tiles(c); int dx = c.s.coin() ? 0 : int(c.s.range(-50, 5000)), dy = c.s.coin() ? 0 : int(c.s.range(-50, 5000));
  Recorder r(c, h, dx, dy); Lutz().labelImage(r, *img, PixelCoordinate(dx, dy)); auto want = components(w, h, [&](int x, int y) { return m[size_t(y) * w + x] != 0; });
  c.eq(r.line, h, "lines reported"); std::map<Pixels, int> last; for (auto& p : want) { int y = 0; for (auto& q : p) y = std::max(y, q.second); last[p] = y; }
  std::set<std::pair<int, int>> seen; for (auto& g : r.groups) for (auto& p : g) c.check(seen.insert(p).second, "a pixel is in two detections or twice in one");
  c.eq(r.groups.size(), want.size(), "number of detections"); c.check(asSet(r.groups) == asSet(want), "detections are not the connected components");
  for (size_t i = 0; i < r.groups.size(); ++i) { int y = last.at(sorted(r.groups[i])); c.check(r.when[i] > y || y == h - 1, "a detection was published before its last line was read"); c.check(r.when[i] <= y + 1, "a detection was published later than the line below it: at line " + std::to_string(r.when[i]) + ", it ends at " + std::to_string(y)); }
  LutzList list; list.labelImage(*img); c.eq(list.getGroups().size(), want.size(), "number of groups of the list");
  size_t big = 0; for (auto& p : want) big = std::max(big, p.size()); c.nontrivial(want.size() > 1 && big > 4); }

// Labelling of a whole frame, with filter, variance and signals
struct Smooth : DetectionImageFrame::ImageFilter { int kind; explicit Smooth(int k) : kind(k) {}
  std::shared_ptr<Image<SeFloat>> processImage(std::shared_ptr<Image<SeFloat>> i, std::shared_ptr<Image<SeFloat>>, SeFloat) const override { auto s = VectorImage<SeFloat>::create(*i); auto r = VectorImage<SeFloat>::create(i->getWidth(), i->getHeight()); for (int y = 0; y < i->getHeight(); ++y) for (int x = 0; x < i->getWidth(); ++x) { float v = 2 * s->getValue(x, y); if (kind) for (int d : {-1, 1}) v += s->getValue(std::min(std::max(x + d, 0), i->getWidth() - 1), y); r->setValue(x, y, kind ? v / 4 : v / 2); } return r; } };
struct Collector : PipelineReceiver<SourceInterface> { std::vector<std::unique_ptr<SourceInterface>> sources; std::vector<size_t> signalAt; std::vector<std::shared_ptr<const SelectionCriteria>> signals; void receiveSource(std::unique_ptr<SourceInterface> s) override { sources.push_back(std::move(s)); } void receiveProcessSignal(const ProcessSourcesEvent& e) override { signals.push_back(e.m_selection_criteria); signalAt.push_back(sources.size()); } };
static void frame(Case& c) {
  int w = int(c.s.range(1, 50)), h = int(c.s.range(1, 50)); bool pat = c.s.coin(); VF img; if (pat) { auto m = pattern(c, w, h); img = VectorImage<SeFloat>::create(w, h); uint64_t key = c.s.draw(1 << 16); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) img->setValue(x, y, m[size_t(y) * w + x] ? 8.f + float(mix(key, y * w + x) % 5) : float(int(mix(key, y * w + x) % 7) - 3) / 10); } else img = blobs(c, w, h, 8, 1.);
  auto var = VectorImage<SeFloat>::create(w, h); uint64_t vk = c.s.draw(1 << 16); int vkind = int(c.s.draw(2)); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) var->setValue(x, y, vkind == 0 ? 1.f : vkind == 1 ? 0.3f + float(mix(vk, y * w + x) % 100) / 100 : 0.5f + float(x) / w);
  tiles(c); float thr = float(c.s.uniform(0.5, 4)); auto f = std::make_shared<DetectionImageFrame>(img, var, 1e6f, std::make_shared<FlatCoordinates>(), 0.f, 0.f, 0); f->setDetectionThreshold(thr); int filter = int(c.s.draw(2)); int method = int(c.s.draw(1)), maxDelta = c.s.coin() ? 1000 : int(c.s.range(0, 25)), window = c.s.coin() ? 0 : int(c.s.range(1, h)); c.note() << "threshold " << thr << " filter " << filter << (method ? " BFS max " : " Lutz window ") << (method ? maxDelta : window);
  Segmentation seg(filter ? std::make_shared<Smooth>(filter - 1) : nullptr); auto sf = std::make_shared<SimpleSourceFactory>(); if (method) seg.setLabelling<BFSSegmentation>(std::static_pointer_cast<SourceFactory>(sf), maxDelta); else seg.setLabelling<LutzSegmentation>(std::static_pointer_cast<SourceFactory>(sf), window);
  auto out = std::make_shared<Collector>(); seg.setNextStage(out); seg.processFrame(f);
  auto sm = [&](const VF& i, int x, int y) { if (filter < 2) return double(i->getValue(x, y)); double v = 2. * i->getValue(x, y); for (int d : {-1, 1}) v += i->getValue(std::min(std::max(x + d, 0), w - 1), y); return v / 4; };
  bool close = false; auto want = components(w, h, [&](int x, int y) { double a = sm(img, x, y), t = std::sqrt(sm(var, x, y)) * thr; close = close || std::fabs(a - t) < 1e-4; return a > t; }); if (close) c.discard();
  size_t all = want.size(); if (method) { std::vector<Pixels> kept; for (auto& p : want) { int x0 = 1 << 30, x1 = -1, y0 = 1 << 30, y1 = -1; for (auto& q : p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); } if (x1 - x0 <= maxDelta && y1 - y0 <= maxDelta) kept.push_back(p); } want = kept; }
  std::vector<Pixels> got; std::set<unsigned> ids; for (auto& s : out->sources) { got.push_back(pixelsOf(*s)); auto& id = s->getProperty<SourceId>(); c.check(ids.insert(id.getSourceId()).second, "two sources have the same id"); c.eq(id.getDetectionId(), id.getSourceId(), "detection id"); c.check(OpenFrame::get(s->getProperty<DetectionFrame>()) == f, "a source does not know its frame"); auto p = sorted(got.back()); c.check(std::adjacent_find(p.begin(), p.end()) == p.end(), "a pixel is twice in a source"); }
  c.eq(got.size(), want.size(), "number of sources"); c.check(asSet(got) == asSet(want), "sources are not the connected components above the threshold");
  // signals: one per line below the window, each for the sources above it; at last one for everything
  SimpleSource probe; size_t lines = !method && window > 0 && h > window ? size_t(h - window) : 0; c.eq(out->signals.size(), lines + 1, "number of signals");
  for (size_t i = 0; i < out->signals.size(); ++i) for (int y = -1; y <= h + 1; ++y) { probe.setProperty<PixelCentroid>(1.f, float(y) + 0.25f); c.eq(out->signals[i]->mustBeProcessed(probe), i == lines || y + 0.25 < double(i) + 1, "selected at signal " + std::to_string(i) + " line " + std::to_string(y)); }
  c.eq(out->signalAt.back(), out->sources.size(), "sources before the last signal"); c.label(method ? "BFS" : "Lutz"); c.label("too large detections", all != want.size()); c.nontrivial(want.size() > 1); }

// Partition
static std::vector<std::unique_ptr<SourceInterface>> detectAll(const std::shared_ptr<DetectionImageFrame>& f, const std::shared_ptr<SourceFactory>& sf) { Segmentation seg(nullptr); seg.setLabelling<LutzSegmentation>(sf); auto out = std::make_shared<Collector>(); seg.setNextStage(out); seg.processFrame(f); return std::move(out->sources); }
struct Node { Pixels pixels; float thr; };
struct Tree { // the multi-threshold definition, recursively
  const VF& img; double lo; float peak; unsigned n, area; double needed; bool close = false; std::vector<Pixels> cores;
  double intensity(const Node& k) { double s = 0; for (auto& p : k.pixels) s += double(img->getValue(p.first, p.second)) - double(k.thr); if (needed > 0 && std::fabs(s - needed) < 2e-3 * needed) close = true; return s; }
  bool solve(const Node& k, unsigned level) { // whether the node is split
    for (unsigned i = level; i < n; ++i) { float t = float(lo * std::pow(double(peak) / lo, double(i) / n)); std::set<std::pair<int, int>> in; for (auto& p : k.pixels) { double v = img->getValue(p.first, p.second); if (std::fabs(v - t) < 2e-6 * t) close = true; if (v > t) in.insert(p); }
      std::vector<Node> kids; while (!in.empty()) { Pixels comp{*in.begin()}; in.erase(in.begin()); for (size_t q = 0; q < comp.size(); ++q) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { auto it = in.find({comp[q].first + dx, comp[q].second + dy}); if (it != in.end()) { comp.push_back(*it); in.erase(it); } } if (comp.size() >= area) kids.push_back({comp, t}); }
      if (kids.empty()) return false; if (kids.size() == 1) continue;
      std::vector<bool> split; bool any = false; int strong = 0; for (auto& kid : kids) { split.push_back(solve(kid, i + 1)); any = any || split.back(); if (intensity(kid) > needed) ++strong; }
      if (strong >= 2) for (size_t q = 0; q < kids.size(); ++q) if (!split[q] && intensity(kids[q]) > needed) cores.push_back(sorted(kids[q].pixels)); return any || strong >= 2; }
    return false; } };
static void multithreshold(Case& c) {
  int w = int(c.s.range(4, 40)), h = int(c.s.range(4, 40)); int kind = int(c.s.draw(2)); auto img = blobs(c, w, h, 9, kind == 0 ? -0.5 : kind == 1 ? 1. : 4.); tiles(c); auto var = VectorImage<SeFloat>::create(w, h); var->fillValue(1.f); float thr = float(c.s.logreal(0.3, 3));
  auto f = std::make_shared<DetectionImageFrame>(img, var, 1e6f, std::make_shared<FlatCoordinates>(), 0.f, 0.f, 0); f->setDetectionThreshold(thr); bool filter = c.s.coin(25); if (filter) f->setFilter(std::make_shared<Smooth>(1));
  auto filtered = VectorImage<SeFloat>::create(*f->getFilteredImage()); auto registry = detectionTasks(); auto provider = std::make_shared<TaskProvider>(registry); auto sf = std::make_shared<SourceWithOnDemandPropertiesFactory>(provider);
  float contrast = float(c.s.coin(20) ? c.s.pick({0., 1.}) : c.s.logreal(1e-4, 0.5)); unsigned n = unsigned(c.s.range(1, 40)), area = unsigned(c.s.skewed(1, 12)), seed = unsigned(c.s.draw(1000)); c.note() << "threshold " << thr << " contrast " << contrast << " levels " << n << " area " << area; bool second = c.s.coin(30); if (second) f->setDetectionThreshold(thr);
  std::vector<std::vector<Pixels>> runs[2]; size_t splits = 0, rest = 0;
  for (int run = 0; run < 2; ++run) { MultiThresholdPartitionStep step(sf, contrast, n, area, seed);
    for (auto& s : detectAll(f, sf)) { auto pixels = sorted(pixelsOf(*s)); if (second) s->setProperty<SourceId>(777u); auto det = s->getProperty<SourceId>().getDetectionId(); auto* original = s.get(); auto parts = step.partition(std::move(s)); c.check(!parts.empty(), "a source disappeared"); std::vector<Pixels> lists; Pixels together; std::set<unsigned> ids;
      for (auto& p : parts) { lists.push_back(sorted(pixelsOf(*p))); c.check(!lists.back().empty(), "a part without pixels"); together.insert(together.end(), lists.back().begin(), lists.back().end()); c.check(OpenFrame::get(p->getProperty<DetectionFrame>()) == f, "a part does not know its frame"); c.eq(p->getProperty<SourceId>().getDetectionId(), det, "detection id of a part"); c.check(ids.insert(p->getProperty<SourceId>().getSourceId()).second, "two parts have the same id"); c.check(p->getProperty<PixelBoundaries>().getMin().m_x >= 0 && p->getProperty<PeakValue>().getMaxValue() > 0, "properties of a part"); }
      runs[run].push_back(lists); c.check(sorted(together) == pixels, "the parts do not have each pixel of the source exactly once: " + std::to_string(together.size()) + " of " + std::to_string(pixels.size()));
      if (parts.size() == 1) c.check(parts[0].get() == original, "an unsplit source was replaced"); if (run) continue;
      float lo = 1e30f, hi = -1e30f; double total = 0; for (auto& p : pixels) { float v = filtered->getValue(p.first, p.second); lo = std::min(lo, v); hi = std::max(hi, v); total += v; }
      Tree t{filtered, double(lo * .8), hi, n, area, double(contrast) * total, false, {}}; t.solve(Node{pixels, 0.f}, 1); if (t.close) c.discard();
      if (t.cores.empty()) c.eq(parts.size(), size_t(1), "parts of a source without two strong branches"); else { c.eq(parts.size(), t.cores.size(), "number of parts"); ++splits; std::set<size_t> used; size_t inCores = 0; for (auto& core : t.cores) { inCores += core.size(); size_t owner = lists.size(); for (size_t i = 0; i < lists.size(); ++i) if (std::includes(lists[i].begin(), lists[i].end(), core.begin(), core.end())) owner = i; c.check(owner < lists.size() && used.insert(owner).second, "a branch is not kept together in a part of its own"); } rest += pixels.size() - inCores; } } }
  c.check(runs[0] == runs[1], "another result with the same seed"); c.label("split", splits > 0); c.label("outlying pixels assigned", rest > 0); c.nontrivial(splits > 0); }
static void attractors(Case& c) {
  int w = int(c.s.range(3, 30)), h = int(c.s.range(3, 30)); bool flat = c.s.coin(30); auto img = blobs(c, w, h, 6, flat ? 0. : c.s.pick({-0.2, 1., 4.})); if (c.s.coin(40)) { float q = c.s.pick({1.f, 5.f, 20.f}); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) img->setValue(x, y, std::floor(img->getValue(x, y) / q) * q + 1.5f); } tiles(c); auto var = VectorImage<SeFloat>::create(w, h); var->fillValue(1.f); auto f = std::make_shared<DetectionImageFrame>(img, var, 1e6f, std::make_shared<FlatCoordinates>(), 0.f, 0.f, 0); f->setDetectionThreshold(float(c.s.logreal(0.3, 5))); auto provider = std::make_shared<TaskProvider>(detectionTasks()); auto sf = std::make_shared<SourceWithOnDemandPropertiesFactory>(provider); AttractorsPartitionStep step(sf); size_t split = 0, exact = 0;
  for (auto& s : detectAll(f, sf)) { auto list = pixelsOf(*s); auto pixels = sorted(list); int x0 = w, x1 = 0, y0 = h, y1 = 0; for (auto& p : pixels) { x0 = std::min(x0, p.first); x1 = std::max(x1, p.first); y0 = std::min(y0, p.second); y1 = std::max(y1, p.second); }
    // uphill: the highest of the pixel, left and lower neighbour (the first), then right and upper neighbour if not lower
    auto val = [&](int x, int y) { return x < x0 || x > x1 || y < y0 || y > y1 ? std::numeric_limits<float>::lowest() : img->getValue(x, y); }; std::map<std::pair<int, int>, Pixels> basin; for (auto p : pixels) { auto at = p; while (true) { std::pair<int, int> best = at; float v = val(at.first, at.second); for (auto d : {std::pair<int, int>{-1, 0}, {0, -1}}) if (val(at.first + d.first, at.second + d.second) > v) { best = {at.first + d.first, at.second + d.second}; v = val(best.first, best.second); } for (auto d : {std::pair<int, int>{1, 0}, {0, 1}}) if (val(at.first + d.first, at.second + d.second) >= v) { best = {at.first + d.first, at.second + d.second}; v = val(best.first, best.second); } if (best == at) break; at = best; } basin[at].push_back(p); }
    auto det = s->getProperty<SourceId>().getDetectionId(); auto* original = s.get(); auto parts = step.partition(std::move(s)); std::map<std::pair<int, int>, size_t> owner; Pixels together; std::set<unsigned> ids; for (size_t i = 0; i < parts.size(); ++i) { for (auto& p : pixelsOf(*parts[i])) { owner[p] = i; together.push_back(p); } c.check(OpenFrame::get(parts[i]->getProperty<DetectionFrame>()) == f, "a part does not know its frame"); c.eq(parts[i]->getProperty<SourceId>().getDetectionId(), det, "detection id of a part"); c.check(ids.insert(parts[i]->getProperty<SourceId>().getSourceId()).second, "two parts have the same id"); }
    c.check(sorted(together) == pixels, "the parts do not have each pixel of the source exactly once"); for (auto& b : basin) for (auto& p : b.second) c.eq(owner[p], owner[b.second[0]], "part of a pixel which leads to the same summit"); if (parts.size() == 1) c.check(parts[0].get() == original, "an unsplit source was replaced");
    bool adjacent = false; for (auto& a : basin) for (auto& b : basin) adjacent = adjacent || (a.first < b.first && std::abs(a.first.first - b.first.first) <= 1 && std::abs(a.first.second - b.first.second) <= 1); if (!adjacent) { c.eq(parts.size(), basin.size(), "parts of a source with separate summits"); ++exact; } else c.check(parts.size() < basin.size(), "adjacent summits were kept apart"); split += parts.size() > 1; }
  c.label("separate summits", exact > 0); c.nontrivial(split > 0); }
static void keepOrDrop(Case& c) {
  int w = int(c.s.range(2, 30)), h = int(c.s.range(2, 30)); auto img = blobs(c, w, h, 6, 1.); auto var = VectorImage<SeFloat>::create(w, h); uint64_t vk = c.s.draw(1 << 16); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) var->setValue(x, y, 0.5f + float(mix(vk, y * w + x) % 100) / 50); auto f = std::make_shared<DetectionImageFrame>(img, var, 1e6f, std::make_shared<FlatCoordinates>(), 0.f, 0.f, 0); f->setDetectionThreshold(float(c.s.logreal(0.3, 3))); bool filter = c.s.coin(); if (filter) f->setFilter(std::make_shared<Smooth>(1)); auto fi = VectorImage<SeFloat>::create(*f->getFilteredImage()), fv = VectorImage<SeFloat>::create(*f->getVarianceMap()); auto provider = std::make_shared<TaskProvider>(detectionTasks()); auto sf = std::make_shared<SourceWithOnDemandPropertiesFactory>(provider); unsigned area = unsigned(c.s.skewed(0, 20)); double snr = c.s.uniform(0, 10); MinAreaPartitionStep min(area); CoreThresholdPartitionStep core(snr, area); size_t kept = 0, dropped = 0;
  for (int which = 0; which < 2; ++which) for (auto& s : detectAll(f, sf)) { auto pixels = pixelsOf(*s); size_t n = 0; for (auto& p : pixels) { double q = double(fi->getValue(p.first, p.second)) / std::sqrt(double(fv->getValue(p.first, p.second))); if (which && std::fabs(q - snr) < 1e-4 * snr) c.discard(); n += !which || q >= snr; } auto* original = s.get(); auto parts = which ? core.partition(std::move(s)) : min.partition(std::move(s)); c.eq(parts.size(), size_t(n >= area), which ? "kept by the core threshold" : "kept by the minimal area"); if (!parts.empty()) c.check(parts[0].get() == original && pixelsOf(*parts[0]) == pixels, "a kept source was changed"); (parts.empty() ? dropped : kept)++; }
  c.nontrivial(kept > 0 && dropped > 0); }
// Memory can be handed out upwards or downwards: nothing may depend on addresses
namespace arena { static char space[1 << 20]; static size_t low = 0, high = sizeof space; static int way = 0; }
void* operator new(size_t n) { n = (n + 31) & ~size_t(31); if (arena::way && arena::low + n < arena::high) { if (arena::way > 0) { void* p = arena::space + arena::low; arena::low += n; return p; } arena::high -= n; return arena::space + arena::high; } void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p < arena::space || p >= arena::space + sizeof arena::space) std::free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
static void cleaning(Case& c) {
  int n = int(c.s.range(1, 6)); unsigned area = unsigned(c.s.range(0, 5)); auto frame = std::make_shared<DetectionImageFrame>(VectorImage<SeFloat>::create(20, 20), VectorImage<SeFloat>::create(20, 20), 1e6f, std::make_shared<FlatCoordinates>(), 0.f, 0.f, 0); SimpleSourceGroup group; struct S { Pixels pixels; std::vector<float> values; std::shared_ptr<MoffatModelEvaluator> model; unsigned id, det; const SourceInterface* p; }; std::vector<S> all; c.note() << n << " sources, area " << area;
  for (int i = 0; i < n; ++i) { S s; int x0 = int(c.s.range(0, 15)), y0 = int(c.s.range(0, 15)), k = int(c.s.skewed(1, 8)); std::vector<PixelCoordinate> list; for (int q = 0; q < k; ++q) { list.emplace_back(x0 + q % 3, y0 + q / 3); s.values.push_back(float(c.s.logreal(0.5, 50))); } s.pixels = pixelsOf(list); float i0 = c.s.coin(15) ? 0.f : float(c.s.logreal(0.5, 300)); MoffatModelFitting fit(float(x0 + c.s.uniform(-1, 3)), float(y0 + c.s.uniform(-1, 3)), i0, float(c.s.uniform(1, 4)), 2.f, float(c.s.uniform(0, 1)), 40.f, float(c.s.logreal(0.5, 5)), float(c.s.logreal(0.5, 5)), float(c.s.uniform(0, 3)), 5u); s.model = std::make_shared<MoffatModelEvaluator>(fit); c.note() << " [" << x0 << "," << y0 << " " << k << " px, " << i0 << "]";
    std::unique_ptr<SourceInterface> src = std::make_unique<SimpleSource>(); src->setProperty<PixelCoordinateList>(list); src->setProperty<DetectionFramePixelValues>(std::vector<float>(k, -1.f), s.values, std::vector<float>(k, 1.f)); src->setProperty<MoffatModelEvaluator>(fit); src->setProperty<DetectionFrame>(frame); if (c.s.coin()) src->setProperty<SourceId>(9000u + unsigned(c.s.draw(2))); else src->setProperty<SourceId>(); s.id = src->getProperty<SourceId>().getSourceId(); s.det = src->getProperty<SourceId>().getDetectionId(); s.p = src.get(); all.push_back(s); group.addSource(std::move(src)); }
  auto lightOn = [&](const S& who, const S& on) { double t = 0; for (auto& p : on.pixels) t += who.model->getValue(p.first, p.second); return t; };
  std::vector<int> keep, drop; for (int i = 0; i < n; ++i) { unsigned valid = 0; for (size_t q = 0; q < all[i].pixels.size(); ++q) { double sum = 0; for (int j = 0; j < n; ++j) if (j != i) sum += all[j].model->getValue(all[i].pixels[q].first, all[i].pixels[q].second); if (std::fabs(sum - all[i].values[q]) < 1e-6 * all[i].values[q]) c.discard(); valid += all[i].values[q] > sum; } (n > 1 && valid < area ? drop : keep).push_back(i); }
  std::map<int, std::vector<int>> into; if (!keep.empty()) for (int i : drop) { int best = keep[0]; double most = lightOn(all[best], all[i]); for (int j : keep) if (j != best) { double v = lightOn(all[j], all[i]); if (std::fabs(v - most) <= 1e-6 * std::max(v, most)) c.discard(); if (v > most) { most = v; best = j; } } into[best].push_back(i); }
  Cleaning cleaner(std::make_shared<SimpleSourceFactory>(), area); cleaner.deblend(group);
  std::vector<Pixels> orders[2]; for (int w = 0; w < 2; ++w) { orders[w].reserve(size_t(n)); { SimpleSourceGroup other; for (auto& s : all) { std::unique_ptr<SourceInterface> src = std::make_unique<SimpleSource>(); std::vector<PixelCoordinate> list; for (auto& p : s.pixels) list.emplace_back(p.first, p.second); src->setProperty<PixelCoordinateList>(list); src->setProperty<DetectionFramePixelValues>(std::vector<float>(list.size(), -1.f), s.values, std::vector<float>(list.size(), 1.f)); src->setProperty<MoffatModelEvaluator>(*s.model); src->setProperty<DetectionFrame>(frame); src->setProperty<SourceId>(s.det); arena::low = 0; arena::way = 0; static size_t at[2]; if (&s == &all[0]) { at[0] = 0; at[1] = sizeof arena::space; } arena::low = at[0]; arena::high = at[1]; arena::way = w ? -1 : 1; other.addSource(std::move(src)); arena::way = 0; at[0] = arena::low; at[1] = arena::high; } Cleaning(std::make_shared<SimpleSourceFactory>(), area).deblend(other); for (auto& s : other) orders[w].push_back(pixelsOf(s)); } } c.check(orders[0] == orders[1], "the order of the sources depends on where they are in memory");
  std::map<Pixels, std::pair<unsigned, int>> want; for (int j : keep) { Pixels p = all[j].pixels; for (int i : into[j]) p.insert(p.end(), all[i].pixels.begin(), all[i].pixels.end()); want[sorted(p)] = {all[j].det, into[j].empty() ? j : -1}; } if (want.size() != keep.size()) c.discard();
  c.eq(group.size(), want.size(), "sources left"); for (auto& s : group) { auto it = want.find(sorted(pixelsOf(s))); c.check(it != want.end(), "a source with other pixels than its own and those of what was merged into it"); c.eq(s.getProperty<SourceId>().getDetectionId(), it->second.first, "detection id"); c.check(OpenFrame::get(s.getProperty<DetectionFrame>()) == frame, "frame of a source"); if (it->second.second >= 0) c.eq(s.getProperty<SourceId>().getSourceId(), all[it->second.second].id, "id of a source nothing was merged into"); want.erase(it); }
  std::set<PropertyId> need{PropertyId::create<PixelCoordinateList>(), PropertyId::create<MoffatModelEvaluator>()}; auto r = cleaner.requiredProperties(); c.check(std::includes(r.begin(), r.end(), need.begin(), need.end()), "required properties"); c.label("merged", !into.empty() && !drop.empty()); c.label("all removed", keep.empty()); c.nontrivial(!drop.empty() && !keep.empty()); }
PBT_MAIN(
  {"lutz", "several detections, one of more than four pixels", lutz, 60000, 2000000},
  {"frame", "several sources", frame, 25000, 800000},
  {"multithreshold", "a source was split", multithreshold, 3000, 100000},
  {"attractors", "a source was split", attractors, 6000, 200000},
  {"keep_or_drop", "one source kept and one dropped", keepOrDrop, 8000, 200000},
  {"cleaning", "a source was merged into another", cleaning, 20000, 600000})
