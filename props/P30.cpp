// Every option reaches the part it configures; filters, steps, groupings and segmentations are those asked for.
// SRCS: ModelFitting/src/lib/Engine/GSLEngine.cpp ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp ModelFitting/src/lib/Models/FlattenedMoffatComponent.cpp ModelFitting/src/lib/Models/PositionedModel.cpp ModelFitting/src/lib/Models/RotatedModelComponent.cpp ModelFitting/src/lib/Models/ScaledModelComponent.cpp ModelFitting/src/lib/Parameters/BasicParameter.cpp SEFramework/src/lib/CoordinateSystem/WCS.cpp SEFramework/src/lib/FITS/FitsFile.cpp SEFramework/src/lib/FITS/FitsImageSource.cpp SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEFramework/src/lib/Pipeline/Deblending.cpp SEFramework/src/lib/Pipeline/Partition.cpp SEFramework/src/lib/Pipeline/Segmentation.cpp SEFramework/src/lib/Pipeline/SourceGrouping.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp SEFramework/src/lib/Task/TaskFactoryRegistry.cpp SEFramework/src/lib/Task/TaskProvider.cpp SEImplementation/src/lib/Configuration/AttractorsPartitionConfig.cpp SEImplementation/src/lib/Configuration/BackgroundConfig.cpp SEImplementation/src/lib/Configuration/CheckImagesConfig.cpp SEImplementation/src/lib/Configuration/CleaningConfig.cpp SEImplementation/src/lib/Configuration/DeblendStepConfig.cpp SEImplementation/src/lib/Configuration/DetectionFrameConfig.cpp SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp SEImplementation/src/lib/Configuration/GroupingConfig.cpp SEImplementation/src/lib/Configuration/LegacyModelFittingConfig.cpp SEImplementation/src/lib/Configuration/MagnitudeConfig.cpp SEImplementation/src/lib/Configuration/MeasurementFrameConfig.cpp SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp SEImplementation/src/lib/Configuration/MemoryConfig.cpp SEImplementation/src/lib/Configuration/MinAreaPartitionConfig.cpp SEImplementation/src/lib/Configuration/MultiThreadingConfig.cpp SEImplementation/src/lib/Configuration/MultiThresholdPartitionConfig.cpp SEImplementation/src/lib/Configuration/OutputConfig.cpp SEImplementation/src/lib/Configuration/PartitionStepConfig.cpp SEImplementation/src/lib/Configuration/PythonConfig.cpp SEImplementation/src/lib/Configuration/RngConfig.cpp SEImplementation/src/lib/Configuration/SE2BackgroundConfig.cpp SEImplementation/src/lib/Configuration/SamplingConfig.cpp SEImplementation/src/lib/Configuration/SegmentationConfig.cpp SEImplementation/src/lib/Configuration/WeightImageConfig.cpp SEImplementation/src/lib/Deblending/Cleaning.cpp SEImplementation/src/lib/Grouping/AssocCriteria.cpp SEImplementation/src/lib/Grouping/AssocGrouping.cpp SEImplementation/src/lib/Grouping/GroupingFactory.cpp SEImplementation/src/lib/Grouping/LineSelectionCriteria.cpp SEImplementation/src/lib/Grouping/MoffatCriteria.cpp SEImplementation/src/lib/Grouping/MoffatGrouping.cpp SEImplementation/src/lib/Grouping/OverlappingBoundariesCriteria.cpp SEImplementation/src/lib/Grouping/SplitSourcesCriteria.cpp SEImplementation/src/lib/Grouping/SplitSourcesGrouping.cpp SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp SEImplementation/src/lib/Partition/MinAreaPartitionStep.cpp SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp SEImplementation/src/lib/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.cpp SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTask.cpp SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.cpp SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.cpp SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTaskFactory.cpp SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTaskFactory.cpp SEImplementation/src/lib/PythonConfig/PyId.cpp SEImplementation/src/lib/PythonConfig/PyMeasurementImage.cpp SEImplementation/src/lib/PythonConfig/PyOutputWrapper.cpp SEImplementation/src/lib/Segmentation/AssocSegmentation.cpp SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp SEImplementation/src/lib/Segmentation/BackgroundConvolution.cpp SEImplementation/src/lib/Segmentation/Lutz.cpp SEImplementation/src/lib/Segmentation/LutzSegmentation.cpp SEImplementation/src/lib/Segmentation/SegmentationFactory.cpp
// FLAGS: @python
// LIBS: -lcfitsio -lwcs -lboost_program_options -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
#include "frameconfig.h"
#include "detect.h"
#include <fstream>
#include <boost/thread.hpp>
#include "SEFramework/Pipeline/Deblending.h"
#include "SEFramework/Pipeline/Partition.h"
#include "SEFramework/Pipeline/Segmentation.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroupFactory.h"
#include "ModelFitting/Engine/LeastSquareEngineManager.h"
#include "SEImplementation/Configuration/AttractorsPartitionConfig.h"
#include "SEImplementation/Configuration/CheckImagesConfig.h"
#include "SEImplementation/Configuration/CleaningConfig.h"
#include "SEImplementation/Configuration/DeblendStepConfig.h"
#include "SEImplementation/Configuration/GroupingConfig.h"
#include "SEImplementation/Configuration/LegacyModelFittingConfig.h"
#include "SEImplementation/Configuration/MagnitudeConfig.h"
#include "SEImplementation/Configuration/MemoryConfig.h"
#include "SEImplementation/Configuration/MinAreaPartitionConfig.h"
#include "SEImplementation/Configuration/MultiThreadingConfig.h"
#include "SEImplementation/Configuration/MultiThresholdPartitionConfig.h"
#include "SEImplementation/Configuration/OutputConfig.h"
#include "SEImplementation/Configuration/PartitionStepConfig.h"
#include "SEImplementation/Configuration/RngConfig.h"
#include "SEImplementation/Configuration/SE2BackgroundConfig.h"
#include "SEImplementation/Configuration/SamplingConfig.h"
#include "SEImplementation/Configuration/SegmentationConfig.h"
#include "SEImplementation/Deblending/Cleaning.h"
#include "SEImplementation/Grouping/AssocGrouping.h"
#include "SEImplementation/Grouping/GroupingFactory.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Grouping/MoffatCriteria.h"
#include "SEImplementation/Grouping/MoffatGrouping.h"
#include "SEImplementation/Grouping/NoGroupingCriteria.h"
#include "SEImplementation/Grouping/OverlappingBoundariesCriteria.h"
#include "SEImplementation/Grouping/SplitSourcesGrouping.h"
#include "SEImplementation/Partition/AttractorsPartitionStep.h"
#include "SEImplementation/Partition/MinAreaPartitionStep.h"
#include "SEImplementation/Partition/MultiThresholdPartitionStep.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/AssocMode/AssocModeConfig.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelEvaluator.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelFitting.h"
#include "SEImplementation/Segmentation/BFSSegmentation.h"
#include "SEImplementation/Segmentation/BackgroundConvolution.h"
#include "SEImplementation/Segmentation/LutzSegmentation.h"
#include "SEImplementation/Segmentation/SegmentationFactory.h"
#define private public
#include "SEImplementation/CheckImages/CheckImages.h"
#undef private
using namespace pbt;
using namespace detect;
FRAMECONFIG_STANDINS
namespace SourceXtractor {
std::unique_ptr<CheckImages> CheckImages::m_instance;
CheckImages::CheckImages() {}
void CheckImages::reportConfigDependencies(Euclid::Configuration::ConfigManager&) const {}
void CheckImages::configure(Euclid::Configuration::ConfigManager&) {}
AssocModeConfig::AssocModeConfig(long id) : Configuration(id) {}
std::map<std::string, Euclid::Configuration::Configuration::OptionDescriptionList> AssocModeConfig::getProgramOptions() { return {}; }
void AssocModeConfig::initialize(const UserValues&) {}
}
static std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
static std::string cased(Case& c, std::string s) { int k = int(c.s.draw(2)); for (auto& x : s) if (k == 1 || (k == 2 && c.s.coin())) x = char(tolower(x)); return s; }
using Args = std::vector<std::string>;
static void shuffle(Case& c, Args& a) { for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[c.s.draw(i - 1)]); }
static void tell(Case& c, const Args& a) { for (auto& x : a) c.note() << x << " "; }
static const char* CHECKS[] = {"model-fitting", "residual", "background", "variance", "segmentation", "partition", "grouping", "filtered", "thresholded", "snr", "auto-aperture", "aperture", "psf", "ml-detection", "measurement-background", "measurement-variance", "fitting-window", "moffat"};

// ---- every value arrives where it is asked for, and the default where it is not given
struct Options {
  Case& c; Args args; int given = 0;
  bool give() { bool g = c.s.coin(); given += g; return g; }
  double real(const char* n, double d, double lo, double hi) { if (!give()) return d; double v = c.s.coin(20) ? std::round(c.s.uniform(lo, hi)) : c.s.uniform(lo, hi); args.push_back(std::string("--") + n + "=" + num(v)); return v; }
  long integer(const char* n, long d, long lo, long hi) { if (!give()) return d; long v = c.s.coin(25) ? std::min(hi, lo + long(c.s.draw(7))) : c.s.range(lo, hi); args.push_back(std::string("--") + n + "=" + std::to_string(v)); return v; }
  bool flag(const char* n, bool d) { if (!give()) return d; bool v = c.s.coin(); const char* y[] = {"true", "1", "yes", "on"}; const char* no[] = {"false", "0", "no", "off"}; args.push_back(std::string("--") + n + "=" + (v ? y : no)[c.s.draw(3)]); return v; }
  std::string text(const char* n, const std::string& d, const std::vector<std::string>& l) { if (!give()) return d; auto v = l[c.s.draw(l.size() - 1)]; args.push_back(std::string("--") + n + "=" + v); return v; }
  std::string key(const char* n, const std::string& d, const std::vector<std::string>& l) { if (!give()) return d; auto v = l[c.s.draw(l.size() - 1)]; args.push_back(std::string("--") + n + "=" + cased(c, v)); return v; }
  std::vector<int> list(const char* n, std::vector<int> d, int lo) { if (!give()) return d; std::vector<int> v; std::string s; int k = int(c.s.range(1, 2)); for (int i = 0; i < k; ++i) { v.push_back(int(c.s.range(lo, 200))); s += (i ? "," : "") + std::to_string(v.back()); } args.push_back(std::string("--") + n + "=" + s); return v; }
};
static void addAll(Config& g) {
  g.add<RngConfig>(); g.add<MagnitudeConfig>(); g.add<SamplingConfig>(); g.add<MemoryConfig>(); g.add<LegacyModelFittingConfig>(); g.add<MultiThreadingConfig>(); g.add<OutputConfig>(); g.add<GroupingConfig>(); g.add<SE2BackgroundConfig>(); g.add<SegmentationConfig>(); g.add<CheckImagesConfig>();
}
static void values(Case& c) {
  Options o{c, {}}; Config g; addAll(g); int bad = c.s.coin(30) ? int(c.s.draw(15)) : -1;
  auto seed = o.integer("rng-seed", 42, 0, 4294967295l); auto zero = o.real("magnitude-zero-point", 0, -5, 40); auto scale = o.real("sampling-scale-factor", 1, 0.1, 8); auto fit = o.integer("sampling-max-fit-size", 1000, 1, 100000);
  auto memory = o.integer("tile-memory-limit", 512, 1, 100000), tile = o.integer("tile-size", 256, 1, 5000); auto iterations = o.integer("model-fitting-iterations", 1000, 1, 100000); auto engine = o.text("model-fitting-engine", ModelFitting::LeastSquareEngineManager::getDefault(), {"gsl", "levmar", "another"});
  auto threads = o.integer("thread-count", -1, -1, 6), queue = o.integer("thread-max-queue-size", 1000, 1, 100000);
  auto file = o.text("output-catalog-filename", "", {"cat.fits", "/some/where/cat.txt", "a b"}), format = o.key("output-catalog-format", "FITS", {"ASCII", "FITS", "FITS_LDAC"}), props = o.text("output-properties", "PixelCentroid", {"A,B,C", "Ellipse", "X,Y_1"}); auto flush = o.integer("output-flush-size", 100, -5, 1000); bool sorted = o.flag("output-flush-sorted", true);
  auto grouping = o.key("grouping-algorithm", "SPLIT", {"NONE", "OVERLAP", "SPLIT", "MOFFAT", "ASSOC"}); auto limit = o.integer("grouping-hard-limit", 0, 0, 5000); auto mt = o.real("grouping-moffat-threshold", .02, 0, 1), md = o.real("grouping-moffat-max-distance", 300, 0, 5000);
  auto cell = o.list("background-cell-size", {64}, 1), box = o.list("smoothing-box-size", {3}, 0);
  auto seg = o.key("segmentation-algorithm", "LUTZ", {"LUTZ", "BFS", "ASSOC"}); auto window = o.integer("segmentation-lutz-window-size", 0, 0, 5000), delta = o.integer("segmentation-bfs-max-delta", 1000, 0, 5000); auto model = o.text("segmentation-ml-model", "", {"m.onnx"}); auto ml = o.real("segmentation-ml-threshold", .9, 0, 1); bool filter = o.flag("segmentation-use-filtering", true);
  std::vector<std::string> checks; for (auto n : CHECKS) checks.push_back(o.text(((std::string(n) == "moffat" ? "debug-image-" : "check-image-") + std::string(n)).c_str(), "", {std::string("file_") + n + ".fits", std::string("/x/") + n}));
  if (bad >= 0) { static const std::pair<const char*, std::vector<const char*>> refused[] = {{"tile-memory-limit", {"0", "-1"}}, {"tile-size", {"0", "-7"}}, {"model-fitting-iterations", {"0", "-3"}}, {"thread-count", {"-2", "-10"}}, {"thread-max-queue-size", {"0", "-1"}}, {"output-catalog-format", {"CSV", "", "FITSLDAC"}}, {"grouping-algorithm", {"", "SPLITS", "MOFAT"}}, {"background-cell-size", {"0", "64,0", "-5,10", "0,64"}}, {"smoothing-box-size", {"-1", "3,-1", "-2,3"}}, {"segmentation-algorithm", {"ML", "", "TILES", "LUTZZ"}}, {"rng-seed", {"x", "1.5"}}, {"tile-size", {"big", "1e2"}}, {"magnitude-zero-point", {"x", "1,5"}}, {"output-flush-sorted", {"maybe", "2"}}, {"grouping-hard-limit", {"many", "1.5"}}, {"segmentation-lutz-window-size", {"x", "2.5"}}};
    auto& r = refused[bad]; std::string n = r.first, v = r.second[c.s.draw(r.second.size() - 1)]; o.args.erase(std::remove_if(o.args.begin(), o.args.end(), [&](const std::string& a) { return a.compare(0, n.size() + 3, "--" + n + "=") == 0; }), o.args.end()); o.args.push_back("--" + n + "=" + v); shuffle(c, o.args); tell(c, o.args); c.label("refused: " + n); c.nontrivial(true); bool threw = false; try { g.start(o.args); } catch (const std::exception&) { threw = true; } c.check(threw, "accepted: --" + n + "=" + v); return; }
  shuffle(c, o.args); tell(c, o.args); g.start(o.args); auto& m = g.m; c.label("accepted"); c.nontrivial(o.given > 10);
  c.eq(long(m.getConfiguration<RngConfig>().getSeed()), seed, "seed"); c.close(m.getConfiguration<MagnitudeConfig>().getMagnitudeZeroPoint(), zero, 1e-6, 1e-6, "zero point"); c.eq(m.getConfiguration<SamplingConfig>().getScaleFactor(), scale, "scale factor"); c.eq(long(m.getConfiguration<SamplingConfig>().getMaxFitSize()), fit, "maximum size of fits");
  c.eq(long(m.getConfiguration<MemoryConfig>().getTileMaxMemory()), memory, "tile memory"); c.eq(long(m.getConfiguration<MemoryConfig>().getTileSize()), tile, "tile size"); c.eq(long(m.getConfiguration<LegacyModelFittingConfig>().getMaxIterations()), iterations, "iterations"); c.eq(m.getConfiguration<LegacyModelFittingConfig>().getLeastSquaresEngine(), engine, "engine");
  auto& th = m.getConfiguration<MultiThreadingConfig>(); long nt = threads == -1 ? long(boost::thread::hardware_concurrency()) : threads; c.eq(long(th.getThreadsNb()), nt, "threads"); c.eq(th.getThreadPool() != nullptr, nt > 0, "whether there is a pool"); c.eq(long(th.getMaxQueueSize()), queue, "queue size");
  auto& out = m.getConfiguration<OutputConfig>(); using F = OutputConfig::OutputFileFormat; c.eq(out.getOutputFile(), file, "catalogue"); c.check(out.getOutputFileFormat() == (format == "ASCII" ? F::ASCII : format == "FITS" ? F::FITS : F::FITS_LDAC), "catalogue format"); std::string joined; for (auto& p : out.getOutputProperties()) joined += (joined.empty() ? "" : ",") + p; c.eq(joined, props, "properties"); c.eq(out.getOutputProperties().size(), size_t(1 + std::count(props.begin(), props.end(), ',')), "number of properties"); c.eq(long(out.getFlushSize()), std::max(0l, flush), "flush size"); c.eq(out.getOutputUnsorted(), !sorted, "unsorted output");
  auto& gr = m.getConfiguration<GroupingConfig>(); using A = GroupingConfig::Algorithm; c.check(gr.getAlgorithmOption() == (grouping == "NONE" ? A::NO_GROUPING : grouping == "OVERLAP" ? A::OVERLAPPING : grouping == "SPLIT" ? A::SPLIT_SOURCES : grouping == "MOFFAT" ? A::MOFFAT : A::ASSOC), "grouping algorithm"); c.eq(long(gr.getHardLimit()), limit, "limit of groups"); c.eq(gr.getMoffatThreshold(), mt, "Moffat threshold"); c.eq(gr.getMoffatMaxDistance(), md, "Moffat distance");
  auto& bg = m.getConfiguration<SE2BackgroundConfig>(); c.check(bg.getCellSize() == cell, "cell size"); c.check(bg.getSmoothingBox() == box, "smoothing box");
  auto& sg = m.getConfiguration<SegmentationConfig>(); using S = SegmentationConfig::Algorithm; c.check(sg.getAlgorithmOption() == (seg == "LUTZ" ? S::LUTZ : seg == "BFS" ? S::BFS : S::ASSOC), "segmentation algorithm"); c.eq(long(sg.getLutzWindowSize()), window, "window"); c.eq(long(sg.getBfsMaxDelta()), delta, "BFS size"); c.eq(sg.getOnnxModelPath(), model, "ML model"); c.eq(sg.getMLThreashold(), ml, "ML threshold"); c.eq(sg.isFilteringEnabled(), filter, "filtering"); c.eq(sg.getFilter() != nullptr, filter, "filter");
  auto& ch = m.getConfiguration<CheckImagesConfig>(); std::vector<std::string> got = {ch.getModelFittingImageFilename(), ch.getModelFittingResidualFilename(), ch.getBackgroundFilename(), ch.getVarianceFilename(), ch.getSegmentationFilename(), ch.getPartitionFilename(), ch.getGroupFilename(), ch.getFilteredFilename(), ch.getThresholdedFilename(), ch.getSnrFilename(), ch.getAutoApertureFilename(), ch.getApertureFilename(), ch.getPsfFilename(), ch.getMLDetectionFilename(), ch.getMeasurementBackgroundFilename(), ch.getMeasurementVarianceFilename(), ch.getFittingWindowImageFilename(), ch.getMoffatFilename()};
  for (size_t i = 0; i < got.size(); ++i) c.eq(got[i], checks[i], std::string("check image ") + CHECKS[i]);
}

// ---- filters
static std::shared_ptr<DetectionImageFrame::ImageFilter> configuredFilter(const Args& a) { Config g; g.add<SegmentationConfig>(); g.start(a); return g.m.getConfiguration<SegmentationConfig>().getFilter(); }
static void writeKernel(const std::string& path, int w, int h, const std::vector<float>& k) { int st = 0; fitsfile* f; unlink(path.c_str()); fits_create_file(&f, path.c_str(), &st); long ax[] = {w, h}; fits_create_img(f, FLOAT_IMG, 2, ax, &st); fits_write_img(f, TFLOAT, 1, long(k.size()), const_cast<float*>(k.data()), &st); fits_close_file(f, &st); fitsMust(st); }
static void filters(Case& c) {
  static int serial = 0; int kind = int(c.s.draw(9)); int w = int(c.s.range(1, c.s.coin(25) ? 9 : 5)), h = int(c.s.range(1, 7)); std::vector<float> k; uint64_t key = c.s.draw(1 << 20); for (int i = 0; i < w * h; ++i) k.push_back(mix(key, i) % 7 == 0 ? -0.25f : float(mix(key, i) % 1000) / 100.f); double total = 0; for (auto v : k) total += v; if (std::fabs(total) < 0.5) k[0] += 3;
  bool norm = true; std::string path, why; Args a; if (c.s.coin(30)) a.push_back("--segmentation-use-filtering=true"); bool fits = kind == 1 || kind == 2;
  if (kind == 0) { w = h = 3; k = {1, 2, 1, 2, 4, 2, 1, 2, 1}; }
  else if (fits) { path = scratchDir() + "/k" + std::to_string(++serial) + (c.s.coin() ? ".fits" : ".x.fits"); writeKernel(path, w, h, k); }
  else {
    path = scratchDir() + "/k" + std::to_string(++serial) + c.s.pick({".conv", ".txt", "", ".fits.conv", ".fit"}); norm = c.s.coin(); std::string head = norm ? "CONV NORM" : "CONV NONORM"; std::vector<std::vector<std::string>> rows(h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { std::ostringstream t; t << std::setprecision(9); if (c.s.coin(10)) t << std::scientific; t << k[y * w + x]; rows[y].push_back(t.str()); }
    bool empty = false; if (kind >= 7) { int broken = int(c.s.draw(8)); why = "malformed"; switch (broken) {
      case 0: head = c.s.pick({"CONV", "NORM", "", "CONV norm", "conv NORM", "CONV NORMAL", "FILTER NORM"}); why = "header"; break;
      case 1: rows[c.s.draw(h - 1)][0] = c.s.pick({"x", "1a", "--1", "nine"}); why = "not a number"; break;
      case 2: { if (w < 2) for (auto& r : rows) r.push_back("2"); if (h < 2) rows.push_back(rows[0]); rows.back().push_back("1"); why = "long last line"; break; }
      case 3: if (w < 2 || h < 2) { rows = {{"1", "2"}, {"3"}}; } else rows[1 + c.s.draw(h - 2)].pop_back(); why = "short line"; break;
      case 4: empty = true; why = "no numbers"; break;
      case 5: path = scratchDir() + "/missing" + (c.s.coin() ? ".fits" : ".conv"); why = "missing"; break;
      case 6: rows[c.s.draw(h - 1)][w - 1] += c.s.pick({"x", ",", ";2", "e"}); why = "trailing characters"; break;
      case 7: { rows[0].insert(rows[0].begin(), "7"); if (h < 2) rows.push_back({"1"}); size_t n = 0; for (auto& r : rows) n += r.size(); if (n % rows[0].size() == 0) rows.push_back({"1"}); why = "long first line"; break; }
      case 8: path = scratchDir() + "/k" + std::to_string(serial) + ".fits"; why = "text in a FITS file"; break; } }
    if (why != "missing") { std::ofstream f(path); auto noise = [&] { if (c.s.coin(25)) f << c.s.pick({"\n", "  \n", "# a comment\n", "  # another one 1 2 3\n", "\t\n", "#\n"}); }; auto end = [&] { f << c.s.pick({"\n", "\n", " \n", " # 5 6\n", "\t# x\n", "\r\n"}); }; noise(); if (!head.empty()) { f << head; end(); } noise(); if (!empty) for (size_t y = 0; y < rows.size(); ++y) { if (c.s.coin(20)) f << " "; for (size_t x = 0; x < rows[y].size(); ++x) f << (x ? c.s.pick({" ", "  ", "\t"}) : "") << rows[y][x]; if (y + 1 < rows.size() || c.s.coin(70)) end(); if (y + 1 < rows.size()) noise(); } }
  }
  if (!path.empty()) { a.push_back("--segmentation-filter=" + path); std::ifstream f(path); std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); if (!fits) c.note() << path.substr(path.rfind('/') + 1) << ":\n" << text << "\n"; }
  c.label(!why.empty() ? "refused: " + why : kind == 0 ? "default" : fits ? "FITS" : norm ? "ASCII, normalised" : "ASCII"); c.nontrivial(w * h > 1);
  if (!why.empty()) { bool threw = false; try { configuredFilter(a); } catch (const std::exception&) { threw = true; } unlink(path.c_str()); c.check(threw, "a filter was accepted: " + why); return; }
  auto got = configuredFilter(a); c.check(got != nullptr, "no filter"); if (!path.empty() && !fits) unlink(path.c_str());
  BackgroundConvolution want(VectorImage<SeFloat>::create(w, h, k), norm); int iw = int(c.s.range(1, 25)), ih = int(c.s.range(1, 25)); auto img = VectorImage<SeFloat>::create(iw, ih), var = VectorImage<SeFloat>::create(iw, ih); for (int y = 0; y < ih; ++y) for (int x = 0; x < iw; ++x) { img->setValue(x, y, float(mix(key + 5, y * iw + x) % 1000)); var->setValue(x, y, mix(key + 9, y * iw + x) % 15 == 0 ? 9.f : 1.f); }
  TileManager::getInstance()->setOptions(256, 256, 100); auto p = VectorImage<SeFloat>::create(*got->processImage(img, var, 5.f)), q = VectorImage<SeFloat>::create(*want.processImage(img, var, 5.f)); for (int y = 0; y < ih; ++y) for (int x = 0; x < iw; ++x) c.close(p->getValue(x, y), q->getValue(x, y), 2e-5, 2e-3, "filtered pixel " + std::to_string(x) + "," + std::to_string(y));
  if (fits) { TileManager::getInstance()->flush(); got.reset(); unlink(path.c_str()); }
}

// ---- steps of the pipeline
struct Collector : PipelineReceiver<SourceInterface> { std::vector<std::unique_ptr<SourceInterface>> sources; std::vector<std::pair<size_t, std::shared_ptr<const SelectionCriteria>>> signals; void receiveSource(std::unique_ptr<SourceInterface> s) override { sources.push_back(std::move(s)); } void receiveProcessSignal(const ProcessSourcesEvent& e) override { signals.emplace_back(sources.size(), e.m_selection_criteria); } };
static std::vector<std::unique_ptr<SourceInterface>> detectAll(const std::shared_ptr<DetectionImageFrame>& f, const std::shared_ptr<SourceFactory>& sf) { Segmentation seg(nullptr); seg.setLabelling<LutzSegmentation>(sf); auto out = std::make_shared<Collector>(); seg.setNextStage(out); seg.processFrame(f); return std::move(out->sources); }
static std::vector<Pixels> run(const std::shared_ptr<DetectionImageFrame>& f, const std::shared_ptr<SourceFactory>& sf, const std::vector<std::shared_ptr<PartitionStep>>& steps) { Partition p(steps); auto out = std::make_shared<Collector>(); p.setNextStage(out); for (auto& s : detectAll(f, sf)) p.receiveSource(std::move(s)); std::vector<Pixels> v; for (auto& s : out->sources) v.push_back(sorted(pixelsOf(*s))); std::sort(v.begin(), v.end()); return v; }
static void steps(Case& c) {
  Config g; Options o{c, {}}; g.add<RngConfig>(); g.add<DetectionFrameConfig>(); std::vector<int> order = {0, 1, 2, 3, 4, 5}; for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.s.draw(i - 1)]);
  for (int i : order) { if (i == 0) g.add<MinAreaPartitionConfig>(); if (i == 1) g.add<AttractorsPartitionConfig>(); if (i == 2) g.add<MultiThresholdPartitionConfig>(); if (i == 3) g.add<CleaningConfig>(); if (i == 4) g.add<PartitionStepConfig>(); if (i == 5) g.add<DeblendStepConfig>(); }
  bool frames = c.s.coin(85); TempFile det; analyses().clear(); pythonImages().clear(); if (frames) { Hdu u; u.w = u.h = 6; u.pix.assign(36, 1.f); det.hdus.push_back(u); writeImages(det, false, false, false); o.args.push_back("--detection-image=" + det.path); }
  auto seed = o.integer("rng-seed", 42, 0, 5000); auto area = o.integer("detection-minimum-area", 3, 0, 25); bool attractors = o.flag("use-attractors-partition", false), multi = o.flag("partition-multithreshold", true); auto count = o.integer("partition-threshold-count", 32, 1, 40), part = o.integer("partition-minimum-area", 3, 1, 20); double contrast = o.real("partition-minimum-contrast", 0.005, 0, 0.5); bool cleaning = o.flag("use-cleaning", false); auto cleanArea = o.integer("cleaning-minimum-area", 3, 1, 30);
  int bad = c.s.coin(20) ? int(c.s.draw(2)) : -1; if (bad >= 0) { const char* n[] = {"partition-threshold-count", "partition-minimum-area", "cleaning-minimum-area"}; const char* k = n[bad]; o.args.erase(std::remove_if(o.args.begin(), o.args.end(), [&](const std::string& a) { return a.find(k) == 2; }), o.args.end()); o.args.push_back(std::string("--") + k + "=" + c.s.pick({"0", "-1", "-100"})); }
  shuffle(c, o.args); tell(c, o.args); bool refuse = (bad >= 0 && bad < 2 && frames && multi) || (bad == 2 && cleaning); c.label(refuse ? "refused" : frames ? "detection" : "no detection image"); bool threw = false; try { g.start(o.args); } catch (const Elements::Exception&) { threw = true; } c.eq(threw, refuse, "refusal"); if (threw) { c.nontrivial(true); return; }
  auto provider = std::make_shared<TaskProvider>(detectionTasks()); auto sf = std::make_shared<SourceWithOnDemandPropertiesFactory>(provider);
  threw = false; try { g.m.getConfiguration<PartitionStepConfig>().addPartitionStepCreator([](std::shared_ptr<SourceFactory>) { return std::make_shared<MinAreaPartitionStep>(1); }); } catch (const Elements::Exception&) { threw = true; } c.check(threw, "a step was added after the configuration"); threw = false; try { g.m.getConfiguration<DeblendStepConfig>().addDeblendStepCreator([](std::shared_ptr<SourceFactory> s) { return std::make_shared<Cleaning>(s, 1); }); } catch (const Elements::Exception&) { threw = true; } c.check(threw, "a deblending step was added after the configuration");
  auto got = g.m.getConfiguration<PartitionStepConfig>().getSteps(sf); c.eq(got.size(), size_t(frames ? 1 + attractors + multi : 0), "partition steps"); auto deblend = g.m.getConfiguration<DeblendStepConfig>().getSteps(sf); c.eq(deblend.size(), size_t(cleaning), "deblending steps");
  { Config fresh; fresh.add<PartitionStepConfig>(); fresh.add<DeblendStepConfig>(); fresh.m.closeRegistration(); int refused = 0; try { fresh.m.getConfiguration<PartitionStepConfig>().getSteps(sf); } catch (const Elements::Exception&) { ++refused; } try { fresh.m.getConfiguration<DeblendStepConfig>().getSteps(sf); } catch (const Elements::Exception&) { ++refused; } c.eq(refused, 2, "steps were given before the configuration"); }
  int w = int(c.s.range(4, 40)), h = int(c.s.range(4, 40)); auto img = blobs(c, w, h, 9, c.s.pick({-0.5, 1., 4.})); auto var = VectorImage<SeFloat>::create(w, h); var->fillValue(1.f); auto f = std::make_shared<DetectionImageFrame>(img, var, 1e6f, std::make_shared<FlatCoordinates>(), 0.f, 0.f, 0); f->setDetectionThreshold(float(c.s.logreal(0.3, 3)));
  auto mine = [&](bool swap) { std::vector<std::shared_ptr<PartitionStep>> v; if (!frames) return v; v.push_back(std::make_shared<MinAreaPartitionStep>(area)); auto m = std::make_shared<MultiThresholdPartitionStep>(sf, contrast, unsigned(count), unsigned(part), unsigned(seed)); auto a = std::make_shared<AttractorsPartitionStep>(sf); if (swap && multi) v.push_back(m); if (attractors) v.push_back(a); if (!swap && multi) v.push_back(m); return v; };
  auto r = run(f, sf, got), e = run(f, sf, mine(false)); bool same = r == e; if (!same && attractors && multi) same = r == run(f, sf, mine(true)); c.check(same, "the configured steps give " + std::to_string(r.size()) + " sources, other than the " + std::to_string(e.size()) + " of the steps asked for"); auto all = detectAll(f, sf); c.label("sources dropped or split", r.size() != all.size()); c.nontrivial(!frames || r.size() != all.size());
  if (cleaning) { // how many pixels above the light of the others a source has to have
    int own = int(c.s.range(1, 30)); SimpleSourceGroup group; for (int i = 0; i < 2; ++i) { std::vector<PixelCoordinate> l; for (int q = 0; q < 40; ++q) l.emplace_back(q % 8 + 3 * i, q / 8); std::vector<float> v(40, 100.f); if (i) for (int q = 0; q < 40; ++q) v[q] = q < own ? 100.f : 1e-6f; auto s = std::make_unique<SimpleSource>(); s->setProperty<PixelCoordinateList>(l); s->setProperty<DetectionFramePixelValues>(v, v, v); s->setProperty<MoffatModelEvaluator>(MoffatModelFitting(4.f, 2.f, 10.f, 2.f, 1.f, 0.f, 60.f, 5.f, 5.f, 0.f, 5u)); s->setProperty<DetectionFrame>(f); s->setProperty<SourceId>(); group.addSource(std::move(s)); }
    deblend[0]->deblend(group); c.eq(group.size(), size_t(own >= cleanArea ? 2 : 1), "sources left by the cleaning, with " + std::to_string(own) + " pixels of its own"); c.label("cleaning"); }
}

// ---- factories
struct GroupCollector : PipelineReceiver<SourceGroupInterface> { std::vector<std::vector<unsigned>> groups; void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { std::vector<unsigned> v; for (auto& s : *g) v.push_back(unsigned(s.getProperty<PixelCentroid>().getCentroidX() * 64)); std::sort(v.begin(), v.end()); groups.push_back(v); } void receiveProcessSignal(const ProcessSourcesEvent&) override {} };
static std::vector<std::vector<unsigned>> grouped(const std::shared_ptr<SourceGroupingInterface>& g, uint64_t key, int n) {
  auto out = std::make_shared<GroupCollector>(); g->setNextStage(out); for (int i = 0; i < n; ++i) { auto s = std::make_unique<SimpleSource>(); int x = int(mix(key, 3 * i) % 60), y = int(mix(key, 3 * i + 1) % 60), k = int(mix(key, 3 * i + 2) % 12); float cx = float(x) + float(i) / 64.f; s->setProperty<PixelBoundaries>(x, y, x + k, y + k); s->setProperty<PixelCentroid>(cx, SeFloat(y)); unsigned det = unsigned(mix(key + 1, i) % 5) + 1; s->setProperty<SourceId>(det); s->setProperty<AssocMode>(true, std::vector<double>(), 0., 0., unsigned(mix(key + 2, i) % 4) + 1); float peak = float(1 + mix(key + 3, i) % 100); s->setProperty<PeakValue>(0.f, peak, 0, 0); s->setProperty<MoffatModelEvaluator>(MoffatModelFitting(cx, float(y), peak, 2.f, 1.f, 0.f, 60.f, 3.f, 3.f, 0.f, 5u)); g->receiveSource(std::move(s)); }
  g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); auto v = out->groups; std::sort(v.begin(), v.end()); return v;
}
static void factories(Case& c) {
  Config g; Options o{c, {}}; auto gf = std::make_shared<SimpleSourceGroupFactory>(); GroupingFactory groups(gf); auto provider = std::make_shared<TaskProvider>(detectionTasks()); SegmentationFactory segments(provider); groups.reportConfigDependencies(g.m); segments.reportConfigDependencies(g.m);
  auto algorithm = o.key("grouping-algorithm", "SPLIT", {"NONE", "OVERLAP", "SPLIT", "MOFFAT", "ASSOC"}); auto limit = o.integer("grouping-hard-limit", 0, 0, 6); double mt = o.real("grouping-moffat-threshold", .02, 0, 0.3), md = o.real("grouping-moffat-max-distance", 300, 0, 40); auto seg = o.key("segmentation-algorithm", "LUTZ", {"LUTZ", "BFS"}); auto window = o.integer("segmentation-lutz-window-size", 0, 0, 12), delta = o.integer("segmentation-bfs-max-delta", 1000, 0, 12); bool filter = o.flag("segmentation-use-filtering", true); shuffle(c, o.args); tell(c, o.args); g.start(o.args); groups.configure(g.m); segments.configure(g.m);
  std::shared_ptr<SourceGroupingInterface> want; if (algorithm == "NONE") want = std::make_shared<SourceGrouping>(std::make_shared<NoGroupingCriteria>(), gf, limit); else if (algorithm == "OVERLAP") want = std::make_shared<SourceGrouping>(std::make_shared<OverlappingBoundariesCriteria>(), gf, limit); else if (algorithm == "SPLIT") want = std::make_shared<SplitSourcesGrouping>(gf, limit); else if (algorithm == "ASSOC") want = std::make_shared<AssocGrouping>(gf, limit); else want = std::make_shared<MoffatGrouping>(std::make_shared<MoffatCriteria>(mt, md), gf, limit, md);
  uint64_t key = c.s.draw(1 << 20); int n = int(c.s.range(1, 25)); c.label(algorithm); auto grouping = groups.createGrouping(); c.check(grouping->requiredProperties() == want->requiredProperties(), "properties the grouping needs"); auto got = grouped(grouping, key, n), exp = grouped(want, key, n); c.check(got == exp, "grouping " + algorithm + ": " + std::to_string(got.size()) + " groups instead of " + std::to_string(exp.size()));
  int w = int(c.s.range(4, 40)), h = int(c.s.range(4, 40)); auto img = blobs(c, w, h, 6, 2.); auto var = VectorImage<SeFloat>::create(w, h); var->fillValue(1.f); float thr = float(c.s.logreal(0.5, 3)); auto frame = [&] { auto f = std::make_shared<DetectionImageFrame>(img, var, 1e6f, std::make_shared<FlatCoordinates>(), 0.f, 0.f, 0); f->setDetectionThreshold(thr); return f; };
  auto kernel = VectorImage<SeFloat>::create(3, 3, std::vector<SeFloat>{1, 2, 1, 2, 4, 2, 1, 2, 1}); Segmentation direct(filter ? std::make_shared<BackgroundConvolution>(kernel, true) : nullptr); auto sf = std::make_shared<SourceWithOnDemandPropertiesFactory>(provider); if (seg == "BFS") direct.setLabelling<BFSSegmentation>(std::static_pointer_cast<SourceFactory>(sf), int(delta)); else direct.setLabelling<LutzSegmentation>(std::static_pointer_cast<SourceFactory>(sf), int(window));
  auto configured = segments.createSegmentation(); auto a = std::make_shared<Collector>(), b = std::make_shared<Collector>(); configured->setNextStage(a); direct.setNextStage(b); auto fa = frame(), fb = frame(); configured->processFrame(fa); direct.processFrame(fb); c.label(seg + (filter ? " filtered" : ""));
  c.eq(a->sources.size(), b->sources.size(), "detections of " + seg); for (size_t i = 0; i < a->sources.size(); ++i) { c.check(pixelsOf(*a->sources[i]) == pixelsOf(*b->sources[i]), "pixels of a detection of " + seg); c.check(OpenFrame::get(a->sources[i]->getProperty<DetectionFrame>()) == fa, "frame of a detection"); }
  c.eq(a->signals.size(), b->signals.size(), "signals of " + seg); for (size_t i = 0; i < a->signals.size(); ++i) { c.eq(a->signals[i].first, b->signals[i].first, "moment of a signal"); SimpleSource s; float y = float(c.s.uniform(-2, h + 2)); s.setProperty<PixelCentroid>(0.f, y); c.eq(a->signals[i].second->mustBeProcessed(s), b->signals[i].second->mustBeProcessed(s), "selection of a signal"); }
  c.nontrivial(exp.size() < size_t(n) && !a->sources.empty());
}
PBT_MAIN({"values", "more than ten options given, or one refused", values, 1500, 40000}, {"filters", "a kernel of several pixels", filters, 1500, 30000}, {"steps", "sources are dropped or split, no frames, or a refusal", steps, 700, 12000}, {"factories", "several sources in a group and something detected", factories, 1200, 25000})
