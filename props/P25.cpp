// Photometry of a source in measurement frames: apertures, Kron apertures, growth curves, flux radii, vignets and external flags equal their definitions.
// SRCS: SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Source/EntangledSource.cpp SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp SEFramework/src/lib/Task/TaskProvider.cpp SEFramework/src/lib/Task/TaskFactoryRegistry.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/TileManager.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Aperture/EllipticalAperture.cpp SEFramework/src/lib/Aperture/NeighbourInfo.cpp  SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTask.cpp SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameCoordinates/DetectionFrameCoordinatesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStampTask.cpp SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp SEImplementation/src/lib/Plugin/GroupInfo/GroupInfoTask.cpp SEImplementation/src/lib/Plugin/HduNumber/HduNumberTask.cpp SEImplementation/src/lib/Plugin/IsophotalFlux/IsophotalFluxTask.cpp SEImplementation/src/lib/Plugin/Jacobian/JacobianTask.cpp SEImplementation/src/lib/Plugin/KronRadius/KronRadiusTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrame/MeasurementFrameTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinatesTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangleTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameImages/MeasurementFrameImagesTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameInfo/MeasurementFrameInfoTask.cpp SEImplementation/src/lib/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroidTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.cpp SEImplementation/src/lib/Plugin/ReferenceCoordinates/ReferenceCoordinatesTask.cpp SEImplementation/src/lib/Plugin/SourceFlags/SourceFlagsSourceTask.cpp SEImplementation/src/lib/Plugin/WorldCentroid/WorldCentroidTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.cpp SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.cpp SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTaskFactory.cpp SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTaskFactory.cpp SEFramework/src/lib/Aperture/CircularAperture.cpp SEFramework/src/lib/Aperture/TransformedAperture.cpp SEFramework/src/lib/Aperture/FluxMeasurement.cpp SEFramework/src/lib/Aperture/Flagging.cpp SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp SEImplementation/src/lib/Plugin/AperturePhotometry/ApertureFlagTask.cpp SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryArrayTask.cpp SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryTask.cpp SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryFlagTask.cpp SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryArrayTask.cpp SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveResampledTask.cpp SEImplementation/src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp
// LIBS: -lpthread -lgsl -lgslcblas
#include "measure.h"
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/TransformedAperture.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Aperture/Flagging.h"
#include "SEImplementation/CheckImages/CheckImages.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometry.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryTask.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArray.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArrayTask.h"
#include "SEImplementation/Plugin/AperturePhotometry/ApertureFlag.h"
#include "SEImplementation/Plugin/AperturePhotometry/ApertureFlagTask.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometry.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryTask.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryArray.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryArrayTask.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryFlag.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryFlagTask.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurve.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurveTask.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurveResampled.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurveResampledTask.h"
#include "SEImplementation/Plugin/FluxRadius/FluxRadius.h"
#include "SEImplementation/Plugin/FluxRadius/FluxRadiusTask.h"
#include "SEImplementation/Plugin/Vignet/Vignet.h"
#include "SEImplementation/Plugin/Vignet/VignetSourceTask.h"
#include "SEImplementation/Plugin/ExternalFlag/ExternalFlag.h"
#include "SEImplementation/Plugin/ExternalFlag/ExternalFlagTask.h"
using namespace pbt;
using namespace detect;
// the check images are in memory
static std::map<unsigned, std::shared_ptr<WriteableImage<int>>> g_aper, g_auto;
namespace SourceXtractor {
std::unique_ptr<CheckImages> CheckImages::m_instance; CheckImages::CheckImages() {} void CheckImages::reportConfigDependencies(Euclid::Configuration::ConfigManager&) const {} void CheckImages::configure(Euclid::Configuration::ConfigManager&) {} void CheckImages::saveImages() {}
std::shared_ptr<WriteableImage<int>> CheckImages::getMeasurementAutoApertureImage(unsigned int n) { return g_auto[n]; } std::shared_ptr<WriteableImage<int>> CheckImages::getMeasurementApertureImage(unsigned int n) { return g_aper[n]; } }
struct Smooth : DetectionImageFrame::ImageFilter { int kind; explicit Smooth(int k) : kind(k) {}
  std::shared_ptr<Image<SeFloat>> processImage(std::shared_ptr<Image<SeFloat>> i, std::shared_ptr<Image<SeFloat>>, SeFloat) const override { auto s = VectorImage<SeFloat>::create(*i); auto r = VectorImage<SeFloat>::create(i->getWidth(), i->getHeight()); for (int y = 0; y < i->getHeight(); ++y) for (int x = 0; x < i->getWidth(); ++x) { float v = 2 * s->getValue(x, y); if (kind) for (int d : {-1, 1}) v += s->getValue(std::min(std::max(x + d, 0), i->getWidth() - 1), y); r->setValue(x, y, v / (kind ? 4 : 2)); } return r; } };
static void tiles(Case& c) { int tw = c.s.coin() ? 256 : int(c.s.range(1, 20)), th = c.s.coin() ? 256 : int(c.s.range(1, 20)); TileManager::getInstance()->setOptions(tw, th, 100); }

struct Scene { int w, h; VF img, var; std::shared_ptr<DetectionImageFrame> frame; std::shared_ptr<Affine> cs; double gain, sat, vthr, rms, bg; unsigned hdu; };
static Scene scene(Case& c, bool positive, int size = 40) {
  Scene s; s.w = int(c.s.range(1, size)); s.h = int(c.s.range(1, size)); s.img = blobs(c, s.w, s.h, 5, positive ? -0.5 : c.s.pick({0.5, 1., 10.})); bool whole = c.s.coin(30); if (whole) for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) s.img->setValue(x, y, std::round(s.img->getValue(x, y))); s.var = VectorImage<SeFloat>::create(s.w, s.h); uint64_t k = c.s.draw(1 << 16); int kind = int(c.s.draw(3)); s.vthr = c.s.coin() ? 1e6 : 50; s.bg = whole || c.s.coin() ? positive && whole ? -1 : 0 : positive ? -c.s.uniform(0, 3) : c.s.uniform(-3, 3); int badPct = c.s.pick({0, 0, 1, 15});
  for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { uint64_t r = mix(k, y * s.w + x); s.var->setValue(x, y, int(r % 100) < badPct ? (r % 3 == 0 ? float(s.vthr) : float(4 * s.vthr)) : kind == 0 ? 1.f : kind == 1 ? 0.2f + float(r % 1000) / 500 : kind == 2 ? 0.5f + float(x) / s.w : 1e-4f); }
  s.gain = c.s.coin(30) ? 0 : c.s.logreal(0.1, 100); s.sat = c.s.coin(30) ? 0 : c.s.logreal(5, 1000); s.cs = affine(c, s.w); s.frame = std::make_shared<DetectionImageFrame>(s.img, s.var, float(s.vthr), s.cs, float(s.gain), float(s.sat), 0); s.rms = c.s.uniform(0, 5);
  auto bgmap = VectorImage<SeFloat>::create(s.w, s.h); bool map = !whole && c.s.coin(); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) bgmap->setValue(x, y, float(s.bg * (map ? 0.5 + double(x) / s.w : 1))); s.frame->setBackgroundLevel(bgmap, float(s.rms)); int f = int(c.s.draw(2)); if (f) s.frame->setFilter(std::make_shared<Smooth>(f - 1)); s.frame->setDetectionThreshold(float(c.s.uniform(0.5, 4))); s.hdu = unsigned(c.s.draw(9)); s.frame->setHduIndex(s.hdu); s.frame->setMetadata({{"KEY", {double(s.hdu), {}}}});
  c.note() << "variance " << kind << " bad " << badPct << "% background " << s.bg << " gain " << s.gain << " filter " << f << " "; tiles(c); return s; }
static std::unique_ptr<SourceInterface> newSource(const std::shared_ptr<TaskProvider>& tp, const Pixels& p, const std::shared_ptr<DetectionImageFrame>& f) {
  auto s = std::make_unique<SourceWithOnDemandProperties>(tp); std::vector<PixelCoordinate> l; for (auto& q : p) l.emplace_back(q.first, q.second); s->setProperty<PixelCoordinateList>(l); s->setProperty<DetectionFrame>(f); return s; }
// the pixels of a source, in any order: a component above the threshold, or a patch, line or scatter of pixels
static Pixels somePixels(Case& c, const Scene& s) {
  int kind = int(c.s.draw(4)); Pixels p;
  if (kind == 0) { auto t = VectorImage<SeFloat>::create(*s.frame->getThresholdedImage()); auto all = components(s.w, s.h, [&](int x, int y) { return t->getValue(x, y) > 0; }); if (!all.empty()) { p = c.s.pick(all); c.label("component"); } }
  if (p.empty()) { int x = int(c.s.range(0, s.w - 1)), y = int(c.s.range(0, s.h - 1)), n = int(c.s.skewed(1, 40)), dx = int(c.s.range(-1, 1)), dy = int(c.s.range(-1, 1)); uint64_t k = c.s.draw(1 << 16); std::set<std::pair<int, int>> seen;
    for (int i = 0; i < n; ++i) { int u, v; if (kind < 2) { u = x + i % 5; v = y + i / 5; } else if (kind == 2) { u = x + i * dx; v = y + i * dy; } else if (kind == 3) { u = x + int(mix(k, i) % 9) - 4; v = y + int(mix(k, i + 999) % 9) - 4; } else { u = x + (i & 1); v = y + i / 2; } if (u >= 0 && v >= 0 && u < s.w && v < s.h && seen.insert({u, v}).second) p.emplace_back(u, v); } if (p.empty()) p.emplace_back(x, y); c.label(kind == 2 ? "line" : "patch"); }
  if (c.s.coin()) { uint64_t k = c.s.draw(1 << 16); for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[mix(k, i) % i]); }
  c.note() << p.size() << " pixels from (" << p[0].first << "," << p[0].second << ") kind " << kind; return p; }

struct Config { std::map<unsigned, std::vector<float>> aper; std::vector<float> all; bool noFlag = false, sym = false; float kron = 2.5f, minrad = 3.5f; std::vector<float> frac; size_t samples = 64; std::vector<unsigned> inst; std::array<int, 2> vig{{5, 5}}; float novalue = 0; std::map<unsigned, std::pair<int, std::vector<std::shared_ptr<FlagImage>>>> ext; };
static Config& conf() { static Config k; return k; }
struct PhotTasks : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId& id) const override { unsigned i = id.getIndex(); auto& k = conf(); float zp = setup().zero_point;
  if (is<AperturePhotometry>(id)) return std::make_shared<AperturePhotometryTask>(k.aper.at(i), i, zp, k.sym);
  if (is<AperturePhotometryArray>(id)) return std::make_shared<AperturePhotometryArrayTask>(k.inst, i);
  if (is<ApertureFlag>(id)) return k.noFlag ? nullptr : std::make_shared<ApertureFlagTask>(k.all);
  if (is<AutoPhotometry>(id)) return std::make_shared<AutoPhotometryTask>(i, zp, k.kron, k.minrad, k.sym);
  if (is<AutoPhotometryArray>(id)) return std::make_shared<AutoPhotometryArrayTask>(k.inst);
  if (is<AutoPhotometryFlag>(id)) return std::make_shared<AutoPhotometryFlagTask>(k.kron, k.minrad);
  if (is<GrowthCurve>(id)) return std::make_shared<GrowthCurveTask>(i, k.sym);
  if (is<GrowthCurveResampled>(id)) return std::make_shared<GrowthCurveResampledTask>(k.inst, k.samples);
  if (is<FluxRadius>(id)) return std::make_shared<FluxRadiusTask>(k.inst, k.frac);
  if (is<Vignet>(id)) return std::make_shared<VignetSourceTask>(i, k.vig, k.novalue);
  if (is<ExternalFlag>(id)) { auto& e = k.ext.at(i); switch (e.first) { case 0: return std::make_shared<ExternalFlagTaskOr>(e.second, i); case 1: return std::make_shared<ExternalFlagTaskAnd>(e.second, i); case 2: return std::make_shared<ExternalFlagTaskMin>(e.second, i); case 3: return std::make_shared<ExternalFlagTaskMax>(e.second, i); default: return std::make_shared<ExternalFlagTaskMost>(e.second, i); } }
  return nullptr; } };
static std::shared_ptr<TaskProvider> tasks() { auto r = allTasks(); r->registerTaskFactory<PhotTasks, AperturePhotometry, AperturePhotometryArray, ApertureFlag, AutoPhotometry, AutoPhotometryArray, AutoPhotometryFlag, GrowthCurve, GrowthCurveResampled, FluxRadius, Vignet, ExternalFlag>(); return std::make_shared<TaskProvider>(r); }
struct M { int w, h; VF img, var; std::shared_ptr<Affine> cs; double gain, sat, vthr, bg; };
static std::vector<M> frames(Case& c, const Scene& s, bool quiet) { std::vector<M> ms; int n = int(c.s.range(1, 3)); g_aper.clear(); g_auto.clear(); setup() = Setup(); conf() = Config(); setup().zero_point = float(c.s.uniform(-5, 30));
  for (int i = 0; i < n; ++i) { M m; m.w = int(c.s.range(1, 40)); m.h = int(c.s.range(1, 40)); m.img = blobs(c, m.w, m.h, 4, quiet ? -0.01 : c.s.pick({0.3, 1., 5.})); if (quiet && c.s.coin()) for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) m.img->setValue(x, y, std::floor(m.img->getValue(x, y))); m.cs = c.s.coin(25) ? std::make_shared<Affine>() : affine(c, s.w); auto w0 = s.cs->imageToWorld(ImageCoordinate(s.w * c.s.uniform(0, 1), s.h * c.s.uniform(0, 1))); m.cs->tx = m.cs->ty = 0; auto at = m.cs->imageToWorld(ImageCoordinate(m.w * c.s.uniform(0, 1), m.h * c.s.uniform(0, 1))); m.cs->tx = w0.m_alpha - at.m_alpha; m.cs->ty = w0.m_delta - at.m_delta;
    m.gain = c.s.coin(30) ? 0 : c.s.logreal(0.1, 100); m.sat = c.s.coin(50) ? 0 : c.s.logreal(3, 300); m.vthr = c.s.coin() ? 1e6 : 50; m.bg = quiet ? 0 : c.s.uniform(-2, 2); m.var = VectorImage<SeFloat>::create(m.w, m.h); uint64_t k = c.s.draw(1 << 16); int bad = c.s.pick({0, 0, 2, 20, 60}); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { uint64_t r = mix(k, y * m.w + x); m.var->setValue(x, y, int(r % 100) < bad ? float(r % 3 ? 4 * m.vthr : m.vthr) : 0.2f + float(r % 1000) / 500); }
    auto f = std::make_shared<MeasurementImageFrame>(m.img, m.var, float(m.vthr), m.cs, float(m.gain), float(m.sat), 0); f->setBackgroundLevel(VectorImage<SeFloat>::create(m.w, m.h, std::vector<float>(size_t(m.w) * m.h, float(m.bg))), 1.f); setup().frames.push_back(f); conf().inst.push_back(unsigned(i)); ms.push_back(m); c.note() << " frame " << m.w << "x" << m.h << " gain " << m.gain << " bad " << bad << "% "; if (c.s.coin(30)) g_aper[i] = VectorImage<int>::create(m.w, m.h); if (c.s.coin(30)) g_auto[i] = VectorImage<int>::create(m.w, m.h); }
  if (c.s.coin(20)) std::reverse(conf().inst.begin(), conf().inst.end()); conf().sym = c.s.coin(); return ms; }
static bool sane(SourceInterface& s) { auto& ce = s.getProperty<PixelCentroid>(); return ce.getCentroidX() > -60 && ce.getCentroidX() < 100 && ce.getCentroidY() > -60 && ce.getCentroidY() < 100; }
static void photometry(Case& c, double flux, double err, double mag, double merr, const FluxMeasurement& m, double gain, const std::string& what) {
  c.close(flux, m.m_flux, 1e-6, 1e-6, what + ": flux"); double v = m.m_variance + (gain > 0 ? m.m_flux / gain : 0); bool sane_v = v > 1e-5 * (m.m_variance + (gain > 0 ? std::fabs(m.m_flux / gain) : 0)); if (sane_v) c.close(err * err, v, 2e-4, 1e-6 * (m.m_variance + (gain > 0 ? std::fabs(m.m_flux / gain) : 0)), what + ": squared flux error"); if (m.m_flux > 0) c.close(mag, -2.5 * std::log10(double(m.m_flux)) + setup().zero_point, 1e-5, 1e-4, what + ": magnitude"); else c.check(std::isnan(mag), what + ": magnitude of a flux which is not positive"); if (m.m_flux != 0 && sane_v) c.close(merr, 1.0857 * err / m.m_flux, 2e-4, 1e-6, what + ": magnitude error"); }
static Flags extra(SourceInterface& s, unsigned i) { Flags f = Flags::NONE; if (s.getProperty<SaturateFlag>(i).getSaturateFlag()) f |= Flags::SATURATED; auto& id = s.getProperty<SourceId>(); if (id.getDetectionId() != id.getSourceId()) f |= Flags::BLENDED; return f; }
static void drawn(Case& c, const std::shared_ptr<WriteableImage<int>>& img, const std::vector<std::shared_ptr<Aperture>>& ap, double x, double y, int id, const std::string& what) { if (!img) return; auto i = VectorImage<int>::create(*img); for (int v = 0; v < i->getHeight(); ++v) for (int u = 0; u < i->getWidth(); ++u) { bool on = false; for (auto& a : ap) { auto mn = a->getMinPixel(x, y), mx = a->getMaxPixel(x, y); on |= u >= mn.m_x && v >= mn.m_y && u <= mx.m_x && v <= mx.m_y && a->drawArea(x, y, u, v) > 0; } c.eq(i->getValue(u, v), on ? id : 0, what + ": pixel of the check image"); } }
static void aperture(Case& c) {
  auto s = scene(c, c.s.coin(70), 30); auto ms = frames(c, s, false); auto& k = conf(); int na = int(c.s.range(1, 4)); for (size_t i = 0; i < ms.size(); ++i) { for (int j = 0; j < na; ++j) { float d = c.s.coin() ? float(c.s.range(1, 12)) : float(c.s.uniform(0.5, 25)); k.aper[i].push_back(d); if (std::find(k.all.begin(), k.all.end(), d) == k.all.end()) k.all.push_back(d); } } k.noFlag = c.s.coin(10); auto tp = tasks(); auto src = newSource(tp, somePixels(c, s), s.frame); if (c.s.coin()) src->setProperty<SourceId>(c.s.coin() ? 7u : 0u); else src->setProperty<SourceId>(); if (!sane(*src)) return c.nontrivial(false);
  bool inside = false; auto& ce = src->getProperty<PixelCentroid>(); auto pl = src->getProperty<PixelCoordinateList>().getCoordinateList(); int id = int(src->getProperty<SourceID>().getId());
  for (size_t i = 0; i < ms.size(); ++i) { auto& m = ms[i]; auto f = setup().frames[i]; auto& p = src->getProperty<AperturePhotometry>(i); auto& mc = src->getProperty<MeasurementFramePixelCentroid>(i); auto j = src->getProperty<JacobianSource>(i).asTuple(); c.eq(p.getFluxes().size(), size_t(na), "number of apertures"); std::vector<std::shared_ptr<Aperture>> drawnAp;
    for (int a = 0; a < na; ++a) { float d = k.aper[i][a]; auto ap = std::make_shared<TransformedAperture>(std::make_shared<CircularAperture>(d / 2), j); drawnAp.push_back(ap); auto want = measureFlux(ap, mc.getCentroidX(), mc.getCentroidY(), f->getSubtractedImage(), f->getVarianceMap(), float(m.vthr), k.sym); std::string what = "aperture " + std::to_string(d) + " in image " + std::to_string(i); photometry(c, p.getFluxes()[a], p.getFluxErrors()[a], p.getMags()[a], p.getMagErrors()[a], want, m.gain, what);
      Flags fl = want.m_flags | extra(*src, unsigned(i)); if (!k.noFlag) fl |= computeFlags(std::make_shared<CircularAperture>(d / 2), ce.getCentroidX(), ce.getCentroidY(), pl, s.frame->getSubtractedImage(), s.frame->getVarianceMap(), s.frame->getThresholdedImage(), float(s.vthr)); c.eq(flags2long(p.getFlags()[a]), flags2long(fl), what + ": flags"); inside |= !(flags2long(want.m_flags) & 32); c.label("outside", flags2long(want.m_flags) & 32); c.label("biased", flags2long(want.m_flags) & 1); }
    drawn(c, g_aper[i], drawnAp, mc.getCentroidX(), mc.getCentroidY(), id, "apertures"); }
  auto& all = src->getProperty<AperturePhotometryArray>(5); for (size_t r = 0; r < k.inst.size(); ++r) for (int a = 0; a < na; ++a) { auto& p = src->getProperty<AperturePhotometry>(k.inst[r]); auto same = [&](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }; c.check(same(all.getFluxes().at(r, a), p.getFluxes()[a]) && same(all.getFluxErrors().at(r, a), p.getFluxErrors()[a]) && same(all.getMags().at(r, a), p.getMags()[a]) && same(all.getMagErrors().at(r, a), p.getMagErrors()[a]) && all.getFlags().at(r, a) == flags2long(p.getFlags()[a]), "row " + std::to_string(r) + " of the array of all apertures"); }
  c.nontrivial(inside); }
static void autophot(Case& c) {
  auto s = scene(c, c.s.coin(90), 30); auto ms = frames(c, s, false); auto& k = conf(); k.kron = float(c.s.uniform(0.5, 4)); k.minrad = float(c.s.coin() ? 3.5 : c.s.uniform(0.1, 8)); auto tp = tasks(); auto src = newSource(tp, somePixels(c, s), s.frame); if (c.s.coin()) src->setProperty<SourceId>(c.s.coin() ? 7u : 0u); else src->setProperty<SourceId>(); if (!sane(*src)) return c.nontrivial(false);
  auto& sh = src->getProperty<ShapeParameters>(); if (!std::isfinite(sh.getEllipseCxx()) || !std::isfinite(sh.getEllipseCyy()) || !std::isfinite(sh.getEllipseCxy()) || !(sh.getEllipseCxx() > 1e-3) || !(sh.getEllipseCyy() > 1e-3) || !(4 * sh.getEllipseCxx() * sh.getEllipseCyy() - sh.getEllipseCxy() * sh.getEllipseCxy() > 1e-4)) return c.nontrivial(false); float kr = src->getProperty<KronRadius>().getKronRadius(); if (!std::isfinite(kr)) return c.nontrivial(false); float rad = std::max(k.kron * kr, k.minrad); if (rad > 40) return c.nontrivial(false); c.label("minimum radius", rad == k.minrad); auto base = std::make_shared<EllipticalAperture>(sh.getEllipseCxx(), sh.getEllipseCyy(), sh.getEllipseCxy(), rad);
  auto& ce = src->getProperty<PixelCentroid>(); auto det = computeFlags(base, ce.getCentroidX(), ce.getCentroidY(), src->getProperty<PixelCoordinateList>().getCoordinateList(), s.frame->getSubtractedImage(), s.frame->getVarianceMap(), s.frame->getThresholdedImage(), float(s.vthr)); c.eq(flags2long(src->getProperty<AutoPhotometryFlag>().getFlags()), flags2long(det), "flags in the detection image"); bool inside = false; int id = int(src->getProperty<SourceID>().getId());
  for (size_t i = 0; i < ms.size(); ++i) { auto& m = ms[i]; auto f = setup().frames[i]; auto& p = src->getProperty<AutoPhotometry>(i); auto& mc = src->getProperty<MeasurementFramePixelCentroid>(i); auto ap = std::make_shared<TransformedAperture>(base, src->getProperty<JacobianSource>(i).asTuple()); auto want = measureFlux(ap, mc.getCentroidX(), mc.getCentroidY(), f->getSubtractedImage(), f->getVarianceMap(), float(m.vthr), k.sym); std::string what = "Kron aperture in image " + std::to_string(i); photometry(c, p.getFlux(), p.getFluxError(), p.getMag(), p.getMagError(), want, m.gain, what); c.eq(flags2long(p.getFlags()), flags2long(want.m_flags | det | extra(*src, unsigned(i))), what + ": flags"); inside |= !(flags2long(want.m_flags) & 32); drawn(c, g_auto[i], {ap}, mc.getCentroidX(), mc.getCentroidY(), id, "Kron aperture"); }
  auto& all = src->getProperty<AutoPhotometryArray>(); for (size_t r = 0; r < k.inst.size(); ++r) { auto& p = src->getProperty<AutoPhotometry>(k.inst[r]); auto same = [&](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }; c.check(same(all.getFluxes()[r], p.getFlux()) && same(all.getFluxErrors()[r], p.getFluxError()) && same(all.getMags()[r], p.getMag()) && same(all.getMagErrors()[r], p.getMagError()) && flags2long(all.getFlags()[r]) == flags2long(p.getFlags()), "row " + std::to_string(r) + " of the array"); }
  c.nontrivial(inside); }
static void growth(Case& c) {
  auto s = scene(c, c.s.coin(90), 30); auto ms = frames(c, s, c.s.coin(60)); auto& k = conf(); k.samples = size_t(c.s.range(1, 100)); for (int i = int(c.s.range(1, 4)); i > 0; --i) k.frac.push_back(float(c.s.pick({0.5, 1., c.s.uniform(0.01, 1), 0.9}))); auto tp = tasks(); auto src = newSource(tp, somePixels(c, s), s.frame); src->setProperty<SourceId>(); if (!sane(*src)) return c.nontrivial(false); auto& sh = src->getProperty<ShapeParameters>(); double kr = src->getProperty<KronRadius>().getKronRadius(); if (!std::isfinite(sh.getEllipseA()) || !std::isfinite(kr) || 6 * sh.getEllipseA() > 60 || kr > 60 || std::max<double>(6 * sh.getEllipseA(), kr) <= 0) return c.nontrivial(false); bool judged = false;
  for (size_t i = 0; i < ms.size(); ++i) { auto& m = ms[i]; auto f = setup().frames[i]; auto& mc = src->getProperty<MeasurementFramePixelCentroid>(i); float cx = mc.getCentroidX(), cy = mc.getCentroidY(); auto j = src->getProperty<JacobianSource>(i).asTuple(); double R = std::max<double>(6 * sh.getEllipseA(), kr); double lim = R * std::sqrt(std::max(std::get<0>(j) * std::get<0>(j) + std::get<1>(j) * std::get<1>(j), std::get<2>(j) * std::get<2>(j) + std::get<3>(j) * std::get<3>(j)));
    auto& g = src->getProperty<GrowthCurve>(i); auto& cv = g.getCurve(); std::string what = "growth curve in image " + std::to_string(i); c.close(g.getMax(), lim, 1e-4, 0, what + ": largest radius"); c.close(g.getStepSize() * cv.size(), g.getMax(), 1e-9, 0, what + ": steps"); c.check(cv.size() == 64, what + ": number of steps"); auto img = VectorImage<SeFloat>::create(*f->getSubtractedImage()), var = VectorImage<SeFloat>::create(*f->getVarianceMap());
    struct Px { int x, y; double lo, hi; }; std::vector<Px> px; for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { double v = img->getValue(x, y), lo = v, hi = v; if (var->getValue(x, y) > float(m.vthr)) { lo = hi = 0; if (k.sym) { lo = 1e30; hi = -1e30; for (int q = 0; q < 4; ++q) { double rx = 2. * cx - x + (q & 1 ? 0.501 : 0.499), ry = 2. * cy - y + (q & 2 ? 0.501 : 0.499); int a = int(std::floor(rx)), b = int(std::floor(ry)); double t = 0; if (a >= 0 && b >= 0 && a < m.w && b < m.h) { if (var->getValue(a, b) == float(m.vthr)) { lo = std::min<double>(lo, img->getValue(a, b)); hi = std::max<double>(hi, img->getValue(a, b)); } if (var->getValue(a, b) < float(m.vthr)) t = img->getValue(a, b); } lo = std::min(lo, t); hi = std::max(hi, t); } c.label("mirrored"); } } px.push_back({x, y, lo, hi}); }
    for (size_t q = 0; q < cv.size(); q += q < 3 || q > 60 ? 1 : 5) { CircularAperture ap(float(g.getStepSize() * (q + 1))); double lo = 0, hi = 0, mag = 0; auto mn = ap.getMinPixel(cx, cy), mx = ap.getMaxPixel(cx, cy); for (auto& p : px) if (p.x >= mn.m_x && p.x <= mx.m_x && p.y >= mn.m_y && p.y <= mx.m_y) { double a = ap.getArea(cx, cy, p.x, p.y); lo += a * p.lo; hi += a * p.hi; mag += a * std::max(std::fabs(p.lo), std::fabs(p.hi)); } double tol = 1e-5 * mag + 1e-6 + 0.021 * 0; c.check(cv[q] >= lo - tol && cv[q] <= hi + tol, what + ": flux within " + std::to_string(g.getStepSize() * (q + 1)) + " is " + std::to_string(cv[q]) + " instead of " + std::to_string(lo) + " to " + std::to_string(hi)); judged |= mag > 0; } }
  auto& rs = src->getProperty<GrowthCurveResampled>(); auto& fr = src->getProperty<FluxRadius>().getFluxRadius();
  for (size_t r = 0; r < k.inst.size(); ++r) { auto& g = src->getProperty<GrowthCurve>(k.inst[r]); auto& cv = g.getCurve(); double st = g.getStepSize(), big = 0; for (double v : cv) big = std::max(big, std::fabs(v)); c.close(rs.getStepSize()[r] * k.samples, g.getMax(), 1e-6, 0, "steps of the resampled curve"); std::string img = " in image " + std::to_string(k.inst[r]);
    for (size_t q = 0; q < k.samples; ++q) { double x = (q + 1) * g.getMax() / k.samples / st - 1; double want; if (x <= 0) want = cv[0] + x * (cv[1] - cv[0]); else { size_t b = std::min<size_t>(size_t(x), cv.size() - 2); want = cv[b] + (x - b) * (cv[b + 1] - cv[b]); } c.close(rs.getSamples().at(r, q), want, 1e-5, 1e-5 * big + 1e-6, "sample " + std::to_string(q) + " of the resampled curve" + img); }
    for (size_t q = 0; q < k.frac.size(); ++q) { double t = std::max(0., cv.back() * k.frac[q]), got = fr.at(r, q); size_t i = 0; while (i < cv.size() && cv[i] < t) ++i; if (i == cv.size()) { c.label("never reached"); continue; } double y0 = st * i, y1 = st * (i + 1), x0 = i ? cv[i - 1] : 0, x1 = cv[i]; std::string what = "radius of " + std::to_string(k.frac[q]) + " of the flux" + img; c.check(got >= y0 - 1e-5 * y1 && got <= y1 * (1 + 1e-5), what + " is " + std::to_string(got) + " but the curve reaches that flux between " + std::to_string(y0) + " and " + std::to_string(y1)); if (x1 - x0 > 1e-3 * big && t > 0) { c.close(got, y0 + (t - x0) / (x1 - x0) * st, 1e-3, 1e-3 * st, what); c.label("radius"); } } }
  c.nontrivial(judged); }
static void vignet(Case& c) {
  auto s = scene(c, c.s.coin(), 30); auto ms = frames(c, s, false); auto& k = conf(); k.vig = {{int(c.s.range(1, 15)), int(c.s.range(1, 15))}}; k.novalue = float(c.s.pick({-1e30, 0., 7.})); auto tp = tasks(); auto p = somePixels(c, s); auto src = newSource(tp, p, s.frame); src->setProperty<SourceId>(); if (!sane(*src)) return c.nontrivial(false); auto thr = VectorImage<SeFloat>::create(*s.frame->getThresholdedImage()); bool off = false, some = false;
  for (size_t i = 0; i < ms.size(); ++i) { auto& m = ms[i]; auto f = setup().frames[i]; auto& mc = src->getProperty<MeasurementFramePixelCentroid>(i); auto& v = src->getProperty<Vignet>(i).getVignet(); c.eq(v.getWidth(), k.vig[0], "width of the vignet"); c.eq(v.getHeight(), k.vig[1], "height of the vignet"); auto img = VectorImage<SeFloat>::create(*f->getSubtractedImage()), var = VectorImage<SeFloat>::create(*f->getVarianceMap()); double px = mc.getCentroidX() + 0.5, py = mc.getCentroidY() + 0.5; if (px < 0 || py < 0 || std::fabs(px - std::round(px)) < 1e-4 || std::fabs(py - std::round(py)) < 1e-4) continue;
    int x0 = int(px) - k.vig[0] / 2, y0 = int(py) - k.vig[1] / 2; for (int y = 0; y < k.vig[1]; ++y) for (int x = 0; x < k.vig[0]; ++x) { int X = x0 + x, Y = y0 + y; double want = k.novalue; if (X >= 0 && Y >= 0 && X < m.w && Y < m.h && !(var->getValue(X, Y) > float(m.vthr))) { auto d = s.cs->worldToImage(m.cs->imageToWorld(ImageCoordinate(X, Y))); double dx = d.m_x + 0.5, dy = d.m_y + 0.5; if (std::fabs(dx - std::round(dx)) < 1e-6 || std::fabs(dy - std::round(dy)) < 1e-6) continue; int a = int(std::floor(dx)), b = int(std::floor(dy)); bool in = a >= 0 && b >= 0 && a < s.w && b < s.h; off |= !in; bool other = in && thr->getValue(a, b) > 0 && std::find(p.begin(), p.end(), std::make_pair(a, b)) == p.end(); if (!other) { want = img->getValue(X, Y); some = true; } else c.label("neighbour masked"); } c.eq(double(v.getValue(x, y)), want, "pixel " + std::to_string(x) + "," + std::to_string(y) + " of the vignet in image " + std::to_string(i)); } }
  c.label("pixels off the detection frame", off); c.nontrivial(some); }
static void external(Case& c) {
  auto s = scene(c, false, 20); auto p = somePixels(c, s); setup() = Setup(); conf() = Config(); auto& k = conf(); s.hdu = unsigned(c.s.range(0, 2)); s.frame->setHduIndex(s.hdu); int n = int(c.s.range(1, 5)); std::vector<std::shared_ptr<VectorImage<std::int64_t>>> own; std::vector<bool> fits;
  for (int i = 0; i < n; ++i) { auto& e = k.ext[i]; e.first = int(c.s.draw(4)); int values = int(c.s.range(1, 6)); uint64_t key = c.s.draw(1 << 16); bool wrong = c.s.coin(5); for (unsigned h = 0; h < 3; ++h) { int w = s.w + (wrong && h == s.hdu), hh = s.h; auto im = VectorImage<std::int64_t>::create(w, hh); for (int y = 0; y < hh; ++y) for (int x = 0; x < w; ++x) { uint64_t z = mix(key + h, y * w + x) % values; int64_t flag = z == 0 && key % 3 ? 0 : int64_t(mix(key, z) >> (1 + (mix(key + 1, z) % 62))); im->setValue(x, y, flag); } e.second.push_back(im); if (h == s.hdu) own.push_back(im); } fits.push_back(!wrong); c.note() << " type " << e.first << " values " << values; }
  auto tp = tasks(); auto src = newSource(tp, p, s.frame); bool two = false;
  for (int i = 0; i < n; ++i) { if (!fits[i]) { bool threw = false; try { src->getProperty<ExternalFlag>(i); } catch (const Elements::Exception&) { threw = true; } c.check(threw, "a flag image of another size was accepted"); continue; } std::vector<int64_t> v; for (auto& q : p) v.push_back(own[i]->getValue(q.first, q.second)); auto& e = src->getProperty<ExternalFlag>(i); int64_t want = 0; int count = 0; std::string what = "flag " + std::to_string(i);
    std::map<int64_t, int> h; for (auto f : v) ++h[f]; two |= h.size() > 1; switch (k.ext[i].first) { case 0: for (auto f : v) { want |= f; count += f != 0; } break; case 1: want = v[0]; for (auto f : v) want &= f; count = int(v.size()); break; case 2: want = *std::min_element(v.begin(), v.end()); count = h[want]; break; case 3: want = *std::max_element(v.begin(), v.end()); count = h[want]; break; default: for (auto& q : h) if (q.first != 0) count = std::max(count, q.second); want = e.getFlag(); c.check(count == 0 ? want == 0 : want != 0 && h.count(want) && h[want] == count, what + ": " + std::to_string(want) + " is not the most frequent flag which is not zero"); }
    static const char* names[] = {" (or)", " (and)", " (min)", " (max)", " (most)"}; c.eq(e.getFlag(), want, what + names[k.ext[i].first]); c.eq(e.getCount(), count, what + names[k.ext[i].first] + ": count"); }
  c.nontrivial(two); }
PBT_MAIN(
  {"aperture", "an aperture reaches into a measurement frame", aperture, 12000, 300000},
  {"auto", "the Kron aperture reaches into a measurement frame", autophot, 12000, 300000},
  {"growth", "the circles hold pixels of a measurement frame", growth, 6000, 100000},
  {"vignet", "a vignet shows pixels", vignet, 16000, 300000},
  {"external", "the source has pixels with different flags", external, 20000, 400000})
