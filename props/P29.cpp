// Options, FITS files and Python images become detection and measurement frames.
// SRCS: SEFramework/src/lib/CoordinateSystem/WCS.cpp SEFramework/src/lib/FITS/FitsFile.cpp SEFramework/src/lib/FITS/FitsImageSource.cpp SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEImplementation/src/lib/Configuration/BackgroundConfig.cpp SEImplementation/src/lib/Configuration/DetectionFrameConfig.cpp SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp SEImplementation/src/lib/Configuration/MeasurementFrameConfig.cpp SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp SEImplementation/src/lib/Configuration/PythonConfig.cpp SEImplementation/src/lib/Configuration/WeightImageConfig.cpp SEImplementation/src/lib/PythonConfig/PyId.cpp SEImplementation/src/lib/PythonConfig/PyMeasurementImage.cpp SEImplementation/src/lib/PythonConfig/PyOutputWrapper.cpp
// FLAGS: @python
// LIBS: -lcfitsio -lwcs -lboost_program_options -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
#include "frameconfig.h"
#include <mutex>
#include <boost/filesystem.hpp>
#include "SEImplementation/Configuration/BackgroundConfig.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/InterpolatedImageSource.h"
#define private public
#include "SEImplementation/CheckImages/CheckImages.h"
#undef private
using namespace pbt;
FRAMECONFIG_STANDINS
namespace SourceXtractor {
std::unique_ptr<CheckImages> CheckImages::m_instance;
CheckImages::CheckImages() {}
void CheckImages::reportConfigDependencies(Euclid::Configuration::ConfigManager&) const {}
void CheckImages::configure(Euclid::Configuration::ConfigManager&) {}
}
struct Weight { const Hdu* hdu = nullptr; int layer = 0; WT type = WT::WEIGHT_TYPE_NONE; double scale = 1; bool absolute = false, thresholded = false; double threshold = 0; };
static std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
static const double SCALES[] = {1, 1, 1, 2, 0.5, 3.25, 0.01};
static const char* TYPES[] = {"rms", "variance", "weight", "none", "background"};
static WT typeOf(int t) { return t == 0 ? WT::WEIGHT_TYPE_RMS : t == 1 ? WT::WEIGHT_TYPE_VARIANCE : t == 2 ? WT::WEIGHT_TYPE_WEIGHT : t == 3 ? WT::WEIGHT_TYPE_NONE : WT::WEIGHT_TYPE_FROM_BACKGROUND; }
static std::string cased(Case& c, std::string s) { int k = int(c.s.draw(2)); for (auto& x : s) if (k == 1 || (k == 2 && c.s.coin())) x = char(toupper(x)); return s; }
static uint64_t salt = 0;
static void fill(Case& c, Hdu& u, bool weight, int type) { uint64_t s = c.s.draw(1u << 30) + 7919 * ++salt; u.pix.resize(size_t(u.w * u.h * u.depth)); for (size_t i = 0; i < u.pix.size(); ++i) { double a = hashed(s, i), b = hashed(s + 1, i); u.pix[i] = float(weight ? (a < 0.08 ? 0 : a < 0.12 && type != 1 ? -b * 3 : 0.1 + 5 * b) : b * 300 - 40); } }
static void keyword(Case& c, Keyword& k, bool scale) { k.kind = int(c.s.draw(2)); if (k.kind == 1) k.value = scale ? c.s.pick({0.5, 2., 1.75, 1.}) : c.s.uniform(0, 50000); if (k.kind == 2) k.value = double(scale ? c.s.range(1, 4) : c.s.range(0, 60000)); }
static void images(Case& c, TempFile& f, bool cube) { int n = int(c.s.range(1, 3)); for (int i = 0; i < n; ++i) { Hdu u; u.w = int(c.s.range(1, 9)); u.h = int(c.s.range(1, 9)); if (cube && c.s.coin(70)) { u.cube = true; u.depth = int(c.s.range(1, 4)); } fill(c, u, false, 0); keyword(c, u.gain, false); keyword(c, u.saturate, false); keyword(c, u.flux, true); u.ra = c.s.uniform(1, 359); u.dec = c.s.uniform(-80, 80); f.hdus.push_back(u); } writeImages(f, c.s.coin(40), c.s.coin(20), c.s.coin(20)); }
static void weights(Case& c, TempFile& f, const TempFile& like, int type, bool fewer) { f.hdus = like.hdus; if (fewer && f.hdus.size() > 1) f.hdus.pop_back(); for (auto& u : f.hdus) { u.gain = u.saturate = u.flux = Keyword(); fill(c, u, true, type); } writeImages(f, c.s.coin(40), c.s.coin(20), c.s.coin(20)); }
static double thresholdFor(Case& c, int type) { return type == 2 && c.s.coin(20) ? (c.s.coin() ? 0 : -1.5) : c.s.uniform(0.2, 6); }
static void image(Case& c, const std::string& what, const std::shared_ptr<Image<SeFloat>>& im, int w, int h, const std::function<double(int, int)>& f, double rel = 2e-6) {
  c.check(im != nullptr, what + " is missing"); c.check(im->getWidth() == w && im->getHeight() == h, what + " has size " + std::to_string(im->getWidth()) + "x" + std::to_string(im->getHeight()));
  ImageAccessor<SeFloat> a(im); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double g = a.getValue(x, y), e = f(x, y); if (std::isnan(e)) continue; if (!(g == e || std::fabs(g - e) <= rel * std::fabs(e) + 1e-6 * rel)) { std::ostringstream o; o << std::setprecision(9) << what << " at " << x << "," << y << " is " << g << " instead of " << e; c.fail(o.str()); } } }
// What a pixel's variance is before the analysis of the background, and whether it is bad (2: too close to tell)
static double varianceOf(const Weight& w, int x, int y) { double v = double(float(double(w.hdu->at(x, y, w.layer)))) * w.scale; switch (w.type) { case WT::WEIGHT_TYPE_RMS: return v * v; case WT::WEIGHT_TYPE_VARIANCE: return v; default: return v > 0 ? 1 / v : INFINITY; } }
static int badness(const Weight& w, int x, int y) {
  double v = double(w.hdu->at(x, y, w.layer)) * w.scale, t = w.threshold; auto gt = [](double a, double b) { return std::fabs(a - b) < 2e-5 * (std::fabs(a) + std::fabs(b)) ? 2 : int(a > b); };
  if (w.type == WT::WEIGHT_TYPE_WEIGHT) return v <= 0 ? 1 : !w.thresholded || t <= 0 ? 0 : gt(t, v); if (!w.thresholded) return 0; return w.type == WT::WEIGHT_TYPE_RMS ? gt(v * v, t * t) : gt(v, t); }
static int badPixels(Case& c, const std::string& what, const Hdu& u, const Weight& w, const std::shared_ptr<Image<SeFloat>>& variance, double threshold) {
  int n = 0; ImageAccessor<SeFloat> a(variance); for (int y = 0; y < u.h; ++y) for (int x = 0; x < u.w; ++x) { int b = badness(w, x, y); if (b == 2) continue; bool g = a.getValue(x, y) > float(threshold); n += b; std::ostringstream o; o << what << ": pixel " << x << "," << y << " of weight " << w.hdu->at(x, y, w.layer) << " is " << (g ? "bad" : "good"); c.check(g == (b == 1), o.str()); } return n; }
struct Frames { int bad = 0, relative = 0, scaled = 0; };
// One frame against its definition
static void frame(Case& c, const std::string& what, const std::shared_ptr<DetectionImageFrame>& f, const Hdu& u, int layer, double fs, double gain, double sat, const Weight& w, bool detection, double constant, bool has_constant, Frames& tot) {
  image(c, what + " image", f->getOriginalImage(), u.w, u.h, [&](int x, int y) { return double(u.at(x, y, layer)) * fs; }); c.close(f->getGain(), gain / fs, 2e-6, 1e-12, what + " gain"); c.close(f->getSaturation(), sat * fs, 2e-6, 1e-12, what + " saturation");
  auto wc = f->getCoordinateSystem()->imageToWorld(ImageCoordinate(0, 0)); c.check(std::fabs(wc.m_alpha - u.ra) < 1e-7 && std::fabs(wc.m_delta - u.dec) < 1e-7, what + " has the coordinates of another image");
  Analysis* a = nullptr; for (auto& x : analyses()) { if (x.image->getWidth() != u.w || x.image->getHeight() != u.h) continue; bool same = true; ImageAccessor<SeFloat> p(x.image); for (int yy = 0; yy < u.h; ++yy) for (int xx = 0; xx < u.w; ++xx) if (std::fabs(p.getValue(xx, yy) - double(u.at(xx, yy, layer)) * fs) > 1e-5 * std::fabs(double(u.at(xx, yy, layer)) * fs)) same = false; if (same && !x.used && (!a || (a->typed == detection && x.typed == !detection))) a = &x; }
  c.check(a != nullptr, what + ": the background was not analysed on the image of the frame"); a->used = true; { ImageAccessor<unsigned char> m(a->mask); bool any = false; c.check(a->mask->getWidth() == u.w && a->mask->getHeight() == u.h, what + ": mask of another size"); for (int y = 0; y < u.h; ++y) for (int x = 0; x < u.w; ++x) any |= m.getValue(x, y) != 0; c.check(!any, what + ": the analysis masks pixels"); }
  if (!detection) c.check(a->typed && a->type == w.type, what + ": the analyzer was made for another type of weights");
  ImageAccessor<SeFloat> lv(a->level), mv(a->model_variance); auto level = [&](int x, int y) { return has_constant ? constant : double(lv.getValue(x, y)); }; image(c, what + " background", f->getBackgroundLevelMap(), u.w, u.h, level);
  if (!has_constant || detection) c.close(f->getBackgroundMedianRms(), a->rms, 1e-6, 0, what + " background rms");
  double abs = w.absolute ? fs * fs : 1, k = w.absolute ? 1 : double(a->factor);
  if (w.hdu) { c.check(a->variance != nullptr, what + ": the analysis got no weights"); image(c, what + " weights of the analysis", a->variance, u.w, u.h, [&](int x, int y) { return varianceOf(w, x, y) * abs; }, 5e-6);
    image(c, what + " variance", f->getOriginalVarianceMap(), u.w, u.h, [&](int x, int y) { return varianceOf(w, x, y) * abs * k; }, 5e-6); int n = badPixels(c, what + ", analysis", u, w, a->variance, a->threshold); badPixels(c, what, u, w, f->getOriginalVarianceMap(), f->getVarianceThreshold()); tot.bad += n > 0 && n < u.w * u.h; tot.relative += !w.absolute; }
  else { c.check(a->variance == nullptr, what + ": the analysis got weights"); image(c, what + " variance", f->getOriginalVarianceMap(), u.w, u.h, [&](int x, int y) { return double(mv.getValue(x, y)); });
    if (w.type != WT::WEIGHT_TYPE_WEIGHT && w.type != WT::WEIGHT_TYPE_VARIANCE && fs == 1) { ImageAccessor<SeFloat> v(f->getOriginalVarianceMap()); for (int y = 0; y < u.h; ++y) for (int x = 0; x < u.w; ++x) { double t = w.threshold * w.threshold, g = v.getValue(x, y); if (w.thresholded && std::fabs(t - g) < 2e-5 * (t + g)) continue; c.check((g > f->getVarianceThreshold()) == (w.thresholded && g > t), what + ": bad pixels without weights"); } } }
  tot.scaled += fs != 1; }
static std::string describe(const Weight& w) { std::ostringstream o; if (w.hdu) o << " weights of type " << int(w.type) << " scaled by " << w.scale << (w.absolute ? " absolute" : ""); if (w.thresholded) o << " threshold " << w.threshold; return o.str(); }
struct Fresh { Fresh(Case& c) { salt = 0; analyses().clear(); pythonImages().clear(); scriptsRun().clear(); contextsSetUp() = 0; analysisSeed() = c.s.draw(1u << 30); TileManager::getInstance()->flush(); CheckImages::m_instance.reset(); } ~Fresh() { analyses().clear(); CheckImages::m_instance.reset(); TileManager::getInstance()->flush(); } };
// Detection options
struct Detection { TempFile file, wfile; std::vector<std::string> args; int type = 3; bool given = false; double fs = 1, gain = 0, sat = 0; bool has_fs = false, has_gain = false, has_sat = false, use_weight = false, interp = true; int gap = 5; int single = -1, wsingle = -1; Weight w; double background = 0; bool has_background = false; double threshold = 1.5; };
static void detection(Case& c, Detection& d) {
  images(c, d.file, false); d.given = true; std::string p = d.file.path; if (c.s.coin(25)) { d.single = int(c.s.draw(d.file.hdus.size() - 1)); p += "[" + std::to_string(d.single + d.file.first - 1) + "]"; } d.args.push_back("--detection-image=" + p);
  if (c.s.coin(40)) { d.has_fs = true; d.fs = SCALES[c.s.draw(6)]; d.args.push_back("--detection-image-flux-scale=" + num(d.fs)); } if (c.s.coin(40)) { d.has_gain = true; d.gain = c.s.coin(20) ? 0 : c.s.uniform(0.1, 10); d.args.push_back("--detection-image-gain=" + num(d.gain)); }
  if (c.s.coin(40)) { d.has_sat = true; d.sat = c.s.coin(20) ? 0 : c.s.uniform(100, 60000); d.args.push_back("--detection-image-saturation=" + num(d.sat)); } if (c.s.coin(50)) { d.interp = c.s.coin(60); d.args.push_back(std::string("--detection-image-interpolation=") + (d.interp ? "true" : "false")); }
  if (c.s.coin(50)) { d.gap = int(c.s.range(0, 7)) - 1; d.args.push_back("--detection-image-interpolation-gap=" + std::to_string(d.gap)); }
  if (c.s.coin(75)) { d.use_weight = true; d.type = int(c.s.draw(2)); weights(c, d.wfile, d.file, d.type, d.single < 0 && c.s.coin(10)); if (d.single >= 0) { d.wsingle = d.single; d.args.push_back("--weight-image=" + d.wfile.path + "[" + std::to_string(d.single + d.wfile.first - 1) + "]"); } else d.args.push_back("--weight-image=" + d.wfile.path); d.w.absolute = c.s.coin(40); if (d.w.absolute || c.s.coin()) d.args.push_back(std::string("--weight-absolute=") + (d.w.absolute ? "true" : "false")); if (c.s.coin(40)) { d.w.scale = c.s.pick({0.5, 2., 3.75}); d.args.push_back("--weight-scaling=" + num(d.w.scale)); } }
  else if (c.s.coin()) d.type = 3 + int(c.s.draw(1)); d.w.type = typeOf(d.type); if (d.use_weight || d.type == 4) d.args.push_back("--weight-type=" + cased(c, TYPES[d.type])); if (c.s.coin(60)) { d.w.thresholded = true; d.w.threshold = thresholdFor(c, d.type); if (!d.use_weight) d.w.threshold = std::fabs(d.w.threshold); d.args.push_back("--weight-threshold=" + num(d.w.threshold)); }
  if (c.s.coin(30)) { d.has_background = true; d.background = c.s.uniform(-5, 50); d.args.push_back("--background-value=" + num(d.background)); } if (c.s.coin(50)) { d.threshold = c.s.uniform(0.5, 5); d.args.push_back("--detection-threshold=" + num(d.threshold)); } }
static double valueOf(const Keyword& k, double other) { return k.kind == 1 || k.kind == 2 ? k.value : other; }
static void expected(const Detection& d, const Hdu& u, double& fs, double& gain, double& sat) { fs = d.has_fs ? d.fs : valueOf(u.flux, 1); gain = d.has_gain ? d.gain : valueOf(u.gain, 0); sat = d.has_sat ? d.sat : valueOf(u.saturate, 0); }
static void checkDetection(Case& c, Detection& d, Config& g, Frames& tot) {
  auto& fr = g.m.getConfiguration<DetectionFrameConfig>().getDetectionFrames(); auto& ic = g.m.getConfiguration<DetectionImageConfig>(); size_t n = d.single >= 0 ? 1 : d.file.hdus.size(); c.check(fr.size() == n && ic.getExtensionsNb() == n, std::to_string(fr.size()) + " detection frames from " + std::to_string(n) + " images"); c.check(!ic.isReferenceImage(), "a detection image taken for a reference");
  for (size_t i = 0; i < n; ++i) { auto& u = d.file.hdus[d.single >= 0 ? size_t(d.single) : i]; size_t wi = d.wsingle >= 0 ? size_t(d.wsingle) : i; Weight w = d.w; bool lacking = d.use_weight && wi >= d.wfile.hdus.size(); if (d.use_weight && !lacking) w.hdu = &d.wfile.hdus[wi]; if (lacking) continue; double fs, gain, sat; expected(d, u, fs, gain, sat);
    std::string what = "detection frame " + std::to_string(i); c.note() << what << ": " << u.w << "x" << u.h << " flux scale " << fs << describe(w) << "\n"; if (d.has_background && fs != 1) { /* in which unit is not said */ } frame(c, what, fr[i], u, 0, fs, gain, sat, w, true, d.background, d.has_background, tot);
    c.check(fr[i]->getLabel() == stemOf(d.file.path), what + " is labelled " + fr[i]->getLabel()); c.check(fr[i]->getHduIndex() == i, what + " has index " + std::to_string(fr[i]->getHduIndex())); auto& md = fr[i]->getMetadata(); auto it = md.find("CRVAL1"); c.check(it != md.end() && std::fabs(boost::get<double>(it->second.m_value) - u.ra) < 1e-9, what + " has the keywords of another image");
    int gap = d.interp ? std::max(0, d.gap) : 0; c.check(ic.getInterpolationGap(i) == gap, what + " has gap " + std::to_string(ic.getInterpolationGap(i))); auto in = fr[i]->getInterpolatedImage();
    if (!gap) image(c, what + " interpolated by 0", in, u.w, u.h, [&](int x, int y) { return double(u.at(x, y)) * fs; });
    else { auto ref = BufferedImage<SeFloat>::create(std::make_shared<InterpolatedImageSource<SeFloat>>(fr[i]->getOriginalImage(), fr[i]->getOriginalVarianceMap(), fr[i]->getVarianceThreshold(), gap)); ImageAccessor<SeFloat> r(ref); image(c, what + " interpolated", in, u.w, u.h, [&](int x, int y) { return double(r.getValue(x, y)); }); }
    ImageAccessor<SeFloat> ii(in), bg(fr[i]->getBackgroundLevelMap()), va(fr[i]->getOriginalVarianceMap()); image(c, what + " subtracted", fr[i]->getSubtractedImage(), u.w, u.h, [&](int x, int y) { return double(float(ii.getValue(x, y) - bg.getValue(x, y))); }); image(c, what + " threshold map", fr[i]->getDetectionThresholdMap(), u.w, u.h, [&](int x, int y) { return std::sqrt(double(va.getValue(x, y))) * d.threshold; }); } }
// Images of the Python configuration
struct Measured { std::vector<std::unique_ptr<TempFile>> files; struct One { const TempFile* f; const TempFile* wf; size_t hdu, whdu; int layer, wlayer; Weight w; }; std::map<int, One> ones; };
static void measured(Case& c, Measured& m) {
  int nf = int(c.s.range(1, 2)); for (int i = 0; i < nf; ++i) { m.files.emplace_back(new TempFile); images(c, *m.files.back(), c.s.coin(30)); }
  int n = int(c.s.range(1, 4)); for (int i = 0; i < n; ++i) { const TempFile& f = *m.files[c.s.draw(size_t(nf) - 1)]; size_t h = c.s.draw(f.hdus.size() - 1); auto& u = f.hdus[h]; Measured::One o; o.f = &f; o.hdu = o.whdu = h; o.wf = nullptr; o.layer = o.wlayer = 0; int type = 3 + int(c.s.draw(1)); bool blank = c.s.coin(20);
    PyMeasurementImage p(f.path, c.s.coin(60) ? "" : c.s.coin(70) ? std::string(c.s.coin() ? "NoPSF" : "somewhere/nopsf") : f.path, ""); int id = p.id; p.image_hdu = int(h) + f.first - 1; p.psf_hdu = int(c.s.draw(3)); p.gain = c.s.coin(20) ? 0 : c.s.uniform(0.1, 10); p.saturation = c.s.uniform(0, 60000); p.flux_scale = SCALES[c.s.draw(6)]; p.weight_type = blank ? "undef" : TYPES[type]; p.weight_scaling = 1; p.psf_renormalize = c.s.coin();
    if (u.cube && c.s.coin(85)) { p.is_data_cube = true; o.layer = p.image_layer = int(c.s.draw(size_t(u.depth - 1))); }
    if (c.s.coin(70)) { type = int(c.s.draw(2)); m.files.emplace_back(new TempFile); auto* wf = m.files.back().get(); weights(c, *wf, f, type, false); o.wf = wf; p.weight_file = wf->path; p.weight_hdu = int(h) + wf->first - 1; p.weight_type = cased(c, TYPES[type]); blank = false; p.weight_absolute = c.s.coin(); p.weight_scaling = c.s.pick({1., 1., 0.5, 2., 3.75}); if (p.is_data_cube) o.wlayer = p.weight_layer = int(c.s.draw(size_t(u.depth - 1))); o.w.hdu = &wf->hdus[h]; o.w.layer = o.wlayer; o.w.absolute = p.weight_absolute; o.w.scale = p.weight_scaling; }
    o.w.type = blank ? WT::WEIGHT_TYPE_NONE : typeOf(type); if (c.s.coin(60)) { o.w.thresholded = p.has_weight_threshold = true; o.w.threshold = p.weight_threshold = o.wf ? thresholdFor(c, type) : c.s.uniform(0.2, 6); } if (c.s.coin(30)) { p.is_background_constant = true; p.constant_background_value = c.s.uniform(-5, 50); }
    pythonImages().emplace(id, p); m.ones[id] = o; } }
static void checkMeasured(Case& c, Measured& m, Config& g, Frames& tot) {
  auto& fr = g.m.getConfiguration<MeasurementFrameConfig>().getFrames(); auto& in = g.m.getConfiguration<MeasurementImageConfig>().getImageInfos(); c.check(fr.size() == m.ones.size() && in.size() == m.ones.size(), std::to_string(fr.size()) + " measurement frames from " + std::to_string(m.ones.size()) + " images");
  for (auto& o : m.ones) { auto& p = pythonImages().at(o.first); auto it = fr.find(o.first); std::string what = "measurement frame " + std::to_string(o.first); c.check(it != fr.end(), what + " is missing"); auto& u = o.second.f->hdus[o.second.hdu]; c.note() << what << ": " << u.w << "x" << u.h << " layer " << o.second.layer << " flux scale " << p.flux_scale << describe(o.second.w) << "\n"; frame(c, what, it->second, u, o.second.layer, p.flux_scale, p.gain, p.saturation, o.second.w, false, p.constant_background_value, p.is_background_constant, tot);
    c.check(it->second->getLabel() == stemOf(p.file) + "_" + std::to_string(p.image_hdu + 1), what + " is labelled " + it->second->getLabel()); image(c, what + " interpolated", it->second->getInterpolatedImage(), u.w, u.h, [&](int x, int y) { return double(u.at(x, y, o.second.layer)) * p.flux_scale; });
    const MeasurementImageConfig::MeasurementImageInfo* f = nullptr; for (auto& x : in) if (x.m_id == o.first) f = &x; c.check(f != nullptr, what + " has no description"); c.check(f->m_path == p.file && f->m_psf_path == p.psf_file && f->m_image_hdu == p.image_hdu + 1 && f->m_psf_hdu == p.psf_hdu + 1 && f->m_weight_hdu == p.weight_hdu + 1 && f->m_is_data_cube == p.is_data_cube && f->m_image_layer == p.image_layer && f->m_weight_layer == p.weight_layer && f->m_psf_renormalize == p.psf_renormalize && f->m_weight_type == o.second.w.type && f->m_absolute_weight == p.weight_absolute && f->m_is_background_constant == p.is_background_constant, what + " is described otherwise than configured"); } }
static void frames(Case& c) {
  Fresh fresh(c); Config g; Detection d; Measured m; Frames tot; bool det = c.s.coin(80), py = !det || c.s.coin(60); if (det) detection(c, d); if (py) measured(c, m); for (auto& a : d.args) c.note() << a << " "; c.note() << "\n";
  if (det) { g.add<DetectionFrameConfig>(); } g.add<MeasurementFrameConfig>(); g.start(d.args); c.check(contextsSetUp() == 1 && scriptsRun().empty(), "the Python context was set up " + std::to_string(contextsSetUp()) + " times");
  if (det) checkDetection(c, d, g, tot); if (py) checkMeasured(c, m, g, tot);
  else { auto& fr = g.m.getConfiguration<MeasurementFrameConfig>().getFrames(); c.check(fr.size() == 1 && fr.count(0), "the detection image is not measured on by default"); auto& u = d.file.hdus[d.single >= 0 ? size_t(d.single) : 0]; Weight w = d.w; size_t wi = d.wsingle >= 0 ? size_t(d.wsingle) : 0; if (d.use_weight) w.hdu = &d.wfile.hdus[wi]; double fs, gain, sat; expected(d, u, fs, gain, sat); frame(c, "measurement on the detection image", fr.at(0), u, 0, fs, gain, sat, w, false, 0, false, tot); c.check(fr.at(0)->getLabel() == stemOf(d.file.path) + "_1", "measurement on the detection image is labelled " + fr.at(0)->getLabel()); }
  c.label("some bad pixels", tot.bad > 0); c.label("relative weights", tot.relative > 0); c.label("flux scale", tot.scaled > 0); c.label("several detection images", det && d.single < 0 && d.file.hdus.size() > 1); c.label("Python images", py); c.nontrivial(tot.bad > 0 && tot.scaled + tot.relative > 0); }
// What cannot be meant is refused; references have coordinates only
static void refusals(Case& c) {
  Fresh fresh(c); Config g; Detection d; Measured m; std::string why; int k = int(c.s.draw(18)); auto& a = d.args; TempFile ref; bool good = false; auto strip = [&](const std::string& p) { a.erase(std::remove_if(a.begin(), a.end(), [&](const std::string& s) { return s.compare(0, p.size(), p) == 0; }), a.end()); };
  std::string missing = scratchDir() + "/does_not_exist.fits"; if (k != 8 && k != 9 && k != 18) detection(c, d); auto first = [&]() -> PyMeasurementImage& { measured(c, m); return pythonImages().begin()->second; };
  switch (k) {
  case 0: why = "missing detection image"; a[0] = "--detection-image=" + missing; break;
  case 1: why = "missing weight image"; strip("--weight-image"); strip("--weight-type"); a.push_back("--weight-image=" + missing); a.push_back("--weight-type=rms"); break;
  case 2: why = "weight image of no type"; strip("--weight-image"); strip("--weight-type"); strip("--weight-absolute"); a.push_back("--weight-image=" + d.file.path); if (c.s.coin()) a.push_back("--weight-type=" + cased(c, c.s.coin() ? "background" : "none")); break;
  case 3: why = "unknown weight type"; strip("--weight-type"); a.push_back(std::string("--weight-type=") + c.s.pick({"rm", "sigma", "weights", ""})); break;
  case 4: why = "absolute weights without image"; strip("--weight-"); a.push_back("--weight-absolute=true"); break;
  case 5: why = "detection and reference image"; a.push_back("--reference-image=" + d.file.path); break;
  case 6: case 7: { why = "keyword that is no number"; bool sing = d.single >= 0; size_t i = sing ? size_t(d.single) : c.s.draw(d.file.hdus.size() - 1); int w = int(c.s.draw(2)); strip(w == 0 ? "--detection-image-gain" : w == 1 ? "--detection-image-saturation" : "--detection-image-flux-scale"); auto& u = d.file.hdus[i]; (w == 0 ? u.gain : w == 1 ? u.saturate : u.flux).kind = 3; std::string old = d.file.path; writeImages(d.file, d.file.first == 2, false, false); unlink(old.c_str()); a[0] = "--detection-image=" + d.file.path + (sing ? "[" + std::to_string(d.single + d.file.first - 1) + "]" : ""); break; }
  case 8: why = "no image at all"; break;
  case 9: { why = "a reference image alone for measuring"; images(c, ref, false); a.push_back("--reference-image=" + ref.path); break; }
  case 10: { auto& p = first(); why = "missing measurement image"; p.file = missing; break; }
  case 11: { auto& p = first(); why = "missing measurement weight image"; p.weight_file = missing; p.weight_type = "rms"; break; }
  case 12: { auto& p = first(); why = "missing PSF"; p.psf_file = missing; break; }
  case 13: { auto& p = first(); why = "unknown measurement weight type"; p.weight_type = c.s.pick({"rm", "sigma", ""}); break; }
  case 14: { auto& p = first(); why = "measurement weight type without weights"; p.weight_file = ""; p.weight_type = cased(c, TYPES[c.s.draw(2)]); break; }
  case 15: { auto& p = first(); why = "measurement weights of no type"; p.weight_file = p.file; p.weight_hdu = p.image_hdu; p.weight_type = cased(c, c.s.coin() ? "none" : c.s.coin() ? "undef" : "background"); break; }
  case 16: { auto& p = first(); why = "HDU that does not exist"; p.image_hdu += 12; break; }
  case 17: { why = "missing configuration script"; a.push_back("--python-config-file=" + scratchDir() + "/missing.py"); break; }
  case 18: { why = "reference image"; good = true; images(c, ref, false); measured(c, m); bool one = ref.first == 2 || c.s.coin(); a.push_back("--reference-image=" + ref.path + (one ? "[" + std::to_string(ref.first - 1) + "]" : "")); std::string py = scratchDir() + "/script.py"; { std::ofstream(py) << "pass\n"; } std::vector<std::string> av; a.push_back("--python-config-file=" + py); for (int i = int(c.s.draw(2)); i > 0; --i) av.push_back(c.s.pick({"x", "a=1", "b=two words"})); if (!av.empty()) { a.push_back("--python-arg"); for (auto& x : av) a.push_back(x); }
    g.add<DetectionFrameConfig>(); g.add<MeasurementFrameConfig>(); g.start(a); unlink(py.c_str()); auto& ic = g.m.getConfiguration<DetectionImageConfig>(); c.check(ic.isReferenceImage() && ic.getExtensionsNb() == 0 && g.m.getConfiguration<DetectionFrameConfig>().getDetectionFrames().empty(), "a reference image is detected on"); auto w = ic.getCoordinateSystem()->imageToWorld(ImageCoordinate(0, 0)); c.check(std::fabs(w.m_alpha - ref.hdus[0].ra) < 1e-7 && std::fabs(w.m_delta - ref.hdus[0].dec) < 1e-7, "the reference has other coordinates"); bool threw = false; try { ic.getDetectionImage(); } catch (const std::exception&) { threw = true; } c.check(threw, "the reference image is given as detection image");
    c.check(scriptsRun().size() == 1 && scriptsRun()[0].first == py && scriptsRun()[0].second == av && contextsSetUp() == 1, "the script is not run once with its arguments"); Frames t; checkMeasured(c, m, g, t); break; }
  }
  c.note() << why << ":"; for (auto& x : a) c.note() << " " << x; c.note() << "\n"; c.label(why); c.nontrivial(true); if (good) return; bool threw = false; g.add<DetectionFrameConfig>(); g.add<MeasurementFrameConfig>(); try { g.start(a); } catch (const std::exception&) { threw = true; } c.check(threw, why + " is accepted"); c.check(k != 17 || scriptsRun().empty(), "a missing script is run"); }
PBT_MAIN({"frames", "a frame has good and bad pixels and a flux scale or relative weights", frames, 2500, 60000}, {"refusals", "always", refusals, 1500, 20000})
