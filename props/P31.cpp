// Check images: the files asked for hold what was written to them, each under its own name, size and coordinates.
// SRCS: SEFramework/src/lib/CoordinateSystem/WCS.cpp SEFramework/src/lib/FITS/FitsFile.cpp SEFramework/src/lib/FITS/FitsImageSource.cpp SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/WriteableBufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEImplementation/src/lib/CheckImages/CheckImages.cpp SEImplementation/src/lib/CheckImages/DetectionIdCheckImage.cpp SEImplementation/src/lib/CheckImages/GroupIdCheckImage.cpp SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp SEImplementation/src/lib/CheckImages/SourceIdCheckImage.cpp SEImplementation/src/lib/Configuration/CheckImagesConfig.cpp SEImplementation/src/lib/Configuration/BackgroundConfig.cpp SEImplementation/src/lib/Configuration/DetectionFrameConfig.cpp SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp SEImplementation/src/lib/Configuration/MeasurementFrameConfig.cpp SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp SEImplementation/src/lib/Configuration/PythonConfig.cpp SEImplementation/src/lib/Configuration/WeightImageConfig.cpp SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp SEImplementation/src/lib/PythonConfig/PyId.cpp SEImplementation/src/lib/PythonConfig/PyMeasurementImage.cpp SEImplementation/src/lib/PythonConfig/PyOutputWrapper.cpp SEFramework/src/lib/Source/SimpleSource.cpp SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp
// FLAGS: @python
// LIBS: -lcfitsio -lwcs -lboost_program_options -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
#include "frameconfig.h"
#include <mutex>
#include <set>
#include <thread>
#include <atomic>
#include <boost/filesystem.hpp>
#include "SEImplementation/Configuration/CheckImagesConfig.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/FITS/FitsWriter.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
#include "SEImplementation/Plugin/GroupInfo/GroupInfo.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelEvaluator.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEImplementation/CheckImages/DetectionIdCheckImage.h"
#include "SEImplementation/CheckImages/SourceIdCheckImage.h"
#include "SEImplementation/CheckImages/GroupIdCheckImage.h"
#include "SEImplementation/CheckImages/MoffatCheckImage.h"
#define private public
#include "SEImplementation/CheckImages/CheckImages.h"
#undef private
using namespace pbt;
namespace fs = boost::filesystem;
FRAMECONFIG_STANDINS
// ---- names
enum Opt { SEG, PART, GROUP, AUTO, APER, MOFFAT, BACK, VAR, FILT, THR, SNR, MODEL, RESID, WINDOW, PSF, ML, MBACK, MVAR, NOPT };
static const char* OPTION[] = {"segmentation", "partition", "grouping", "auto-aperture", "aperture", "moffat", "background", "variance", "filtered", "thresholded", "snr", "model-fitting", "residual", "fitting-window", "psf", "ml-detection", "measurement-background", "measurement-variance"};
struct Name { std::string dir, stem, ext; bool asked = false; std::string path(const std::string& suffix = "") const { return dir + "/" + stem + (suffix.empty() ? "" : "_" + suffix) + ext; } };
struct Plane { int w, h; bool integer; double ra, dec; bool coords = true; std::vector<double> v; double& at(int x, int y) { return v[size_t(y * w + x)]; } };
struct Frame1 { std::string label; int w, h; double ra, dec; };
struct Scene {
  std::string dir; std::vector<std::unique_ptr<TempFile>> files; std::vector<Frame1> det; std::map<int, Frame1> meas; Name names[NOPT]; std::vector<std::string> args; std::map<std::string, Plane> want; Config g;
  std::vector<std::shared_ptr<DetectionImageFrame>> dframes; std::map<int, std::shared_ptr<MeasurementImageFrame>> mframes;
  Scene() { static int n = 0; dir = scratchDir() + "/ci" + std::to_string(n++); fs::create_directories(dir + "/sub.d"); }
  ~Scene() { dframes.clear(); mframes.clear(); boost::system::error_code e; fs::remove_all(dir, e); }
  Plane& plane(const std::string& path, int w, int h, bool integer, double ra, double dec) { auto it = want.find(path); if (it == want.end()) it = want.emplace(path, Plane{w, h, integer, ra, dec, true, std::vector<double>(size_t(w * h), 0.)}).first; return it->second; }
  std::string index(size_t i) const { return det.size() > 1 ? std::to_string(i) : ""; }
};
struct Fresh { Fresh(Case& c) { analyses().clear(); pythonImages().clear(); scriptsRun().clear(); contextsSetUp() = 0; analysisSeed() = c.s.draw(1u << 30); CheckImages::m_instance.reset(); TileManager::getInstance()->flush(); TileManager::getInstance()->setOptions(int(c.s.pick({4, 8, 16, 256, 3})), int(c.s.pick({4, 16, 256, 5})), 512); } ~Fresh() { analyses().clear(); TileManager::getInstance()->flush(); CheckImages::m_instance.reset(); TileManager::getInstance()->setOptions(256, 256, 512); } };
static void images(Case& c, TempFile& f, bool cube, int most) { int n = int(c.s.range(1, 3)); for (int i = 0; i < n; ++i) { Hdu u; u.w = int(c.s.range(1, most)); u.h = int(c.s.range(1, most)); if (cube && c.s.coin(60)) { u.cube = true; u.depth = int(c.s.range(1, 3)); } uint64_t s = c.s.draw(1u << 30); u.pix.resize(size_t(u.w * u.h * u.depth)); for (size_t k = 0; k < u.pix.size(); ++k) u.pix[k] = float(hashed(s, k) * 300 - 40); u.ra = c.s.uniform(1, 359); u.dec = c.s.uniform(-80, 80); f.hdus.push_back(u); } writeImages(f, c.s.coin(40), c.s.coin(20), c.s.coin(20)); }
static void name(Case& c, Scene& s, int i, int percent) { auto& n = s.names[i]; n.asked = c.s.coin(percent); if (!n.asked) return; n.dir = s.dir + (c.s.coin(30) ? "/sub.d" : ""); n.stem = std::string(c.s.pick({"", "", "a.b ", "x_1"})) + OPTION[i]; n.ext = c.s.pick({".fits", ".fits", ".fit", "", ".FITS"}); auto full = n.path(); if (n.ext.empty()) { auto d = n.stem.rfind('.'); if (d != std::string::npos) { n.ext = n.stem.substr(d); n.stem = n.stem.substr(0, d); } } s.args.push_back(std::string(i == MOFFAT ? "--debug-image-" : "--check-image-") + OPTION[i] + "=" + full); }
// A file that is there already
static void stale(const std::string& path) { fitsfile* f = nullptr; int st = 0; long ax[2] = {3, 2}; float v[6] = {9, 8, 7, 6, 5, 4}; fits_create_file(&f, ("!" + path).c_str(), &st); fits_create_img(f, FLOAT_IMG, 2, ax, &st); fits_write_img(f, TFLOAT, 1, 6, v, &st); fits_create_img(f, FLOAT_IMG, 2, ax, &st); fits_close_file(f, &st); fitsMust(st); }
static void start(Case& c, Scene& s, int percent) {
  s.files.emplace_back(new TempFile); auto& d = *s.files.back(); images(c, d, false, int(c.s.pick({5, 9, 24}))); s.args.push_back("--detection-image=" + d.path); for (auto& u : d.hdus) s.det.push_back({"", u.w, u.h, u.ra, u.dec});
  int nf = int(c.s.draw(2)); std::set<std::string> used; for (int i = 0; i < nf; ++i) { s.files.emplace_back(new TempFile); images(c, *s.files.back(), c.s.coin(50), 9); }
  if (nf) for (int i = int(c.s.range(1, 4)); i > 0; --i) { auto& f = *s.files[1 + c.s.draw(size_t(nf) - 1)]; size_t h = c.s.draw(f.hdus.size() - 1); auto& u = f.hdus[h]; PyMeasurementImage p(f.path, "", ""); int id = p.id; p.image_hdu = int(h) + f.first - 1; p.weight_type = "none"; p.flux_scale = c.s.pick({1., 1., 2.}); std::string label = stemOf(f.path) + "_" + std::to_string(p.image_hdu + 1); if (u.cube && c.s.coin(80)) { p.is_data_cube = true; p.image_layer = int(c.s.draw(size_t(u.depth - 1))); label += "_" + std::to_string(p.image_layer); } if (!used.insert(label).second) continue; if (c.s.coin(30)) { p.is_background_constant = true; p.constant_background_value = c.s.uniform(-5, 50); } pythonImages().emplace(id, p); s.meas[id] = {label, u.w, u.h, u.ra, u.dec}; }
  else s.meas[0] = {stemOf(d.path) + "_" + "1", d.hdus[0].w, d.hdus[0].h, d.hdus[0].ra, d.hdus[0].dec};
  for (int i = 0; i < NOPT; ++i) name(c, s, i, percent);
  for (auto& a : s.args) c.note() << a << " "; c.note() << "\n"; for (auto& x : s.det) c.note() << "detection " << x.w << "x" << x.h << "; "; for (auto& x : s.meas) c.note() << "frame " << x.first << " " << x.second.label << " " << x.second.w << "x" << x.second.h << "; "; c.note() << "tiles " << TileManager::getInstance()->getTileWidth() << "x" << TileManager::getInstance()->getTileHeight() << "\n";
  s.g.add<DetectionFrameConfig>(); CheckImages::getInstance().reportConfigDependencies(s.g.m); s.g.start(s.args); s.dframes = s.g.m.getConfiguration<DetectionFrameConfig>().getDetectionFrames(); s.mframes = s.g.m.getConfiguration<MeasurementFrameConfig>().getFrames();
  if (c.s.coin(30)) for (int i = 0; i < NOPT; ++i) if (s.names[i].asked && c.s.coin()) { auto& n = s.names[i]; stale(i >= MODEL && i != ML ? n.path(s.meas.begin()->second.label) : i == ML ? n.path("0") : n.path(s.index(s.det.size() - 1))); if (i >= MODEL) fs::remove(i == ML ? n.path("0") : n.path(s.meas.begin()->second.label)); }
  CheckImages::getInstance().configure(s.g.m);
  static const int eager[] = {SEG, PART, GROUP, AUTO, APER, MOFFAT}; for (int k : eager) if (s.names[k].asked) for (size_t i = 0; i < s.det.size(); ++i) s.plane(s.names[k].path(s.index(i)), s.det[i].w, s.det[i].h, k != MOFFAT, s.det[i].ra, s.det[i].dec);
}
template <typename T> static void copyInto(Plane& p, const std::shared_ptr<T>& im) { ImageAccessor<SeFloat> a(im); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) p.at(x, y) = a.getValue(x, y); }
// What the images given as a whole must hold; then the end of a run
static void finish(Case& c, Scene& s, const std::map<int, Plane>& models) {
  for (auto& f : s.dframes) { CheckImages::getInstance().addFilteredCheckImage(f->getFilteredImage()); CheckImages::getInstance().addThresholdedCheckImage(f->getThresholdedImage()); CheckImages::getInstance().addSnrCheckImage(f->getSnrImage()); }
  for (size_t i = 0; i < s.det.size(); ++i) { auto& d = s.det[i]; auto& f = s.dframes[i]; auto one = [&](int k, std::shared_ptr<Image<SeFloat>> im) { if (s.names[k].asked) copyInto(s.plane(s.names[k].path(s.index(i)), d.w, d.h, false, d.ra, d.dec), im); }; one(BACK, f->getBackgroundLevelMap()); one(VAR, f->getImage(LayerVarianceMap)); one(FILT, f->getFilteredImage()); one(THR, f->getThresholdedImage()); one(SNR, f->getSnrImage()); }
  for (auto& m : s.meas) { auto& d = m.second; auto& f = s.mframes.at(m.first); auto one = [&](int k, std::shared_ptr<Image<SeFloat>> im) { if (s.names[k].asked) copyInto(s.plane(s.names[k].path(d.label), d.w, d.h, false, d.ra, d.dec), im); }; one(MBACK, f->getBackgroundLevelMap()); one(MVAR, f->getImage(LayerVarianceMap));
    auto it = models.find(m.first); if (s.names[RESID].asked && it != models.end()) { auto& p = s.plane(s.names[RESID].path(d.label), d.w, d.h, false, d.ra, d.dec); copyInto(p, f->getSubtractedImage()); for (size_t i = 0; i < p.v.size(); ++i) p.v[i] = double(float(p.v[i]) - float(it->second.v[i])); } }
  CheckImages::getInstance().saveImages(); TileManager::getInstance()->flush();
}
static void compare(Case& c, Scene& s) {
  std::set<std::string> have; for (fs::recursive_directory_iterator i(s.dir), e; i != e; ++i) if (fs::is_regular_file(i->path())) have.insert(i->path().string());
  for (auto& w : s.want) c.check(have.count(w.first) == 1, "no file " + w.first.substr(s.dir.size())); for (auto& h : have) c.check(s.want.count(h) == 1, "unexpected file " + h.substr(s.dir.size()));
  for (auto& w : s.want) { auto& p = w.second; auto file = w.first.substr(s.dir.size()); fitsfile* f = nullptr; int st = 0, n = 0, bp = 0, na = 0; long ax[3] = {0, 0, 0}; fits_open_diskfile(&f, w.first.c_str(), READONLY, &st); c.check(st == 0, file + " cannot be opened"); fits_get_num_hdus(f, &n, &st); fits_get_img_param(f, 3, &bp, &na, ax, &st); std::vector<double> v(size_t(ax[0] * ax[1])); double ra = 0, dec = 0; int sr = 0, sd = 0; if (!v.empty()) fits_read_img(f, TDOUBLE, 1, long(v.size()), nullptr, v.data(), nullptr, &st); fits_read_key_dbl(f, "CRVAL1", &ra, nullptr, &sr); fits_read_key_dbl(f, "CRVAL2", &dec, nullptr, &sd); int e = 0; fits_close_file(f, &e);
    c.check(st == 0, file + " cannot be read"); c.eq(n, 1, "HDUs of " + file); c.check(na == 2 && ax[0] == p.w && ax[1] == p.h, file + " is of " + std::to_string(ax[0]) + "x" + std::to_string(ax[1]) + " pixels instead of " + std::to_string(p.w) + "x" + std::to_string(p.h)); c.eq(bp, p.integer ? LONG_IMG : FLOAT_IMG, "pixel type of " + file);
    if (p.coords) c.check(sr == 0 && sd == 0 && std::fabs(ra - p.ra) < 1e-7 && std::fabs(dec - p.dec) < 1e-7, file + " has the coordinates of another image");
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { double g = v[size_t(y * p.w + x)], q = p.at(x, y); if (std::isnan(q) && std::isnan(g)) continue; if (!(g == double(p.integer ? q : double(float(q))))) { std::ostringstream o; o << std::setprecision(9) << file << " holds " << g << " at " << x << "," << y << " instead of " << q; c.fail(o.str()); } } }
}
// ---- images drawn on
struct Target { int opt; int frame; Plane* p; };
static std::shared_ptr<WriteableImage<int>> integerImage(int opt, int i) { auto& k = CheckImages::getInstance(); switch (opt) { case SEG: return k.getSegmentationImage(size_t(i)); case PART: return k.getPartitionImage(size_t(i)); case GROUP: return k.getGroupImage(size_t(i)); case AUTO: return i < 0 ? k.getMeasurementAutoApertureImage(unsigned(-1 - i)) : k.getDetectionAutoApertureImage(size_t(i)); case APER: return i < 0 ? k.getMeasurementApertureImage(unsigned(-1 - i)) : k.getDetectionApertureImage(size_t(i)); default: return k.getFittingWindowImage(unsigned(-1 - i)); } }
static std::shared_ptr<WriteableImage<SeFloat>> realImage(int opt, int i, int plane) { auto& k = CheckImages::getInstance(); switch (opt) { case MOFFAT: return k.getMoffatImage(size_t(i)); case MODEL: return k.getModelFittingImage(unsigned(-1 - i)); case PSF: return k.getPsfImage(unsigned(-1 - i)); default: return k.getMLDetectionImage(unsigned(plane), size_t(i)); } }
template <typename T> static void draw(Case& c, const std::shared_ptr<WriteableImage<T>>& im, Plane& p, const std::string& what, int n) {
  c.check(im->getWidth() == p.w && im->getHeight() == p.h, what + " is given with another size"); ImageAccessor<T> a(*im); bool sum = c.s.coin(30);
  for (int i = 0; i < n; ++i) { int x = int(c.s.draw(size_t(p.w) - 1)), y = int(c.s.draw(size_t(p.h) - 1)); T v = std::is_same<T, int>::value ? T(int(c.s.draw(2000)) - 1000) : T(int(c.s.draw(4000)) - 2000) / 8; if (sum) { auto old = im->getChunk(x, y, 1, 1)->getValue(0, 0); if (double(old) != p.at(x, y)) c.fail(what + " reads other values than were written"); v = old + v; } im->setValue(x, y, v); p.at(x, y) = double(v); } }
static void planes(Case& c) {
  Fresh fresh(c); Scene s; start(c, s, int(c.s.pick({50, 90, 20}))); std::map<int, Plane> models; int nops = int(c.s.range(0, 14)), drawn = 0; std::map<std::string, Plane> custom;
  for (int k = 0; k < nops; ++k) { static const int opts[] = {SEG, PART, GROUP, AUTO, APER, MOFFAT, AUTO, APER, MODEL, MODEL, WINDOW, PSF, ML, ML, NOPT, NOPT + 1}; size_t oi = c.s.draw(15); int o = opts[oi]; bool meas = (oi >= 6 && oi <= 11); int n = int(c.s.range(1, 12));
    if (o == NOPT) { std::string id = s.dir + "/" + c.s.pick({"custom", "custom2", "my.image"}); if (s.want.count(id + ".fits") == 0) { int w = int(c.s.range(1, 9)), h = int(c.s.range(1, 9)); auto& p = s.plane(id + ".fits", w, h, false, 0, 0); p.coords = false; } auto& p = s.want.at(id + ".fits"); draw<SeFloat>(c, CheckImages::getInstance().getWriteableCheckImage(id, p.w, p.h), p, "custom image", n); ++drawn; continue; }
    if (o == NOPT + 1) { int w = int(c.s.range(1, 9)), h = int(c.s.range(1, 9)); auto im = VectorImage<SeFloat>::create(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im->setValue(x, y, float(c.s.draw(1000)) / 4); std::string id = s.dir + "/" + c.s.pick({"whole", "whole2", "whole.fit"}), file = id + (id.find("whole.") == std::string::npos ? ".fits" : ""); CheckImages::getInstance().setCustomCheckImage(id, im); s.want.erase(file); auto& p = s.plane(file, w, h, false, 0, 0); p.coords = false; copyInto(p, im); ++drawn; continue; }
    int i, plane = 0; const Frame1* f; std::string suffix; if (meas) { auto it = s.meas.begin(); std::advance(it, int(c.s.draw(s.meas.size() - 1))); i = -1 - it->first; f = &it->second; suffix = f->label; } else { i = int(c.s.draw(s.det.size() - 1)); f = &s.det[size_t(i)]; suffix = s.index(size_t(i)); if (o == ML) { plane = int(c.s.draw(2)); suffix = std::to_string(plane) + (suffix.empty() ? "" : "_" + suffix); } }
    std::string what = std::string(OPTION[o]) + " image " + suffix; bool integer = o != MOFFAT && o != MODEL && o != PSF && o != ML, asked = s.names[o].asked || (o == MODEL && s.names[RESID].asked);
    if (!asked) { c.check(integer ? integerImage(o, i) == nullptr : realImage(o, i, plane) == nullptr, what + " exists without being asked for"); continue; }
    Plane* p; if (o == MODEL) { auto it = models.find(-1 - i); if (it == models.end()) it = models.emplace(-1 - i, Plane{f->w, f->h, false, f->ra, f->dec, true, std::vector<double>(size_t(f->w * f->h), 0.)}).first; p = &it->second; } else p = &s.plane(s.names[o].path(suffix), f->w, f->h, integer, f->ra, f->dec);
    if (integer) { auto im = integerImage(o, i); c.check(im != nullptr, what + " is missing"); draw<int>(c, im, *p, what, n); } else { auto im = realImage(o, i, plane); c.check(im != nullptr, what + " is missing"); draw<SeFloat>(c, im, *p, what, n); } ++drawn; if (o == MODEL && s.names[MODEL].asked) s.plane(s.names[MODEL].path(suffix), f->w, f->h, false, f->ra, f->dec).v = p->v; }
  for (int k : {SEG, PART, GROUP, AUTO, APER}) c.check(integerImage(k, int(s.det.size())) == nullptr, "an image for a detection image that does not exist"); finish(c, s, models); compare(c, s);
  c.label("several detection images", s.det.size() > 1); c.label("several frames", s.meas.size() > 1); c.label("residual without model image", !models.empty() && s.names[RESID].asked && !s.names[MODEL].asked); c.label("drawn on", drawn > 0); c.nontrivial(drawn > 2 && s.want.size() > 2);
}
// ---- several threads draw on the same images
static void threads(Case& c) {
  Fresh fresh(c); Scene s; start(c, s, 100); int nt = int(c.s.range(2, 4)), n = int(c.s.range(5, 40)); uint64_t key = c.s.draw(1u << 30); std::vector<int> ids; for (auto& m : s.meas) ids.push_back(m.first); std::atomic<int> ready{0}; std::atomic<bool> bad{false}; struct Op { int o, i, x, y, v; }; std::vector<std::vector<Op>> ops(static_cast<size_t>(nt)); std::map<int, Plane> models; static const int opts[] = {AUTO, APER, MODEL, PSF, WINDOW, SEG, ML};
  for (int t = 0; t < nt; ++t) for (int k = 0; k < n; ++k) { uint64_t r = key * 1009 + uint64_t(t * 1000 + k); int o = opts[int(hashed(r, 1) * 6.999)]; bool meas = o != SEG && o != ML; int i = meas ? -1 - ids[size_t(hashed(r, 2) * (double(ids.size()) - 1e-9))] : int(hashed(r, 2) * (double(s.det.size()) - 1e-9)); const Frame1& f = meas ? s.meas.at(-1 - i) : s.det[size_t(i)]; Op op{o, i, int(hashed(r, 3) * f.w), int(hashed(r, 4) * f.h), 1 + int(hashed(r, 5) * 50)}; ops[size_t(t)].push_back(op);
    std::string suffix = meas ? f.label : o == ML ? "1" + (s.index(size_t(i)).empty() ? "" : "_" + s.index(size_t(i))) : s.index(size_t(i)); s.plane(s.names[o].path(suffix), f.w, f.h, o == AUTO || o == APER || o == WINDOW || o == SEG, f.ra, f.dec).at(op.x, op.y) += op.v; }
  std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { ++ready; while (ready < nt) ; for (auto& p : ops[size_t(t)]) { if (p.o == MODEL || p.o == PSF || p.o == ML) { auto im = realImage(p.o, p.i, 1); if (!im) { bad = true; continue; } auto v = im->getChunk(p.x, p.y, 1, 1)->getValue(0, 0); im->setValue(p.x, p.y, v + float(p.v)); } else { auto im = integerImage(p.o, p.i); if (!im) { bad = true; continue; } auto v = im->getChunk(p.x, p.y, 1, 1)->getValue(0, 0); im->setValue(p.x, p.y, v + p.v); } } }); for (auto& t : th) t.join();
  c.check(!bad, "an image asked for is missing"); for (auto& m : s.meas) { auto it = s.want.find(s.names[MODEL].path(m.second.label)); if (it != s.want.end()) models.emplace(m.first, it->second); } finish(c, s, models); compare(c, s); c.label("threads " + std::to_string(nt)); c.nontrivial(true);
}
// ---- sources and groups shown on the check images
static void observers(Case& c) {
  Fresh fresh(c); Scene s; start(c, s, int(c.s.pick({70, 100, 30}))); int ng = int(c.s.range(0, 6)), fitted = 0, members = 0; std::map<std::string, std::vector<double>> tolerance; unsigned gid = 0;
  for (int k = 0; k < ng; ++k) { size_t hdu = c.s.draw(s.det.size() - 1); auto& d = s.det[hdu]; SimpleSourceGroup g; int n = int(c.s.range(1, 4)); gid += unsigned(c.s.range(0, 3)); g.setProperty<GroupInfo>(gid);
    for (int m = 0; m < n; ++m) { ++members; auto src = Euclid::make_unique<SimpleSource>(); std::vector<PixelCoordinate> px; int np = int(c.s.range(1, 10)); for (int q = 0; q < np; ++q) px.emplace_back(int(c.s.draw(size_t(d.w) - 1)), int(c.s.draw(size_t(d.h) - 1))); unsigned det_id = unsigned(c.s.range(1, 300)), id = unsigned(c.s.range(1, 300)); src->setProperty<DetectionFrameInfo>(d.w, d.h, 0, 0, 0, 0, std::map<std::string, MetadataEntry>(), hdu); src->setProperty<PixelCoordinateList>(px); src->setProperty<SourceId>(det_id); src->setProperty<SourceID>(id, det_id);
      double x = c.s.uniform(-2, d.w + 1), y = c.s.uniform(-2, d.h + 1), i0 = c.s.uniform(1, 100), index = c.s.uniform(0.6, 4), mink = c.s.uniform(1, 4), top = c.s.uniform(0.1, 2), sx = c.s.uniform(0.5, 4), sy = c.s.uniform(0.5, 4), rot = c.s.uniform(-3, 3); unsigned it = c.s.coin(15) ? 0 : unsigned(c.s.range(1, 30)); MoffatModelFitting fit(float(x), float(y), float(i0), float(index), float(mink), float(top), 20.f, float(sx), float(sy), float(rot), it); src->setProperty<MoffatModelEvaluator>(fit);
      if (s.names[SEG].asked) for (auto& q : px) s.want.at(s.names[SEG].path(s.index(hdu))).at(q.m_x, q.m_y) = det_id; if (s.names[PART].asked) for (auto& q : px) s.want.at(s.names[PART].path(s.index(hdu))).at(q.m_x, q.m_y) = id; if (s.names[GROUP].asked) for (auto& q : px) s.want.at(s.names[GROUP].path(s.index(hdu))).at(q.m_x, q.m_y) = gid;
      if (it && s.names[MOFFAT].asked) { ++fitted; auto file = s.names[MOFFAT].path(s.index(hdu)); auto& p = s.want.at(file); auto& t = tolerance[file]; t.resize(p.v.size()); for (int yy = 0; yy < d.h; ++yy) for (int xx = 0; xx < d.w; ++xx) { double dx = xx - double(float(x)), dy = yy - double(float(y)), co = std::cos(double(float(rot))), si = std::sin(double(float(rot))), u = (dx * co - dy * si) / double(float(sx)), v = (dx * si + dy * co) / double(float(sy)), z = std::pow(std::pow(std::fabs(u), double(float(mink))) + std::pow(std::fabs(v), double(float(mink))), 1 / double(float(mink))) - double(float(top)), value = double(float(i0)) * (z < 0 ? 1 : std::pow(1 + z * z, -double(float(index)))); p.at(xx, yy) += value; t[size_t(yy * d.w + xx)] += 1e-5 * value; } }
      DetectionIdCheckImage().handleMessage(*src); g.addSource(std::move(src)); }
    SourceIdCheckImage().handleMessage(g); GroupIdCheckImage().handleMessage(g); MoffatCheckImage().handleMessage(g); }
  finish(c, s, {});
  for (auto& t : tolerance) { auto& p = s.want.at(t.first); fitsfile* f = nullptr; int st = 0; std::vector<float> v(p.v.size()); fits_open_diskfile(&f, t.first.c_str(), READONLY, &st); if (!st) fits_read_img(f, TFLOAT, 1, long(v.size()), nullptr, v.data(), nullptr, &st); int e = 0; if (f) fits_close_file(f, &e); if (st) continue; for (size_t i = 0; i < v.size(); ++i) if (std::fabs(double(v[i]) - p.v[i]) <= t.second[i]) p.v[i] = double(v[i]); }
  compare(c, s); c.label("fitted sources", fitted > 0); c.label("several fitted sources", fitted > 1); c.label("several detection images", s.det.size() > 1); c.nontrivial(members > 1 && (s.names[SEG].asked || s.names[PART].asked || s.names[GROUP].asked));
}
PBT_MAIN({"planes", "more than two images drawn on and more than two files", planes, 900, 20000}, {"observers", "several sources and an image of their numbers", observers, 500, 15000}, {"threads", "always", threads, 120, 5000})
