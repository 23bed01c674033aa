// FITS files, recorded background analysis and Python images for the checks of the image configuration.
#pragma once
#include <boost/python.hpp>
#include "pbt.h"
#include <fitsio.h>
#include <boost/program_options.hpp>
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/TileManager.h"
#include "SEImplementation/Background/BackgroundAnalyzerFactory.h"
#include "SEImplementation/Configuration/DetectionImageConfig.h"
#include "SEImplementation/Configuration/WeightImageConfig.h"
#include "SEImplementation/Configuration/MeasurementImageConfig.h"
#include "SEImplementation/Configuration/MeasurementFrameConfig.h"
#include "SEImplementation/Configuration/DetectionFrameConfig.h"
#include "SEImplementation/PythonConfig/PythonInterpreter.h"
namespace pbt {
using namespace SourceXtractor;
using WT = WeightImageConfig::WeightType;
// ---- stand-ins: the analysis of backgrounds is recorded, its results are known
struct Analysis { WT type; bool typed; std::shared_ptr<Image<SeFloat>> image, variance, level, model_variance; std::shared_ptr<Image<unsigned char>> mask; float threshold, factor, rms; bool used = false; };
inline std::vector<Analysis>& analyses() { static std::vector<Analysis> a; return a; }
inline uint64_t& analysisSeed() { static uint64_t s = 1; return s; }
inline double hashed(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; return double(z >> 11) / 9007199254740992.; }
class RecordingAnalyzer : public BackgroundAnalyzer {
public:
  RecordingAnalyzer(WT t, bool typed) : m_type(t), m_typed(typed) {}
  BackgroundModel analyzeBackground(std::shared_ptr<DetectionImage> image, std::shared_ptr<WeightImage> variance, std::shared_ptr<Image<unsigned char>> mask, WeightImage::PixelType threshold) const override {
    uint64_t s = analysisSeed() * 131 + analyses().size(); int w = image->getWidth(), h = image->getHeight(); auto lv = VectorImage<SeFloat>::create(w, h), va = VectorImage<SeFloat>::create(w, h);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { lv->setValue(x, y, float(hashed(s, uint64_t(y * 1000 + x)) * 40 - 10)); va->setValue(x, y, float(0.2 + 5 * hashed(s + 77, uint64_t(y * 1000 + x)))); }
    Analysis a{m_type, m_typed, image, variance, lv, va, mask, threshold, float(std::exp(3 * hashed(s, 5000000) - 1.5)), float(0.1 + hashed(s, 5000001)), false}; analyses().push_back(a);
    return BackgroundModel(lv, va, a.factor, a.rms);
  }
private: WT m_type; bool m_typed;
};
inline std::map<int, PyMeasurementImage>& pythonImages() { static std::map<int, PyMeasurementImage> m; return m; }
inline std::vector<std::pair<std::string, std::vector<std::string>>>& scriptsRun() { static std::vector<std::pair<std::string, std::vector<std::string>>> v; return v; }
inline int& contextsSetUp() { static int n = 0; return n; }
// ---- files
struct Keyword { int kind = 0; double value = 0; }; // none, real, integer, string
struct Hdu { int w = 0, h = 0, depth = 1; bool cube = false; std::vector<float> pix; Keyword gain, saturate, flux; double ra = 0, dec = 0; float at(int x, int y, int layer = 0) const { return pix[size_t((layer * h + y) * w + x)]; } };
struct TempFile { std::string path; int first = 1; std::vector<Hdu> hdus; ~TempFile() { if (!path.empty()) unlink(path.c_str()); } TempFile() = default; TempFile(const TempFile&) = delete; };
inline void fitsMust(int st) { if (st) throw std::runtime_error("harness: cfitsio " + std::to_string(st)); }
inline void writeKey(fitsfile* f, const char* n, const Keyword& k, int& st) { if (k.kind == 1) { double v = k.value; fits_write_key_dbl(f, n, v, -15, "", &st); } if (k.kind == 2) fits_write_key_lng(f, n, long(k.value), "", &st); if (k.kind == 3) fits_write_key_str(f, n, "unknown", "", &st); }
// An image per HDU, the first of them in the primary one unless that is left empty; a table may follow
inline void writeImages(TempFile& o, bool empty_primary, bool table, bool doubles) {
  static int n = 0; static const char* stems[] = {"image", "a.b", "frame_1", "x-y"}; o.path = scratchDir() + "/" + stems[n % 4] + std::to_string(n) + ".fits"; ++n; o.first = empty_primary ? 2 : 1; int st = 0; fitsfile* f = nullptr; unlink(o.path.c_str());
  fits_create_file(&f, o.path.c_str(), &st); if (empty_primary) fits_create_img(f, 16, 0, nullptr, &st);
  for (auto& u : o.hdus) { long ax[3] = {u.w, u.h, u.depth}; fits_create_img(f, doubles ? DOUBLE_IMG : FLOAT_IMG, u.cube ? 3 : 2, ax, &st); fits_write_key_str(f, "CTYPE1", "RA---TAN", "", &st); fits_write_key_str(f, "CTYPE2", "DEC--TAN", "", &st); fits_write_key_dbl(f, "CRPIX1", 1., -15, "", &st); fits_write_key_dbl(f, "CRPIX2", 1., -15, "", &st);
    fits_write_key_dbl(f, "CRVAL1", u.ra, -15, "", &st); fits_write_key_dbl(f, "CRVAL2", u.dec, -15, "", &st); fits_write_key_dbl(f, "CDELT1", -1e-4, -15, "", &st); fits_write_key_dbl(f, "CDELT2", 1e-4, -15, "", &st); if (u.cube) { fits_write_key_str(f, "CTYPE3", "LINEAR", "", &st); fits_write_key_dbl(f, "CRPIX3", 1., -15, "", &st); fits_write_key_dbl(f, "CDELT3", 1., -15, "", &st); fits_write_key_dbl(f, "CRVAL3", 1., -15, "", &st); }
    writeKey(f, "GAIN", u.gain, st); writeKey(f, "SATURATE", u.saturate, st); writeKey(f, "FLXSCALE", u.flux, st); fits_write_img(f, TFLOAT, 1, long(u.pix.size()), u.pix.data(), &st); }
  if (table) { const char* t[] = {"A"}; const char* q[] = {"1J"}; const char* un[] = {""}; fits_create_tbl(f, BINARY_TBL, 2, 1, const_cast<char**>(t), const_cast<char**>(q), const_cast<char**>(un), "T", &st); }
  fits_close_file(f, &st); fitsMust(st);
}
inline std::string stemOf(const std::string& path) { auto s = path.substr(path.rfind('/') + 1); auto d = s.rfind('.'); return s.substr(0, d); }
// ---- configuration from options
struct Config {
  long id; Euclid::Configuration::ConfigManager& m; boost::program_options::options_description desc;
  Config() : id(next()), m(Euclid::Configuration::ConfigManager::getInstance(id)) {}
  ~Config() { Euclid::Configuration::ConfigManager::drop(id); }
  static long next() { static long n = 1000; return ++n; }
  template <typename T> void add() { m.registerConfiguration<T>(); }
  void start(const std::vector<std::string>& args) { desc.add(m.closeRegistration()); namespace po = boost::program_options; po::variables_map vm; po::store(po::command_line_parser(args).options(desc).run(), vm); po::notify(vm); Euclid::Configuration::Configuration::UserValues v; for (auto& x : vm) v[x.first] = x.second; m.initialize(v); }
};
}
// The stand-ins' definitions, once per program
#define FRAMECONFIG_STANDINS \
  namespace SourceXtractor { \
  BackgroundAnalyzerFactory::BackgroundAnalyzerFactory(long id) : Configuration(id), m_weight_type(WeightImageConfig::WeightType::WEIGHT_TYPE_NONE) { declareDependency<WeightImageConfig>(); } \
  void BackgroundAnalyzerFactory::initialize(const UserValues&) {} \
  std::shared_ptr<BackgroundAnalyzer> BackgroundAnalyzerFactory::createBackgroundAnalyzer() const { return std::make_shared<pbt::RecordingAnalyzer>(pbt::WT::WEIGHT_TYPE_NONE, false); } \
  std::shared_ptr<BackgroundAnalyzer> BackgroundAnalyzerFactory::createBackgroundAnalyzer(WeightImageConfig::WeightType t) const { return std::make_shared<pbt::RecordingAnalyzer>(t, true); } \
  static Elements::Logging standin_logger = Elements::Logging::getLogger("Python"); \
  PythonInterpreter::PythonInterpreter() : m_out_wrapper(standin_logger), m_err_wrapper(standin_logger) {} \
  PythonInterpreter::~PythonInterpreter() {} \
  PythonInterpreter& PythonInterpreter::getSingleton() { static PythonInterpreter* p = new PythonInterpreter; return *p; } \
  void PythonInterpreter::runFile(const std::string& f, const std::vector<std::string>& a) { pbt::scriptsRun().emplace_back(f, a); } \
  void PythonInterpreter::setupContext() { ++pbt::contextsSetUp(); } \
  std::map<int, PyMeasurementImage> PythonInterpreter::getMeasurementImages() { return pbt::pythonImages(); } \
  }
