// Point spread functions: files and options become the PSF of each frame, evaluated at the source and normalised.
// SRCS: SEFramework/src/lib/Psf/VariablePsf.cpp SEFramework/src/lib/Psf/VariablePsfStack.cpp SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp SEImplementation/src/lib/Plugin/Psf/PsfTask.cpp SEImplementation/src/lib/Plugin/Psf/PsfTaskFactory.cpp SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTaskFactory.cpp SEFramework/src/lib/CoordinateSystem/WCS.cpp SEFramework/src/lib/FITS/FitsFile.cpp SEFramework/src/lib/FITS/FitsImageSource.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp SEImplementation/src/lib/Configuration/PythonConfig.cpp SEImplementation/src/lib/Configuration/WeightImageConfig.cpp SEImplementation/src/lib/PythonConfig/PyId.cpp SEImplementation/src/lib/PythonConfig/PyMeasurementImage.cpp SEImplementation/src/lib/PythonConfig/PyOutputWrapper.cpp SEFramework/src/lib/Source/SimpleSource.cpp SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp
// FLAGS: @python
// LIBS: -lCCfits -lcfitsio -lwcs -lboost_program_options -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
#include "frameconfig.h"
#include <mutex>
#include <numeric>
#include <set>
#include <thread>
#include <boost/filesystem.hpp>
#include "SEFramework/Psf/VariablePsf.h"
#include "SEFramework/Psf/VariablePsfStack.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Image/WriteableImageInterfaceTraits.h"
#include "SEImplementation/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangle.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroid.h"
#include "SEImplementation/Plugin/Psf/PsfPluginConfig.h"
#include "SEImplementation/Plugin/Psf/PsfProperty.h"
#include "SEImplementation/Plugin/Psf/PsfTask.h"
#include "SEImplementation/Plugin/Psf/PsfTaskFactory.h"
#include "SEImplementation/Plugin/SourcePsf/SourcePsfProperty.h"
#include "SEImplementation/Plugin/SourcePsf/SourcePsfTask.h"
#include "SEImplementation/Plugin/SourcePsf/SourcePsfTaskFactory.h"
#define private public
#include "SEImplementation/CheckImages/CheckImages.h"
#undef private
using namespace pbt;
FRAMECONFIG_STANDINS
static std::map<unsigned, std::shared_ptr<VectorImage<SeFloat>>> check_images;
namespace SourceXtractor {
std::unique_ptr<CheckImages> CheckImages::m_instance;
CheckImages::CheckImages() {}
void CheckImages::reportConfigDependencies(Euclid::Configuration::ConfigManager&) const {}
void CheckImages::configure(Euclid::Configuration::ConfigManager&) {}
std::shared_ptr<WriteableImage<MeasurementImage::PixelType>> CheckImages::getPsfImage(unsigned n) { auto i = check_images.find(n); if (i == check_images.end()) return nullptr; return LockedWriteableImage<SeFloat>::create(i->second); }
}
using Im = std::shared_ptr<VectorImage<SeFloat>>;
static std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
// ---- the model: a PSF that can be evaluated
struct Model {
  enum Kind { POLY, STACK, IMAGE, GAUSS } kind = POLY; double sampling = 1; int size = 0;
  std::vector<VariablePsf::Component> comps; std::vector<int> degrees; std::vector<std::vector<float>> coef; std::vector<std::vector<int>> expo; // POLY
  std::vector<float> px, py; std::vector<int> gx, gy; int gw = 0, gh = 0; std::vector<float> grid; // STACK
  double fwhm = 0;
  size_t axes() const { return kind == POLY ? comps.size() : kind == STACK ? 2 : 0; }
  // The pixels, how far they may be off, and whether the answer is clear
  bool eval(const std::vector<double>& v, std::vector<double>& out, std::vector<double>& tol) const {
    size_t n = size_t(size * size); out.assign(n, 0); tol.assign(n, 0);
    if (kind == STACK) { int best = -1; double d = 1e300, second = 1e300; for (size_t i = 0; i < px.size(); ++i) { double q = std::hypot(v[0] - double(px[i]), v[1] - double(py[i])); if (q < d) { second = d; d = q; best = int(i); } else if (q < second) second = q; } if (second - d < 1e-3 * (1 + d)) return false; for (int y = 0; y < size; ++y) for (int x = 0; x < size; ++x) out[size_t(y * size + x)] = double(grid[size_t((gy[size_t(best)] - 1 - size / 2 + y) * gw + gx[size_t(best)] - 1 - size / 2 + x)]); return true; }
    if (kind == GAUSS) { double s = fwhm / sampling / 2.355, t = 0; for (int y = 0; y < size; ++y) for (int x = 0; x < size; ++x) { double a = x - size / 2, b = y - size / 2; t += out[size_t(y * size + x)] = std::exp(-(a * a + b * b) / (2 * s * s)); } for (size_t i = 0; i < n; ++i) { out[i] /= t; tol[i] = 2e-5 * out[i] + 1e-12; } return true; }
    for (size_t k = 0; k < coef.size(); ++k) { double a = 1; for (size_t j = 0; j < comps.size(); ++j) a *= std::pow((v[j] - comps[j].offset) / comps[j].scale, expo[k][j]); for (size_t i = 0; i < n; ++i) { double t = a * double(coef[k][i]); out[i] += t; tol[i] += std::fabs(t) * 1e-6 * double(coef.size()); } } return true; }
};
// All products of powers, a group's degree at most; the last variable counts most
static void exponents(Model& m) {
  size_t n = m.comps.size(); std::vector<int> e(n, 0); int top = 0; for (int d : m.degrees) top = std::max(top, d); m.expo.clear();
  for (;;) { std::vector<int> sum(m.degrees.size(), 0); bool ok = true; for (size_t i = 0; i < n; ++i) sum[size_t(m.comps[i].group_id)] += e[i]; for (size_t g = 0; g < sum.size(); ++g) ok &= sum[g] <= m.degrees[g]; if (ok) m.expo.push_back(e); size_t i = 0; while (i < n && ++e[i] > top) e[i++] = 0; if (i == n) break; } }
static std::vector<float> kernel(Case& c, int size, bool peaked) { uint64_t s = c.s.draw(1u << 30); std::vector<float> v(size_t(size * size)); for (int y = 0; y < size; ++y) for (int x = 0; x < size; ++x) v[size_t(y * size + x)] = float((peaked ? std::exp(-0.3 * (std::pow(x - size / 2, 2) + std::pow(y - size / 2, 2))) : 0) + (hashed(s, uint64_t(y * 97 + x)) - (peaked ? 0 : 0.5)) * 0.2); return v; }
static Model polynomial(Case& c, bool names) {
  Model m; m.kind = Model::POLY; m.size = 2 * int(c.s.range(0, 3)) + 1; m.sampling = c.s.pick({1., 0.5, 0.7, 2.}); static const char* known[] = {"X_IMAGE", "Y_IMAGE", "XWIN_IMAGE", "YWIN_IMAGE", "XPEAK_IMAGE", "YPEAK_IMAGE", "XMODEL_IMAGE", "YMODEL_IMAGE"};
  int ng = int(c.s.range(1, 3)), nc = int(c.s.range(0, 4)); for (int g = 0; g < ng; ++g) m.degrees.push_back(int(c.s.range(0, nc > 3 ? 2 : 3))); for (int i = 0; i < nc; ++i) m.comps.push_back({names ? known[c.s.draw(7)] : "v" + std::to_string(i), int(c.s.draw(size_t(ng) - 1)), c.s.uniform(-100, 300), c.s.uniform(20, 400) * (c.s.coin(20) ? -1 : 1)}); exponents(m); if (m.expo.size() > 80) c.discard(); if (names && m.expo.size() == 1 && m.size == 1) m.size = 3; // CCfits reads no arrays from a scalar column
  for (size_t k = 0; k < m.expo.size(); ++k) m.coef.push_back(kernel(c, m.size, k == 0)); return m; }
static Im image(const std::vector<float>& v, int w, int h) { return VectorImage<SeFloat>::create(w, h, std::vector<SeFloat>(v)); }
static void same(Case& c, const std::string& what, const std::shared_ptr<VectorImage<SeFloat>>& im, const Model& m, const std::vector<double>& v, bool normalised) {
  std::vector<double> e, t; if (!m.eval(v, e, t)) return; c.check(im != nullptr, what + " is missing"); c.check(im->getWidth() == m.size && im->getHeight() == m.size, what + " is of another size"); double sum = 0, st = 0, sa = 0; for (size_t i = 0; i < e.size(); ++i) { sum += e[i]; st += t[i]; sa += std::fabs(e[i]); } if (normalised && std::fabs(sum) < 0.05 * sa) return; double got = 0;
  for (int y = 0; y < m.size; ++y) for (int x = 0; x < m.size; ++x) { size_t i = size_t(y * m.size + x); double a = e[i], q = t[i]; if (normalised) { q = (q + std::fabs(a) * (st + 1e-6 * sa) / std::fabs(sum)) / std::fabs(sum) + 1e-6 * std::fabs(a / sum); a /= sum; } double g = im->at(x, y); got += g; if (!(std::fabs(g - a) <= q + 1e-7 * std::fabs(a))) { std::ostringstream o; o << std::setprecision(9) << what << " is " << g << " at " << x << "," << y << " instead of " << a; c.fail(o.str()); } } if (normalised) c.close(got, 1, 1e-4 * std::max(1., sa / std::fabs(sum)), 0, what + ": sum"); }
// ---- the polynomial alone
static void variable(Case& c) {
  Model m = polynomial(c, false); std::vector<Im> co; for (auto& k : m.coef) co.push_back(image(k, m.size, m.size)); int wrong = c.s.coin(25) ? 1 + int(c.s.draw(4)) : 0; auto comps = m.comps; auto deg = m.degrees; std::ostringstream o; for (size_t i = 0; i < comps.size(); ++i) o << comps[i].name << " group " << comps[i].group_id << " offset " << comps[i].offset << " scale " << comps[i].scale << "; "; o << "degrees"; for (int d : deg) o << " " << d; c.note() << o.str() << ", " << co.size() << " coefficients of size " << m.size << "\n";
  if (wrong) { std::string why; bool threw = false; switch (wrong) { case 1: why = "a coefficient too many"; co.push_back(co[0]); break; case 2: why = "a coefficient too few"; co.pop_back(); break; case 3: if (co.size() < 2) c.discard(); why = "coefficients of different sizes"; co.back() = image(std::vector<float>(size_t(m.size * (m.size + 1))), m.size, m.size + 1); break; case 4: if (comps.empty()) c.discard(); why = "a group beyond the degrees"; comps[c.s.draw(comps.size() - 1)].group_id = int(deg.size()) + int(c.s.draw(2)); break; default: if (comps.empty()) c.discard(); why = "a negative group"; comps[c.s.draw(comps.size() - 1)].group_id = -1 - int(c.s.draw(1)); }
    try { VariablePsf p(m.sampling, comps, deg, co); } catch (const std::exception&) { threw = true; } c.label(why); c.nontrivial(true); c.check(threw, why + " is accepted"); return; }
  std::shared_ptr<Psf> p; if (comps.empty() && m.coef.size() == 1 && c.s.coin()) p = std::make_shared<VariablePsf>(m.sampling, co[0]); else p = std::make_shared<VariablePsf>(m.sampling, comps, deg, co);
  c.check(p->getWidth() == m.size && p->getHeight() == m.size && p->getPixelSampling() == m.sampling, "size or sampling lost"); c.eq(p->getComponents().size(), comps.size(), "variables"); for (size_t i = 0; i < comps.size(); ++i) c.check(p->getComponents()[i] == comps[i].name, "variables are renamed or reordered");
  for (int k = 0; k < 3; ++k) { std::vector<double> v; for (auto& q : comps) v.push_back(c.s.coin(20) ? q.offset : q.offset + q.scale * c.s.uniform(-2, 2)); same(c, "PSF", p->getPsf(v), m, v, false); std::vector<double> w = v; w.push_back(1); bool threw = false; try { p->getPsf(w); } catch (const std::exception&) { threw = true; } c.check(threw, "a value too many is accepted"); }
  std::set<int> groups; for (auto& q : comps) groups.insert(q.group_id); c.label("several groups", groups.size() > 1); c.label("several variables", comps.size() > 1); c.label("a group of degree 0", std::count(deg.begin(), deg.end(), 0) > 0 && !comps.empty()); c.nontrivial(m.coef.size() > 3); }
// ---- files
struct File { std::string path; int hdu = 1; ~File() { if (!path.empty()) unlink(path.c_str()); } File() = default; File(const File&) = delete; };
static std::string fresh(const char* stem) { static int n = 0; return scratchDir() + "/" + stem + std::to_string(n++) + ".psf"; }
enum Broken { SOUND, EVEN, OBLONG, NOKEY, SHORT, BADNAME, NOROWS, OUTSIDE, NOCOLUMN, GROUP0, NAXES, EXTRA };
static void writePoly(Case& c, File& f, const Model& m, Broken b) {
  f.path = fresh("ex"); fitsfile* o = nullptr; int st = 0; fits_create_file(&o, f.path.c_str(), &st); fits_create_img(o, 8, 0, nullptr, &st); int w = m.size, h = m.size, nk = int(m.coef.size()); size_t n = size_t(w * h) * size_t(nk); std::string form = std::to_string(b == SHORT ? std::max(1, int(n) - 1 - int(c.s.draw(n - 1))) : int(n)) + "E"; const char* t[] = {b == NOCOLUMN ? "PSF_MASKS" : "PSF_MASK"}; const char* q[] = {form.c_str()}; const char* un[] = {""}; fits_create_tbl(o, BINARY_TBL, 1, 1, const_cast<char**>(t), const_cast<char**>(q), const_cast<char**>(un), "PSF_DATA", &st);
  std::vector<float> all; for (auto& k : m.coef) all.insert(all.end(), k.begin(), k.end()); fits_write_col(o, TFLOAT, 1, 1, 1, long(b == SHORT ? std::stol(form) : long(n)), all.data(), &st);
  std::vector<std::pair<std::string, double>> ints; ints.emplace_back("POLNAXIS", m.comps.size()); ints.emplace_back("POLNGRP", m.degrees.size()); for (size_t i = 0; i < m.comps.size(); ++i) ints.emplace_back("POLGRP" + std::to_string(i + 1), m.comps[i].group_id + 1); for (size_t g = 0; g < m.degrees.size(); ++g) ints.emplace_back("POLDEG" + std::to_string(g + 1), m.degrees[g]); ints.emplace_back("PSFNAXIS", 3); ints.emplace_back("PSFAXIS1", w); ints.emplace_back("PSFAXIS2", h); ints.emplace_back("PSFAXIS3", nk);
  if (b == OBLONG) { ints[ints.size() - 2].second = h + 2; } if (b == EVEN) { ints[ints.size() - 3].second = ints[ints.size() - 2].second = w + 1; } if (b == GROUP0) ints[2].second = c.s.coin() ? 0 : -1; size_t drop = b == NOKEY ? c.s.draw(ints.size() - 1) : ints.size(); if (drop < ints.size() && ints[drop].first == "PSFNAXIS") ++drop; for (size_t i = 0; i < ints.size(); ++i) if (i != drop) fits_write_key_lng(o, ints[i].first.c_str(), long(ints[i].second), "", &st);
  for (size_t i = 0; i < m.comps.size(); ++i) { auto s = std::to_string(i + 1); fits_write_key_str(o, ("POLNAME" + s).c_str(), b == BADNAME && i + 1 == m.comps.size() ? "MAG_AUTO" : m.comps[i].name.c_str(), "", &st); fits_write_key_dbl(o, ("POLZERO" + s).c_str(), m.comps[i].offset, -15, "", &st); fits_write_key_dbl(o, ("POLSCAL" + s).c_str(), m.comps[i].scale, -15, "", &st); } fits_write_key_dbl(o, "PSF_SAMP", m.sampling, -15, "", &st); fits_close_file(o, &st); fitsMust(st); }
static Model stack(Case& c, File& f, Broken b) {
  Model m; m.kind = Model::STACK; m.size = 2 * int(c.s.range(0, 3)) + 1; int half = m.size / 2; m.gw = m.size * int(c.s.range(1, 3)) + int(c.s.draw(3)); m.gh = m.size * int(c.s.range(1, 3)) + int(c.s.draw(3)); int n = b == NOROWS ? 0 : int(c.s.range(1, 6)); uint64_t s = c.s.draw(1u << 30); for (int i = 0; i < m.gw * m.gh; ++i) m.grid.push_back(float(0.05 + hashed(s, uint64_t(i)))); for (int i = 0; i < n; ++i) { m.px.push_back(float(c.s.uniform(0, 300))); m.py.push_back(float(c.s.uniform(0, 300))); m.gx.push_back(int(c.s.range(1 + half, m.gw - half))); m.gy.push_back(int(c.s.range(1 + half, m.gh - half))); }
  bool has = c.s.coin(60); if (has) m.sampling = c.s.pick({0.5, 0.25, 2.}); if (b == OUTSIDE) { auto& g = c.s.coin() ? m.gx : m.gy; auto lim = &g == &m.gx ? m.gw : m.gh; g[c.s.draw(g.size() - 1)] = c.s.coin() ? half - int(c.s.draw(2)) : lim - half + 1 + int(c.s.draw(2)); }
  f.path = fresh("stack"); fitsfile* o = nullptr; int st = 0; fits_create_file(&o, f.path.c_str(), &st); long pax[2] = {3, 3}; if (b == EXTRA) { float z[9] = {}; fits_create_img(o, FLOAT_IMG, 1, pax, &st); fits_write_img(o, TFLOAT, 1, 3, z, &st); } else fits_create_img(o, 8, 0, nullptr, &st); long ax[3] = {m.gw, m.gh, 1}; fits_create_img(o, FLOAT_IMG, b == NAXES ? 3 : 2, ax, &st); fits_write_key_str(o, "EXTNAME", "PSF_IMAGE", "", &st); if (b != NOKEY) fits_write_key_lng(o, "STMPSIZE", m.size + (b == EVEN), "", &st); if (has) fits_write_key_dbl(o, "SAMPLING", m.sampling, -15, "", &st); fits_write_img(o, TFLOAT, 1, long(m.grid.size()), m.grid.data(), &st);
  bool old = c.s.coin(40), wide = c.s.coin(); std::vector<std::string> names = {old ? "GRIDX" : "X_CENTER", old ? "GRIDY" : "Y_CENTER", "RA", "DEC", "X", "Y"}; if (b == NOCOLUMN) names[c.s.draw(5)] = "Z"; std::vector<char*> t, q, un; for (auto& x : names) { t.push_back(const_cast<char*>(x.c_str())); q.push_back(const_cast<char*>(wide ? "1D" : "1E")); un.push_back(const_cast<char*>("")); } fits_create_tbl(o, BINARY_TBL, 0, 6, t.data(), q.data(), un.data(), "POS", &st); std::vector<float> col(static_cast<size_t>(n)); auto put = [&](int k, const std::function<double(size_t)>& g) { for (size_t i = 0; i < col.size(); ++i) col[i] = float(g(i)); if (n) fits_write_col(o, TFLOAT, k, 1, 1, n, col.data(), &st); }; put(1, [&](size_t i) { return m.gx[i]; }); put(2, [&](size_t i) { return m.gy[i]; }); put(3, [&](size_t i) { return double(i); }); put(4, [&](size_t i) { return double(i); }); put(5, [&](size_t i) { return double(m.px[i]); }); put(6, [&](size_t i) { return double(m.py[i]); }); fits_close_file(o, &st); fitsMust(st); return m; }
static Model picture(Case& c, File& f, Broken b) {
  Model m; m.kind = Model::IMAGE; m.size = 2 * int(c.s.range(0, 4)) + 1; bool has = c.s.coin(60); if (has) m.sampling = c.s.pick({0.5, 0.25, 2.}); m.coef.push_back(kernel(c, m.size, true)); m.expo.emplace_back(); f.path = fresh("image"); fitsfile* o = nullptr; int st = 0; fits_create_file(&o, f.path.c_str(), &st); int nh = int(c.s.range(1, 3)); f.hdu = nh == 1 ? 1 : int(c.s.range(1, nh)); bool dbl = c.s.coin(30);
  for (int i = 1; i <= nh; ++i) { bool mine = i == f.hdu; long ax[3] = {m.size + (mine ? 0 : 2) + (mine && b == EVEN), m.size + (mine ? 0 : 2) + (mine && (b == EVEN)) + (mine && b == OBLONG ? 2 : 0), 1}; std::vector<float> v = mine && b == SOUND ? m.coef[0] : std::vector<float>(size_t(ax[0] * ax[1]), 0.5f); fits_create_img(o, dbl ? DOUBLE_IMG : FLOAT_IMG, mine && b == NAXES ? 3 : 2, ax, &st); if (mine ? has : c.s.coin()) fits_write_key_dbl(o, "SAMPLING", mine ? m.sampling : 3., -15, "", &st); fits_write_img(o, TFLOAT, 1, long(v.size()), v.data(), &st); } fits_close_file(o, &st); fitsMust(st); if (b == NOROWS) f.hdu = nh + 1 + int(c.s.draw(2)); return m; }
static void check(Case& c, const Model& m, const std::shared_ptr<Psf>& p) {
  c.check(p != nullptr, "no PSF"); c.check(p->getWidth() == m.size && p->getHeight() == m.size, "PSF of another size"); c.close(p->getPixelSampling(), m.sampling, 1e-12, 0, "sampling"); c.eq(p->getComponents().size(), m.axes(), "variables"); for (int k = 0; k < 4; ++k) { std::vector<double> v; for (size_t i = 0; i < m.axes(); ++i) v.push_back(m.kind == Model::POLY ? m.comps[i].offset + m.comps[i].scale * c.s.uniform(-1.5, 1.5) : c.s.uniform(-50, 350)); same(c, "PSF", p->getPsf(v), m, v, false); } }
static void files(Case& c) {
  File f; Model m; int kind = int(c.s.draw(3)); static const Broken pb[] = {EVEN, OBLONG, NOKEY, SHORT, BADNAME, NOCOLUMN, GROUP0}, sb[] = {EVEN, NOKEY, NOROWS, OUTSIDE, NOCOLUMN, NAXES, EXTRA}, ib[] = {EVEN, OBLONG, NAXES, NOROWS}; bool broken = c.s.coin(30); Broken b = SOUND; static const char* text[] = {"sound", "even", "oblong", "a keyword lacks", "column too short", "unknown variable", "nothing there", "beyond the image", "column lacks", "group 0", "number of axes", "data in the primary HDU"};
  if (kind == 3) { m.kind = Model::GAUSS; m.fwhm = double(float(c.s.uniform(0.5, 6))); m.sampling = double(float(c.s.uniform(0.3, 1.5))); m.size = int(float(m.fwhm) / float(m.sampling) + 1) * 6 + 1; c.note() << "FWHM " << m.fwhm << " sampling " << m.sampling << "\n"; auto p = PsfPluginConfig::generateGaussianPsf(float(m.fwhm), float(m.sampling)); check(c, m, p); c.label("Gaussian"); c.nontrivial(true); return; }
  if (kind == 0) { m = polynomial(c, true); if (broken) b = pb[c.s.draw(6)]; if ((b == BADNAME || b == GROUP0) && m.comps.empty()) c.discard(); if (b == SHORT && m.coef.size() * size_t(m.size * m.size) < 2) c.discard(); writePoly(c, f, m, b); } else if (kind == 1) { if (broken) b = sb[c.s.draw(6)]; m = stack(c, f, b); } else { if (broken) b = ib[c.s.draw(3)]; m = picture(c, f, b); }
  c.note() << (kind == 0 ? "PSFEx" : kind == 1 ? "stack" : "image") << " " << text[b] << " size " << m.size << " HDU " << f.hdu << "\n"; std::shared_ptr<Psf> p; std::string error; try { p = PsfPluginConfig::readPsf(f.path, f.hdu); } catch (const std::exception& e) { error = e.what(); if (error.empty()) error = "?"; }
  c.label(kind == 0 ? "PSFEx" : kind == 1 ? "stack" : "image"); c.nontrivial(true); if (b != SOUND) { c.label(std::string("refused: ") + text[b]); c.check(!error.empty(), std::string("accepted: ") + text[b]); return; } c.check(error.empty(), "refused: " + error); check(c, m, p); }
static void threads(Case& c) {
  File f; Model m; int kind = int(c.s.draw(3)); if (kind == 0) { m = polynomial(c, true); writePoly(c, f, m, SOUND); } else m = stack(c, f, SOUND); auto p = PsfPluginConfig::readPsf(f.path, 1); c.check(p != nullptr, "no PSF"); std::vector<std::vector<double>> at; for (int i = 0; i < 8; ++i) { std::vector<double> v; for (size_t k = 0; k < m.axes(); ++k) v.push_back(c.s.uniform(0, 300)); at.push_back(v); }
  const size_t n = 400; std::vector<Im> got(n); std::vector<std::string> error(4); std::vector<std::thread> th; for (size_t t = 0; t < 4; ++t) th.emplace_back([&, t] { try { for (size_t i = t; i < n; i += 4) got[i] = p->getPsf(at[i % 8]); } catch (const std::exception& e) { error[t] = e.what(); if (error[t].empty()) error[t] = "?"; } }); for (auto& t : th) t.join(); for (auto& e : error) c.check(e.empty(), "evaluated by threads: " + e); for (size_t i = 0; i < n; ++i) same(c, "PSF by threads", got[i], m, at[i % 8], false); c.label(kind ? "stack" : "PSFEx"); c.nontrivial(m.coef.size() > 1 || m.px.size() > 1); }
// ---- the PSF of each frame
static void tasks(Case& c) {
  pythonImages().clear(); check_images.clear(); TileManager::getInstance()->flush(); std::vector<std::unique_ptr<File>> keep; TempFile img; { Hdu u; u.w = 2; u.h = 2; u.pix = {1, 2, 3, 4}; img.hdus.push_back(u); writeImages(img, false, false, false); }
  auto any = [&](Model& m, std::string& path, int& hdu) { keep.emplace_back(new File); auto& f = *keep.back(); int k = int(c.s.draw(2)); if (k == 0) { m = polynomial(c, true); writePoly(c, f, m, SOUND); } else if (k == 1) m = stack(c, f, SOUND); else m = picture(c, f, SOUND); path = f.path; hdu = f.hdu; };
  struct One { int state = 0; Model m; bool renormalize = true; }; std::map<int, One> want; One def; std::vector<std::string> args; int dk = int(c.s.draw(4)); // state: 0 none given, 1 a PSF, 2 explicitly none
  if (dk == 1) { int hdu; std::string p; do { any(def.m, p, hdu); } while (hdu != 1); def.state = 1; args.push_back("--psf-filename=" + p); } if (dk == 2) { def.state = 1; def.m.kind = Model::GAUSS; def.m.fwhm = c.s.uniform(0.5, 4); def.m.sampling = c.s.uniform(0.4, 1.5); args.push_back("--psf-fwhm=" + num(def.m.fwhm)); args.push_back("--psf-pixel-sampling=" + num(def.m.sampling)); def.m.size = int(float(def.m.fwhm) / float(def.m.sampling) + 1) * 6 + 1; def.m.sampling = double(float(def.m.sampling)); def.m.fwhm = double(float(def.m.fwhm)); } if (dk == 3) { def.state = 2; args.push_back(std::string("--psf-filename=") + c.s.pick({"NOPSF", "nopsf", "NoPSF"})); } if (dk == 4) { args.push_back("--psf-fwhm=2"); bool threw = false; Config g; g.add<PsfPluginConfig>(); try { g.start(args); } catch (const std::exception&) { threw = true; } c.check(threw, "a width without sampling is accepted"); c.label("refused"); c.nontrivial(true); return; }
  int n = int(c.s.range(1, 4)); for (int i = 0; i < n; ++i) { std::string path; int hdu = 1; One o; int k = int(c.s.draw(3)); if (k == 0) { o = def; o.renormalize = true; } else if (k == 3) { o.state = 2; path = scratchDir() + "/" + c.s.pick({"nopsf", "NOPSF"}); } else { any(o.m, path, hdu); o.state = 1; } PyMeasurementImage p(img.path, path, ""); int id = p.id; p.psf_hdu = hdu - 1; p.weight_type = "none"; p.psf_renormalize = c.s.coin(60); if (k != 0) o.renormalize = p.psf_renormalize; pythonImages().emplace(id, p); want[id] = o; c.note() << "frame " << id << (o.state == 0 ? " none given" : o.state == 1 ? " a PSF" : " no PSF") << (k == 0 ? " (default)" : "") << "\n"; }
  for (auto& a : args) c.note() << a << " "; Config g; PsfTaskFactory pf; SourcePsfTaskFactory sf; pf.reportConfigDependencies(g.m); sf.reportConfigDependencies(g.m); g.start(args); pf.configure(g.m); sf.configure(g.m); bool drawn = c.s.coin(50); std::map<int, Im> expected; std::map<int, double> amount; int w = int(c.s.range(5, 25)), h = int(c.s.range(5, 25)); if (drawn) for (auto& o : want) { check_images[unsigned(o.first)] = VectorImage<SeFloat>::create(w, h); expected[o.first] = VectorImage<SeFloat>::create(w, h); }
  auto add = [&](int id, const Im& psf, double sampling, double x, double y) { if (!drawn) return; ModelFitting::WriteableInterfaceTypePtr t = expected.at(id); ModelFitting::ImageTraits<ModelFitting::WriteableInterfaceTypePtr>::addImageToImage(t, psf, sampling, x, y); }; auto at = [&](const Model& m, double x, double y) { std::vector<double> v; if (m.kind == Model::POLY) for (auto& q : m.comps) v.push_back(q.name[0] == 'X' ? x : y); if (m.kind == Model::STACK) v = {x, y}; return v; };
  int good = 0; for (auto& o : want) { int id = o.first; std::string what = "frame " + std::to_string(id);
    std::shared_ptr<Task> gt, st; bool gthrew = false, sthrew = false; try { gt = pf.createTask(PropertyId::create<PsfProperty>(unsigned(id))); } catch (const std::exception&) { gthrew = true; } try { st = sf.createTask(PropertyId::create<SourcePsfProperty>(unsigned(id))); } catch (const std::exception&) { sthrew = true; } if (o.second.state == 0) { c.check(gthrew && sthrew, what + " has no PSF and is accepted"); c.label("frame without PSF"); continue; } c.check(!gthrew && !sthrew && gt && st, what + ": its PSF is called missing");
    auto gtask = std::dynamic_pointer_cast<GroupTask>(gt); auto stask = std::dynamic_pointer_cast<SourceTask>(st); c.check(gtask && stask, what + ": wrong kind of task"); for (int k = 0; k < 2; ++k) { ++good; SimpleSourceGroup grp; int x0 = int(c.s.draw(size_t(w) - 1)), y0 = int(c.s.draw(size_t(h) - 1)), x1 = x0 + int(c.s.draw(9)), y1 = y0 + int(c.s.draw(9)); float cx = float(c.s.uniform(0, w - 1)), cy = float(c.s.uniform(0, h - 1)); auto s = Euclid::make_unique<SimpleSource>(); s->setIndexedProperty<MeasurementFramePixelCentroid>(size_t(id), cx, cy);
      stask->computeProperties(*s); auto& sp = s->getProperty<SourcePsfProperty>(unsigned(id)); grp.setIndexedProperty<MeasurementFrameGroupRectangle>(size_t(id), PixelCoordinate(x0, y0), PixelCoordinate(x1, y1)); bool empty = c.s.coin(10); if (!empty) grp.addSource(std::move(s)); gtask->computeProperties(grp); auto& gp = grp.getProperty<PsfProperty>(unsigned(id)); auto spsf = sp.getPsf(); double ssamp = sp.getPixelSampling();
      if (o.second.state == 2) { c.check(!gp.getPsf() && !spsf && gp.getPixelSampling() == 1 && ssamp == 1, what + " has a PSF although it has none"); continue; } auto& m = o.second.m; double gx = x0 + (x1 - x0 + 1) / 2., gy = y0 + (y1 - y0 + 1) / 2.; same(c, what + ", group PSF", gp.getPsf(), m, at(m, gx, gy), true); same(c, what + ", source PSF", spsf, m, at(m, double(cx), double(cy)), o.second.renormalize); c.close(gp.getPixelSampling(), m.sampling, 1e-12, 0, "group sampling"); c.close(ssamp, m.sampling, 1e-12, 0, "source sampling");
      add(id, spsf, m.sampling, double(cx) + 0.5, double(cy) + 0.5); if (!empty) add(id, gp.getPsf(), m.sampling, gx, gy); } }
  if (drawn) for (auto& e : expected) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = check_images.at(unsigned(e.first))->at(x, y), b = e.second->at(x, y); if (std::isnan(b)) continue; if (std::fabs(a - b) > 1e-5 * (std::fabs(b) + 1e-2)) { std::ostringstream o; o << "PSF check image of frame " << e.first << " is " << a << " at " << x << "," << y << " instead of " << b; c.fail(o.str()); } }
  c.label("default PSF", def.state == 1); c.label("default NOPSF", def.state == 2); c.label("check image", drawn); c.nontrivial(good > 1); check_images.clear(); pythonImages().clear(); }
PBT_MAIN({"polynomial", "more than three coefficients, or refused", variable, 6000, 200000}, {"files", "always", files, 2500, 60000}, {"threads", "more than one coefficient or position", threads, 200, 4000}, {"frames", "at least two evaluations, or refused", tasks, 1500, 30000})
