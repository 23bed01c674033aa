// FITS files: keywords, header overrides, image HDUs, dimensions and pixels are those of the file; images and keywords written are read back.
// SRCS: SEFramework/src/lib/FITS/FitsFile.cpp SEFramework/src/lib/FITS/FitsImageSource.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEImplementation/src/lib/PythonConfig/PyFitsFile.cpp
// FLAGS: @python
// LIBS: -lcfitsio -lboost_regex -lboost_filesystem -lboost_system -lboost_python312 -lpython3.12 -lpthread
#include "pbt.h"
#include <fitsio.h>
#include <boost/algorithm/string.hpp>
#include "SEFramework/FITS/FitsFile.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include "SEFramework/FITS/FitsReader.h"
#include "SEFramework/FITS/FitsWriter.h"
#include "SEFramework/FITS/TemporaryFitsImageSource.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEImplementation/PythonConfig/PyFitsFile.h"
extern "C" int ffc2s(const char*, char*, int*);
using namespace pbt;
using namespace SourceXtractor;

static uint64_t mix64(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Path { std::string name, head, arg; ~Path() { unlink(name.c_str()); unlink(head.c_str()); } };
static std::shared_ptr<Path> newPath() { static int n = 0; auto p = std::make_shared<Path>(); std::string b = scratchDir() + "/f" + std::to_string(n++); p->name = b + ".fits"; p->head = b + ".head"; p->arg = p->name; return p; }
static void must(int status, const char* what) { if (status) throw std::runtime_error(std::string("harness: cfitsio: ") + what + " " + std::to_string(status)); }

// ---- keywords
struct Value { int type = 0; int64_t i = 0; double d = 0; std::string s, text; }; // 0 integer, 1 real, 2 logical, 3 string, 4 none
static std::string quote(const std::string& s, size_t pad) { std::string o; for (char c : s) { o += c; if (c == '\'') o += c; } while (o.size() < pad) o += ' '; return "'" + o + "'"; }
static Value value(Case& c) {
  Value v; v.type = int(c.s.pick({0, 1, 3, 3, 2, 4})); char b[64];
  if (v.type == 0) { v.i = c.s.coin() ? c.s.range(-20, 20) : c.s.coin() ? c.s.range(-2147483648ll, 4294967295ll) : c.s.range(-9000000000000000000ll, 9000000000000000000ll); snprintf(b, 64, c.s.coin(20) ? "%+lld" : "%lld", (long long)v.i); v.text = b; }
  if (v.type == 1) { double x = c.s.coin() ? c.s.uniform(-400, 400) : (c.s.coin() ? 1 : -1) * c.s.logreal(1e-300, 1e300); static const char* f[] = {"%.3f", "%.15G", "%.6E", "%.16e", "%.1f", "%.0f."}; int k = int(c.s.draw(5)); if ((k == 0 || k >= 4) && std::fabs(x) > 1e12) k = 1; snprintf(b, 64, f[k], x); v.text = b; if (v.text.find_first_of(".eE") == std::string::npos) v.text += ".0"; if (c.s.coin(10) && v.text.substr(0, 2) == "0." && v.text.size() > 2) v.text = v.text.substr(1); v.d = std::stod(v.text); }
  if (v.type == 2) { v.s = c.s.coin() ? "T" : "F"; v.text = v.s; }
  if (v.type == 3) { static const std::vector<std::string> pool{"abc", "A string", "it's", "km/s", "a/b / c", "12", "-1.5", "T", "", "x'y'z", "'", "''", "/", " lead", "DEC--TAN", "e = m", "a'/'b", "2020-01-02T03:04:05", "~", "END", "1e5", "don't / can't"}; v.s = c.s.pick(pool); if (c.s.coin(10)) for (int n = int(c.s.range(1, 40)); n > 0; --n) v.s += char('a' + n % 26); v.text = quote(v.s, c.s.coin() ? 8 : 0); while (!v.s.empty() && v.s.back() == ' ') v.s.pop_back(); }
  return v; }
static const char* KEYS[] = {"GAIN", "SATURATE", "OBJECT", "FILTER", "DATE-OBS", "K_1", "LONGNAM8", "ENDTIME", "CRVALX", "X", "SIMPLER", "HISTORYX", "FLXSCALE", "RA", "END_MJD"};
struct Card { Value v; std::string comment; };
static std::string comment(Case& c) { static const std::vector<std::string> pool{"", "some words", "a / b", "units 'deg' = x", "[km/s] speed", "it's"}; return c.s.pick(pool); }
static bool matches(const MetadataEntry::value_t& m, const Value& v, bool strict = true) {
  if (v.type == 0) { auto p = boost::get<int64_t>(&m); return p && *p == v.i; }
  if (v.type == 1 && !strict) { auto q = boost::get<int64_t>(&m); if (q) return double(*q) == v.d; }
  if (v.type == 1) { auto p = boost::get<double>(&m); return p && (*p == v.d || std::fabs(*p - v.d) <= 1e-15 * std::fabs(v.d)); }
  if (v.type == 2) { auto p = boost::get<char>(&m); return p && v.s[0] == *p; }
  auto p = boost::get<std::string>(&m); if (!p) return false; std::string s = *p; while (!s.empty() && s.back() == ' ') s.pop_back(); return s == v.s; }
static std::string show(const MetadataEntry::value_t& m) { static const char* t[] = {"bool ", "char ", "integer ", "real ", "string "}; return t[m.which()] + std::string("<") + VariantCast<std::string>(m) + ">"; }

struct Hdu { int kind; int naxis; long ax[4]; std::map<std::string, Card> cards; bool image() const { return kind < 2 && (naxis == 2 || naxis == 3); } };
static void writeCards(Case& c, fitsfile* f, std::map<std::string, Card>& cards, int n) {
  int st = 0; for (int i = 0; i < n; ++i) { std::string key = KEYS[c.s.draw(14)]; if (cards.count(key)) continue; Card k; k.v = value(c); k.comment = comment(c); std::string val = k.v.text; if (c.s.coin()) val = val[0] == '\'' ? val + std::string(val.size() < 20 ? 20 - val.size() : 0, ' ') : std::string(val.size() < 20 ? 20 - val.size() : 0, ' ') + val; char b[32]; snprintf(b, 32, "%-8s= ", key.c_str()); std::string r = b + val; if (!k.comment.empty()) r += (c.s.coin(80) ? " / " : "/") + k.comment; if (r.size() > 80) { r = b + val; k.comment.clear(); } if (r.size() > 80) r = b + k.v.text; if (r.size() > 80) continue; fits_write_record(f, r.c_str(), &st); must(st, r.c_str()); cards[key] = k;
    if (c.s.coin(15)) { static const char* noise[] = {"COMMENT   some = text / here", "HISTORY GAIN    = 77 / not a keyword", "HIERARCH ESO DET CHIP = 'x / y' / z", "", "COMMENT 'quotes", "CONTINUE  'more' / of it"}; fits_write_record(f, noise[c.s.draw(5)], &st); must(st, "noise"); } } }
static std::vector<Hdu> writeFile(Case& c, const std::string& name) {
  fitsfile* f = nullptr; int st = 0; fits_create_file(&f, name.c_str(), &st); must(st, "create"); std::vector<Hdu> hdus; int n = int(c.s.range(1, 5));
  for (int i = 0; i < n; ++i) { Hdu h; h.kind = i == 0 ? int(c.s.pick({0, 0, 3})) : int(c.s.pick({0, 0, 1, 2, 3})); h.naxis = h.kind == 3 ? 0 : h.kind == 1 ? 2 : int(c.s.pick({2, 2, 3, 3, 1, 4})); for (auto& a : h.ax) a = c.s.range(1, 6); if (h.kind == 3) h.naxis = 0; int bp = int(c.s.pick({8, 16, 32, -32, -64}));
    if (h.kind == 2) { char t[] = "A", fm[] = "1J"; char *tt[] = {t}, *ff[] = {fm}; fits_create_tbl(f, BINARY_TBL, 2, 1, tt, ff, nullptr, "TAB", &st); }
    else { if (h.kind == 1) { h.ax[0] += 10; h.ax[1] += 10; fits_set_compression_type(f, RICE_1, &st); bp = 32; } fits_create_img(f, bp, h.naxis, h.ax, &st); if (h.kind == 1) { std::vector<int> d(size_t(h.ax[0] * h.ax[1]), 3); long fp[2] = {1, 1}; fits_write_pix(f, TINT, fp, LONGLONG(d.size()), d.data(), &st); } }
    must(st, "hdu"); writeCards(c, f, h.cards, int(c.s.range(0, 8))); if (h.kind == 1) fits_set_compression_type(f, 0, &st); hdus.push_back(h); c.note() << " HDU " << i + 1 << " kind " << h.kind << " naxis " << h.naxis; for (auto& k : h.cards) c.note() << " " << k.first << "=" << k.second.v.text; }
  fits_close_file(f, &st); must(st, "close"); return hdus; }
// The ascii file of overrides: a block for every image HDU, in their order
static bool writeHead(Case& c, const std::string& name, std::vector<Hdu>& hdus) {
  std::ofstream o(name); std::vector<Hdu*> im; for (auto& h : hdus) if (h.image()) im.push_back(&h); int blocks = c.s.coin(70) ? int(im.size()) : int(c.s.range(0, int(im.size()) + 1)); bool any = false;
  for (int b = 0; b < blocks; ++b) { for (int n = int(c.s.range(0, 5)); n > 0; --n) { std::string key = KEYS[c.s.draw(14)]; Card k; k.v = value(c); k.comment = comment(c); std::string shown = key; if (c.s.coin(20)) boost::to_lower(shown); if (c.s.coin(80)) shown.resize(8, ' '); o << shown << (c.s.coin(90) ? "= " : "=") << (c.s.coin() && k.v.text.size() < 20 && k.v.type != 3 ? std::string(20 - k.v.text.size(), ' ') : "") << k.v.text; if (!k.comment.empty()) o << " / " << k.comment; if (c.s.coin(10)) o << "   "; if (c.s.coin(5)) o << "\r"; o << "\n"; if (c.s.coin(15)) o << (c.s.coin() ? "\n" : "COMMENT  text = more / text\n"); if (b < int(im.size())) { im[b]->cards[key] = k; any = true; c.note() << " head " << b << " " << key << "=" << k.v.text; } }
    if (b + 1 < blocks || c.s.coin(80)) o << (c.s.coin(80) ? "END" : c.s.coin() ? "end" : "END     ") << "\n"; }
  return any; }
static void headers(Case& c) {
  auto p = newPath(); auto hdus = writeFile(c, p->name); bool head = c.s.coin(40) && writeHead(c, p->head, hdus); c.label("overrides", head); bool any = false; for (auto& h : hdus) any |= h.kind < 2 && h.naxis > 0;
  if (!any) { bool threw = false; try { FitsFile f(p->name, false); } catch (const Elements::Exception&) { threw = true; } c.label("no image"); if (threw) return c.nontrivial(false); }
  std::vector<int> want; for (size_t i = 0; i < hdus.size(); ++i) if (hdus[i].image()) want.push_back(int(i) + 1);
  FitsFile f(p->name, c.s.coin(20)); if (c.s.coin(20)) f.refresh(); c.check(f.getImageHdus() == want, "the image HDUs are not the ones of the file"); PyFitsFile py(p->name); auto pyh = py.getImageHdus(); c.eq(pyh.size(), want.size(), "image HDUs for python"); for (size_t i = 0; i < want.size(); ++i) c.eq(pyh[i], want[i] - 1, "image HDU for python"); size_t n = 0;
  for (size_t i = 0; i < hdus.size(); ++i) { auto& h = hdus[i]; auto& m = f.getHDUHeaders(int(i) + 1); auto pm = py.getHeaders(int(i)); std::string hs = " of HDU " + std::to_string(i + 1);
    for (auto& k : h.cards) { auto it = m.find(k.first); c.check(it != m.end(), "keyword " + k.first + hs + " is missing"); c.check(matches(it->second.m_value, k.second.v), "keyword " + k.first + hs + " is " + show(it->second.m_value) + " instead of <" + k.second.v.text + ">"); c.check(it->second.m_extra.at("comment") == k.second.comment, "comment of keyword " + k.first + hs + ": <" + it->second.m_extra.at("comment") + "> instead of <" + k.second.comment + ">"); ++n; c.label("string", k.second.v.type == 3);
      auto pi = pm.find(k.first); c.check(pi != pm.end(), "keyword " + k.first + hs + " is missing for python"); auto& v = k.second.v; std::string s = v.s; boost::trim(s); c.check(v.type == 0 ? pi->second == std::to_string(v.i) : v.type == 1 ? std::fabs(std::stod(pi->second) - v.d) <= 1e-15 * std::fabs(v.d) : pi->second == s, "keyword " + k.first + hs + " for python: <" + pi->second + ">"); }
    if (h.image()) { auto d = f.getDimensions(int(i) + 1); c.check(d.size() == size_t(h.naxis) && std::equal(d.begin(), d.end(), h.ax), "dimensions" + hs); c.check(py.getDimensions(int(i)) == d, "dimensions for python" + hs); }
    else { bool threw = false; try { f.getDimensions(int(i) + 1); } catch (const Elements::Exception&) { threw = true; } c.check(threw || h.kind == 2, "dimensions of something that is no image" + hs); }
    if (!h.image()) { bool threw = false; try { FitsImageSource s(p->name, int(i) + 1, ImageTile::FloatImage); } catch (const Elements::Exception&) { threw = true; } c.check(threw, "an image source of something that is no image" + hs); }
    else { bool br = c.s.coin(30); auto s = std::make_shared<FitsImageSource>(br ? p->name + "[" + std::to_string(i) + "]" : p->name, br && c.s.coin() ? 0 : int(i) + 1, ImageTile::FloatImage); c.eq(s->getHDU(), int(i) + 1, "HDU of the image source"); c.check(s->getWidth() == h.ax[0] && s->getHeight() == h.ax[1], "size" + hs); c.eq(s->getDepth(), h.naxis == 3 ? h.ax[2] : 1, "layers" + hs);
      for (auto& k : h.cards) { auto& v = k.second.v; std::string str; c.check(s->readFitsKeyword(k.first, str), "keyword not found" + hs); if (v.type == 1 || (v.type == 0 && std::llabs(v.i) < (1ll << 52))) { double x = 0; s->readFitsKeyword(k.first, x); c.check(std::fabs(x - (v.type ? v.d : double(v.i))) <= 1e-15 * std::fabs(x), "keyword " + k.first + hs + " as a number"); } if (v.type == 0 && std::llabs(v.i) < 2147483647) { int x = 0; s->readFitsKeyword(k.first, x); c.check(x == v.i, "keyword " + k.first + hs + " as an integer"); } } int dummy; c.check(!s->readFitsKeyword("NOTTHERE", dummy), "a keyword that is not there was found");
      // the records given to the library of coordinates
      bool longOne = false; for (auto& k : s->getMetadata()) { auto q = boost::get<std::string>(&k.second.m_value); longOne |= q && quote(*q, 0).size() > 70; } if (longOne) continue;
      int nr = 0; auto buf = s->getFitsHeaders(nr); c.eq(buf->size(), size_t(80) * (nr + 1) + 1, "size of the records"); std::map<std::string, std::string> got; for (int r = 0; r < nr; ++r) { std::string rec(&(*buf)[80 * r], 80), key = rec.substr(0, 8); boost::trim_right(key); c.check(rec.substr(8, 2) == "= ", "a record without value"); char val[FLEN_VALUE] = "", com[FLEN_COMMENT] = ""; int st = 0; fits_parse_value(const_cast<char*>(rec.c_str()), val, com, &st); c.check(st == 0, "the record of " + key + " cannot be parsed: " + rec); got[key] = val; }
      c.check(std::string(&(*buf)[80 * nr], 4) == "END ", "no end of the records");
      for (auto& k : h.cards) { auto g = got.find(k.first); c.check(g != got.end(), "no record of keyword " + k.first + hs); auto& v = k.second.v; if (v.type == 4) continue; if (v.type == 3) { char str[FLEN_VALUE]; int st = 0; ffc2s(g->second.c_str(), str, &st); c.check(st == 0 && boost::trim_right_copy(std::string(str)) == v.s, "record of keyword " + k.first + hs + ": " + g->second + " instead of " + v.text); } else if (v.type == 2) c.check(g->second == v.s, "record of keyword " + k.first + hs + ": " + g->second); else { double x = std::stod(g->second), y = v.type ? v.d : double(v.i); c.check(std::fabs(x - y) <= 1e-15 * std::fabs(y), "record of keyword " + k.first + hs + ": " + g->second + " instead of " + v.text); } } } }
  c.nontrivial(n >= 2); }

// ---- pixels
struct Raw { int bitpix, naxis; long ax[3]; std::vector<double> v; std::vector<int64_t> i; };
static Raw raw(const std::string& name, int hdu) { fitsfile* f = nullptr; int st = 0, t; fits_open_diskfile(&f, name.c_str(), READONLY, &st); fits_movabs_hdu(f, hdu, &t, &st); Raw r; r.ax[0] = r.ax[1] = r.ax[2] = 1; fits_get_img_param(f, 3, &r.bitpix, &r.naxis, r.ax, &st); must(st, "reading back"); long n = r.naxis ? r.ax[0] * r.ax[1] * r.ax[2] : 0, fp[3] = {1, 1, 1}; r.v.resize(n); r.i.resize(n); if (n) { fits_read_pix(f, TDOUBLE, fp, n, nullptr, r.v.data(), nullptr, &st); if (r.bitpix > 0) fits_read_pix(f, TLONGLONG, fp, n, nullptr, r.i.data(), nullptr, &st); } must(st, "reading pixels"); fits_close_file(f, &st); return r; }
static int hduCount(const std::string& name) { fitsfile* f = nullptr; int st = 0, n = 0; fits_open_diskfile(&f, name.c_str(), READONLY, &st); fits_get_num_hdus(f, &n, &st); must(st, "counting"); fits_close_file(f, &st); return n; }
static const ImageTile::ImageType TYPES[] = {ImageTile::FloatImage, ImageTile::DoubleImage, ImageTile::IntImage, ImageTile::UIntImage, ImageTile::LongLongImage};
static double tileValue(ImageTile& t, int x, int y, int64_t& i) { i = 0; switch (t.getType()) { case ImageTile::FloatImage: return t.getValue<float>(x, y); case ImageTile::DoubleImage: return t.getValue<double>(x, y); case ImageTile::IntImage: return double(i = t.getValue<int>(x, y)); case ImageTile::UIntImage: return double(i = t.getValue<unsigned>(x, y)); default: return double(i = t.getValue<std::int64_t>(x, y)); } }
static void reading(Case& c) {
  auto p = newPath(); fitsfile* f = nullptr; int st = 0; fits_create_file(&f, p->name.c_str(), &st); must(st, "create"); int before = int(c.s.draw(2)); for (int i = 0; i < before; ++i) { long z[2] = {3, 2}; fits_create_img(f, FLOAT_IMG, i == 0 && c.s.coin() ? 0 : 2, z, &st); }
  int bp = int(c.s.pick({-32, -64, 32, 64, 16, 8})); bool cube = c.s.coin(40); long ax[3] = {c.s.range(1, 20), c.s.range(1, 20), cube ? c.s.range(1, 4) : 1}; long n = ax[0] * ax[1] * ax[2]; fits_create_img(f, bp, cube ? 3 : 2, ax, &st); must(st, "image");
  double scale = 1, zero = 0; if (bp > 0) { int k = int(c.s.draw(3)); if (k == 1) zero = bp == 16 ? 32768. : bp == 32 ? 2147483648. : bp == 8 ? -128. : 0; if (k == 2 && bp != 64) { scale = c.s.pick({0.01, 2., 0.5, 1e-3}); zero = c.s.pick({0., 10., -5.5}); } if (scale != 1 || zero != 0) { fits_write_key(f, TDOUBLE, "BSCALE", &scale, "", &st); fits_write_key(f, TDOUBLE, "BZERO", &zero, "", &st); } }
  uint64_t key = c.s.draw(1 << 16); double span = bp == 8 ? 255 : bp == 16 ? 65535 : 4294967295.; bool whole = bp > 0 && scale == 1; std::vector<double> ph(n); std::vector<int64_t> pi(n); int big = int(c.s.draw(2)); auto rnd = [&](long q) { return double(mix64(key * 7919 + uint64_t(q)) >> 11) / 9007199254740992.; };
  if (bp > 0) { std::vector<long long> d(n); for (long q = 0; q < n; ++q) { double u = rnd(q); long long v = bp == 64 ? (long long)((u - 0.5) * (big ? 1e18 : 1e6)) : big ? (long long)(u * span) - (bp == 8 ? 0 : (long long)(span / 2) + 1) : (long long)(u * 100); d[q] = v; pi[q] = v + (long long)zero; ph[q] = double(v) * scale + zero; } fits_set_bscale(f, 1, 0, &st); long fp[3] = {1, 1, 1}; fits_write_pix(f, TLONGLONG, fp, n, d.data(), &st); }
  else { for (long q = 0; q < n; ++q) { double u = rnd(q); ph[q] = big == 2 && q % 7 == 0 ? NAN : (u - 0.5) * (big ? 1e6 : 10); if (bp == -32) ph[q] = float(ph[q]); } long fp[3] = {1, 1, 1}; fits_write_pix(f, TDOUBLE, fp, n, ph.data(), &st); }
  must(st, "pixels"); fits_close_file(f, &st); c.note() << "BITPIX " << bp << " " << ax[0] << "x" << ax[1] << "x" << ax[2] << " scale " << scale << " zero " << zero << " HDU " << before + 1 << " values " << big;
  double lo = INFINITY, hi = -INFINITY; for (double v : ph) { lo = std::min(lo, v); hi = std::max(hi, v); }
  for (int rounds = int(c.s.range(1, 3)); rounds > 0; --rounds) { int t = int(c.s.draw(5)); ImageTile::ImageType type = t < 5 ? TYPES[t] : ImageTile::AutoType; if (type >= 0 && type != ImageTile::FloatImage && type != ImageTile::DoubleImage) { if (!whole) type = ImageTile::DoubleImage; else if ((type == ImageTile::IntImage && (lo < -2147483648. || hi > 2147483647.)) || (type == ImageTile::UIntImage && (lo < 0 || hi > 4294967295.))) type = ImageTile::LongLongImage; }
    std::shared_ptr<FitsImageSource> s; try { s = std::make_shared<FitsImageSource>(p->name, before + 1, type); } catch (const Elements::Exception& e) { c.check(type == ImageTile::AutoType && (bp == 8 || bp == 16), std::string("the image is not accepted: ") + e.what()); c.label("automatic type not supported"); continue; } c.note() << " type " << s->getType(); if (type >= 0) c.check(s->getType() == type, "pixel type");
    c.check(s->getWidth() == ax[0] && s->getHeight() == ax[1] && s->getDepth() == ax[2], "dimensions"); int layer = 0; if (c.s.coin(60)) { layer = int(c.s.range(-1, int(ax[2]))); bool ok = layer >= 0 && layer < ax[2], threw = false; try { s->setLayer(layer); } catch (const Elements::Exception&) { threw = true; } c.check(threw == !ok, ok ? "a layer of the cube was refused" : "a layer outside of the cube was accepted"); if (!ok) layer = 0; } c.label("layer", layer > 0); c.label("cube", cube);
    for (int r = 0; r < 2; ++r) { int x = int(c.s.range(0, int(ax[0]) - 1)), y = int(c.s.range(0, int(ax[1]) - 1)), w = int(c.s.range(1, int(ax[0]) - x)), h = int(c.s.range(1, int(ax[1]) - y)); if (r == 0 && c.s.coin()) { x = y = 0; w = int(ax[0]); h = int(ax[1]); } auto tile = s->getImageTile(x, y, w, h); c.check(tile->getPosX() == x && tile->getPosY() == y && tile->getWidth() == w && tile->getHeight() == h, "tile");
      for (int v = y; v < y + h; ++v) for (int u = x; u < x + w; ++u) { long q = u + ax[0] * (v + ax[1] * layer); int64_t gi; double g = tileValue(*tile, u, v, gi); bool ok = tile->getType() >= ImageTile::IntImage && whole ? gi == pi[q] : std::isnan(ph[q]) ? std::isnan(g) : std::fabs(g - ph[q]) <= (tile->getType() == ImageTile::FloatImage ? 1e-6 : 1e-12) * (std::fabs(ph[q]) + std::fabs(zero)); if (!ok) { std::ostringstream o; o << std::setprecision(17) << "pixel " << u << "," << v << " of layer " << layer << " is " << g << " instead of " << ph[q]; c.fail(o.str()); } } } }
  if (before == 0 && !cube) { auto img = VectorImage<float>::create(*FitsReader<float>::readFile(p->name)); for (long q = 0; q < n; ++q) { double g = img->getValue(int(q % ax[0]), int(q / ax[0])); c.check(std::isnan(ph[q]) ? std::isnan(g) : std::fabs(g - ph[q]) <= 1e-6 * (std::fabs(ph[q]) + std::fabs(zero)), "a pixel read with the reader"); } }
  c.nontrivial(n > 1); }

// ---- writing: several files and images, written in tiles
struct Out { std::shared_ptr<Path> file; int type, w, h, hdu; std::vector<double> v; std::map<std::string, Value> keys; std::shared_ptr<FitsImageSource> src; std::shared_ptr<void> image; std::function<void(int, int, double)> set; std::function<double(int, int)> get; };
template <typename T> static void attach(Out& o) { auto im = WriteableBufferedImage<T>::create(o.src); o.image = im; o.set = [im](int x, int y, double v) { im->setValue(x, y, T(v)); }; o.get = [im](int x, int y) { return double(im->getChunk(x, y, 1, 1)->getValue(0, 0)); }; }
static void bind(Out& o) { switch (o.type) { case 0: attach<float>(o); break; case 1: attach<double>(o); break; case 2: attach<int>(o); break; case 3: attach<unsigned>(o); break; default: attach<std::int64_t>(o); } }
static double sample(int type, uint64_t r) { switch (type) { case 0: return r % 9 == 0 ? INFINITY : double(float(int64_t(r % 2000000) - 1000000) / 64); case 1: return (double(r % 2000000) - 1e6) / 3; case 2: return r % 7 == 0 ? -2147483648. : r % 7 == 1 ? 2147483647. : double(int(r % 2000001) - 1000000); case 3: return r % 5 == 0 ? 4294967295. : double(r % 3000000000u); default: return double(int64_t(r % 9007199254740991ull) - 4503599627370496ll); } }
static const int BITPIX_OF[] = {-32, -64, 32, 32, 64};
static void writing(Case& c) {
  auto tm = TileManager::getInstance(); tm->setOptions(int(c.s.range(1, 16)), int(c.s.range(1, 16)), c.s.coin() ? 0 : 100); std::vector<std::shared_ptr<Path>> files; for (int i = int(c.s.range(1, 2)); i > 0; --i) files.push_back(newPath()); std::map<Path*, std::vector<std::shared_ptr<Out>>> model; std::map<Path*, int> count; bool reread = false; int written = 0;
  auto closeAll = [&](Path*) { for (auto& m : model) for (auto& o : m.second) { o->set = nullptr; o->get = nullptr; o->image.reset(); } tm->flush(); for (auto& m : model) for (auto& o : m.second) o->src.reset(); };
  for (int step = int(c.s.range(2, 14)); step > 0; --step) { auto p = c.s.pick(files); auto& imgs = model[p.get()]; int op = imgs.empty() ? 0 : int(c.s.draw(8));
    if (op == 0 || op == 1) { bool append = !imgs.empty() && c.s.coin(85), empty = c.s.coin(30); if (!append) { closeAll(p.get()); imgs.clear(); count[p.get()] = 0; } auto o = std::make_shared<Out>(); o->file = p; o->type = int(c.s.draw(4)); o->w = int(c.s.range(1, 24)); o->h = int(c.s.range(1, 24)); o->v.assign(size_t(o->w) * o->h, 0.); o->src = std::make_shared<FitsImageSource>(p->name, o->w, o->h, TYPES[o->type], nullptr, append, empty); if (empty && imgs.empty()) count[p.get()] = 1; o->hdu = ++count[p.get()]; c.eq(o->src->getHDU(), o->hdu, "HDU of the new image"); c.check(o->src->getWidth() == o->w && o->src->getHeight() == o->h && o->src->getType() == TYPES[o->type], "size or type of the new image"); bind(*o); imgs.push_back(o); c.note() << (append ? " append" : " create") << (empty ? " (empty primary) " : " ") << o->w << "x" << o->h << " type " << o->type; c.label("append", append); }
    else { auto o = c.s.pick(imgs); if (!o->src) { o->src = std::make_shared<FitsImageSource>(p->name, o->hdu, c.s.coin() ? TYPES[o->type] : ImageTile::AutoType); c.check(o->src->getType() == TYPES[o->type], "type of an image that was written before"); bind(*o); reread = true; c.note() << " reopen"; }
      if (op <= 4) { uint64_t k = c.s.draw(1 << 20); int n = int(c.s.skewed(1, 60)); for (int i = 0; i < n; ++i) { uint64_t r = mix64(k * 131 + uint64_t(i)); int x = int(r % o->w), y = int((r >> 20) % o->h); double v = sample(o->type, mix64(r)); o->set(x, y, v); o->v[size_t(y) * o->w + x] = v; } written += n; c.note() << " set " << n; }
      else if (op == 5) { for (int i = 0; i < 5; ++i) { int x = int(c.s.range(0, o->w - 1)), y = int(c.s.range(0, o->h - 1)); c.check(o->get(x, y) == o->v[size_t(y) * o->w + x], "a pixel read before the file was closed"); } }
      else if (op == 6) { Value v; do v = value(c); while (v.type == 4 || v.text.size() > 60); std::string key = KEYS[c.s.draw(14)]; MetadataEntry e; if (v.type == 0) e.m_value = v.i; else if (v.type == 1) e.m_value = v.d; else if (v.type == 2) e.m_value = v.s[0]; else e.m_value = v.s; o->src->setMetadata(key, e); o->keys[key] = v; c.note() << " key " << key << "=" << v.text; c.check(matches(o->src->getMetadata().at(key).m_value, v, false), "a keyword just written"); c.label("keyword"); }
      else if (op == 7) { tm->saveAllTiles(); c.note() << " save"; }
      else { closeAll(p.get()); c.note() << " close"; } } }
  for (auto& p : files) { if (model[p.get()].empty()) continue; closeAll(p.get()); c.eq(hduCount(p->name), count[p.get()], "number of HDUs");
    for (auto& o : model[p.get()]) { auto r = raw(p->name, o->hdu); std::string what = " of HDU " + std::to_string(o->hdu); c.check(r.bitpix == BITPIX_OF[o->type] && r.naxis == 2 && r.ax[0] == o->w && r.ax[1] == o->h, "type or size" + what); for (size_t i = 0; i < o->v.size(); ++i) if (!(o->type >= 2 ? double(r.i[i]) == o->v[i] : r.v[i] == o->v[i] || std::fabs(r.v[i] - o->v[i]) < 1e-12 * std::fabs(o->v[i]))) { std::ostringstream s; s << std::setprecision(17) << "pixel " << i % o->w << "," << i / o->w << what << " is " << r.v[i] << " in the file, written was " << o->v[i]; c.fail(s.str()); }
      FitsFile ff(p->name, false); auto& m = ff.getHDUHeaders(o->hdu); for (auto& k : o->keys) { auto it = m.find(k.first); c.check(it != m.end() && matches(it->second.m_value, k.second, false), "keyword " + k.first + what + " is " + (it == m.end() ? std::string("missing") : show(it->second.m_value)) + ", written was " + k.second.text); } } }
  // a whole image at once, and a temporary one
  { auto p = newPath(); int w = int(c.s.range(1, 12)), h = int(c.s.range(1, 12)); auto im = VectorImage<float>::create(w, h); uint64_t k = c.s.draw(1 << 16); for (int i = 0; i < w * h; ++i) im->setValue(i % w, i / w, float(sample(0, mix64(k + uint64_t(i))))); FitsWriter::writeFile(*im, p->name); tm->flush(); auto r = raw(p->name, 1); c.check(r.ax[0] == w && r.ax[1] == h && r.bitpix == -32, "size or type of an image written at once"); for (int i = 0; i < w * h; ++i) c.check(r.v[i] == im->getValue(i % w, i / w), "a pixel of an image written at once");
    if (c.s.coin(30)) { std::string path; { auto t = std::make_shared<TemporaryFitsImageSource>(c.s.coin() ? "pbt_%%%%%%.fits" : "pbt_%%%%%%", w, h, ImageTile::DoubleImage); path = t->getFullPath(); c.check(access(path.c_str(), F_OK) == 0 && t->getWidth() == w && t->getHeight() == h && t->getType() == ImageTile::DoubleImage && t->getRepr() == path, "temporary image"); { auto b = WriteableBufferedImage<double>::create(t); b->setValue(w - 1, h / 2, 5.25); tm->flush(); c.eq(b->getChunk(w - 1, h / 2, 1, 1)->getValue(0, 0), 5.25, "pixel of a temporary image"); } tm->flush(); } c.check(access(path.c_str(), F_OK) != 0, "the temporary image was left behind"); } }
  c.label("reopened", reread); c.nontrivial(written > 5); }

PBT_MAIN(
  {"headers", "the file has two keywords of our own or more", headers, 3000, 120000},
  {"reading", "the image has several pixels", reading, 6000, 200000},
  {"writing", "more than five pixels are written", writing, 1600, 50000})
