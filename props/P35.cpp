// Association with a catalogue and measurements at given positions, in whole runs of the program
// SRCS: @program
// FLAGS: @python -I@REPO -DWITHOUT_NCURSES -DVDIR=@V
// LIBS: -lcfitsio -lwcs -lboost_program_options -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
// SAN: none
#include "program.h"
using namespace pbt; using namespace program;
namespace {
const double PI = 3.14159265358979323846;
std::string join(const std::vector<std::string>& v, const std::string& sep = ",") { std::string r; for (auto& s : v) r += (r.empty() ? "" : sep) + s; return r; }
std::string full(double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
// --- tangential projection
struct Sky { double s, t, f, cx, cy, ra, dec;
  Cards cards(double dx, double dy) const { return {cardS("CTYPE1", "RA---TAN"), cardS("CTYPE2", "DEC--TAN"), card("CRVAL1", ra), card("CRVAL2", dec), card("CRPIX1", cx + dx), card("CRPIX2", cy + dy), card("CD1_1", f * s * std::cos(t)), card("CD1_2", -s * std::sin(t)), card("CD2_1", f * s * std::sin(t)), card("CD2_2", s * std::cos(t))}; }
  std::pair<double, double> at(double x, double y) const { double u = x + 1 - cx, v = y + 1 - cy, D = PI / 180, xi = D * (f * s * std::cos(t) * u - s * std::sin(t) * v), eta = D * (f * s * std::sin(t) * u + s * std::cos(t) * v), d0 = dec * D, den = std::cos(d0) - eta * std::sin(d0);
    double a = std::atan2(xi, den), d = std::atan2(std::sin(d0) + eta * std::cos(d0), std::hypot(xi, den)); double r = ra + a / D; if (r < 0) r += 360; if (r >= 360) r -= 360; return {r, d / D}; } };
Sky sky(Case& c, int w, int h) { Sky k; k.s = c.s.real(0.1, 1) / 3600; k.t = c.s.real(-3.1, 3.1); k.f = c.s.coin(70) ? -1 : 1; k.cx = c.s.range(1, w); k.cy = c.s.range(1, h); k.ra = c.s.range(5, 355); k.dec = c.s.range(-80, 80); return k; }
// --- catalogues: named columns in some order, some of them of no use
struct Column { std::string name, type; std::vector<double> v; };
struct Catalogue { std::vector<Column> cols; size_t n = 0;
  void add(const std::string& name, const std::string& type, std::vector<double> v) { if (type == "int" || type == "long") for (auto& x : v) x = std::floor(x); if (type == "float") for (auto& x : v) x = float(x); n = v.size(); cols.push_back({name, type, std::move(v)}); }
  void shuffle(Case& c) { int junk = int(c.s.draw(2)); for (int j = 0; j < junk; ++j) cols.push_back({"junk" + std::to_string(j), c.s.coin(50) ? "string" : "double", {}}); for (size_t i = cols.size(); i > 1; --i) std::swap(cols[i - 1], cols[size_t(c.s.draw(int64_t(i) - 1))]); }
  int index(const std::string& k) const { for (size_t i = 0; i < cols.size(); ++i) if (cols[i].name == k) return int(i) + 1; return -1; }
  const std::vector<double>& of(const std::string& k) const { return cols[size_t(index(k) - 1)].v; }
  std::string text() const { std::string t; for (auto& q : cols) t += "# Column: " + q.name + " " + q.type + "\n"; for (size_t i = 0; i < n; ++i) { for (auto& q : cols) t += (q.v.empty() ? (q.type == "string" ? std::string("nothing") : std::string("-1.5")) : q.type == "int" || q.type == "long" ? std::to_string((long long)q.v[i]) : full(q.v[i])) + " "; t += "\n"; } return t; } };
std::string someCase(Case& c, std::string s) { int k = c.s.pick({0, 0, 1, 2}); for (size_t i = 0; i < s.size(); ++i) if (k == 1 || (k == 2 && i % 2)) s[i] = char(std::tolower(s[i])); return s; }
Ran go(Case& c, const Dir& d, const Options& o) { Ran r = run(d.path, o.line()); if (getenv("P35_LOG")) { std::ofstream f(getenv("P35_LOG")); f << r.log; } if (r.status != 0) c.fail("the program ended with status " + std::to_string(r.status) + "\n" + tail(r.log)); return r; }
struct Bracket { double lo = 0, hi = 0, mag = 0; void add(double alo, double ahi, double v) { lo += std::min(alo * v, ahi * v); hi += std::max(alo * v, ahi * v); mag += ahi * std::fabs(v); } bool holds(double got) const { double t = 2e-5 * mag + 1e-6; return got >= lo - t && got <= hi + t; } std::string str() const { return num(lo) + " to " + num(hi); } };
double circle(double r, double dx, double dy) { if (r <= 0) return 0; double far = std::hypot(std::fabs(dx) + 0.71, std::fabs(dy) + 0.71); if (far < r) return 1; int n = 0; for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) { double x = dx + (i - 5) / 10., y = dy + (j - 5) / 10.; n += x * x + y * y < r * r; } return n / 100.; }
Bracket inCircle(const Img& im, double X, double Y, double r) { Bracket b; for (int y = std::max(0, int(Y - r) - 2); y <= std::min(im.h - 1, int(Y + r) + 2); ++y) for (int x = std::max(0, int(X - r) - 2); x <= std::min(im.w - 1, int(X + r) + 2); ++x) b.add(circle(r * (1 - 3e-5) - 2e-4, x - X, y - Y), circle(r * (1 + 3e-5) + 2e-4, x - X, y - Y), im.at(x, y)); return b; }
// --- measurements at the positions of a catalogue, without detection image
struct Frame { int w, h; double dx, dy, sigma; Img img; };
void forced(Case& c) {
  int w = c.s.range(40, 80), h = c.s.range(40, 80); Sky k = sky(c, w, h); double fwhm = c.s.real(2.8, 4.2), sig = fwhm / 2.355; int nf = c.s.range(1, 3), n = c.s.range(1, 6); Noise noise(c.s.draw(100000)); Dir d;
  double rx = 0, ry = 0; bool ref = c.s.coin(30); if (ref) { rx = c.s.real(-9, 9); ry = c.s.real(-9, 9); }
  std::vector<Frame> fr; for (int i = 0; i < nf; ++i) { Frame f{w, h, 0, 0, 1, Img()}; if (i > 0 || c.s.coin(30)) { f.dx = c.s.real(-6, 6); f.dy = c.s.real(-6, 6); f.w += c.s.range(-6, 12); f.h += c.s.range(-6, 12); } f.sigma = c.s.coin(60) ? 1 : c.s.real(0.3, 3); fr.push_back(f); }
  std::vector<double> X, Y, A, ra, de, hw, hh, gid; for (int i = 0; i < n; ++i) { double m = c.s.coin(20) ? -30 : 8; X.push_back(c.s.real(m, w - 1 - m)); Y.push_back(c.s.real(m, h - 1 - m)); A.push_back(c.s.logreal(300, 5000) * 2 * PI * sig * sig); auto p = k.at(X.back(), Y.back()); ra.push_back(p.first); de.push_back(p.second); hw.push_back(c.s.real(4, 9)); hh.push_back(c.s.real(4, 9)); gid.push_back(c.s.range(1, 3)); }
  std::vector<std::vector<double>> flux; for (int j = 0; j < nf; ++j) { Frame& f = fr[size_t(j)]; f.img = Img(f.w, f.h); flux.push_back({}); for (int i = 0; i < n; ++i) { double q = A[size_t(i)] * c.s.real(0.6, 1.6) * f.sigma; flux.back().push_back(q); addBlob(f.img, {X[size_t(i)] + f.dx, Y[size_t(i)] + f.dy, sig, sig, 0, q / (2 * PI * sig * sig)}); } for (auto& v : f.img.d) v += noise.gauss() * f.sigma; f.img.round32(); auto nm = std::to_string(j); writeFits(d / "m" + nm + ".fits", f.img, k.cards(f.dx, f.dy)); Img rms(f.w, f.h, f.sigma); rms.round32(); writeFits(d / "r" + nm + ".fits", rms); }
  Catalogue cat; const char* T[] = {"double", "float", "long", "int"}; int copies = c.s.range(0, 3); bool sizes = c.s.coin(70), both = sizes && c.s.coin(60), groups = c.s.coin(60), file = c.s.coin(45); double def = c.s.real(4, 8);
  cat.add("RA_", "double", ra); cat.add("DEC_", "double", de); cat.add("guess", T[c.s.draw(1)], A); for (int i = 0; i < copies; ++i) { std::vector<double> v; for (int j = 0; j < n; ++j) v.push_back(c.s.real(-100, 1000)); cat.add(std::string(1, char('b' + c.s.draw(20))) + "_col" + std::to_string(i), T[c.s.draw(3)], v); }
  if (sizes) { cat.add("hw", both ? "double" : T[c.s.draw(3)], hw); if (both) cat.add("hh", "double", hh); hw = cat.of("hw"); hh = both ? cat.of("hh") : hw; } else hw = hh = std::vector<double>(size_t(n), def); if (groups) cat.add("gid", T[c.s.draw(3)], gid); cat.shuffle(c);
  std::vector<std::string> names{"guess"}; for (auto& q : cat.cols) if (q.name.find("_col") != std::string::npos) names.push_back(q.name); for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[size_t(c.s.draw(int64_t(i) - 1))]);
  writeText(d / "assoc.txt", cat.text()); Options o; o.set("assoc-catalog", d / "assoc.txt"); o.set("segmentation-algorithm", someCase(c, "ASSOC")); o.set("assoc-default-pixel-size", full(def)); bool implicit = false;
  if (file) { std::vector<std::pair<int, std::string>> l; l.push_back({cat.index("RA_"), someCase(c, "RA")}); l.push_back({cat.index("DEC_"), someCase(c, "DEC")}); for (auto& q : names) l.push_back({cat.index(q), q}); if (sizes) { if (both) { l.push_back({cat.index("hw"), "pixel_half_width"}); l.push_back({cat.index("hh"), "pixel_half_height"}); } else l.push_back({cat.index("hw"), someCase(c, "PIXEL_SIZE")}); } if (groups) l.push_back({cat.index("gid"), "group_id"});
    std::sort(l.begin(), l.end()); bool mixed = c.s.coin(50); if (!mixed) for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[size_t(c.s.draw(int64_t(i) - 1))]); std::string t; int prev = 0; for (auto& q : l) { if (c.s.coin(15)) t += c.s.coin(50) ? "# a comment = 3\n" : "\n"; if (mixed && q.first == prev + 1 && c.s.coin(70)) { t += q.second + "\n"; implicit = true; } else { const char* eq[] = {"=", " = ", "= "}; t += "  " + q.second + eq[c.s.draw(2)] + std::to_string(q.first) + "\n"; } prev = q.first; }
    writeText(d / "assoc.conf", t); o.set("assoc-config", d / "assoc.conf"); c.note() << "assoc-config: " << t << "; "; }
  else { o.set("assoc-columns", std::to_string(cat.index("RA_")) + "," + std::to_string(cat.index("DEC_"))); o.set("assoc-coord-type", someCase(c, "WORLD")); std::vector<std::string> l; for (auto& q : names) l.push_back(std::to_string(cat.index(q))); o.set("assoc-copy", join(l)); if (sizes) { if (both) { o.set("assoc-source-half-widths", cat.index("hw")); o.set("assoc-source-half-heights", cat.index("hh")); if (c.s.coin(30)) o.set("assoc-source-sizes", cat.index("guess")); } else o.set("assoc-source-sizes", cat.index("hw")); } if (groups) o.set("assoc-group-id", cat.index("gid")); }
  bool grouped = groups && c.s.coin(60); o.set("grouping-algorithm", grouped ? "ASSOC" : "NONE"); int limit = grouped && c.s.coin(50) ? int(c.s.range(1, 3)) : 0; if (limit || c.s.coin(20)) o.set("grouping-hard-limit", limit); std::vector<int> block; for (size_t i = 0; i < size_t(n); ++i) { int before = int(std::count(gid.begin(), gid.begin() + long(i), gid[i])); block.push_back(limit ? before / limit : 0); } if (ref) { writeFits(d / "ref.fits", Img(20, 20), k.cards(rx, ry)); o.set("reference-image", d / "ref.fits"); }
  o.set("psf-fwhm", full(fwhm)); o.set("psf-pixel-sampling", 1); o.set("python-config-file", d / "conf.py"); o.set("output-catalog-filename", d / "cat.txt"); o.set("output-catalog-format", "ASCII"); o.set("thread-count", c.s.pick({0, 0, 2, 4})); o.set("tile-size", c.s.pick({256, 16, 40})); o.set("output-properties", "AssocMode,AperturePhotometry,FlexibleModelFitting,GroupInfo,SourceIDs,WorldCentroid");
  auto value = [&](const std::string& q) { if (file) return "o.assoc_" + q; size_t i = size_t(std::find(names.begin(), names.end(), q) - names.begin()); return "o.assoc_value_" + std::to_string(i); };
  std::vector<double> ap; std::vector<std::string> ds; int na = c.s.range(1, 2); for (int i = 0; i < na; ++i) { ap.push_back(c.s.real(2, 12)); ds.push_back(full(ap.back())); }
  std::string t = "from sourcextractor.config import *\nF=[]\na=[]\nset_engine('gsl')\nset_max_iterations(300)\nx=FreeParameter(lambda o:o.centroid_x,Range(lambda v,o:(v-3,v+3),RangeType.LINEAR))\ny=FreeParameter(lambda o:o.centroid_y,Range(lambda v,o:(v-3,v+3),RangeType.LINEAR))\n";
  for (int j = 0; j < nf; ++j) { auto nm = std::to_string(j); t += "L=load_fits_images(['" + (d / "m" + nm) + ".fits'],weights=['" + (d / "r" + nm) + ".fits'],weight_type='rms',weight_absolute=True,weight_threshold=1000,constant_background=0)\nG=MeasurementGroup(L)\nfor i in G: a.extend(add_aperture_photometry(i,[" + join(ds) + "]))\nF.append(FreeParameter(lambda o:" + value("guess") + "*" + full(fr[size_t(j)].sigma) + ",Range(lambda v,o:(v*0.01,v*50),RangeType.EXPONENTIAL)))\nadd_model(G,PointSourceModel(x,y,F[-1]))\nadd_output_column('flux" + nm + "',F[-1])\n"; }
  t += "add_output_column('aper',a)\nadd_output_column('mx',x)\nadd_output_column('my',y)\nadd_output_column('match',ConstantParameter(lambda o:1.0 if o.assoc_match else 0.0))\nadd_output_column('size',ConstantParameter(lambda o:o.assoc_size))\n"; for (auto& q : names) t += "add_output_column('c_" + q + "',ConstantParameter(lambda o:" + value(q) + "))\n"; writeText(d / "conf.py", t);
  c.note() << n << " sources on " << nf << " frames; catalogue: " << cat.text() << "; options: " << [&] { std::string z; for (auto& q : o.v) z += q.first + "=" + q.second + " "; return z; }() << "; ";
  go(c, d, o); Table R = readTable(d / "cat.txt"); c.eq(R.rows.size(), size_t(n), "number of rows"); c.nontrivial(); c.label("config file", file); c.label("implicit columns", implicit); c.label("groups", grouped); c.label("group limit", limit > 0); c.label("sizes"); c.label("half widths and heights", both); c.label("reference image", ref); c.label("several frames", nf > 1);
  std::vector<size_t> rows(size_t(n), size_t(-1)); for (size_t z = 0; z < size_t(n); ++z) { size_t i = size_t(R.get(z, "detection_id")) - 1; c.check(i < size_t(n) && rows[i] == size_t(-1), "detection_id " + R.text(z, "detection_id") + " in row " + std::to_string(z)); rows[i] = z; c.check(R.get(z, "source_id") == double(z + 1), "row " + std::to_string(z) + " source_id " + R.text(z, "source_id")); }
  for (size_t r = 0; r < size_t(n); ++r) { const size_t z0 = rows[r]; auto row = "entry " + std::to_string(r) + " in row " + std::to_string(z0) + " "; auto get = [&](const std::string& q) { return R.get(z0, q); }; auto nm = [&](size_t j) { return std::to_string(j); };
    c.check(get("assoc_match") == 1, row + "does not match its own entry"); c.close(get("world_centroid_alpha"), ra[r], 0, 1e-12, row + "right ascension"); c.close(get("world_centroid_delta"), de[r], 0, 1e-12, row + "declination");
    auto v = R.vec(z0, "assoc_values"); c.eq(v.size(), names.size(), row + "number of copied values"); std::vector<double> want; for (auto& q : names) want.push_back(cat.of(q)[r]); if (file) { std::sort(want.begin(), want.end()); std::sort(v.begin(), v.end()); } for (size_t i = 0; i < v.size(); ++i) c.close(v[i], want[i], 2e-7, 0, row + "copied value " + nm(i));
    for (size_t q = 0; q < r; ++q) { bool same = R.text(rows[q], "group_id") == R.text(z0, "group_id"); c.check(same == (grouped && gid[q] == gid[r] && block[q] == block[r]), row + "and entry " + nm(q) + (same ? " share a group" : " are in different groups")); }
    auto AF = R.vec(z0, "aper_flux"), AE = R.vec(z0, "aper_flux_err"), AL = R.vec(z0, "aper_flags"); c.eq(AF.size(), size_t(nf) * ap.size(), row + "number of aperture fluxes"); bool anywhere = false, inside = true, unsure = false, alone = true; auto ax = R.vec(z0, "fmf_fitting_areas_x"), ay = R.vec(z0, "fmf_fitting_areas_y"); c.eq(ax.size(), size_t(nf), row + "number of areas");
    for (size_t j = 0; j < size_t(nf); ++j) { const Frame& f = fr[j]; double px = X[r] + f.dx, py = Y[r] + f.dy; for (size_t i = 0; i < ap.size(); ++i) { Bracket b = inCircle(f.img, px, py, ap[i] / 2); size_t z = j * ap.size() + i; c.check(b.holds(AF[z]), row + "frame " + nm(j) + " aperture " + num(ap[i]) + " flux " + num(AF[z]) + " instead of " + b.str()); Bracket va = inCircle(Img(f.w, f.h, double(float(f.sigma)) * double(float(f.sigma))), px, py, ap[i] / 2); c.check(va.holds(AE[z] * AE[z]), row + "frame " + nm(j) + " aperture error squared " + num(AE[z] * AE[z]) + " instead of " + va.str()); double e = ap[i] / 2 + 3; if (px < -e || py < -e || px > f.w + e || py > f.h + e) { c.check(long(AL[z]) & 32, row + "frame " + nm(j) + ": flags of an aperture outside"); c.label("aperture outside"); } }
      // the area the model is fitted on: the given size around the position, and a rim
      auto area = [&](double p, double half, int size, double other, double ohalf, int osize) { int q = int(half), u = int(p - q), v0 = int(p + q) + 1, oq = int(ohalf), ov = int(other + oq) + 1, ou = int(other - oq); if (v0 < 0 || ov < 0 || u >= size || ou >= osize) return -1; u = std::max(u, 0); v0 = std::min(v0, size - 1); int b = int((v0 - u) * .8) + 2; u = std::max(0, u - b); v0 = std::min(size - 1, v0 + b); return v0 - u + 1; };
      bool near = false; for (double q : {px - int(hw[r]), px + int(hw[r]), py - int(hh[r]), py + int(hh[r])}) near = near || std::fabs(q - std::round(q)) < 1e-4; int wx = area(px, hw[r], f.w, py, hh[r], f.h), wy = area(py, hh[r], f.h, px, hw[r], f.w); if (near) unsure = true; else { c.check(ax[j] == wx && ay[j] == wy, row + "frame " + nm(j) + " fitting area " + num(ax[j]) + "x" + num(ay[j]) + " instead of " + std::to_string(wx) + "x" + std::to_string(wy)); if (wx > 0) anywhere = true; }
      inside = inside && px > 2 * fwhm && py > 2 * fwhm && px < f.w - 1 - 2 * fwhm && py < f.h - 1 - 2 * fwhm; for (size_t q = 0; q < size_t(n); ++q) if (q != r && std::fabs(X[q] - X[r]) < 1.9 * hw[r] + 4 + 6 * sig && std::fabs(Y[q] - Y[r]) < 1.9 * hh[r] + 4 + 6 * sig) alone = false; }
    c.check(get("match") == 1 && get("size") == double(names.size()) || (!anywhere && std::isnan(get("match"))), row + "assoc_match and assoc_size in Python"); for (auto& q : names) if (anywhere) c.close(get("c_" + q), cat.of(q)[r], 2e-7, 1e-12, row + "the value of " + q + " in Python"); if (unsure) continue;
    if (!anywhere) { c.check(long(get("fmf_flags")) & 32, row + "is on no frame, but its flags are " + R.text(z0, "fmf_flags")); c.check(std::isnan(get("mx")) && std::isnan(get("flux0")), row + "is on no frame, but has a fit"); c.label("outside of all frames"); continue; }
    if (inside && alone) { c.label("fit compared"); auto close = [&](double got, double err, double truth, double abs, const std::string& what) { if (!(std::fabs(got - truth) <= abs + 6 * err)) c.fail(row + what + " " + num(got) + " +- " + num(err) + " instead of " + num(truth)); }; double ox = ref ? rx : fr[0].dx, oy = ref ? ry : fr[0].dy; close(get("mx"), get("mx_err"), X[r] + ox + 1, 0.03, "x"); close(get("my"), get("my_err"), Y[r] + oy + 1, 0.03, "y"); for (size_t j = 0; j < size_t(nf); ++j) close(get("flux" + nm(j)), get("flux" + nm(j) + "_err"), flux[j][r], 0.01 * flux[j][r], "flux" + nm(j)); } } }
// --- detections matched with a catalogue
struct Entry { double x, y, weight; std::vector<double> v; };
void match(Case& c) {
  int w = c.s.range(40, 90), h = c.s.range(40, 90); Sky k = sky(c, w, h); Dir d; Img im(w, h); Noise noise(c.s.draw(100000)); double sig = c.s.real(1.1, 2.2); std::vector<std::pair<double, double>> src; int want = c.s.range(1, 8); for (int i = 0; i < want; ++i) { double x = c.s.real(4, w - 5), y = c.s.real(4, h - 5); bool ok = true; for (auto& q : src) ok = ok && std::hypot(q.first - x, q.second - y) > 7; if (!ok) continue; src.push_back({x, y}); addBlob(im, {x, y, sig, sig, 0, c.s.logreal(30, 1000)}); } for (auto& v : im.d) v += noise.gauss(); im.round32(); writeFits(d / "det.fits", im, k.cards(0, 0));
  const char* M[] = {"NEAREST", "FIRST", "MEAN", "MAG_MEAN", "SUM", "MAG_SUM", "MIN", "MAX"}; int mode = int(c.s.draw(7)); double radius = c.s.coin(20) ? 2 : c.s.logreal(0.3, 12); bool world = c.s.coin(50), weights = c.s.coin(70), mags = mode == 3 || mode == 5; int copies = c.s.range(0, 3);
  std::vector<Entry> e; auto add = [&](double x, double y) { Entry q{x, y, 1, {}}; if (weights) q.weight = mode == 3 ? noise.uni() * 5 + 15 : noise.uni() * 9.9 + 0.1; for (int i = 0; i < copies; ++i) q.v.push_back(mags ? 10 + 15 * noise.uni() : 1000 * noise.uni() - 300); e.push_back(q); };
  for (auto& q : src) { int m = c.s.pick({0, 1, 1, 2, 3, 5}); for (int i = 0; i < m; ++i) { double a = noise.uni() * 2 * PI, r = radius * noise.uni() * 1.6; add(q.first + r * std::cos(a), q.second + r * std::sin(a)); } } int bulk = c.s.coin(40) ? c.s.range(100, 500) : c.s.range(1, 30); for (int i = 0; i < bulk; ++i) add(noise.uni() * w * 1.4 - 0.2 * w, noise.uni() * h * 1.4 - 0.2 * h); for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[size_t(noise.uni() * double(i)) % i]);
  Catalogue cat; std::vector<double> p, q, wt; std::vector<std::vector<double>> cv; cv.resize(size_t(copies)); for (auto& z : e) { if (world) { auto s = k.at(z.x, z.y); p.push_back(s.first); q.push_back(s.second); } else { p.push_back(z.x + 1); q.push_back(z.y + 1); } wt.push_back(z.weight); for (size_t i = 0; i < size_t(copies); ++i) cv[i].push_back(z.v[i]); }
  const char* T[] = {"double", "float", "long", "int"}; cat.add("p", "double", p); cat.add("q", "double", q); if (weights) cat.add("wt", "double", wt); for (int i = 0; i < copies; ++i) cat.add("copy" + std::to_string(i), T[c.s.draw(3)], cv[size_t(i)]); cat.shuffle(c); for (size_t j = 0; j < e.size(); ++j) for (int i = 0; i < copies; ++i) e[j].v[size_t(i)] = cat.of("copy" + std::to_string(i))[j];
  writeText(d / "assoc.txt", cat.text()); Options o; o.set("detection-image", d / "det.fits"); o.set("background-value", 0); o.set("weight-type", "none"); o.set("detection-threshold", c.s.real(4, 7)); o.set("detection-minimum-area", 3); std::vector<std::string> l; for (int i = 0; i < copies; ++i) l.push_back(std::to_string(cat.index("copy" + std::to_string(i))));
  o.set("assoc-catalog", d / "assoc.txt"); o.set("assoc-columns", std::to_string(cat.index("p")) + "," + std::to_string(cat.index("q")) + (weights ? "," + std::to_string(cat.index("wt")) : "")); if (mode != 0 || c.s.coin(70)) o.set("assoc-mode", someCase(c, M[mode])); if (radius != 2 || c.s.coin(50)) o.set("assoc-radius", full(radius)); if (world || c.s.coin(50)) o.set("assoc-coord-type", someCase(c, world ? "WORLD" : "PIXEL")); if (copies) o.set("assoc-copy", join(l)); if (c.s.coin(30)) o.set("assoc-filter", someCase(c, "ALL"));
  o.set("output-catalog-filename", d / "cat.txt"); o.set("output-catalog-format", "ASCII"); o.set("thread-count", c.s.pick({0, 0, 3})); o.set("output-properties", "PixelCentroid,AssocMode,IsophotalFlux"); c.note() << e.size() << " entries, mode " << M[mode] << " radius " << radius << (world ? " sky" : " pixels") << (weights ? " with weights" : "") << "; "; if (e.size() <= 12) c.note() << cat.text() << "; ";
  go(c, d, o); Table R = readTable(d / "cat.txt"); if (R.rows.empty()) { c.label("nothing detected"); return; } int matched = 0; bool unsure = false; c.label(M[mode]); c.label("large catalogue", e.size() > 100);
  for (size_t r = 0; r < R.rows.size(); ++r) { auto row = "row " + std::to_string(r) + " "; double x = R.get(r, "pixel_centroid_x") - 1, y = R.get(r, "pixel_centroid_y") - 1; std::vector<size_t> in; bool close = false; for (size_t i = 0; i < e.size(); ++i) { double z = std::hypot(e[i].x - x, e[i].y - y); if (std::fabs(z - radius) < 1e-5) close = true; if (z < radius) in.push_back(i); } if (close) { unsure = true; continue; }
    bool got = R.get(r, "assoc_match") != 0; c.check(got == !in.empty(), row + (got ? "matches, but there is no entry within the radius" : "does not match, but there is an entry within the radius")); if (!copies) continue; auto v = R.vec(r, "assoc_values"); if (in.empty()) { c.check(v.empty() || std::all_of(v.begin(), v.end(), [](double z) { return z == 0 || std::isnan(z); }), row + "has values without a match"); continue; } ++matched; if (in.size() > 1) c.label("several candidates"); c.eq(v.size(), size_t(copies), row + "number of values");
    auto dist = [&](size_t i) { return std::hypot(e[i].x - x, e[i].y - y); }; size_t one = in[0]; bool tie = false;
    if (mode == 0) { for (size_t i : in) if (dist(i) < dist(one)) one = i; for (size_t i : in) if (i != one && dist(i) < dist(one) + 1e-5) tie = true; } if (mode == 6 || mode == 7) { for (size_t i : in) if (mode == 6 ? e[i].weight < e[one].weight : e[i].weight > e[one].weight) one = i; tie = !weights && in.size() > 1; }
    if (tie) { bool any = false; for (size_t i : in) { bool all = true; for (size_t j = 0; j < v.size(); ++j) all = all && std::fabs(v[j] - e[i].v[j]) <= 1e-6 * std::fabs(e[i].v[j]); any = any || all; } c.check(any, row + "has the values of no candidate"); continue; }
    for (size_t j = 0; j < v.size(); ++j) { double a = 0, m = 0, t = 0; if (mode == 0 || mode == 1 || mode == 6 || mode == 7) { a = e[one].v[j]; m = std::fabs(a); } else if (mode == 5) { for (size_t i : in) a += std::pow(10, -0.4 * e[i].v[j]); a = -2.5 * std::log10(a); m = std::fabs(a); } else { for (size_t i : in) { double g = mode == 4 ? 1 : mode == 3 ? std::pow(10, -0.4 * e[i].weight) : e[i].weight; t += g; a += g * e[i].v[j]; m += g * std::fabs(e[i].v[j]); } if (mode != 4) { a /= t; m /= t; } } c.close(v[j], a, 0, 1e-6 * m + 1e-9, row + M[mode] + " of " + std::to_string(in.size()) + " candidates, value " + std::to_string(j)); } }
  if (matched || !copies) c.nontrivial(); if (c.s.coin(40)) return; bool keep = c.s.coin(60); o.set("assoc-filter", someCase(c, keep ? "MATCHED" : "UNMATCHED")); o.set("output-catalog-filename", d / "cat2.txt"); go(c, d, o); Table S = readTable(d / "cat2.txt"); c.label("filtered"); (void)unsure; std::vector<size_t> left; for (size_t r = 0; r < R.rows.size(); ++r) if ((R.get(r, "assoc_match") != 0) == keep) left.push_back(r); c.eq(S.rows.size(), left.size(), std::string("number of ") + (keep ? "matched" : "unmatched") + " sources that are left");
  for (size_t i = 0; i < left.size(); ++i) for (auto* nm : {"pixel_centroid_x", "pixel_centroid_y", "assoc_match", "isophotal_flux"}) c.check(S.text(i, nm) == R.text(left[i], nm), "row " + std::to_string(i) + " of the filtered catalogue, " + nm + ": " + S.text(i, nm) + " instead of " + R.text(left[i], nm)); }
// --- a detection file with several images gives what its images give one by one
void extensions(Case& c) {
  int n = c.s.range(2, 3); Sky k = sky(c, 60, 60); Dir d; Noise noise(c.s.draw(100000)); bool world = c.s.coin(75), assoc = c.s.coin(85), weight = c.s.coin(30), empty = c.s.coin(60), copy = c.s.coin(80); std::vector<Img> ims, rms; std::vector<Cards> cards; double radius = c.s.logreal(0.5, 8); Catalogue cat; std::vector<double> p, q, wt, val; const char* M[] = {"NEAREST", "FIRST", "MEAN", "MAG_MEAN", "SUM", "MAG_SUM", "MIN", "MAX"};
  for (int j = 0; j < n; ++j) { int w = c.s.range(36, 70), h = c.s.range(36, 70); double dx = j ? c.s.real(-90, 90) : 0, dy = j ? c.s.real(-90, 90) : 0; Img im(w, h), rm(w, h, 1); int m = c.s.range(0, 5); for (int i = 0; i < m; ++i) { double x = c.s.real(3, w - 4), y = c.s.real(3, h - 4); addBlob(im, {x, y, c.s.real(1.1, 2.2), c.s.real(1.1, 2.2), 0.3, c.s.logreal(30, 1000)}); int e = c.s.range(0, 3); for (int z = 0; z < e; ++z) { double a = noise.uni() * 6.28, r = radius * 1.5 * noise.uni(), X = x + r * std::cos(a), Y = y + r * std::sin(a); auto sk = k.at(X - dx, Y - dy); p.push_back(world ? sk.first : X + 1); q.push_back(world ? sk.second : Y + 1); } }
    for (auto& v : im.d) v += noise.gauss(); im.round32(); for (auto& v : rm.d) v = noise.uni() * 0.5 + 0.7; rm.round32(); ims.push_back(im); rms.push_back(rm); cards.push_back(k.cards(dx, dy)); }
  for (int z = 0; z < 3; ++z) { auto sk = k.at(30 + z, 30); p.push_back(world ? sk.first : 30); q.push_back(world ? sk.second : 30 + z); } for (size_t i = 0; i < p.size(); ++i) { wt.push_back(noise.uni() * 9 + 0.5); val.push_back(noise.uni() * 20 + 5); }
  for (size_t i = p.size(); i > 1; --i) { size_t z = size_t(noise.uni() * double(i)) % i; std::swap(p[i - 1], p[z]); std::swap(q[i - 1], q[z]); } cat.add("p", "double", p); cat.add("q", "double", q); cat.add("wt", "double", wt); cat.add("val", "double", val); cat.shuffle(c); writeText(d / "assoc.txt", cat.text());
  writeMulti(d / "all.fits", ims, cards, -32, empty); writeMulti(d / "rall.fits", rms, {}, -32, empty); Options o; o.set("background-value", 0); o.set("partition-multithreshold", 0); /* shares pixels by lot */ o.set("detection-threshold", c.s.real(4, 7)); o.set("detection-minimum-area", 3); const char* G[] = {"NONE", "OVERLAP", "SPLIT", "MOFFAT"}; o.set("grouping-algorithm", G[c.s.draw(3)]); o.set("tile-size", c.s.pick({256, 16}));
  if (assoc) { o.set("assoc-catalog", d / "assoc.txt"); o.set("assoc-columns", std::to_string(cat.index("p")) + "," + std::to_string(cat.index("q")) + "," + std::to_string(cat.index("wt"))); o.set("assoc-mode", M[c.s.draw(7)]); o.set("assoc-radius", full(radius)); o.set("assoc-coord-type", world ? "WORLD" : "PIXEL"); if (copy) o.set("assoc-copy", cat.index("val")); const char* F[] = {"ALL", "ALL", "MATCHED", "UNMATCHED"}; o.set("assoc-filter", F[c.s.draw(3)]); }
  o.set("output-catalog-format", "ASCII"); o.set("output-properties", std::string("PixelCentroid,WorldCentroid,IsophotalFlux,ShapeParameters,PeakValue,NDetectedPixels,SourceIDs") + (assoc ? ",AssocMode" : "")); c.note() << n << " images, " << p.size() << " entries" << (world ? " sky" : " pixels") << (assoc ? "" : " (not used)") << (weight ? ", weights" : "") << (empty ? ", empty primary" : "") << "; ";
  auto with = [&](const std::string& img, const std::string& w, const std::string& out, int threads) { Options z = o; z.set("detection-image", d / img); if (weight) { z.set("weight-image", d / w); z.set("weight-type", "RMS"); z.set("weight-absolute", 1); } else z.set("weight-type", "none"); z.set("output-catalog-filename", d / out); z.set("thread-count", threads); go(c, d, z); return readTable(d / out); };
  Table A = with("all.fits", "rall.fits", "cat.txt", c.s.pick({0, 0, 2, 4})); size_t at = 0; int filled = 0, got = 0; for (int j = 0; j < n; ++j) { auto nm = std::to_string(j); writeFits(d / "d" + nm + ".fits", ims[size_t(j)], cards[size_t(j)]); writeFits(d / "r" + nm + ".fits", rms[size_t(j)]); Table B = with("d" + nm + ".fits", "r" + nm + ".fits", "cat" + nm + ".txt", 0); filled += !B.rows.empty(); c.check(at + B.rows.size() <= A.rows.size(), "only " + std::to_string(A.rows.size()) + " rows for all images");
    for (size_t r = 0; r < B.rows.size(); ++r, ++at) for (auto& col : B.names) { if (col == "source_id") c.check(A.get(at, col) == double(at + 1), "source_id of row " + std::to_string(at)); if (col.find("_id") != std::string::npos) continue; if (col == "assoc_match") got += B.get(r, col) != 0; c.check(A.text(at, col) == B.text(r, col), "image " + nm + " row " + std::to_string(r) + " " + col + ": " + A.text(at, col) + " in the whole file, " + B.text(r, col) + " alone"); } }
  c.eq(A.rows.size(), at, "number of rows"); c.label("several images with sources", filled > 1); c.label("matches", got > 0); c.label("sky coordinates", world && assoc); if (filled > 1) c.nontrivial(); }
}
PBT_MAIN({"forced", "the sources of the catalogue were measured", forced, 300, 5000}, {"match", "a detection matched the catalogue, or nothing was to be copied", match, 500, 8000}, {"extensions", "two or more of the images have sources", extensions, 150, 2500})