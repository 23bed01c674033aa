// Adding one image to another at any position and scale: band-limited (Lanczos) resampling with flux and position kept; PSF images; frame models are the sum of their parts.
// SRCS: ModelFitting/src/lib/Models/ConstantModel.cpp ModelFitting/src/lib/Models/PointModel.cpp ModelFitting/src/lib/Models/PositionedModel.cpp ModelFitting/src/lib/Models/RotatedModelComponent.cpp ModelFitting/src/lib/Models/ScaledModelComponent.cpp ModelFitting/src/lib/Parameters/BasicParameter.cpp SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp SEImplementation/src/lib/Image/DownSampledImagePsf.cpp SEFramework/src/lib/FFT/FFT.cpp
// SCALE: 4
#include "pbt.h"
#include <memory>
#include <numeric>
#include "SEImplementation/Image/ImageInterfaceTraits.h"
#include "SEImplementation/Image/WriteableImageInterfaceTraits.h"
#include "SEImplementation/Image/VectorImageDataVsModelInputTraits.h"
#include "SEImplementation/Image/DownSampledImagePsf.h"
#include "ModelFitting/Models/FrameModel.h"
#include "ModelFitting/Image/NullPsf.h"
#include "ModelFitting/Parameters/ManualParameter.h"
using namespace pbt;
using namespace ModelFitting;
using SourceXtractor::VectorImage;
using Img = ImageInterfaceTypePtr;
using WImg = WriteableInterfaceTypePtr;
using Par = std::shared_ptr<ManualParameter>;
static Par par(double v) { return std::make_shared<ManualParameter>(v); }
struct Ref { int w, h; std::vector<double> d; Ref(int w_, int h_) : w(w_), h(h_), d(size_t(w_) * h_, 0) {} double& at(int x, int y) { return d[size_t(y) * w + x]; } double get(int x, int y) const { return x < 0 || y < 0 || x >= w || y >= h ? 0 : d[size_t(y) * w + x]; } double maxabs() const { double m = 0; for (double v : d) m = std::max(m, std::fabs(v)); return m; } };
static Ref refOf(const Img& i) { Ref r(i->getWidth(), i->getHeight()); for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) r.at(x, y) = i->getValue(x, y); return r; }
static double sinc(double x) { return std::fabs(x) < 1e-9 ? 1 : std::sin(M_PI * x) / (M_PI * x); }
static void weights(double frac, int a, double* w) { double s = 0; for (int i = 0; i < 2 * a; ++i) { double d = frac - (i - a + 1); w[i] = sinc(d) * sinc(d / a); s += w[i]; } for (int i = 0; i < 2 * a; ++i) w[i] /= s; }
// Lanczos value at a position in pixel units (pixel i has its centre at i)
static double lanczos(const Ref& r, double x, double y, int a = 4) { int ix = int(std::floor(x)), iy = int(std::floor(y)); double wx[8], wy[8]; weights(x - ix, a, wx); weights(y - iy, a, wy); double s = 0; for (int j = 0; j < 2 * a; ++j) { double t = 0; for (int i = 0; i < 2 * a; ++i) t += wx[i] * r.get(ix - a + 1 + i, iy - a + 1 + j); s += wy[j] * t; } return s; }
static bool fits(double p, int n, bool& unsure) { double f = std::floor(p); if (std::fabs(p - std::round(p)) < 1e-4) { double g = std::round(p); bool a = g - 3 >= 0 && g + 4 < n, b = g - 4 >= 0 && g + 3 < n; if (a != b) unsure = true; return a; } return f - 3 >= 0 && f + 4 < n; }

template <class I> static double pix(const I& i, int x, int y) { return i->getChunk(x, y, 1, 1)->getValue(0, 0); }
template <class I> static I make(int w, int h) { return ImageTraits<I>::factory(size_t(w), size_t(h)); }
// zeroRim: pixels whose interpolation would need values outside of the source are zero (vector images); otherwise outside counts as zero
template <class I> static void addOne(Case& c, bool zeroRim, const char* name) {
  bool small = c.s.coin(25); int w = int(c.s.range(small ? 1 : 9, 24)), h = int(c.s.range(small ? 1 : 9, 24)), W = int(c.s.range(small ? 1 : 5, 30)), H = int(c.s.range(1, 30)); double sf = c.s.coin(35) ? 1 : c.s.logreal(0.3, 3), x = c.s.coin(20) ? W / 2. : c.s.real(-6, W + 6), y = c.s.coin(20) ? H / 2. : c.s.real(-6, H + 6); if (c.s.coin(15)) { x = std::floor(x) + w * sf / 2; y = std::floor(y) + h * sf / 2; }
  I src = make<I>(w, h), dst = make<I>(W, H); Ref rs(w, h), rd(W, H); bool delta = c.s.coin(30); for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) { float v = delta ? (i == w / 2 && j == h / 2 ? 1.f : 0.f) : float(c.s.real(-10, 10)); src->setValue(i, j, v); rs.at(i, j) = v; }
  for (int j = 0; j < H; ++j) for (int i = 0; i < W; ++i) { float v = float(c.s.real(-10, 10)); dst->setValue(i, j, v); rd.at(i, j) = v; }
  c.note() << name << " " << w << "x" << h << " into " << W << "x" << H << " scale " << sf << " at " << x << "," << y; c.label(name); c.label(sf == 1 ? "scale 1" : sf < 1 ? "shrunk" : "enlarged");
  ImageTraits<I>::addImageToImage(dst, src, sf, x, y); double m = rs.maxabs() / (sf * sf); int touched = 0;
  for (int j = 0; j < H; ++j) for (int i = 0; i < W; ++i) { double px = (i + .5 - (x - w * sf / 2)) / sf - .5, py = (j + .5 - (y - h * sf / 2)) / sf - .5; bool unsure = false; double want = 0; bool in;
      if (zeroRim) in = fits(px, w, unsure) & fits(py, h, unsure); else { in = i >= std::floor(x - w * sf / 2) && i < std::ceil(x + w * sf / 2) && j >= std::floor(y - h * sf / 2) && j < std::ceil(y + h * sf / 2); for (double e : {x - w * sf / 2, x + w * sf / 2}) if (std::fabs(e - std::round(e)) < 1e-9) unsure |= std::fabs(i - e) < 1.5; for (double e : {y - h * sf / 2, y + h * sf / 2}) if (std::fabs(e - std::round(e)) < 1e-9) unsure |= std::fabs(j - e) < 1.5; }
      if (unsure) continue; if (in) { want = lanczos(rs, px, py) / (sf * sf); ++touched; } double d = pix(dst, i, j) - rd.at(i, j); c.close(d, want, 1e-4, 2e-4 * m + 2e-6, "what was added to pixel " + std::to_string(i) + "," + std::to_string(j)); }
  c.nontrivial(touched > 4);
}
static void addImage(Case& c) { if (c.s.coin(65)) addOne<Img>(c, true, "vector image"); else addOne<WImg>(c, false, "writeable image"); }
// A smooth blob keeps its flux, position and (scaled) width, whatever the scale and the position
template <class I> static void blobOne(Case& c, const char* name) {
  double sf = c.s.coin(25) ? 1 : c.s.logreal(0.5, 2.5), sig = c.s.real(1.6, 2.2) * std::max(1., 1 / sf); int n = 2 * int(std::ceil(sig * 4.5 + 4)) + 1, N = int(std::ceil(n * sf)) + 6; double ox = c.s.real(-1, 1), oy = c.s.real(-1, 1), flux = c.s.logreal(0.1, 1e4); I src = make<I>(n, n), dst = make<I>(N, N); double sum = 0;
  std::vector<double> v; for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { double dx = i - (n - 1) / 2. - ox, dy = j - (n - 1) / 2. - oy; v.push_back(std::exp(-(dx * dx + dy * dy) / 2 / sig / sig)); sum += v.back(); }
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) src->setValue(i, j, float(v[size_t(j * n + i)] * flux / sum)); double x = N / 2. + c.s.real(-1.5, 1.5), y = N / 2. + c.s.real(-1.5, 1.5); ImageTraits<I>::addImageToImage(dst, src, sf, x, y); c.note() << name << " sigma " << sig << " scale " << sf << " at " << x << "," << y << " offset " << ox << "," << oy; c.label(name); c.nontrivial();
  double s = 0, sx = 0, sy = 0, sxx = 0; for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) { double p = pix(dst, i, j); s += p; sx += p * (i + .5); sy += p * (j + .5); sxx += p * (i + .5) * (i + .5); }
  c.close(s, flux, 1e-2, 0, "flux of the added blob"); sx /= s; sy /= s; c.close(sx, x + ox * sf, 0, 0.02, "x of the added blob (in units where a pixel spans [i, i+1])"); c.close(sy, y + oy * sf, 0, 0.02, "y of the added blob"); c.close(sxx / s - sx * sx, sig * sig * sf * sf, 0.03, 0, "width of the added blob"); }
static void blob(Case& c) { if (c.s.coin()) blobOne<Img>(c, "vector image"); else blobOne<WImg>(c, "writeable image"); }
static void interpolate(Case& c) {
  bool small = c.s.coin(25); int w = int(c.s.range(small ? 1 : 8, 20)), h = int(c.s.range(small ? 1 : 8, 20)); std::vector<float> d(size_t(w) * h); Ref r(w, h); for (size_t i = 0; i < d.size(); ++i) r.d[i] = d[i] = float(c.s.real(-10, 10)); int kind = int(c.s.draw(4));
  float x = c.s.coin(25) ? float(c.s.range(-2, w + 2)) : float(c.s.real(-2, w + 3)), y = c.s.coin(25) ? float(c.s.range(-2, h + 2)) : float(c.s.real(-2, h + 3)); c.note() << "kind " << kind << " " << w << "x" << h << " at " << x << "," << y; c.label("kind " + std::to_string(kind));
  float got = SourceXtractor::interpolate_pix(d.data(), x, y, w, h, SourceXtractor::interpenum(kind)); double px = x - 1., py = y - 1., want = 0; int ix = int(std::floor(px)), iy = int(std::floor(py)); bool in = true; int a = kind == 1 ? 1 : kind; 
  if (x < 0.51 || y < 0.51) { if (x < -0.5 || y < -0.5) (void)0; if (kind == 0) { c.discard(); return; } }
  if (kind == 0) { double fx = px - std::floor(px), fy = py - std::floor(py); if (std::fabs(fx - .5) < 1e-3 || std::fabs(fy - .5) < 1e-3) { c.discard(); return; } int nx = int(std::round(px)), ny = int(std::round(py)); in = nx >= 0 && ny >= 0 && nx < w && ny < h; want = in ? r.get(nx, ny) : 0; }
  else { if (x < 1e-6 || y < 1e-6) { in = false; } else { in = ix - a + 1 >= 0 && iy - a + 1 >= 0 && ix + a < w && iy + a < h; }
    if (in) { if (kind == 1) { double fx = px - ix, fy = py - iy; want = (1 - fy) * ((1 - fx) * r.get(ix, iy) + fx * r.get(ix + 1, iy)) + fy * ((1 - fx) * r.get(ix, iy + 1) + fx * r.get(ix + 1, iy + 1)); } else want = lanczos(r, px, py, a); } }
  c.nontrivial(in); c.close(got, want, 1e-4, 3e-4 * r.maxabs(), "interpolated value");
}
static std::shared_ptr<VectorImage<float>> genPsf(Case& c, int n) { auto p = VectorImage<float>::create(n, n); double s = c.s.real(0.7, 2), ex = c.s.real(0.6, 1.6), ox = c.s.real(-.7, .7); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { double dx = (i - n / 2 - ox) / s / ex, dy = (j - n / 2) / s; p->setValue(i, j, float(std::exp(-(dx * dx + dy * dy) / 2))); } return p; }
static void psfImages(Case& c) {
  int n = c.s.coin(15) ? int(c.s.range(1, 21)) : 2 * int(c.s.range(0, 12)) + 1, nh = c.s.coin(8) ? int(c.s.range(1, 21)) : n; double ps = c.s.logreal(0.1, 2), down = c.s.coin(40) ? 1 : c.s.real(0.4, 1.2); bool norm = c.s.coin(); auto kernel = VectorImage<float>::create(n, nh); { auto g = genPsf(c, n); double amp = c.s.logreal(.1, 100); for (int j = 0; j < nh; ++j) for (int i = 0; i < n; ++i) kernel->setValue(i, j, float(amp * g->getValue(i, std::min(j, n - 1)))); }
  c.note() << n << "x" << nh << " pixel scale " << ps << " down " << down << " normalise " << norm; bool bad = n != nh || n % 2 == 0;
  try { SourceXtractor::ImagePsf p(ps, kernel); c.check(!bad, "a kernel that is not square or of even size is accepted"); c.eq(p.getPixelScale(), ps, "pixel scale"); c.eq(int(p.getSize()), n, "size"); float f = float(c.s.real(0, 50)); auto k = p.getScaledKernel(f); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) c.close(k->getValue(i, j), f * kernel->getValue(i, j), 1e-6, 1e-30, "scaled kernel"); } catch (const Elements::Exception&) { c.check(bad, "a good kernel is rejected"); }
  try {
    SourceXtractor::DownSampledImagePsf p(ps, kernel, down, norm); c.check(!bad, "a kernel that is not square or of even size is accepted (down-sampled)"); c.nontrivial(down != 1 && n > 9); c.close(p.getPixelScale(), ps / down, 1e-12, 0, "pixel scale of the sampled kernel"); int m = int(p.getSize()); c.check(m % 2 == 1, "the sampled kernel has an even size"); c.check(std::abs(m - n * down) <= 1.0001, "size of the sampled kernel");
    auto k = p.getScaledKernel(1); Ref r = refOf(k), ro = refOf(kernel); double s = std::accumulate(r.d.begin(), r.d.end(), 0.), so = std::accumulate(ro.d.begin(), ro.d.end(), 0.);
    if (down == 1) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) c.close(r.get(i, j), ro.get(i, j), 1e-6, 1e-30, "kernel"); 
    else if (n >= 11) { c.close(s, norm ? 1 : so, 2e-4, 0, "sum of the sampled kernel"); Ref sh(m, m); double ss = 0; bool skip = false; for (int j = 0; j < m; ++j) for (int i = 0; i < m; ++i) { double px = (i + .5 - (m / 2. - n * down / 2)) / down - .5, py = (j + .5 - (m / 2. - n * down / 2)) / down - .5; bool un = false; bool in = fits(px, n, un) & fits(py, n, un); skip |= un; sh.at(i, j) = in ? lanczos(ro, px, py) : 0; ss += sh.at(i, j); } c.label("sampled"); if (!skip && std::fabs(ss) > 0.05 * so) for (size_t i = 0; i < sh.d.size(); ++i) c.close(r.d[i] / s, sh.d[i] / ss, 1e-3, 2e-4 * sh.maxabs() / std::fabs(ss), "shape of the sampled kernel"); }
    // convolution with the kernel, with and without a context
    int w = int(c.s.range(1, 25)), h = int(c.s.range(1, 25)); Ref in(w, h); auto a = VectorImage<float>::create(w, h), b = VectorImage<float>::create(w, h); for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) { float v = float(c.s.real(0, 10)); in.at(i, j) = v; a->setValue(i, j, v); b->setValue(i, j, v); }
    p.convolve(a); auto ctx = p.prepare(b); p.convolve(b, ctx); auto refl = [](int i, int n) { int per = 2 * n - 2; if (n == 1) return 0; i %= per; if (i < 0) i += per; return i < n ? i : per - i; };
    if (std::isfinite(s)) { double kmax = 0; for (double v : r.d) kmax += std::fabs(v); for (int q = 0; q < 5; ++q) { int x = int(c.s.range(0, w - 1)), y = int(c.s.range(0, h - 1)); double want = 0; for (int j = 0; j < m; ++j) for (int i = 0; i < m; ++i) want += r.get(i, j) * in.get(refl(x - i + m / 2, w), refl(y - j + m / 2, h)); c.close(a->getValue(x, y), want, 1e-5, 2e-6 * kmax * in.maxabs() + 1e-20, "convolved pixel"); c.close(b->getValue(x, y), want, 1e-5, 2e-6 * kmax * in.maxabs() + 1e-20, "convolved pixel with a context"); } }
  } catch (const Elements::Exception&) { c.check(bad, "a good kernel is rejected (down-sampled)"); }
  SourceXtractor::DownSampledImagePsf none(ps, nullptr, down, norm); c.eq(none.getPixelScale(), 1.0, "pixel scale without a PSF"); c.eq(int(none.getSize()), 1, "size without a PSF"); auto z = VectorImage<float>::create(3, 3); z->setValue(1, 2, 5); none.convolve(z); auto zc = none.prepare(z); none.convolve(z, zc); c.eq(z->getValue(1, 2), 5.f, "convolution without a PSF"); c.eq(z->getValue(1, 1), 0.f, "convolution without a PSF");
}
struct Stamp : ExtendedModel<Img> { double amp; mutable std::vector<std::pair<size_t, size_t>> asked; mutable double askedScale = 0; std::shared_ptr<ManualParameter> f;
  Stamp(double w, double h, Par x, Par y, Par flux) : ExtendedModel<Img>({}, par(1), par(1), par(0), w, h, x, y), f(flux) {}
  Img getRasterizedImage(double s, size_t w, size_t h) const override { asked.push_back({w, h}); askedScale = s; auto i = make<Img>(int(w), int(h)); i->setValue(int(w) / 2, int(h) / 2, float(f->getValue())); return i; } };
static void frame(Case& c) {
  int W = int(c.s.range(1, 40)), H = int(c.s.range(1, 40)); double pix = c.s.coin(40) ? 1 : c.s.logreal(0.5, 2), pps = c.s.coin(40) ? pix : c.s.logreal(0.4, 1.5) * pix; int n = 2 * int(c.s.range(4, 9)) + 1; auto kernel = genPsf(c, n); SourceXtractor::ImagePsf psf(pps, kernel); Ref rk = refOf(kernel); bool nul = c.s.coin(15); if (nul) { pps = 1; n = 1; rk = Ref(1, 1); rk.at(0, 0) = 1; } double sf = pps / pix; 
  std::vector<ConstantModel> cm; std::vector<PointModel> pm; std::vector<std::shared_ptr<ExtendedModel<Img>>> em; std::vector<Par> cv, px, py, pf, ex, ey, ef; int nc = int(c.s.range(0, 2)), np = nul ? 0 : int(c.s.range(0, 3)), ne = int(c.s.range(0, 2)); c.note() << W << "x" << H << " pixel " << pix << " psf pixel " << pps << " kernel " << n << " constants " << nc << " points " << np << " extended " << ne;
  std::vector<std::shared_ptr<Stamp>> stamps; for (int i = 0; i < nc; ++i) { cv.push_back(par(c.s.real(-5, 5))); cm.emplace_back(cv.back()); } for (int i = 0; i < np; ++i) { px.push_back(par(c.s.real(-5, W + 5))); py.push_back(par(c.s.real(-5, H + 5))); pf.push_back(par(c.s.real(0, 50))); pm.emplace_back(px.back(), py.back(), pf.back()); }
  for (int i = 0; i < ne; ++i) { ex.push_back(par(c.s.real(-5, W + 5))); ey.push_back(par(c.s.real(-5, H + 5))); ef.push_back(par(c.s.real(0, 50))); stamps.push_back(std::make_shared<Stamp>(c.s.real(1, 12), c.s.real(1, 12), ex.back(), ey.back(), ef.back())); em.push_back(stamps.back()); }
  auto judge = [&](auto& fm) { c.eq(fm.size(), size_t(W) * H, "size"); c.nontrivial(np + ne > 0 && nc + np + ne > 1); c.label("points", np > 0); c.label("extended", ne > 0); c.label("without a PSF", nul);
  for (int round = 0; round < 2; ++round) {
    if (round) { for (auto* v : {&px, &py, &ex, &ey}) for (auto& p : *v) if (c.s.coin()) p->setValue(p->getValue() + c.s.real(-2, 2)); for (auto* v : {&cv, &pf, &ef}) for (auto& p : *v) if (c.s.coin()) p->setValue(p->getValue() + c.s.real(0, 3)); }
    Ref want(W, H); std::vector<char> unsure(size_t(W) * H, 0); double scale = 1; for (auto& p : cv) { for (auto& v : want.d) v += p->getValue(); scale += std::fabs(p->getValue()); }
    auto add = [&](const Ref& src, double x, double y, double f) { scale += std::fabs(f) / sf / sf; for (int j = 0; j < H; ++j) for (int i = 0; i < W; ++i) { double u = (i + .5 - (x - src.w * sf / 2)) / sf - .5, v = (j + .5 - (y - src.h * sf / 2)) / sf - .5; bool un = false; bool in = fits(u, src.w, un) & fits(v, src.h, un); if (un) unsure[size_t(j) * W + i] = 1; if (in) want.at(i, j) += f * lanczos(src, u, v) / (sf * sf); } };
    for (int i = 0; i < np; ++i) add(rk, px[size_t(i)]->getValue(), py[size_t(i)]->getValue(), pf[size_t(i)]->getValue());
    for (auto& st : stamps) st->asked.clear(); bool iter = c.s.coin(); std::vector<float> got; if (iter) { auto b = fm.begin(); auto e = fm.end(); got.assign(b, e); } else { Img im = fm.getImage(); got = im->getData(); }
    for (auto& st : stamps) { c.eq(st->asked.size(), size_t(1), "rasterisations of an extended model"); auto a = st->asked[0]; c.close(st->askedScale, pps, 1e-12, 0, "scale at which an extended model is rasterised"); c.check(a.first % 2 == 1 && a.second % 2 == 1, "an even raster size is asked for"); double mw = st->getWidth() / pps + n, mh = st->getHeight() / pps + n; c.check(a.first >= mw && a.first < mw + 2 && a.second >= mh && a.second < mh + 2, "raster size"); 
      Ref e(int(a.first), int(a.second)); // an impulse convolved with the kernel is the kernel, up to reflections at the border which stay outside when the model is as large as this
      int cx = e.w / 2, cy = e.h / 2; for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { int x = cx + i - n / 2, y = cy + j - n / 2; if (x >= 0 && y >= 0 && x < e.w && y < e.h) e.at(x, y) += rk.get(i, j); } size_t k = size_t(&st - &stamps[0]); add(e, ex[k]->getValue(), ey[k]->getValue(), ef[k]->getValue()); }
    c.eq(got.size(), want.d.size(), "number of pixels"); for (size_t i = 0; i < got.size(); ++i) if (!unsure[i]) c.close(got[i], want.d[i], 1e-4, 2e-4 * scale, "pixel " + std::to_string(i % size_t(W)) + "," + std::to_string(i / size_t(W)));
    if (round) { Img base = make<Img>(W, H); for (int j = 0; j < H; ++j) for (int i = 0; i < W; ++i) base->setValue(i, j, float(i - 2 * j)); fm.rasterToImage(base); for (int j = 0; j < H; ++j) for (int i = 0; i < W; ++i) c.close(base->getValue(i, j), got[size_t(j) * W + i] + i - 2 * j, 1e-5, 2e-4 * scale + 1e-4, "the model is added to what the image holds"); }
  }
  c.eq(DataVsModelInputTraits<Img>::size(fm.getImage()), size_t(W) * H, "number of elements compared with data"); };
  if (nul) { FrameModel<NullPsf<Img>, Img> fm(pix, size_t(W), size_t(H), std::move(cm), std::move(pm), em); judge(fm); }
  else { FrameModel<SourceXtractor::ImagePsf, Img> fm0(pix, size_t(W), size_t(H), std::move(cm), std::move(pm), em, psf); FrameModel<SourceXtractor::ImagePsf, Img> fm(std::move(fm0)); judge(fm); }
}
PBT_MAIN({"add_image", "more than four target pixels receive interpolated values", addImage, 12000, 300000}, {"blob", "every case", blob, 1500, 30000}, {"interpolate", "the kernel fits into the image", interpolate, 60000, 1000000}, {"psf", "a resampled kernel", psfImages, 5000, 100000}, {"frame", "a point or extended model and another one", frame, 2500, 60000})
