// Image views: every composition of image adaptors equals the pixel-wise reference, for every way of reading it.
#include "pbt.h"
#include <memory>
#include <functional>
#include <mutex>
#include <cassert>
#include "SEFramework/Image/Image.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/ImageChunk.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/SubImage.h"
#include "SEFramework/Image/PaddedImage.h"
#include "SEFramework/Image/MirrorImage.h"
#include "SEFramework/Image/RecenterImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/FunctionalImage.h"
#include "SEFramework/Image/ProcessedImage.h"
#include "SEFramework/Image/ThresholdedImage.h"
#include "SEFramework/Image/MaskedImage.h"
using namespace pbt;
using namespace SourceXtractor;

template <typename T> struct Ref {
  std::shared_ptr<Image<T>> img; int w, h; std::vector<double> v, e; // reference values and their error bounds
  double at(int x, int y) const { return v[x + y * w]; } double er(int x, int y) const { return e[x + y * w]; }
};
template <typename T> static double epsOf() { return std::is_integral<T>::value ? 0 : 4 * double(std::numeric_limits<T>::epsilon()); }

template <typename T> struct Gen {
  Case& c; std::vector<std::pair<std::shared_ptr<VectorImage<T>>, std::vector<T>>> leaves; int ops = 0;
  Ref<T> make(int w, int h) { return Ref<T>{nullptr, w, h, std::vector<double>(w * h), std::vector<double>(w * h)}; }
  Ref<T> leaf(int w, int h, int lo = -9, int hi = 9) {
    Ref<T> r = make(w, h);
    if (c.s.draw(7) == 7) { T k = T(c.s.range(lo, hi)); r.img = ConstantImage<T>::create(w, h, k); std::fill(r.v.begin(), r.v.end(), double(k)); c.note() << "const" << w << "x" << h; return r; }
    std::vector<T> d(w * h); int64_t key = c.s.range(0, 1 << 20);
    // distinct neighbouring values from one choice, so that shrinking stays cheap
    for (int i = 0; i < w * h; ++i) { uint64_t z = (uint64_t(key) * 2654435761u + uint64_t(i) * 0x9E3779B97F4A7C15ull); z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; d[i] = T(int64_t(z % uint64_t(hi - lo + 1)) + lo); r.v[i] = double(d[i]); }
    auto p = c.s.coin(25) ? VectorImage<T>::create(w, h, d.begin(), d.end()) : VectorImage<T>::create(w, h, d); leaves.push_back({p, d}); r.img = p; c.note() << "vec" << w << "x" << h; return r;
  }
  Ref<T> gen(int depth) { int w = int(c.s.skewed(1, 40)), h = int(c.s.skewed(1, 40)); return gen(depth, w, h); }
  // an image of any size
  Ref<T> any(int depth) { return gen(depth); }
  // an image with the given size
  Ref<T> gen(int depth, int w, int h) {
    if (depth <= 0 || c.s.draw(9) == 0) return leaf(w, h);
    ++ops;
    switch (c.s.draw(10)) {
    case 0: { // window into a larger image
      int dx = int(c.s.skewed(0, 20)), dy = int(c.s.skewed(0, 20)), rx = int(c.s.skewed(0, 9)), ry = int(c.s.skewed(0, 9));
      c.note() << "sub(+" << dx << ",+" << dy << " "; Ref<T> a = gen(depth - 1, w + dx + rx, h + dy + ry); c.note() << ")"; c.label("sub");
      Ref<T> r = make(w, h);
      if (c.s.coin()) r.img = SubImage<T>::create(a.img, dx, dy, w, h); else r.img = SubImage<T>::create(a.img, PixelCoordinate(dx, dy), w, h);
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { r.v[x + y * w] = a.at(x + dx, y + dy); r.e[x + y * w] = a.er(x + dx, y + dy); } return r; }
    case 1: { // padding of a smaller image
      int iw = int(c.s.range(1, w)), ih = int(c.s.range(1, h)); int kind = int(c.s.draw(4));
      c.note() << "pad" << kind << "(" << w << "x" << h << " "; Ref<T> a = gen(depth - 1, iw, ih); c.note() << ")"; c.label("pad" + std::to_string(kind));
      Ref<T> r = make(w, h); int lp = (w - iw) / 2, tp = (h - ih) / 2; T def = T(c.s.range(-5, 5));
      switch (kind) {
      case 0: r.img = c.s.coin() ? PaddedImage<T>::create(a.img, w, h, def) : (def = T(0), PaddedImage<T>::create(a.img, w, h)); break;
      case 1: r.img = PaddedImage<T, ReplicateCoordinates>::create(a.img, w, h); break;
      case 2: r.img = PaddedImage<T, ReflectCoordinates>::create(a.img, w, h); break;
      case 3: r.img = PaddedImage<T, Reflect101Coordinates>::create(a.img, w, h); break;
      case 4: r.img = PaddedImage<T, WrapCoordinates>::create(a.img, w, h); break; }
      // walks outwards pixel by pixel
      auto coord = [&](int n, int v) -> int {
        if (kind == 0) return v < 0 || v >= n ? -1 : v;
        if (kind == 1) return std::min(std::max(v, 0), n - 1);
        if (kind == 4) { while (v < 0) v += n; while (v >= n) v -= n; return v; }
        if (kind == 3 && n == 1) return 0;
        while (v < 0 || v >= n) { if (v < 0) v = kind == 2 ? -1 - v : -v; else v = kind == 2 ? 2 * n - 1 - v : 2 * n - 2 - v; } return v; };
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int sx = coord(iw, x - lp), sy = coord(ih, y - tp); bool out = sx < 0 || sy < 0; r.v[x + y * w] = out ? double(def) : a.at(sx, sy); r.e[x + y * w] = out ? 0 : a.er(sx, sy); }
      return r; }
    case 2: { c.note() << "mirror("; Ref<T> a = gen(depth - 1, w, h); c.note() << ")"; c.label("mirror"); Ref<T> r = make(w, h); r.img = MirrorImage<T>::create(a.img);
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { r.v[x + y * w] = a.at(w - 1 - x, h - 1 - y); r.e[x + y * w] = a.er(w - 1 - x, h - 1 - y); } return r; }
    case 3: { int cx = int(c.s.range(0, w)), cy = int(c.s.range(0, h)); c.note() << "recenter(" << cx << "," << cy << " "; Ref<T> a = gen(depth - 1, w, h); c.note() << ")"; c.label("recenter"); Ref<T> r = make(w, h); r.img = RecenterImage<T>::create(a.img, PixelCoordinate(cx, cy));
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int sx = x + cx, sy = y + cy; while (sx >= w) sx -= w; while (sy >= h) sy -= h; r.v[x + y * w] = a.at(sx, sy); r.e[x + y * w] = a.er(sx, sy); } return r; }
    case 4: { int k = int(c.s.range(-3, 3)); c.note() << "func("; Ref<T> a = gen(depth - 1, w, h); c.note() << ")"; c.label("functional"); Ref<T> r = make(w, h);
      r.img = FunctionalImage<T>::create(a.img, [k](int x, int y, T v) -> T { return T(v + k * x - 2 * y); });
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double q = a.at(x, y) + k * x - 2 * y; r.v[x + y * w] = q; r.e[x + y * w] = a.er(x, y) + epsOf<T>() * (std::fabs(q) + std::fabs(a.at(x, y))); } return r; }
    case 5: case 6: { bool mul = c.s.draw(2) == 2; c.note() << (mul ? "mul(" : "minus("); Ref<T> a = gen(depth - 1, w, h); c.note() << ","; bool by_value = c.s.draw(3) == 3; Ref<T> r = make(w, h);
      double mx = 0; for (auto q : a.v) mx = std::max(mx, std::fabs(q)); if (mx > 3000) mul = false;
      if (by_value) { T k = T(c.s.range(-4, 4)); c.note() << double(k) << ")"; c.label("binary with value");
        if (mul) r.img = MultiplyImage<T>::create(a.img, k); else r.img = SubtractImage<T>::create(a.img, k);
        for (int i = 0; i < w * h; ++i) { r.v[i] = mul ? a.v[i] * double(k) : a.v[i] - double(k); r.e[i] = a.e[i] * std::max(1.0, std::fabs(double(k))) + epsOf<T>() * std::fabs(r.v[i]); } return r; }
      Ref<T> b = gen(depth - 1, w, h); c.note() << ")"; c.label("binary");
      double mb = 0; for (auto q : b.v) mb = std::max(mb, std::fabs(q)); if (mb > 300) mul = false;
      if (mul) r.img = MultiplyImage<T>::create(a.img, b.img); else r.img = SubtractImage<T>::create(a.img, b.img);
      for (int i = 0; i < w * h; ++i) { r.v[i] = mul ? a.v[i] * b.v[i] : a.v[i] - b.v[i]; r.e[i] = (mul ? std::fabs(a.v[i]) * b.e[i] + std::fabs(b.v[i]) * a.e[i] + a.e[i] * b.e[i] : a.e[i] + b.e[i]) + epsOf<T>() * std::fabs(r.v[i]); } return r; }
    case 7: { if (std::is_integral<T>::value) return leaf(w, h);
      bool snr = c.s.coin(); c.note() << (snr ? "snr(" : "thresholded("); Ref<T> a = gen(depth - 1, w, h); c.note() << ","; Ref<T> b = leaf(w, h, 1, 16); c.note() << ")"; c.label(snr ? "snr" : "thresholded"); Ref<T> r = make(w, h); T m = T(c.s.range(-12, 12)) / 4;
      if (snr) r.img = SnrImage<T>::create(a.img, b.img); else r.img = ThresholdedImage<T>::create(a.img, b.img, m);
      for (int i = 0; i < w * h; ++i) { double sd = std::sqrt(b.v[i]); r.v[i] = snr ? a.v[i] / sd : a.v[i] - sd * double(m); r.e[i] = a.e[i] + epsOf<T>() * (std::fabs(a.v[i]) + 2 * sd * std::fabs(double(m)) + std::fabs(r.v[i])); } return r; }
    case 8: { c.note() << "masked("; Ref<T> a = gen(depth - 1, w, h); std::vector<int> m(w * h); int64_t key = c.s.range(0, 1 << 20); for (int i = 0; i < w * h; ++i) m[i] = int(((uint64_t(key) + 77) * (i + 13) * 0x9E3779B97F4A7C15ull) >> 61); // 0..7
      int flag = int(c.s.range(1, 6)); T rep = T(c.s.range(-20, 20)); auto mi = VectorImage<int>::create(w, h, m); c.note() << " mask" << key << " flag" << flag << ")"; Ref<T> r = a; bool band = c.s.coin(); c.label(band ? "masked and" : "masked greater_equal");
      if (band) r.img = MaskedImage<T, int>::create(a.img, mi, rep, flag); else r.img = MaskedImage<T, int, std::greater_equal>::create(a.img, mi, rep, flag);
      for (int i = 0; i < w * h; ++i) if (band ? (m[i] & flag) : (m[i] >= flag)) { r.v[i] = double(rep); r.e[i] = 0; } return r; }
    case 9: { // a chunk, itself used as an image
      int dx = int(c.s.skewed(0, 6)), dy = int(c.s.skewed(0, 6)); c.note() << "chunk("; Ref<T> a = gen(depth - 1, w + dx, h + dy); c.note() << ")"; c.label("chunk of"); Ref<T> r = make(w, h);
      auto ch = c.s.coin() ? a.img->getChunk(dx, dy, w, h) : a.img->getChunk(PixelCoordinate(dx, dy), PixelCoordinate(dx + w - 1, dy + h - 1)); r.img = ch;
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { r.v[x + y * w] = a.at(x + dx, y + dy); r.e[x + y * w] = a.er(x + dx, y + dy); } return r; }
    default: { // materialised copy; it may be written without touching the original
      c.note() << "copy("; Ref<T> a = gen(depth - 1, w, h); c.note() << ")"; c.label("copy"); auto cp = c.s.coin() ? VectorImage<T>::create(*a.img) : VectorImage<T>::create(std::shared_ptr<const Image<T>>(a.img)); Ref<T> r = a;
      if (c.s.coin()) { int n = int(c.s.range(1, 4)); for (int i = 0; i < n; ++i) { int x = int(c.s.range(0, w - 1)), y = int(c.s.range(0, h - 1)); cp->setValue(x, y, T(7 + i)); r.v[x + y * w] = 7 + i; r.e[x + y * w] = 0; } }
      r.img = cp; return r; }
    }
  }
};

template <typename T> static void verify(Case& c, const Ref<T>& r, const std::string& what, int x, int y, T got) {
  double e = r.at(x, y), tol = r.er(x, y) + epsOf<T>() * std::fabs(e);
  if (!(std::fabs(double(got) - e) <= tol)) { std::ostringstream o; o << std::setprecision(10) << what << " at (" << x << "," << y << ") of " << r.w << "x" << r.h << ": got " << double(got) << ", expected " << e; c.fail(o.str()); }
}

template <typename T> static void readAll(Case& c, const Ref<T>& r) {
  c.eq(r.img->getWidth(), r.w, "width"); c.eq(r.img->getHeight(), r.h, "height"); r.img->getRepr();
  int n = int(c.s.range(1, 5));
  for (int i = 0; i < n; ++i) {
    switch (c.s.draw(3)) {
    case 0: { auto ch = r.img->getChunk(0, 0, r.w, r.h); c.eq(ch->getWidth(), r.w, "chunk width"); for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) verify(c, r, "whole chunk", x, y, ch->getValue(x, y)); break; }
    case 1: { int x0 = int(c.s.range(0, r.w - 1)), y0 = int(c.s.range(0, r.h - 1)), w = int(c.s.range(1, r.w - x0)), h = int(c.s.range(1, r.h - y0)); c.label("partial chunk");
      auto ch = c.s.coin() ? r.img->getChunk(x0, y0, w, h) : r.img->getChunk(PixelCoordinate(x0, y0), PixelCoordinate(x0 + w - 1, y0 + h - 1));
      c.eq(ch->getWidth(), w, "chunk width"); c.eq(ch->getHeight(), h, "chunk height");
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) verify(c, r, "chunk(" + std::to_string(x0) + "," + std::to_string(y0) + ")", x0 + x, y0 + y, c.s.draw(1) == 0 ? ch->getValue(x, y) : ch->getValue(PixelCoordinate(x, y)));
      if (c.s.coin(30)) { // a chunk of the chunk
        int x1 = int(c.s.range(0, w - 1)), y1 = int(c.s.range(0, h - 1)); auto c2 = ch->getChunk(x1, y1, w - x1, h - y1); for (int y = 0; y < h - y1; ++y) for (int x = 0; x < w - x1; ++x) verify(c, r, "chunk of chunk", x0 + x1 + x, y0 + y1 + y, c2->getValue(x, y)); }
      break; }
    default: { // accessor with any hint and window, any order of reads
      auto hint = c.s.pick({ImageAccessor<T>::TOP_LEFT, ImageAccessor<T>::CENTERED, ImageAccessor<T>::BOTTOM_RIGHT}); int aw = int(c.s.skewed(1, 70)), ah = int(c.s.skewed(1, 70));
      c.label("accessor hint " + std::to_string(int(hint)));
      ImageAccessor<T> a = c.s.coin() ? ImageAccessor<T>(std::shared_ptr<const Image<T>>(r.img), hint, aw, ah) : ImageAccessor<T>(*r.img, hint, aw, ah);
      c.eq(a.getWidth(), r.w, "accessor width"); c.eq(a.getHeight(), r.h, "accessor height");
      int reads = int(c.s.range(1, 25)); int x = 0, y = 0;
      for (int k = 0; k < reads; ++k) {
        if (c.s.coin(40) || k == 0) { x = int(c.s.range(0, r.w - 1)); y = int(c.s.range(0, r.h - 1)); }
        else { x = std::min(std::max(x + int(c.s.range(-2, 2)), 0), r.w - 1); y = std::min(std::max(y + int(c.s.range(-2, 2)), 0), r.h - 1); }
        verify(c, r, "accessor read", x, y, c.s.coin() ? a.getValue(x, y) : a.getValue(PixelCoordinate(x, y))); }
      break; }
    }
  }
}

template <typename T> static void compose(Case& c) {
  Gen<T> g{c}; int depth = int(c.s.range(1, 4)); auto r = g.any(depth); auto r2 = c.s.coin(20) ? g.any(2) : r;
  c.nontrivial(g.ops >= 1 && r.w * r.h >= 4);
  c.label("composition of >=2", g.ops >= 2);
  readAll(c, r); readAll(c, r2); 
  for (auto& l : g.leaves) c.check(l.first->getData() == l.second, "reading an image changed the pixels of an image it is made from");
}
static void composeFloat(Case& c) { compose<float>(c); }
static void composeDouble(Case& c) { compose<double>(c); }
static void composeInt(Case& c) { compose<int>(c); }

// Adaptors are views: what is written to the base image shows through them, chunks taken from adaptors that compute are snapshots
static void liveView(Case& c) {
  int w = int(c.s.range(1, 12)), h = int(c.s.range(1, 12)); auto base = VectorImage<float>::create(w, h); std::vector<float> ref(w * h, 0.f);
  int dx = int(c.s.range(0, w - 1)), dy = int(c.s.range(0, h - 1)); auto sub = SubImage<float>::create(base, dx, dy, w - dx, h - dy); auto mir = MirrorImage<float>::create(base);
  auto copy = VectorImage<float>::create(static_cast<const Image<float>&>(*base)); 
  int n = int(c.s.range(1, 15)); c.nontrivial(n > 2 && w * h > 1);
  for (int i = 0; i < n; ++i) {
    int x = int(c.s.range(0, w - 1)), y = int(c.s.range(0, h - 1)); float v = float(i + 1);
    switch (c.s.draw(2)) { case 0: base->setValue(x, y, v); break; case 1: base->setValue(PixelCoordinate(x, y), v); break; default: base->at(x, y) = v; }
    ref[x + y * w] = v; c.note() << "set(" << x << "," << y << ")=" << v << " ";
    c.eq(base->getValue(x, y), v, "value just set"); c.eq(base->getValue(PixelCoordinate(x, y)), v, "value just set");
    int qx = int(c.s.range(dx, w - 1)), qy = int(c.s.range(dy, h - 1));
    c.eq(sub->getChunk(qx - dx, qy - dy, 1, 1)->getValue(0, 0), ref[qx + qy * w], "window onto a written image");
    c.eq(mir->getChunk(w - 1 - qx, h - 1 - qy, 1, 1)->getValue(0, 0), ref[qx + qy * w], "mirror of a written image");
    c.eq(copy->getValue(qx, qy), 0.f, "a copy follows its original");
  }
  if (c.s.coin(20)) { base->fillValue(3.f); std::fill(ref.begin(), ref.end(), 3.f); }
  c.check(base->getData() == ref, "contents of a written image");
}

// Padding rules on their own, for distances of several image widths
static void padding(Case& c) {
  int n = int(c.s.skewed(1, 12)), v = int(c.s.range(-60, 60)); c.nontrivial(v < 0 || v >= n); c.note() << "n=" << n << " v=" << v;
  c.eq(ReplicateCoordinates(n, v), std::min(std::max(v, 0), n - 1), "replicate");
  int q = v; while (q < 0) q += n; while (q >= n) q -= n; c.eq(WrapCoordinates(n, v), q, "wrap");
  q = v; while (q < 0 || q >= n) q = q < 0 ? -1 - q : 2 * n - 1 - q; c.eq(ReflectCoordinates(n, v), q, "reflect");
  q = v; if (n == 1) q = 0; else while (q < 0 || q >= n) q = q < 0 ? -q : 2 * n - 2 - q; c.eq(Reflect101Coordinates(n, v), q, "reflect 101");
}

PBT_MAIN({"compose_float", "the image is a composition of at least one adaptor over at least 4 pixels", composeFloat, 120000, 2500000},
         {"compose_double", "the image is a composition of at least one adaptor over at least 4 pixels", composeDouble, 40000, 800000},
         {"compose_int", "the image is a composition of at least one adaptor over at least 4 pixels", composeInt, 40000, 800000},
         {"live_view", "more than 2 writes on more than one pixel", liveView, 100000, 1500000},
         {"padding_rule", "the coordinate lies outside the image", padding, 200000, 2000000})
