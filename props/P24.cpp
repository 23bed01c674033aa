// Images kept in tiles: whatever the history of reads, writes, evictions and saves, every chunk shows the values last written and the source receives them.
// SRCS: SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp
// SAN: address thread
// SCALE: 1.5
#include "pbt.h"
#include <cassert>
#include <memory>
#include <mutex>
#include <thread>
#include <deque>
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/WriteableBufferedImage.h"
using namespace pbt;
using namespace SourceXtractor;
static uint64_t mix(uint64_t k, uint64_t i) { uint64_t z = k * 2654435761u + (i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; return z ^ (z >> 29); }
// The memory a pixel was last saved to, with a record of every tile handed out
struct Ledger { std::mutex m; struct Out { std::weak_ptr<ImageTile> tile; long bytes; }; std::deque<Out> out; long generated = 0, saved = 0; int outside = 0;
  long live(const std::vector<std::shared_ptr<ImageTile>>& held) { std::lock_guard<std::mutex> g(m); long b = 0; for (auto& o : out) if (auto t = o.tile.lock()) { bool mine = false; for (auto& h : held) mine |= h == t; if (!mine) b += o.bytes; } return b; } };
template <typename T> struct MemorySource : ImageSource, std::enable_shared_from_this<MemorySource<T>> {
  int w, h; std::vector<T> data; std::vector<unsigned char> gone; mutable Ledger* led; mutable std::string complaint; mutable std::map<std::pair<int, int>, std::weak_ptr<ImageTile>> given; bool writable;
  MemorySource(int w_, int h_, uint64_t key, Ledger* l, bool wr) : w(w_), h(h_), data(size_t(w_) * h_), led(l), writable(wr) { for (size_t i = 0; i < data.size(); ++i) data[i] = T(mix(key, i) % 100003); }
  std::string getRepr() const override { return "memory"; } ImageTile::ImageType getType() const override { return ImageTile::getTypeValue(T()); } int getWidth() const override { return w; } int getHeight() const override { return h; } 
  void saveTile(ImageTile& t) override { std::lock_guard<std::mutex> g(led->m); ++led->saved; if (!writable) complaint = "a tile of an image nobody wrote was saved"; if (t.getPosX() < 0 || t.getPosY() < 0 || t.getPosX() + t.getWidth() > w || t.getPosY() + t.getHeight() > h) { complaint = "a tile reaching outside of the image was saved"; return; } for (int y = 0; y < t.getHeight(); ++y) for (int x = 0; x < t.getWidth(); ++x) data[size_t(t.getPosY() + y) * w + t.getPosX() + x] = t.getValue<T>(t.getPosX() + x, t.getPosY() + y); }
  std::shared_ptr<ImageTile> getImageTile(int x, int y, int tw, int th) const override {
    auto self = std::const_pointer_cast<MemorySource<T>>(this->shared_from_this()); auto t = ImageTile::create(ImageTile::getTypeValue(T()), x, y, tw, th, std::static_pointer_cast<ImageSource>(self)); std::lock_guard<std::mutex> g(led->m); ++led->generated;
    if (x < 0 || y < 0 || tw <= 0 || th <= 0 || x + tw > w || y + th > h) { complaint = "a tile outside of the image was requested: " + std::to_string(x) + "," + std::to_string(y) + " " + std::to_string(tw) + "x" + std::to_string(th); return t; }
    if (!given[{x, y}].expired()) complaint = "tile " + std::to_string(x) + "," + std::to_string(y) + " was read again while the first one is in use"; given[{x, y}] = t; led->out.push_back({t, long(tw) * th * long(sizeof(T))}); for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) t->setValue(x + i, y + j, data[size_t(y + j) * w + x + i]); return t; } };
struct Slot { virtual ~Slot() = default; virtual int w() const = 0; virtual int h() const = 0; virtual void write(int x, int y, int v) = 0; virtual void read(Case& c, int x, int y, int w, int h, const std::string&) = 0; virtual void stored(Case& c, const std::string&) = 0; virtual void close() = 0; virtual void open(std::shared_ptr<TileManager>) = 0; virtual bool writable() const = 0; virtual std::shared_ptr<ImageTile> tile(TileManager&, int x, int y) = 0; virtual std::string complaint() = 0; virtual long bytes() const = 0; };
template <typename T> struct SlotOf : Slot { std::shared_ptr<MemorySource<T>> src; std::vector<T> model; std::shared_ptr<BufferedImage<T>> img; std::shared_ptr<WriteableBufferedImage<T>> wr;
  SlotOf(std::shared_ptr<MemorySource<T>> s) : src(s), model(s->data) {} int w() const override { return src->w; } int h() const override { return src->h; } bool writable() const override { return src->writable; } long bytes() const override { return sizeof(T); }
  void open(std::shared_ptr<TileManager> tm) override { if (src->writable) { wr = WriteableBufferedImage<T>::create(src, tm); img = wr; } else img = BufferedImage<T>::create(src, tm); }
  void close() override { img.reset(); wr.reset(); } void write(int x, int y, int v) override { wr->setValue(x, y, T(v)); model[size_t(y) * src->w + x] = T(v); }
  void read(Case& c, int x, int y, int w, int h, const std::string& what) override { auto ch = img->getChunk(x, y, w, h); c.eq(ch->getWidth(), w, what + ": chunk width"); c.eq(ch->getHeight(), h, what + ": chunk height"); for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) { T g = ch->getValue(i, j), e = model[size_t(y + j) * src->w + x + i]; if (g != e) c.check(false, what + ": pixel " + std::to_string(x + i) + "," + std::to_string(y + j) + " reads " + std::to_string(g) + " but " + std::to_string(e) + " was last written"); } }
  void stored(Case& c, const std::string& what) override { for (size_t i = 0; i < model.size(); ++i) if (src->data[i] != model[i]) c.check(false, what + ": pixel " + std::to_string(i % src->w) + "," + std::to_string(i / src->w) + " of the stored image is " + std::to_string(src->data[i]) + " but " + std::to_string(model[i]) + " was last written"); }
  std::shared_ptr<ImageTile> tile(TileManager& tm, int x, int y) override { return tm.getTileForPixel(x, y, src); } std::string complaint() override { return src->complaint; } };
template <typename T> static std::unique_ptr<Slot> make(int w, int h, uint64_t key, Ledger* l, bool wr) { return std::make_unique<SlotOf<T>>(std::make_shared<MemorySource<T>>(w, h, key, l, wr)); }
static std::unique_ptr<Slot> make(int type, int w, int h, uint64_t key, Ledger* l, bool wr) { switch (type) { case 0: return make<float>(w, h, key, l, wr); case 1: return make<double>(w, h, key, l, wr); case 2: return make<int>(w, h, key, l, wr); case 3: return make<unsigned int>(w, h, key, l, wr); default: return make<std::int64_t>(w, h, key, l, wr); } }
// Any history of one thread
static void history(Case& c) {
  Ledger led; auto tm = std::make_shared<TileManager>(); bool small = c.s.coin(85); int mem = small ? 0 : int(c.s.range(0, 1)), tw, th; auto tiles = [&] { tw = small ? int(c.s.range(1, 16)) : int(c.s.range(60, 200)); th = c.s.coin() ? tw : small ? int(c.s.range(1, 16)) : int(c.s.range(60, 200)); }; tiles(); tm->setOptions(tw, th, mem);
  int n = int(c.s.range(1, 3)); std::vector<std::unique_ptr<Slot>> im; long biggest = 8L * tw * th, all = 0; for (int i = 0; i < n; ++i) { bool wr = i == 0 || c.s.coin(); int type = int(c.s.draw(4)), w = small ? int(c.s.range(1, 40)) : int(c.s.range(100, 520)), h = small ? int(c.s.range(1, 40)) : int(c.s.range(100, 520)); im.push_back(make(type, w, h, c.s.draw(999), &led, wr)); im.back()->open(tm); all += w * h * im.back()->bytes(); c.note() << w << "x" << h << " type " << type << (wr ? " writable; " : "; "); }
  c.note() << "tiles " << tw << "x" << th << " memory " << mem << ": "; bool emptied = false; long cells = 0; for (auto& o : im) cells += long((o->w() + tw - 1) / tw) * ((o->h() + th - 1) / th); std::vector<std::shared_ptr<ImageTile>> held; int ops = int(c.s.range(2, 26)), written = 0, readAfter = 0; std::vector<std::pair<int, int>> cur(n); bool evicting = all > mem * 1048576L; c.label(evicting ? "does not fit" : "fits");
  for (int k = 0; k < ops; ++k) { int i = int(c.s.range(0, n - 1)); Slot& s = *im[i]; std::string at = "step " + std::to_string(k) + " image " + std::to_string(i); int op = int(c.s.draw(19));
    if (op < 8 && s.writable()) { if (c.s.coin(40)) cur[i] = {int(c.s.range(0, s.w() - 1)), int(c.s.range(0, s.h() - 1))}; int m = int(c.s.range(1, 6)); c.note() << "w" << i << "(" << cur[i].first << "," << cur[i].second << ")x" << m << " "; for (int j = 0; j < m; ++j) { s.write(cur[i].first, cur[i].second, 200000 + k * 10 + j); ++written; cur[i].first = (cur[i].first + 1) % s.w(); } }
    else if (op < 13) { int x = cur[i].first, y = cur[i].second; if (c.s.coin(40)) { x = int(c.s.range(0, s.w() - 1)); y = int(c.s.range(0, s.h() - 1)); } int w = std::min(s.w() - x, int(c.s.range(1, 9))), h = std::min(s.h() - y, int(c.s.range(1, 9))); c.note() << "r" << i << "(" << x << "," << y << " " << w << "x" << h << ") "; s.read(c, x, y, w, h, at); readAfter += written > 0; }
    else if (op < 16) { c.note() << "all" << i << " "; s.read(c, 0, 0, s.w(), s.h(), at + " whole"); readAfter += written > 0; }
    else if (op == 16) { c.note() << "save "; tm->saveAllTiles(); for (auto& o : im) o->stored(c, at + " after saving all tiles"); long before = led.saved; tm->saveAllTiles(); c.eq(led.saved, before, at + ": tiles saved again without having been modified"); }
    else if (op == 17) { c.note() << "hold" << i << " "; held.push_back(s.tile(*tm, int(c.s.range(0, s.w() - 1)), int(c.s.range(0, s.h() - 1)))); if (held.size() > 2) held.erase(held.begin()); }
    else if (op == 18) { c.note() << "reopen" << i << " "; s.close(); s.open(tm); }
    else { emptied = true; c.note() << "flush "; for (auto& o : im) o->close(); held.clear(); if (c.s.coin()) { tiles(); biggest = std::max(biggest, 8L * tw * th); c.note() << "tiles " << tw << "x" << th << " "; tm->setOptions(tw, th, mem); } else tm->flush(); c.eq(led.live({}), 0L, at + ": memory still in use after the cache was emptied"); for (auto& o : im) { o->stored(c, at + " after emptying the cache"); o->open(tm); } }
    long live = led.live(held); c.check(live <= mem * 1048576L + (n + 2) * biggest, at + ": " + std::to_string(live) + " bytes of tiles are alive, far beyond the limit"); for (auto& o : im) c.check(o->complaint().empty(), at + ": " + o->complaint()); }
  if (n > 0 && mem * 1048576L >= 4 * biggest + n * biggest) { held.clear(); Slot& s = *im[0]; int x = s.w() - 1, y = s.h() - 1; for (int k = 0; k < 2; ++k) { s.read(c, 0, 0, 1, 1, "again"); s.read(c, x, y, 1, 1, "again"); } long before = led.generated; s.read(c, 0, 0, 1, 1, "again"); s.read(c, x, y, 1, 1, "again"); c.eq(led.generated, before, "two tiles that fit in memory together are read again and again"); c.label("alternating tiles"); }
  if (!evicting && !emptied) c.check(led.generated <= cells, "more tiles were read than the images have although all of them fit in memory"); c.nontrivial(written > 0 && readAfter > 0 && evicting); for (auto& o : im) { o->read(c, 0, 0, o->w(), o->h(), "at the end"); o->close(); } held.clear(); tm->saveAllTiles(); for (auto& o : im) o->stored(c, "at the end"); tm.reset(); for (auto& o : im) { o->stored(c, "after all"); c.check(o->complaint().empty(), o->complaint()); } c.eq(led.live({}), 0L, "memory still in use after all is closed"); }
// Threads: one writer per writable image writes its even rows, every thread reads odd rows and read-only images; each tile is read from its source once while it is in use
static void threads(Case& c) {
  Ledger led; auto tm = std::make_shared<TileManager>(); bool small = c.s.coin(85); int mem = small ? 0 : 1, tw = small ? int(c.s.range(2, 16)) : int(c.s.range(128, 256)), th = small ? int(c.s.range(2, 16)) : int(c.s.range(128, 256)); tm->setOptions(tw, th, mem);
  int n = int(c.s.range(1, 3)), readers = int(c.s.range(1, 3)), rounds = int(c.s.range(3, 30)); std::vector<std::unique_ptr<Slot>> im; long all = 0; for (int i = 0; i < n; ++i) { int w = small ? int(c.s.range(2, 40)) : int(c.s.range(128, 400)), h = small ? int(c.s.range(2, 40)) : int(c.s.range(128, 400)), type = int(c.s.draw(4)); im.push_back(make(type, w, h, c.s.draw(999), &led, i == 0 || c.s.coin())); im.back()->open(tm); all += w * h * im.back()->bytes(); c.note() << w << "x" << h << (im.back()->writable() ? " writable; " : "; "); }
  c.note() << "tiles " << tw << "x" << th << " memory " << mem << " readers " << readers << " rounds " << rounds; c.nontrivial(all > mem * 1048576L && readers > 1); uint64_t key = c.s.draw(1 << 20); std::mutex m; std::string bad; std::vector<std::thread> ts;
  auto guard = [&](auto f) { return [&, f] { try { f(); } catch (const std::exception& e) { std::lock_guard<std::mutex> g(m); if (bad.empty()) bad = e.what(); } }; };
  for (int i = 0; i < n; ++i) if (im[i]->writable()) ts.emplace_back(guard([&, i] { Slot& s = *im[i]; for (int r = 0; r < rounds * 4; ++r) { uint64_t z = mix(key + i, r); int y = int(z % ((s.h() + 1) / 2)) * 2, x = int((z >> 20) % s.w()); for (int j = 0; j < 4; ++j) { s.write(x, y, 200000 + r * 5 + j); if (z >> 40 & 1) std::this_thread::yield(); x = (x + 1) % s.w(); } if (z % 3 == 0) s.read(c, x, y, 1, 1, "the writer of image " + std::to_string(i) + " in round " + std::to_string(r)); } }));
  for (int t = 0; t < readers; ++t) ts.emplace_back(guard([&, t] { for (int r = 0; r < rounds * 4; ++r) { uint64_t z = mix(key + 77 + t, r); int i = int(z % n); Slot& s = *im[i]; int x = int((z >> 8) % s.w()), y = int((z >> 24) % s.h()), w = std::min(s.w() - x, 1 + int((z >> 40) % 20)), h = std::min(s.h() - y, 1 + int((z >> 50) % 20)); if (s.writable()) { y |= 1; h = 1; if (y >= s.h()) continue; } s.read(c, x, y, w, h, "reader " + std::to_string(t) + " of image " + std::to_string(i)); } }));
  for (auto& t : ts) t.join(); c.check(bad.empty(), bad); for (auto& o : im) { c.check(o->complaint().empty(), o->complaint()); o->read(c, 0, 0, o->w(), o->h(), "after the threads"); } tm->saveAllTiles(); for (auto& o : im) { o->stored(c, "after the threads"); o->close(); } }
#if defined(__SANITIZE_THREAD__)
PBT_MAIN({"threads", "the images do not fit in the memory limit and two threads or more read", threads, 600, 20000})
#else
PBT_MAIN({"history", "something was read after something was written and the images do not fit in the memory limit", history, 6000, 300000}, {"threads", "the images do not fit in the memory limit and two threads or more read", threads, 1500, 40000})
#endif
