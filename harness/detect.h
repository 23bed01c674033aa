// Detection scenes: frames with blobs, noise and variance; sources with the tasks of the detection plugins
#pragma once
#include "pbt.h"
#include <cassert>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <numeric>
#include <thread>
#include <tuple>
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Property/DetectionFrame.h"
#include "SEFramework/Source/SourceWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImages.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfoTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValues.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStamp.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.h"
#include "SEImplementation/Plugin/PeakValue/PeakValue.h"
#include "SEImplementation/Plugin/PeakValue/PeakValueTaskFactory.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroidTaskFactory.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParameters.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParametersTaskFactory.h"

namespace detect {
using namespace SourceXtractor;
using pbt::Case;
using VF = std::shared_ptr<VectorImage<SeFloat>>;
using Pixels = std::vector<std::pair<int, int>>; // x, y; sorted where sets are compared

inline uint64_t mix(uint64_t k, uint64_t i) { uint64_t z = k * 2654435761u + (i + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; z *= 0xD6E8FEB86659FD93ull; return z ^ (z >> 29); }

struct FlatCoordinates : CoordinateSystem {
  WorldCoordinate imageToWorld(ImageCoordinate i) const override { return WorldCoordinate(i.m_x, i.m_y); }
  ImageCoordinate worldToImage(WorldCoordinate w) const override { return ImageCoordinate(w.m_alpha, w.m_delta); }
};

// access to the frame of a source, whose accessor is protected
struct OpenFrame : DetectionFrame { static std::shared_ptr<DetectionImageFrame> get(const DetectionFrame& d) { return (d.*(&OpenFrame::getFrame))(); } };

inline std::shared_ptr<TaskFactoryRegistry> detectionTasks() {
  auto r = std::make_shared<TaskFactoryRegistry>();
  r->registerTaskFactory<ShapeParametersTaskFactory, ShapeParameters>();
  r->registerTaskFactory<PixelCentroidTaskFactory, PixelCentroid>();
  r->registerTaskFactory<DetectionFramePixelValuesTaskFactory, DetectionFramePixelValues>();
  r->registerTaskFactory<PeakValueTaskFactory, PeakValue>();
  r->registerTaskFactory<PixelBoundariesTaskFactory, PixelBoundaries, PixelBoundariesHalfMaximum>();
  r->registerTaskFactory<DetectionFrameImagesTaskFactory, DetectionFrameImages>();
  r->registerTaskFactory<DetectionFrameInfoTaskFactory, DetectionFrameInfo>();
  r->registerTaskFactory<DetectionFrameSourceStampTaskFactory, DetectionFrameSourceStamp>();
  return r;
}

inline Pixels sorted(Pixels p) { std::sort(p.begin(), p.end()); return p; }
inline Pixels pixelsOf(const std::vector<PixelCoordinate>& l) { Pixels p; for (auto& c : l) p.emplace_back(c.m_x, c.m_y); return p; }
inline Pixels pixelsOf(const SourceInterface& s) { return pixelsOf(s.getProperty<PixelCoordinateList>().getCoordinateList()); }

// 8-connected components of the pixels for which inside(x, y) holds, by flood fill; every component is sorted
inline std::vector<Pixels> components(int w, int h, const std::function<bool(int, int)>& inside) {
  std::vector<char> todo(size_t(w) * h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) todo[size_t(y) * w + x] = inside(x, y);
  std::vector<Pixels> all;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (todo[size_t(y) * w + x]) {
    Pixels comp{{x, y}}; todo[size_t(y) * w + x] = 0;
    for (size_t i = 0; i < comp.size(); ++i) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int u = comp[i].first + dx, v = comp[i].second + dy; if (u >= 0 && v >= 0 && u < w && v < h && todo[size_t(v) * w + u]) { todo[size_t(v) * w + u] = 0; comp.emplace_back(u, v); } }
    all.push_back(sorted(comp)); }
  return all;
}

// An image of blobs on noise; always positive when noise < 0
inline VF blobs(Case& c, int w, int h, int maxBlobs, double noise) {
  int n = int(c.s.range(0, maxBlobs)); uint64_t key = c.s.draw(1 << 20); auto img = VectorImage<SeFloat>::create(w, h); std::vector<double> d(size_t(w) * h);
  for (int i = 0; i < w * h; ++i) d[i] = std::fabs(noise) * (double(mix(key, i) % 2001) / 1000 - (noise < 0 ? 0 : 1));
  c.note() << w << "x" << h << " noise " << noise << " key " << key << " blobs";
  for (int b = 0; b < n; ++b) { double x = c.s.uniform(-1, w), y = c.s.uniform(-1, h), f = c.s.logreal(1, 300), s = c.s.logreal(0.5, 6), q = c.s.uniform(0.3, 1), t = c.s.uniform(0, 3.14159); c.note() << " (" << x << "," << y << " " << f << " " << s << " " << q << ")";
    for (int v = 0; v < h; ++v) for (int u = 0; u < w; ++u) { double dx = u - x, dy = v - y, a = dx * std::cos(t) + dy * std::sin(t), e = -dx * std::sin(t) + dy * std::cos(t); d[size_t(v) * w + u] += f * std::exp(-(a * a + e * e / q / q) / 2 / s / s); } }
  for (int v = 0; v < h; ++v) for (int u = 0; u < w; ++u) img->setValue(u, v, SeFloat(d[size_t(v) * w + u]));
  c.note() << " "; return img;
}
}
