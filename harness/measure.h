// Sources and groups with the tasks of the measurement plugins, over a detection frame and measurement frames with
// affine coordinate systems
#pragma once
#include "detect.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SourceGroupWithOnDemandProperties.h"
#include "SEFramework/Source/SourceFlags.h"
#include "SEImplementation/Plugin/BlendedFlag/BlendedFlag.h"
#include "SEImplementation/Plugin/BlendedFlag/BlendedFlagTask.h"
#include "SEImplementation/Plugin/BoundaryFlag/BoundaryFlag.h"
#include "SEImplementation/Plugin/BoundaryFlag/BoundaryFlagSourceTask.h"
#include "SEImplementation/Plugin/DetectionFrameCoordinates/DetectionFrameCoordinates.h"
#include "SEImplementation/Plugin/DetectionFrameCoordinates/DetectionFrameCoordinatesTask.h"
#include "SEImplementation/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStamp.h"
#include "SEImplementation/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStampTask.h"
#include "SEImplementation/Plugin/ErrorEllipse/ErrorEllipse.h"
#include "SEImplementation/Plugin/ErrorEllipse/ErrorEllipseTask.h"
#include "SEImplementation/Plugin/GroupInfo/GroupInfo.h"
#include "SEImplementation/Plugin/GroupInfo/GroupInfoTask.h"
#include "SEImplementation/Plugin/HduNumber/HduNumber.h"
#include "SEImplementation/Plugin/HduNumber/HduNumberTask.h"
#include "SEImplementation/Plugin/IsophotalFlux/IsophotalFlux.h"
#include "SEImplementation/Plugin/IsophotalFlux/IsophotalFluxTask.h"
#include "SEImplementation/Plugin/Jacobian/Jacobian.h"
#include "SEImplementation/Plugin/Jacobian/JacobianTask.h"
#include "SEImplementation/Plugin/KronRadius/KronRadius.h"
#include "SEImplementation/Plugin/KronRadius/KronRadiusTask.h"
#include "SEImplementation/Plugin/MeasurementFrame/MeasurementFrame.h"
#include "SEImplementation/Plugin/MeasurementFrame/MeasurementFrameTask.h"
#include "SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinates.h"
#include "SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinatesTask.h"
#include "SEImplementation/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangle.h"
#include "SEImplementation/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangleTask.h"
#include "SEImplementation/Plugin/MeasurementFrameImages/MeasurementFrameImages.h"
#include "SEImplementation/Plugin/MeasurementFrameImages/MeasurementFrameImagesTask.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfo.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfoTask.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroid.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroidTask.h"
#include "SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangle.h"
#include "SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.h"
#include "SEImplementation/Plugin/NDetectedPixels/NDetectedPixels.h"
#include "SEImplementation/Plugin/NDetectedPixels/NDetectedPixelsSourceTask.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinates.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinatesTask.h"
#include "SEImplementation/Plugin/SNRRatio/SNRRatio.h"
#include "SEImplementation/Plugin/SNRRatio/SNRRatioSourceTask.h"
#include "SEImplementation/Plugin/SaturateFlag/SaturateFlag.h"
#include "SEImplementation/Plugin/SaturateFlag/SaturateFlagSourceTask.h"
#include "SEImplementation/Plugin/SourceFlags/SourceFlags.h"
#include "SEImplementation/Plugin/SourceFlags/SourceFlagsSourceTask.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEImplementation/Plugin/SourceIDs/SourceIDTask.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroid.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroidTask.h"

namespace detect {

// world = m (x, y) + t; the other way with the inverse. World coordinates with a first component beyond the limit cannot
// be projected, as those on the far side of the sphere.
struct Affine : CoordinateSystem {
  double a = 1, b = 0, c = 0, d = 1, tx = 0, ty = 0, limit = 1e300;
  WorldCoordinate imageToWorld(ImageCoordinate i) const override { return WorldCoordinate(a * i.m_x + b * i.m_y + tx, c * i.m_x + d * i.m_y + ty); }
  ImageCoordinate worldToImage(WorldCoordinate w) const override { if (w.m_alpha > limit) throw InvalidCoordinatesException(); double u = w.m_alpha - tx, v = w.m_delta - ty, D = a * d - b * c; return ImageCoordinate((d * u - b * v) / D, (a * v - c * u) / D); }
};
inline std::shared_ptr<Affine> affine(Case& c, double size) {
  auto s = std::make_shared<Affine>(); double q = c.s.logreal(0.5, 2), r = c.s.coin() ? q : c.s.logreal(0.5, 2), t = c.s.coin() ? 0 : c.s.uniform(0, 6.2832), sign = c.s.coin(30) ? -1 : 1;
  s->a = q * std::cos(t); s->b = -r * std::sin(t) * sign; s->c = q * std::sin(t); s->d = r * std::cos(t) * sign; s->tx = c.s.uniform(-size, size); s->ty = c.s.uniform(-size, size);
  c.note() << " coordinates " << s->a << " " << s->b << " " << s->c << " " << s->d << " + " << s->tx << " " << s->ty; return s;
}

// What the tasks below are configured with
struct Setup { std::vector<std::shared_ptr<MeasurementImageFrame>> frames; std::shared_ptr<CoordinateSystem> reference; float zero_point = 0; std::map<std::string, std::vector<unsigned>> groups; };
inline Setup& setup() { static Setup s; return s; }

template <typename P> bool is(const PropertyId& id) { return id.getTypeId() == PropertyId::create<P>().getTypeId(); }
struct MeasurementTasks : TaskFactory {
  std::shared_ptr<Task> createTask(const PropertyId& id) const override {
    unsigned i = id.getIndex(); auto& s = setup();
    if (is<MeasurementFrame>(id)) { if (i < s.frames.size() && s.frames[i]) return std::make_shared<MeasurementFrameTask>(i, s.frames[i]); return std::make_shared<DefaultMeasurementFrameTask>(i); }
    if (is<MeasurementFrameInfo>(id)) return std::make_shared<MeasurementFrameInfoTask>(i);
    if (is<MeasurementFrameImages>(id)) return std::make_shared<MeasurementFrameImagesTask>(i);
    if (is<MeasurementFrameCoordinates>(id)) return std::make_shared<MeasurementFrameCoordinatesTask>(i);
    if (is<MeasurementFrameRectangle>(id)) return std::make_shared<MeasurementFrameRectangleTask>(i);
    if (is<MeasurementFrameGroupRectangle>(id)) return std::make_shared<MeasurementFrameGroupRectangleTask>(i);
    if (is<MeasurementFramePixelCentroid>(id)) return std::make_shared<MeasurementFramePixelCentroidTask>(i);
    if (is<JacobianSource>(id)) return std::make_shared<JacobianSourceTask>(i);
    if (is<JacobianGroup>(id)) return std::make_shared<JacobianGroupTask>(i);
    if (is<BoundaryFlag>(id)) return std::make_shared<BoundaryFlagSourceTask>(i);
    if (is<SaturateFlag>(id)) return std::make_shared<SaturateFlagSourceTask>(i);
    if (is<SourceFlags>(id)) return std::make_shared<SourceFlagsSourceTask>(s.groups);
    if (is<ReferenceCoordinates>(id)) return std::make_shared<ReferenceCoordinatesTask>(i, s.reference);
    if (is<WorldCentroid>(id)) return std::make_shared<WorldCentroidTask>();
    if (is<DetectionFrameCoordinates>(id)) return std::make_shared<DetectionFrameCoordinatesTask>();
    if (is<DetectionFrameGroupStamp>(id)) return std::make_shared<DetectionFrameGroupStampTask>();
    if (is<GroupInfo>(id)) return std::make_shared<GroupInfoTask>();
    if (is<HduNumber>(id)) return std::make_shared<HduNumberTask>();
    if (is<BlendedFlag>(id)) return std::make_shared<BlendedFlagTask>();
    if (is<SourceID>(id)) return std::make_shared<SourceIDTask>();
    if (is<IsophotalFlux>(id)) return std::make_shared<IsophotalFluxTask>(s.zero_point);
    if (is<SNRRatio>(id)) return std::make_shared<SNRRatioSourceTask>();
    if (is<NDetectedPixels>(id)) return std::make_shared<NDetectedPixelsSourceTask>();
    if (is<ErrorEllipse>(id)) return std::make_shared<ErrorEllipseTask>();
    if (is<KronRadius>(id)) return std::make_shared<KronRadiusTask>();
    return nullptr;
  }
};
inline std::shared_ptr<TaskFactoryRegistry> allTasks() {
  auto r = detectionTasks();
  r->registerTaskFactory<MeasurementTasks, MeasurementFrame, MeasurementFrameInfo, MeasurementFrameImages, MeasurementFrameCoordinates, MeasurementFrameRectangle, MeasurementFrameGroupRectangle, MeasurementFramePixelCentroid, JacobianSource, JacobianGroup, BoundaryFlag, SaturateFlag, SourceFlags, ReferenceCoordinates, WorldCentroid, DetectionFrameCoordinates, DetectionFrameGroupStamp, GroupInfo, HduNumber, BlendedFlag, SourceID, IsophotalFlux, SNRRatio, NDetectedPixels, ErrorEllipse, KronRadius>();
  return r;
}
}
