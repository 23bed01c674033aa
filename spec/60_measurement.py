P("P22", "Measured properties of a source equal their definitions on the frame's pixels",
  "The properties of a detected source are those of its pixels in the background-subtracted and filtered detection frame: pixel values and variances in list order, boundaries, half-maximum box, peak, centroid, moments with axes, position angle and quadratic-form coefficients, positional error ellipse, isophotal flux with variance from the gain, magnitude, signal-to-noise, Kron radius over its aperture without bad and neighbouring pixels. Stamps hold the source with a margin and equal the frame. Projections to a measurement frame (centroid, Jacobian, rectangle of source and group) follow both coordinate systems, hold the whole projected source within the frame, are empty when it lies outside and marked when it cannot be projected; flags follow.",
  ["inputs"], "frames of up to 40x40 pixels with background map, filter, variance patterns with bad pixels, gain and saturation; components, patches, lines and scatters of up to 1600 pixels in any order, of any sign; up to 3 measurement frames with any affine coordinates, some without projection; groups of up to 5 sources",
  "The existing tests compute a few of these properties for one or two hand-made sources.",
  ["SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp", "SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp", "SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp", "SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h", "SEImplementation/src/lib/Plugin/IsophotalFlux/IsophotalFluxTask.cpp", "SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp", "SEImplementation/src/lib/Plugin/KronRadius/KronRadiusTask.cpp", "SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp", "SEImplementation/src/lib/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStampTask.cpp", "SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTask.cpp", "SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTask.cpp", "SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.cpp", "SEImplementation/src/lib/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangleTask.cpp", "SEImplementation/src/lib/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroidTask.cpp", "SEImplementation/src/lib/Plugin/MeasurementFrameInfo/MeasurementFrameInfoTask.cpp", "SEImplementation/src/lib/Plugin/MeasurementFrame/MeasurementFrameTask.cpp", "SEImplementation/src/lib/Plugin/WorldCentroid/WorldCentroidTask.cpp", "SEImplementation/src/lib/Plugin/ReferenceCoordinates/ReferenceCoordinatesTask.cpp", "SEImplementation/src/lib/Plugin/Jacobian/JacobianTask.cpp", "SEImplementation/SEImplementation/Plugin/SaturateFlag/SaturateFlagSourceTask.h", "SEImplementation/SEImplementation/Plugin/BoundaryFlag/BoundaryFlagSourceTask.h", "SEImplementation/src/lib/Plugin/SourceFlags/SourceFlagsSourceTask.cpp", "SEImplementation/src/lib/Plugin/GroupInfo/GroupInfoTask.cpp", "SEFramework/src/lib/Aperture/NeighbourInfo.cpp", "SEFramework/src/lib/Aperture/EllipticalAperture.cpp"],
  [("moments and shape", "SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp"), ("Kron radius", "SEImplementation/src/lib/Plugin/KronRadius/KronRadiusTask.cpp"), ("projection of a source's box", "SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.cpp"), ("flags", "SEImplementation/src/lib/Plugin/SourceFlags/SourceFlagsSourceTask.cpp")],
  """Everything is computed again in double precision from the pixels of the frame's layers (which P15 and P23 decide); tolerances grow with the number of float additions.
Cases within rounding of a decision (singular shape, edge of the Kron aperture, thresholds of flags) are not judged. The rectangle may be up to two pixels larger than
the projection. The Kron radius reports crowding in the same bit as bad pixels, which is accepted. Found and fixed: angle of the error ellipse, angle of shapes along
the falling diagonal, no peak without positive pixels.""",
  observe=["property values read through the task registry"])

P("P23", "Every layer of a frame is what its present settings define",
  "Whatever the order in which a frame's variance map, variance threshold, background level, filter and detection threshold are set, and whatever was read in between, each layer equals its definition on the present settings: a pixel whose variance reaches the threshold takes the nearest good value to the left or, at the same distance, below it, no further than the interpolation gap; subtracted = interpolated - background; filtered = filter of subtracted with the interpolated variance and the threshold; the filtered variance is never negative; thresholded = filtered - threshold * sqrt(variance); signal to noise = filtered / sqrt(variance). A variance threshold of the largest number, which stands for no threshold, stays.",
  ["inputs", "histories"], "histories of up to 25 settings and reads over frames of up to 24x24 pixels, variance maps with up to 90% bad pixels in runs, gaps up to 8, filters which use variance and threshold, tiles of 1x1 to 256x256, reads of parts of a layer",
  "The existing test sets a background and a variance once.",
  ["SEFramework/src/lib/Frame/Frame.cpp", "SEFramework/SEFramework/Frame/Frame.h", "SEFramework/SEFramework/Image/InterpolatedImageSource.h", "SEFramework/SEFramework/Image/ThresholdedImage.h"],
  [("settings and caches", "SEFramework/src/lib/Frame/Frame.cpp"), ("interpolation over bad pixels", "SEFramework/SEFramework/Image/InterpolatedImageSource.h")],
  """A model keeps the settings and recomputes the layer that is read. The detection threshold map is taken from the variance map before interpolation and filtering, while
detection uses it after both; it is only claimed where the two agree.""",
  observe=["pixels of the layers", "metadata of the frame"])

P("P24", "Tiled images show what was last written and store it, whatever is evicted",
  "An image kept in tiles shows, for any sequence or interleaving of reads, writes, evictions, saves and cache resets, at every pixel the value last written or, if none, that of its source; after saving, and after everything is closed, the source holds exactly those values, and images nobody wrote are never saved. Tiles stay inside of the image, a tile is not read a second time while the first copy is in use, tiles that fit in memory together are kept, and the memory of cached tiles never exceeds the limit by more than the tiles in use.",
  ["inputs", "histories", "schedules"], "histories of up to 26 operations on up to 3 images of the five pixel types, up to 520x520 pixels, tiles of 1x1 to 200x200, memory limits that hold none, some or all of them, tiles held by others; up to 3 writers and 3 readers at once with thread and address sanitizers",
  "The existing test reads each pixel of one small image once.",
  ["SEFramework/src/lib/Image/TileManager.cpp", "SEFramework/src/lib/Image/BufferedImage.cpp", "SEFramework/src/lib/Image/ImageTile.cpp", "SEFramework/SEFramework/Image/WriteableBufferedImage.h", "SEFramework/SEFramework/Image/ImageTile.h"],
  [("cache, eviction, locks", "SEFramework/src/lib/Image/TileManager.cpp"), ("chunks over several tiles", "SEFramework/src/lib/Image/BufferedImage.cpp"), ("writes", "SEFramework/SEFramework/Image/WriteableBufferedImage.h")],
  """Images over sources in memory, with a model array per image; a ledger of weak pointers to every tile a source hands out measures what is alive. Writers are closed
before the cache is reset, as the documentation of setOptions demands. Found and fixed: a tile evicted while a writer still held it received further writes that readers did
not see and that later saves could undo.""",
  observe=["chunks", "tiles saved to the source", "tiles requested from the source"])

P("P25", "Photometry of a source equals its definition in every measurement frame",
  "For any source, detection frame and measurement frames in their own affine coordinates, the fluxes of circular and Kron apertures are those of the aperture carried into the frame by the Jacobian at the source's position there, with their errors (variance plus flux over gain), magnitudes, magnitude errors and flags (of the aperture in both images, saturation, blending); growth curves are the flux within concentric circles, resampled curves and flux radii their interpolation and inversion; vignets show exactly the unmasked pixels around the source that belong to it or to no source; external flags combine the source's pixels as documented; arrays over images and check images agree with the single values.",
  ["inputs"], "detection and measurement frames up to 40x40, 1 to 3 frames per case with independent affine coordinates, bad pixels, gains, saturation levels; 1 to 4 apertures per frame, radii 0.25 to 40; components, patches, lines and scattered pixels as sources",
  "No test of these tasks exists, and their measurements involve two frames with unrelated coordinates.",
  ["SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp", "SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryArrayTask.cpp", "SEImplementation/src/lib/Plugin/AperturePhotometry/ApertureFlagTask.cpp", "SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryTask.cpp", "SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryFlagTask.cpp", "SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp", "SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveResampledTask.cpp", "SEImplementation/src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp", "SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp", "SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp"],
  [("aperture photometry", "SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp"), ("Kron aperture", "SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryTask.cpp"), ("growth curve", "SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp"), ("vignets", "SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp")],
  """Real tasks over a source with a stub of the check images (kept in memory and compared too). measureFlux and computeFlags, decided by P05, serve as the oracle of the
aperture itself; growth curves are recomputed by brute force over all pixels, with intervals where the mirror pixel is ambiguous by rounding. Found and fixed: NaN flux radii,
the combination "most" returning zero, vignets reading outside of the detection frame.""",
  observe=["fluxes, errors, magnitudes, flags", "curves and radii", "vignets", "external flags", "check images"])
