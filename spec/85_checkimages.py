P("P31", "Check images hold what was written to them, each in a file of its own",
  "For every set of check images asked for: there is exactly one file per image and detection extension, measurement frame or ML plane that was drawn on or is given as a whole, named after the option with the extension number (only if there are several), the frame's label or the plane, with the size, pixel type and coordinates of the image it belongs to; what was not asked for is null and writes nothing. Every pixel is the last value written, also when several threads draw on the same images, and 0 where nothing was. Background, variance, filtered, thresholded and SNR images are those of their own frame; the residual is the frame's subtracted image minus the model drawn, whether or not the model image is kept. Segmentation, partition and group images show the detection id, source id and group id of the sources' pixels, the Moffat image the sum of the fitted models at the pixel centres.",
  ["inputs", "histories", "schedules"], "1 to 3 detection images of up to 24x24 pixels, up to 4 measurement images, layers of cubes; any subset of 18 check images with drawn names; up to 14 drawings; tiles of 3 to 256 pixels; up to 4 threads, also under ThreadSanitizer",
  "No test covers check images: they are not part of the build here.",
  ["SEImplementation/src/lib/CheckImages/%s.cpp" % n for n in "CheckImages DetectionIdCheckImage SourceIdCheckImage GroupIdCheckImage MoffatCheckImage".split()] + ["SEImplementation/SEImplementation/CheckImages/CheckImages.h", "SEImplementation/SEImplementation/Image/LockedWriteableImage.h", "SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp"],
  [("files", "SEImplementation/src/lib/CheckImages/CheckImages.cpp"), ("exclusive writing", "SEImplementation/SEImplementation/Image/LockedWriteableImage.h"), ("source numbers", "SEImplementation/src/lib/CheckImages/SourceIdCheckImage.cpp"), ("fitted models", "SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp")],
  """Drawn files and options go through the real configurations as in P29; a drawn history of drawings, sources and groups goes to the check images, the run is ended as the program ends it, and every file
of the directory is read back with cfitsio and compared with a model of it, pixel by pixel. A second program repeats the drawing by several threads under ThreadSanitizer. Not judged: two measurement images whose
files have the same name, HDU and layer in different directories (they share a file), groups over several extensions, frames without any fit (no model or residual image). Found and fixed: four defects.""",
  state=[("images drawn on so far", "which image belongs to which frame, extension or plane", "SEImplementation/SEImplementation/CheckImages/CheckImages.h")], observe=["files, sizes, coordinates, pixels", "images not asked for"])
