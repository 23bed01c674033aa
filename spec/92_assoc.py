P("P35", "Association and measurement at given positions follow the catalogue",
  "Given a catalogue of positions, a run with association adds to every detection, in whichever image of the detection file, whether entries lie within the association radius of it and the values the chosen mode takes from them - those of the first or nearest entry, of the one with the least or greatest weight, their weighted mean, sum or magnitude sums - and a matched or unmatched filter keeps exactly these detections. Without detection image, every entry of the catalogue, in its order, becomes one source at the position it gives, measured and fitted in every measurement image through its own WCS on an area of the size the catalogue gives, grouped as the catalogue says, with its columns copied to the output and offered to the Python configuration under their names; whether the columns are given by options or by an association file, in whatever order, case or numbering, and whatever the number of threads, tile size or reference image.",
  ["inputs", "configurations", "schedules"], "images up to 90x90, up to 3 measurement images, catalogues up to 6 entries to measure and some 400 to match, ASCII catalogues of double, float, long and int columns",
  "The tests of the association task give it one catalogue made in memory; none reads a catalogue or an association file, runs without detection image, or looks at filters, groups and sizes.",
  ["SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp", "SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp", "SEImplementation/src/lib/Plugin/AssocMode/AssocModePartitionStep.cpp", "SEImplementation/src/lib/Plugin/AssocMode/AssocModeTaskFactory.cpp", "SEImplementation/src/lib/Plugin/AssocMode/AssocModePlugin.cpp", "SEImplementation/src/lib/Segmentation/AssocSegmentation.cpp", "SEImplementation/src/lib/Grouping/AssocGrouping.cpp", "SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTaskNoDetect.cpp", "SEImplementation/src/lib/Plugin/ReferenceCoordinates/ReferenceCoordinatesTaskFactory.cpp", "SEImplementation/src/lib/PythonConfig/ObjectInfo.cpp", "SEUtils/SEUtils/_impl/KdTree.icpp"],
  [("matching", "SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp"), ("catalogue and its columns", "SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp"), ("sources without detection", "SEImplementation/src/lib/Segmentation/AssocSegmentation.cpp"), ("groups", "SEImplementation/src/lib/Grouping/AssocGrouping.cpp"), ("areas", "SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTaskNoDetect.cpp")],
  """The main program is compiled as for P33. `match` detects sources on a drawn image and matches them with a drawn catalogue clustered around them, in pixels or sky coordinates, by every mode; an exhaustive search over the catalogue from the centroids
the run reports gives the expected match and values, positions that fall within rounding of the radius are skipped, and the run is repeated with a filter. `forced` measures at the positions of a catalogue alone: order and identity of the rows, positions, copied values,
groups with and without limit, aperture fluxes bracketed between a slightly smaller and larger aperture, the fitting area computed from the definition, the fit (six reported errors) where the source lies alone and inside, flags and undefined values
where it does not, and what the Python expressions were given. `extensions` runs a detection file with two or three images, each with its own size, WCS and sources, and compares the catalogue row by row with those of runs on the images one by one (without multi-thresholding, which shares
pixels by lot). Alexandria's ASCII reader is a stand-in of the harness.""",
  observe=["catalogue", "exit status"])
