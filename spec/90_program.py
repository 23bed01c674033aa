P("P33", "A whole run measures what it says, whatever the organisation of its work",
  "A run of the whole program over image files, weight maps, check images and measurement images given in a Python script writes a catalogue whose columns are, for every detected source, what their definition gives when it is computed anew from the files: pixels, boundaries, peak, centroid, moments, ellipse, errors, isophotal, automatic and aperture photometry in every measurement image with its gain, flux scale, background, saturation, weights and position on the sky, growth curve, flux radius, Kron radius, vignet and flags. The catalogue and the check images are the same, value by value and number by number, however the work is organised: any number of threads, queue sizes, tile sizes and memory limits, flush sizes, order of the output properties, catalogue in a file or on the standard output, options on the command line or in a configuration file, and from one run to the next.",
  ["inputs", "configurations", "schedules"], "images up to 90x90 with up to 12 sources and 1 to 3 measurement images with subpixel shifts; up to 8 threads; every column of the catalogue that no model fitting produces",
  "No test runs the program; the tests of the tasks feed made-up properties to one task at a time, and no test looks at the columns the plugins put in the catalogue or at two runs.",
  ["SEMain/src/program/SourceXtractor.cpp", "SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryPlugin.cpp", "SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryPlugin.cpp", "SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersPlugin.cpp", "SEImplementation/src/lib/Output/OutputFactory.cpp", "SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp", "SEImplementation/src/lib/Deblending/Cleaning.cpp", "SEImplementation/SEImplementation/Property/SourceId.h", "SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp"],
  [("main program", "SEMain/src/program/SourceXtractor.cpp"), ("columns", "SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersPlugin.cpp"), ("order of the numbers", "SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp")],
  """The main program itself is compiled with every plugin (shims replace the Elements and Alexandria libraries) and run in a forked child on files drawn and written by the harness: noise, Gaussian and Moffat blobs, weight maps of the four
kinds, flags, WCS. `same` runs each request twice, plainly and with the work organised differently, and compares the catalogues as text, column by column and row by row, and the check images bit by bit. `columns` takes the detected pixels
from the partition check image and recomputes every column in double precision with brackets (lower and upper bounds) wherever a pixel lies on the edge of an aperture. Not judged: the order in which overlapping ellipses are drawn in the
aperture check image with threads, detection order of BFS under another tile size. Vignets are stored with x as the slow axis.""",
  observe=["catalogue", "check images", "exit status"])
