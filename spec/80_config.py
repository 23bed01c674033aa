P("P28", "The Python configuration reaches the program exactly as the script wrote it",
  "For every configuration script: load_fits_image, load_fits_images, load_fits_data_cube and MeasurementImage give one image per image HDU, file or layer, in order, each with its file, HDU, layer, PSF, weight, gain, saturation, flux scale (argument, else keyword, else default) and header keywords, and mismatched lists, cubes and types are refused without configuring anything; splitting image groups partitions their images without loss, groups given to MeasurementGroup no longer change; every model, parameter (also the ones others depend on), prior, aperture, output column and setting given is what the C++ side reads, with distinct identifiers, and nothing else; world coordinates and shapes of the convenience parameters are those of the ellipse on the sky; arguments of the script take the default, or the value given, with its type; what scripts print goes to the log line by line and errors in scripts are reported.",
  ["inputs", "histories"], "files of 1 to 4 HDUs with drawn keywords; up to 8 operations on groups, models, priors, apertures and columns per configuration; random linear and gnomonic geometries; scripts of about ten statements; any Unicode text",
  "Only the C++ classes behind the Python ones have tests; the Python modules have none.",
  ["SEImplementation/python/sourcextractor/config/measurement_config.py", "SEImplementation/python/sourcextractor/config/measurement_images.py", "SEImplementation/python/sourcextractor/config/model_fitting.py", "SEImplementation/python/sourcextractor/config/argv.py", "SEImplementation/python/sourcextractor/config/compat.py", "SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp", "SEImplementation/src/lib/PythonConfig/PythonModule.cpp", "SEImplementation/src/lib/PythonConfig/PyMeasurementImage.cpp", "SEImplementation/src/lib/PythonConfig/PyAperture.cpp", "SEImplementation/src/lib/PythonConfig/PyId.cpp", "SEImplementation/src/lib/PythonConfig/PyFitsFile.cpp", "SEImplementation/src/lib/PythonConfig/PyOutputWrapper.cpp"],
  [("images from files", "SEImplementation/python/sourcextractor/config/measurement_config.py"), ("groups", "SEImplementation/python/sourcextractor/config/measurement_images.py"), ("models and shapes", "SEImplementation/python/sourcextractor/config/model_fitting.py"), ("arguments", "SEImplementation/python/sourcextractor/config/argv.py"), ("what the program reads", "SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp")],
  """The harness embeds Python through the repository's own interpreter and module and runs checks written in Python over the freshly imported modules of the working tree;
generators draw through the same stream as every other harness, so failures shrink and replay. The oracle is a model of the configuration kept by the check, compared with what the
getters of PythonInterpreter return; the sky geometry is a gnomonic projection with a drawn matrix. astropy and pyston are not installed: stand-ins compute separation and
position angle from the sphere. Not judged: that data cube slices cannot switch off psf_renormalize, keywords in groups without images. Found and fixed: ten defects.""",
  observe=["configured images", "groups", "registered models, parameters and columns", "world shapes", "log lines"])

P("P29", "Images, weights and thresholds become frames as the options and the script say",
  "For every set of options, FITS files and Python images: there is one detection frame per image HDU (or the one named by a [n] suffix) and one measurement frame per Python image, or one on the detection image if the script has none; each frame holds its own image multiplied by its flux scale, gain divided and saturation multiplied by it (option, else keyword, else default), its own coordinates, label, keywords, index and interpolation gap; weights become variances ((w s)^2, w s, 1/(w s), infinite where the weight is not positive), multiplied by the squared flux scale if absolute and by the scaling factor of the background if relative; a pixel is bad exactly if its weight is beyond the weight threshold in the weights' own unit, or not positive, whatever the flux scale and the scaling factor, for the background analysis as for the frame; the background is the analysed level unless a constant is given, and the detection threshold is that of the options. Reference images give coordinates only. Missing files, unknown or meaningless weight types, absolute weights without image, keywords that are no numbers, detection together with reference images, and no image at all are refused.",
  ["inputs"], "files of 1 to 3 images or cubes of up to 9x9 pixels with drawn keywords, empty primary HDU, trailing table; up to 4 Python images; all weight types, scalings, thresholds",
  "No test exercises the configurations of images, weights and frames: they are not part of the build here.",
  ["SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp", "SEImplementation/src/lib/Configuration/WeightImageConfig.cpp", "SEImplementation/src/lib/Configuration/DetectionFrameConfig.cpp", "SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp", "SEImplementation/src/lib/Configuration/MeasurementFrameConfig.cpp", "SEImplementation/src/lib/Configuration/BackgroundConfig.cpp", "SEImplementation/src/lib/Configuration/PythonConfig.cpp", "SEFramework/src/lib/Frame/Frame.cpp"],
  [("detection images", "SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp"), ("weights", "SEImplementation/src/lib/Configuration/WeightImageConfig.cpp"), ("detection frames", "SEImplementation/src/lib/Configuration/DetectionFrameConfig.cpp"), ("measurement images", "SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp"), ("measurement frames", "SEImplementation/src/lib/Configuration/MeasurementFrameConfig.cpp")],
  """Drawn files and options go through the real configurations (parsed by boost::program_options, ordered by a stand-in for Alexandria's ConfigManager). The background analysis
is a stand-in that records what it is given and returns known maps, so every number of a frame follows from the draw. Not judged: in which unit a constant background and a threshold without
weight image are when there is a flux scale, HDUs after one that is no image, weight files with more images than the detection image.""",
  observe=["frames", "what the background analysis is given", "refusals"])

P("P30", "Every option reaches the part it configures, and impossible values are refused",
  "For every combination and order of options: each configuration gives back the value asked for, or the documented default; values out of range, of the wrong type or unknown names are refused, names of algorithms and formats count in any case. The segmentation filter is the default 3x3 kernel, none if filtering is off, or the kernel of the FITS or text file; files that are missing, no filter, or do not hold whole rows of numbers are refused. With a detection image the partition keeps the areas of at least the minimum, then splits by attractors and thresholds as asked; deblending cleans exactly if asked; steps cannot be added after the configuration or taken before. Grouping and segmentation are the algorithm asked for, with its limits, window, sizes, thresholds and distances.",
  ["inputs"], "all options of eighteen configurations in any order and case, one invalid value; text and FITS kernels of up to 9x7; frames of up to 40x40 pixels; groups of up to 25 sources",
  "No test covers a configuration: they are not part of the build here.",
  ["SEImplementation/src/lib/Configuration/%s.cpp" % n for n in "AttractorsPartitionConfig CheckImagesConfig CleaningConfig DeblendStepConfig GroupingConfig LegacyModelFittingConfig MagnitudeConfig MemoryConfig MinAreaPartitionConfig MultiThreadingConfig MultiThresholdPartitionConfig OutputConfig PartitionStepConfig RngConfig SE2BackgroundConfig SamplingConfig SegmentationConfig".split()] + ["SEImplementation/src/lib/Grouping/GroupingFactory.cpp", "SEImplementation/src/lib/Segmentation/SegmentationFactory.cpp"],
  [("filters", "SEImplementation/src/lib/Configuration/SegmentationConfig.cpp"), ("partition steps", "SEImplementation/src/lib/Configuration/MultiThresholdPartitionConfig.cpp"), ("grouping", "SEImplementation/src/lib/Grouping/GroupingFactory.cpp"), ("segmentation", "SEImplementation/src/lib/Segmentation/SegmentationFactory.cpp"), ("catalogue", "SEImplementation/src/lib/Configuration/OutputConfig.cpp")],
  """Options are drawn independently (given or not, value, spelling, order) and compared with what the configurations answer; one value per refused case is out of range. Filters,
partition chains, groupings and segmentations are compared by what they do to drawn images and sources with the same part constructed directly from the drawn numbers (those parts themselves
are decided by P15, P18 and P21).""",
  observe=["configured values", "filtered pixels", "sources after the steps", "groups", "detections and signals"])
