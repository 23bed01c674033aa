P("P32", "PSFs are those of the files and options, at the source's place, normalised",
  "For every PSFEx file, PSF stack, PSF image and width given, the point spread function has the size and sampling of the file and, at every position, the value the file defines: the sum of all monomials of the variables (each scaled by its offset and scale) whose degree in each group does not exceed the group's, times their coefficient images in the order of the file; the stamp of the nearest position of a stack; the image; a normalised Gaussian. Files that are damaged or do not fit (even or oblong kernels, wrong numbers or sizes of coefficients, unknown variables or groups, missing keywords or columns, stamps beyond the image) are refused. Each measurement frame uses its own PSF or else the default one; NOPSF gives none, and a frame without any is refused. Group PSFs are taken at the centre of the group's rectangle and have sum 1, source PSFs at the source's centroid and have sum 1 unless renormalisation is switched off, and the PSF check image shows each at its place. Several threads may evaluate the same PSF.",
  ["inputs", "schedules"], "up to 4 variables in 3 groups of degree up to 3 (80 coefficients), kernels up to 9x9, stacks of up to 6 stamps, images in any of 3 HDUs; up to 4 frames; 4 threads with 100 evaluations each",
  "Two tests of VariablePsf (not part of the build here) evaluate three fixed polynomials; nothing reads a file, and nothing evaluates several groups.",
  ["SEFramework/src/lib/Psf/VariablePsf.cpp", "SEFramework/src/lib/Psf/VariablePsfStack.cpp", "SEFramework/SEFramework/Psf/VariablePsf.h", "SEFramework/SEFramework/Psf/VariablePsfStack.h", "SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp", "SEImplementation/src/lib/Plugin/Psf/PsfTask.cpp", "SEImplementation/src/lib/Plugin/Psf/PsfTaskFactory.cpp", "SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp", "SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTaskFactory.cpp"],
  [("monomials in the order of PSFEx", "SEFramework/src/lib/Psf/VariablePsf.cpp"), ("stamp of the nearest position", "SEFramework/src/lib/Psf/VariablePsfStack.cpp"), ("reading of the formats", "SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp"), ("PSF of a frame", "SEImplementation/src/lib/Plugin/Psf/PsfTaskFactory.cpp")],
  """A drawn model (polynomial, stack, image or Gaussian) is written with cfitsio in the layout of the real tools, sound or with one of twelve faults, read back with the real reader and compared pixel by pixel with the
model's own evaluation, whose exponents come from enumerating all products of powers. Through the real options, image groups and factories the PSFs reach frames, groups and sources; check images are compared with the PSFs added by the
code P10/P31 judge. Evaluations by several threads are compared with the same model. Not judged: the HDU number with PSFEx files (always PSF_DATA), the 1-based X_IMAGE of PSFEx, kernels of sum near zero. Found and fixed: six defects.""",
  observe=["pixels and sampling of the PSF", "refusals", "PSF check image"])
