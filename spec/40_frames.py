P("P15", "Filtering and bad-pixel replacement use good pixels only, whatever the tiling",
  "Filtering a detection image replaces every good pixel by the kernel-weighted mean of the good pixels under the kernel, and every masked pixel by zero; what masked pixels or pixels outside the image hold never matters, normalising the kernel changes nothing, and the kernel of the caller is left alone. Interpolation replaces a bad pixel by the nearest good pixel to the left or below within the gap and leaves all others. Results are the same for every tile and chunk rectangle, tile size and memory limit, and for the direct and the Fourier algorithm.",
  ["inputs"], "images up to 40x40, masks of any density and garbage (NaN, huge values) under them, odd asymmetric non-negative kernels up to 11x11, tiles of 1 to 48 pixels",
  "The existing test convolves one 20x20 image with fixed kernels and compares the two algorithms on a whole-image tile.",
  ["SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp", "SEImplementation/src/lib/Segmentation/BgDFTConvolutionImageSource.cpp", "SEImplementation/src/lib/Segmentation/BackgroundConvolution.cpp", "SEFramework/SEFramework/Image/InterpolatedImageSource.h", "SEFramework/SEFramework/Image/ProcessingImageSource.h", "SEFramework/SEFramework/Image/MaskedImage.h"],
  [("direct masked convolution", "SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp"), ("Fourier masked convolution", "SEImplementation/src/lib/Segmentation/BgDFTConvolutionImageSource.cpp"), ("gap interpolation", "SEFramework/SEFramework/Image/InterpolatedImageSource.h")],
  """The weighted mean is evaluated in double precision from its definition at every pixel of a random tile and compared with what the sources generate, directly
and through BufferedImage with random tile sizes; masked pixels carry NaN or 1e30. Even kernels (whose centre is a matter of convention) and kernels with
negative weights (for which the quotient is ill-conditioned) are outside the domain.""",
  observe=["pixels of tiles and chunks"])

P("P16", "Background and rms are robust, per cell, and blind to masked pixels and units",
  "The background analyser returns maps of the image's size: a constant image gives its constant and no noise, noise gives its mean and standard deviation also in the presence of bright sources, cells with less than half of their pixels valid are filled from the nearest defined cells (ties averaged), and the median filter uses boxes clipped symmetrically at the edges. What masked or high-variance pixels hold has no influence; multiplying the image by a factor multiplies level and rms by it. The weight scaling is variance over weight. Masks and maps of another size are rejected.",
  ["inputs"], "images of up to 4x4 cells of up to 32x32 pixels and of up to 7x7 small cells, noise over three decades, up to 5 % outliers, units from 2^-50 to 2^50, masks of any density",
  "The existing tests filter one small table each; the analyser itself is never run by them.",
  ["SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp", "SEImplementation/src/lib/Background/SE/ImageMode.cpp", "SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h", "SEImplementation/src/lib/Background/SE/ReplaceUndefImage.cpp", "SEImplementation/SEImplementation/Background/SE/MedianFilter.h", "SEImplementation/src/lib/Background/SimpleBackgroundAnalyzer.cpp", "SEFramework/SEFramework/Image/ScaledImageSource.h"],
  [("replacement of undefined cells", "SEImplementation/src/lib/Background/SE/ReplaceUndefImage.cpp"), ("box clipping", "SEImplementation/SEImplementation/Background/SE/MedianFilter.h"), ("kappa-sigma histogram bins", "SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h"), ("weight scaling", "SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp")],
  """Cell helpers are compared with brute force. The analyser is decided by relations (constant images, garbage under masks bit for bit, change of unit) and by statistical bounds
of at least five standard deviations on pure Gaussian noise. Alexandria's histogram and splines are stand-ins (shim/), so nothing is claimed about their exact
numbers. Found and fixed: median filter out-of-bounds read on meshes narrower than its box, weight scaling of an empty list, noise of images in small units taken for none.""",
  observe=["level map, variance map, rms, scaling factor"])
