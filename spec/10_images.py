P("P01", "Image views and their compositions read exactly what their definition says",
  "For every image, and every nesting of image adaptors (sub-image, mirror, padding by constant/zero/reflection, re-centring, scaling, thresholding, signal-to-noise, subtraction, function application, conversion, caching), the value read at every pixel equals the value given by composing the adaptors' definitions, whichever way it is read: single pixel, rectangular chunk, or accessor walking in any order. A chunk has exactly the requested size and content, views over a writable image show later writes, and a padding coordinate is mapped by the stated reflection rule for any distance outside of the image.",
  ["inputs", "programs"], "all images up to 24x24 (sizes down to 1x1), all adaptor trees up to depth 4, all chunk rectangles and all read orders",
  "The existing tests read a few pixels of single adaptors at one size; they do not nest adaptors, read chunks of composed views, or use one-pixel-wide images and large paddings.",
  ["SEFramework/SEFramework/Image/PaddedImage.h", "SEFramework/SEFramework/Image/ProcessedImage.h", "SEFramework/SEFramework/Image/SubImage.h", "SEFramework/SEFramework/Image/RecenterImage.h", "SEFramework/SEFramework/Image/ImageAccessor.h", "SEFramework/SEFramework/Image/ImageChunk.h"],
  [("chunked reading of processed images", "SEFramework/SEFramework/Image/ProcessedImage.h"), ("padding index maps", "SEFramework/SEFramework/Image/PaddedImage.h"), ("accessor with cached chunk", "SEFramework/SEFramework/Image/ImageAccessor.h")],
  """A random adaptor tree is built over a random base image together with a pure reference function `value(x, y)` composed
from the textbook definition of each adaptor. Every pixel is then compared through `getChunk` over random rectangles,
through an `ImageAccessor` walked in random order, and through nested combinations, for float, double and int images. A
second sub-property writes into the base image between reads; a third checks the padding index rule over coordinates far
outside. Found and fixed: Reflect101 divided by zero for an image one pixel wide.""",
  observe=["value and size of getChunk / ImageAccessor::getValue"])

P("P02", "Convolution gives the textbook result, whatever the strategy, context or thread",
  "Convolving an image with a kernel gives, at every pixel, the sum over the kernel of kernel value times the (zero- or reflect-padded) image value, for the direct and the Fourier implementation alike. The result does not depend on whether a prepared context is reused, which images it saw before, or which other threads convolve at the same time; it is linear, commutes with shifts of an interior scene, and preserves total flux for a normalised kernel.",
  ["inputs", "histories", "schedules"], "all image sizes up to 40x40, odd kernel sizes up to 13 including kernels larger than the image, all paddings, all orders of context reuse, 2-6 threads",
  "The existing tests compare one or two fixed images and kernels with tabulated results; they never reuse a context for different images, use a kernel larger than the image, or convolve concurrently.",
  ["SEFramework/SEFramework/Convolution/DFT.h", "SEFramework/SEFramework/Convolution/DirectConvolution.h", "SEFramework/SEFramework/Convolution/Convolution.h", "SEFramework/src/lib/FFT/FFT.cpp"],
  [("Fourier convolution with padding and prepared kernel", "SEFramework/SEFramework/Convolution/DFT.h"), ("direct convolution", "SEFramework/SEFramework/Convolution/DirectConvolution.h")],
  """Both strategies with every padding run on random images/kernels and are compared with a four-loop double-precision
convolution within a tolerance derived from the magnitudes. Sequences of prepare/convolve on shared contexts form the
history sub-property; metamorphic checks cover shift and flux; the thread sub-property runs 2-6 threads over the shared
FFTW planner and compares with the serial answer. Even-sized kernels are out of scope: the two implementations
centre them differently and nothing documents which is meant.""",
  observe=["pixel values of the convolved image"])

P("P03", "Fourier transforms invert each other and match the definition",
  "The forward transform of a real image equals the discrete Fourier transform of its pixels, and the inverse transform of that, divided by the number of pixels, gives the image back, for every size including 1 and primes, single and double precision, and for reused plans and concurrent threads. The size chosen for fast transforms is never smaller than the size asked for and has only the small prime factors the library is fast for.",
  ["inputs", "schedules"], "all sizes up to 48x48 with random content, all plan reuse orders, 2-8 threads; size rounding for all sizes up to 100000",
  "The existing tests transform a few fixed images; plan caching across sizes and threads, and the rounding of sizes, are not sampled.",
  ["SEFramework/src/lib/FFT/FFT.cpp", "SEFramework/SEFramework/FFT/FFT.h"],
  [("plan creation under a lock, plan reuse", "SEFramework/src/lib/FFT/FFT.cpp"), ("rounding up of dimensions", "SEFramework/src/lib/FFT/FFT.cpp")],
  """Random images are transformed forth and back and compared, a naive O(N^2) DFT decides the forward transform, the
rounding function is compared with a brute-force search, and threads run independent transforms concurrently whose results
must equal the serial ones.""",
  observe=["transform coefficients and round-tripped pixels"])

P("P04", "Apertures cover the area of their shape and their bounding box misses nothing",
  "The area an aperture assigns to a pixel equals the covered fraction of that pixel under the aperture's stated sampling, is zero for every pixel outside of its bounding box, and totals to the area of the shape within the sampling error. This holds for circular, elliptical and affinely transformed apertures at any centre, including negative and fractional coordinates, and moving the centre by whole pixels moves the answer with it.",
  ["inputs"], "all radii/ellipses/affine maps up to about 8 pixels, all centres in [-60, 60] at float resolution",
  "The existing tests check a few radii at the origin; positions left of or above the origin and fractional centres, where truncation and rounding differ, are not sampled.",
  ["SEFramework/src/lib/Aperture/CircularAperture.cpp", "SEFramework/src/lib/Aperture/EllipticalAperture.cpp", "SEFramework/src/lib/Aperture/TransformedAperture.cpp"],
  [("sub-sampled area and bounding box of a circle", "SEFramework/src/lib/Aperture/CircularAperture.cpp"), ("ellipse indicator and box", "SEFramework/src/lib/Aperture/EllipticalAperture.cpp"), ("affine image of an aperture", "SEFramework/src/lib/Aperture/TransformedAperture.cpp")],
  """Each aperture is compared with an independent evaluation in double precision (skipping samples within rounding of the
edge), every pixel of a wide margin outside of the reported box must have zero area, the area summed must match pi r^2 /
pi a b / |det| within the sampling error, and integer translations must commute. Found and fixed: boxes were truncated
towards zero, losing pixels for negative coordinates.""",
  observe=["per-pixel area, bounding box"])

P("P05", "Aperture photometry sums exactly the pixels the aperture covers",
  "Flux and variance measured in an aperture equal the area-weighted sums over the covered pixels inside the image, bad pixels (variance above threshold) contribute nothing or, with symmetric replacement, the value of the point-mirrored good pixel, and total and bad areas count what was covered. The flags say exactly: outside when the box misses the image, boundary when it is clipped, biased when more than a tenth of the area is bad, neighbours when more than a tenth belongs to other detections. The measurement is additive in the image.",
  ["inputs"], "all image sizes up to 24x24, all bad-pixel and detection masks, all apertures up to 8 pixels at any centre inside and outside, symmetric replacement on/off",
  "The existing tests measure a handful of fixed scenes; clipping at each border together with bad pixels, mirrors falling off the image and threshold boundaries are not sampled.",
  ["SEFramework/src/lib/Aperture/FluxMeasurement.cpp", "SEFramework/src/lib/Aperture/Flagging.cpp", "SEFramework/src/lib/Aperture/NeighbourInfo.cpp"],
  [("flux loop with mirror replacement", "SEFramework/src/lib/Aperture/FluxMeasurement.cpp"), ("flag computation", "SEFramework/src/lib/Aperture/Flagging.cpp"), ("neighbour mask", "SEFramework/src/lib/Aperture/NeighbourInfo.cpp")],
  """A pixel-by-pixel double-precision reference using only the aperture's per-pixel area decides flux, variance, areas and
flags for circles, ellipses, rotated circles and apertures with arbitrary weights; ties between two mirror pixels are allowed
to go either way. Found and fixed: a mirror coordinate just outside of the image was truncated onto row/column 0.""",
  observe=["measured flux, variance, areas, flags"])
