P("P08", "Parameters always read as the function of their inputs, and observers hear of it",
  "After any history of value changes, creations and destructions, a manual or engine parameter reads the value last set, a dependent parameter reads the function of its inputs' current values, and every living observer of a parameter that changed has been told the new value exactly as it then reads. Residuals on parameters follow. Objects built on parameters (model components among them) keep following after being moved, and destroying a parameter or component never leaves others calling into it.",
  ["histories"], "graphs of up to 12 parameters, any acyclic dependencies, histories of up to 60 changes, observations, moves and destructions",
  "The existing tests change one parameter of a two-level graph once; they do not interleave observation, change, destruction and moves.",
  ["ModelFitting/ModelFitting/Parameters/DependentParameter.h", "ModelFitting/ModelFitting/Parameters/BasicParameter.h", "ModelFitting/src/lib/Parameters/BasicParameter.cpp", "ModelFitting/src/lib/Parameters/EngineParameter.cpp", "ModelFitting/ModelFitting/Engine/WorldValueResidual.h"],
  [("propagation of changes to dependants", "ModelFitting/ModelFitting/Parameters/DependentParameter.h"), ("observer list", "ModelFitting/src/lib/Parameters/BasicParameter.cpp"), ("notification order of engine values", "ModelFitting/src/lib/Parameters/EngineParameter.cpp")],
  """Model-based histories: a plain table of inputs and functions is the model, and after every step every parameter, engine value, observer's
last notification and residual is compared with it, under AddressSanitizer so that a call into a destroyed object is seen. Found and fixed: stale value
when observed late, observers left on surviving inputs, notification before the engine value, moved rotated components.""",
  observe=["parameter values, notifications, residuals"])

P("P09", "World and engine values convert into each other, and so do their covariances",
  "For every coordinate converter, converting a world value inside its range to an engine value and back gives the value again; every finite engine value gives a world value inside the range; conversion is monotonic and its reported derivative is the slope of the conversion. An engine parameter keeps both views consistent through any sequence of changes of either. The parameter manager hands engine values out and takes them back in registration order, and converts an engine covariance to world errors with the same derivatives. Impossible ranges are rejected.",
  ["inputs", "histories"], "linear and exponential sigmoids over ranges of 1e-6 to 1e6, normalisation factors of either sign, values at and next to the bounds, managers of up to 8 parameters",
  "The existing tests convert a few mid-range values with one range each; ends of ranges, steep ranges and inconsistent sequences are not sampled.",
  ["ModelFitting/src/lib/Parameters/SigmoidConverter.cpp", "ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp", "ModelFitting/src/lib/Parameters/NormalizedConverter.cpp", "ModelFitting/src/lib/Parameters/EngineParameter.cpp", "ModelFitting/src/lib/Engine/EngineParameterManager.cpp"],
  [("linear sigmoid", "ModelFitting/src/lib/Parameters/SigmoidConverter.cpp"), ("exponential sigmoid", "ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp"), ("covariance conversion", "ModelFitting/src/lib/Engine/EngineParameterManager.cpp")],
  """Round trips within an error bound scaled by the slope, range and monotony over neighbouring values, derivative against central differences,
the manager against a list of converters, and rejection of bad ranges. Found and fixed: the exponential range gave infinite engine values at its bounds.""",
  observe=["converted values, derivatives, world covariance"])

P("P10", "The residual vector holds every block once, in order, as the comparator says",
  "The residuals handed to the minimiser are the concatenation of all registered blocks in registration order, each element the comparator of the data, model and weight at that element, and nothing outside the blocks is written. Each comparator is zero exactly where data and model agree or the weight is zero, odd, monotonic in the difference, scales with the weight, and agrees with the plain weighted difference for small differences; data, model and weights of different size are rejected.",
  ["inputs"], "up to 8 blocks of up to 40 elements, three comparators, differences over 12 orders of magnitude",
  "The existing tests check one block with one comparator at tabulated values.",
  ["ModelFitting/src/lib/Engine/ResidualEstimator.cpp", "ModelFitting/ModelFitting/Engine/_impl/DataVsModelResiduals.icpp", "ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h", "ModelFitting/ModelFitting/Engine/ChiSquareComparator.h", "ModelFitting/ModelFitting/Engine/LogChiSquareComparator.h"],
  [("concatenation of blocks", "ModelFitting/src/lib/Engine/ResidualEstimator.cpp"), ("data minus model", "ModelFitting/ModelFitting/Engine/_impl/DataVsModelResiduals.icpp"), ("asinh compression", "ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h")],
  """Reference formulas in double precision, guard cells around the output buffer, and algebraic laws over random data.""",
  observe=["residual vector"])

P("P11", "The least-squares engine leaves the parameters at the minimum with true errors",
  "After a successful solve the parameters hold the solution itself: for a linear problem the one of the normal equations, and for any problem a point where chi-squared is no larger than at the start and has no descent direction left. The reported parameter errors are the square roots of the diagonal of the inverse normal matrix in world coordinates, priors count as one more measurement, concurrent solves do not disturb each other, and engines are found by the name they were registered under. A fit takes no more iterations than allowed, and its summary tells whether it converged or ran out of them.",
  ["inputs", "schedules"], "random full-rank linear problems of up to 6 parameters and 40 data, curve-fitting problems, priors, bounded and unbounded parameters, 2-6 threads",
  "The existing tests fit two fixed noiseless problems with a loose tolerance; whether the parameters are left at the solution or at a rejected trial point, and the reported errors, are not compared with an independent solution.",
  ["ModelFitting/src/lib/Engine/GSLEngine.cpp", "ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp", "ModelFitting/src/lib/Engine/EngineParameterManager.cpp"],
  [("GSL solver loop and summary", "ModelFitting/src/lib/Engine/GSLEngine.cpp"), ("engine registry", "ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp")],
  """Linear problems are solved independently by the normal equations in long double; non-linear ones are decided by first-order optimality and by
comparing chi-squared at the left parameters with neighbours. Convergence is required only for noisy, unbounded problems: an exact fit may end as "no
progress". Found and fixed: parameters were left at the last trial point; names differing in case silently replaced each other. The levmar engine
has the same code shape but cannot be compiled here (no levmar library), so only the GSL engine is decided.""",
  observe=["parameter values, summary errors, iteration status"])

P("P12", "Model components keep value, flux and shape through scaling, rotation and shear",
  "The value of a model component at any position is its profile at the position mapped back through every scaling, rotation and linear transformation around it (divided by the area factor of transformations), for current parameter values and after being moved. The samples of its sharp central region lie in that region and integrate to the same flux, centre and second moments as the profile over the mapped region. Sharp region managers give a disc, radii that grow within their stated limits, and enough samples per ring.",
  ["inputs", "histories"], "chains of up to 4 decorators over Sersic (index 0.4-4.5) and flattened Moffat profiles, three sharp region managers, parameters changed between reads",
  "The existing tests check one decorator over a stub component; compositions, flux conservation of the samples and moved components are not sampled.",
  ["ModelFitting/src/lib/Models/ScaledModelComponent.cpp", "ModelFitting/src/lib/Models/RotatedModelComponent.cpp", "ModelFitting/src/lib/Models/TransformModelComponent.cpp", "ModelFitting/ModelFitting/Models/_impl/CircularlySymmetricModelComponent.icpp", "ModelFitting/src/lib/Models/AutoSharp.cpp", "ModelFitting/src/lib/Models/OldSharp.cpp", "ModelFitting/src/lib/Models/SersicProfile.cpp", "ModelFitting/src/lib/Models/FlattenedMoffatComponent.cpp"],
  [("ring sampling of the sharp region", "ModelFitting/ModelFitting/Models/_impl/CircularlySymmetricModelComponent.icpp"), ("inverse transformation and area factor", "ModelFitting/src/lib/Models/TransformModelComponent.cpp"), ("size of the sharp region", "ModelFitting/src/lib/Models/AutoSharp.cpp")],
  """The chain of decorators is folded into one 2x2 matrix by the harness, which decides values, membership of the sharp region and, with numerical radial
integrals, the zeroth, first and second moments of the samples. Ring rules are checked as inequalities. Found and fixed: a moved transformed component
lost what it decorates.""",
  observe=["getValue, getSharpSampling, insideSharpRegion"])

P("P13", "Rasterised models carry the model's flux and geometry at every scale",
  "Rasterising an extended model at any pixel scale and odd size gives, outside of its sharp region, exactly the model's value at the pixel centre times the pixel's area, and in total the model's flux inside the image. A compact model's image carries exactly the model's flux inside a border of four zero pixels, follows its profile under scale, rotation, jacobian and pixel scale, is zero beyond the largest circle that fits, and follows parameter changes. Even sizes are rejected.",
  ["inputs", "histories"], "1-3 components, sizes up to 29x29, pixel scales 0.3-2, random jacobians, Sersic indices 0.5-5",
  "No existing test rasterises an extended or compact model.",
  ["ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp", "ModelFitting/ModelFitting/Models/TransformedModel.h", "ModelFitting/ModelFitting/Models/_impl/CompactModelBase.icpp", "ModelFitting/ModelFitting/Models/_impl/CompactSersicModel.icpp", "ModelFitting/ModelFitting/Models/_impl/CompactExponentialModel.icpp", "SEUtils/SEUtils/Mat22.h"],
  [("smooth and sharp rasterisation", "ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp"), ("renormalisation, cut-off and adaptive sampling", "ModelFitting/ModelFitting/Models/_impl/CompactModelBase.icpp"), ("matrix algebra", "SEUtils/SEUtils/Mat22.h")],
  """Pixel values are compared with the analytic profile at the mapped position; fluxes with a fine numerical integral (only where the model is resolved and
not stretched by more than 2.5, the domain for which the sampling is dense enough) or with the flux parameter; for compact models the ratio pixel/profile must be
one constant outside of the sharp radius, and the central pixel must lie within the range the profile takes in it.""",
  observe=["pixels of getRasterizedImage, getValue"])

P("P14", "Placing images and PSFs in a frame keeps flux and position; frames add up",
  "Adding one image to another at any position and scale gives the band-limited (Lanczos) resampling of it, divided by the square of the scale: a smooth source keeps its flux, its centre lands on the given position and its size scales, for both kinds of target image, with clipping at the borders and nothing touched elsewhere. A PSF image rejects even or non-square kernels; resampling it keeps it odd, centred and normalised (or of unchanged sum). A frame model is the sum of its constants, PSF-scaled points and PSF-convolved extended models for the current parameters, however often it is evaluated.",
  ["inputs", "histories"], "images up to 30x30, scales 0.3-3, positions inside and outside, PSFs up to 25x25, up to 2 constants, 3 points and 2 extended models",
  "The existing tests copy one image at scale 1 onto itself; fractional positions, scales, the writeable variant, PSF resampling and frames are not tested.",
  ["SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp", "SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h", "SEImplementation/SEImplementation/Image/ImagePsf.h", "SEImplementation/src/lib/Image/DownSampledImagePsf.cpp", "ModelFitting/ModelFitting/Models/_impl/FrameModel.icpp"],
  [("separable Lanczos resampling", "SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp"), ("resampling into writeable images", "SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h"), ("assembling of frames", "ModelFitting/ModelFitting/Models/_impl/FrameModel.icpp")],
  """A double-precision Lanczos-4 reference decides every target pixel (pixels whose membership of the interpolated area hangs on rounding are skipped);
Gaussian blobs decide flux, centre and width independently of the kernel formula; frames are compared with the reference sum, with stub extended
models recording what was asked of them. Found and fixed: images added to a writeable image were displaced by one pixel. The rim of three pixels which the
fast variant leaves out is documented in the code and taken as given.""",
  observe=["pixels of the target image, kernels and frames"])
