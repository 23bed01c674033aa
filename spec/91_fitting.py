P("P34", "Model fitting recovers the sources, honours its configuration and says so",
  "A whole run with model fitting gives back, within the errors it reports, the positions, fluxes and shapes of the sources its images were made of, in every measurement image with its gain, weights, saturation, shift and WCS, whether the sources are fitted one after the other or group by group. Whatever the configuration: free parameters stay within their ranges, constant parameters and dependent parameters have the value of their definition, a prior pulls a parameter to its mean and a wide one does nothing; sources that cannot be fitted because they lie outside of the images or on too few good pixels have no values and are flagged so, and partially covered ones are flagged too; the areas and numbers of pixels reported are those of the fitting areas asked for; the model and residual images show the models with the reported parameters and what is left of the image; and the number of threads or the tile size changes nothing.",
  ["inputs", "configurations", "schedules"], "images up to 90x90 with up to 4 sources, 1 to 3 measurement images, point, exponential and Sersic models with Gaussian PSFs, the GSL engine; iterative and classic fitting",
  "The tests of the model fitting library fit one model made by the same code; no test runs the plugin that groups sources, cuts stamps, weighs pixels, scales fluxes, flags and writes the columns.",
  ["SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingParameter.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingModel.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingPrior.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingConverterFactory.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTaskFactory.cpp", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingPlugin.cpp", "SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp", "ModelFitting/src/lib/Engine/GSLEngine.cpp", "SEImplementation/python/sourcextractor/config/model_fitting.py"],
  [("source by source", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp"), ("group by group", "SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp"), ("configuration", "SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp"), ("minimiser", "ModelFitting/src/lib/Engine/GSLEngine.cpp")],
  """The main program is compiled as for P33 and fits images the harness draws with its own integration of the profiles (five samples per pixel and axis) convolved with a Gaussian PSF, with noise, gain and different shifts. `recover` compares the
fitted parameters with those of the drawing (six reported errors plus a small absolute term, doubled for blended sources). `identities` draws everything freely - sources at the edges and outside of some images, masked and saturated pixels,
fitting area functions, ranges of the three kinds, dependent and constant parameters, priors, several meta-iterations, deblending - and judges only what follows from definitions: ranges, constants and dependents, flags, fitting areas,
degrees of freedom, chi-square recomputed from the model image, model image predicted from the reported parameters, residual = image - model, undefined values of unfitted sources. `ellipses` judges the elliptical window on measurement frames that are turned, rescaled and mirrored against the detection image: the pixels used are those of the detection's ellipse moved there.
`again` repeats a run with other threads and tiles.
Not judged: the flags and areas of group by group fitting, whose stamps follow rules of their own; fluxes under low gain, where the fit is biased by definition; the Levmar engine, which cannot be compiled here.""",
  observe=["catalogue", "check images", "exit status"])
