#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

DEMO = ("The stable tests are demo scripts run on one or two fixed scenes that assert nothing about the numbers, "
        "four doctests and two undersampling tests; ")

prop("C01", "Likelihood is the chi-square of the data minus the rendered scene",
 "For any set of images, noise maps, PSFs, WCSs and sources, the log-likelihood reported for a parameter vector equals minus half the sum over every unmasked pixel of every exposure of ((data - model)/error)^2 - (data/error)^2, per band and in total, to float32 accuracy. "
 "The model is the sum over sources of the PSF-convolved Gaussian-mixture Sersic profile of each source with that band's flux (scaled by the exposure's flux calibration), position, axis ratio, position angle, Sersic index and half-light radius, and residual images returned alongside are the data minus exactly that model, pixel for pixel, exposure for exposure. "
 "Pixels with zero weight never contribute to the likelihood.",
 ["inputs", "configurations"], "All scenes of 1..30 sources, up to 30 bands, any number of exposures per band, any (distorted, rotated, flipped) WCS, any PSF mixture size per band, any pixel weights.",
 DEMO + "no test compares the compiled likelihood with an independent computation, so wrong indexing in multi-band, multi-exposure, mixed-PSF-size or many-source scenes passes.",
 ["forcepho/src/compute_gaussians_kernel.cc", "forcepho/src/common_kernel.cc", "forcepho/src/matrix22.cc", "forcepho/src/patch.cc", "forcepho/proposal.py", "forcepho/patches/patch.py", "forcepho/model.py", "forcepho/sources.py"],
 [("pixel loop, source/gaussian accumulation, chi2 reduction", "forcepho/src/compute_gaussians_kernel.cc EvaluateProposal/ComputeResidualImage"),
  ("on-image gaussian construction", "forcepho/src/common_kernel.cc CreateGaussian / GetGaussians"),
  ("metadata packing (PSF index arrays, coordinate arrays, G)", "forcepho/patches/patch.py pack_meta, pack_psf, pack_astrometry"),
  ("struct layout shared with the kernel", "forcepho/proposal.py source_struct_dtype; forcepho/src/patch.cc")],
 ["values returned by CPUProposer.evaluate_proposal", "FastPosterior.lnprob / lnlike / residuals"])

prop("C02", "Gradients are the derivatives of the reported likelihood and posterior",
 "For every parameter vector the gradient reported with the log-likelihood equals the derivative of the reported value with respect to each source flux, position, axis ratio, position angle, Sersic index and half-light radius, in the order of the parameter vector, summed over the bands and exposures that parameter affects. "
 "The gradient of the posterior is the sum of likelihood and prior gradients, and in transformed (unconstrained) coordinates it is the derivative of the transformed density including the log-Jacobian term.",
 ["inputs", "configurations"], "All scenes, bands, exposures and parameter vectors inside the allowed bounds, with and without transforms, priors and log-Jacobian.",
 DEMO + "gradients are only plotted by scripts, never compared with finite differences, and errors that touch only one parameter, one band, or a rotated WCS pass.",
 ["forcepho/src/compute_gaussians_kernel.cc", "forcepho/src/common_kernel.cc", "forcepho/src/matrix22.cc", "forcepho/model.py", "forcepho/sources.py"],
 [("chain rule per gaussian", "forcepho/src/common_kernel.cc GetGaussians; compute_gaussians_kernel.cc ComputeGaussianDerivative"),
  ("stacking of band derivatives into the parameter vector", "forcepho/model.py FastPosterior.stack_grad"),
  ("transform jacobian", "forcepho/model.py BoundedTransform, Posterior.lnprob_and_grad")],
 ["CPUProposer.evaluate_proposal derivatives", "FastPosterior.lnprob_grad / lnlike_grad"])

prop("C03", "Compiled evaluator is memory-safe, deterministic and never alters its inputs",
 "Evaluating any valid patch and proposal reads and writes only memory belonging to the arrays handed over, has no undefined behaviour and no dependence on uninitialised memory: repeating an evaluation gives bit-identical results whatever was evaluated or allocated before, and the memory an evaluation uses is given back. "
 "Evaluation leaves pixel data, weights, coordinates, metadata and the proposal bitwise unchanged (only the residual buffer is written). "
 "Scenes exceeding the compiled limits (sources, bands, mixture radii, Gaussians per source) are refused with an error instead of corrupting memory.",
 ["inputs", "histories"], "All patches and proposals up to and just beyond the compiled limits, and all sequences of evaluations and metadata swaps.",
 DEMO + "they run without sanitizers, on tiny scenes far below the limits, and would not notice an out-of-bounds read that happens to return plausible values.",
 ["forcepho/src/compute_gaussians_kernel.cc", "forcepho/src/common_kernel.cc", "forcepho/src/patch.cc", "forcepho/proposal.py", "forcepho/patches/device_patch.py", "forcepho/kernel_limits.py", "forcepho/src/kernel_limits.h"],
 [("fixed-size accumulators", "forcepho/src/compute_gaussians_kernel.cc"), ("pointer packing", "forcepho/patches/device_patch.py CPUPatchMixin.send_to_device"), ("limit checks", "forcepho/patches/patch.py, forcepho/proposal.py")],
 ["ASan/UBSan instrumented extension", "byte hashes of all arrays before/after"])

prop("C04", "Patches pack exactly the pixels of the region, once, with the right weight",
 "For any region and set of exposures, the packed pixel lists contain every pixel of each overlapping exposure in the requested bands whose footprint the region contains, exactly once, with that pixel's own coordinates, flux (minus any requested background offset) and inverse error. "
 "Pixels with non-finite flux, non-finite or negative uncertainty, masked pixels and padding carry zero weight and finite values, and weights are lowered to respect a requested maximum S/N, never raised. "
 "The per-band and per-exposure index arrays partition the packed pixels in band order, and exposures in bands not requested or not overlapping are absent.",
 ["inputs", "configurations"], "All regions, image shapes, band subsets, mask patterns and storage back-ends (FITS files, HDF5 pixel stores, in-memory dictionaries).",
 DEMO + "the demos use whole square single images without bad pixels; non-square images, partial regions, several exposures per band or stores are not asserted on.",
 ["forcepho/patches/pixel_patch.py", "forcepho/patches/storage.py", "forcepho/region.py"],
 [("pixel selection and padding", "forcepho/patches/pixel_patch.py find_pixels"), ("concatenation and index arrays", "forcepho/patches/pixel_patch.py pack_pix"), ("S/N cap", "forcepho/patches/pixel_patch.py _cap_snr")],
 ["packed arrays after build_patch"])

prop("C05", "Pixel, metadata and PSF stores reproduce what was ingested",
 "Every exposure added to a pixel store is read back, pixel by pixel at its own coordinates, as the ingested flux and inverse error after exactly the documented processing: background subtraction, flux-unit conversion applied consistently to flux and error, and zero weight with finite flux for masked, bit-flagged and non-finite pixels; the caller's images are not modified. "
 "The metadata store returns the header and WCS ingested for each band and exposure, before and after a write/read cycle, and reports exactly the exposures whose image overlaps a queried sky position. "
 "PSF stores yield for each band and detector position the stored Gaussian mixture (amplitude, mean, covariance of each component).",
 ["inputs", "histories"], "All image sizes that are multiples of the superpixel size, all mask/bitmask/background/unit options, all orders of ingestion and of write/read cycles.",
 DEMO + "the stores are exercised once per demo with one option set and the contents are never compared with the source images.",
 ["forcepho/patches/storage.py"],
 [("superpixel reordering", "forcepho/patches/storage.py PixelStore.superpixelize, add_exposure, set_pix_superpixel"), ("header json round trip", "forcepho/patches/storage.py MetaStore"), ("psf lookup", "forcepho/patches/storage.py PSFStore")],
 ["HDF5/json contents read back through the store API"])

prop("C06", "Sources land where each exposure's WCS puts them",
 "For every source and every exposure, the on-image position used for rendering equals the exposure's full WCS (including rotation, parity, non-square pixels and distortion) applied to the source's sky position, to a small fraction of a pixel at any declination and right ascension (the sources of a patch being on one continuous branch of right ascension), and its local derivative with respect to sky position is the derivative of that map. "
 "Sky coordinates handed back after fitting are absolute coordinates: shifting to the patch's internal reference frame is exactly undone.",
 ["inputs", "configurations"], "All WCSs, patch locations and source positions within a patch.",
 DEMO + "they use unrotated, undistorted north-up images near one position and do not compare positions with the WCS.",
 ["forcepho/patches/patch.py", "forcepho/utils/wcs.py", "forcepho/sources.py", "forcepho/fitting.py"],
 [("local linearisation", "forcepho/patches/patch.py pack_astrometry"), ("scale matrices", "forcepho/utils/wcs.py"), ("zerocoords", "forcepho/patches/patch.py set_scene")],
 ["packed astrometric arrays; centroid of rendered sources"])

prop("C07", "Fixed and big sources are subtracted exactly once",
 "Preparing a patch for fitting replaces the working data by the original data minus the full model of all given fixed and big sources, each counted once whatever their number, order and the block size, and leaves the active scene ready for evaluation; likelihoods evaluated afterwards refer to exactly those residual data. "
 "Rebuilding the patch and preparing it again gives the same result: nothing of an earlier preparation is left in the data.",
 ["inputs", "histories"], "All numbers of fixed, big and active sources relative to the block size, and all sequences of prepare/evaluate/design-matrix/restore calls.",
 DEMO + "no stable test gives fixed sources, so block boundaries, empty groups and buffer swapping are never observed.",
 ["forcepho/patches/device_patch.py", "forcepho/patches/patch.py", "forcepho/fitting.py"],
 [("block loop and buffer swap", "forcepho/patches/device_patch.py subtract_fixed, swap_on_device"), ("prepare_model", "forcepho/patches/device_patch.py prepare_model")],
 ["retrieve_array('data'), likelihood values after preparation"])

prop("C08", "Linear flux fits return the weighted least-squares optimum and its precision",
 "With shapes and positions held fixed, the linear flux optimisation returns for each band the source fluxes that minimise the chi-square of the (fixed-source-subtracted) data, and a precision matrix equal to the normal matrix of the unit-flux models under the pixel weights; the design matrix column of each source is its model per unit flux in that band, whatever flux the source currently has (zero included). "
 "All other source parameters come back unchanged and the patch's data are not altered.",
 ["inputs"], "All patches, active/fixed partitions, source overlaps (non-degenerate), bands with different PSFs and pixel numbers.",
 DEMO + "the linear fit is run but its optimum is never compared with a direct solve.",
 ["forcepho/fitting.py", "forcepho/patches/device_patch.py"],
 [("normal equations", "forcepho/fitting.py optimize_one_band / run_lsq / linear optimisation"), ("unit-flux models", "forcepho/patches/device_patch.py design_matrix")],
 ["returned fluxes, precision matrices, design matrices"])

prop("C09", "Regions contain exactly the pixels and sources inside their sky footprint",
 "A circular, polygonal or convex-cell region reports as contained exactly the points inside its sky footprint (points within a numerical-tolerance band of the edge aside), and for a pixel grid exactly the pixels of which at least one corner lies inside; order and multiplicity of the returned indices match the input grid. "
 "A region's bounding box encloses the region, and the superpixels selected from a pixel store are exactly those of which a corner pixel lies inside.",
 ["inputs", "configurations"], "All region kinds, sizes, declinations, RA wrap positions, WCS orientations and pixel grids.",
 DEMO + "one circular region at one position is used.",
 ["forcepho/region.py"],
 [("point-in-region tests", "forcepho/region.py"), ("bounding boxes", "forcepho/region.py")],
 ["index arrays returned by containment queries"])

prop("C10", "Scene check-out is mutually exclusive and conserves bookkeeping",
 "Over every history of check-outs and check-ins of patches, no source is active in two outstanding patches at once, none is active in one while held fixed in another, and a source is marked unavailable exactly while it is active or held fixed in some outstanding patch. "
 "A refused check-out changes nothing and happens only when some source nearby is in use; sources in use (unless all are) have no chance of being drawn as the seed of a patch, and among the free ones those with fewer iterations are preferred (exponentially). "
 "At check-in the iteration counters of the sources grow by the reported iterations and their visit counter by one (zero iterations: not a visit), checking an unmodified patch in with zero iterations restores the previous state exactly, everything is free once all patches are back, and the scene counts as finished exactly when every source has reached the target number of iterations.",
 ["histories", "schedules"], "All interleavings of check-out, check-in and undo by any number of workers, any catalog geometry and any region/size limits.",
 DEMO + "the tests perform at most one check-out and no interleaved history.",
 ["forcepho/superscene.py"],
 [("active/valid flags", "forcepho/superscene.py checkout_region, checkin_region, undo_checkout"), ("seed weighting", "forcepho/superscene.py draw_center, exp_weight, sigmoid_weight")],
 ["flag and counter arrays after each public operation"],
 [("is_active / is_valid / n_iter / n_patch", "per source bookkeeping", "forcepho/superscene.py")])

prop("C11", "Checked out scenes gather the overlapping sources around the seed",
 "With source grouping enabled, the active sources are the seed's whole group, linked by chains of overlap (separation below the sum of their radii of influence), then further whole groups in order of overlap-scaled distance until the maximum number is reached, a group too big filling the remaining slots only if partial groups are allowed or it is the first (the group catalog is the partition into such linked groups); without grouping they are the sources nearest to the seed, by distance plus scaled radius, inside the maximum radius. "
 "The fixed sources are the closest remaining ones, up to the maximum, whose extent overlaps the patch; no source appears twice or as both active and fixed. "
 "The region of the patch encloses every active source with its radius of influence and the buffer, and is never smaller than the minimum radius.",
 ["inputs", "histories"], "All catalog geometries (isolated, chains, dense clumps), all seeds, and states with other patches outstanding.",
 DEMO + "grouping is never exercised.",
 ["forcepho/superscene.py"],
 [("friends-of-friends growth", "forcepho/superscene.py LinkedSuperScene")],
 ["active and fixed catalogs returned by checkout_region"])

prop("C12", "Check-in writes back exactly the fitted sources and the state survives a restart",
 "Checking in a patch result replaces the stored parameters, and where given the flux covariances, bounds and log entries, of exactly the sources in that result, each with the values of its own row whatever the order of rows and columns, and changes nothing else in the catalog. "
 "Writing the scene state to disk and reading it back reproduces the catalog, its counters and the logs of sources and patches, so that work can resume.",
 ["histories", "inputs"], "All histories of check-outs/check-ins with arbitrary result catalogs, orders and band subsets.",
 DEMO + "no test reads back a checked-in catalog or state file.",
 ["forcepho/superscene.py"],
 [("write-back", "forcepho/superscene.py checkin_region"), ("state file", "forcepho/superscene.py writeout")],
 ["sourcecat, bounds_catalog, logs, files written"])

prop("C13", "Parameter bounds are consistent and the bounding transform is an exact bijection",
 "For any catalog, the constructed bounds enclose each source's starting position and fluxes, have lower below upper for every parameter, follow the requested widths for position and flux and the configured ranges for shapes, and are delivered for a patch in the same order (and same reference frame) as the parameter vector; a catalog passes the bounds check if and only if every parameter is strictly inside its bounds. "
 "The transform between bounded and unbounded coordinates maps the whole unbounded space inside the bounds, is inverted to numerical accuracy by its inverse, and its reported Jacobian and log-determinant (with gradient) are the derivatives of that map.",
 ["inputs"], "All catalogs, flux signs and magnitudes, band subsets, boundary-hugging starting values and unbounded coordinates.",
 DEMO + "bounds are built for one easy catalog and never compared with the definition; the transform is never inverted.",
 ["forcepho/superscene.py", "forcepho/model.py"],
 [("make_bounds, flux_bounds, bounds_vectors, check_bounds, adjust_bounds", "forcepho/superscene.py"), ("BoundedTransform", "forcepho/model.py")],
 ["bounds catalogs and vectors; transform outputs"])

prop("C14", "Posterior answers are coherent: no stale, mixed or mis-signed values",
 "For every sequence of queries at arbitrary points, the posterior's value, gradient, combined value-and-gradient, negative (minimisation) and residual interfaces all refer to the point passed in that call, as it is at that moment, and to the prior and transform settings in force, and agree with each other and with a freshly built posterior. "
 "The log-prior and its gradient add to the log-likelihood exactly as configured, and the gradients of the built-in priors are the derivatives of their values.",
 ["histories", "inputs"], "All interleavings of calls at repeated, nearby, alternating, in-place modified and out-of-bounds points, with and without priors and transforms.",
 DEMO + "callers evaluate monotonic sequences of fresh points, which never reveals stale cache values.",
 ["forcepho/model.py", "forcepho/priors.py"],
 [("last-evaluated-point cache", "forcepho/model.py Posterior.evaluate and accessors"), ("prior functions", "forcepho/priors.py, forcepho/model.py")],
 ["values returned by posterior methods along call histories"])

prop("C15", "Parameter vectors, scenes and catalogs convert into one another without loss",
 "Setting a scene from a parameter vector and reading it back gives the same vector; converting scenes to catalogs and catalogs to scenes preserves every source's fluxes per band, position and shape and the order of the sources, whatever the number of bands and band order. "
 "The proposal handed to the evaluator carries for each source exactly these values, in the flux slot of each band, with unused slots not affecting the result.",
 ["inputs", "configurations"], "All numbers of sources and bands, band subsets/orders, source types and parameter values.",
 DEMO + "conversions are used with one or two bands and never inverted.",
 ["forcepho/sources.py", "forcepho/patches/patch.py"],
 [("get/set parameter vectors, proposals, catalogs", "forcepho/sources.py Scene, Source, Galaxy"), ("set_scene", "forcepho/patches/patch.py")],
 ["vectors, proposals and catalogs returned"])

prop("C16", "Sersic mixtures and shape derivatives follow the tabulated splines",
 "For any Sersic index and half-light radius inside the tabulated range, a galaxy's Gaussian amplitudes (and their derivatives with respect to index and radius) equal the spline interpolation of the tabulated mixtures at those values, and total flux is distributed by those amplitudes; below the tabulated index, or at a negative radius, all light is in one Gaussian (the nearest in radius; the first) and the derivatives are zero; reported bounds of the interpolation range match the table. "
 "Rotation, shear and the resulting covariances realise the stated axis ratio, position angle and area-preserving radius conventions, and profile utilities (Kron, isophotal, enclosed-fraction radii and fluxes) agree with the analytic Sersic profile.",
 ["inputs"], "All index/radius pairs within the table, all axis ratios and position angles, all fractions and isophote levels.",
 DEMO + "only a few shapes are drawn and no derivative or profile integral is compared.",
 ["forcepho/sources.py", "forcepho/utils/profile.py", "forcepho/utils/__init__.py"],
 [("spline evaluation", "forcepho/sources.py Galaxy, SersicRadii"), ("profile functions", "forcepho/utils/profile.py")],
 ["amplitudes, derivatives, covariances, profile radii"])

prop("C17", "The reference (slow) renderer agrees with the model definition and the fast path",
 "The pure-Python reference renderer and likelihood produce, for any stamp, source and PSF, the same image and gradients as the mathematical model definition, and agree with the compiled evaluator to float32 accuracy; reported image and likelihood gradients are the derivatives of the reported values. "
 "Second-order pixel-integration correction, undersampling and stamp bookkeeping (coordinates, units, transposition) preserve total flux and position.",
 ["inputs"], "All stamps (shape, WCS, rotation), source types, PSF mixtures and parameter values.",
 DEMO + "only two undersampling cases assert a numerical tolerance.",
 ["forcepho/slow/gaussmodel.py", "forcepho/slow/likelihood.py", "forcepho/slow/psf.py", "forcepho/slow/stamp.py", "forcepho/sources.py"],
 [("convert_to_gaussians/get_gaussian_gradients/compute_gaussian", "forcepho/slow/gaussmodel.py"), ("WorkPlan.lnlike", "forcepho/slow/likelihood.py")],
 ["images and gradients returned"])

prop("C18", "Fits stay within bounds, are reproducible and never lose ground",
 "Every sample and optimum produced by sampling or optimisation from a start inside the bounds lies inside the supplied bounds, is reported in the constrained parameter space with the log-probability of that very point, and comes in the requested number of draws; draws follow the posterior, and sampling starts from the covariance it is given. "
 "Given the same inputs and random seed a run returns the same numbers and leaves its inputs unchanged, an optimiser never returns a point worse than its start, the linear flux step never lowers the likelihood and leaves the patch ready for its sources, and results, final and highest-probability catalogs and per-source covariance blocks belong to the right source and parameter.",
 ["inputs", "configurations", "histories"], "All patches, bounds, starting values inside the bounds, seeds, draw/warm-up numbers, covariance options and optimise/sample task sequences.",
 DEMO + "the demo scripts run one chain and do not inspect it.",
 ["forcepho/fitting.py", "forcepho/model.py", "forcepho/tasks.py", "forcepho/patches/device_patch.py"],
 [("run_lmc, run_opt, get_pot, Result.fill, Result.get_map, optimize_fluxes", "forcepho/fitting.py"), ("optimize, sample", "forcepho/tasks.py")],
 ["Result chain, lnp, starting position, stats, covariance blocks; catalogs returned by the tasks"])

prop("C19", "Saved results reproduce the run that produced them",
 "A patch result written to disk and read back gives the same chain, catalogs, band lists, bounds, configuration and metadata values (and array types) the writer was given, and chain catalogs assign each chain column to the right source, band or shape parameter, with absolute coordinates, for every draw. "
 "Items that cannot be stored are reported and stay absent rather than turning into wrong values or taking others with them, chains of the wrong size are refused, and neither writing nor reading changes the result, the model or the file read.",
 ["inputs", "histories"], "All results: any number of sources, bands, draws, attribute types and missing fields.",
 DEMO + "files are written and sometimes opened, but never compared with memory.",
 ["forcepho/fitting.py", "forcepho/utils/io.py", "forcepho/utils/chain.py", "forcepho/postprocess.py"],
 [("Result.dump_to_h5, Result.read_from_h5", "forcepho/fitting.py"), ("make_chaincat, get_sample_cat, make_statscat", "forcepho/utils/chain.py"), ("write_to_disk", "forcepho/utils/io.py"), ("Samples", "forcepho/postprocess.py")],
 ["HDF5 contents and structured arrays"])

prop("C20", "Residual and model images are reassembled pixel-exactly",
 "Residual files written for a patch contain, per exposure, exactly the packed data, residual, inverse error and pixel coordinates of that patch, and images reassembled from one or many such files put every value at its own pixel of the right exposure, leaving pixels outside the patches undefined (NaN), in images of that exposure's own size and header. "
 "Padding entries never touch an image pixel, and data minus model equals residual and chi equals residual over error in every reassembled pixel. Displays of a patch show these values at these pixels, sources at their position, and every patch.",
 ["inputs", "configurations"], "All patches, band/exposure combinations, image shapes and padding amounts.",
 DEMO + "a residual file is written for one square image and viewed, not checked.",
 ["forcepho/postprocess.py", "forcepho/utils/io.py", "forcepho/patches/patch.py"],
 [("write_residuals, write_to_disk, populate_image", "forcepho/utils/io.py and forcepho/utils"), ("Residuals.fill_images, Residuals.make_exp, write_images", "forcepho/postprocess.py")],
 ["HDF5 and image arrays"])

prop("C21", "Post-processing summarises chains faithfully",
 "Catalogs made from the chains of a run report for each source its own kept draws and log-probabilities from the last of the chosen patches in which it was active, with its own identifiers and patch, and flag sources never fitted rather than invent draws; percentile, multi-patch, combined (summed flux, mean position) and appended catalogs are the stated statistic of exactly those draws, row by row and column by column. "
 "Linear flux uncertainties are those of the stored precision matrices (or the documented default), catalogs made for a later run keep every parameter, plots show the chain of each source's own parameters, region files show each source and patch where, as large and in the orientation it is, and summarising never changes the files of the run.",
 ["inputs", "histories"], "All run directories: overlapping, missing or partial sources, any number of patches, draws, bands and selections of patches.",
 DEMO + "the demos post-process one patch and assert nothing.",
 ["forcepho/postprocess.py", "forcepho/utils/catalog.py", "forcepho/utils/ds9.py", "forcepho/superscene.py"],
 [("postsample_catalog, postop_catalog, flux_unc_linear, find_multipatch, check_multipatch, write_sourcereg, write_patchreg, run_metadata", "forcepho/postprocess.py"), ("pctile_cat, combine_chains, append_catalogs, write_table", "forcepho/utils/catalog.py"), ("cat_to_regions", "forcepho/utils/ds9.py")],
 ["catalog tables, FITS files and region files returned or written"])

prop("C22", "Catalog ingestion preserves sources and normalises conventions",
 "Reading an input catalog yields one row per input source, in order, with every band flux, position, identifier and bookkeeping value taken unchanged from its own column, shape parameters moved to the nearest end of the configured range only when outside it, and the bands named in the catalog header; catalogs with missing columns or values that are not finite are refused, a clean catalog is left as it is, and a scene made from it numbers sources by row. "
 "Converting position angles (degrees or radians, rotated by a quarter turn and/or reversed) gives the equivalent direction, in radians, within half a turn centred on zero, without changing the input.",
 ["inputs", "configurations"], "All catalogs (column orders, types, byte orders, extra or missing columns, out-of-range shapes, 64-bit identifiers) and position-angle conventions.",
 DEMO + "the demos ingest one already clean catalog.",
 ["forcepho/superscene.py"],
 [("rectify_catalog, convert_pa, sourcecat_dtype, SuperScene.set_catalog", "forcepho/superscene.py")],
 ["catalog arrays"])

prop("C23", "Configuration precedence and path handling",
 "The shipped options keep their names, types and defaults, and for every option and type the configuration a run receives has the value given on the command line (in any accepted form: separate word, '=', abbreviated, even when equal to the default), else the one in the configuration file, else the default, and nothing else; shell variables are expanded in text and lists of text, named store files are placed in the store directory, lists become arrays, data type names become types, and bounds arguments follow from these values. "
 "Reading a configuration changes neither the file, the parser nor the command line, reading it again gives the same, a written default configuration or stored copy reproduces the values, and unnamed stores stay unnamed.",
 ["configurations"], "All combinations of options present or absent in defaults, file, overriding arguments and command line, and of environment variables.",
 DEMO + "each demo uses one configuration.",
 ["forcepho/config.py", "forcepho/utils/__init__.py"],
 [("parse_all, read_config, new_args, update_config, rectify_config, make_bounds_kwargs, yaml_to_namespace, default_config_file", "forcepho/config.py"), ("NumpyEncoder", "forcepho/utils/__init__.py")],
 ["namespace returned, default and stored configuration text"])

prop("C24", "Gaussian mixture fits describe the image or profile they were given",
 "A fit of a mixture to an image gives one answer per repeat, whether or not it converges, and each answer's reconstructed image, residual and likelihood are those of its own parameters on the image, which is left unchanged; a single answer asked for is the one with the smallest residual. Amplitudes of EM answers are non-negative and sum to one, and a converged EM answer has the centroid and second moments of the image and is not improved by another EM step. Least-squares parameters stay within the image and their limits. "
 "The parameters stored for a PSF image (any shape, data type, cutout width or oversampling) are in detector pixels relative to the center of the full image and reproduce the stored model, likelihood, normalised image and flux fraction, and read back as a PSF they give the fitted image. "
 "The sampled PSF and profile models predict exactly the sum of the Gaussians (minus negative ones, plus background) of the parameters they sample, sample only what is not fixed and only within the limits given, and the best sample is the most probable one; images and ellipses drawn of them are those of the mixture. "
 "Sersic profiles have unit intensity at the half-light radius, smoothed ones are convolved with the Gaussian given, fractional radii and enclosed fluxes agree with the profile, and the amplitudes, models, chi-squares and tables stored for a grid of profiles belong to each other and to the profile of their row.",
 ["inputs", "configurations"], "All images (square or not, integer or float, degenerate or empty), numbers of Gaussians, repeats, starting points, cutouts, oversamplings, priors and limits, Sersic indices, radii and smoothings.",
 DEMO + "no test touches the mixture fitting code.",
 ["forcepho/mixtures/psf_mix_em.py", "forcepho/mixtures/utils_em.py", "forcepho/mixtures/psf_mix_hmc.py", "forcepho/mixtures/sersic_mix_twod.py", "forcepho/mixtures/sersic_mix_oned.py", "forcepho/mixtures/utils_hmc.py", "forcepho/slow/psf.py"],
 [("EM and least squares", "forcepho/mixtures/psf_mix_em.py fit_mvn_mix"), ("fits of PSF images and their files", "forcepho/mixtures/utils_em.py psf_mixture; forcepho/slow/psf.py params_to_gauss, get_psf"),
  ("sampled models", "forcepho/mixtures/psf_mix_hmc.py psf_model, psf_prediction; sersic_mix_twod.py sersic_model, sersic_prediction, get_kernel; utils_hmc.py infer"), ("profiles", "forcepho/mixtures/sersic_mix_oned.py")],
 ["answers of the fits, files written, sites sampled by the models, artists drawn"])

prop("C25", "The work dispatcher hands out every patch once and merges every result once",
 "Under every order and delay of worker completions, each patch sent to a worker is checked back in to the scene exactly once with that worker's own result and number, a worker never receives a second task before returning the first, no source is active in two outstanding patches (or fixed in one while another changes it), and every task carries the latest parameters and covariances of its sources. "
 "Submitting to a busy queue, waiting for nothing and closing while work is outstanding are refused without side effects; the run ends only when every source is done, with no result outstanding or lost, every worker told to stop exactly once, and a scene catalog and logs that agree with the messages exchanged.",
 ["schedules", "inputs"], "All interleavings of worker submissions and completions for any number of workers, patches and sources.",
 DEMO + "the dispatcher did not even import and no test runs it.",
 ["forcepho/dispatcher.py", "forcepho/superscene.py", "forcepho/tasks.py"],
 [("MPIQueue, do_parent, do_child", "forcepho/dispatcher.py"), ("checkout_region, checkin_region, writeout", "forcepho/superscene.py")],
 ["messages exchanged through a monitored in-memory communicator; scene catalog, scene log and patch log written"])

prop("C26", "The CUDA evaluator gives the CPU evaluator's answers on every schedule",
 "For every scene, patch, block size and order in which the threads of the device run, the CUDA evaluator (GPUProposer on a GPU patch) gives the same chi-square, derivatives and residuals as the C++ evaluator and the mathematical model, to float32 accuracy. No launch reads or writes outside its buffers, uses freed or uninitialised memory, races, or has threads that miss a barrier or shuffle. "
 "Scenes that exceed the buffers of the kernel or its shared memory raise ValueError and are not launched. Histories of preparing, swapping residuals, packing other sources, building design matrices and rebuilding leave the working data equal to data minus the fixed sources and the data itself unharmed; device buffers do not accumulate, and are released, each once, when the patch is freed or deleted.",
 ["schedules", "inputs", "histories"], "All thread schedules and block sizes, all scenes and patches, all histories of a device patch.",
 DEMO + "no test has a GPU; the CUDA path is never executed by them.",
 ["forcepho/src/compute_gaussians_kernel.cu", "forcepho/src/proposal.cu", "forcepho/src/patch.cc", "forcepho/proposal.py", "forcepho/patches/device_patch.py"],
 [("EvaluateProposal", "forcepho/src/compute_gaussians_kernel.cu"), ("GPUProposer", "forcepho/proposal.py"), ("GPUPatchMixin", "forcepho/patches/device_patch.py")],
 ["every load, store, atomic, barrier and shuffle of the kernel on an emulated device; buffers allocated, copied and freed; residuals, chi-squares and derivatives returned"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
