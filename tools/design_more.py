S["C14"] = """Monitored: value, gradient, value-and-gradient, negative and residual answers along random interleavings of calls at fresh, repeated, alternating and in-place modified points, with priors, transforms and settings toggled between calls. Oracle: cache-free recomputation on an independently built patch plus closed forms for the priors. ~20 s."""
S["C15"] = """Monitored: every parameter vector, per-filter vector, index list, catalog cell and proposal slot along random histories of vector updates, per-filter updates, fixed/active flips, catalog export and re-import (permuted rows, subsets and orders of bands) for all four source types; kernel results with unused proposal slots filled with NaN/inf. Oracle: the monitor's own copy of the sources. ~20 s."""
S["C16"] = """Monitored: amplitudes and derivatives at nodes, edges and inside of the shipped and of synthetic tables; covariances of each Gaussian; shear Jacobian; Kron/isophotal/enclosed-flux utilities; circularised profile; the smoothing option taken through Scene and patches. Oracle: the table itself at nodes, an independently built spline, finite differences, projections on the principal axes, numerical quadrature of the Sersic law. ~5 s."""
S["C17"] = """Monitored: every pixel and gradient of `render`, log-likelihoods and gradients of WorkPlan/FastWorkPlan over several stamps with fixed/off-stamp sources (with and without gradients), the image of a work plan, single-Gaussian counts and derivatives under all options, PSF files, stamp FITS/WCS output, slow against compiled images, and stamps packed by `StaticPatch` through the CPU kernel against the public model. Oracle: independent float64 model, 4th-order finite differences, erf pixel integrals, astropy. ~20 s."""
S["C18"] = """Monitored: an event log of every point evaluated by a posterior with its log-probability, taken while `run_lmc`, `run_opt`, `run_opt_bounded` and `run_dynesty` run on analytic targets (bounded, unbounded, edge maxima, flat) and while `prepare_model`, `run_lmc`, `tasks.optimize` and `tasks.sample` run on real patches with fixed sources. Offline: every draw must be a logged point with the logged log-probability, inside its bounds, in the requested number; moments against exact truncated normals; repeated runs identical; optimum and linear step never worse; catalogs and covariance blocks rebuilt by position; likelihoods recomputed on a separately built joint patch. ~45 s."""
S["C19"] = """Monitored: every attribute of results holding random scalars, text, plain, strided, structured, sub-array, empty and unstorable values, and of real sampling and optimisation results, before and after two generations of write/read, with the bytes and modification time of the file taken around each read; chain, draw and statistics catalogs for random source/band/shape layouts and orders. Oracle: the value that was written, and the chain re-indexed by position. ~20 s."""
S["C20"] = """Monitored: residual files, bounding images, reassembled whole images and FITS files written from 1-3 overlapping patches of FITS and of pixel-store worlds with exposures of different size and astrometry, padding, fixed sources, with `write_residuals` and `write_to_disk`; the pictures (`show`, `mark_sources`, `residual_pdf`) through the arrays handed to matplotlib; files compared byte for byte around image making. Oracle: the packed arrays of the patch, the input images (when no fixed source was subtracted), astropy for positions. ~20 s."""
S["C21"] = """Monitored: run directories recorded with the real SuperScene check-in log and Result writer (1-6 patches in any order, sources in several patches or in none, tuning draws, optional precision matrices and stored chain catalogs), then every catalog, FITS table, uncertainty, percentile, multi-patch statistic, combination, appended table and region file made from them; all files of the run compared byte for byte around it. Oracle: the monitor's own record of each draw; percentiles by order statistics; covariance by direct inversion; ellipses as second moments against the model's own shear. `chain_pdf` pages are read back through the arrays handed to matplotlib. The unusable legacy `rectify_jades` is not judged. ~26 s."""
S["C22"] = """Monitored: every cell of random catalogs (column order, byte order, float32/64, 16-64 bit identifiers, extra columns, shapes outside their ranges, FITS file or in-memory table, header spacing) before and after ingestion and after being handed to scenes; refusals of missing columns and non-finite values; angle conversions compared as directions. Oracle: the row it came from. ~4 s."""
S["C23"] = """Monitored: every option of the three parsers (plus options, flags, appended values and new defaults a run adds) traced from where it was given - default, YAML file or dictionary, overriding namespace, command line in plain, `=`, abbreviated and explicit-default form - to the namespace received, with environment variables and store directories; files, parser and argument list compared around it. Oracles: the monitor's own precedence and a table of the shipped options (name, type, default). ~10 s."""
S["C24"] = """Monitored: every answer of `fit_mvn_mix` (EM from random and greedy starts, least squares, fits that collapse, underflow or run out of loops), `psf_mixture` on FITS images written to a scratch directory (square or not, f4/f8/i4, cutouts, oversampling, rotated pixel scales), the numpyro models and predictions (`fpv/fakejax.py`: numpy for jax.numpy, `numpyro.sample` replaced by a recorder that draws at random or at the limits, MCMC by prior draws), drawn images and ellipses, the one-dimensional Sersic mixtures and their grid files and tables. Oracles: an independent sum of Gaussians, the identities of an EM fixed point (moments of the mixture = moments of the image, no gain from another step), numerical convolution, incomplete gamma functions. jax and numpyro are not installed, so the NUTS sampler itself is not run. ~45 s."""
S["C25"] = """Monitored: `do_parent` and `do_child` run as threads under `fpv/fakempi.py`, an in-memory MPI (pickled messages, (source, tag) matching without overtaking, non-blocking completion of random subsets, deadlock detection) whose seeded scheduler runs one rank at a time and switches at every communication; random histories of the queue alone; the whole stack with a pixel store, real patches and real sampling/optimisation in the children. Offline over the trace and the files left: one-to-one hand-out and merge, no overlap of outstanding active sources, freshest parameters and covariances in every task, one stop message each, iteration counts, source and patch logs. Worker crashes are outside the property (the code has no recovery). ~35 s."""
S["C26"] = """Monitored: the `.cu` source of the tree, compiled for the host behind `fpv/cuda/shim.h` with `-fsanitize=thread` instrumentation whose hooks are our own (`fpv/cuda/emu.cc`): every load, store and atomic of device, shared and stack memory goes to a shadow that knows bounds, lifetime, initialisation and the last accesses per barrier interval; CUDA threads are fibers run in seeded random order (32 to 1024 per block), warps meet at shuffles, blocks at barriers, and a thread that misses one is reported. `fpv/fakecuda.py` stands in for pycuda and follows each device buffer from allocation to release. Oracles: float64 reference model (as C01/C02), the C++ evaluator, exact equality of the untouched data, buffer accounting. Workloads: random worlds, prepare/rebuild/free histories with fixed and big sources, scenes at and one over each limit, patches of the pixel store. No test can run this code. ~50 s."""
