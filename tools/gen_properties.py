"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}))))

p("P01", "Each weighted event is counted in exactly the bin that contains it",
  "For 1D and 2D irregular binning (where every x column has its own y edges), a bin's content is the sum of the weights of exactly those events with lower edge < value <= upper edge on every axis, using the y edges of the event's own x column; for regular mesh binning it is lower edge <= value < upper edge with the last edge included. Events outside the edges contribute to no bin.",
  ["inputs", "configurations"],
  "all event coordinates (including values on edges, far outside and in the wrong row), all weights (any sign) and all strictly increasing edge sets, within bounded numbers of events and bins",
  "Tests only run random samples through a whole fit and look at shapes and sums; they never compare a bin with an independent count and never sample an event on an edge or a row-dependent edge.",
  ["appletree/hist.py", "appletree/component.py", "appletree/likelihood.py"],
  [("irregular 1D/2D and mesh histogrammers", "appletree/hist.py"), ("dispatch on bins type", "appletree/component.py implement_binning")])
p("P02", "Template normalisation: expected counts are set by the rate parameter",
  "A component normalised on its own distribution yields a template whose bins sum to its rate parameter and are proportional to the weighted counts per bin; a component normalised on simulation yields rate times weighted counts divided by the number of simulated (or, for a fixed component, loaded) events; with bootstrapped Monte Carlo input, by the number of events of its own input that its own selection keeps. When the component asks for a floor, every bin's weighted count is first raised to at least 1e-10 plus the mean weight and never lowered; otherwise it is left untouched.",
  ["inputs", "configurations"],
  "all event coordinates, efficiencies in [0,1], rates, batch sizes and both normalisation modes, floor on/off, simulated and fixed components, within bounded events and bins",
  "Tests check only that a histogram of some shape comes back for the default configuration; the relation between content, rate and batch size for arbitrary inputs is not asserted.",
  ["appletree/component.py"],
  [("normalisation factor", "appletree/component.py get_normalization"), ("floor", "appletree/component.py implement_binning"), ("template", "appletree/component.py simulate_hist")])
p("P03", "Weighted sample reproduces the template",
  "The weighted sample drawn from a component contains exactly the simulated events strictly inside the outer range of every binning axis, in order and with unchanged observables, each weighted by its efficiency times the normalisation of the histogram of these retained events. A likelihood's weighted sample is the concatenation of all its components' samples.",
  ["inputs", "configurations"],
  "all event coordinates, efficiencies, rates and both normalisation modes, for simulated and fixed components, within bounded events and bins",
  "Tests only call it once on default maps and check that nothing raises.",
  ["appletree/component.py", "appletree/likelihood.py"],
  [("clip to ROI", "appletree/component.py _clip"), ("weights", "appletree/component.py simulate_weighted_data"), ("concatenation", "appletree/likelihood.py simulate_weighted_data")])
p("P04", "Binned log likelihood is the Poisson value of the summed template",
  "For binned data the log likelihood equals the sum over bins of data times log(model) minus model, the model being the bin-by-bin sum of all component templates evaluated with the given parameters, each component once. If any model bin is zero, negative, NaN or infinite the result is exactly minus infinity; it is never NaN, and no exception is raised for such models. The number of accepted events reported is the total content of that same summed template.",
  ["inputs", "configurations"],
  "all template contents including zero, negative, NaN and infinite bins and all data counts, within bounded components and bins",
  "Tests evaluate it at a few good parameter points; degenerate templates in combination with data counts are never generated.",
  ["appletree/likelihood.py"],
  [("guards and Poisson sum", "appletree/likelihood.py get_log_likelihood"), ("summing components", "appletree/likelihood.py _simulate_model_hist")])
p("P05", "Literature log likelihood is the efficiency-weighted measurement likelihood",
  "A literature likelihood equals the sum over simulated yields of efficiency times the log density of the configured measurement distribution (two-half normal, normal, or band interpolated linearly in energy with the right upper and lower errors); a NaN total becomes minus infinity and any weighted yield outside the band's energy range makes it minus infinity. It always simulates exactly one batch from exactly one component, and a second component is refused.",
  ["inputs", "configurations"],
  "all energies, yields, efficiencies and batch-size requests, measurement tables with bounded numbers of points",
  "The one test of a literature context runs the default maps and only checks that fitting proceeds.",
  ["appletree/likelihood.py", "appletree/randgen.py"],
  [("literature likelihood", "appletree/likelihood.py LikelihoodLit"), ("densities", "appletree/randgen.py TwoHalfNorm, BandTwoHalfNorm")])
p("P06", "Only data strictly inside the region of interest enter the data histogram",
  "The data of a likelihood are exactly the file rows whose observables are strictly inside the configured clip ranges, in order, and the data histogram counts those rows with unit weight in the configured bins; integer bin specifications span the clip range uniformly and explicit edges are used as given. Inconsistent binning (wrong number of axes, wrong row count, ragged rows, unknown type) is refused.",
  ["inputs", "configurations"],
  "all data values (including exactly on a clip boundary), clip ranges and binning specifications within bounded rows and bins",
  "Tests load fixed files with all values well inside the clip.",
  ["appletree/likelihood.py", "appletree/hist.py"],
  [("data mask", "appletree/likelihood.py Likelihood.__init__"), ("bin edges", "appletree/likelihood.py set_binning")])
p("P07", "Parameter aliases rename exactly the aliased parameters of one likelihood",
  "A likelihood with an alias from A to B simulates with B equal to the caller's A and every other parameter unchanged, reports A instead of B as needed, and never modifies the caller's parameters; likelihoods without aliases see the caller's values. This holds for every entry point taking parameters (likelihood value, weighted sample, accepted events, post-fit templates).",
  ["inputs", "configurations"],
  "all parameter values and alias maps over a bounded set of names with disjoint sources and targets, all entry points",
  "Only one test uses an alias, with one map and one entry point.",
  ["appletree/likelihood.py", "appletree/context.py"],
  [("alias replacement", "appletree/likelihood.py replace_alias, need_replacing_alias, register_component"), ("post-fit template", "appletree/context.py get_template")])
p("P08", "Log prior: sum of prior terms inside, minus infinity outside, the allowed range",
  "The log prior is minus infinity if any fitted parameter lies outside its allowed range, and otherwise the sum of -(x-mean)^2/(2 std^2) for normal priors, the two-half-normal log density (with the sigmas matching the configured 68% errors) for two-half-normal priors, and zero for free and uniform priors. Fixed parameters never contribute.",
  ["inputs", "configurations"],
  "all parameter values and all prior settings, every mixture of prior types over a bounded number of parameters",
  "Tests evaluate one configuration at drawn points inside the ranges.",
  ["appletree/parameter.py", "appletree/randgen.py"],
  [("prior", "appletree/parameter.py log_prior"), ("density", "appletree/randgen.py TwoHalfNorm.logpdf")])
p("P09", "Sampled parameters respect allowed ranges and configured distributions",
  "Sampling from the prior or from the initial guess gives every fitted parameter a value inside its allowed range, namely the draw from its configured distribution (location and scale, bounds, or initial guess, as the prior type requires) clipped to that range; fixed parameters take exactly their configured value. The fitted and fixed names partition the configuration and the fitted ones are listed in sorted order.",
  ["inputs", "configurations"],
  "all random draws and all configuration values, every mixture of prior types over a bounded number of parameters",
  "Tests draw a handful of samples with ranges that rarely clip.",
  ["appletree/parameter.py", "appletree/randgen.py"],
  [("prior sampling", "appletree/parameter.py sample_prior"), ("initial guess", "appletree/parameter.py sample_init")])
p("P10", "Setting and reading parameters is by name and all-or-nothing",
  "After setting parameters by name, list or mapping, reading any of them in any order or form returns the value set and all others are unchanged. Unknown names and mismatched lengths are refused without changing any parameter, and the array of fitted parameters follows the sorted name order.",
  ["inputs", "histories"],
  "all values and bounded sequences of set/get operations with known and unknown names",
  "Not tested apart from single assignments.",
  ["appletree/parameter.py"],
  [("set/get", "appletree/parameter.py set_parameter, get_parameter, parameter_fit_array")])
p("P11", "Log posterior is prior plus all likelihoods, and bypasses simulation off-prior",
  "The log posterior equals the log prior plus the sum of the log likelihoods of all likelihoods, each evaluated once with the proposed parameters (and fixed values), or the mean over the requested number of repetitions; the log prior is returned alongside. If the log prior is not finite the posterior is minus infinity and no likelihood is evaluated; the result is never NaN when the likelihoods are not.",
  ["inputs", "configurations"],
  "all proposed values and all likelihood values including minus infinity, bounded likelihoods and repetitions",
  "Tests only run short chains and check it does not crash.",
  ["appletree/context.py"],
  [("posterior", "appletree/context.py log_posterior")])
p("P12", "Post-fit parameters reflect the current chain",
  "After any history of fitting and continuing, the reported best-fit parameters are the chain sample with the largest log posterior, the median ones are the per-parameter medians, and random ones are a chain sample, each assigned to the right parameter name and completed by the other parameters' current values. Results written next to the chain and reported later always reflect the whole current chain, and asking for them never alters the context.",
  ["inputs", "histories"],
  "all chain values and log posteriors with bounded steps, walkers and parameters; histories of bounded length mixing fit, query and continue",
  "Tests query once after one fit.",
  ["appletree/context.py"],
  [("post parameters", "appletree/context.py get_post_parameters, _dump_meta"), ("continuation", "appletree/context.py continue_fitting")])
p("P13", "Context bookkeeping of copied parameters and needed parameters",
  "For every likelihood that copies a parameter, the copy starts with the source's configuration and the source disappears unless it is a component's rate; no other parameter's configuration changes and the caller's configuration object is left as it was. A context is refused at fitting time exactly when a configured parameter is needed by no component and is not the target of a copy.",
  ["inputs", "configurations"],
  "all configuration values and all copy maps over a bounded set of names and likelihoods",
  "Tests use one instruction file each.",
  ["appletree/context.py"],
  [("copy_parameters", "appletree/context.py update_parameter_config"), ("sanity check", "appletree/context.py _sanity_check")])
p("P14", "The deduced simulation computes every requested quantity by its plugin chain",
  "For any registered set of plugins whose dependencies are acyclic, the compiled simulation returns the requested quantities in the requested order with efficiency last, each computed by the plugin registered last for it from its declared inputs, every needed plugin running exactly once and after its inputs, also when the likelihood has other components. The needed parameters are exactly those declared by the plugins used, those required by their maps, and the rate parameter; a quantity nobody provides is refused.",
  ["inputs", "programs"],
  "all input values and all acyclic dependency structures over a bounded number of plugins, including multi-output plugins, overrides and repeated deduction",
  "Tests compile only the shipped components.",
  ["appletree/component.py", "appletree/plugin.py"],
  [("deduction", "appletree/component.py dependencies_deduce, dependencies_simplify, flush_source_code"), ("plugin consistency", "appletree/plugin.py")])
p("P15", "Random numbers are never reused",
  "Within one simulation, across components of a likelihood, across likelihoods of a posterior evaluation and across repeated simulations, every random draw consumes fresh randomness: no two draws, and no draw and any key handed on, share the same generator state. In particular each sampler's draws are mutually independent and the key it returns differs from all it consumed.",
  ["inputs", "configurations"],
  "all initial keys, every shipped sampler, every shipped component's full simulation and bounded compositions of them",
  "Tests never look at key usage; correlated draws look plausible in any single sample.",
  ["appletree/randgen.py", "appletree/plugins", "appletree/component.py", "appletree/likelihood.py", "appletree/context.py"],
  [("key threading", "appletree/randgen.py, appletree/component.py generated code")])
p("P16", "Repeated simulation concatenates batches and thins consistently",
  "Simulating repeatedly returns, for each observable, the concatenation in order of the batches produced with successive keys; with efficiency applied, exactly the events with positive efficiency remain, the same ones for every observable. Applying efficiency to a component built without it, and asking for less than one repetition (of an already compiled component), are refused.",
  ["inputs", "configurations"],
  "all event values and efficiencies, bounded batches and repetitions",
  "Tests look only at the shape of one call.",
  ["appletree/component.py"],
  [("repeated simulation", "appletree/component.py multiple_simulations")])
p("P17", "Each likelihood uses its own configured values",
  "A configuration value given globally applies to every likelihood, one given per likelihood applies to that likelihood only, and the default applies otherwise; building the components of one likelihood never changes the constants, maps or uncertainty maps already built for another. A per-likelihood table lacking the likelihood, a set of constants of unequal lengths, a missing value without default, and contradictory values for one uncertainty map are refused.",
  ["inputs", "configurations", "histories"],
  "all constant and map values, all ways (absent, global, per likelihood) of configuring them for a bounded number of likelihoods and all build orders",
  "Tests build at most two likelihoods with one dictionary config and never compare values after both exist.",
  ["appletree/config.py", "appletree/plugin.py", "appletree/share.py"],
  [("config resolution", "appletree/config.py _resolve_cached_config, build"), ("isolation", "appletree/plugin.py Plugin.__init__")])
p("P18", "Lineage identifies what a simulation actually uses",
  "The recorded lineage of every component reports the configuration values, map files and file hashes that component itself simulates with, whatever other likelihoods are built before or after it. Two components that differ in any of these (including which scaler an uncertainty map uses), in binning, rate name, normalisation or plugin chain have different lineage hashes, and rebuilding the same one gives the same hash.",
  ["configurations", "histories"],
  "all constant values and per-likelihood configurations for a bounded number of likelihoods and all build orders",
  "Lineage is not checked by any test with two likelihoods.",
  ["appletree/plugin.py", "appletree/config.py", "appletree/component.py", "appletree/likelihood.py"],
  [("lineage", "appletree/plugin.py lineage")])
p("P19", "Resource files are found in the documented order",
  "A requested file resolves to itself if it exists, otherwise to the configured absolute base folder if the file is there, otherwise to the first packaged folder (maps, data, parameters, instructions) that has it, otherwise to the auxiliary package or the download service where these are enabled and have it, and otherwise is refused. A base folder that is not absolute is ignored.",
  ["configurations"],
  "every combination of existing files and base-folder settings",
  "Tests find only packaged files.",
  ["appletree/utils.py"],
  [("lookup", "appletree/utils.py get_file_path, _get_abspath")])
p("P20", "Uncertainty maps interpolate between lower, median and upper curves",
  "An uncertainty map evaluates to the median at scaler 0, the upper map at +1 and the lower map at -1, moving linearly with the scaler on each side (median + s (upper - median) for s > 0, median + s (median - lower) otherwise). The scaler used is the configured one, by default the map's name followed by _sigma, it is reported as needed, and a map given as a single file needs no scaler and evaluates to that file's curve.",
  ["inputs", "configurations"],
  "all positions, scaler values and map contents, every configuration form (string, three or four entries), globally or per likelihood",
  "Tests only run default maps at default scaler values.",
  ["appletree/config.py"],
  [("uncertainty map", "appletree/config.py SigmaMap")])
p("P21", "1D maps interpolate faithfully",
  "On a 1D map with increasing reference points, linear and inverse-distance interpolation return the linear interpolant between the two neighbouring reference values, nearest-neighbour returns the value of a nearest reference point, all three return exactly the reference value at a reference point, and outside the range the value is that of the nearest end point (constant continuation). The result therefore always lies between the smallest and largest of the neighbouring reference values and is finite.",
  ["inputs"],
  "all query positions, strictly increasing reference points and reference values, bounded number of points; point maps and regularly binned 1D maps",
  "Tests compare a smooth function within loose tolerance on random points.",
  ["appletree/interpolation.py", "appletree/config.py"],
  [("1D interpolators", "appletree/interpolation.py curve_interpolator, map_interpolator_linear_1d, map_interpolator_nearest_neighbor_1d, map_interpolator_regular_binning_1d")])
p("P22", "Linear and nearest-neighbour grid maps are exact, local and bounded",
  "On regular 2D and 3D grids, linear interpolation returns the multilinear blend of the corner values of the cell containing the query (the position first clamped into the grid), hence node values at nodes and never anything outside the corner values; nearest-neighbour returns the value of the nearest node along every axis. The axes are never mixed up, whatever the grid shape.",
  ["inputs"],
  "all query positions (inside, outside, on nodes), grid ranges and node values for bounded grid shapes with unequal axes",
  "Tests compare one smooth function within loose tolerance; off-by-one at the last cell and swapped corners of unequal grids are not sampled.",
  ["appletree/interpolation.py", "appletree/config.py"],
  [("grid interpolators", "appletree/interpolation.py")])
p("P23", "Inverse-distance grid maps are bounded averages and exact at nodes",
  "On regular 2D and 3D grids, and for scattered reference points, inverse-distance interpolation of any query inside the grid is the inverse-distance weighted mean of the surrounding corners (or k nearest points): it is finite, lies between the smallest and largest of these values, and equals the node's value at a node. Outside the grid it stays within the range of the map's values and is finite.",
  ["inputs"],
  "all query positions including exact nodes and the upper boundary, grid ranges and node values for bounded shapes",
  "Random test points never hit a node or the upper boundary.",
  ["appletree/interpolation.py"],
  [("inverse distance weighting", "appletree/interpolation.py map_interpolator_regular_binning_2d, _3d, map_interpolator_knn")])
p("P24", "Maps apply coordinate scaling correctly and refuse invalid input",
  "A map interpolates in log10 of exactly the axes declared logarithmic and linearly on the others, never transforming the map's values; a probability density map becomes its normalised cumulative inverse by trapezoid integration, monotone and ending at 1. Maps with non-positive bounds on logarithmic axes, logarithmic density axes, unknown types or methods, or a wrong number of axis types are refused.",
  ["inputs", "configurations"],
  "all coordinates and values of maps with bounded size, all axis-type combinations in 1D, 2D and 3D",
  "Tests compare single grids at random points and one invalid file each.",
  ["appletree/config.py", "appletree/utils.py"],
  [("map building and scaling", "appletree/config.py Map"), ("cumulative", "appletree/utils.py cumulative_integrate_midpoint")])
p("P25", "Electronic-recoil microphysics conserves quanta",
  "For every parameter setting with meaningful values and every random draw, the electronic-recoil models produce integer quanta, ions, excitons, photons and electrons with 0 <= electrons <= ions <= quanta, excitons = quanta - ions and photons + electrons = quanta; recombination probabilities and fluctuation widths passed to samplers lie in [0, 1] and variances are non-negative. Zero energy yields zero quanta without NaN in the Thomas-Imel based model.",
  ["inputs"],
  "all energies, fields, model parameters in their physical domain and all random draws allowed by the samplers' contracts, one event at a time",
  "Tests simulate default parameters and never check conservation.",
  ["appletree/plugins/er_microphys.py", "appletree/plugins/er_nestv2.py"],
  [("ER microphysics", "appletree/plugins/er_microphys.py, appletree/plugins/er_nestv2.py")])
p("P26", "Nuclear-recoil microphysics conserves quanta",
  "For every parameter setting with meaningful values and every random draw, the nuclear-recoil models produce non-negative yields and integer counts with 0 <= electrons <= ions, quanta = ions + excitons, photons >= excitons and photons + electrons = quanta; mean photon and electron numbers follow yield times energy and are both zero when their sum is below one. Events without quanta give zero photons and electrons and finite intermediate values.",
  ["inputs"],
  "all energies, fields, model parameters in their physical domain and all random draws allowed by the samplers' contracts, one event at a time",
  "Tests simulate default parameters and never check conservation.",
  ["appletree/plugins/nestv2.py", "appletree/plugins/lyqy.py"],
  [("NR microphysics", "appletree/plugins/nestv2.py, appletree/plugins/lyqy.py")])
p("P27", "The detector and reconstruction chain never creates or loses signal wrongly",
  "For all parameters and draws, detected photons never exceed produced photons, drifted electrons never exceed produced electrons, photoelectrons lie between one and two per detected photon, survival probabilities lie in (0, 1], and the probabilities and rates handed to samplers are those implied by gains and maps and lie in their valid domain. Reconstructed positions and areas equal the true ones plus the drawn smearing, and corrected signals equal the area divided by the position-dependent correction (and electron survival).",
  ["inputs"],
  "all counts, positions, parameters in their physical domain, map values and random draws, one event at a time",
  "Tests run the chain at default parameters and look at nothing inside it.",
  ["appletree/plugins/detector.py", "appletree/plugins/reconstruction.py"],
  [("detector chain", "appletree/plugins/detector.py"), ("reconstruction", "appletree/plugins/reconstruction.py")])
p("P28", "Efficiencies are probabilities and the total is their product",
  "Every efficiency is within [0, 1] for any map content and scaler, the threshold acceptance is 1 strictly above the threshold and 0 otherwise, and the total efficiency is the product of the individual ones. Literature energy selection gives weight 1 exactly to central energies inside the closed configured range and 0 to others.",
  ["inputs", "configurations"],
  "all areas, counts, thresholds, scalers and map contents",
  "Tests use default maps that are already inside [0, 1].",
  ["appletree/plugins/efficiency.py", "appletree/plugins/nestv2.py", "appletree/plugins/er_nestv2.py"],
  [("efficiencies", "appletree/plugins/efficiency.py")])
p("P29", "Generated energies and positions stay in their configured support",
  "Uniform spectra lie within their configured limits, mono-energetic spectra equal the configured energy, spectra from a distribution lie within the tabulated energies and follow the inverse cumulative of the drawn probability, literature spectra are non-negative with their centres unchanged, and positions fall inside the configured cylinder with squared radius uniform. Each returns one value per requested event (and per literature point).",
  ["inputs", "configurations"],
  "all draws, all configured limits and tables within bounded sizes",
  "Tests run only default limits.",
  ["appletree/plugins/common.py", "appletree/plugins/nestv2.py"],
  [("spectra", "appletree/plugins/common.py")])
p("P30", "Samplers respect support, location, scale and shape",
  "Every random sampler applies its parameters elementwise with broadcasting (or to the explicitly requested shape) as location, scale, probability, bounds and rate in the documented roles, returning values in the distribution's support: counts within [0, n] for binomials and non-negative for Poisson-like ones, within bounds for uniform and truncated ones, above or below the centre with the right scale for two-sided normals. The hybrid binomial is exact for small n, within [0, n] for large n and exact at p = 0, p = 1 and n = 0.",
  ["inputs"],
  "all parameters in their domain, all random draws allowed by the underlying generators' contracts, bounded shapes and trial counts",
  "Tests do not test samplers directly.",
  ["appletree/randgen.py"],
  [("samplers", "appletree/randgen.py")])
p("P31", "Two-half-normal density and sampler are consistent",
  "The two-half-normal log density is that of a normalised density with common peak at the centre, upper width above and lower width below it, and the sampler goes above the centre with probability upper/(upper+lower) with absolute-normal steps scaled by the width of the chosen side, for scalar and array requests alike. Non-positive widths are refused.",
  ["inputs"],
  "all values, centres and positive widths, and all draws",
  "Tests never evaluate it away from defaults.",
  ["appletree/randgen.py"],
  [("two-half normal", "appletree/randgen.py TwoHalfNorm, twohalfnorm")])
p("P32", "Equiprobable binning uses only selected data and stays in the clip range",
  "Equiprobable binning passes exactly the data strictly inside the clip ranges to the partitioner with the requested number of partitions, axis order, integer flags and side, and the edges it returns are those of the partitioner with everything outside the clip range replaced by the clip bounds, x edges by the x range and y edges by the y range.",
  ["inputs", "configurations"],
  "all data, clip ranges and partitioner results within bounded sizes",
  "Tests use data inside the clip only.",
  ["appletree/utils.py", "appletree/likelihood.py"],
  [("equiprobable bins", "appletree/utils.py get_equiprob_bins_1d, get_equiprob_bins_2d")])
p("P33", "Plot helpers describe the same grid as the interpolation",
  "Bin centres used for plotting coincide with the interpolation nodes, edges are strictly increasing, interleave with the centres and lie midway between them on linear axes (in log space on logarithmic ones); collapsing axes averages over exactly the nodes inside the requested closed range along the named axes and keeps the description of every remaining axis. Maps collected from a context are those its components actually use.",
  ["inputs", "configurations"],
  "all grid ranges, map values and ranges for bounded shapes, all subsets of axes",
  "Tests check a few fixed grids.",
  ["appletree/plot.py"],
  [("edges and collapse", "appletree/plot.py _regbin_edges_centers, _collapse_regbin_map, _collect_maps")])
p("P34", "Extensions never silently replace existing plugins or components",
  "Registering a user class or module whose name already exists is refused and leaves the existing one in place, unless forced, in which case it replaces it; base classes and unrelated classes are never added. Registering plugins that give one configuration two different defaults is refused.",
  ["configurations", "histories"],
  "all combinations of existing names, force flags and default values",
  "Tests never register extensions with clashing names.",
  ["appletree/utils.py", "appletree/component.py"],
  [("extensions", "appletree/utils.py add_extensions, _add_extension"), ("default clash", "appletree/component.py register")])
p("P35", "GPU memory fraction setting equals the request",
  "Requesting a memory fraction sets the accelerator's memory fraction to that value rounded down to a percent, at most 0.99, for every positive request; non-positive requests are refused.",
  ["inputs"],
  "all real-valued requests",
  "Not tested.",
  ["appletree/utils.py"],
  [("memory fraction", "appletree/utils.py set_gpu_memory_usage")])
p("P36", "A context restored from its chain file equals the one that wrote it",
  "After any fit with a chain file, restoring a context from that file gives the same instructions (whatever JSON values they hold), the same likelihoods, prior configuration and global configuration values, the walkers and batch size of the fit, and the stored chain: it reports the same post-fit parameters and continuing adds to that chain. A renamed file is used under its new name.",
  ["inputs", "configurations", "histories"],
  "all instruction contents, configuration values and chain samples over a bounded number of likelihoods, parameters and steps",
  "Tests restore one fit of one fixed instruction file.",
  ["appletree/context.py", "appletree/share.py"],
  [("restore", "appletree/context.py from_backend"), ("metadata", "appletree/context.py _dump_meta")])
p("P37", "Chain plots show the recorded chain",
  "Plots of a finished fit show the recorded chain and nothing else: iterations with an infinite or undefined log posterior are dropped, everything kept is drawn, per walker, at the number of its own iteration (whatever is discarded, thinned or dropped), each panel labelled by its parameter; marginal and corner plots use exactly the kept samples, with the configured prior density of that parameter (normal, uniform, two-half-normal; none for free parameters) and the sample of the largest log posterior as the best fit; acceptance fractions are those of the recorded steps so far and in the window.",
  ["inputs", "configurations", "histories"],
  "all recorded chains of bounded length, all priors and discard and thin settings",
  "Tests draw one short chain and check that a figure comes back.",
  ["appletree/plot.py"],
  [("chain plots", "appletree/plot.py Plotter")])
p("P38", "Profiles time exactly the plugins in use",
  "Profiling a plugin runs it exactly as often as asked (warm-up and timed), chaining the random generator from run to run, and reports mean and spread in milliseconds of exactly the timed runs, each including the wait for all its results. Profiling a component times every plugin of its worksheet in order, with the very instances (so configured values) the simulation uses, fed with the outputs in use; profiling a context covers every simulated component of every likelihood and no other, with the parameters under that likelihood's aliases, and never alters parameters or inputs it was given.",
  ["inputs", "configurations"],
  "all durations, plugin graphs and contexts of bounded size",
  "Tests look at the keys of the result on one component.",
  ["appletree/profiler.py", "appletree/likelihood.py"],
  [("profiles", "appletree/profiler.py profile_plugin, profile_component, profile_context, profile_full_simulation")])
p("P39", "Dependency graphs and option listings show exactly what is computed",
  "The dependency graph of a component has one node per quantity that is needed and one arrow per dependency and none for anything else, also with overridden and multiple outputs; the plugin graph likewise for plugins, labelled with data names on every node when asked and on none otherwise. The option listing names every option of every needed plugin once and no other, with its default and the value in force for the component's likelihood; the worksheet listing names every executed plugin once, after what it depends on; printed and saved code is the code of the simulation.",
  ["configurations"],
  "all acyclic plugin graphs of bounded size, requested quantities and option settings",
  "Tests only draw the graph of one shipped component.",
  ["appletree/utils.py", "appletree/component.py", "appletree/profiler.py"],
  [("dependency graphs", "appletree/utils.py add_deps_to_graph_tree, add_plugins_to_graph_tree"), ("listings", "appletree/component.py show_config")])
p("P40", "Irregular histograms are drawn bin by bin",
  "The irregular two-dimensional histogram plot draws one rectangle per bin at that bin's own edges, coloured by its content, or by content divided by the bin's area when drawing densities, on a colour scale that spans the drawn values or the given range, and axes that cover all bins.",
  ["inputs"],
  "all increasing edges and contents for bounded numbers of bins",
  "Tests never draw irregular histograms with known contents.",
  ["appletree/utils.py"],
  [("irregular histogram", "appletree/utils.py plot_irreg_histogram_2d")])
p("P41", "Options that nothing uses are reported, and only those",
  "At any point of a session, the check for unused options gives at most one warning, naming exactly the globally given options that no plugin or lookup has used in the session, and there is none if all were used; listing options is not a use, and clearing the session forgets settings and uses.",
  ["histories", "configurations"],
  "all histories of bounded length over options of every kind",
  "Tests never call the check.",
  ["appletree/utils.py", "appletree/share.py", "appletree/config.py"],
  [("unused options", "appletree/utils.py check_unused_configs"), ("recording", "appletree/share.py RecordingDict")])
p("P42", "A dumped lineage reads back as the lineage",
  "Dumping the lineage of any plugin, component, likelihood or context succeeds whatever options and bins it has and writes JSON that reads back as exactly that lineage, in the same nesting and values.",
  ["inputs", "configurations"],
  "all option values and bin edges over entities of bounded size",
  "Tests never dump a lineage.",
  ["appletree/utils.py", "appletree/config.py", "appletree/component.py"],
  [("dump", "appletree/utils.py dump_lineage"), ("lineages", "appletree/config.py lineage")])
def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
if __name__ == "__main__":
    main()
