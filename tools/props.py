"""Source of /verif/properties.jsonl.  Run: python3 tools/props.py > properties.jsonl"""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "Every prior distribution is a single self-consistent distribution",
     "For every shipped prior and every allowed setting of its parameters, the unit-interval transform, the cumulative "
     "distribution, the density, the log-density and the samples describe one and the same normalised distribution with "
     "the stated support, boundaries included. Scalar and array inputs give the same answers element by element, and inputs are "
     "never modified. Changing a prior's bounds or its other numerical settings after construction gives the same distribution as "
     "constructing it with those settings.",
     ["inputs", "configurations", "histories"],
     "all shipped prior classes x a lattice of parameter settings (incl. edge exponents, one-sided and wide bounds) x a "
     "lattice of quantiles/values incl. end points and points outside x input containers x all short setter histories",
     "the parametrised prior tests fix one setting per prior (and are not runnable everywhere); they never enumerate "
     "settings x quantiles x setter histories",
     ["bilby/core/prior/base.py", "bilby/core/prior/analytical.py", "bilby/core/prior/interpolated.py",
      "bilby/core/prior/slabspike.py", "bilby/gw/prior.py"],
     [("transform/density/cdf triple per class", "bilby/core/prior/analytical.py"),
      ("interpolated tables rebuilt on setter", "bilby/core/prior/interpolated.py:Interped"),
      ("spike position / slab fraction bookkeeping", "bilby/core/prior/slabspike.py")],
     observe=["Prior.rescale", "Prior.prob", "Prior.ln_prob", "Prior.cdf", "Prior.sample", "Prior.is_in_prior_range"])

prop("C02", "A prior collection's behaviour depends on its contents, not its history",
     "After any sequence of insertions, replacements, deletions, updates, bound edits, copies and evaluations, a "
     "collection of priors samples, transforms, evaluates (log) probabilities and reports its fixed and free parameters "
     "exactly as a newly built collection with the same contents does. Copies are equal to the original and independent "
     "of it, and building a collection from user data never alters that data.",
     ["histories"],
     "all operation sequences up to the stated depth over a small alphabet of keys, priors (free, fixed, constrained, "
     "conditional, joint) and calls on unconditional and conditional collections",
     "tests call each method once on a freshly built collection; stale caches and orderings need edit-then-evaluate histories",
     ["bilby/core/prior/dict.py", "bilby/gw/prior.py"],
     [("normalisation cache", "bilby/core/prior/dict.py:PriorDict.normalize_constraint_factor"),
      ("resolution of conditional order", "bilby/core/prior/dict.py:ConditionalPriorDict._resolve_conditions"),
      ("dict mutators", "bilby/core/prior/dict.py:ConditionalPriorDict.__setitem__/__delitem__")],
     state=[("constraint-normalisation cache", "factor used by prob/ln_prob", "dict.py"),
            ("resolved order / rescale indexes", "evaluation order of dependent priors", "dict.py")],
     observe=["PriorDict.sample", "PriorDict.prob", "PriorDict.rescale", "non_fixed_keys", "fixed_keys"])

prop("C03", "Conditional priors honour their dependency graph in any order",
     "For every acyclic dependency graph between priors and every order of declaration and of the supplied values, "
     "sampling and the unit-cube transform draw each parameter from its conditional distribution given its actual parents, "
     "and the joint (log) probability is the product (sum) of those conditionals at the given point. The transform is the "
     "exact inverse of the successive conditional cumulative distributions, regardless of earlier evaluations, for single "
     "points and arrays alike. Cyclic or unsatisfiable dependencies are rejected with an error.",
     ["configurations", "histories", "inputs"],
     "all labelled dependency digraphs on up to 3 (4 in thorough) parameters x declaration orders x key orders x scalar/array "
     "arguments x earlier evaluations at other points",
     "tests use one chain of conditions in one order",
     ["bilby/core/prior/dict.py", "bilby/core/prior/conditional.py"],
     [("topological resolution", "bilby/core/prior/dict.py:ConditionalPriorDict"),
      ("parameter refresh before evaluation", "bilby/core/prior/conditional.py:update_conditions")],
     state=[("current conditional parameters", "bounds set by the last evaluation", "conditional.py"),
            ("least recently sampled", "value children condition on", "base.py")],
     observe=["ConditionalPriorDict.sample/prob/ln_prob/rescale/cdf"])

prop("C04", "Constraints cut the prior and its density stays normalised",
     "When a collection of priors contains constraints, every sample satisfies all constraints, the (log) probability is "
     "zero (minus infinity) exactly where a constraint or a prior range is violated, and elsewhere equals the product of "
     "the individual densities divided by the prior mass of the allowed region. Constraints may be on sampled or derived "
     "quantities, and multiple constraints combine as a conjunction, for scalar and array arguments.",
     ["inputs", "configurations"],
     "all subsets of a set of constraints (direct, derived, one-sided, two-sided) over small prior collections, a lattice "
     "of points including the edges, sample sizes 0-d, 1 and n",
     "tests sample one constraint; normalisation and edge points over combinations are not enumerated",
     ["bilby/core/prior/dict.py", "bilby/core/prior/base.py", "bilby/gw/prior.py", "bilby/gw/conversion.py"],
     [("evaluate_constraints / sample_subset_constrained", "bilby/core/prior/dict.py"),
      ("normalisation factor", "bilby/core/prior/dict.py:normalize_constraint_factor")],
     observe=["PriorDict.sample", "PriorDict.prob", "PriorDict.ln_prob", "PriorDict.evaluate_constraints"])

prop("C05", "Correlated priors act as one distribution whatever the request order",
     "The members of a joint prior, requested in any order, subset interleaving or repetition, yield values of one joint "
     "draw/transform of the underlying multivariate distribution, and their joint density is counted exactly once. "
     "Densities vanish outside the bounds in any dimension, weight and normalise all mixture components correctly, and an "
     "interrupted or incomplete request never leaks into a later one.",
     ["histories", "configurations", "inputs"],
     "all orders of member requests, all histories of incomplete or failing requests up to a depth, all "
     "combinations of in/out of bounds per dimension, mixtures of 1-2 modes",
     "tests transform and evaluate members once in natural order",
     ["bilby/core/prior/joint.py", "bilby/core/prior/dict.py", "bilby/gw/prior.py"],
     [("request bookkeeping", "bilby/core/prior/joint.py:BaseJointPriorDist/JointPrior"),
      ("mixture density", "bilby/core/prior/joint.py:MultivariateGaussianDist")],
     state=[("requested parameters / rescale parameters", "pending member values", "joint.py")],
     observe=["PriorDict.rescale", "PriorDict.prob", "PriorDict.sample", "JointPrior.ln_prob"])

prop("C06", "Prior specifications survive text, file and JSON round trips",
     "Any prior or collection of priors written as its textual form, as a prior file or as JSON and read back is equal to "
     "the original: same classes, parameters, names, labels, units, boundaries, dependencies and constraints, and same "
     "behaviour. Comments, blank lines, key order and numeric formatting in prior files do not alter the meaning.",
     ["inputs", "configurations"],
     "every shipped prior class x parameter lattice (tiny, huge, infinite, negative, numpy scalar values) x "
     "names/labels/units with special characters x three encodings x nested/composite priors",
     "round-trip tests use a fixed list of defaults and are not run in this environment",
     ["bilby/core/prior/base.py", "bilby/core/prior/dict.py", "bilby/core/utils/io.py"],
     [("repr / from_repr", "bilby/core/prior/base.py"), ("to_file/from_file/to_json/from_json", "bilby/core/prior/dict.py"),
      ("JSON codec", "bilby/core/utils/io.py")],
     observe=["repr(prior)", "PriorDict.to_file/from_file", "PriorDict.to_json/from_json"])

prop("C07", "Saved results read back identically in every format",
     "A result saved in any supported format (with or without compression, at any file name) and read back has the same "
     "posterior, nested samples, evidences, priors, settings and metadata as the result that was saved. Saving, reading "
     "and producing derived quantities leave the in-memory result and caller-supplied objects unchanged, and saving "
     "without permission to overwrite preserves the previous file.",
     ["inputs", "configurations", "histories"],
     "format x compression x which optional fields are present x value kinds (nan/inf, complex, int, str, nested dict, "
     "arrays, priors) x save/load histories of depth up to 3",
     "tests save one toy result once per format",
     ["bilby/core/result.py", "bilby/core/utils/io.py", "bilby/gw/result.py"],
     [("format writers/readers", "bilby/core/result.py:Result.save_to_file/from_*"),
      ("encoders", "bilby/core/utils/io.py")],
     observe=["Result.save_to_file", "read_in_result"])

prop("C08", "A crash while saving never loses the last good checkpoint or result",
     "If the process dies at any point while a checkpoint, resume file, result or cached table is being (re)written, the "
     "next start finds either the complete previous version or the complete new version, never a truncated, mixed or "
     "missing file. Leftover temporary files from a crash do not prevent or corrupt later saves and resumes.",
     ["crash_points"],
     "every file-system operation of a write history, before and after each one and within each write (torn), followed by "
     "restart and recovery, for each persisting component",
     "tests never kill the process inside a write",
     ["bilby/core/utils/io.py", "bilby/core/sampler/base_sampler.py", "bilby/core/sampler/dynesty.py",
      "bilby/core/sampler/ptemcee.py", "bilby/bilby_mcmc/sampler.py", "bilby/core/result.py", "bilby/gw/likelihood/base.py"],
     [("write-to-temporary-then-move", "bilby/core/utils/io.py:safe_file_dump"),
      ("resume file reading", "bilby/core/sampler/dynesty.py:read_saved_state")],
     observe=["files on disk after a simulated crash", "reader functions"])

prop("C09", "An interrupted analysis stops cleanly and resumes to the same answer",
     "Whenever a termination signal arrives while sampling, the analysis ends with a usable checkpoint and the configured "
     "exit code, and restarting it continues from that checkpoint and completes. For the samplers with exact resume, the "
     "completed posterior, evidence and likelihood-call accounting equal those of the uninterrupted run or a continuation of "
     "it, with no sample lost, duplicated or mixed. Previously installed signal handling is restored after sampling ends.",
     ["crash_points", "schedules", "histories"],
     "every iteration/likelihood call at which the signal can land, one or two successive interruptions, each signal, for the "
     "resumable samplers on a small problem",
     "tests interrupt at one random wall-clock time",
     ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler/dynesty.py", "bilby/core/sampler/ptemcee.py",
      "bilby/core/sampler/emcee.py", "bilby/bilby_mcmc/sampler.py"],
     [("signal wrapper", "bilby/core/sampler/base_sampler.py:signal_wrapper"),
      ("write_current_state / read_saved_state", "sampler modules")],
     observe=["run_sampler exit code", "resume file", "final result"])

prop("C10", "Rerunning an analysis reuses a finished result only when it matches",
     "Running an analysis whose finished result already exists returns that stored result without sampling again, exactly "
     "when its parameters, priors and description of the likelihood match the requested ones and a clean start was not "
     "asked for by that call; otherwise sampling is done afresh, whatever format it was saved in and whatever ran before. The "
     "returned result is the same in content however it was obtained, and each stage (conversion, saving) is applied once.",
     ["configurations", "histories"],
     "all pairs/triples of run requests over a lattice of settings (priors, parameters, likelihood, clean, save "
     "format, conversion) against an oracle of when reuse is allowed",
     "tests run a sampler once per configuration",
     ["bilby/core/sampler/__init__.py", "bilby/core/sampler/base_sampler.py"],
     [("cached result check", "bilby/core/sampler/base_sampler.py:check_cached_result"),
      ("run_sampler", "bilby/core/sampler/__init__.py")],
     observe=["run_sampler"])

prop("C11", "Every posterior sample carries its own likelihood, prior and parameters",
     "In the result of every sampler, each posterior row's log-likelihood and log-prior equal the model's values at that "
     "row's parameters, fixed and derived parameters are present and correct, and all rows lie within the prior. "
     "Evidence values, information and sample counts in the result are mutually consistent.",
     ["configurations", "inputs"],
     "all installed samplers x options that change the bookkeeping (walkers, burn-in, thinning, ratio/likelihood, "
     "fixed/conditional/constrained priors, pools) on a small problem",
     "tests only check that samplers run",
     ["bilby/core/sampler/emcee.py", "bilby/core/sampler/kombine.py", "bilby/core/sampler/zeus.py",
      "bilby/core/sampler/ptemcee.py", "bilby/core/sampler/dynesty.py", "bilby/core/sampler/nestle.py",
      "bilby/core/sampler/base_sampler.py", "bilby/core/result.py"],
     [("sample/likelihood flattening", "sampler run_sampler methods"),
      ("samples_to_posterior", "bilby/core/result.py")],
     observe=["result.posterior", "result.log_likelihood_evaluations", "result.log_evidence"])

prop("C12", "Reweighting gives correct importance weights and spares its input",
     "Reweighting a result to a new likelihood and/or prior yields weights equal to the ratio of new to old "
     "likelihood-times-prior for every sample, and the evidence, log-likelihood and log-prior of the new result follow from "
     "them. The original result is left unchanged, parallel, checkpointed, interrupted-and-resumed and single-process "
     "reweighting give the same answer.",
     ["inputs", "crash_points", "configurations"],
     "old/new likelihood x old/new prior presence lattice x all interruption points of the checkpointed pass x pool sizes "
     "on a small result; all uniform-variate answers of the rejection step on a lattice",
     "tests reweight once without interruption",
     ["bilby/core/result.py"],
     [("get_weights_for_reweighting", "bilby/core/result.py"), ("rejection_sample", "bilby/core/result.py"),
      ("reweight", "bilby/core/result.py")],
     observe=["reweight", "get_weights_for_reweighting"])

prop("C13", "Combining results preserves samples and evidence",
     "Combining results of the same analysis gives a posterior made of samples of the inputs, each kept at most once and, for nested "
     "sampling runs, with probability in proportion to the evidence of its run (all of them for chains); the combined evidence is the "
     "mean of the evidences with the uncertainty that follows from theirs, and the inputs are not altered. Results that "
     "disagree on priors, parameters, sampler or data are rejected, irrespective of their order in the list.",
     ["inputs", "configurations"],
     "all lists of 1-3 results over a small pool (nested / chain samplers, equal / different evidences, each kind of "
     "inconsistency) and all their orders",
     "tests combine one consistent pair",
     ["bilby/core/result.py"],
     [("ResultList.combine and consistency checks", "bilby/core/result.py")],
     observe=["ResultList.combine"])

prop("C14", "Samplers explore exactly the posed posterior",
     "The target given to a sampler maps each parameter vector to the named parameters in a fixed order together with "
     "fixed parameters and derived quantities, and returns the log-likelihood (ratio) plus log-prior of that point, minus "
     "infinity outside the prior. The prior transform is that of the prior collection. The values do not depend on the number "
     "of worker processes, on batch or single evaluation, or on earlier evaluations. Moves proposed to a library (dnest4) and the "
     "bounds and unit cube mapping given to it (nessai) are those of the prior. pymc, which poses its own model, is excluded.",
     ["inputs", "configurations", "histories"],
     "problem shapes (free/fixed/constrained/conditional/joint parameters, ratio or not, redundant) x points on a lattice "
     "incl. outside x evaluation histories x serial/pool",
     "tests evaluate a mocked sampler once",
     ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler/dynesty.py", "bilby/core/sampler/ptemcee.py",
      "bilby/core/sampler/emcee.py", "bilby/bilby_mcmc/sampler.py"],
     [("log_likelihood/log_prior/prior_transform", "bilby/core/sampler/base_sampler.py:Sampler")],
     observe=["Sampler.log_likelihood", "Sampler.log_prior", "Sampler.prior_transform"])

prop("C15", "A seeded analysis is reproducible",
     "With the same seed and settings, every random operation (prior sampling, noise generation, sampling, resampling, "
     "posterior reconstruction, chain generation) gives identical output, whatever ran before the seeding, and different "
     "seeds give different output. Results never depend on the state of other libraries' global generators.",
     ["histories", "configurations"],
     "all random entry points x all ordered pairs of preceding operations (incl. disturbing the global numpy and python "
     "generators) x seeds",
     "tests check a single seed on a single call",
     ["bilby/core/utils/random.py", "bilby/core/prior", "bilby/core/sampler", "bilby/gw/detector"],
     [("package generator", "bilby/core/utils/random.py")],
     observe=["outputs of random entry points"])

prop("C16", "Sampler settings are translated, never silently lost or altered",
     "Every documented equivalent name for a sampler setting has the same effect as the native name, explicitly given "
     "values always override defaults, and unrecognised settings are reported rather than applied to something else. "
     "Building a sampler never changes the dictionary of settings supplied by the user, and settings of one sampler never "
     "leak into another.",
     ["configurations", "histories"],
     "every installed sampler x every equivalent name of each setting, alone and in pairs, with and without the native name",
     "tests check a handful of names per sampler",
     ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler"],
     [("_translate_kwargs/_verify_kwargs_against_default_kwargs", "bilby/core/sampler/base_sampler.py")],
     observe=["Sampler.kwargs after construction"])

prop("C17", "The chain store returns exactly what was appended",
     "A chain records every appended sample with its likelihood and prior in order, across array growth, thinning, "
     "burn-in changes, saving and reloading. Indexing, the current sample, the burn-in estimate and the thinned samples are "
     "functions of the recorded sequence and the current settings (an estimated autocorrelation length may be kept between "
     "recomputations), not of the history of queries, and overwriting the latest sample also changes the state the chain continues from.",
     ["histories"],
     "all operation sequences up to the stated depth over append/overwrite/query/pickle with small block sizes, against a "
     "list model",
     "tests append a few samples and read once",
     ["bilby/bilby_mcmc/chain.py"],
     [("Chain append/resize", "bilby/bilby_mcmc/chain.py:Chain"), ("index caches", "bilby/bilby_mcmc/chain.py")],
     state=[("chain array / position", "stored samples", "chain.py"), ("cached indices", "burn-in", "chain.py")],
     observe=["Chain methods"])

prop("C18", "Every MCMC move leaves the target distribution invariant",
     "For each proposal, the returned log-ratio correction makes the move reversible with respect to the target, so the "
     "acceptance rule preserves the posterior. Proposed points respect the declared boundary behaviour of each parameter "
     "(reflected, wrapped, or rejected when outside) and never change parameters that the move does not own. Moves drawing on the "
     "history of the chain or an ensemble do so for a history which does not contain the current point.",
     ["inputs", "configurations"],
     "every proposal x small spaces x a lattice of all random-number answers the move can receive",
     "tests run one proposal with random seeds and only check the type",
     ["bilby/bilby_mcmc/proposals.py", "bilby/core/sampler/proposal.py", "bilby/bilby_mcmc/sampler.py"],
     [("proposal classes and log factors", "bilby/bilby_mcmc/proposals.py"),
      ("reflective/periodic boundary handling", "bilby/core/sampler/proposal.py")],
     observe=["proposal(chain) -> (sample, log_factor)"])

prop("C19", "Parallel tempering keeps each chain's state and temperature coherent",
     "In tempered sampling, each step of each chain accepts with the tempered Metropolis-Hastings probability, exchanges "
     "between temperatures accept with the exchange probability and swap complete states, and recorded samples always carry "
     "their own likelihood and prior. Evidence estimates use every temperature with its own inverse temperature.",
     ["schedules", "inputs", "histories"],
     "all sequences of step/swap outcomes up to the stated depth with the random answers enumerated around the acceptance "
     "threshold, 1-3 temperatures and 1-2 ensembles",
     "tests run the sampler end to end once",
     ["bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/chain.py"],
     [("BilbyPTMCMCSampler / swap_tempered_chains", "bilby/bilby_mcmc/sampler.py")],
     observe=["chains after each step"])

prop("C20", "Core likelihoods equal their defining formula at the current parameters",
     "Each built-in likelihood returns the log of its stated density summed over the data at its current parameters, "
     "including normalisation, minus infinity for impossible values, and a joint likelihood returns the sum of its parts. The "
     "value and the noise evidence depend only on the current data and parameters, not on earlier evaluations or the order in "
     "which parameters were set, and the likelihood ratio is their difference.",
     ["inputs", "histories", "configurations"],
     "every built-in likelihood x data/parameter lattices x fixed-or-free uncertainty x evaluation histories",
     "tests compare single points",
     ["bilby/core/likelihood.py", "bilby/core/utils/introspection.py"],
     [("log_likelihood methods", "bilby/core/likelihood.py")],
     observe=["log_likelihood", "noise_log_likelihood", "log_likelihood_ratio"])

prop("C21", "Population likelihoods average importance weights per event",
     "The hierarchical likelihood equals the sum over events of the log of the average, over that event's posterior samples, "
     "of the population model over the sampling prior, plus the sum of event evidences where applicable. Equal-size "
     "truncation uses the same number of actual samples of each event, and composite models are products evaluated at the "
     "current parameters, whatever was evaluated before.",
     ["inputs", "histories", "configurations"],
     "sets of 1-3 events of unequal sizes x with/without prior and evidences x models (1-3 factors, cached or not) x "
     "histories of evaluations",
     "tests check types and single evaluations",
     ["bilby/hyper/likelihood.py", "bilby/hyper/model.py"],
     [("HyperparameterLikelihood", "bilby/hyper/likelihood.py"), ("Model caching", "bilby/hyper/model.py")],
     observe=["log_likelihood_ratio", "Model.prob"])

prop("C22", "Grid evaluation marginalises consistently over any axes",
     "A grid evaluated from a likelihood and priors holds the likelihood and prior at each grid point, and its marginal "
     "(log) likelihoods, posteriors and evidence over any set of parameters agree with direct numerical integration in any "
     "order of parameters. Saved grids read back identically.",
     ["configurations", "inputs"],
     "all subsets of 1-3 parameters to marginalise x list/str/array/int grid specifications x orders x save/load",
     "tests marginalise one or two subsets",
     ["bilby/core/grid.py", "bilby/core/utils/calculus.py"],
     [("Grid.marginalize*", "bilby/core/grid.py")],
     observe=["Grid methods"])

prop("C23", "Time and frequency representations always describe the same data",
     "Time and frequency axes agree with duration, sampling rate and start time, transforms to the frequency domain and "
     "back are mutually inverse with the stated normalisation, for any even number of samples. However the axis is "
     "specified and in whatever order settings change, both axes and all derived quantities refer to the latest settings; "
     "incompatible settings are rejected.",
     ["histories", "inputs"],
     "all setter/getter sequences up to the stated depth over small axes x array lengths x sampling rates",
     "tests set each attribute once",
     ["bilby/core/series.py", "bilby/core/utils/series.py"],
     [("CoupledTimeAndFrequencySeries", "bilby/core/series.py"), ("nfft/infft", "bilby/core/utils/series.py")],
     observe=["time_array", "frequency_array", "nfft", "infft"])

prop("C24", "The waveform generator returns the waveform of the current request",
     "A waveform request returns the model evaluated at the requested parameters, converted as configured, on the current "
     "axis, whether or not an earlier call was cached and whether time- or frequency-domain output is requested from either "
     "kind of model. Requests modify neither the caller's parameters nor earlier returned waveforms.",
     ["histories"],
     "all sequences up to the stated depth over requests (2 domains x parameter sets with extra/missing/converted keys), axis "
     "and argument changes and rejected requests, against a freshly built generator",
     "tests use one request per generator",
     ["bilby/gw/waveform_generator.py"],
     [("result cache and conversion", "bilby/gw/waveform_generator.py")],
     state=[("cache of last request", "parameters/waveform/model/domain", "waveform_generator.py")],
     observe=["frequency_domain_strain", "time_domain_strain"])

prop("C25", "Detector data always reflect the data last set",
     "Whatever was stored before, setting strain data in any supported way leaves a detector whose time and frequency series, "
     "axes, band limits, mask, window correction and noise weighting are those of a detector newly given the same data. "
     "Injections add the projected signal exactly once and report its true signal-to-noise, and samples outside the "
     "analysis band never contribute.",
     ["histories", "configurations"],
     "all sequences up to the stated depth over data setters (time, frequency, noise-free, from spectral density, library "
     "series), band/window edits and property reads in either domain, against a fresh object",
     "tests set data once per object",
     ["bilby/gw/detector/strain_data.py", "bilby/gw/detector/interferometer.py"],
     [("lazy domain conversion and mask", "bilby/gw/detector/strain_data.py")],
     state=[("time/frequency strain caches", "lazy conversion", "strain_data.py"), ("frequency mask", "band cache", "strain_data.py")],
     observe=["InterferometerStrainData and Interferometer properties"])

prop("C26", "Noise spectra are consistent between amplitude, power and noise draws",
     "However a noise spectrum is specified (power or amplitude array, either kind of file, changed later), the power "
     "spectrum is the square of the amplitude spectrum, interpolation is exact at tabulated points and infinite (noise "
     "density) outside the band where data are unavailable, and generated noise has the variance that spectrum prescribes.",
     ["configurations", "histories", "inputs"],
     "all construction routes x all sequences of setter edits up to the stated depth x frequency lattice incl. outside band; "
     "all unit normal answers for noise generation",
     "tests check each constructor once",
     ["bilby/gw/detector/psd.py", "bilby/core/utils/series.py"],
     [("PowerSpectralDensity setters/interpolation", "bilby/gw/detector/psd.py")],
     observe=["psd_array", "asd_array", "power_spectral_density_interpolated", "get_noise_realisation"])

prop("C27", "The transient likelihood is the Gaussian noise likelihood of the data",
     "The log-likelihood ratio equals the noise-weighted inner-product expression for the projected signal in the data over "
     "the analysis band, summed over detectors, at the given parameters only: it is unaffected by earlier evaluations, other "
     "parameters, detector order or unit of work, and evaluation does not modify the caller's parameters. Equivalent "
     "reference frames and time references for the same source give the same value.",
     ["histories", "configurations", "inputs"],
     "all evaluation histories up to the stated depth over parameter sets x networks/orders x sky frames x time references x "
     "calibration on/off",
     "tests evaluate single points",
     ["bilby/gw/likelihood/base.py", "bilby/gw/likelihood/basic.py", "bilby/gw/detector/interferometer.py", "bilby/gw/utils.py"],
     [("calculate_snrs / log_likelihood_ratio", "bilby/gw/likelihood/base.py")],
     observe=["log_likelihood_ratio", "noise_log_likelihood", "compute_per_detector_log_likelihood"])

prop("C28", "Analytic marginalisation equals integrating the likelihood",
     "For every combination of marginalised parameters (time, phase, distance, calibration) the marginalised likelihood equals the "
     "explicit prior-weighted integral of the unmarginalised likelihood over those parameters, for any prior on them, with or "
     "without a stored lookup table. Values reconstructed for the marginalised parameters follow the conditional "
     "posterior and lie within the prior, and a stored table built for other settings is never used.",
     ["configurations", "inputs"],
     "all 2^4 combinations of marginalisations x distance-prior kinds x parameter points x time jitter x stored-table states "
     "(absent, matching, mismatching, torn)",
     "the marginalisation tests need data files and are skipped; they compare a few combinations to loose tolerance",
     ["bilby/gw/likelihood/base.py"],
     [("marginalisation setup and evaluation", "bilby/gw/likelihood/base.py"),
      ("lookup table caching", "bilby/gw/likelihood/base.py")],
     observe=["log_likelihood_ratio with marginalisations", "generate_posterior_sample_from_marginalized_likelihood"])

prop("C29", "Accelerated likelihoods agree with the standard likelihood",
     "Relative-binning, multi-banded and reduced-order likelihoods agree with the standard likelihood within their stated "
     "accuracy at and near their reference point for every supported combination of marginalisations, and their setup can be "
     "saved and reloaded without changing values. Their values do not depend on evaluation history.",
     ["configurations", "histories", "inputs"],
     "relative binning, multiband and reduced-order variants x marginalisation subsets x points near the reference x histories",
     "tests need large reduced-order data and check few points",
     ["bilby/gw/likelihood/relative.py", "bilby/gw/likelihood/multiband.py", "bilby/gw/likelihood/roq.py"],
     [("summary data / band weights", "bilby/gw/likelihood/relative.py, multiband.py, roq.py")],
     observe=["log_likelihood_ratio"])

prop("C30", "Source-parameter conversions are mutually consistent",
     "From any sufficient set of mass, spin, distance, tidal or orientation parameters, conversion produces the remaining "
     "ones such that all of them describe the same source; converting there and back is the identity and already-present keys "
     "are neither changed nor dropped. Conversion accepts scalars, arrays and tables alike and never modifies its input.",
     ["configurations", "inputs"],
     "all sufficient subsets of mass/distance/tidal/spin keys x a lattice of sources x scalar/array/table containers",
     "tests convert from a few subsets at one source",
     ["bilby/gw/conversion.py", "bilby/gw/cosmology.py", "bilby/gw/prior.py"],
     [("convert_to_lal_* / generate_* functions", "bilby/gw/conversion.py")],
     observe=["conversion functions"])

prop("C31", "Detector geometry and projection follow the detector's current description",
     "The location, arm vectors, response tensor and antenna patterns are those of the detector's current position and "
     "orientation after any sequence of edits and reads. Projecting a signal applies the antenna patterns, light-travel delay and "
     "sky frame for the given direction and time, is linear in the polarisations, and equals the physical expression for "
     "every supported polarisation mode. The three vertices of a triangular detector form the triangle its arms span.",
     ["histories", "inputs"],
     "all edit/read sequences up to the stated depth over each geometric setting, x sky/time lattice x polarisation modes",
     "tests edit one attribute at a time",
     ["bilby/gw/detector/geometry.py", "bilby/gw/detector/interferometer.py", "bilby/gw/utils.py"],
     [("cache-invalidating setters", "bilby/gw/detector/geometry.py")],
     state=[("vertex/arm/tensor caches", "derived vectors", "geometry.py")],
     observe=["vertex", "x", "y", "detector_tensor", "antenna_response", "get_detector_response"])

prop("C32", "Calibration models apply exactly the requested correction",
     "A detector's calibration correction is determined by the calibration parameters of the current request alone, equals the "
     "model's interpolation through its nodes, and is unity for zero errors. Calibration draws written to file and read back "
     "correspond to the same correction and parameters, and precomputed and direct evaluation agree.",
     ["histories", "configurations"],
     "all sequences up to the stated depth of requests with different parameter sets and frequency arrays x models x correction type "
     "x draw files",
     "tests evaluate one parameter set",
     ["bilby/gw/detector/calibration.py"],
     [("CubicSpline / Precomputed", "bilby/gw/detector/calibration.py")],
     observe=["get_calibration_factor", "draw files"])

prop("C33", "Values survive the JSON codec and HDF5 encoding unchanged",
     "Every value kind that results may contain (arrays of any type and shape, complex numbers, tables, quantities, "
     "cosmologies, priors, functions, nested containers, none, booleans, special floats) decodes to an equal value after "
     "JSON encoding (tuples become lists, tables keep their columns). HDF5 stores such values equally (number lists may come "
     "back as arrays, tables as columns, durations as seconds) or refuses them with an error. Encoding never alters the original.",
     ["inputs"],
     "all value kinds up to nesting depth 2 x containers, through JSON text and HDF5 files",
     "tests round trip a few kinds individually",
     ["bilby/core/utils/io.py"],
     [("BilbyJsonEncoder / decode_bilby_json / encode_for_hdf5 / recursively_*", "bilby/core/utils/io.py")],
     observe=["json.dumps/loads with the codec", "HDF5 files"])

prop("C34", "A detector network keeps only mutually compatible detectors",
     "After any sequence of list operations, a detector network contains only detectors with compatible data, and a rejected "
     "operation leaves it as before. Network-level data setting, injection, saving and loading act on each member as the "
     "corresponding single-detector operation does, with the same injected polarisations.",
     ["histories"],
     "all sequences up to the stated depth over list operations with compatible/incompatible members, data setters, save/load",
     "tests use single operations",
     ["bilby/gw/detector/networks.py", "bilby/gw/detector/interferometer.py"],
     [("consistency check", "bilby/gw/detector/networks.py:InterferometerList")],
     observe=["InterferometerList operations"])

if __name__ == "__main__":
    for p in P:
        print(json.dumps(p))
