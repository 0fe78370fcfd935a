"""Writes properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=mechanism, where=files[0])])
    if state: a["state"] = [dict(name=state, where=files[0])]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

p("R01", "The radial-velocity model is the analytic Keplerian orbit",
  "For every period, time of periastron, eccentricity in [0, 0.99], argument of periastron, semi-amplitude and time, the predicted velocity equals K[cos(nu+w)+e cos w] with nu from the exact solution of Kepler's equation, whether the compiled or the pure-Python solver is used. "
  "The prediction is finite, always terminates, is periodic in time, is independent of which other times are asked for together, and leaves its inputs unchanged. "
  "A system's model is the sum of its planets plus dvdt*(t-time_base)+curv*(t-time_base)^2, in every orbital parameterisation.",
  ["inputs", "configurations"], "all orbital elements in the physical range x all times x both solvers x all bases x 0-3 planets x trend terms",
  "Tests evaluate one or two orbits and mostly check that nothing crashes; convergence at corners (M near 0, pi, 2 pi, e near 0.99, JD-sized times) is never examined.",
  ["src/kepler.c", "src/_kepler.pyx", "radvel/kepler.py", "radvel/orbit.py", "radvel/model.py"],
  "Iterative Danby solver in C and NumPy; model sums the planets from the synth-basis vector.")

p("R02", "Basis conversions are lossless, complete and free of side effects",
  "Converting orbital parameters between any two supported bases and evaluating the model gives the same orbit, and converting back gives the original values, for any number of planets and for parameter dictionaries, parameter vectors and chain tables alike, whose results agree with each other. "
  "Parameters that do not describe orbits (offsets, jitters, trends, GP hyperparameters) keep value, vary flag and step size. "
  "A converted set holds exactly the orbital parameters of the target basis plus the non-orbital ones, and the source object (and its basis description) is unchanged and can be converted again.",
  ["inputs", "configurations", "histories"], "all ordered pairs of supported bases x eccentricity/omega quadrants x number of planets x container x sequences of conversions",
  "The tests round-trip single parameter values with a comparison that is not symmetric and never reuse the source object after a conversion.",
  ["radvel/basis.py"], "Pairwise element formulas via the synth basis with separate code paths for dict, DataFrame and vector.")

p("R03", "Transit and periastron times convert into each other exactly",
  "Transit time and periastron time conversions are mutually inverse for all eccentricities below 1 and all arguments of periastron, and at the converted transit time the true anomaly plus argument of periastron is a quarter turn (three quarters for a secondary eclipse). "
  "The secondary eclipse returned is the first one at or after the given periastron passage, within one period. "
  "Scalars and arrays give the same answers and array inputs are not modified; the true anomaly solves the orbit equation at every time.",
  ["inputs"], "all periods, eccentricities in [0,1), omegas over several turns, reference times; scalar, numpy scalar and array arguments",
  "Tests exercise one or two orbits; quadrant handling of the half-angle formula and the array code path of the secondary eclipse are not reached.",
  ["radvel/orbit.py"], "Half-angle formula between true and eccentric anomaly, then Kepler's equation.")

p("R04", "Parameter dictionary and sampling vector stay synchronised",
  "After any sequence of edits followed by the documented synchronisation call, the parameter dictionary, the parameter vector, the list of varying parameters and the values used by the model and the likelihood all describe the same state. "
  "Setting the varying parameters changes exactly those parameters, in the reported order, and reading them back returns what was set; fixed parameters never change. "
  "A value array of the wrong length is rejected.",
  ["histories", "configurations"], "all sequences of edits/synchronisations up to a depth x parameter sets (planets, instruments, GP, custom parameters)",
  "Tests make one or two hard-coded edits; they never interleave edits of vary flags, values and vectors across posterior and likelihood.",
  ["radvel/model.py", "radvel/likelihood.py", "radvel/posterior.py"], "Index dictionary plus dict_to_vector/vector_to_dict, cached list of varying rows.",
  state="Vector.vector, Vector.indices, Vector.names, Parameters, cached vary list")

p("R05", "Every free parameter's name, slot and physical effect agree",
  "For every model configuration, the i-th reported free-parameter name is the parameter whose value the i-th entry of the parameter array sets. "
  "Changing that entry changes the log-probability exactly as changing the named parameter in a freshly built model does. "
  "Names are unique, and cover exactly the parameters marked as varying.",
  ["configurations"], "bases x number of planets x instruments x presence and order of dvdt/curv, GP and decorrelation parameters x vary flags",
  "Tests use two or three fixed configurations; slot arithmetic can misalign in any other one.",
  ["radvel/model.py", "radvel/likelihood.py", "radvel/posterior.py"], "Slot numbers: five per planet, then dvdt, curv, then instrument/GP parameters in insertion order.")

p("R06", "The RV likelihood is the stated Gaussian likelihood",
  "The log-likelihood equals the sum over observations of the Gaussian log-density of data minus offset minus model minus decorrelation trend, with variance error^2+jitter^2; combined instruments give the sum of their separate likelihoods, with residuals, error bars and instrument labels in the same order. "
  "With an analytically marginalised offset it equals the integral of the likelihood over that offset. "
  "BIC and AICc follow their textbook definitions from this value, the number of observations and the number of free parameters.",
  ["inputs", "configurations"], "datasets (size, spacing) x instruments 1-3 x jitter/offset/trend values x decorrelation sets x linear-gamma flags x free-parameter sets",
  "Tests check example systems against themselves or single formulas; combinations are not reached.",
  ["radvel/likelihood.py"], "Residuals, jitter-inflated errors, marginalisation correction, composite sum.")

p("R07", "The GP likelihood and prediction are those of the documented kernel",
  "For each kernel, the GP log-likelihood equals the multivariate normal log-density of the residuals with the documented covariance plus error^2+jitter^2 on the diagonal, and predictions are the textbook conditional mean and standard deviation at any set of points. "
  "Both are functions of data and current parameter values only: they do not depend on earlier evaluations, predictions, rejected (non-positive-definite or invalid) parameter values, or other instruments. "
  "An impossible covariance gives log-likelihood minus infinity rather than an error.",
  ["inputs", "histories", "configurations"], "kernels x hyperparameter values incl. zero x datasets x call sequences up to a depth x instruments",
  "Tests only compare a couple of evaluations with other code at one point and never interleave predict, zero amplitudes and failures.",
  ["radvel/gp.py", "radvel/likelihood.py"], "Kernel objects cache distances and covariance between calls.", state="kernel distances, covmatrix, hparams")

p("R08", "The celerite likelihood agrees with a dense evaluation in any data order",
  "The fast celerite likelihood and predictions equal the dense multivariate-normal evaluation of the documented quasi-periodic approximation kernel, for observations supplied in any time order and at any prediction points. "
  "They depend only on data and current parameters, not on call history.",
  ["inputs", "histories"], "all orderings of small datasets x hyperparameter values x call sequences",
  "Tests run one sorted example through to completion without an independent value.",
  ["radvel/gp.py", "radvel/likelihood.py"], "celerite terms plus sorting of the data on construction.")

p("R09", "Priors are the densities and inverse CDFs they document",
  "Each prior's value is its documented log-density of the current parameters (normalised where it claims to be a proper density, minus infinity outside its support, finite inside), in every orbital basis and for every planet. "
  "For each prior offering a unit-interval transform, the transform is the inverse of the cumulative distribution of that same density: increasing, and mapping the unit interval onto the support. "
  "Evaluating a prior changes nothing.",
  ["inputs", "configurations"], "prior types x hyperparameters x bases x planet numbers x parameter values in and around the support x unit-interval values",
  "Tests check one value of a few priors; support edges, bases and transforms against densities are not covered.",
  ["radvel/prior.py"], "Each prior reads vector slots by name, converting to the synth basis where needed.")

p("R10", "The posterior is the sum of priors and likelihood",
  "The log-posterior equals the log-likelihood plus the sum of all log-priors, and is minus infinity whenever a prior excludes the point; positional (array) evaluation equals evaluation after setting parameters by name. "
  "For nested sampling, the unit-cube map covers each free parameter by its own prior, and the nested log-likelihood adds exactly the priors not covered by that map, so that together they reproduce the posterior. "
  "The check for proper priors accepts exactly those configurations in which every free parameter has one proper prior.",
  ["configurations", "inputs"], "prior lists (types, targets, order, duplicates, missing) x free-parameter sets x parameter values x unit-cube points",
  "Tests use three hand-picked prior lists.",
  ["radvel/posterior.py", "radvel/prior.py"], "Prior list scan; index maps from priors to free parameters.")

p("R11", "Maximum-likelihood fitting never makes things worse or touches fixed parameters",
  "After a fit the log-posterior is never lower than at the starting point, all fixed parameters keep their values, and the dictionary, vector and reported values of the result agree. "
  "The result is the same whichever free-parameter order or instrument order is used to describe the same problem, and with no free parameter nothing changes.",
  ["inputs", "configurations"], "starting points x vary masks x fitting methods x priors x model types, including optimisers that stop early or fail",
  "Tests fit a handful of example systems and only look for absence of errors.",
  ["radvel/fitting.py"], "scipy.optimize.minimize over the free-parameter array.")

p("R12", "Model comparison evaluates exactly the requested nested models",
  "For any selection of comparisons, the table contains exactly the models obtained by switching the selected components on and off, each with its own maximum-likelihood fit, correct number of free parameters, and BIC/AICc/RMS/log-likelihood of that fit. "
  "Switched-off components really are absent from the model, the others stay free as the user left them. "
  "The given posterior is not changed, and the answer does not depend on earlier comparisons in the same process. "
  "The command that stores comparisons stores each such model of the stored fit once: those of all combinations or of each type separately, with jitters free or fixed at their fitted values, or the current model only.",
  ["configurations", "histories"], "all subsets and orders of comparison types x number of planets x vary masks x sequences of two comparisons",
  "Tests run one comparison per example and never look at the entries or call twice.",
  ["radvel/fitting.py", "radvel/driver.py:ic_compare"], "Recursive enumeration of nested models by fixing parameters in copies.", state="list of compared models, posterior copy")

p("R13", "MCMC run control stops, discards and counts as documented",
  "Burn-in samples are discarded exactly once, when the burn-in criterion is first met (or never, if no burn-in is requested), and sampling ends either after two consecutive convergence checks beyond the minimum passed or at the maximum number of steps. "
  "Checks happen at the configured interval, reported statistics belong to the samples kept, and the reported numbers of steps equal the steps taken. "
  "The outcome is a function of this run alone, not of earlier runs in the same process, and serial and pooled execution follow the same rules. "
  "The live display and the closing messages state the statistics of the latest check and how the run ended, and an interruption from the keyboard ends the run in an orderly way with the screen restored.",
  ["histories", "fault_sequences", "configurations"], "all sequences of convergence answers up to a depth x run-control options x serial/pool",
  "Tests run one or two short chains with fixed seeds; the branches taken depend on the random chains.",
  ["radvel/mcmc.py"], "Module-level state object updated by a check loop.", state="statevars: burn flags, counters, samplers")

p("R14", "Every MCMC sample row is what the sampler evaluated",
  "Each row of the returned chains holds, under each free parameter's name, the value that was evaluated and as log-probability the log-posterior of exactly that row. "
  "All ensembles and walkers contribute the stated number of steps after thinning, with columns for exactly the free parameters; proposals outside the support never appear. "
  "Invalid run options are refused before sampling.",
  ["configurations", "schedules"], "ensembles x walkers x steps x thinning x serial/pool x posterior configurations",
  "Tests only check that sampling runs.",
  ["radvel/mcmc.py"], "emcee chains of several ensembles reshaped and concatenated into one table.")

p("R15", "Saved MCMC runs resume without losing or inventing samples",
  "A run that saves its progress and is resumed continues from the saved samples: previously saved samples form an unchanged prefix of the continued chains of each ensemble, burn-in is not repeated or re-discarded once complete, and convergence history carries on. "
  "Resuming with a different number of ensembles or walkers, or with nothing saved, is refused without altering the saved file. "
  "An interruption at any point of saving leaves a file that resumes to a completely saved state, the previous one or the one being saved; only when nothing had been saved before may it be refused.",
  ["histories", "crash_points"], "sequences of run/save/resume/mismatched resume x every interruption point of saving",
  "One test resumes one run and checks nothing about the samples.",
  ["radvel/mcmc.py"], "HDF5 groups per ensemble plus scalar burn-in state rewritten at each check.", state="rawchain.h5 file")

p("R16", "The command workflow keeps its status file and artefacts consistent",
  "Each workflow step runs only if the steps it needs have been completed and otherwise refuses with an explanation, leaving the status file unchanged. "
  "A completed step records its own results and never loses or alters the results of other steps, and later steps use the artefacts the status names, from the sampler asked for. "
  "An interruption while recording leaves a status that can still be read. Every command, refused, failed or completed, leaves the working directory where it was, and a report that cannot be typeset leaves the earlier results as they are and no temporary files behind.",
  ["histories", "crash_points", "configurations"], "all command sequences up to a depth x samplers x configurations x interruption points",
  "Tests run one fixed order of commands on examples.",
  ["radvel/driver.py", "radvel/cli.py"], "INI status file with one section per step, rewritten as a whole.", state="<prefix>_radvel.stat")

p("R17", "A saved posterior reloads as the same posterior",
  "Saving a posterior and loading it gives an object with the same parameter values, vary flags, step sizes, names, priors, data and log-probability at every parameter vector, for every model type and basis. "
  "It remains fully usable: fitting, editing and saving again behave as on the original, and changing one does not affect the other.",
  ["configurations", "histories"], "model types x bases x planets x priors x sequences of edit/save/load",
  "Tests load files only incidentally.",
  ["radvel/posterior.py", "radvel/model.py"], "pickle of the posterior with a custom reduce for parameter sets.")

p("R18", "Nested sampling respects output locations, options and stored results",
  "For every combination of sampler, output location, overwrite and resume option, a run uses exactly the given location and options, never removes or overwrites files it was not told to, and refuses contradictory requests. "
  "The caller's option dictionaries are unchanged and a repeated identical call is accepted. "
  "Stored results reload to the same samples, evidence and free-parameter columns.",
  ["configurations", "histories"], "samplers x output dir states x overwrite x proceed x sequences of two calls",
  "Tests run the real samplers once with one configuration.",
  ["radvel/nested_sampling.py"], "Per-sampler wrappers translating common options into sampler specific keyword arguments.")

p("R19", "Derived planet quantities obey the defining physics",
  "Minimum mass and semi-amplitude are inverse functions of each other for all masses, periods and eccentricities in every supported unit; semi-major axis follows Kepler's third law with the total mass; density is mass over sphere volume. "
  "Scalars, arrays and mixtures of both agree.",
  ["inputs"], "masses from planets to stars x periods x eccentricities x units x scalar/array",
  "Tests check two reference values.",
  ["radvel/utils.py"], "Closed formulas and a cubic root for large masses.")

p("R20", "Time binning conserves data and never mixes instruments",
  "Every observation falls into exactly one bin of the requested width, every bin holds observations of one instrument only, and the binned value is the inverse-variance weighted mean of its members with variance 1/sum(1/error^2). "
  "The bins of an instrument come in time order and do not depend on the order of the input, and inputs are unchanged.",
  ["inputs"], "all small datasets over a grid of times (on, near and between bin edges), instruments, error patterns and orders",
  "One test bins one dataset and checks the shape.",
  ["radvel/utils.py"], "Sorting and scanning in time with weights.")

p("R21", "Numbers and dates are summarised without distortion",
  "A value with an uncertainty is printed to the precision the uncertainty warrants, and re-reading the printed numbers gives back the rounded inputs. "
  "Interval summaries of samples are the stated quantiles around the median, including for angles crossing the wrap-around, and never modify the samples. "
  "Julian dates and calendar dates convert into each other without loss.",
  ["inputs"], "mantissas x exponents x uncertainty ratios; sample sets incl. wrap-around; dates over centuries and sub-second parts",
  "Tests check a few values.",
  ["radvel/utils.py"], "Rounding to significant figures; histogram/quantile summaries; calendar arithmetic.")

p("R22", "Report tables state exactly the analysis results",
  "The report's tables list every observation once with its own time, velocity, error and instrument, every prior, and every parameter with the quantiles of its chain; derived parameters carry the units they are labelled with. "
  "The model-comparison table lists every compared model (up to fifty) in order of AICc with the difference to the best and the documented support category for each difference. "
  "Rendering a table twice, or after another table, gives the same text, and a report changes neither the posterior nor the chains it was made from.",
  ["configurations", "inputs", "histories"], "datasets x instruments x comparison results around category limits x rendering orders",
  "Tests render reports of examples without reading them.",
  ["radvel/report.py"], "String rows assembled from posterior, chains and comparison table.")

p("R23", "A setup file is turned into exactly the posterior it describes",
  "The posterior built from a setup file contains every observation of each named instrument once, in that instrument's likelihood and no other, with the described basis, parameters, vary flags, priors, time base, decorrelation and GP kernel. "
  "The starting log-probability equals the one computed directly from the setup's values; log-jitter parameters are converted consistently. "
  "The described setup and data are not modified, so that initialising twice gives equal posteriors.",
  ["configurations"], "instruments x optional features x parameter orders x bases",
  "Tests use the shipped examples only.",
  ["radvel/utils.py", "radvel/driver.py"], "Module attributes of the setup file; per-instrument selection of the data table.")

p("R24", "Convergence statistics follow their published definitions",
  "For every set of chains the Gelman-Rubin statistic, effective number of independent draws and autocorrelation measures equal their published definitions applied to those chains. "
  "The combined verdict is reached exactly when all configured limits are met. "
  "Degenerate or too short chains are never declared converged.",
  ["inputs"], "all small chain sets over a value grid x thresholds around the computed statistic",
  "Tests never compare the statistics with a definition.",
  ["radvel/mcmc.py"], "Between/within-chain variances; autocorrelation time of each ensemble.")

p("R25", "Command-line options reach the analysis unchanged",
  "Every command-line sub-command runs exactly the analysis step it names, with each option's value (or documented default) passed to it unaltered. "
  "Unknown sub-commands, options or choices are rejected before anything runs, and options combine independently.",
  ["configurations"], "all sub-commands x every subset of up to three options x alternative values",
  "Tests build argument objects by hand and never parse a command line.",
  ["radvel/cli.py"], "argparse sub-parsers mapped to driver functions.")

p("R26", "Plots show the data and the model that were fitted",
  "In the orbit plots every observation appears exactly once per panel at its own time or phase with its own instrument's style, offset-corrected as fitted and with jitter-inflated error bars; in panels without a GP plotted data minus plotted residual equals the model at that time. "
  "Phase panels show only that planet's signal, folded so that its reference time (conjunction, or periastron in a basis with tp) is at zero phase; GP panels show the prediction of each instrument's own process. "
  "Corner, trend and autocorrelation plots show exactly the samples of the named parameters. Plotting does not change the posterior, the chains or the style tables, so that plotting twice gives the same picture.",
  ["configurations", "histories"], "datasets x instruments x planets x plot options x repeated plotting",
  "Tests only look for absence of errors.",
  ["radvel/plot/orbit_plots.py", "radvel/plot/mcmc_plots.py", "radvel/plot/__init__.py"], "Matplotlib artists built from posterior residuals and the model.")

p("R27", "Printed summaries state the current parameters, priors and uncertainties",
  "Printing a posterior or likelihood shows every parameter once with its current value, free/fixed flag and, when uncertainties are attached, its uncertainty, after any history of edits, fits, copies and saves: "
  "times above one million are shown relative to the model's time base, and the parameters of the physical basis that the model does not have itself follow, without a flag. All priors are listed in order with the parameters and numbers they use. "
  "Each row can be read back (entries are separated by blanks). Kernels and single parameters print their current numbers, combining likelihoods keeps the uncertainties of all members, and the statistics printed by fits, comparisons and sampling summaries are those of the returned result. "
  "Printing changes neither parameters nor probabilities, and verbose runs give the same results as silent ones.",
  ["histories", "configurations"], "edit histories x bases x planets x instruments x uncertainty sets x time scales",
  "Tests print one example and look at nothing but the absence of errors.",
  ["radvel/likelihood.py:Likelihood.__repr__", "radvel/posterior.py:Posterior.__repr__", "radvel/prior.py", "radvel/gp.py", "radvel/fitting.py", "radvel/driver.py:sampling_postprocessing"],
  "Text built from the shared parameter dictionary after copying the vector into it.")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
