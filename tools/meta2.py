TESTS = ("The suite has three files: one reads an example file, one runs a tiny estimation of one example, one compares "
         "impulse responses and smoothed series of one example with stored numbers")


def more(prop):
    prop("C16", "A stored chain records the posterior: each draw with its density, and the mode",
         "Every draw in the chain of an MCMC run, in memory or in a file, is stored together with the posterior density "
         "of that draw: the (tempered) log-likelihood plus log-prior that a separately prepared model reports for it, "
         "whether sampling is done in the space of the parameters or in the transformed space, in a pool or not. Walkers "
         "start from the given initial states, a resumed or appended run keeps what was stored and continues from its "
         "last state, a run with the same seed is repeated exactly, and the mode is the point of the parameter "
         "space with the best density in the kept part of the chain, which a tempered run leaves alone.",
         ["inputs", "histories", "configurations"], "every model, data set, prior, filter, sampler space, temperature, "
         "number of walkers and steps, and every sequence of runs", TESTS + "; the density of a stored draw is never "
         "recomputed.",
         ["pydsge/mcmc.py", "pydsge/estimation.py", "pydsge/mpile.py", "pydsge/tools.py"],
         [("sampler loop and backend", "pydsge/mcmc.py mcmc"), ("density", "pydsge/estimation.py prep_estim, get_par")],
         ["mcmc", "get_chain", "get_log_prob", "mode"],
         "Chains of the real ensemble sampler are recorded and every draw is re-evaluated by an independently prepared "
         "model, whose density C12, C13 and C15 judge. Trusts emcee.",
         "runtime monitoring: offline checker over recorded chains")

    prop("C17", "What is saved is what is loaded; what is read is what is in the file now",
         "A model that is saved at any point and loaded again, here or in another process, parsed again or not and with "
         "its original files gone, has the same names, parameters, solution, data and likelihood. Results stored in a "
         "dictionary come back unchanged under every kind of path, and reading a file always gives the model (and the "
         "functions) that are in the files at that moment, whatever was read before.",
         ["inputs", "histories", "configurations"], "every model, every point in its life at which it is saved, every "
         "kind of path and every history of edits to its files", TESTS + "; no test saves, loads or re-reads an edited "
         "file.",
         ["pydsge/clsmethods.py", "pydsge/parser.py", "pydsge/mpile.py"],
         [("meta data of a model", "pydsge/clsmethods.py save_meta, load_meta"),
          ("loading", "pydsge/parser.py DSGE.load"), ("results", "pydsge/clsmethods.py save_rdict, load_rdict")],
         ["DSGE.load", "DSGE.read", "save_rdict", "load_rdict", "irfs", "lprob"],
         "Loaded models are judged by the independent solution of the text and by the likelihood before saving.",
         "runtime monitoring: round-trip oracle over histories of saving, editing and loading")

    prop("C18", "Decompositions account for the whole path and each share belongs to its shock",
         "The contributions of a historical decomposition add up to the decomposed path in every period, and each one is "
         "what its shock contributes under the durations of the path, also when several parameter vectors are averaged or "
         "the bound binds. The shares of a variance decomposition are non-negative, add up to one for each variable and "
         "are proportional to the variances caused by each shock alone; neither is silently mislabelled if the ordering "
         "of variables changes with the parameters. The business-cycle index of such shares lies between zero (each "
         "observable has its own shock) and one (one shock explains them all), in any order of shocks.",
         ["inputs", "configurations"], "every model, history of innovations, number of parameter vectors and horizon",
         TESTS + "; no decomposition is tested.",
         ["pydsge/tools.py", "pydsge/stats.py"],
         [("historical decomposition", "pydsge/stats.py nhd"), ("variance decomposition", "pydsge/stats.py gfevd"),
          ("sorting", "pydsge/stats.py sort_nhd")],
         ["nhd", "gfevd", "sort_nhd", "mbcs_index"],
         "Recomputed shock by shock with the independent solution; ties and cancelling contributions are judged by the "
         "sum only.", "runtime monitoring: conservation monitor and differential oracle on decompositions")

    prop("C19", "The data that is used is exactly the observables in the window asked for",
         "Loading data selects the observables of the model by name, in the model's order, and the rows from the start to "
         "the end asked for, both included, whatever the kind of index, the order or number of other columns, or the "
         "notation of the end points. Tables in which an observable is missing or has missing values inside the window "
         "are refused and leave what was loaded; covariances of observation noise, masked simulations and likelihoods "
         "are those of exactly this data, and the caller's table is not changed.",
         ["inputs", "histories"], "every table of data, index, window and sequence of loads", TESTS + "; one table with "
         "one window is loaded.",
         ["pydsge/clsmethods.py", "pydsge/tools.py", "pydsge/filtering.py"],
         [("selection", "pydsge/clsmethods.py load_data"), ("observation noise", "pydsge/filtering.py create_obs_cov"),
          ("mask", "pydsge/tools.py mask")],
         ["load_data", "data", "Z", "create_obs_cov", "mask", "lprob"],
         "Rows are selected independently by date arithmetic.",
         "runtime monitoring: differential oracle over random tables and windows")

    prop("C20", "A model given by matrices is the model, whatever was processed before",
         "A dictionary of system matrices is solved and driven exactly as the same model in a file: the same paths, "
         "spells, flags and observables by name, whatever the order and scale of equations and variables, with or "
         "without observables or a given solution, and processed in parallel or not. Processing again after changing "
         "matrices, bounds or horizons, also in place, gives the results of the changed model and never those of an "
         "earlier one.",
         ["inputs", "histories", "configurations"], "every set of matrices with a unique stable solution, every horizon "
         "setting and every history of processing", TESTS + "; the interface by matrices is not tested.",
         ["pydsge/gensys.py", "pydsge/engine.py", "pydsge/tools.py"],
         [("systems from matrices", "pydsge/gensys.py gen_sys_from_dict"), ("preprocessing", "pydsge/engine.py preprocess"),
          ("trajectories", "pydsge/tools.py traj, shock2state")],
         ["gen_sys_from_dict", "t_func", "irfs", "traj", "shock2state", "obs"],
         "The independent solution and search of pvm/reference.py judges; ties are not judged.",
         "runtime monitoring: differential oracle over histories of processed matrices")

    prop("C21", "Posterior statistics are those of the kept part of the stored chain",
         "The chain, its densities, posterior means, draws, recent samples, summaries, tables, plots and marginal data "
         "densities are exactly those of the last periods that are kept of the stored chain, in terms of the parameters and "
         "completed by the calibration where full vectors are asked for. This holds for chains on disk and of loaded "
         "models, with and without a pool, and asking for statistics does not change the parameters of the model.",
         ["inputs", "histories", "configurations"], "every stored chain, number of kept periods, sampler space and way to "
         "ask", TESTS + "; no statistic is compared with the chain it is from.",
         ["pydsge/mpile.py", "pydsge/stats.py", "pydsge/clsmethods.py", "pydsge/estimation.py"],
         [("chain and its kept part", "pydsge/clsmethods.py get_chain, get_log_prob"), ("statistics", "pydsge/stats.py"),
          ("samples", "pydsge/mpile.py get_par, posterior_sampler")],
         ["get_chain", "get_par('post')", "get_sample", "mcmc_summary", "posterior2csv", "mdd", "traceplot", "posteriorplot"],
         "Chains are written by the harness, so every statistic is recomputed from known numbers.",
         "runtime monitoring: offline recomputation of every statistic from recorded chains")

    prop("C22", "How work is spread over threads and processes does not show in results",
         "Any sequence of impulse responses, simulations, extractions, prior draws, likelihoods, parameter changes, new "
         "pools and failing calls gives the same results in a model that spreads its work over processes as in one that "
         "does not. Preprocessing in threads gives the same laws as without, each time it is repeated, and a failing call "
         "leaves later results as they would have been.",
         ["schedules", "histories", "inputs"], "every sequence of operations, number of processes or threads, and every "
         "interleaving of them", TESTS + "; each runs one way of spreading work, once.",
         ["pydsge/engine.py", "pydsge/tools.py", "pydsge/mpile.py", "pydsge/clsmethods.py", "pydsge/estimation.py"],
         [("threads", "pydsge/engine.py preprocess_jit_parallel"), ("processes", "pydsge/estimation.py create_pool")],
         ["irfs", "simulate", "extract", "get_par('prior')", "lprob", "set_par(parallel=True)"],
         "Two models side by side; bounds of all arrays in compiled code are checked.",
         "runtime monitoring: side-by-side trace comparison under threads, processes and injected failures")

    prop("C23", "Draws from the prior follow the stated prior and are admissible and reproducible",
         "Draws from the prior lie within the support of the stated distributions and follow them restricted to the "
         "vectors that meet the condition asked for, and are the same for the same seed. Draws that are promised to be "
         "solvable (or to have a finite likelihood) are; the log-prior is the density of the stated distributions with "
         "the stated mean and standard deviation, and the transformation to the sampler's space is inverted exactly. "
         "The parameters reported as outside of the bounds of the file are those that are.",
         ["inputs", "configurations"], "every choice of priors of all supported families, every seed and number of draws",
         TESTS + "; no test compares draws with a distribution.",
         ["pydsge/mpile.py", "pydsge/estimation.py"],
         [("prior sampler", "pydsge/mpile.py prior_sampler"), ("priors and transformation", "pydsge/estimation.py prep_estim (get_prior, lprior, bptrans)"),
          ],
         ["prior_sampler", "get_par('prior')", "lprior", "bptrans"],
         "Kolmogorov-Smirnov tests at 1e-7 with fixed seeds, so a correct tree never fails by chance.",
         "runtime monitoring: statistical and pointwise oracles over recorded draws")

    prop("C24", "Asking changes neither the model nor its arguments; answers are the caller's own",
         "Calls that only ask something (transitions, responses, simulations, observables, parameters and covariances, "
         "parameters set on the side, expected paths, masks, indices, chains and samples, marginal densities, prior "
         "densities, extraction, decompositions, saved results) leave the model as it was: parameters, solution, "
         "data, measurement error, names, stored modes and all later answers are the same as without the call. No call "
         "changes the arrays, lists, dictionaries or data frames it is given, and overwriting what was passed in or "
         "what was returned has no effect on the model. Excepted are calls whose purpose is to change the model, the "
         "evaluation of the posterior and sampling (they leave their last parameters), the frame that load_data "
         "returns, the storage of the sampler that untransformed chains are views of, and the announced replacement of "
         "a reduced-form filter by extract.",
         ["inputs", "histories"], "every call with every kind of argument, in every history of calls",
         TESTS + "; no test looks at the model or the arguments after a call.",
         ["pydsge/tools.py", "pydsge/mpile.py", "pydsge/stats.py", "pydsge/clsmethods.py", "pydsge/gensys.py",
          "pydsge/filtering.py"],
         [("responses and simulations", "pydsge/tools.py irfs, simulate, t_func, traj"),
          ("parameters", "pydsge/mpile.py get_par, get_cov, set_par"), ("statistics", "pydsge/stats.py nhd, gfevd, mdd"),
          ("extraction", "pydsge/filtering.py extract"), ("parameters are kept", "pydsge/tools.py keeps_par")],
         ["t_func", "irfs", "simulate", "obs", "get_par", "get_cov", "extract", "nhd", "gfevd", "get_chain", "lprob"],
         "Arguments are compared with copies, and a fixed list of questions is answered before and after every call once "
         "everything handed in and out is overwritten.",
         "runtime monitoring: before/after state monitor with overwritten arguments and answers")

    prop("C25", "Verbosity and debugging change neither what works nor the results",
         "Whatever level of verbosity is asked for, and whether debugging is switched on or not, every call has the "
         "same outcome and the same results as a silent call: reading and loading, setting and getting parameters, "
         "responses, simulations, systems from matrices, preparing and evaluating the posterior (also outside of the "
         "prior or without a solution), filtering, extraction, decompositions, draws, sampling, marginal densities and "
         "saving. A call that fails loudly fails in the same way silently. (The verbose mode of the modified harmonic "
         "mean beyond level 1 is that of a dependency and excepted.)",
         ["configurations", "inputs", "histories"], "every call, verbosity, debugging flag and sequence of calls",
         TESTS + "; they run with few levels of verbosity and compare nothing across levels.",
         ["pydsge/parser.py", "pydsge/gensys.py", "pydsge/estimation.py", "pydsge/tools.py", "pydsge/mpile.py",
          "pydsge/filtering.py", "pydsge/stats.py", "pydsge/mcmc.py", "pydsge/clsmethods.py"],
         [("solution", "pydsge/gensys.py gen_sys"), ("posterior", "pydsge/estimation.py prep_estim"),
          ("filter", "pydsge/filtering.py run_filter, extract"), ("responses", "pydsge/tools.py irfs, simulate")],
         ["DSGE.read", "DSGE.load", "set_par", "get_par", "irfs", "simulate", "prep_estim", "lprob", "run_filter",
          "extract", "gfevd", "mcmc", "mdd"],
         "Two instances carry out the same script, one silent and one loud; what they print is counted, what they return "
         "is compared.",
         "runtime monitoring: side-by-side trace comparison of silent and loud instances")

    prop("C26", "Answers follow from the values of the inputs alone",
         "The same file, parameters, states, shocks, data and seeds give the same answers whatever fresh memory contains, "
         "whether functions are compiled or interpreted, with or without bounds checks, under any hash seed, number of threads "
         "and working directory. Arrays count by their values: another memory layout, alignment or a read-only array gives the "
         "same answer, and another number type, byte order or container gives the same answer or is refused, never another "
         "answer.",
         ["inputs", "environments", "memory contents"], "every model and question, every content of uninitialised memory, every "
         "array layout and type",
         TESTS + "; they run in one process with one kind of array.",
         ["pydsge/engine.py", "pydsge/tools.py", "pydsge/gensys.py", "pydsge/filtering.py", "pydsge/stats.py",
          "pydsge/mpile.py", "pydsge/parser.py"],
         [("preprocessing in uninitialised arrays", "pydsge/engine.py preprocess_jittable"),
          ("transition", "pydsge/tools.py t_func, pydsge/engine.py t_func_jit"),
          ("results in uninitialised arrays", "pydsge/tools.py irfs, pydsge/stats.py nhd, pydsge/filtering.py extract")],
         ["t_func", "irfs", "simulate", "traj", "k_map", "obs", "set_par", "get_par", "lprob", "run_filter", "extract", "nhd",
          "gfevd", "prior_sampler", "mcmc"],
         "Processes with poisoned memory (MALLOC_PERTURB_), other hash seeds, and without compilation answer the same questions; "
         "inputs are given in all layouts.",
         "runtime monitoring: memory poisoning and comparison of executions across environments and input layouts")

    prop("C27", "What is interrupted, refused or killed leaves everything as it was",
         "A question that is interrupted (Ctrl-C) at any point, or any call that is refused with an error (unknown names, "
         "parameters without a solution, unsuited data, states, samples or paths), leaves a model that answers every "
         "question as before; a call that changes a model comes out as an interruption if it is interrupted, can be repeated "
         "with the result it gives uninterrupted, and leaves nothing behind once parameters and data are set again. "
         "An interruption is not taken for a missing value or a failed evaluation. A sampler that is killed leaves on disk "
         "the beginning of the chain it would have produced, and can be taken up again from there by another process.",
         ["fault points", "histories", "inputs"], "every line of the package at which an interruption arrives, every evaluation "
         "at which the process dies, every refused input",
         TESTS + "; no operation is ever interrupted or fails in them.",
         ["pydsge/mpile.py", "pydsge/tools.py", "pydsge/filtering.py", "pydsge/stats.py", "pydsge/estimation.py",
          "pydsge/mcmc.py", "pydsge/clsmethods.py", "pydsge/parser.py"],
         [("setting parameters", "pydsge/mpile.py set_par"), ("restoring parameters", "pydsge/tools.py keeps_par"),
          ("responses work on copies", "pydsge/tools.py irfs, simulate"), ("posterior", "pydsge/estimation.py llike"),
          ("backend on disk", "pydsge/mcmc.py mcmc"), ("missing estimates", "pydsge/mpile.py get_par")],
         ["set_par", "get_par", "irfs", "simulate", "extract", "nhd", "gfevd", "obs", "prior_sampler", "mcmc", "load_data",
          "prep_estim", "run_filter", "save", "DSGE.read", "DSGE.load"],
         "Operations run under a line tracer that raises KeyboardInterrupt at a random line of the package (not inside of "
         "finally and except blocks); child processes die in the middle of a chain and others continue it; calls are made with "
         "inputs that are refused. The answers of the model before and after are compared.",
         "runtime monitoring: fault injection (interrupts, kills, refused inputs) with a before/after state oracle")
