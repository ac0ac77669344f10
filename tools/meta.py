"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = ("The suite has three files: one reads an example file, one runs a tiny estimation of one example, one compares "
         "impulse responses and smoothed series of one example with stored numbers")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe,
                               hook_needed=None), note=note, technique=technique))


prop("C01", "The linear solution satisfies every equation and is the unique stable one",
     "With the occasionally binding constraint out of play, the path a model produces from any state and any shocks "
     "satisfies every equation of its file (and the constraint equation with equality) in every period, with "
     "expectations equal to the continuation of that path. The solution is the unique stable one, so it agrees with any "
     "other correct solution method, and it is the same whether it is asked for one period at a time, as impulse "
     "responses or as a simulation.",
     ["inputs", "programs"], "every model file with a unique stable solution, every admissible parameter vector, every "
     "state and shock vector", TESTS + "; no test evaluates a written equation on a solution path.",
     ["pydsge/gensys.py", "pydsge/parser.py", "pydsge/engine.py", "pydsge/tools.py"],
     [("solution by QZ/Klein of the stacked system", "pydsge/gensys.py gen_sys_from_dict"),
      ("transition", "pydsge/engine.py, pydsge/tools.py t_func")],
     ["t_func(linear=True)", "irfs(linear=True)", "simulate(linear=True)"],
     "Random and example models driven through the public API; residuals of the text of the equations and an independent "
     "QZ solution decide. Trusts numpy/scipy and the evaluator of the equation text in pvm/textmodel.py.",
     "runtime monitoring: residual monitor over executed paths, differential oracle")

prop("C02", "Unflagged constrained periods are equilibria along the whole expected path",
     "Whenever a period is reported without an error flag together with a number of periods until the constraint binds "
     "and a number of periods it then binds, the path expected from there on satisfies all model equations in every "
     "period. Along it the constrained variable is at its bound exactly during the reported spell and follows the "
     "constraint equation outside of it, and it is not below its bound in the period in question, at the start and the "
     "end of the spell, or after it.",
     ["inputs", "histories", "configurations"], "every model, parameter vector, shock history and choice of horizons",
     TESTS + "; one stored path is compared, the equilibrium conditions are never evaluated.",
     ["pydsge/engine.py", "pydsge/gensys.py", "pydsge/tools.py"],
     [("preprocessing of all (wait, spell) laws", "pydsge/engine.py preprocess_jit, preprocess_jittable"),
      ("search for the spell", "pydsge/engine.py find_lk"), ("transition", "pydsge/engine.py t_func_jit")],
     ["t_func(return_k=True)", "t_func(set_k=...)"],
     "The expected path is unrolled with the package's own transition and judged by the text of the equations.",
     "runtime monitoring: online checker of equilibrium conditions over unrolled expected paths")

prop("C03", "The reported spell is the smallest equilibrium, or a flag says there is none",
     "Among all pairs of waiting time and spell length within the horizons asked for, the transition selects no spell if "
     "the unconstrained path respects the bound throughout the waiting horizon, and otherwise the first pair, in order of "
     "waiting time and then length, whose path meets the conditions of an equilibrium at the boundaries of the spell. If "
     "there is none within the horizons an error flag is raised and durations within the horizons are reported; with "
     "durations given by the caller exactly these are used and count down, and durations beyond the horizons are refused "
     "with an error.",
     ["inputs", "histories", "configurations"], "every model, parameter vector, horizon setting (including zero) and shock "
     "history", TESTS + "; no test has a case without equilibrium or other horizons.",
     ["pydsge/engine.py", "pydsge/tools.py", "pydsge/gensys.py"],
     [("search for the spell", "pydsge/engine.py find_lk"), ("guards on given durations", "pydsge/tools.py t_func, irfs")],
     ["t_func(return_k=True)", "t_func(set_k=...)", "irfs(set_k=...)"],
     "Independent exhaustive search over all pairs per period; numba bounds checking on. Ties within 1e-8 are not judged.",
     "runtime monitoring: per-period oracle (exhaustive search) plus bounds sanitizer")

prop("C04", "Parameters without a unique stable solution are never passed off as solved",
     "Setting parameters succeeds exactly if the model then has one and only one stable solution; otherwise an error is "
     "raised. In batches of impulse responses only the offending vectors are marked as missing, a posterior density is "
     "minus infinity there, and draws from the prior that are promised to be solvable are.",
     ["inputs"], "every model and parameter vector away from the exact boundary", TESTS +
     "; no test uses an indeterminate or explosive parametrisation.",
     ["pydsge/gensys.py", "pydsge/tools.py", "pydsge/estimation.py", "pydsge/mpile.py"],
     [("root counting", "pydsge/gensys.py gen_sys_from_dict (klein)"), ("marking of failed vectors", "pydsge/tools.py irfs"),
      ("rejection of draws", "pydsge/mpile.py prior_sampler")],
     ["set_par", "irfs(pars=...)", "lprob", "get_par('prior')"],
     "Root counts by an independent generalized eigenvalue computation; roots within 0.005 of the unit circle not judged.",
     "runtime monitoring: accept/refuse oracle on every set, batch and density")

prop("C05", "The meaning of a model file does not depend on how it is written",
     "List markers, comments, line continuations, powers, semicolons, indentation, the side on which a term is written, "
     "the order of equations, declarations and parameters, the names chosen, and writing a derived parameter out do not "
     "change the solution, the selected spells or the observables, by name. Files that cannot be a model (undeclared or "
     "doubly declared names, wrong number of equations, unknown or missing parts) are refused.",
     ["programs"], "every model file and every equivalent way of writing it", TESTS + "; one notation of two files is read.",
     ["pydsge/parser.py", "pydsge/symbols.py", "pydsge/gensys.py"],
     [("preprocessing of the text", "pydsge/parser.py read, parse"), ("symbolic processing", "pydsge/parser.py __new__"),
      ("ordering of variables", "pydsge/gensys.py")],
     ["DSGE.read", "irfs", "obs"],
     "Every version is read and driven with the same shocks and compared by name with the reference solution.",
     "runtime monitoring: metamorphic oracle over rewritten model files")

prop("C06", "Leads, lags and lagged shocks of any length mean what they say",
     "A variable with a lead or lag of any number of periods, or a shock with a lag, enters an equation with exactly the "
     "value of that period, along every path and whether or not the constraint binds. The model behaves as the same model "
     "written out by hand with auxiliary variables.",
     ["programs", "inputs"], "every model with leads and lags up to length 6 and every shock history",
     TESTS + "; no example has a lead longer than one period or a lagged shock.",
     ["pydsge/parser.py", "pydsge/symbols.py", "pydsge/gensys.py"],
     [("auxiliary variables for long leads, lags and shock lags", "pydsge/parser.py __new__"),
      ("dates of variables", "pydsge/symbols.py")],
     ["DSGE.read", "irfs", "t_func"], "Residuals of the text, reference solution and a hand-written twin decide.",
     "runtime monitoring: residual monitor, differential oracle against hand-expanded twins")

prop("C07", "Observables are the written measurement equations at the reported state",
     "For every state, series or batch of states, the observables returned are the measurement equations of the file "
     "evaluated at it with the parameters in force (or with those handed in, vector by vector). Intervals around them use "
     "the covariance of the observables implied by that of the states, and asking never changes the model.",
     ["inputs", "programs"], "every model, parameter vector and state", TESTS + "; observables are only used inside a filter.",
     ["pydsge/tools.py", "pydsge/gensys.py", "pydsge/parser.py"],
     [("observation matrices", "pydsge/gensys.py"), ("o_func", "pydsge/tools.py")],
     ["obs", "o_func", "t_func(get_obs=True)"], "The text of the measurement equations is evaluated at the state, by name.",
     "runtime monitoring: oracle on every returned observable")

prop("C08", "Impulse responses apply the listed shocks, period by period",
     "Impulse responses are the transition applied to exactly the listed shocks, each in its period and with its size, "
     "starting from the given state or the steady state, at the given or current parameters, for the requested number of "
     "periods, reporting the durations and a flag that is up if and only if some period had no equilibrium. They shift "
     "with the date of the shock, add up and scale when linear, can be continued from any intermediate state, and a batch "
     "over parameter vectors equals the single calls.",
     ["inputs", "histories"], "every model, list of shocks, state, length and set of parameter vectors",
     TESTS + "; one shock list is compared with stored numbers.",
     ["pydsge/tools.py", "pydsge/engine.py"], [("loop over periods", "pydsge/tools.py irfs"),
                                              ("transition", "pydsge/engine.py t_func_jit")],
     ["irfs"], "Independent step-by-step replay plus relations between calls.",
     "runtime monitoring: replay oracle and metamorphic relations over call histories")

prop("C09", "Simulations apply the given innovations, sample by sample",
     "Simulating from given initial states, parameters and innovations returns, for every sample, the given initial state "
     "followed by the transition applied to each innovation in turn, with the durations and an error flag if some period "
     "had no equilibrium. A mask changes exactly the innovations it names, samples do not influence each other or depend "
     "on their order or on running in a pool of processes, and a simulation can be cut and continued.",
     ["inputs", "histories", "schedules"], "every model, sample, mask and pool size",
     TESTS + "; simulation is exercised once on one example.",
     ["pydsge/tools.py", "pydsge/estimation.py"], [("runner and pool", "pydsge/tools.py simulate"),
                                                  ("pool", "pydsge/estimation.py create_pool, mapper")],
     ["simulate"], "Independent replay of each period, relations between calls, pool versus serial.",
     "runtime monitoring: replay oracle, schedule variation over process pools")

prop("C10", "Parameters are what was last set; everything else keeps its value",
     "After any sequence of successful sets (by name, full vector, vector of the estimated parameters, named set) every "
     "parameter reads as the value last given to it, derived parameters as their functions of these, and shock standard "
     "deviations, the bound and the solution belong to exactly these values. Reading parameters, drawing from the prior "
     "and working on a vector of the caller's change neither the model nor the caller's data, and names that do not exist "
     "or are derived are refused.",
     ["histories", "inputs"], "every model and every sequence of sets and gets", TESTS + "; parameters are set once.",
     ["pydsge/mpile.py", "pydsge/gensys.py", "pydsge/parser.py"],
     [("get_par, set_par, get_cov", "pydsge/mpile.py"), ("derived parameters", "pydsge/parser.py, pydsge/gensys.py")],
     ["set_par", "get_par", "get_cov"], "A shadow copy of the parameters and the reference solution after every operation.",
     "runtime monitoring: shadow-state monitor over random operation histories")

prop("C11", "Answers depend on the file and the parameters only, not on history",
     "What a model answers (impulse responses, expected paths, observables, parameters) is determined by its file, the "
     "parameters last set and the horizons last chosen. Earlier calls, failed sets, other models in the same process, "
     "copies, saving and loading, re-reading from the cache, and writing into returned results make no difference.",
     ["histories"], "every sequence of operations on several models", TESTS + "; each works on a fresh model.",
     ["pydsge/gensys.py", "pydsge/parser.py", "pydsge/tools.py", "pydsge/mpile.py", "pydsge/engine.py"],
     [("state rebuilt by each set", "pydsge/gensys.py gen_sys_from_dict"), ("caching of parsed files", "pydsge/parser.py read"),
      ("copies for batches", "pydsge/tools.py irfs, simulate")],
     ["all public calls"], "Probes after every operation against a reference that only knows file, parameters and horizons.",
     "runtime monitoring: history-independence monitor with reference probes")

prop("C12", "Linear likelihood, filter and smoother are those of the implied Gaussian model",
     "For a linear model with Gaussian shocks, the likelihood is the density of the data under the joint normal "
     "distribution the model, its measurement error and its initial covariance imply, filtered and smoothed states and "
     "their covariances are the corresponding conditional moments, and the posterior adds the log prior density. The shocks "
     "attributed to two successive states are those that lead from one to the other. Data or set-ups that cannot be filtered are refused.",
     ["inputs"], "every model with as many observables as shocks, data set, measurement error, initial covariance and "
     "parameter vector", TESTS + "; one likelihood value is used in a short estimation and never compared.",
     ["pydsge/filtering.py", "pydsge/estimation.py", "pydsge/gensys.py"],
     [("wiring of the filter", "pydsge/filtering.py create_filter, get_ll, run_filter"),
      ("posterior", "pydsge/estimation.py prep_estim")],
     ["lprob", "get_ll", "run_filter", "get_eps_lin"], "Dense joint normal from the reference solution; priors written out again.",
     "runtime monitoring: differential oracle (dense Gaussian) on every likelihood and smoothed path")

prop("C13", "The nonlinear likelihood filters the model's own transition and observables",
     "The nonlinear likelihood and filter are the ensemble filter run on exactly the model's transition (constraint "
     "included) and measurement equations, with the shock covariance, initial covariance and measurement error of the "
     "model and the number of members and seed asked for, in reduced or full form. The same question gets the same answer.",
     ["inputs", "histories"], "every model, data set, ensemble size, seed and parameter vector",
     TESTS + "; likelihood values are never compared.",
     ["pydsge/filtering.py", "pydsge/estimation.py", "pydsge/tools.py"],
     [("wiring of the filter", "pydsge/filtering.py create_filter, get_ll"), ("posterior", "pydsge/estimation.py")],
     ["lprob", "get_ll"], "econsieve's TEnKF wired up independently from single public calls; the filter itself is trusted.",
     "runtime monitoring: differential oracle with an independently wired filter")

prop("C14", "Extracted shocks reproduce the smoothed history when simulated",
     "Shocks and initial state extracted from data reproduce, when simulated at the same parameters, the reported states; "
     "their observables match the data up to measurement error, and in the linear case states and shocks are the exact "
     "conditional expectations given the data. Results carry the parameters they belong to, and repeating, batching, "
     "reordering or pooling extractions does not change them.",
     ["inputs", "histories", "schedules"], "every model, data set, set of parameter vectors and pool size",
     TESTS + "; one extraction is compared with stored numbers.",
     ["pydsge/filtering.py", "pydsge/tools.py"], [("extract, run_filter", "pydsge/filtering.py"), ("simulate", "pydsge/tools.py")],
     ["extract", "simulate"], "Round trip through simulate, dense conditional expectations, repeated and pooled runs.",
     "runtime monitoring: round-trip and differential oracle over extraction histories")

prop("C15", "The posterior density is a pure function of the parameters",
     "The log posterior at a point is one number, never NaN or plus infinity, equal to log prior plus (tempered) log "
     "likelihood, minus infinity outside the support or without a solution, and the same in the sampler's own space. It "
     "does not depend on what was evaluated or done before, and evaluating it changes neither its argument, the state of "
     "the random number generator nor the warning filters.",
     ["histories", "inputs"], "every sequence of evaluations and other operations, linear and nonlinear",
     TESTS + "; the density is evaluated inside one short chain.",
     ["pydsge/estimation.py", "pydsge/filtering.py", "pydsge/gensys.py"],
     [("lprob, llike", "pydsge/estimation.py prep_estim"), ("seeding", "pydsge/estimation.py llike")],
     ["lprob"], "Dense Gaussian plus independent prior (linear) or a freshly prepared model (nonlinear).",
     "runtime monitoring: purity monitor (RNG, warnings, arguments) and value oracle over histories")
from meta2 import more
more(prop)

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "technique")}) + "\n")
    checks = [dict(property=p["id"], quick_cmd="./check %s" % p["id"],
                   thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                   technique=p["technique"], level="exploration", level_note=p["note"]) for p in P
              if os.path.exists(os.path.join(HERE, "pvm", "checks", p["id"] + ".py"))]
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=NA,
             notes="No hooks in /repo are needed: monitors sit on the public API. /repo carries fix: commits only; see "
                   "known_findings.txt. Every check runs the working tree of /repo in fresh processes with a private "
                   "numba cache (nothing compiled is reused) and NUMBA_BOUNDSCHECK=1.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
    print(len(P), len(checks))


main()
