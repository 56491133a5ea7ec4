"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

GE = "effector/global_effect.py"; PDP = "effector/global_effect_pdp.py"; ALE = "effector/global_effect_ale.py"; SH = "effector/global_effect_shap.py"
RE = "effector/regional_effect.py"; RP = "effector/regional_effect_pdp.py"; RA = "effector/regional_effect_ale.py"; RS = "effector/regional_effect_shap.py"
PA = "effector/partitioning.py"; IN = "effector/interaction.py"; VI = "effector/visualization.py"; HE = "effector/helpers.py"; UT = "effector/utils.py"; BS = "effector/bin_splitting.py"; BM = "effector/binning_methods.py"


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": observe, "hook_needed": None}}


PROPS = [
    P("C01", "Global effects equal their definition and do not depend on history",
      "Evaluating a global effect (PDP, d-PDP, ALE, RHALE, SHAP-DP) returns what the method's published definition gives for the rows the explainer selected that lie inside that feature's axis limits, the user's model, and the latest fit settings of that feature (binning method, number of points used for centering). "
      "The answer does not depend on which other calls (fits of other features, evaluations with another centering, plots, failed requests) came before it. "
      "A request with no valid answer is refused, and a feasible one is not.",
      ["histories", "inputs", "configurations"],
      "every sequence of construct/fit/eval/plot calls over the five methods, all centerings, limits that exclude rows, integer and non-contiguous data, all binning methods",
      "The tests call each method once, right after fit, on two or three fixed data sets; none interleaves features, re-centres, changes limits or compares with a fresh explainer, so the refit-on-centering and row-filter paths are never judged.",
      [GE, PDP, ALE, SH, UT, HE],
      [("refit decides whether a stored fit may be reused", GE), ("fit stores one entry per feature", PDP), ("compute_ale_params / compute_accumulated_effect", UT), ("row filter by axis limits", HE)],
      ["PDP/DerPDP/ALE/RHALE/ShapDP.eval return values"],
      [("per-feature fit", "bins, norm constant or spline of a feature, with the settings it was made with", GE)]),
    P("C02", "A failing model, exhausted memory or an interrupt always reaches the caller",
      "If the user's model or Jacobian raises, memory runs out, or the user interrupts while a library call is running, then that call raises that exception (or one caused by it) to its caller. "
      "It is never swallowed and turned into a heterogeneity value, a partition, a curve or an interaction index. "
      "This holds for constructing, fitting, evaluating and plotting every global, regional and interaction explainer.",
      ["fault_sequences", "histories"],
      "every exception type at every model, Jacobian or allocation point of every call of every explainer class",
      "No test lets a model fail. A swallowed failure produces a plausible partition, which only a run that fails the model at one chosen call and looks at what came back can show.",
      [RP, RA, RS, PA, GE, IN],
      [("heterogeneity functions return BIG_M only for infeasible regions", RP), ("same for ALE/RHALE", RA)],
      ["return or raise of every public call"]),
    P("C03", "A failed or interrupted call leaves an explainer as before or as after it",
      "If a fit, eval, plot or print call on a global, regional or interaction explainer fails or is interrupted at any point where it is inside the model, the Jacobian, numpy, the plotting backend or the output stream, every feature afterwards answers either as if that call had never been made or as if it had completed for that feature, never from a mixture. "
      "Repeating the call once the fault is gone succeeds and gives the right answer.",
      ["fault_sequences", "crash_points", "histories"],
      "every point inside every call at which the model, the Jacobian, an allocation, the plotting backend or an interrupt can end the call, followed by any further calls",
      "The tests contain no failing call; the state after a failure is only visible to a later call, and only for particular failure points between two stores.",
      [GE, ALE, PDP, SH, RE, RA, IN],
      [("fit stores a feature only once everything for it is computed", ALE), ("trees, partitioner and fitted flag of a regional feature", RE), ("index matrices", IN)],
      ["answers of later eval/get_node_info/show_partitioning calls"],
      [("is_fitted / feature_effect / method_args", "three stores that must agree", GE)]),
    P("C04", "Arguments belong to the caller: never modified, never read again later",
      "No call modifies the data, effects, axis limits, evaluation points, lists, dictionaries or binning objects it is given, nor the arrays the user's model returns. "
      "If the caller later changes the data or the precomputed effects in place, or writes into an array an eval call returned, the explainer's later answers do not change.",
      ["histories", "inputs"],
      "every call sequence with caller-side mutations between calls, for C, Fortran, strided and read-only arrays, float and integer",
      "Tests build fresh arrays per call and never compare or mutate them afterwards, so an aliased or modified argument is invisible.",
      [GE, RE, RA, ALE, IN, UT, BM],
      [("rows are copied at construction by index selection", GE), ("bin limits are private to the fit", UT)],
      ["caller's arrays before and after each call", "later eval answers"]),
    P("C05", "Exactly min(n, N) distinct rows are used, chosen once, paired with their effects",
      "An explainer asked for n instances of N rows works on exactly min(n, N) distinct rows of the given data (all of them for \"all\"), chosen once at construction and used by every later call; no call samples them again or adds others. "
      "Precomputed or computed local effects stay paired with their own rows, inside the explainer and in every subregion, whatever was sampled or split.",
      ["inputs", "histories", "configurations"],
      "every sampling draw, sample size below, at and above N, every class, every later history and every partition",
      "Tests use nof_instances='all' or accept any sample; pairing errors need sampling together with given effects and a check that identifies rows.",
      [HE, GE, ALE, SH, RE, RA, PA, IN],
      [("prep_nof_instances draws without replacement", HE), ("indices applied to data and effects together", ALE), ("split_dataset splits data and effects with the same mask", PA)],
      ["explainer.data", "rows seen by the model", "get_node_info data and effects"]),
    P("C06", "With numpy seeded, a session is bit-for-bit repeatable in any process",
      "Seeding numpy's global generator before a session makes every result of it (selected rows, curves, partitions, labels, printed text, drawings) bit-identical in every process, whatever the hash seed and whatever unrelated work ran before. "
      "After construction, answers do not depend on the state of the global generator, and only a plot that shows a random subset of the curves draws from it. "
      "No call reseeds or rewinds the user's global generator.",
      ["schedules", "histories", "configurations"],
      "every session repeated in other processes, under other hash seeds, after other sessions in the same process, and with the generator advanced between calls",
      "Tests run each scenario once in one process and compare to tolerances, not bits, so hidden dependence on random state, hash order or process history is invisible.",
      [HE, GE, SH, VI, RE],
      [("only construction draws, from numpy's global generator", HE), ("SHAP explainer receives a fixed seed", SH)],
      ["all results", "numpy generator state before and after calls"]),
    P("C07", "Concurrent use does not mix up answers",
      "When several threads use explainers at the same time - different explainers sharing one model and one data array, different features of one explainer, different interaction indices, or evaluations of features that are already fitted (with the fitted centering or none) - every fit, eval, node or print call returns what it returns when it runs alone, whatever the interleaving. "
      "Afterwards each explainer answers as if the calls had run one after another.",
      ["schedules", "histories"],
      "every interleaving of two or three threads at model calls, numpy calls and source lines",
      "All tests are single-threaded.",
      [GE, PDP, ALE, SH, RE, RP, RA, UT],
      [("per-feature entries are stored whole", GE), ("no module-level mutable state", HE)],
      ["eval return values per thread, and of a final sequential pass"]),
    P("C08", "Centering only shifts a curve vertically, by the promised amount",
      "In every history, the curves of one feature under the different centerings (none, zero_start, zero_integral) differ by a constant only (for PDP and d-PDP: each instance's curve by its own constant). "
      "zero_start is zero at the feature's lower axis limit (SHAP-DP: at its smallest selected value) and zero_integral (also True) has mean zero over the centering points of the range. "
      "The reported heterogeneity of ALE, RHALE and SHAP-DP does not depend on the centering.",
      ["histories", "inputs", "configurations"],
      "every order of evaluations with different centerings, after any fits, failures and plots",
      "The tests compare one centering per fitted object against closed forms; order of centerings and explicit prior fits never vary.",
      [GE, PDP, ALE, SH, HE],
      [("refit on a different centering", GE), ("norm constants", ALE), ("per-instance norm constants", PDP)],
      ["eval under each centering"]),
    P("C09", "Subregions truly partition the rows, with true labels, weights and heterogeneity",
      "After fitting a regional effect, the nodes at each level of the tree are disjoint, together hold exactly the explainer's rows, and every row satisfies the condition in its node's label; each node's row count, weight and heterogeneity are those of its rows. "
      "Each split is the best of the candidate splits, by weighted heterogeneity, within the requested features, candidate positions, depth and minimum size, and a region is split only if it is allowed to be. "
      "The pruned tree is the longest prefix of splits whose relative drop exceeds the threshold (just the root when the heterogeneity is already small enough).",
      ["inputs", "histories", "configurations", "fault_sequences"],
      "every data set (ties, categorical, values on the split point), model, method, tree setting, and history of fits, refits and failed fits",
      "The only regional test fits one depth-1 case and looks at two numbers; ties on the threshold, depth 2, effects splitting and refits are never reached.",
      [PA, RE, RP, RA, RS],
      [("single_level_splits", PA), ("choose_important_splits", PA), ("splits_to_tree", PA)],
      ["tree nodes", "get_node_info"]),
    P("C10", "A regional effect is the global effect of the subregion's rows",
      "Evaluating a regional effect at a node returns what the same global method, with the settings the regional effect was fitted with, returns on exactly the rows (and effects) of that node. "
      "Repeating the evaluation gives the same answer, whatever was evaluated, plotted or printed in between.",
      ["histories", "inputs", "configurations"],
      "every node of every tree, method, binning, centering and order of eval/plot/print/refit calls, subregions larger than the methods' default sample sizes included",
      "The regional test evaluates no node; hidden resampling only shows above 100 or 300 rows and a lost binning method only against a fitted reference.",
      [RE, RA, RP, RS],
      [("_create_fe_object builds the node's global method", RE), ("method_args keeps the settings of the fit", RA)],
      ["Regional*.eval"]),
    P("C11", "Plots draw what eval returns and leave the explainer unchanged",
      "The curve, bands, bins and points that a plot draws are the values eval returns for the drawn positions under the requested centering and heterogeneity, transformed by the given scale and labelled with the method, feature and target they show. "
      "Plotting never changes later answers, whether it succeeds or the plotting backend fails, and a plot with any documented combination of options succeeds.",
      ["histories", "configurations", "fault_sequences"],
      "every plot option combination (scaling of x, of y, of both, heterogeneity kinds, averages, limits) at any point in a history, with backend failures",
      "Tests never call plot; a wrong figure raises nothing.",
      [VI, PDP, ALE, SH, RE, RA],
      [("ale_plot / plot_pdp_ice / plot_shap", VI), ("RegionalALE/RegionalRHALE.plot", RA)],
      ["artists of the created figure", "later eval answers"]),
    P("C12", "Printed partitions tell the truth and printing changes nothing",
      "show_partitioning and describe_subregions print the tree that evaluation and get_node_info use: the same nodes, conditions, row counts, weights, heterogeneities, levels and drops, in the units of the scale passed to that very call. "
      "They only read: neither they, nor a plot with a scale, change what later calls print or answer, even when the output stream fails half way.",
      ["histories", "configurations", "fault_sequences"],
      "every order of show/describe/plot/eval/refit calls with and without scales and of stream failures",
      "No test looks at printed text or prints with a scale and then without.",
      [RE, PA],
      [("show_full_tree / show_level_stats", PA), ("describe_subregions", RE), ("scaled trees", RE)],
      ["stdout", "get_node_info"]),
    P("C13", "Binning requests are honoured exactly or refused without effect",
      "A fitted ALE or RHALE feature uses bins that are strictly increasing, cover the feature's axis range (or every category), number at most what was asked for, and each hold at least the requested minimum of points. "
      "When no such bins exist the fit is refused and the feature keeps the answers it had; when they exist for the requested method the fit is not refused.",
      ["inputs", "configurations", "histories"],
      "every data layout (ties, gaps, categories, limits excluding rows), binning method and parameter, and earlier history",
      "Tests give the bin finders a few dense uniform arrays and check limits only; minimum counts with closed edges, gaps and refusals with prior state are not tested.",
      [BS, BM, ALE],
      [("Fixed / Greedy / DP find", BS), ("find_limits", BM), ("assertion that bins exist before storing", ALE)],
      ["bin limits of the fitted feature", "refusals", "later eval answers"]),
    P("C14", "Interaction indices match their definition, are symmetric and stay put",
      "HIndex returns for a pair of features the share of variance of their joint centred partial dependence not explained by the two single ones, for one feature the same against all others, and REPID the mean spread of the centred ICE curves of the feature - all over the selected rows. "
      "The pairwise index is symmetric, and no value depends on the order of calls, on earlier failures, on fitting everything at once or on plotting.",
      ["histories", "inputs", "fault_sequences"],
      "every order of fit/eval_pairwise/eval_one_vs_all/plot calls and of faults among them",
      "There is no test of the interaction module.",
      [IN, PDP],
      [("memoised matrices", IN), ("pdp_nd_vectorized", PDP)],
      ["eval_pairwise", "eval_one_vs_all", "plotted matrix"]),
    P("C15", "The model is only asked what the method needs",
      "Every row the library sends to the model or Jacobian is one of the explainer's rows with only the features under study replaced by values inside their range (bin edges for ALE, a small step for numerical derivatives, other rows' values for SHAP and interaction indices). "
      "With use_vectorized=False no batch exceeds the number of rows and answers equal the vectorised ones. "
      "Evaluating an ALE, RHALE or SHAP-DP feature that is already fitted with the requested centering (or with none requested), and constructing with a given average output, ask the model nothing.",
      ["inputs", "histories", "configurations"],
      "every call of every method in any history, also with a model that refuses batches above a capacity",
      "Tests never look at the queries.",
      [PDP, ALE, UT, SH, GE, IN],
      [("pdp_1d_vectorized / pdp_1d_non_vectorized", PDP), ("compute_local_effects", UT), ("stored fits are reused", ALE)],
      ["arguments of every model and Jacobian call"]),
    P("C16", "The numerical Jacobian approximates the true derivative",
      "The Jacobian computed from the model alone is within finite-difference accuracy of the model's true derivative for every smooth model.",
      ["inputs"], "every smooth model and data set",
      "Numerical accuracy over all functions; the tests take one.",
      [UT], [("compute_jacobian_numerically", UT)], ["compute_jacobian_numerically"]),
    P("C17", "Transformed data has one column per subregion, those of the tree in force",
      "Transforming data with the important splits of a regional effect (DataTransformer) gives, for each feature in order, one column per subregion of its pruned tree, in tree order: the feature's value in the rows that satisfy the subregion's conditions and zero in all others, so that the columns of a feature always add up to it. "
      "A feature without subregions stays one unchanged column, and each column's name states its conditions. "
      "This holds for any data with the same columns, after any history of fits, refits, failed fits, plots and prints; transforming changes neither the data nor the regional effect.",
      ["histories", "inputs", "configurations", "fault_sequences"],
      "every session of fits, refits and failures, every tree, and every data set with the same columns, rows on split points and outside the fitted range included",
      "No test calls it; whether its columns agree with the tree depends on which fit succeeded last and on all features before the one at hand.",
      [PA, RE, RP, RA, RS], [("DataTransformer.transform", PA), ("choose_important_splits", PA), ("partitioner stored with its trees", RE)],
      ["DataTransformer.transform", "new_names", "trees before and after"]),
    P("C18", "Automatic bins are those of least cost, for the latest request",
      "For a RHALE feature that is not categorical and has rows for at least two bins, the dynamic-programming binning in force has, among all binnings on its grid of equal cells whose bins each hold the minimum number of points, the least total cost (variance of the effects times width, discounted by the share of the points); "
      "the greedy binning is the one of a left-to-right scan of its grid that closes a bin, once it holds the minimum number of points, exactly when the next cell would raise that cost, and joins a last bin with too few points to the one before. "
      "They are computed from the rows inside the limits, their own effects and the latest request of that feature, whatever was fitted, refused or failed before.",
      ["inputs", "configurations", "histories", "fault_sequences"],
      "every data layout, effects, cost parameters and earlier history",
      "The tests compare a handful of step functions, each right after construction.",
      [BS, BM, ALE], [("DP.find", BS), ("Greedy.find", BS), ("_bin_cost", BS), ("find_limits", BM)], ["bin limits of the fitted feature"]),
    P("C19", "Calls leave the process as they found it, even when they fail",
      "No call on a global, regional or interaction explainer changes process-wide state of the user's program, whether it succeeds, fails or is interrupted: numpy's error handling and print options, Python's random generator, warning filters, standard streams, environment, working directory, signal handlers, recursion limit, matplotlib's settings and interactive mode, threads. "
      "Only show_partitioning, describe_subregions and the interaction classes print to standard output. "
      "A successful plot opens exactly one new figure (an H-index plot one per matrix) and a failed one at most that; figures that are already open, the user's own or earlier plots, keep their content and stay open, and no other call opens, closes or selects a figure.",
      ["histories", "fault_sequences", "configurations"],
      "every call of every class at any point of a session, with a failure at any point inside it, in processes with their own settings and open figures",
      "No test looks at the process; state that is restored on success but not on failure shows only when the call fails at the right point.",
      [GE, PDP, ALE, SH, RE, PA, IN, VI, UT, BS], [("plots create their own figure", VI), ("interaction plots", IN), ("numpy's generator is restored around shap", SH)],
      ["process state before and after every call", "open figures and their artists", "standard output"]),
]
NA = {
    "C16": "pure numerical analysis of one stateless function: no schedule, time, fault or history enters, so a simulator has nothing to decide (its failure behaviour and its use inside sessions are covered by C01-C03)",
}
TECH = {
    "C01": "deterministic simulation: seeded session histories against an executable reference and a fresh-explainer differential",
    "C03": "deterministic simulation with fault injection: failures at seam crossings, before-or-after atomicity against a reference",
}
LEVEL_NOTE = {}


def main():
    sys.path.insert(0, V)
    have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "dst", "props")) if f[0] == "c" and f[1:3].isdigit())
    techs = json.load(open(os.path.join(V, "tools", "tech.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in have:
            t = techs[i]
            checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                           "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "the simulated check for this property is still being built")})
    m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": na,
         "notes": "Deterministic simulation with fault injection; every seam is installed from outside /repo at run time, so no hooks were added there."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
