"""Writes /verif/MANIFEST.json: one check per checks/Cxx.py present, notes from the table below."""
import json, os, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "interprocedural value numbering: gated value-graph extraction from the syntax tree, normalised and compared with a specification graph"
NOTES = {
 "C10": (VG, "Every public select/update procedure with the optimiser call as observation point: arguments, objective at a symbolic point, stored parameters, report; arrays and a two-batch loader; both backends."),
 "C20": (VG, "Complete runs of one or two chains, up to four transitions, two coordinates, arbitrary target and proposals, draws as free symbols; adaptation rules, freezing, pooling, Gelman-Rubin and sliding rates; both backends."),
 "C21": (VG, "Whole transitions: one doubling for arbitrary density, gradient and divergence threshold; two doublings in every direction, with arbitrary energies for the statistics and with every pattern of levels (in the slice, outside, divergent, outside the support) for the state. Whole runs of two chains with up to five warm-up iterations and two metric windows, transitions as observation points."),
 "C22": (VG, "Particle operations and whole runs with two to four particles in two dimensions, arbitrary densities and perturbations, every multinomial count vector; schedules by partial evaluation on rational weights; both backends."),
 "C23": (VG, "The density, start and options each of the four samplers receives, at a symbolic point for an arbitrary criterion, box and temperature; Stein updates of two or three particles with a given bandwidth; annealing schedules. The median bandwidth heuristic is not decided; both backends."),
 "C27": (VG, "All combinations of the conversion flags, array libraries of the inputs, flat and column observations, three mean types, both backends; array libraries tracked as tags on values."),
 "C28": (VG, "Symbolic data of any size, two input dimensions, arrays and a two-batch loader, both backends; spacing quantities where some spacing is positive."),
 "C29": (VG, "Quadrature as a linear functional of the integrand (moments), root finding and minimisation as labels; grids of four points; three covariance parameters, subsets and boxes; both backends."),
 "C30": (VG, "All eight benchmark functions on symbolic rows, designs in symbolic boxes with the candidates' criterion values in every order, tables of three rows and two columns under every selection, assignment, append and concatenation; both backends."),
 "C31": (VG, "Drawing calls recorded with their data at the call: three points or parameters, arbitrary data, models and criteria, subsets and orders of parameters, both backends. Line styles, colours and limits are not judged."),
 "C09": (VG, "Objective handed to the optimiser evaluated on scripted symbolic points held in one reused array, every order of three values, failures, infinities, not-a-number; every optimiser argument; both backends."),
 "C17": (VG, "Every normalisation, accessor, setter, selection, concatenation and conversion for symbolic values; both backends. Two known findings."),
 "C18": (VG, "Row bookkeeping of datasets, loaders, splits and folds for symbolic sizes, shard positions and batch sizes; both backends."),
 "C19": (VG, "Round trips, fitted location and scale, tiny-spread replacement, all four scalers, symbolic data, both backends; input effects by the store in the heap model."),
 "C12": ("call-site census over the resolved program; provenance (dataflow) of every draw on the interprocedural value graph", "Every call site that draws in the library (both backends) names its generator; for each random procedure, every draw is traced to the seed or the caller's generator."),
 "C11": ("exception-flow analysis on the interprocedural value graph; exception-handler query over the syntax trees", "Thirteen exception classes raised by a user's function (with messages that mention linear algebra) and by library calls, followed through likelihoods, predictions, priors, criterion wrappers, optimisation and samplers, both backends."),
 "C13": ("write-effect analysis with may-alias (view) tracking on the interprocedural value graph", "Every call of a library entry point in the scenarios of 26 checks (about 250 entry points on each backend): no in-place operation reaches memory shared with an argument or with an earlier result. Views, reshapes, slices and conversions without copy are followed; joins of two arrays at a selector are not."),
 "C14": ("relational comparison of the interprocedural value graphs of the two backends; call-site and keyword-binding census over the resolved program", "About 275 operation and argument forms with symbolic arrays, the random operations by distribution and shape, and every use of the backend API in the library (name exists on both backends, arguments bind). Error behaviour is not compared."),
 "C15": ("stop-gradient (taint) dataflow on the interprocedural value graph of the torch backend, derivative as a linear operator on value-graph nodes", "All shipped covariances, likelihoods, priors and posteriors, the criterion wrappers, gradient functions and sampler densities; all parameter vectors. Library automatic differentiation (torch.autograd) is assumed correct."),
 "C16": ("exception-flow analysis on the interprocedural value graph, driven by a table of argument constraints", "Every enumerated option (documented values and an unknown string) and every listed constraint of the public functions, both backends; a rejection must leave objects unchanged."),
 "C26": ("name resolution and call binding over the syntax trees, reaching definitions, and the import graph obtained from the value graph of every module", "All export tables, documented names, names used by the examples, internal imports, names, module attributes and internal calls, for both backends; NumPy names against its interface file."),
 "C25": (VG, "Configuration calls as transitions on a symbolic configuration state (object, environment, loaded module): the invariant is preserved from every state and established at start-up."),
 "C24": (VG, "All rules with every combination of finite and infinite bounds and every entry of the performance dictionary, symbolic data, both backends."),
 "C01": (VG, "For all sizes, data, covariance and mean functions (uninterpreted); three mean types, both backends, fallback route by fault labels on the solver calls. Real arithmetic; library functions as modelled."),
 "C02": (VG + "; dataflow (dependence) query on the graph", "Dependence on zi decided on the normalised graph for all inputs; sign of the variance by the clamp at the output."),
 "C03": (VG, "All criteria, both backends, for every size and covariance; factorisation failure by fault labels on the factorisation calls."),
 "C04": (VG, "All three mean types and both backends, every size, data and covariance; with one contrast as explicit rational functions."),
 "C05": (VG, "Square-root identity and conditioning formula, symbolic sizes, both backends."),
 "C07": (VG, "Kernels for orders 0 to 8 and symbolic order, covariance modes for symbolic points and parameters, both backends; diagonal regularisation by its proportionality to the variance."),
 "C08": (VG, "Every prior and posterior criterion for symbolic parameters and hyperparameters, every subset of anchor arguments, both backends."),
 "C06": (VG, "Every entry of the 2-parameter Fisher matrix for symbolic design, covariance and step; norms for all sizes."),
}
NA = {
 "C90": "bounds on floating-point error quantify over runtime condition numbers; no sound static bound in reach",
 "C91": "convergence in distribution of random iterations is not visible in the shape of the code",
 "C92": "optimality of the point returned by an external iterative optimiser is a runtime quantity",
 "C93": "floating-point positive definiteness depends on runtime point spacing and rounding",
}
ids = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(ROOT, "checks", "C[0-9][0-9].py")))
checks = []
for i in ids:
    if i not in NOTES:
        continue
    t, n = NOTES[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", technique=t, level="other", level_note=n))
allp = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [dict(property=p, reason=NA[p]) for p in allp if p in NA]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [p for p in allp if p not in ids and p not in NA], "without check")
