"""Writes properties.jsonl (the statements live here, one dict each)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)
B = "src/finoptions/base.py"; V = "src/finoptions/vanillaoptions.py"
A = "src/finoptions/basic_american_options/__init__.py"; T = "src/finoptions/binomial_tree_options/__init__.py"
M = "src/finoptions/monte_carlo_options/__init__.py"; MI = "src/finoptions/monte_carlo_options/mc_innovations.py"
MP = "src/finoptions/monte_carlo_options/mc_paths.py"; MY = "src/finoptions/monte_carlo_options/mc_payoffs.py"
H = "src/finoptions/heston_nandi_options/__init__.py"
S3 = "src/finoptions/spread_options/bitree3d.py"; SA = "src/finoptions/spread_options/spreadapprox.py"
ALL = [B, V, A, T, S3, SA]

p("C01", "Every Monte Carlo loop is priced from exactly its own draw",
  "Pricing a Monte Carlo call or put with L loops takes exactly L samples from the plugged-in innovation source and returns L numbers, the i-th being the mean discounted payoff over the paths built from the i-th sample - all of it, once - joined with its mirror image when antithetic is on and then shifted and scaled to zero mean and unit standard deviation when standardization is on. This holds for any innovation, path and payoff classes (each given the option's own S, K, t, r, b, sigma and dt = t / path_length), for any sizes and flags, and for every pricing in a sequence of pricings on the same option. Arrays handed over by the source are never modified, even if the source reuses one buffer for every draw.",
  ["inputs", "histories", "configurations"],
  "all plug-in stacks (fresh, buffer-reusing, read-only sources; built-in and custom paths and payoffs), all loop/path/step sizes, flag combinations and sequences of call()/put() on one option",
  "The tests price one vanilla contract with 50 loops and look only at the grand mean to 1%, so a dropped, repeated or reordered draw, a mis-scaled variate or a mutated buffer cannot show.",
  [M, MP, MY], [("the per-loop draw/antithetic/standardize/path/payoff/mean pipeline", M + ":_sim_mc"), ("plug-in interfaces", MI + ":Innovations; " + MP + ":Path; " + MY + ":Payoff")],
  [("innovation source", "supplies the L samples of one pricing", M + ":MonteCarloOption.__init__")],
  ["MonteCarloOption.call() / put() return value", "arguments seen by the plugged-in classes"])

p("C02", "A Monte Carlo fault surfaces and leaves the option as it was",
  "If an innovation source, path or payoff raises - or the pricing is cancelled - at any point of any loop, the very same exception reaches the caller, no partial result is returned, and the next pricing on that option is correct again. A loop whose average payoff is +infinity is never reported as a price: pricing stops at the first such loop, warns naming that loop's number, and returns the triple (innovations used, path object, payoffs) of that loop instead of the array of prices, also when tracing is on.",
  ["fault_sequences", "crash_points", "histories"],
  "all faults (exceptions of every kind, cancellations, overflowing payoffs, failing allocation) at all points of all loops, alone or in sequences, followed by further pricings",
  "No test ever makes a plug-in fail or a loop overflow.",
  [M, MI], [("loop body with no exception handler; the Inf branch", M + ":_sim_mc"), ("trace printing", M + ":_print_trace")],
  None, ["exception seen by the caller of call()/put()", "warnings", "later prices"])

p("C03", "Monte Carlo pricings running at once do not disturb each other",
  "When several threads price at the same time - on separate Monte Carlo options or on one shared option, calls and puts mixed - every pricing returns exactly what it would have returned had it run alone on the samples that were drawn for it. This holds under any interleaving and also when one of the pricings fails or is cancelled part-way.",
  ["schedules", "fault_sequences"],
  "all interleavings of 2-4 threads, preempted between any two source lines of the library and inside the plugged-in classes, with shared and private options and at most one failing thread",
  "The test suite is single-threaded.",
  [M, MI, MP, MY], [("all state of a pricing is local to the call", M + ":_sim_mc"), ("a new engine per sample", MI + ":_get_sobol")],
  None, ["MonteCarloOption.call()/put() return values per thread"])

p("C04", "Built-in innovations are finite, fresh normals, whatever the random source",
  "A sample from the built-in normal Sobol source is always a (mc_paths, path_length) array of finite numbers: the standard-normal quantiles of one newly generated Sobol point set, never one already used by an earlier sample. If the random scrambling produces points whose quantile is infinite the whole set is discarded and another drawn, any number of times, and the sample is delivered as soon as a usable set appears; an error of the generator reaches the caller and does not spoil later samples. Without scrambling the sample is the deterministic Sobol sequence with its all-zero first point skipped, and pre-generated innovations given to the source are returned as they are.",
  ["fault_sequences", "inputs", "histories"],
  "all outcomes of the Sobol scrambling, including exact zeros at any position and any streak of unusable point sets, all sizes, and sequences of samples and prices from one source",
  "A zero coordinate has probability about 1e-9 per number, so tests essentially never see one (TODO.md lists 'sobol innovations still return Inf sometimes').",
  [MI], [("redraw loop", MI + ":sample_innovation"), ("quantile transform and first-point handling", MI + ":_get_sobol")],
  [("Sobol engine", "the source of randomness", MI + ":_get_sobol")], ["NormalSobolInnovations.sample_innovation()", "MonteCarloOption.call()/put() with it"])

p("C05", "Monte Carlo tracing reports the real loop averages and changes nothing",
  "With trace=True each completed pricing writes one entry per loop, in loop order, holding the loop number, that loop's average and the cumulative average of the loops up to and including it; with trace=False nothing is written. Tracing changes neither the returned prices nor the innovations consumed. If the output stream fails, its error reaches the caller and a later pricing with a working stream gives complete, correct output and prices.",
  ["inputs", "histories", "fault_sequences"],
  "all pricings with tracing on and off, with the output stream failing at any write",
  "No test uses trace=True or looks at the output.",
  [M], [("trace output", M + ":_print_trace"), ("result passed through unchanged", M + ":call; put")],
  None, ["stdout", "MonteCarloOption.call()/put() return value"])

p("C06", "Monte Carlo estimates agree with the closed-form value for every seed",
  "For every seed of the random source, the Monte Carlo estimate built from the shipped classes lies within sampling error of the true value: the vanilla payoff of the generalized Black-Scholes price, and the arithmetic Asian payoff of the discounted expectation over the equally spaced averaging dates dt, 2dt, ..., t. This holds for calls and puts, with and without antithetic variates and standardization, for any contract parameters and any number of time steps.",
  ["inputs", "configurations"],
  "all seeds of the simulated random source, contract parameters, step counts and flag combinations",
  "One contract, one unseeded run, 1% tolerance; the Asian payoff is never priced through the Monte Carlo option at all.",
  [M, MI, MP, MY, V], [("log-normal step", MP + ":WienerPath.generate_path"), ("payoffs", MY + ":PlainVanillaPayoff; ArithmeticAsianPayoff"), ("sampler", MI)],
  None, ["MonteCarloOption.call()/put()", "GBSOption.call()/put()"])

p("C07", "The GARCH simulator follows its recursion on exactly the innovations drawn",
  "A simulated Heston-Nandi series has exactly n values, is driven by the n_start burn-in innovations first and then the n main innovations, starts from the stationary variance (omega+alpha)/(1-beta-alpha*gamma^2), and obeys h' = omega + alpha*(z - gamma*sqrt(h))^2 + beta*h and x = rf + lambda*h + sqrt(h)*z at every step, the burn-in being discarded. Innovations not supplied come from numpy's global generator (n plus n_start standard normals, nothing more), so equal generator states give equal series; supplied ones (n main values, n_start burn-in values) are used as given, whatever their number type, and left untouched, and with everything supplied no randomness is consumed. A simulation that fails or is cancelled part-way leaves supplied arrays intact and can be repeated with the right result.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "all parameters with a positive stationary variance, lengths, burn-ins, generator states, supplied/drawn combinations, cancellation points, and simulations interleaved in several threads on supplied innovations",
  "Two runs are tested, both with gamma = 0, one of them only for its length.",
  [H], [("the variance/return recursion and the burn-in cut", H + ":hngarch_sim")],
  [("numpy global RandomState", "source of missing innovations", H + ":hngarch_sim")], ["hngarch_sim() return value", "numpy.random state", "the supplied arrays"])

p("C08", "A GARCH fit reports the variances and residuals of the model it reports",
  "A fit's variances and residuals are those obtained by filtering the data with the reported parameters (so filtering a simulated series with its true parameters recovers the driving innovations), its initial value is the negative log-likelihood of the start parameters, its reported maximum is consistent with the reported model, and persistence and stationary variance are beta + alpha*gamma^2 and (omega+alpha)/(1-persistence) of that model. A symmetric fit is a fit with gamma = 0 throughout; the reported model is never less likely than the start parameters. The data are never modified, tracing changes no number, and a fit that was cancelled, or that runs interleaved with others, gives the same answer as one run alone.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "all simulated series and start parameters, symmetric and asymmetric, any iteration limit, cancellation at any point, interleaved fits",
  "One likelihood value is tested; hngarch_fit itself is never called by a test.",
  [H], [("filter and likelihood", H + ":_llhHNGarch"), ("optimisation and back-transformation", H + ":hngarch_fit")],
  None, ["hngarch_fit() result", "_llhHNGarch(..., ret_obj=True)"])

p("C09", "Heston-Nandi prices equal the expectation under the simulated GARCH dynamics",
  "A Heston-Nandi call or put is the discounted expected payoff of the process the library's own simulator generates under the risk-neutral parameters (lambda = -1/2, gamma + lambda + 1/2), started from the stationary variance, for every seed of the simulation; delta is the discounted expectation of the corresponding pathwise derivative and gamma the derivative of delta. This holds for every maturity in whole days, every strike within several standard deviations of the spot, every rate and stationary parameter set, and a pricing that was cancelled half-way can be repeated with the same result.",
  ["inputs", "histories", "fault_sequences"],
  "all seeds of the simulation, maturities, contract and model parameters",
  "Tests compare a single maturity and parameter set with stored numbers; the simulator and the pricer are never confronted.",
  [H], [("characteristic-function recursion", H + ":_fHN"), ("price and greeks", H + ":HestonNandiOption"), ("simulator", H + ":hngarch_sim")],
  None, ["HestonNandiOption.call/put/delta/gamma", "hngarch_sim()"])

p("C10", "An option's quotes depend only on its current parameters, not its history",
  "After any sequence of constructions, parameter changes (accepted or rejected), copies, pickling and restoring, and queries, an option reports the parameters last accepted and quotes the call, put, tree, greeks, implied volatility and text representation that a newly built option of the same class with those parameters quotes in a fresh process - the value of the documented model. Changing one option never changes another (its copies, its originals, others of the same class), and nothing the caller does to a returned tree, greeks dictionary, price dictionary or parameter dictionary changes later quotes (entries replaced, computed arrays overwritten). A change to an unknown parameter name, or of a parameter the class fixes (Black-76's zero cost of carry), is rejected.",
  ["histories", "inputs"],
  "all operation sequences over a pool of options of all classes (European, Miltersen-Schwartz, American approximations, binomial/trinomial trees, two-asset trees and approximation), scalars and, for the vanilla classes, arrays",
  "Tests construct an option and query it once or twice; none calls set_param or copy directly, and no test reuses an option after a change.",
  ALL, [("set_param rebuilds the option from get_params", B + ":Option.set_param; " + V + ":Black76Option.set_param"), ("copy is deep", B + ":Derivative.copy"), ("greeks and implied volatility work on copies", B + ":GreeksFDM._make_partial_der; Option._volatility"), ("derived values computed at construction", V + ":GBSOption.__init__; MiltersenSchwartzOption.__init__; " + S3 + "; " + SA)],
  [("derived constructor values", "precomputed from the parameters, must always match them", V + ":_d1,_d2,_vz,_vxz; " + S3 + ":_dt,_mu1,_mu2,_u,_d; " + SA + ":_S,_sigma,_d1,_d2")],
  ["get_params()", "call()/put()/greeks()/volatility()/tree", "repr()/summary(printer=False)"])

p("C11", "A parameter change happens completely or not at all",
  "If changing a parameter fails or is interrupted once, at any instant - an invalid value, a floating-point trap, an allocation failure, a cancellation - the option afterwards has either all of its old parameters or all of the new ones and every quote belongs to that same parameter set; if the change was rejected with an error before being interrupted it is the old set. The option remains usable: later changes and quotes behave as if the failed change had never been tried.",
  ["crash_points", "fault_sequences", "histories"],
  "all option classes, parameters and values, with a fault at any source line of the change, repeated and mixed with successful changes and queries",
  "No test makes a parameter change fail.",
  [B, V, A, S3, SA], [("set_param re-runs the constructor on the live object", B + ":Option.set_param; " + V + ":Black76Option.set_param")],
  [("parameters and derived values of one option", "must change together", V + ":GBSOption.__init__")], ["get_params()", "call()/put()/greeks() after the failure"])

p("C12", "Queries change nothing, even when they fail or are interrupted",
  "Pricing, trees, greeks, implied volatility, summaries and representations leave the option, every array passed to it, every result returned earlier and the process-wide numerical state (numpy's global random generator, floating-point error handling, print options) exactly as they were, whether they finish, raise, or are interrupted at any instant; repeating an interrupted query gives the answer an undisturbed query gives.",
  ["crash_points", "fault_sequences", "histories"],
  "all queries of all option classes with a fault (cancellation, allocation failure, floating-point trap) at any source line or pricing evaluation, followed by further queries",
  "No test interrupts a query or compares an option before and after one.",
  ALL, [("finite-difference and root-finding evaluations run on private copies", B + ":GreeksFDM._make_partial_der; Option._func"), ("trees are local arrays", T + ":_calc_price; " + S3 + ":_calc_price")],
  None, ["quotes and get_params() after the fault", "numpy.random.get_state, numpy.geterr, numpy.get_printoptions", "earlier results"])

p("C13", "Threads may query options concurrently",
  "Any number of threads may price, compute greeks, implied volatilities, trees and summaries at the same time on one shared option, on copies of it and on options of their own - while also changing or copying the options they own - and each gets exactly the answer it would have got running alone, under every interleaving and also if another thread's query is cancelled part-way.",
  ["schedules", "fault_sequences"],
  "all interleavings of 2-4 threads of queries on shared options and arbitrary operations on private ones, preempted between any two source lines (or bytecodes) of the library",
  "The test suite is single-threaded.",
  ALL, [("no module- or class-level mutable state; working copies per evaluation", B + ":GreeksFDM; Derivative.copy")],
  None, ["results per thread", "get_params() of every option afterwards"])

p("C14", "A cancellation is never swallowed",
  "If a cancellation (KeyboardInterrupt, SystemExit or any other exception outside the ordinary Exception family) strikes during any public operation - pricing, greeks, implied volatility, trees, plots, summaries, representations, copies, parameter changes, Monte Carlo pricing, GARCH simulation and fitting, Heston-Nandi pricing - it reaches the caller as that same exception, and the operation returns nothing. An ordinary error raised inside an operation (failed allocation, failing plug-in) likewise reaches the caller, except that a summary may instead leave out its price section.",
  ["crash_points", "fault_sequences"],
  "all public operations of all classes, a cancellation or error at any source line, including inside callbacks run by the numerical libraries",
  "No test interrupts anything.",
  ALL + [M, H], [("handler around the price section", B + ":Option.summary; " + T + ":summary; " + A + ":summary; " + S3 + ":summary"), ("everything else has no handlers", "src/finoptions")],
  None, ["exception seen by the caller"])

p("C15", "A summary shows the option's current parameters and prices, on any stream",
  "A summary is a title, every current parameter with its value and, whenever the option can be priced, the call and put prices for those parameters (call only where no put exists; trigger prices or the exercise style where the class has them); without a volatility the price section is simply absent. Printing writes exactly the text that summary(printer=False) and str() return, and returns nothing. If the output stream fails, its error reaches the caller, the option is unaffected, and printing again to a working stream yields the complete text.",
  ["histories", "fault_sequences", "inputs"],
  "all option classes, after any history of changes, with scalars and arrays, with the output stream failing at any write",
  "Tests only check that summary(printer=False) is a string, for two options.",
  ALL, [("text assembled, then printed once", B + ":Option.summary; " + T + ":summary; " + A + ":summary; " + S3 + ":summary")],
  None, ["stdout", "summary(printer=False)", "str()"])

p("C16", "A tree plot shows exactly its option's tree, whatever else is open",
  "Plotting a binomial or trinomial option returns a new figure in which every node (step, level) of the option's call or put tree is labelled with that node's value rounded to the requested digits, and no other values. It does not depend on which figures exist or are current, never alters another figure, and gives the same picture each time, also after plots that failed or were cancelled.",
  ["histories", "fault_sequences", "inputs"],
  "all tree classes, sizes, exercise styles, call/put, digits and histories of plots, open figures and interrupted plots",
  "One plot is tested, only for its type.",
  [T], [("new figure per plot, labels from the tree matrix", T + ":BiTreePlotter.plot; TriTreePlotter.plot"), ("tree matrices", T + ":_euro; _amer; _reshape")],
  [("pyplot's current figure", "process-wide state the plot draws through", T + ":BiTreePlotter.plot")], ["the returned Figure's texts", "other open figures"])

# ---- properties outside the reach of this technique
p("N01", "European prices satisfy parity and no-arbitrage bounds",
  "For every valid input the generalized Black-Scholes, Black-76, Miltersen-Schwartz, Heston-Nandi and spread-approximation prices satisfy put-call parity, lie between intrinsic forward value and the discounted forward, and are monotone in strike and volatility.",
  ["inputs"], "all valid contract parameters", "Tests compare a few stored numbers.", [V, H, SA], [("closed-form pricing", V + ":GBSOption.call; put")])
p("N02", "Trees and American approximations bracket and converge",
  "For every valid input an American price is at least its European counterpart and its exercise value, tree prices converge to the closed form as steps grow, and the American approximations agree with fine trees to their stated accuracy.",
  ["inputs"], "all valid contract parameters and step counts", "Tests compare a few stored numbers at n = 5 and n = 30.", [T, A, S3], [("backward induction", T + ":_euro; _amer"), ("critical price search", A + ":_bawKc; _bawKp")])
p("N03", "Analytic and finite-difference greeks agree",
  "For every valid input the analytic greeks equal the derivatives of the price, and the finite-difference greeks approximate the same derivatives.",
  ["inputs"], "all valid inputs, calls and puts", "One contract is compared.", [B, V], [("analytic greeks", V + ":GBSOption"), ("numerical derivative", B + ":GreeksFDM")])
p("N04", "Array inputs give the element-wise scalar results",
  "For the vanilla classes, passing arrays for any mix of parameters gives, element by element, the prices, greeks and implied volatilities of the corresponding scalar options.",
  ["inputs"], "all mixes of scalar and array parameters", "Only the strike is passed as an array.", [V, B], [("broadcasting formulas", V), ("array root finder", B + ":_volatility")])
p("N05", "Implied volatility inverts the price",
  "For every attainable price the implied volatility reproduces that price, and unattainable prices are reported as an error.",
  ["inputs"], "all attainable and unattainable prices", "Three prices are inverted.", [B, V, A], [("bracketed root search", B + ":_volatility")])
p("N06", "Each two-asset payoff type prices its documented payoff",
  "Each of the nine two-asset option types prices the discounted expectation of its documented payoff, with symmetry under exchanging the assets and homogeneity in the weights where the payoff has them.",
  ["inputs"], "all nine types, weights and correlations", "Only the plain spread call is compared with stored numbers.", [S3], [("payoff selection", S3 + ":_payoff")])
p("N07", "The normal and bivariate normal distribution functions are accurate",
  "The univariate and bivariate normal distribution functions used by the models are monotone, within [0, 1], symmetric and accurate to their published error over all arguments and correlations.",
  ["inputs"], "all real arguments and correlations in [-1, 1]", "Exercised only through prices.", [B], [("polynomial and Drezner approximations", B + ":_CND; _CBND")])
p("N08", "Critical-price searches terminate for every valid input",
  "The critical-price searches of the American approximations terminate within a bounded number of evaluations for every valid parameter set.",
  ["inputs"], "all valid contract parameters", "Three parameter sets are run.", [A], [("Newton and bisection loops", A + ":_bawKc; _bawKp; RollGeskeWhaleyOption.call")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
