"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": "internal state the history acts on", "where": files[0]}]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FD, ES, MC, IS, BL, UT = ["dppy/%s.py" % x for x in ("finite_dpps", "exact_sampling", "mcmc_sampling", "intermediate_sampling", "bless", "utils")]
EX, EXC = "dppy/exotic_dpps.py", "dppy/exotic_dpps_core.py"
RM, BE = "dppy/random_matrices.py", "dppy/beta_ensembles.py"
PP, PPC = "dppy/beta_ensemble_polynomial_potential.py", "dppy/beta_ensemble_polynomial_potential_core.py"
MJ = "dppy/multivariate_jacobi_ope.py"

prop("P01", "Exact samples of a projection DPP follow det(K_S)",
 "For every orthogonal projection correlation kernel K of rank r, however it is given (matrix, eigendecomposition, full-row-rank feature matrix) and whichever exact sampling mode is offered for it, each drawn sample is a list of r distinct indices and the probability of obtaining the set S is exactly det(K_S). "
 "The same holds for the low-level projection samplers called directly with a kernel or with orthonormal columns, including kernels with zero rows, block structure, repeated rows, rank 0 or full rank; the factorization the Cholesky sampler returns next to the sample is a Cholesky factor of K restricted to the sample.",
 ["inputs", "configurations"], "all projection kernels, parametrizations and sampling modes",
 "Tests compare a few thousand draws from one or two random kernels with a loose chi-square; a law that is wrong on some kernels, modes or rare branches passes.",
 [FD, ES], [("chain-rule samplers from the kernel (GS, Schur, Cholesky)", ES), ("chain-rule samplers from eigenvectors (GS, GS_bis, KuTa12)", ES), ("mode dispatch on the parametrization", FD + " sample_exact")],
 "return value of sample_exact / low-level samplers, driven with an enumerating random source")

prop("P02", "Exact samples of a generic finite DPP follow its law in every mode",
 "For every valid correlation kernel 0<=K<=I or likelihood kernel L>=0, in every supported parametrization (kernel, eigendecomposition, low-rank or tall feature matrix, evaluated likelihood function) and every exact mode (spectral modes and Cholesky/LU), the probability of drawing the set S is exactly det(L_S)/det(I+L), equivalently P(S in X)=det(K_S), for every S including the empty set. "
 "Samples are duplicate-free lists of valid indices, and the direct LU sampler is also exact for admissible non-symmetric correlation kernels.",
 ["inputs", "configurations"], "all valid kernels (singular, low rank, repeated or extreme eigenvalues), parametrizations and modes",
 "The existing adequation tests only look at singleton and doubleton frequencies of a few kernels with a 5% test and are not even reliable; they cannot pin the full law nor corner kernels.",
 [FD, ES, UT], [("phase 1: Bernoulli selection of eigenvectors", ES + " dpp_eig_vecs_selector"), ("phase 2 samplers", ES), ("LU sampler for generic kernels", ES + " dpp_sampler_generic_kernel"), ("dispatch and spectral conversions", FD + " sample_exact")],
 "return value of sample_exact, driven with an enumerating random source")

prop("P03", "Exact k-DPP samples have size k and law proportional to det(L_S)",
 "For every valid kernel, parametrization and exact mode, an exact k-DPP draw returns exactly k distinct indices and P(S) = det(L_S) / sum over |T|=k of det(L_T); for a projection correlation kernel only k = rank is accepted, and for a projection likelihood kernel every k <= rank is. "
 "A size larger than the rank of the kernel is refused with a ValueError and never silently answered with a wrong-size or wrong-law sample.",
 ["inputs", "configurations"], "all kernels, sizes k, parametrizations and modes",
 "The law over all k-subsets, across all sizes and spectra (zeros, multiplicities, wide ranges), is beyond a finite set of histogram tests.",
 [FD, ES], [("k-DPP eigenvector selection with elementary symmetric polynomials", ES + " k_dpp_eig_vecs_selector"), ("phase 2 with size", ES), ("projection cases", FD + " sample_exact_k_dpp")],
 "return value of sample_exact_k_dpp, driven with an enumerating random source")

prop("P04", "Correlation and likelihood kernels computed from any parametrization agree",
 "From any valid parametrization of the same DPP the computed correlation kernel equals L(I+L)^-1 and the computed likelihood kernel equals K(I-K)^-1 (or the given kernel itself), up to floating-point accuracy, and both are finite and symmetric. "
 "When the likelihood kernel does not exist because K has an eigenvalue equal to 1, asking for it raises an error instead of yielding infinite, NaN or negative values.",
 ["inputs", "configurations"], "all parametrizations, ranks and spectra",
 "Tests only check that the computation runs for a few parametrizations, not that the kernels are right for every spectrum and shape.",
 [FD], [("compute_K / compute_L conversion chains", FD), ("feature matrix and dual kernel handling", FD + " __init__")],
 "attributes K and L after compute_K / compute_L")

prop("P05", "A finite DPP object's answers do not depend on its call history",
 "After any sequence of kernel computations, exact draws, k-DPP draws of varying sizes and modes, MCMC runs and flushes on one object, the law of the next draw and the kernels it reports are the same as those of a freshly built object with the same parameters; a call that raised does not change them either. "
 "This includes changing k up and down, switching modes, and mixing DPP and k-DPP requests.",
 ["histories", "inputs"], "all call sequences on one object",
 "Bugs live in cached spectra, polynomials and intermediate information that only particular sequences of calls expose; unit tests use fresh objects.",
 [FD, ES], [("cached eigendecompositions and kernels", FD), ("size of k-DPP requests", FD + " sample_exact_k_dpp"), ("cached intermediate information of vfx/alpha", FD)],
 "law of subsequent draws and attributes K, L", "FiniteDPP attributes K, L, K_eig_vals, L_eig_vals, eig_vecs, size_k_dpp, intermediate_sample_info")

prop("P06", "Rejection-based exact samplers (vfx, alpha) are exact",
 "For every likelihood function and data set, with any admissible oversampling and intensity parameters, a draw with the vfx or alpha mode without a requested size follows DPP(L) exactly, and a k-DPP draw in these modes has exactly k elements and follows the k-DPP law. "
 "Repeated draws reusing the precomputed information keep that law, documented optional parameters are honoured, and a requested size the data cannot support is refused with an error.",
 ["inputs", "configurations", "histories"], "all data sets, likelihood functions and tuning parameters",
 "Exactness is a statement on the law conditional on randomly built internal approximations; it needs many draws over many instances against the enumerated DPP law.",
 [FD, ES, IS, BL], [("vfx constants and rejection loop", IS), ("alpha-dpp constants and rejection loop", IS), ("size rejection for k-DPPs, binary search on alpha", ES)],
 "return values of sample_exact / sample_exact_k_dpp in modes vfx and alpha", "intermediate_sample_info")

prop("P07", "BLESS dictionaries and leverage-score estimates are valid",
 "For every data set and positive semi-definite likelihood function, the dictionary returned by the recursive sampler refers to distinct data points with matching rows, probabilities in (0, q] and the requested final regularization; a single reduction step keeps each point independently with exactly the probability it reports. "
 "Given a dictionary D with probabilities p, the estimated ridge leverage score of a point is (k_ii - k_iD (K_DD + lambda diag p)^-1 k_Di)/lambda, between 0 and k_ii/lambda; with probabilities one it never undershoots the true score, and it equals it when the dictionary holds every point.",
 ["inputs", "configurations"], "all data sets, kernels and regularizations",
 "One fixed data set and seed is tested; the guarantee is over random dictionaries and all data.",
 [BL, UT, IS], [("recursive dictionary refinement", BL + " bless, reduce_lambda"), ("RLS estimation", BL + " estimate_rls_bless")],
 "returned dictionary and estimates")

prop("P08", "MCMC samplers leave the target DPP or k-DPP invariant",
 "For every likelihood kernel and every state of positive probability, one iteration of the add-exchange-delete, add-delete and exchange chains preserves exactly the distribution proportional to det(L_S) over all subsets, respectively over subsets of the given size. "
 "The chains only visit states of positive probability, can reach every such state from every other for positive definite kernels, and accept the full set, the empty set and boundary sizes as states.",
 ["inputs", "histories"], "all kernels and states",
 "Detailed balance is a statement about every pair of states; long-run histograms of a few chains cannot settle it and are insensitive to small biases.",
 [MC, FD], [("acceptance ratios of the AED, AD, E samplers", MC), ("dispatch on kernels", FD + " sample_mcmc")],
 "transition law extracted from dpp_sampler_mcmc / sample_mcmc with an enumerating random source")

prop("P09", "MCMC trajectories are well formed and respect their parameters",
 "A run started from a given state records a trajectory whose first element is that state, whose length is the requested number of iterations, each of whose elements is a duplicate-free list of valid indices differing from the previous one by at most one addition, deletion or exchange (exactly one of the kinds the mode allows), and whose last element is what the call returns; fixed-size chains keep their size. "
 "A time budget stops the run only once it is exceeded (never before) and leaves no fabricated states, a default initial state has positive probability and the requested size, and inadmissible sizes or modes raise ValueError.",
 ["inputs", "configurations"], "all modes, kernels, initial states, lengths and time budgets",
 "Trajectory shape under all options and boundary sizes is a universally quantified contract; time budgets are never exercised by tests.",
 [MC, FD], [("chain recording and T_max handling", MC), ("initialization", MC + " initialize_AED_sampler, initialize_AD_and_E_sampler"), ("list_of_samples bookkeeping", FD + " sample_mcmc")],
 "list_of_samples and return value of sample_mcmc / sample_mcmc_k_dpp")

prop("P10", "The zonotope MCMC sampler targets the projection DPP of its features",
 "For every full-row-rank feature matrix, each state of the zonotope chain is a basis (a set of columns of non-zero determinant), the trajectory has the requested length and starts at the tile of the starting point, and the chain leaves invariant the projection DPP proportional to the squared determinant. "
 "The property is observed with linear programs answered by an exact solver.",
 ["inputs", "histories"], "all feature matrices, starting points and linear objectives",
 "The optional solver is absent from the test environment, and invariance is a statement over all states.",
 [MC, FD], [("zonotope hit-and-run with LP tile identification", MC + " zonotope_sampler")],
 "trajectory returned by the zonotope mode, with a stand-in LP solver module")

prop("P11", "Seeded sampling is reproducible and free of side effects",
 "Given the same parameters and the same integer seed or generator state, every sampler of the library returns the same sample, draws only from the generator it was given, and leaves the global random generator, the global floating-point error settings and the caller's input arrays untouched. "
 "Passing a generator object advances that object, so that successive draws differ and a fresh copy replays the sequence.",
 ["inputs", "configurations"], "all samplers, seeds and parameters",
 "Reproducibility must hold for every sampler and option; a missed propagation of the seed on one branch goes unnoticed by tests, which do not compare runs.",
 [FD, ES, MC, IS, BL, EX, EXC, BE, RM, PP, PPC, MJ, UT], [("check_random_state and its propagation", UT + " and every sampler")],
 "samples, global numpy state, input arrays")

prop("P12", "Sample bookkeeping and object state are consistent",
 "Each sampling call appends exactly one entry, equal to what it returned when it returns a sample, to the object's list of samples, in call order, without altering earlier entries; flushing empties the list and affects nothing else; a call that raises appends nothing and leaves the parameters that normalization and plots of the recorded samples rely on as they were. "
 "Reading operations (string form, kernel computation, plots, normalization of points) leave the recorded samples unchanged.",
 ["histories"], "all call sequences on all point process objects",
 "It is a property of histories mixing sampling, failing calls, normalization, plotting and flushing.",
 [FD, EX, BE], [("list_of_samples handling", FD + ", " + EX + ", " + BE), ("normalize_points", BE)],
 "list_of_samples before and after each call", "list_of_samples")

prop("P13", "Invalid definitions are refused and valid ones accepted",
 "Building a finite DPP from parameters that are visibly not a DPP (unknown kernel type or parameter, non-boolean projection flag, non-square or asymmetric kernel, eigenvalues out of range, non-orthonormal eigenvectors, rank-deficient feature matrix, non-callable likelihood, empty data, non-projection kernel declared as projection), asking for an unknown sampling mode or one unavailable for the parametrization, a k-DPP size that is negative or larger than the rank, or sampling exactly from a kernel whose spectrum is out of range raises ValueError; every valid definition is accepted and served. "
 "The same holds for the other point processes: negative or unsupported beta, inconsistent sizes, disconnected graphs, out-of-range parameters and unsupported potentials are refused with ValueError.",
 ["inputs", "configurations"], "all valid parameters and all single-fault corruptions of them",
 "The set of corruptions and of near-boundary valid inputs is unbounded; tests only try unknown keys.",
 [FD, UT, EX, BE, RM, PP, MJ], [("argument coherence and matrix predicates", FD + " __init__, " + UT), ("constructor checks", EX + ", " + BE + ", " + PP + ", " + MJ)],
 "exceptions raised or not")

prop("P14", "Elementary symmetric polynomials and linear-algebra helpers are exact",
 "For every non-negative sequence the table of elementary symmetric polynomials contains, for every order and prefix, the sum of products over subsets, with small relative error over the whole floating-point range; inner products, sub-determinants, likelihood diagonals and the bundled example likelihood functions equal their definitions for all shapes and index sets. "
 "The matrix predicates return every array that has the property they name, up to their tolerance, and refuse with ValueError arrays that visibly lack it; eigenvalue filtering keeps all and only the numerically non-zero part, and the inverse root it builds is an inverse root.",
 ["inputs"], "all sequences, shapes and index sets",
 "Numeric identities must hold for every input; tests check a couple of small arrays.",
 [ES, UT], [("elementary_symmetric_polynomials", ES), ("inner1d, det_ST, evaluate_L_diagonal, predicates, stable_filter, stable_invert_root", UT)],
 "return values")

prop("P15", "Spanning-tree samplers are uniform over spanning trees",
 "For every connected graph with at least one edge and any node labels, in every sampling mode and for every choice of root, each draw is a spanning tree of that graph (all nodes, edges of the graph only, connected, acyclic) and every spanning tree is equally likely. "
 "The edge kernel is the transfer-current projection of rank n-1: its principal minors are the probabilities that edges appear together, whatever nodes, edge order or orientation.",
 ["inputs", "configurations"], "all connected graphs, modes, roots",
 "Uniformity over all trees of all graphs cannot be sampled by one five-node example; that test is not reliable here and one mode does not run at all.",
 [EX, EXC, ES], [("Wilson and Aldous-Broder", EXC), ("kernel from the incidence matrix", EX + " UST.compute_kernel"), ("DPP modes", EX + " UST.sample")],
 "graphs in list_of_samples, kernel attribute")

prop("P16", "Carries and descent processes and uniform permutations have their laws",
 "Permutations are uniform over all n! orderings; the carries process of n digits in base b, the descent process and the virtual descent process return increasing positions in range whose joint law is, respectively, that of the carries in the running sum of n independent uniform digits, of the descents of a uniform permutation, and of the limiting mixture with its parameter. "
 "Consequently position probabilities are constant, equal to the advertised Bernoulli parameter, and positions at distance greater than one are independent.",
 ["inputs", "configurations"], "all sizes, bases and parameters",
 "Tests look at shapes or at one size with a chi-square; the joint law over all positions and sizes needs enumeration.",
 [EX, EXC], [("uniform_permutation", EXC), ("sample methods of the descent classes", EX)],
 "entries of list_of_samples, driven with an enumerating random source")

prop("P17", "RSK is a bijection onto pairs of standard tableaux",
 "For every permutation, insertion yields two standard Young tableaux of the same shape, from which the permutation is recovered by reverse insertion; the first row length is the longest increasing subsequence, the first column length the longest decreasing one, and inverting the permutation swaps the two tableaux. "
 "For words with repeated letters the first tableau is semistandard and the word is still recovered.",
 ["inputs"], "all permutations and words of numbers",
 "One worked example is tested; the guarantee is for every sequence.",
 [EXC], [("row insertion with bumping", EXC + " RSK")],
 "returned tableaux")

prop("P18", "Poissonized Plancherel samples follow the Plancherel law",
 "For every intensity the sampled partition has size Poisson distributed with that mean and, given size n, probability (number of standard tableaux)^2/n!; the recorded point configuration is exactly the partition's parts shifted by their rank and a half. "
 "The drawn diagram boundary encloses the partition's cells for every partition, and the limit-shape function matches its closed form and |x| outside [-2,2].",
 ["inputs", "configurations"], "all intensities, partitions and arguments",
 "The law over partitions needs enumeration over permutations; geometry must hold for all partitions.",
 [EX, EXC], [("sampling through RSK", EX + " PoissonizedPlancherel.sample"), ("xy_young_ru, limit_shape", EXC)],
 "list_of_young_diag, list_of_samples, returned coordinates")

prop("P19", "Beta-ensemble samplers on the line follow their joint density",
 "For every supported beta, size and reference parameter, the points drawn from the Hermite, Laguerre and Jacobi ensembles have the joint density proportional to |Vandermonde|^beta times the reference weight, in the tridiagonal model and, for beta in {1,2,4}, in the full matrix model, with N points per sample and points in the support of the reference measure; beta=0 gives independent points from the reference measure. "
 "The two models agree in law when given matching sizes, and shape parameters relate to matrix sizes as advertised.",
 ["inputs", "configurations"], "all ensembles, beta, sizes and parameters",
 "Laws are continuous and depend on every parameter; the unreliable existing test only compares one large-N histogram with the limiting density.",
 [BE, RM], [("tridiagonal models", RM), ("full matrix models", RM), ("parameter mapping", BE)],
 "samples returned by sample_full_model / sample_banded_model")

prop("P20", "Circular and Ginibre samplers follow their joint density",
 "For every integer beta and size the banded circular model returns N unit-modulus points whose law is the circular beta ensemble (for beta=0 independent uniform points); the full model returns, in both ways of generating the matrix, the eigenvalues of a uniformly distributed orthogonal (beta=1) or unitary (beta=2) matrix. "
 "Ginibre samples have the law of the eigenvalues of a matrix of independent standard complex Gaussian entries of unit variance.",
 ["inputs", "configurations"], "all beta, sizes and modes",
 "Only the limiting histogram of one size could be looked at by a test; wrong correlation structure leaves it unchanged.",
 [BE, RM], [("quindiagonal model", RM + " mu_ref_unif_unit_circle_sampler_quindiag"), ("Haar sampling", RM + " circular_sampler_full"), ("ginibre_sampler_full", RM)],
 "samples returned by the ensemble objects")

prop("P21", "Limiting densities are probability densities matched by rescaled points",
 "The semicircle, Marcenko-Pastur and Wachter densities are non-negative, vanish outside their support and integrate to one for every admissible aspect ratio and scale, and agree with their closed-form moments. "
 "The advertised rescaling maps a sample of any beta, location, scale and model so that its empirical moments converge to those of the matching limiting density, and is the advertised affine map of the points.",
 ["inputs", "configurations"], "all parameters of the densities and all ensembles",
 "Normalization for every parameter value is an identity over a continuum; tests use one setting of each.",
 [RM, BE], [("semi_circle_law, marcenko_pastur_law, wachter_law", RM), ("normalize_points", BE)],
 "returned density values and normalized points")

prop("P22", "Gibbs conditionals of polynomial-potential ensembles are exact",
 "For every polynomial potential of degree at most six, the polynomial given for each Jacobi coefficient's conditional equals, up to a constant, the trace of the potential at the tridiagonal matrix as a function of that coefficient alone, for all positions including the borders. "
 "The exact conditional samplers (log-concave quartic, generalized gamma shapes above, equal to and below one) and the Langevin sampler leave the corresponding conditional density invariant, and the full Gibbs sampler (which refuses quintic terms) therefore targets the beta ensemble with that potential; a quadratic potential reproduces the Hermite law.",
 ["inputs", "histories"], "all potentials, coefficients, indices and states",
 "The identities are polynomial in many variables and the samplers' laws are continuous; no existing test covers this module.",
 [PP, PPC], [("negative log conditional polynomials", PPC), ("Dev12 rejection samplers, MALA", PPC), ("Gibbs sweep", PP + " sample_mcmc")],
 "returned polynomials and samples")

prop("P23", "Equilibrium measures are correct",
 "For every potential whose equilibrium measure is offered (even monomials, quadratic-plus-quartic in the one-cut and two-cut regimes, the degenerate quartic), the density is non-negative, integrates to one over the reported support, vanishes outside and satisfies the Euler-Lagrange condition of the potential on the support; the offered cumulative functions are its integrals, from 0 to 1, for scalars or arrays left unmodified. "
 "The rescaling of the largest eigenvalue maps the right edge to zero, with the advertised curvature constant when the support is one interval.",
 ["inputs"], "all potentials in the supported families and all arguments",
 "The integral equation must hold on a continuum of potentials and points; no existing test covers it.",
 [PP, PPC], [("equilibrium_* and cdf_equilibrium_*", PPC), ("dispatch to closed forms", PP)],
 "returned densities, supports and cdf values")

prop("P24", "The Tracy-Widom distribution function is accurate",
 "For all real arguments the computed cumulative function is the Fredholm determinant of the Airy kernel on the half line: between 0 and 1, non-decreasing, tending to 0 and 1 at the ends, in agreement with an independent evaluation to a few decimals, the same for scalars and arrays and stable under the quadrature order and under changing it between calls.",
 ["inputs", "histories"], "all arguments, array shapes and quadrature orders",
 "A handful of tabulated values is tested; monotonicity and consistency are universal.",
 [PPC], [("TracyWidom.cdf, kernel, change_of_variable, fredholm_determinant", PPC)],
 "returned values")

prop("P25", "The multivariate Jacobi kernel is an orthogonal projection kernel",
 "For every dimension, number of points and admissible Jacobi parameters, the multi-indices enumerate the lattice without repetition in max-degree order, the polynomials are orthonormal for the product weight, and the kernel is the reproducing projection kernel of rank N: symmetric, positive semi-definite, with integral of its diagonal equal to N and K*K=K. "
 "Pointwise, pairwise and one-argument evaluations agree for all point sets, the weight is the product Jacobi weight, and the mass is its integral.",
 ["inputs", "configurations"], "all dimensions, sizes, parameters and points",
 "Tests check a few parameter sets; identities must hold for all parameters including borders of the admissible region.",
 [MJ], [("ordering, norms, degrees", MJ), ("K, eval_multiD_polynomials, eval_w", MJ)],
 "attributes and return values")

prop("P26", "Multivariate Jacobi ensemble samples follow the projection DPP",
 "For every admissible parameter set the rejection bound of each multi-index dominates the ratio it is used for everywhere, so that proposals follow the normalized diagonal of the kernel, and samples of N points in [-1,1]^d follow the projection DPP of the kernel: first marginal K(x,x)w(x)/N and the determinantal joint law. "
 "In one dimension the tridiagonal and the chain-rule sampler agree in law, and sampling terminates for every admissible parameter set including the borders.",
 ["inputs", "configurations"], "all dimensions, sizes and admissible parameters",
 "Domination must hold at every point for every parameter; a violated bound biases the law silently.",
 [MJ, RM], [("compute_rejection_bounds", MJ), ("sample_chain_rule_proposal, sample", MJ)],
 "returned samples and bounds")

prop("P27", "Drawings show the last sample, the kernels and the reference laws",
 "After any history of samples, the scatter plots and histograms of a point process show exactly the points of its last recorded sample (or of the sample handed over), normalized as advertised when requested, next to the limiting or reference density the documentation announces for the parameters in use; heat maps show the entries of the requested kernel; tree drawings show the edges of the last tree or of the graph under their labels. "
 "Comparisons with Bernoulli variables use the intensity of the process, weighted drawings of Jacobi ensembles use the announced quadrature weights, the Young diagram is that of the last partition, and a drawing is saved where asked; drawing never changes the object.",
 ["inputs", "histories", "configurations"], "all objects with a drawing method, their parameters, options and histories",
 "Tests never draw; which sample, scale, density or kernel is shown depends on parameters and on what was sampled or computed before.",
 [BE, EX, FD, PP, MJ], [("__display_and_normalization of the beta ensembles", BE), ("plot, plot_diagram, plot_kernel, plot_graph", EX), ("plot_kernel", FD), ("plot with BH and EZ weights", MJ), ("hist with the equilibrium density", PP)],
 "artists of the matplotlib figures (offsets, heights, array values, vertices)", "list_of_samples and sampling parameters")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
