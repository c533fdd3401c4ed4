PLAN = {
    'P01': (
        'Projection kernels are generated from integer seeds: orthonormal bases with structure classes (dense, sparse/zero rows, block, repeated rows, coordinate, badly scaled), every rank 0..N, every parametrization (K, eigendecomposition, full-row-rank feature matrix A_zono), every mode.',
        '`det(K_S)` for every subset, computed from the generated basis. The output law is *computed*, not sampled: the sampler runs under the branching generator until every sequence of random outcomes has been visited (total mass 1 checked). For N up to 30 the probability of single ordered paths is compared with `det(K_S)/r!`. The Cholesky factor returned next to the sample is multiplied out on every path.'),
    'P02': (
        'Correlation/likelihood kernels with spectra containing 0, 1, 1e-10-like, repeated and wide-range values; K, eigendecompositions, feature matrices (tall, flat, rank deficient), evaluated likelihood functions; spectral modes and Chol/LU; admissible non-symmetric K for the LU sampler (row/column scaled, D-similar and product constructions).',
        '`det(L_S)/det(I+L)` (or inclusion-exclusion of `det(K_S)`) for all 2^N subsets, exact enumeration of the law; for N up to 14 LU path probabilities in closed form, inclusion frequencies otherwise; 15-110 items: path probabilities or inclusion frequencies, Laplace functionals `E prod g(x) = det(I - (1-g)K)` and the moments of the size.'),
    'P03': (
        'As P02, with k in 1..rank, plus projection correlation (k = rank) and projection likelihood (k <= rank) kernels, sizes beyond the rank, and the low-level selectors called directly with and without their precomputed polynomials.',
        '`det(L_S)/e_k(spectrum)` over all k-subsets by enumeration; refusals must be `ValueError`; up to hundreds of items of any magnitude: selection thresholds of every eigenvector against log-domain ratios of symmetric polynomials, inclusion frequencies and Laplace functionals of complete draws.'),
    'P04': (
        'A DPP definition and a random order of compute_K/compute_L calls, N up to 40; spectra with eigenvalues 0, numerically 1, 1 + rounding; kernels of scale 1e-13 to 1e9 of any rank, in relative accuracy.',
        'Reference kernels assembled from the generated spectrum and basis in the harness; finiteness, symmetry, agreement; `compute_L` must raise each time when K has an eigenvalue 1.'),
    'P05': (
        'Stateful: sequences of at most 7 operations (kernel computations, draws in all modes, k-DPP draws of varying sizes, MCMC runs, flushes, refused calls) on one object, then a probe.',
        'Model = the immutable definition. The law of the next draw (all probes enumerated exactly) and the kernels must be those of the definition; histories on 10-60 items end with the statistics of a draw or of a transition.'),
    'P06': (
        'Likelihood functions (linear, RBF, polynomial, ...) on small data sets with admissible tuning parameters, sequences of requests; intensities up to 1e5 times the expected size; 2-3 points exactly, 3-6 points statistically, 12-40 points through the numbers inside and outside a set.',
        'Exact facet: law of one accepted proposal of the rejection sampler, Poisson sizes truncated with bounded tail. Statistical facet: G-test of all subsets, p < 1e-9 with independent confirmation; draws reuse the object across requests or take a new one each time; for many points the joint law of the counts inside and outside a random set, by discrete Fourier transform of det(I + D L)/det(I + L).'),
    'P07': (
        'Data sets, likelihood functions, regularizations in [1e-3, 1e3], oversampling, synthetic dictionaries with chosen probabilities.',
        'Closed form of the estimator in the harness, bounds (0 <= score <= k_ii/lambda; never below the true score for dictionaries of ones; equality for the full one), exact law of one reduction step by enumeration, contract of the returned dictionary.'),
    'P08': (
        'Likelihood kernels (and projection correlation kernels for exchanges) on at most 5 points, all chain types and sizes.',
        'The complete transition matrix, each row enumerated exactly through `dpp_sampler_mcmc`/`sample_mcmc`; checks `pi P = pi`, support, move kinds and irreducibility; several iterations in one call against powers of the matrix; inflow into one state for 6-9 points, and for 10-16 points by minors (with: every point can move); two-iteration trajectories for 6-11 points; detailed balance at random states of 17-30 points; runs of 12-150 iterations (one call against single iterations, else the law of the last iterations, else occupation statistics).'),
    'P09': (
        'Kernels, chain types, initial states (given and default), lengths, seeds, time budgets with a simulated clock installed in the `time` module.',
        'Trajectory contract checked step by step; for budgets the number of states must equal the one implied by the clock; 10-45 points and up to 300 iterations, and 46-400 items with 300-3000 states.'),
    'P10': (
        'Feature matrices with 1-4 rows and at most 6 (trajectories: more) columns, objectives, starting points inside tiles and on their borders, lengths, budgets; cvxopt is absent from the sandbox, so its `matrix`, `spmatrix` and `solvers.lp` are replaced by an exact stand-in.',
        'Enumeration of all bases gives the reference tiling; contract of every state, starting tile, law of one or two iterations against a simulation of hit-and-run on the reference tiling, and invariance from exact starts (p < 1e-9 with confirmation).'),
    'P11': (
        'Every sampler of the library (finite DPPs in all modes, k-DPPs, MCMC, UST, carries, descents, permutations, Plancherel, all beta ensembles and models, polynomial potentials, Jacobi ensembles, low-level functions), sequences of steps with an integer seed or a generator.',
        'Metamorphic: run twice on fresh objects and compare; poison and compare the global generator, `np.geterr`, and deep copies of every input; the generator passed must advance iff the outcome depends on it, and a copy of it must replay the sequence; the same with large sizes (samplers may take other paths) and with a forced restart of the zonotope walk.'),
    'P12': (
        'Stateful: histories mixing sampling, failing calls, plots (Agg), normalization, string forms, kernel computations and flushes on every object.',
        'Model = a list of recorded samples; compared after each call with `list_of_samples` (deep); histories of hundreds of calls, samples of thousands of points and trajectories of up to 1500 states.'),
    'P13': (
        'A valid definition (which must be accepted and served) and one injected fault of a catalogue of about 60 kinds over all point processes, near-boundary valid perturbations at a tenth of the tolerances, modes x parametrizations.',
        '`ValueError` on the fault and nothing on the valid definition; the table of modes available per parametrization is written from the documentation.'),
    'P14': (
        'Non-negative sequences over the whole floating-point range; arrays of every shape; matrices with a property and single-fault corruptions; spectra with numerically null parts.',
        'Exact rational arithmetic for the polynomials; definitions for inner products, sub-determinants, likelihood functions; Moore-Penrose properties for the filtered inverse root; the same on sequences of hundreds of terms and large arrays.'),
    'P15': (
        'Connected graphs (random, cycles, complete, paths, stars, bridges, self-loops; labels integers, strings, tuples; insertion order), modes, roots.',
        'All spanning trees enumerated in the harness; exact enumeration for determinantal modes, frequencies for random-walk modes; structural validity up to 400 nodes; transfer currents from the pseudo-inverse Laplacian of the harness. The random walks are also drawn 16000 times on graphs of at most 5 nodes.'),
    'P16': (
        'Processes, bases up to 1e12, sizes, x_0; enumeration for small sizes; windows of longer processes (up to 300); permutations of any size up to 300; probabilities of every position and adjacent pair.',
        'Joint law over digits/permutations/mixture enumerated in the harness against the enumerated law of the sampler; G-tests of windows (p < 1e-9, confirmed) for longer ones.'),
    'P17': (
        'All permutations up to 6 (7), structured and uniform ones up to several hundred items, words of integers and floats with repetitions.',
        "Reverse insertion in the harness, longest increasing/decreasing subsequences by patience sorting, Schensted's symmetry, (semi)standardness."),
    'P18': (
        'Intensities (integers too), partitions, arguments of the limit shape.',
        'Law over partitions of size <= 6 by enumeration of the Poisson size and of the permutation (hook length formula); for larger intensities (up to 400; sizes and shapes of the tableau up to 17500) exact Toeplitz laws of the first row/column, Poisson size, discrete Bessel kernel; polygon of the drawn diagram against the cells.'),
    'P19': (
        'Ensemble, model, beta, N, reference parameters over decades, seeds.',
        'N <= 3: cdf of each order statistic by quadrature of the joint density; N <= 20: exact statistics (trace, dispersion, Selberg/Aomoto means, extreme points for beta = 2); KS/z at 1e-9 with confirmation. Up to three points are also drawn 12000 times per case.'),
    'P20': (
        'Circular (banded, full x QR/Hermite), orthogonal, symplectic, Ginibre, beta = 0.',
        "Determinant phase, uniform angle, Dyson's constant, power sums, gaps for N <= 3, extreme angles through Jacobi laws, Kostlan's law for Ginibre."),
    'P21': (
        'Parameters of the three densities and points on both sides of the support; ensembles with parameters, N points.',
        'Quadrature after angular substitution (1e-9), closed-form moments; the affine map from the documentation; moments of large samples. Two to four points (matrices of size 1 to 4) are also drawn 9000 to 14000 times per case: a biased random phase of one eigenvector only shows there.'),
    'P22': (
        'Potentials of degree <= 6 without quintic term, states, indices, conditional densities over all shapes; chains.',
        'Trace of the potential of the dense tridiagonal matrix (polynomial identity by interpolation), grids of 20001 points for the conditional cdfs, MALA from the target, Schwinger-Dyson equations for chains, Hermite for quadratic potentials. The samplers of the conditionals are also drawn 14000 to 20000 times per case; adding a constant to the potential must not change the sample.'),
    'P23': (
        'Potentials of each supported family (quadratic-plus-quartic stratified by g2/(2 sqrt g4) around the transition at -1), arguments in, at and out of the support.',
        'Positivity, mass, support, Euler-Lagrange principal values with spectral accuracy, cdf = integral of the density, scalars/arrays untouched; edge rescaling constant.'),
    'P24': (
        'Histories of evaluations with changing quadrature orders, shapes and arguments; finite-rank kernels.',
        'Independent Fredholm determinant (own quadrature, exact diagonal); closed-form determinants of finite-rank kernels; monotonicity, limits.'),
    'P25': (
        'N, d, parameters incl. -1/2 and 1/2, points.',
        'Own three-term recurrences and Golub-Welsch quadrature; reproducing property on tensor rules; the ordering against a sort of the lattice.'),
    'P26': (
        'N, d, parameters incl. borders.',
        'Domination of the rejection bound on refined Chebyshev grids; Andreief determinants for multiplicative statistics, exact moments of linear statistics, exact law of extreme coordinates. At most three points are also drawn 6000 to 15000 times per case.'),
    'P27': (
        'All objects with drawing methods: beta ensembles (all kinds, models, beta = 0 included) after samples of other sizes and models, circular and Ginibre ensembles, finite DPPs in every parametrization (up to 90 items) after other requests, spanning trees, carries/descents/Plancherel, Jacobi ensembles in one and two dimensions with all weightings, polynomial potentials of every family.',
        'The figure is drawn with Agg and its artists are read back: positions, histogram heights, heat map values, vertices of the curves and of the diagrams, against data and closed-form densities recomputed in the harness.'),
}
# bugs also caught by other checks, or missed at first
CAUGHT = {
    "p03-projection-correlation-smaller-k": "P03, P13",
    "p05-lu-sampler-in-place": "P05, P11",
    "p09-exchange-chain-narrow-labels": "P09 (missed at first: facet \"long\" added)",
    "p18-long-rows-narrow": "P18 (missed at first: facet \"huge\" added)",
    "p04-small-likelihood-cancellation": "P04 (missed at first: facet \"scales\" added)",
    "p23-quartic-threshold": "P23 (missed at first: the generator was then stratified over g2/(2 sqrt g4))",
}
