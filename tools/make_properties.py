#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
FI = "padasip/filters/"
BASE = FI + "base_filter.py"
ALLF = [BASE] + [FI + f + ".py" for f in "ap gmcc gngd llncosh lmf lms nlmf nlms nsslms ocnlms rls sslms vslms_ang vslms_benveniste vslms_mathews".split()]


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Batch filtering reports a-priori outputs, errors and weight snapshots",
     """Running any adaptive filter over a data set returns, for every sample in order, the output
     predicted with the weights as they were before that sample was learned, the desired value minus
     exactly that output, and a weight history whose row k is a snapshot of those same pre-update weights.
     There is exactly one output, one error and one history row per sample, and the first history row is the
     weights the filter had when the run started.""",
     ["inputs", "histories"], "all data sets, all filter classes, all states in which a run can start",
     """The tests only compare the sum of the outputs of one random data set of 100 float samples; they never look
     at the errors or at the weight history.""",
     [BASE], [("AdaptiveFilter.run", BASE), ("AdaptiveFilterAP.run", BASE)], ["filter.run(d, x) -> y, e, w"])

prop("C02", "Adapting sample by sample and batch filtering are the same algorithm",
     """Feeding samples one at a time through adapt leaves any filter in the same state (weights and all
     internal memories) as one batch run over the same samples. Nothing is reset or skipped at the start or end of a run,
     so a data set may be processed in any consecutive pieces, by run or by adapt, with the same result.""",
     ["inputs", "histories"], "all filters, all sequences of samples and all ways to split them in calls",
     """One test adapts an LMS filter once; no test compares adapt with run or calls run twice.""",
     ALLF, [("adapt and run, base class and AP", BASE), ("learning_rule of every filter", FI)],
     ["filter.adapt(d, x)", "filter.run(d, x)", "filter.w"],
     [("w and the per-filter memories", "all that is learned", BASE)])

prop("C03", "Memoryless gradient filters apply their published weight update",
     """For a sample with input x and error e the weights change by exactly: LMS mu*e*x; LMF mu*e^3*x;
     SSLMS mu*sgn(e)*sgn(x); Llncosh mu*tanh(lambda*e)*x; GMCC mu*lambda*alpha*exp(-lambda*|e|^alpha)*|e|^(alpha-1)*sgn(e)*x.
     The change depends on nothing but the current sample, the error and the parameters given at construction.""",
     ["inputs", "configurations"], "all samples, errors and parameter values of the five filters",
     """Each filter is tested with one parameter set on one data set by one rounded sum of outputs.""",
     [FI + f + ".py" for f in "lms lmf sslms llncosh gmcc".split()] + [BASE],
     [("learning_rule", FI)], ["filter.w before and after adapt / run"])

prop("C04", "Normalised filters divide the step by eps plus the input power",
     """For a sample with input x and error e the weights change by exactly mu/(eps + x.x) times e*x for NLMS,
     e^3*x for NLMF and sgn(e)*sgn(x) for NSSLMS, with the current sample's own power x.x and the eps given at construction.
     The change depends on nothing else.""",
     ["inputs", "configurations"], "all samples, errors and parameter values of the three filters",
     """One data set and parameter set per filter; inputs of small or zero power, where eps matters, are never used.""",
     [FI + f + ".py" for f in "nlms nlmf nsslms".split()] + [BASE], [("learning_rule", FI)],
     ["filter.w before and after adapt / run"])

prop("C05", "RLS follows the recursive least squares recursion",
     """The inverse correlation matrix of the RLS filter starts as identity/eps and with every sample becomes
     (R - R x x^T R / (mu + x^T R x)) / mu; the weights then change by the new matrix times x times the a-priori error.""",
     ["inputs", "histories", "configurations"], "all sample sequences and all mu, eps",
     "One data set with mu=0.9 and the default eps; the matrix is never inspected.",
     [FI + "rls.py", BASE], [("FilterRLS.learning_rule", FI + "rls.py")], ["filter.R, filter.w"],
     [("R", "inverse correlation matrix", FI + "rls.py")])

prop("C06", "Affine projection keeps the last samples and projects on them",
     """The AP filter keeps the last `order` inputs and targets, newest first (zeros before the first sample), and changes the
     weights by mu * X (X^T X + ifc*I)^-1 * e where X holds those inputs and e is the error of all of them under the current
     weights. The output and error reported for a sample are those of the newest input.""",
     ["inputs", "histories", "configurations"], "all sample sequences, orders, mu, ifc; through adapt and through run",
     "One run with order 5; adapt, which repeats the computation, is not tested at all.",
     [FI + "ap.py", BASE], [("AdaptiveFilterAP.run, adapt", BASE), ("FilterAP.learning_rule", FI + "ap.py")],
     ["filter.run, filter.adapt, filter.w"], [("x_mem, d_mem", "sliding window", BASE)])

prop("C07", "GNGD adapts its regularisation from consecutive samples",
     """The GNGD filter changes the weights by mu/(eps_k + x.x)*e*x, where eps_k = eps_{k-1} - ro*mu*e*e'*(x.x')/(x'.x' + eps_{k-1})^2
     and e', x' are the error and the input of the immediately preceding sample (zero before the first).""",
     ["inputs", "histories", "configurations"], "all sample sequences and parameters",
     "One data set with default ro and eps.",
     [FI + "gngd.py", BASE], [("FilterGNGD.learning_rule", FI + "gngd.py")], ["filter.w, filter.eps"],
     [("eps, last_e, last_x", "adaptive regularisation and last sample", FI + "gngd.py")])

prop("C08", "Variable step-size LMS filters follow their step recursion",
     """The three VSLMS filters change the weights by mu_k*e*x with mu_k = mu_{k-1} + ro*e*g, starting from the given mu, where g is:
     Mathews e'*(x'.x); Benveniste x'.phi with phi = (I - mu_{k-1} x' x'^T) phi' + e' x'; Ang x'.phi with phi = a*phi' + e' x'.
     Primes denote the values of the immediately preceding sample, all zero before the first.""",
     ["inputs", "histories", "configurations"], "all sample sequences and parameters",
     "One data set per filter with tiny ro, so the adaptation of the step hardly shows in the tested sum.",
     [FI + f + ".py" for f in "vslms_ang vslms_benveniste vslms_mathews".split()] + [BASE],
     [("learning_rule", FI)], ["filter.w"], [("last_mu, last_fi, last_e, last_x", "memory of the previous sample", FI)])

prop("C09", "OCNLMS is NLMS on data centred by a bounded memory of recent samples",
     """The OCNLMS filter keeps the inputs and targets of recent samples in a memory of fixed size `mem` (two or more), and its output is
     the weights times (x - mean stored input) plus the mean stored target. With every sample the weights change by
     mu/(eps + c.c)*e*c, where c is the input minus the mean of the memory that already holds it; every sample takes one place and
     what is stored is that sample's input and target.""",
     ["inputs", "histories", "configurations"], "all sample sequences and memory sizes, also after the memory wrapped around",
     "One run of 100 samples with mem=100: the memory never wraps twice.",
     [FI + "ocnlms.py", BASE], [("learning_rule, read_memory, move_memory", FI + "ocnlms.py")], ["filter.predict, filter.w"],
     [("mem_x, mem_d, mem_idx, mem_empty", "ring buffer", FI + "ocnlms.py")])

prop("C10", "Initial weights are what the user asked for, in a private float array",
     """A filter of size n starts with a private float64 array of n weights: zeros, or independent draws from a normal distribution with
     mean 0 and deviation 0.5, or a copy of the given array of length n. An unknown word, an array
     of another length and one that cannot be converted to numbers raise ValueError.""",
     ["inputs", "configurations"], "all filter classes, sizes and forms of the initial weights",
     "Tests use 'random', 'zeros' or a float array of the right size; wrong and integer arrays are not tried.",
     [BASE], [("AdaptiveFilter.init_weights, __init__", BASE)], ["filter.w after construction"])

prop("C11", "Predicting is a pure observation",
     """Asking any filter (or the neural network) for a prediction returns the inner product of the current weights and the input (OCNLMS:
     of the centred input, plus the mean target) and changes nothing that a later prediction, adaptation or run depends on,
     however often and in whatever order it is called.""",
     ["histories", "inputs"], "all filters, all interleavings of predict with adapt and run",
     "No test calls predict.",
     ALLF + ["padasip/ann/mlp.py"], [("predict", BASE), ("FilterOCNLMS.predict", FI + "ocnlms.py")], ["filter.predict(x)"])

prop("C12", "Data passed in by the caller is never modified or kept",
     """No public function, constructor or method modifies an array passed to it, and no filter or network keeps a reference to one: changing
     the passed arrays after the call has no effect on earlier or later results (no returned array shares memory with an argument).""",
     ["inputs", "histories"], "all public entry points, all arguments that are arrays, all later uses of the object",
     "Tests never look at their inputs again nor reuse a buffer.",
     ["padasip/"], [("np.array copies at the entry points", "padasip/")], ["the caller's arrays", "results after the caller's array changed"])

prop("C13", "Results already returned are never changed by later calls",
     """Arrays returned by a run, prediction, training or any helper function stay as they were returned: no later call on the same or on another object
     writes into them, and repeated calls return separate arrays.""",
     ["histories"], "all sequences of calls on filters, network and helper functions",
     "Each test makes one call and looks at its result at once.",
     ["padasip/"], [("fresh arrays in run / train", BASE)], ["returned arrays after further calls"])

prop("C14", "Objects are independent and results are deterministic",
     """The only randomness is NumPy's global generator, used for random initial weights (filters asked for them, neural network)
     and for shuffled training; apart from it every result is a function of the arguments and of the object's own history.
     No object or call shares mutable state with another object or call.""",
     ["histories", "configurations"], "all programs using several objects, all orders of calls, all process settings such as the hash seed",
     "Each test uses one object per process and a fixed seed and hash seed.",
     ["padasip/"], [("no module or class level mutable state", "padasip/"), ("np.random use", BASE)], ["results of the same calls in another process or order"])

prop("C15", "Unusable data is rejected with ValueError before anything changes",
     """If the number of targets differs from the number of samples, if the samples do not have the width of the filter or network, if the targets do not have one column per output of a network with several,
     or if the data cannot be converted to numbers, then run of a filter and train/test of the network raise ValueError, and the filter or network, its weights and its random generator
     are exactly as before the call; usable data is never rejected.""",
     ["inputs"], "all unusable data sets, all filters, network with one and with several outputs",
     "No test passes unusable data.",
     [BASE, "padasip/ann/mlp.py"], [("validation at the top of run / train / test", BASE)], ["exception type, object state after the exception"])

prop("C16", "Pretrained run trains on the first part and tests on the rest",
     """A pretrained run splits the data at floor(ntrain*N), runs the filter `epochs` times in order over exactly the samples before the split, then once
     over exactly the samples from the split on, and returns the result of this last run only.""",
     ["inputs", "configurations"], "all data sets, ntrain in (0,1), epochs >= 0, all filters",
     "pretrained_run is not tested.",
     [BASE], [("AdaptiveFilter.pretrained_run", BASE)], ["filter.pretrained_run(d, x, ntrain, epochs)"])

prop("C17", "Every filter can be selected by its name, with its own parameters",
     """All fifteen filters are available under their name, in any letter case, from the three selection functions; each name gives its own class, created
     with exactly the keyword arguments passed (filter_data sets the size from the number of columns and runs it on the given data).
     A missing size or an unknown name raises ValueError.""",
     ["inputs", "configurations"], "all names in any letter case, all keyword arguments",
     "The tests construct the classes directly and never use the selection functions.",
     [FI + "__init__.py"], [("FILTERS, FILTER_CLASSES, kind", FI + "__init__.py")],
     ["filter_data, AdaptiveFilter, get_filter"])

prop("C18", "A sample that is predicted exactly does not change the weights",
     """Whatever the filter (for AP: when all remembered samples are matched) and whatever its memory, adapting with an error of zero
     leaves every weight unchanged.""",
     ["inputs", "histories", "configurations"], "all filters, states and inputs with e = 0 (GMCC: alpha >= 1)",
     "With noisy data the error is never zero in the tests.",
     ALLF, [("learning_rule of every filter", FI)], ["filter.w after adapt(predict(x), x)"])

prop("C19", "Regularised computations never divide by zero",
     """With a positive regularisation the normalised filters (NLMS, NLMF, NSSLMS, OCNLMS with a memory of two or more) and RLS (positive mu, positive definite matrix) give finite updates
     for every finite input including the all-zero vector, AP's system to solve is always regular, and learning entropy is finite for constant
     weights: every divisor is a positive constant plus a term that cannot be negative.""",
     ["inputs"], "all finite inputs, positive regularisation",
     "Tests use normally distributed inputs only.",
     [FI + f + ".py" for f in "nlms nlmf nsslms ocnlms rls ap".split()] + ["padasip/detection/le.py"],
     [("eps in the divisors", FI)], ["finite filter.w after an all-zero input"])

prop("C20", "Results depend on the values of the data, not on how they are stored",
     """Integer data of any width and signedness, lists and whole Python numbers give the same results as the same values given as arrays of floats: no public computation multiplies, adds, subtracts or differences
     values in the integer type in which the caller stored them.""",
     ["inputs"], "all public functions and filters, all integer storage types of array arguments",
     "Tests use float64, and a few int64 values that cannot overflow.",
     ["padasip/"], [("conversion to float64 at the entry points", "padasip/")], ["results for int8/uint8/int16 data"])

prop("C21", "Error measures equal their definitions, for a pair and for an error series",
     """MAE, MSE, RMSE and logSE return mean |e|, mean e^2, its square root and 10*log10(e^2), where e is the only argument, or the difference of two series of equal
     length; get_mean_error returns exactly the measure it is asked for. Series of different length raise ValueError.""",
     ["inputs"], "all series and pairs of series",
     "Four small integer examples; get_mean_error and the errors are untested.",
     ["padasip/misc/error_evaluation.py"], [("get_valid_error", "padasip/misc/error_evaluation.py")], ["padasip.misc functions"])

prop("C22", "Unknown options are refused, documented options are accepted",
     """Every option given by name (filter model, initial weights, ELBND function, ESE peak selection, mean error function, network activation) accepts exactly its documented
     words and raises ValueError for any other word instead of returning a result.""",
     ["inputs", "configurations"], "all strings for each of the named options",
     "Tests only use a few of the valid words.",
     [FI + "__init__.py", BASE, "padasip/detection/elbnd.py", "padasip/detection/ese.py", "padasip/misc/error_evaluation.py", "padasip/ann/mlp.py"],
     [("dispatch on strings", "padasip/")], ["ValueError"])

prop("C23", "Standardize and standardize_back are exact inverses",
     """standardize returns (x - offset)/scale, element by element, where a missing offset is the mean and a missing scale the (population) deviation of x, each default
     independent of the other; standardize_back returns xs*scale + offset, so it undoes standardize for every non-zero scale.""",
     ["inputs"], "all series, with and without each keyword",
     "One series with both defaults and one back transformation; given offset or scale, zero among them, are untested.",
     ["padasip/preprocess/standardize.py", "padasip/preprocess/standardize_back.py"],
     [("standardize, standardize_back", "padasip/preprocess/")], ["returned arrays"])

prop("C24", "The history matrix holds every window of the series, oldest value first",
     """For a series of length L the input matrix of width n has L-n+1 rows and row i holds the values i ... i+n-1 in their order, as floats;
     with bias there is one more, last, column of ones. A width that is not a positive integer or a series that cannot be converted raises ValueError.""",
     ["inputs"], "all series and widths n <= L, bias on and off",
     "One series without bias; only shape and mean are compared.",
     ["padasip/preprocess/input_from_history.py"], [("input_from_history", "padasip/preprocess/input_from_history.py")], ["returned matrix"])

prop("C25", "PCA projects on the leading eigenvectors of the covariance",
     """PCA(x, n) returns every row of x, in order, projected on the n eigenvectors of the covariance matrix of the columns of x with the largest eigenvalues, largest first (by default one less than the
     number of columns), and refuses n not smaller than the number of columns; PCA_components returns all eigenvalues of the same matrix in descending order.""",
     ["inputs"], "all data matrices and n",
     "One random matrix, compared by a rounded mean.",
     ["padasip/preprocess/pca.py"], [("PCA, PCA_components", "padasip/preprocess/pca.py")], ["returned arrays"])

prop("C26", "LDA projects on the leading discriminants of the labelled classes",
     """LDA(x, labels, n) returns every row of x projected on the n eigenvectors with the largest eigenvalues of inverse within-class scatter times between-class scatter (each
     class weighted by its size), largest first, default one less than the number of columns, and refuses n not smaller than that number; LDA_discriminants returns the eigenvalues of the same matrix in
     descending order. Labels may be any values in a list or an array.""",
     ["inputs"], "all data matrices, labellings and n",
     "One random matrix with balanced classes, compared by rounded means.",
     ["padasip/preprocess/lda.py"], [("LDA_base, LDA, LDA_discriminants", "padasip/preprocess/lda.py")], ["returned arrays"])

prop("C27", "Learning entropy compares each increment with the preceding window only",
     """Learning entropy returns one value per row of weights, zero for the first m rows. From row m on the direct value is (|dw| - mean)/(deviation + 1e-10) per weight, and the multiscale value is
     the share of pairs (weight, sensitivity) for which |dw| exceeds sensitivity times mean, where mean and deviation are taken over exactly the m preceding increments |dw| of that weight, excluding the current one,
     and dw is the difference of the requested order (the first rows, which have no difference of that order, count with their own values).""",
     ["inputs", "configurations"], "all weight histories, window sizes, orders and lists or arrays of sensitivities",
     "Two sums over one history with m=30, order=2.",
     ["padasip/detection/le.py"], [("learning_entropy", "padasip/detection/le.py")], ["returned array"])

prop("C28", "ELBND is the weight increment times the error, per sample",
     """ELBND returns, for every row k of the weight history, the maximum (or, if asked, the sum) over the weights of |w[k+1]-w[k]| * |e[k]|; the last value, which has no increment, is 0. No value is negative.""",
     ["inputs"], "all weight histories, errors and both functions",
     "One sum with function 'max'.",
     ["padasip/detection/elbnd.py"], [("ELBND", "padasip/detection/elbnd.py")], ["returned array"])

prop("C29", "ESE rates each increment by the peaks of the preceding window only",
     """ESE returns one value per row of weights, zero for the first `window` rows; for each later row it is minus log10 of the product over the weights of the tail probability of |dw| in a generalised Pareto distribution
     fitted to the peaks of exactly the `window` preceding |dw| of that weight (the first row, which has no increment, counts with its own values; 1 if |dw| does not exceed the smallest peak). The peaks are the k largest values, k (at least 1) given by the selected method: a tenth, 30 or
     35 per cent, sqrt(n), log10(n) or n^(2/3)/log10(log10(n)).""",
     ["inputs", "configurations"], "all weight histories, window sizes and selection methods",
     "ESE has no test.",
     ["padasip/detection/ese.py"], [("ESE, pot", "padasip/detection/ese.py")], ["returned array"])

prop("C30", "The neural network's answers equal its forward pass, sample by sample",
     """Running the network over a matrix returns for each row, in order, the forward pass of that row: bias and weighted sum through the activation in every hidden layer and a linear output layer; testing returns the
     targets minus these outputs. Neither changes the weights nor depends on which samples were passed before.""",
     ["inputs", "histories", "configurations"], "all inputs and earlier calls; one and several outputs; sigmoid and tanh; analysed for one to three hidden layers of any sizes",
     "The network has no test.",
     ["padasip/ann/mlp.py"], [("Layer.predict, NetworkMLP.predict, run, test", "padasip/ann/mlp.py")], ["nn.run(x), nn.test(x, d), nn.predict(x)"])

prop("C31", "Training the network is gradient descent on the squared error",
     """Every training step changes every weight of every layer by that layer's rate times the negative gradient of half the squared error of the current sample, all gradients taken at the weights before the step.
     Training visits each sample once per epoch (as matching input-target pairs, in a new random order per epoch only if shuffling is on), records the error of every step before its update, and reports per epoch the sum of the
     squared errors of all its samples divided by their number.""",
     ["inputs", "histories", "configurations"], "all data, epochs, one and several outputs, sigmoid and tanh; analysed for one to three hidden layers of any sizes",
     "The network has no test.",
     ["padasip/ann/mlp.py"], [("Layer.update, NetworkMLP.update, train", "padasip/ann/mlp.py")], ["nn.train(x, d), weights of the layers"])

prop("C32", "The package needs nothing but NumPy until ESE is called",
     """Importing the package and using everything except ESE needs only Python and NumPy. Without SciPy the import succeeds and calling ESE raises ImportError; with SciPy ESE is available; every subpackage
     is importable from the top-level package.""",
     ["configurations"], "all environments with and without the optional packages",
     "Tests run in one environment, which has SciPy.",
     ["padasip/__init__.py", "padasip/detection/__init__.py", "setup.py"], [("guarded import of ESE", "padasip/detection/__init__.py")], ["import padasip"])

prop("C33", "Documented calls and keywords are accepted",
     """Every call of the library shown in its documentation resolves to an existing function, class or method and is accepted by its signature, and every keyword that the documentation of a public function or
     class lists is one of its parameters.""",
     ["programs"], "all calls and parameter lists in the documentation of the package",
     "Documentation is not executed by any test.",
     ["padasip/", "docs/source/"], [("docstrings and signatures", "padasip/")], ["TypeError / AttributeError of a documented call"])

prop("C34", "Online use needs constant memory",
     """However many samples are adapted or predicted, the amount of data a filter or network holds stays what it was after construction: every internal array keeps its shape and no container grows.""",
     ["histories"], "all sequences of adapt and predict of any length",
     "No test feeds samples one by one for long.",
     ALLF + ["padasip/ann/mlp.py"], [("fixed size memories", BASE)], ["shapes of the attributes"])

prop("C35", "Adaptive filters converge within their stated step-size bounds",
     """Within the documented ranges of the learning rate (for example 0 < mu < 2 for NLMS) the weights of a filter converge to the coefficients of a noiseless linear system with persistently exciting input.""",
     ["inputs", "configurations"], "all systems, inputs and admissible step sizes",
     "Tests compare sums of outputs after 100 samples.",
     ALLF, [("learning rules", FI)], ["filter.w in the long run"])

prop("C36", "Results are accurate in floating point",
     """The computed updates, projections and error measures differ from their exact real-number values by no more than a small multiple of the rounding unit, also for ill-conditioned data.""",
     ["inputs"], "all data, including badly scaled and ill-conditioned",
     "Tests round to 3-7 digits on benign data.",
     ["padasip/"], [("NumPy operations", "padasip/")], ["relative error of results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
