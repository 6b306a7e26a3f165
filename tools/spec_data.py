NA = []

prop("C01", "Any accepted form of dataset becomes one (n, max length, d) array",
     "Whatever form a set of series is given in (nested lists, tuples, flat "
     "univariate lists, arrays, tensors, data frames, ragged or already padded "
     "with trailing NaN), formatting it yields an array of shape (number of "
     "series, longest length, features) that holds exactly the given values, "
     "padded at the end with NaN, and formatting that again changes nothing. "
     "The length of a series is its number of timestamps up to the last one "
     "that is not entirely NaN, so NaN inside a series are kept. Length, "
     "dimension and dataset checks accept and refuse exactly what they "
     "announce.",
     ["inputs"], "every ragged dataset, with NaN anywhere, in every accepted "
     "container, for both backends and every float/int type",
     "The tests format a handful of literal lists; the container kinds, NaN "
     "positions and length combinations are unbounded.",
     ["utils/utils.py", "backend/numpy_backend.py",
      "backend/pytorch_backend.py"],
     [("dataset formatting", "utils/utils.py:to_time_series_dataset"),
      ("series length", "utils/utils.py:ts_size"),
      ("dataset and dimension checks", "utils/utils.py:check_dataset, "
       "check_dims, check_equal_size")],
     ["tslearn.utils"],
     "datasets in ten container forms against a plain padding model")

prop("C03", "Saving series as text and loading them back loses nothing",
     "A dataset saved to a text file in the default format and loaded again is "
     "the same dataset, bit for bit, including lengths, features and NaN "
     "cells; the same holds for the string form of one series. A chosen "
     "print format only rounds each value as that format says, with one line "
     "per series and one bar-separated field per feature.",
     ["inputs"], "every ragged dataset over the whole float64 range and every "
     "print precision",
     "The existing test round-trips one random dataset.",
     ["utils/utils.py"],
     [("text form", "utils/utils.py:time_series_to_str, str_to_time_series"),
      ("files", "utils/utils.py:save_time_series_txt, load_time_series_txt")],
     ["tslearn.utils"], "round trip and layout model",
     "Values printed with 19 significant digits are exact for float64.")

prop("C04", "Conversions to and from third-party dataset formats are inverse",
     "Converting a dataset to the pyts, seglearn, stumpy, sktime, tsfresh, "
     "cesium or pyflux layout puts every value where that layout documents it, "
     "and converting back gives the original dataset, with its ragged lengths "
     "and missing values where the layout can hold them. Series come back in the order in which "
     "they appear, whatever their identifiers. Data that a layout cannot hold "
     "or that is not in that layout is refused.",
     ["inputs"], "every ragged multivariate dataset in every accepted form; "
     "every identifier naming for frames built elsewhere",
     "The tests convert one or two fixed datasets per format.",
     ["utils/cast.py"],
     [("converters", "utils/cast.py:to_*_dataset, from_*_dataset")],
     ["tslearn.utils"], "round trips and layout models for seven formats",
     "cesium refuses one-point series itself, so these are not generated for "
     "it.")

prop("C05", "DTW is the optimal alignment cost and its path achieves it",
     "DTW between two series equals the square root of the smallest sum of "
     "squared pointwise distances over all warping paths the global "
     "constraint admits, whatever their lengths, and the path returned with "
     "it is such a path with exactly that cost. It is zero between a series "
     "and itself, symmetric without constraint, never smaller under a tighter "
     "constraint, and with another pointwise metric or a precomputed cost "
     "matrix it is the same optimum for that cost.",
     ["inputs", "configurations"], "all pairs of series of any lengths and "
     "features, all constraint forms, both backends",
     "The tests compare a few hand-made pairs to stored numbers; optimality "
     "over the exponential set of paths needs an independent model per input.",
     ["metrics/_dtw.py", "metrics/dtw_variants.py", "metrics/_masks.py"],
     [("dynamic programme", "metrics/_dtw.py:_accumulated_matrix"),
      ("path recovery", "metrics/_dtw.py:_return_path"),
      ("other pointwise metrics",
       "metrics/dtw_variants.py:dtw_path_from_metric")],
     ["tslearn.metrics"],
     "reference dynamic programme, path enumeration, metamorphic relations")

prop("C06", "Global constraint regions contain exactly the promised cells",
     "The Sakoe-Chiba region of radius r holds exactly the cells within r of "
     "the diagonal band widened by the difference of lengths; the Itakura "
     "region holds the parallelogram of the given slope, contains both "
     "corners and always leaves at least one warping path when it is not "
     "refused. Selecting the constraint by name, by its parameter alone, or "
     "by both gives the documented choice, and two parameters without a name are "
     "refused.",
     ["inputs", "configurations"], "all sizes, radii, slopes and ways to "
     "select a constraint",
     "The tests look at one or two small masks.",
     ["metrics/_masks.py"],
     [("regions", "metrics/_masks.py:sakoe_chiba_mask, itakura_mask"),
      ("selection", "metrics/_masks.py:compute_mask")],
     ["tslearn.metrics"], "cell-by-cell model and feasibility by reachability")

prop("C07", "Length-limited and subsequence DTW are the optima they announce",
     "DTW limited to a maximum path length is the cheapest alignment among the "
     "warping paths of at most that many steps, and its path respects the "
     "limit. Subsequence DTW finds the cheapest alignment of the whole query "
     "with any contiguous part of the long series, with a path that achieves "
     "that cost, and the path recovered from an accumulated cost at any end "
     "position is optimal for that end.",
     ["inputs"], "all pairs of series and all limits, both backends",
     "The tests check one literal pair each.",
     ["metrics/dtw_variants.py"],
     [("limited warping length",
       "metrics/dtw_variants.py:dtw_limited_warping_length"),
      ("subsequence search", "metrics/dtw_variants.py:dtw_subsequence_path, "
       "subsequence_cost_matrix, subsequence_path")],
     ["tslearn.metrics"], "path enumeration and reference programmes")

prop("C08", "The discrete Fréchet distance is the optimal bottleneck cost",
     "The discrete Fréchet distance between two series is the smallest, over "
     "all admissible warping paths, of the largest pointwise distance on the "
     "path, and the path returned with it achieves it. The same constraints "
     "apply to single distances and to cross-distance matrices, and another "
     "pointwise metric or a precomputed cost matrix gives the optimum for "
     "that cost.",
     ["inputs", "configurations"], "all pairs and sets of series, all "
     "constraint forms, both backends",
     "The tests compare a few stored numbers.",
     ["metrics/_frechet.py"],
     [("dynamic programme", "metrics/_frechet.py:_accumulated_matrix"),
      ("path recovery", "metrics/_frechet.py:_return_path")],
     ["tslearn.metrics"], "reference minimax programme and path enumeration")

prop("C09", "LCSS is the longest common subsequence under its tolerance",
     "The LCSS similarity of two series is the largest number of matching "
     "pairs, taken in order and within the threshold and the global "
     "constraint, divided by the shorter length, so it lies between 0 and 1. "
     "The pairs returned with it are exactly such a set of matches. It always "
     "returns, and grows with the threshold.",
     ["inputs", "configurations"], "all pairs of series, thresholds and "
     "constraint forms, both backends",
     "The tests use a few literal series, mostly without constraint.",
     ["metrics/dtw_variants.py"],
     [("dynamic programme", "metrics/dtw_variants.py:lcss_accumulated_matrix"),
      ("match recovery", "metrics/dtw_variants.py:lcss_path")],
     ["tslearn.metrics"], "reference programme, validity of matches")

prop("C10", "Soft-DTW is the soft minimum over paths, with exact gradients",
     "Soft-DTW with a positive gamma is minus gamma times the log of the sum "
     "of exponentials of minus the path costs over gamma, over all admissible "
     "warping paths; its alignment matrix is the expected path under that "
     "distribution and gradients with respect to costs and series are the "
     "true derivatives. The normalised form subtracts half of each self "
     "value, hence is zero between a series and itself; for gamma zero the "
     "value is the squared DTW. The differentiable loss agrees with these "
     "values and gradients.",
     ["inputs", "configurations"], "all pairs and sets of series, gammas, "
     "constraints, both backends, batched loss",
     "The tests compare stored numbers for a few inputs; the sum over paths "
     "and its derivative need a model for each input.",
     ["metrics/_soft_dtw.py", "metrics/softdtw_variants.py",
      "metrics/soft_dtw_fast.py", "metrics/soft_dtw_loss_pytorch.py"],
     [("values and alignments", "metrics/_soft_dtw.py"),
      ("low-level objects",
       "metrics/softdtw_variants.py:SoftDTW, SquaredEuclidean"),
      ("recursions", "metrics/soft_dtw_fast.py"),
      ("loss", "metrics/soft_dtw_loss_pytorch.py:SoftDTWLossPyTorch")],
     ["tslearn.metrics"],
     "forward/backward model in log space, path enumeration, gradients",
     "The torch loss keeps single-precision tables and is compared within "
     "1e-4; known finding F-C10-gamma0.")

prop("C11", "The global alignment kernel is the normalised sum over alignments",
     "The unnormalised global alignment kernel is the sum over all warping "
     "paths of the products of the local kernel, and the normalised one "
     "divides by the geometric mean of the self values, so it is symmetric, "
     "lies in (0, 1], equals 1 between a series and itself, and gives a "
     "positive semi-definite matrix. The bandwidth helpers return the "
     "documented multiple of the median distance.",
     ["inputs", "configurations"], "all pairs and sets of series and "
     "bandwidths, both backends",
     "The tests compare a few stored numbers.",
     ["metrics/_gak.py", "metrics/softdtw_variants.py"],
     [("kernel", "metrics/_gak.py:gak, cdist_gak"),
      ("bandwidth", "metrics/softdtw_variants.py:sigma_gak, gamma_soft_dtw")],
     ["tslearn.metrics"], "path-sum model, symmetry, spectrum")

prop("C12", "Canonical time warping returns a consistent alignment",
     "Canonical time warping returns a valid warping path within the global "
     "constraint that is optimal between the two series once transformed by "
     "the canonical correlation analysis it returns, for series with the same "
     "or different numbers of features. The distance alone is the one "
     "returned with the path, and the matrix form holds these distances.",
     ["inputs", "configurations"], "all non-degenerate pairs, iteration and "
     "component limits, constraints, both backends",
     "The tests compare a couple of stored numbers.",
     ["metrics/ctw.py"],
     [("alternation of CCA and DTW", "metrics/ctw.py:ctw_path")],
     ["tslearn.metrics"], "validity and optimality of the returned path",
     "Known finding F-C12-score.")

prop("C13", "Cross-distance matrices hold the pairwise values",
     "Entry (i, j) of a cross-distance (or cross-similarity) matrix is the "
     "distance of series i to series j as the pairwise function gives it, with "
     "the same parameters, for series of any lengths in the two datasets. With "
     "one dataset the matrix is that of the dataset against itself. The number "
     "of parallel jobs never changes an entry.",
     ["inputs", "configurations"], "all pairs of ragged datasets, every metric, "
     "every constraint form, numbers of jobs, both backends",
     "The tests compare a few fixed matrices of equal-length datasets.",
     ["metrics/utils.py", "metrics/_dtw.py", "metrics/soft_dtw.py",
      "metrics/_frechet.py", "metrics/softdtw_variants.py", "metrics/ctw.py",
      "metrics/cysax.py"],
     [("generic matrix", "metrics/utils.py:_cdist_generic"),
      ("compiled matrices", "metrics/_dtw.py:_njit_cdist_dtw"),
      ("SAX", "metrics/sax.py:cdist_sax")],
     ["tslearn.metrics"], "differential: matrix entries against pairwise calls "
     "and models")

prop("C15", "Trailing NaN padding never changes a result",
     "Two datasets that differ only in how many all-NaN timestamps follow "
     "their series give the same result, which is never NaN: distances, paths "
     "and matrices for any number of jobs, preprocessing, "
     "barycenters, and the fitted values and predictions of the estimators "
     "that accept series of different lengths.",
     ["inputs", "configurations"], "ragged datasets with any amount of extra "
     "padding, on every metric and every estimator that documents support for "
     "different lengths",
     "Tests pad a few datasets, for a few entry points.",
     ["utils/utils.py", "metrics", "preprocessing/preprocessing.py",
      "barycenters", "clustering", "neighbors/neighbors.py", "svm/svm.py"],
     [("lengths", "utils/utils.py:ts_size, to_time_series"),
      ("per-metric treatment", "metrics/_dtw.py:dtw")],
     ["tslearn.metrics", "tslearn.preprocessing", "tslearn.barycenters",
      "tslearn.clustering", "tslearn.neighbors", "tslearn.svm"],
     "metamorphic relation on thirty entry points",
     "The length a model stores (and so the width of what it returns) may "
     "follow the padding; values are compared without it.")

prop("C16", "LB_Keogh never exceeds DTW and its envelope holds the extrema",
     "The LB_Keogh bound of two univariate series of the same length never "
     "exceeds their DTW under the Sakoe-Chiba band of the same radius; it is "
     "the Euclidean distance to the envelope, which at every timestamp and "
     "feature holds the minimum and maximum within the radius. Series of "
     "different lengths or several features are refused.",
     ["inputs"], "all pairs of equal-length univariate series and all radii; "
     "envelopes of any series",
     "The tests compute one bound.",
     ["metrics/dtw_variants.py"],
     [("bound", "metrics/dtw_variants.py:lb_keogh"),
      ("envelope", "metrics/dtw_variants.py:lb_envelope")],
     ["tslearn.metrics"], "inequality against DTW and a direct envelope model")

prop("C17", "Scalers give exactly the requested range or moments",
     "Min-max scaling maps the smallest and largest value of every scaled "
     "group onto the requested bounds, mean-variance scaling gives every group "
     "the requested mean and standard deviation, by an increasing affine map "
     "of the group, where a group is a series or the fitted dataset and all "
     "features or each of them, as asked. NaN cells stay, and count for "
     "nothing. A constant group goes to the mean. Without per-series scaling "
     "new data are mapped by what was fitted.",
     ["inputs", "configurations"], "all ragged datasets with missing cells, "
     "constant groups included, all targets and groupings",
     "The tests check one or two small datasets.",
     ["preprocessing/preprocessing.py"],
     [("min-max", "preprocessing/preprocessing.py:TimeSeriesScalerMinMax"),
      ("mean-variance",
       "preprocessing/preprocessing.py:TimeSeriesScalerMeanVariance")],
     ["tslearn.preprocessing"], "affine model per group")

prop("C18", "Resampling is linear interpolation over the span of each series",
     "A resampled series has the requested number of timestamps and is the "
     "linear interpolation of the original (without its padding) at equally "
     "spaced points from its first to its last timestamp, feature by feature. "
     "By default the length is that of the longest series.",
     ["inputs"], "all ragged datasets and target lengths",
     "The tests resample two or three datasets.",
     ["preprocessing/preprocessing.py"],
     [("resampler", "preprocessing/preprocessing.py:TimeSeriesResampler")],
     ["tslearn.preprocessing"], "interpolation model")

prop("C19", "Imputation fills the gaps by the chosen rule and nothing else",
     "Every observed value is kept. Each missing value before the end of its "
     "series is replaced as the method says (mean or median of the feature in "
     "that series, linear interpolation, previous or next observed value, a "
     "constant, the given function); trailing NaN are kept or filled as asked, "
     "and a feature without any observed value stays missing unless a constant "
     "is given.",
     ["inputs", "configurations"], "all ragged datasets and patterns of "
     "missing cells, every method",
     "The tests impute a few fixed patterns.",
     ["preprocessing/preprocessing.py"],
     [("imputer", "preprocessing/preprocessing.py:TimeSeriesImputer")],
     ["tslearn.preprocessing"], "independent fill model per method")

prop("C20", "Synchronisation aligns every feature on the reference feature",
     "After synchronisation all features of a series have as many timestamps "
     "as its reference feature, which is unchanged; the others are "
     "interpolated linearly at the timestamps of the reference (or, without "
     "timestamps, over their own span).",
     ["inputs", "configurations"], "all datasets whose features have lengths "
     "and timestamps of their own, any reference",
     "The tests synchronise one dataset.",
     ["preprocessing/preprocessing.py"],
     [("synchroniser",
       "preprocessing/preprocessing.py:TimeSeriesFeatureSynchronizer")],
     ["tslearn.preprocessing"], "interpolation model")

prop("C21", "PAA, SAX and 1d-SAX words, distances and reconstructions agree",
     "PAA keeps the mean of each segment; SAX replaces it by its quantile bin "
     "of the normal distribution; 1d-SAX also bins the least-squares slope. "
     "Inverse transforms are piecewise constant (linear) functions of the "
     "symbols. The distance between two represented series is that of their "
     "representations: for PAA and SAX never more than the Euclidean distance "
     "of the (scaled) series, and the distance of two raw series equals that "
     "of their representations.",
     ["inputs", "configurations"], "all datasets, numbers of segments, "
     "alphabet sizes, scaled or not",
     "The tests transform a few four-point series.",
     ["piecewise/piecewise.py", "metrics/cysax.py"],
     [("representations", "piecewise/piecewise.py"),
      ("compiled kernels", "metrics/cysax.py")],
     ["tslearn.piecewise"], "quantile, segment and slope models; lower bound")

prop("C22", "Barycenters descend their objective and honour their options",
     "Each iteration of DTW barycenter averaging is the weighted mean of the "
     "aligned values over optimal admissible alignments and never increases "
     "the weighted sum of squared DTW under the requested constraint; a "
     "weight of k is k copies of the series; the number of iterations, the "
     "size and the initial barycenter are respected, and the number of jobs "
     "changes nothing. The subgradient variant "
     "takes weighted steps on the same objective, the soft-DTW barycenter "
     "never ends worse than its initial point, and the Euclidean barycenter "
     "is the weighted mean.",
     ["inputs", "configurations"], "all ragged weighted datasets, constraints, "
     "initialisations and iteration counts",
     "The tests compare a few barycenters of one small dataset.",
     ["barycenters/dba.py", "barycenters/softdtw.py",
      "barycenters/euclidean.py"],
     [("DBA", "barycenters/dba.py"), ("soft-DTW", "barycenters/softdtw.py"),
      ("Euclidean", "barycenters/euclidean.py")],
     ["tslearn.barycenters"],
     "one-step reference model, descent and repetition relations",
     "Barycenter sizes above one from one-timestamp series are not generated "
     "(the default initialisation refuses them).")

prop("C23", "k-means labels, inertia, transform and predict fit its centers",
     "After a fit, every label is that of a closest center under the "
     "clustering metric and its parameters, the inertia is the mean squared "
     "distance to it, transform gives the distances to the centers, predicting "
     "the fitted data gives the labels and no cluster is empty. One more "
     "iteration never worsens the clustering (Euclidean and DTW), more "
     "restarts never do, from given centers the Euclidean fit is exactly that "
     "number of steps of Lloyd's algorithm and a DTW step averages the members "
     "with the number of iterations asked for. A fit stops at the first "
     "iteration whose inertia changes by less than the tolerance, and several "
     "runs give centers, labels and iterations of the best one. The unit does "
     "not matter.",
     ["inputs", "configurations", "histories"], "all datasets, metrics, "
     "initialisations, iteration counts and restarts",
     "The tests compare a handful of fits with stored labels.",
     ["clustering/kmeans.py", "clustering/utils.py"],
     [("k-means", "clustering/kmeans.py:TimeSeriesKMeans"),
      ("empty clusters, inertia", "clustering/utils.py")],
     ["tslearn.clustering"],
     "reference distances, step-by-step model, monotonicity",
     "Descent is not claimed for soft-DTW, whose barycenter step is a bounded "
     "number of L-BFGS iterations.")

prop("C24", "Kernel k-means assigns by mean kernel similarity to its clusters",
     "After a fit every prediction is the cluster whose (weighted) members "
     "have the largest mean kernel similarity to the series; a converged fit "
     "predicts its own labels, its inertia is the sum of the kernel distances, "
     "no cluster is empty and more restarts never do worse; a fit stops at "
     "the first change below the tolerance and several runs give the best one "
     "of them. Fitting leaves "
     "the parameters alone and depends on nothing fitted before, including "
     "the automatic bandwidth.",
     ["inputs", "configurations", "histories"], "all datasets, kernels and "
     "their parameters, sample weights, restarts and refits",
     "The tests fit a few small datasets once.",
     ["clustering/kmeans.py"],
     [("kernel k-means", "clustering/kmeans.py:KernelKMeans")],
     ["tslearn.clustering"],
     "similarity model with an independent alignment kernel")

prop("C25", "k-Shape labels, centers and distances follow cross-correlation",
     "The shape-based distance is one minus the largest normalised "
     "cross-correlation over all shifts, and shifting a series to a reference "
     "uses a shift that attains it. After a fit on z-normalised series the "
     "centers are z-normalised, labels, inertia and predictions are those of "
     "the closest centers, for any number of series to predict and whatever "
     "their scale, no cluster is empty, more iterations never do worse, a "
     "fit stops at (and undoes) the first iteration that grows or changes by "
     "less than the tolerance, several runs give the best one of them, and "
     "one iteration from given centers extracts the leading shape of every "
     "cluster, feature by feature.",
     ["inputs", "configurations"], "all pairs of series; all datasets, given "
     "or random initial centers, iteration counts",
     "The tests fit one dataset and predict only as many series as fitted.",
     ["clustering/kshape.py", "metrics/cycc.py"],
     [("cross-correlation", "metrics/cycc.py"),
      ("k-Shape", "clustering/kshape.py:KShape")],
     ["tslearn.clustering", "tslearn.metrics"],
     "direct cross-correlation and eigenvector models")

prop("C26", "DBSCAN labels are those of the density definition",
     "A series is a core series when at least min_ts series, itself included, "
     "lie within eps under the chosen metric; clusters are the connected "
     "components of core series, in order of their first core series; another "
     "series within eps of a core series belongs to one of its clusters and "
     "any other is noise.",
     ["inputs", "configurations"], "all datasets, metrics with parameters, "
     "eps, min_ts",
     "The tests cluster a few points once per metric.",
     ["clustering/dbscan.py"],
     [("DBSCAN", "clustering/dbscan.py:TimeSeriesDBSCAN")],
     ["tslearn.clustering"], "reference graph search on reference distances",
     "Values of eps are taken between observed distances.")

prop("C27", "The silhouette score is the mean silhouette for the metric",
     "The silhouette score is the mean over the series of (b - a) / max(a, b), "
     "with a the mean distance to the other members of its cluster and b the "
     "smallest mean distance to another cluster, zero for a singleton, under "
     "the chosen metric and parameters however they are passed; labels count "
     "only as a partition and sampling takes a random subset.",
     ["inputs", "configurations"], "all datasets, labelings, metrics and ways "
     "to give their parameters",
     "The tests compute a few values.",
     ["clustering/utils.py"],
     [("silhouette", "clustering/utils.py:silhouette_score")],
     ["tslearn.clustering"], "direct formula on reference distances")

prop("C28", "Nearest-neighbour search and predictions are exact",
     "The neighbours of a series are its k closest fitted series under the "
     "metric and parameters of the model, in order, with their distances; "
     "without a query each series is not its own neighbour. The classifier "
     "and regressor predict the (weighted) vote or mean of these. The answer "
     "depends only on the current parameters, the last fitted data and the "
     "query: not on earlier fits, queries, refusals or the other queries.",
     ["inputs", "configurations", "histories"], "all datasets, metrics, k, "
     "weights, targets; sequences of fits, queries, refusals and parameter "
     "changes",
     "The tests query small datasets once per estimator.",
     ["neighbors/neighbors.py"],
     [("search", "neighbors/neighbors.py:KNeighborsTimeSeriesMixin"),
      ("votes", "neighbors/neighbors.py:KNeighborsTimeSeriesClassifier, "
       "KNeighborsTimeSeriesRegressor")],
     ["tslearn.neighbors"],
     "brute-force model; stateful histories against a fresh model")


prop("C29", "SVMs and neural networks are scikit-learn's on the series",
     "The support vector classifier and regressor are the scikit-learn models "
     "for the kernel matrix of the chosen kernel and every parameter they are "
     "given: global alignment kernel with gamma = 2 sigma^2, from data of any "
     "lengths, or a vector kernel of the flattened series; decision values, "
     "labels, probabilities and support vectors belong to the fitted series. "
     "The networks give what scikit-learn's give on flattened series at every "
     "step of any history of fits, partial fits, predictions and refusals, "
     "and series of other dimensions are refused and change nothing.",
     ["inputs", "configurations", "histories"], "all datasets, kernels, "
     "parameters, weights; sequences of calls",
     "The tests fit a few defaults and check shapes; epsilon, warm starts and "
     "the automatic gamma of vector kernels were broken without failing any.",
     ["svm/svm.py", "neural_network/neural_network.py"],
     [("kernel models", "svm/svm.py:TimeSeriesSVMMixin"),
      ("networks", "neural_network/neural_network.py")],
     ["tslearn.svm", "tslearn.neural_network"],
     "differential testing against scikit-learn on a reference kernel matrix; "
     "stateful histories for the networks")

prop("C30", "Early classification minimises its expected cost on prefixes",
     "The early classifier decides at the first time, from the minimal one "
     "on, at which no later time has a lower expected cost, the cost being "
     "the documented mixture over clusters of the error rates given the true "
     "class plus the time cost; class and probabilities are those of the "
     "classifier of that time on the prefix. Nothing observed after the "
     "decision changes it, and predictions for unfinished series, whole or "
     "streamed in chunks, agree with it.",
     ["inputs", "configurations", "schedules"], "all datasets, classes, "
     "clusters, costs, base classifiers; all ways to cut a stream",
     "The tests use eight toy series whose classifiers make no mistake, for "
     "which wrong error rates look right.",
     ["early_classification/early_classification.py"],
     [("expected costs", "early_classification/early_classification.py:"
       "NonMyopicEarlyClassifier._expected_costs"),
      ("streams", "early_classification/early_classification.py:"
       "NonMyopicEarlyClassifier._generate_early_predictions")],
     ["tslearn.early_classification"],
     "independent model of the documented method; future-independence and "
     "stream-versus-batch relations",
     "Costs tied up to rounding are not judged.")

prop("C14", "The PyTorch backend gives the NumPy results, with true gradients",
     "Every metric and backend function gives for tensors what it gives for "
     "arrays of the same values, on the device of the tensors and to the "
     "precision of their type; the NumPy path and the differentiable one agree. The gradients "
     "that PyTorch propagates through soft-DTW, DTW and the other "
     "differentiable metrics, and those of the soft-DTW loss modules, are the "
     "derivatives of the values, for every length, batch, regularisation, "
     "constraint and distance function. The backend used is the one asked "
     "for by name or object, and else the one of the data.",
     ["inputs", "configurations"], "all pairs and batches of series, metric "
     "parameters, backends",
     "The tests compare a few fixed series and look at a single gradient.",
     ["backend/backend.py", "backend/numpy_backend.py",
      "backend/pytorch_backend.py", "metrics/soft_dtw_loss_pytorch.py",
      "metrics/_dtw.py", "metrics/softdtw_variants.py"],
     [("backends", "backend/backend.py:instantiate_backend"),
      ("loss", "metrics/soft_dtw_loss_pytorch.py:SoftDTWLossPyTorch"),
      ("torch metrics", "metrics/softdtw_variants.py:soft_dtw")],
     ["tslearn.backend", "tslearn.metrics"],
     "differential testing of both backends; gradients against an explicit "
     "soft-DTW reference and central differences")

prop("C31", "Shapelet models compute minimal distances and learn by descent",
     "The shapelet transform of a series is, for each shapelet, the smallest "
     "mean squared distance to a subsequence of the series, padding excluded, "
     "and its location is where that subsequence starts; class probabilities "
     "and labels are those of the linear model on the transform. Training "
     "moves shapelets and weights by the gradient of the penalised loss, "
     "initial shapelets come from the series, numbers of shapelets and sizes "
     "are as asked or as documented, and a fitted model can be fitted again, "
     "cloned or queried in any order.",
     ["inputs", "configurations", "histories"], "all datasets (ragged, "
     "multivariate, any labels), shapelet sizes and numbers, optimizers, "
     "scaling; sequences of fits and queries",
     "The tests train one or two models on univariate toy data and check "
     "rounded outputs; multivariate transforms were wrong without failing "
     "any.",
     ["shapelets/shapelets.py"],
     [("layers", "shapelets/shapelets.py:LocalSquaredDistanceLayer"),
      ("estimator", "shapelets/shapelets.py:LearningShapelets"),
      ("sizes", "shapelets/shapelets.py:"
       "grabocka_params_to_shapelet_size_dict")],
     ["tslearn.shapelets"],
     "numpy model of transform, locations and probabilities; a training step "
     "against an independent torch model; histories of fits")

prop("C33", "The matrix profile is the distance to the nearest other segment",
     "The matrix profile of a series gives for each of its segments of the "
     "chosen length the smallest Euclidean distance, z-normalised or not as "
     "asked, to a segment outside the exclusion zone, for every available "
     "implementation, and infinity where there is none or the segment is not "
     "fully observed. Lengths that do not fit and unknown implementations are "
     "refused.",
     ["inputs", "configurations"], "all datasets, segment lengths, scaling, "
     "both implementations",
     "The tests compare one short series with stored values.",
     ["matrix_profile/matrix_profile.py"],
     [("profiles", "matrix_profile/matrix_profile.py:MatrixProfile")],
     ["tslearn.matrix_profile"],
     "brute-force definition, for the numpy and stumpy implementations")

prop("C32", "VARIMA models follow their documented equations",
     "A fitted VARIMA model is the documented one: its residuals, "
     "log-likelihood, information criteria and in-sample predictions follow "
     "from its coefficients by the recursion of the documentation, on the "
     "differenced and seasonally differenced series; its forecasts continue "
     "the series by the same recursion with zero innovations and undo the "
     "differencing. Forecasting in one call or step by step, alone or in a "
     "batch, fitted or given series, agree; padding and other series of the "
     "batch never matter to a forecast. Wrong orders and too short series are "
     "refused; AutoVARIMA returns the model with the best criterion among "
     "those it is allowed to try.",
     ["inputs", "configurations"], "all orders, seasons, dimensions, series "
     "lengths and batches, with either optimiser",
     "The tests compare a few univariate orders with stored values and never "
     "differentiate multivariate or ragged series twice.",
     ["forecasting/_arima.py"],
     [("model", "forecasting/_arima.py:VARIMA"),
      ("selection", "forecasting/_arima.py:AutoVARIMA")],
     ["tslearn.forecasting"],
     "direct recursion of the documented equations; continuation relation; "
     "refusals; exhaustive selection")

prop("C34", "Forecast errors are the documented averages",
     "The measures of forecast errors are the documented functions of the "
     "observed and predicted series: weighted or plain averages over features "
     "and series, root, percentage, scaled by the naive in-sample forecast, "
     "with padding and missing values left out, symmetric or invariant where "
     "the formula is; series that do not match and unknown options are "
     "refused.",
     ["inputs", "configurations"], "all datasets, weights, multioutput options",
     "The tests look at fixed univariate examples.",
     ["metrics/performance.py"],
     [("errors", "metrics/performance.py")], ["tslearn.metrics"],
     "definitions by loops over observed values; refusals")

prop("C35", "Saved models are restored as they were",
     "A fitted model written with to_json, to_hdf5 or to_pickle and read back "
     "has the same parameters, with the same types, and gives exactly the "
     "same answers on any series; the restored model can be saved again in "
     "any format and so on. Saving changes neither the model nor the file "
     "that exists already, for HDF5, and a model that is not fitted is refused. "
     "Every estimator survives pickle and deepcopy, independent of its "
     "original. Dictionaries saved with hdftools come back as they were.",
     ["inputs", "configurations", "histories"], "all estimators, parameters, "
     "fitted data; chains of formats",
     "The tests save models with default parameters once and compare a few "
     "attributes.",
     ["bases/bases.py", "hdftools/hdftools.py", "neighbors/neighbors.py"],
     [("formats", "bases/bases.py:BaseModelPackage"),
      ("HDF5", "hdftools/hdftools.py:save_dict")],
     ["tslearn.bases", "tslearn.hdftools"],
     "round trips and chains of formats, observations compared exactly")

prop("C36", "Generated and cached datasets are what was asked for",
     "Generators give datasets of the requested shape and moments, the same "
     "for the same random state. Archive datasets are downloaded once, cached, "
     "and loaded as their files say, from text, ARFF or NumPy files; a failed "
     "or corrupt download warns, returns None and leaves neither a half-made "
     "cache nor a damaged one; lists of datasets, baseline scores and bundled "
     "datasets need no network.",
     ["inputs", "fault_sequences", "histories"], "all sizes and seeds; sequences of "
     "loads with missing, truncated or corrupt answers of the archive",
     "The tests need the network for the archive and skip without it.",
     ["datasets/ucr_uea.py", "datasets/cached.py",
      "generators/generators.py"],
     [("archive", "datasets/ucr_uea.py:UCR_UEA_datasets"),
      ("generators", "generators/generators.py:random_walks")],
     ["tslearn.datasets", "tslearn.generators"],
     "stand-in archive with injected faults against a model of the cache; "
     "statistics of generators; files written and read back")

prop("C02", "Calls read their arguments and have no hidden effects",
     "No public function and no method of an estimator changes the arrays, "
     "lists, tensors or parameters it is given, results share no memory with "
     "arguments or with the state of a model, so that writing into them has "
     "no effect on later calls, and a call repeated gives the same result. "
     "Only the values of arguments count: contiguous, Fortran-ordered, "
     "strided, reversed or read-only arrays, integers, nested lists and "
     "tensors of the same values give the same results.",
     ["inputs", "histories"], "all public functions and estimators, all "
     "memory layouts and containers",
     "The tests pass fresh contiguous arrays and look at results only.",
     ["metrics", "barycenters", "clustering", "neighbors", "preprocessing",
      "piecewise", "utils/utils.py"],
     [("datasets", "utils/utils.py:to_time_series_dataset"),
      ("barycenters", "barycenters/dba.py:dtw_barycenter_averaging")],
     ["tslearn"],
     "arguments compared with snapshots, results overwritten and calls "
     "repeated, representations compared with each other")

prop("C37", "Every estimator keeps the estimator contract",
     "Constructor parameters are attributes as given, read by get_params and "
     "written by set_params, and clones are equal and not fitted; queries "
     "before fit raise NotFittedError; fit returns the estimator; the same "
     "data and random_state give the same model whatever the global random "
     "state, the estimator fitted before or not; queries do not change the "
     "model, treat series independently of each other in any order, and "
     "refuse another number of features; fit_predict, fit_transform and score "
     "are what they abbreviate; n_features_in_ is the number of "
     "features of the series (neighbour searches without labels excepted); "
     "classes_ are the sorted labels and class probabilities sum to one and agree with predictions.",
     ["inputs", "configurations", "histories"], "all estimators, parameters, "
     "datasets; sequences of fits and queries",
     "The scikit-learn checks that the tests run use fixed small datasets and "
     "default parameters.",
     ["clustering", "neighbors", "svm/svm.py", "preprocessing", "piecewise",
      "neural_network/neural_network.py", "shapelets/shapelets.py",
      "early_classification", "forecasting", "matrix_profile"],
     [("mixin", "bases/bases.py:TimeSeriesMixin"),
      ("dimensions", "utils/utils.py:check_dims")],
     ["tslearn"],
     "metamorphic relations between fits, clones and queries of every "
     "estimator")
