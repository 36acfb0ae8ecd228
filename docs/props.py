BASE = ("Every obligation generated from the current source is discharged for all sizes, contents and strides (no bound). "
        "Assumes: floats are reals, ints are mathematical, models of gonum/stdlib functions (models/), no aliasing between distinct inputs, termination. ")

prop('C01', 'Parallel helper covers every index exactly once',
  'Splitting work over n items with any requested number of threads (including zero, negative or more than n) hands every index of [0,n) to exactly one chunk, gives concurrent chunks distinct thread numbers below the thread count, and returns only after every chunk has finished.',
  ['inputs', 'schedules', 'configurations'], 'every item count n>=0, every thread count, every CPU count, every interleaving of the chunks',
  'The tests run the helper only indirectly with a few sizes and the CPU count of one machine; a boundary chunk lost or duplicated for one (n, threads) pair is not sampled.',
  ['base/parallel.go'], [('Parallelize', 'base/parallel.go')],
  BASE + 'The body of the helper is proved: coverage, bounds, distinct thread numbers, WaitGroup discipline (Add before go, Done in each goroutine, counter zero at Wait). Go memory model and sync.WaitGroup are trusted.')

prop('C06', 'Classification metrics equal their definitions',
  'Accuracy is the (weighted) fraction of rows predicted exactly; entry (a,b) of the confusion matrix is the total weight of the samples of class a predicted as b, over all labels that occur; precision, recall, F-beta and support of each class, and their macro, micro and support-weighted averages, follow from those counts. Inputs are not modified.',
  ['inputs', 'configurations'], 'every label matrix, weights, beta, class and averaging mode',
  'Tests use one six-sample balanced example per score, where macro and weighted averages coincide and every predicted label also occurs in the truth.',
  ['metrics/classification.go', 'preprocessing/label.go'], [('AccuracyScore', 'metrics/classification.go'), ('PrecisionRecallFScoreSupport', 'metrics/classification.go'), ('internalConfusionMatrix', 'metrics/classification.go')],
  BASE + 'The label encoder is used through its contract (C10).')

prop('C07', 'Regression metrics equal their definitions',
  'Mean squared error, mean absolute error and R2 equal their textbook definitions per output and under each averaging mode, with samples weighted by the given sample weights; errors are non-negative, symmetric and zero for perfect predictions, R2 is at most one and exactly one for perfect predictions. Inputs are not modified.',
  ['inputs', 'configurations'], 'every target and prediction matrix, every non-negative weight vector with positive sum, every averaging mode',
  'Tests compare a few fixed matrices against printed values, none with sample weights on several outputs.',
  ['metrics/regression.go'], [('MeanSquaredError', 'metrics/regression.go'), ('MeanAbsoluteError', 'metrics/regression.go'), ('R2Score', 'metrics/regression.go')],
  BASE)

prop('C09', 'Scalers apply and undo the documented affine map',
  'MinMaxScaler maps each column by (x-min)*(hi-lo)/(max-min)+lo so that training data lands in the feature range, StandardScaler by (x-mean)/std with the population standard deviation, MaxAbsScaler by x/max|x|, RobustScaler by (x-median)/(quantile range); constant columns get scale one. Transforming and inverse-transforming returns the original data, fitting in two batches (PartialFit) equals fitting their concatenation, fitting again forgets the previous data, targets are passed through, a clone of a fitted scaler shares nothing with it (also under further PartialFit), and inputs are not modified.',
  ['inputs', 'configurations', 'histories'], 'every data matrix (any shape, any stride, constant and zero columns), feature range, quantile range, with/without centering and scaling, every split in two batches',
  'Tests use one or two small matrices per scaler and no second batch of a different size, no strided views and no refit.',
  ['preprocessing/data.go'], [('MinMaxScaler', 'preprocessing/data.go'), ('StandardScaler', 'preprocessing/data.go'), ('MaxAbsScaler', 'preprocessing/data.go'), ('RobustScaler', 'preprocessing/data.go'), ('IncrementalMeanAndVar', 'preprocessing/data.go')],
  BASE + 'stat.Quantile (Empirical) is used through its model.')

prop('C11', 'Other feature transformers equal their definitions',
  'Normalizer divides each row (or column) by its l1, l2 or max norm, leaves zero vectors alone, and its inverse restores the data it transformed; KernelCenterer subtracts column and row means and adds the overall mean; Binarizer gives one above the threshold and zero otherwise; AddDummyFeature prepends a column of ones; Mean, MeanStdDev and DenseMean are column means and population deviations; Imputer replaces missing entries by the mean (or median, or most frequent value) of the present entries of their training column; KBinsDiscretizer has equally spaced edges (uniform) or the quantiles of the column (quantile), assigns each value to the last bin whose lower edge it reaches (ordinal or one-hot), and its inverse gives bin middles; QuantileTransformer maps the evenly spaced quantiles of each training column to their shares (repeated ones to the least), linearly in between, and values outside to the ends 1e-7 inside (0,1). Targets are passed through and inputs are not modified.',
  ['inputs', 'configurations'], 'every matrix, stride, norm, axis, threshold, number of bins and pattern of missing values',
  'Tests sample one small matrix per transformer with contiguous storage; zero rows, strided views, square-only shapes and inverse transforms are not covered.',
  ['preprocessing/data.go', 'preprocessing/imputation.go', 'preprocessing/discretization.go'], [('Normalizer', 'preprocessing/data.go'), ('KernelCenterer', 'preprocessing/data.go'), ('Binarizer', 'preprocessing/data.go'), ('QuantileTransformer', 'preprocessing/data.go'), ('Imputer', 'preprocessing/imputation.go'), ('KBinsDiscretizer', 'preprocessing/discretization.go')],
  BASE)

prop('C02', 'Matrix views and conversions show and write the right cells',
  'A constant matrix, a transpose, a row slice and the block, row and column slices of a dense matrix have the documented shape and show exactly the entries of the source they stand for, also when the source is itself a strided view; writing through a view changes exactly that cell of the source and nothing else; ToDense and FromDense keep every entry, and a dense copy is independent of its source.',
  ['inputs', 'configurations'], 'every source shape, stride, slice range, cell and value',
  'Tests read one or two cells of one matrix and never write through a view or slice a strided matrix up to its last row.',
  ['base/matrix.go'], [('MatTranspose', 'base/matrix.go'), ('MatRowSlice', 'base/matrix.go'), ('MatGeneralSlice', 'base/matrix.go'), ('ToDense', 'base/matrix.go'), ('FromDense', 'base/matrix.go')],
  BASE)

prop('C12', 'Distances equal their definitions',
  'Euclidean distance is the square root of the summed squared differences, Minkowski distance the p-th root of the summed p-th powers of absolute differences (the sum for p=1, the maximum for p infinite), for both the cluster and the neighbors package, whatever the memory layout of the two vectors; both are symmetric, and zero between a point and itself. The power distance MinkowskiDistanceP omits the root. Splitting a hyperrectangle yields its two halves, and its minimum and maximum distances to points and rectangles are the norms of the per-axis extremes. Inputs are not modified.',
  ['inputs', 'configurations'], 'every pair of vectors of equal length, contiguous or strided, every p>=1; every pair of boxes',
  'Tests evaluate two or three contiguous vectors per function; strided column views, other powers and infinite p are not sampled.',
  ['neighbors/distance.go', 'cluster/distance.go', 'neighbors/kdtree.go'], [('MinkowskiDistanceP', 'neighbors/distance.go'), ('EuclideanDistance', 'neighbors/distance.go'), ('MinkowskiDistanceP', 'cluster/distance.go'), ('Rectangle', 'neighbors/kdtree.go')],
  BASE + 'math.Pow is an uninterpreted function with its basic identities.')

prop('C13', 'Neighbor searches are exact, and predictions follow from the neighbors',
  'KNeighbors returns for each query the K smallest distances to the fitted rows in increasing order, with distinct row numbers that have those distances, whatever the algorithm (brute or k-d tree) and number of jobs; RadiusNeighbors returns exactly the rows within the radius; KNeighborsGraph marks exactly the neighbors (with 1 or the distance). KNeighborsRegressor predicts the (distance-)weighted mean of the neighbors\' targets, KNeighborsClassifier the class with the largest total weight and the shares of weights as probabilities, NearestCentroid the class of the nearest class mean (median for manhattan). Refitting forgets the earlier data, a fitted model is independent of the caller\'s matrices and of its clones. Models, queries and targets are not modified.',
  ['inputs', 'configurations'], 'every data set, queries, K, metric, weighting, algorithm and job count',
  'Tests search a few fixed points; ties, equal coordinates (which break tree construction), strided inputs, other metrics and refits are not sampled.',
  ['neighbors/unsupervised.go', 'neighbors/kdtree.go', 'neighbors/classification.go', 'neighbors/regression.go', 'neighbors/nearest_centroid.go'],
  [('NearestNeighbors.KNeighbors', 'neighbors/unsupervised.go'), ('NearestNeighbors.RadiusNeighbors', 'neighbors/unsupervised.go'), ('KDTree._query', 'neighbors/kdtree.go'), ('KNeighborsRegressor.Predict', 'neighbors/regression.go'), ('KNeighborsClassifier.Predict', 'neighbors/classification.go'), ('NearestCentroid.Fit', 'neighbors/nearest_centroid.go')],
  BASE + 'Brute-force KNeighbors, KNeighborsGraph and KNeighborsRegressor are proved; the k-d tree, RadiusNeighbors, the classifier, NearestCentroid and refitting (maps, heaps, slices of slices) are bounded stand-ins: executed on generated inputs only, never counted as proved.')

prop('C10', 'Label and category encoders code exactly the known classes, invertibly',
  'Fitting finds the sorted distinct values of each column (LabelEncoder also counts them, over all batches of PartialFit). LabelEncoder replaces each value by its position among the classes and unknown values by -1, and back (NaN out of range); LabelBinarizer, MultiLabelBinarizer (numbers or strings) and OneHotEncoder set exactly the column of the value\'s class (PosLabel/1) and leave NegLabel/0 elsewhere, unknown values giving none; the inverse transforms restore known values and otherwise select the class of the largest column. Refitting forgets earlier classes; inputs are not modified.',
  ['inputs', 'configurations', 'histories'], 'every label matrix, class set, number of outputs and sequence of fits',
  'Examples encode one small well-behaved matrix; unknown values, several outputs, strided or transposed inputs, insertions before existing classes and refits are not sampled.',
  ['preprocessing/label.go', 'preprocessing/data.go'],
  [('LabelEncoder', 'preprocessing/label.go'), ('LabelBinarizer', 'preprocessing/label.go'), ('MultiLabelBinarizer', 'preprocessing/label.go'), ('OneHotEncoder', 'preprocessing/data.go')],
  BASE + 'LabelEncoder.Transform/InverseTransform, their round trip and LabelBinarizer.InverseTransform are proved for one and two outputs; Fit/PartialFit and the map-based transforms are bounded stand-ins (generated inputs only, never counted as proved).')

prop('C18', 'Neural networks predict by their forward pass and train by their gradient',
  'The activation functions are identity, logistic, tanh, rectifier and softmax, applied in place to the values of the given view and to no others, their derivatives and the losses (half squared error, categorical and binary cross entropy, as means over the samples) are the documented ones. Predict applies for every layer the coefficients, intercepts and activation, for any number of samples, units and outputs; regressors return the outputs, classifiers one for the greatest output (a single output: above one half), or the label of that class if fitted to labels. Training by sgd changes the parameters, batch by batch, by the gradient of mean loss plus Alpha/2 times the squared coefficients over the samples of the batch, with momentum and learning rate schedule; Loss is the mean loss; lbfgs never ends with a greater loss than it started with; early stopping keeps the parameters with the best score on samples not trained on. Networks read from JSON predict with the coefficients read; the same seed gives the same network; samples and targets are unchanged after Fit; the 32 bit network agrees up to its precision.',
  ['inputs', 'configurations', 'histories'], 'every data set, layer sizes, activation, solver settings, seed, sequence of fits, matrix view',
  'Tests check that a few trainings end with an expected accuracy or loss; activations, partial batches, views, refits and early stopping are not covered.',
  ['neural_network/basemlp64.go', 'neural_network/basemlp32.go', 'neural_network/multilayer_perceptron.go', 'neural_network/general.go'], [('Activations64', 'neural_network/basemlp64.go'), ('Derivatives64', 'neural_network/basemlp64.go'), ('LossFunctions64', 'neural_network/basemlp64.go'), ('BaseMultilayerPerceptron64.forwardPass', 'neural_network/basemlp64.go'), ('BaseMultilayerPerceptron64.predict', 'neural_network/basemlp64.go'), ('BaseMultilayerPerceptron64.backprop', 'neural_network/basemlp64.go'), ('BaseMultilayerPerceptron64.fitStochastic', 'neural_network/basemlp64.go'), ('MLPRegressor.Predict', 'neural_network/multilayer_perceptron.go'), ('MLPClassifier.Predict', 'neural_network/multilayer_perceptron.go'), ('General64.Copy', 'neural_network/general.go')],
  BASE + 'Proved: activations, derivatives, losses, and prediction of regressors and of classifiers without labels, for up to two hidden layers of arbitrary size with arbitrary activations, 64 bit. Training, labels, early stopping, JSON and the 32 bit network are bounded stand-ins (up to 12 samples, 3 units, 3 steps). Known findings: Adam applies the bias correction once per parameter instead of once per step, and the last batch, if smaller, uses rows of the batch before; repairing either changes the outcome of existing example tests. BatchNormalize and WeightDecay are not claimed.')
prop('C19', 'Each optimizer applies exactly its update rule at every step',
  'From any state after any number of steps, GetUpdate of the sgd, adagrad, rmsprop, adadelta and adam optimizers writes the update given by that method\'s rule from the gradient (scaled down column by column to the clipping norm when one is set) and its running averages, adds momentum times the previous update, advances the running averages by their recurrences and the time step by one; the first step starts from the documented initial averages. UpdateParams moves theta in place by that update. The gradient is not modified and no state aliases the caller\'s matrices.',
  ['inputs', 'configurations', 'histories'], 'every gradient, running state, step count, step size, momentum, clipping norm and decay',
  'Tests only check that a fit converges; a wrong bias correction, a stale average or clipping by the wrong column still converges on the samples.',
  ['base/optimizers.go'], [('SGDOptimizer.GetUpdate', 'base/optimizers.go'), ('SGDOptimizer.UpdateParams', 'base/optimizers.go'), ('colNorm', 'base/optimizers.go')],
  BASE + 'math.Pow is an uninterpreted function with its basic identities. Convergence is not claimed.')

prop('C16', 'Loss functions return the cost and its exact gradient',
  'SquareLoss, LogLoss and CrossEntropyLoss store activation(X theta) as predictions and prediction minus target as differences, return the mean cost of their definition (half squared error; -y log h; -y log h - (1-y) log(1-h)) plus the elastic-net penalty of the regularized coefficients, and write the exact gradient of that cost with respect to theta, the penalty included, for one or several outputs, with the first feature regularized or not. The identity, logistic, tanh and ReLU activations and their derivatives (in terms of the output) are the mathematical ones. X, targets and theta are not modified.',
  ['inputs', 'configurations'], 'every data set, coefficients, activation, penalty strength, l1 ratio, number of outputs, memory layout',
  'Tests fit models whose convergence hides a missing factor in one branch of a gradient; only the square loss with identity and cross entropy with logistic activation are compared with numbers.',
  ['linear_model/loss.go', 'base/activation.go'], [('SquareLoss', 'linear_model/loss.go'), ('LogLoss', 'linear_model/loss.go'), ('CrossEntropyLoss', 'linear_model/loss.go'), ('regularization', 'linear_model/loss.go'), ('Activation', 'base/activation.go')],
  BASE + 'exp, log, tanh are uninterpreted functions with their basic identities; the derivative formulas are stated in the contract.')

prop('C17', 'Linear models fit their stated problem and predict X coef + intercept',
  'PreprocessData centers each column when an intercept is fitted and then scales it to unit norm when asked, leaving constant columns alone; LinearRegression finds coefficients solving the normal equations of those data, ElasticNet and Lasso a point satisfying the optimality conditions of their penalized problem (with non-negative coefficients when asked), Ridge and BayesianRidge the solution of theirs, with BayesianRidge reporting the precisions and covariance of its own evidence maximum, SGDRegressor and LogisticRegression minimize their stated penalized loss with its exact gradient and keep the minimizing parameters; scales are undone and the intercept is mean(y) - mean(x) coef (zero if none is fitted). Predict is X coef + intercept, logistic probabilities are its logistic function or softmax, predicted classes the likeliest ones. Refitting forgets the earlier fit (unless warm start is asked); data and fitted models are not modified.',
  ['inputs', 'configurations', 'histories'], 'every data set, number of outputs, penalty, intercept/normalize choice, memory layout, earlier fit',
  'Tests fit one data set per model, contiguous and freshly created, and check printed digits or a score threshold; refits, strided labels, constant columns, several outputs and the gradient of every branch are not sampled.',
  ['linear_model/Base.go', 'linear_model/coordinatedescent.go', 'linear_model/cdfast.go', 'linear_model/bayes.go', 'linear_model/logistic.go', 'linear_model/ridge.go'],
  [('PreprocessData', 'linear_model/Base.go'), ('LinearRegression.Fit', 'linear_model/Base.go'), ('SGDRegressor.Fit', 'linear_model/Base.go'), ('LinearModel.setIntercept', 'linear_model/Base.go'), ('ElasticNet.Fit', 'linear_model/coordinatedescent.go'), ('BayesianRidge.Fit', 'linear_model/bayes.go'), ('LogisticRegression.Fit', 'linear_model/logistic.go')],
  BASE + 'Assumed contracts: mat.Dense.Solve returns a least-squares solution, optimize.Minimize returns some point, the coordinate descent kernels return some coefficients. Proved: PreprocessData, every Fit around those three, Predict, Predict2, PredictProbas, and the cost and gradient handed to the optimizer. The descent kernels\' optimality, Ridge, the BayesianRidge fixed point and the end-to-end logistic fit are bounded stand-ins (generated inputs only, never counted as proved).')

prop('C05', 'A pipeline composes its steps',
  'Fitting a pipeline fits every step exactly once, each on X and Y as transformed by the steps before it; Predict gives the last step\'s prediction on the transformed X, then undone by those earlier steps that are invertible, last one first, both returned and stored in the destination (nil, empty or allocated); Score is the last step\'s score on X and Y transformed the same way; Transform returns X with the predictions. A clone holds clones of the steps under the same names, and fitting it leaves the original alone; a pipeline is a classifier exactly when its last step is. Inputs are not modified, and predicting does not change the pipeline.',
  ['inputs', 'configurations', 'histories'], 'every data set, every pattern of invertible and other steps (up to three transformers), every behaviour of the steps on the data',
  'The only test runs one pipeline whose steps are all invertible and checks an accuracy threshold.',
  ['pipeline/pipeline.go'], [('Pipeline.Fit', 'pipeline/pipeline.go'), ('Pipeline.Predict', 'pipeline/pipeline.go'), ('Pipeline.Score', 'pipeline/pipeline.go'), ('Pipeline.PredicterClone', 'pipeline/pipeline.go')],
  BASE + 'Proved for at most three transformers before the estimator (the contract enumerates the pipelines), with any number of samples and outputs. The steps are contract-defined transformers and estimators. MakePipeline (type names) is a bounded stand-in.')

prop('C03', 'Data splits put every sample in exactly one of train and test',
  'For any number of samples, folds and source of randomness, KFold yields exactly the asked number of splits (three when none is set, which GetNSplits reports), each of which puts every sample number in exactly one of its train and test sets exactly once, the test sets having n/folds or n/folds+1 samples and adding up to n in size, and then closes the channel; a clone of a seeded splitter yields the same splits. TrainTestSplit returns the rows of X with the corresponding rows of Y, each row of the data in exactly one of the two sets exactly once, with ceil(n*testsize) (or the given number of) test rows, determined by the seed. X and Y are not modified.',
  ['inputs', 'configurations', 'schedules'], 'every number of samples, folds, test size, shuffle choice, sequence of random swaps',
  'Tests print the splits of a few samples; sizes that do not divide evenly, wrapping around the end and other sources are not sampled.',
  ['model_selection/split.go', 'base/source.go'], [('KFold.Split', 'model_selection/split.go'), ('KFold.GetNSplits', 'model_selection/split.go'), ('TrainTestSplit', 'model_selection/split.go')],
  BASE + 'Assumed contracts: Shuffle of any random source performs some number of swaps of positions below n, Intn(n) returns a number below n, Perm(n) is obtained by swaps. Goroutines that send on a channel are executed when started; blocking is not modelled. Reproducibility of clones is a bounded stand-in. That the test sets of different folds are disjoint is not claimed: the code draws each fold independently, and its example test pins that.')


prop('C04', 'Cross validation and grid search score exactly what they are asked to',
  'For any data, splitter, scorer and number of jobs, CrossValidate scores, for each split, a fresh clone of the estimator fitted exactly once on the rows of X and Y listed in the train index (and on nothing else) by applying the scorer to the true targets and the predictions of the rows of the test index, and reports scores and estimators in the order of the splits; the given estimator, X and Y are not modified, and what an estimator keeps of its training data stays valid. ParameterGrid lists every combination of the given values exactly once. GridSearchCV evaluates each combination by cross validation of the estimator with exactly these parameters, reports the mean score of each, and keeps the index, score, parameters and estimator (of the best split) of a combination no other beats, higher or lower being better as configured; predicting uses that estimator; fitting again starts afresh.',
  ['inputs', 'configurations', 'schedules'], 'every data set, split, estimator, scorer, grid, number of jobs and interleaving of the jobs',
  'Tests run one grid of a neural network on one data set and look at the best parameters only; leaking test rows, sharing buffers between jobs or mixing up the order of splits would not show.',
  ['model_selection/validation.go', 'model_selection/search.go'], [('CrossValidate', 'model_selection/validation.go'), ('ParameterGrid', 'model_selection/search.go'), ('GridSearchCV.Fit', 'model_selection/search.go'), ('setParam', 'model_selection/search.go')],
  BASE + 'CrossValidate is proved for up to three splits (of any sizes and contents, any data) and any number of jobs and processors; ParameterGrid, GridSearchCV (reflection, maps) and the default splitter are bounded stand-ins: executed concretely on random grids and data, up to four splits.')
prop('C15', 'Interpolations go through the points and are linear or cubic in between',
  'For points with distinct abscissae given in any order, Interp1d is, between two neighbouring points and beyond the first and last ones, the straight line through the two nearest points (missing values between others are bridged); Interp2d is linear in y along each of the two neighbouring lines of points with equal x and linear in x between them, extending the outermost cells; CubicSpline goes through the points, is a cubic polynomial between neighbours with continuous slope and curvature, and has zero curvature at both ends. Inputs are not modified.',
  ['inputs'], 'every number, order and position of points, every query inside, at and outside of them',
  'Tests evaluate one four-point line and one grid at a few places; the spline test asserts nothing.',
  ['interpolate/interpolate.go', 'interpolate/cubic.go'], [('Interp1d', 'interpolate/interpolate.go'), ('Interp2d', 'interpolate/interpolate.go'), ('CubicSpline', 'interpolate/cubic.go')],
  BASE + 'Proved for points given in increasing order (no missing values): Interp1d, and that CubicSpline goes through the points whatever slopes the linear system yields (its banded Cholesky solve is assumed to return some vector). Points in any order, missing values, Interp2d and the smoothness of the spline are bounded stand-ins.')

prop('C08', 'Ranking metrics equal their definitions',
  'For any labels, scores (with ties), positive label and sample weights, ROCCurve lists, for each distinct score in decreasing order, the shares of the total weight of negative and positive samples that have at least that score, preceded by (0,0) when needed; PrecisionRecallCurve lists precision and recall by increasing threshold down to the first threshold that recalls everything, followed by (1,0); AUC is the trapezoidal area of a curve starting at 0; ROCAUCScore is the probability that a positive sample scores higher than a negative one (ties counting one half) and AveragePrecisionScore the mean of the precisions weighted by the gains of recall; for label matrices, the macro, micro, weighted and samples averages combine the scores of labels, entries and samples as documented. Inputs are not modified.',
  ['inputs', 'configurations'], 'every label matrix, score matrix, weights, positive label and averaging mode',
  'Tests use one four-sample example without ties or weights and one averaged example.',
  ['metrics/ranking.go', 'metrics/base.go'], [('ROCCurve', 'metrics/ranking.go'), ('PrecisionRecallCurve', 'metrics/ranking.go'), ('AUC', 'metrics/ranking.go'), ('averageBinaryScore', 'metrics/base.go'), ('binaryClfCurve', 'metrics/ranking.go')],
  BASE + 'Proved: AUC, ROCCurve and PrecisionRecallCurve from any counts of binaryClfCurve, and all four averages of ROCAUCScore and AveragePrecisionScore from an arbitrary score of a single label. Assumed in these proofs: typeOfTarget recognises 0/1 labels. The counts themselves (binaryClfCurve) and the definitions of the two scores from samples are bounded stand-ins (up to 9 samples).')

prop('C14', 'Gaussian naive Bayes learns class moments and predicts by them',
  'After fitting, at once or in any sequence of batches, with or without sample weights, GaussianNB holds for each class in increasing order the total weight of its samples, the weighted mean and the population variance (plus the smoothing term) of each feature over all of them, and as priors the given ones or the shares of the weights; a further batch leads to the parameters of all samples seen so far, fitting again forgets the earlier data, and a clone is independent. The joint log likelihood of a class is its log prior plus the Gaussian log densities of the features; Predict gives a class with the largest one and the probabilities are the likelihoods divided by their sum (adding up to one, logarithms consistent). X, Y and weights are not modified.',
  ['inputs', 'configurations', 'histories'], 'every data set, labels, weights, priors, split into batches and query',
  'Tests fit one data set at once without weights and compare the predictions; batches, weights and priors are not sampled.',
  ['naive_bayes/naivebayes.go'], [('GaussianNB.PartialFit', 'naive_bayes/naivebayes.go'), ('BaseNB.Predict', 'naive_bayes/naivebayes.go'), ('BaseNB.PredictProbas', 'naive_bayes/naivebayes.go')],
  BASE + 'Proved: prediction and probabilities for any parameters, one fit, and the update by a further batch when every class has samples in it. Assumed in the proofs: npUnique returns the distinct labels in increasing order. Classes absent from a batch, priors, refitting and clones are bounded stand-ins.')

prop('C20', 'Gaussian process kernels are the documented covariance functions',
  'Kernel.Eval(X, Y) of ConstantKernel, WhiteKernel, RBF and DotProduct has, for every pair of rows, the documented covariance (constant; noise level where the samples are equal; exp of minus half the squared distance scaled by one or by per-feature length scales; sigma0 squared plus dot product), Eval(X, nil) is Eval(X, X), and Sum, Product and Exponentiation of any kernels give the sum, product and power of the values of their parts; Diag(X) is the diagonal of Eval(X, X); the gradient that Eval returns on request has one slice per free parameter and is the derivative by the logarithm of that parameter. Theta and Bounds hold the logarithms of the free parameters of all parts in order, CloneWithTheta(theta) gives a kernel of the same form with these parameters and leaves the original alone. Regressor.LogMarginalLikelihood is the Gaussian log likelihood of the training targets under the kernel matrix plus Alpha, and its gradient the derivative by theta. Inputs are not modified.',
  ['inputs', 'configurations'], 'every data set, kernel parameters, nesting of operators, set of fixed parameters, theta',
  'Tests print a few kernel matrices of 3 or 4 samples and one fit.',
  ['gaussian_process/kernels/kernels.go', 'gaussian_process/gpr.go'], [('ConstantKernel.Eval', 'gaussian_process/kernels/kernels.go'), ('WhiteKernel.Eval', 'gaussian_process/kernels/kernels.go'), ('RBF.Eval', 'gaussian_process/kernels/kernels.go'), ('DotProduct.Eval', 'gaussian_process/kernels/kernels.go'), ('Sum.Eval', 'gaussian_process/kernels/kernels.go'), ('Product.Eval', 'gaussian_process/kernels/kernels.go'), ('Exponentiation.Eval', 'gaussian_process/kernels/kernels.go'), ('KernelOperator.CloneWithTheta', 'gaussian_process/kernels/kernels.go'), ('hyperparameters.Theta', 'gaussian_process/kernels/kernels.go'), ('Regressor.LogMarginalLikelihood', 'gaussian_process/gpr.go')],
  BASE + 'Proved: values and diagonals of the elementary kernels and of sums, products and powers of arbitrary kernels, the isotropic RBF gradient, gradients of sums and powers. Bounded: the other gradients, parameters, bounds, clones and the log marginal likelihood (up to 5 samples). Samples within 1e-8 are equal for WhiteKernel. Prediction of the GP regressor is unfinished upstream and not claimed.')
prop('C23', 'Clusterings satisfy their definitions',
  'KMeans.Predict gives each sample the number of a centroid none is nearer than, for the configured distance. With the Euclidean distance KMeans.Fit ends with one centroid per cluster, each that has samples being the mean of the samples it is the predicted one of. DBSCAN.Fit reports as core samples, in increasing order, exactly those whose neighbors within Eps by the configured metric and power P (themselves included) have a total weight of at least MinSamples, gives two core samples the same label exactly when a chain of core samples within Eps of each other connects them, gives every other sample within Eps of a core sample the label of such a one, and all others the noise label -1; labels are numbered from 0 without gaps. Fitting again forgets the earlier fit, clones are independent, samples are not modified.',
  ['inputs', 'configurations', 'histories'], 'every data set (ties and duplicates included), number of clusters, radius, minimal weight, sample weights, number of jobs',
  'Tests cluster blobs that any nearby algorithm separates.',
  ['cluster/kmeans.go', 'cluster/dbscan.go'], [('KMeans.Fit', 'cluster/kmeans.go'), ('KMeans.Predict', 'cluster/kmeans.go'), ('DBSCAN.Fit', 'cluster/dbscan.go'), ('dbscanInner', 'cluster/dbscan.go')],
  BASE + 'Proved: KMeans.Predict, for Euclidean and Manhattan distances. That fitting ends at a fixed point and DBSCAN are bounded stand-ins (up to 14 samples).')

prop('C24', 'Support vector machines predict by the kernel expansion they fitted',
  'SVC and SVR train one model per output on X and the column of targets with the configured C, Epsilon and Tol, whose support vectors are rows of X listed in increasing order with multipliers within (0, C] (SVR: [-C, C]) that balance between the classes (SVR: add up to zero) up to the tolerance; an SVC model is never worse than having no multipliers (for positive definite kernels), and samples of two classes far apart compared with the width of an RBF kernel get margin one within Epsilon. SVR predicts the sum of multiplier times kernel of sample and support vector plus B, SVC 1 where the sum of multiplier times label times kernel plus B is not negative and 0 elsewhere; the kernels are the linear, polynomial, sigmoid and RBF ones of the configured gamma (1/number of features by default), coef0 and degree, or the given function. The same seed gives the same models, for several outputs too; clones are independent; X and Y are not modified.',
  ['inputs', 'configurations', 'schedules'], 'every data set, kernel, parameter, seed, number of outputs, query',
  'Tests check the accuracy or the look of one fit per kernel with one output.',
  ['svm/svm.go', 'svm/svr.go', 'svm/kernels.go', 'svm/cache.go'], [('SVC.Fit', 'svm/svm.go'), ('svmTrain', 'svm/svm.go'), ('svmPredict', 'svm/svm.go'), ('SVR.Fit', 'svm/svr.go'), ('svrTrain', 'svm/svr.go'), ('svrPredict', 'svm/svr.go'), ('RBFKernel.Func', 'svm/kernels.go'), ('cachedKernel', 'svm/cache.go')],
  BASE + 'Proved for one or two outputs, one or three processors: what training is given, and Predict with every kernel, whatever model training returns (svmTrain and svrTrain are assumed to return some model). The training results are bounded stand-ins (up to 10 samples). Termination of training is not claimed; optimality of SVR is not claimed.')

prop('C21', 'Expansion, power, projection and shuffling transforms are the defined ones',
  'PolynomialFeatures lists every product of powers of the columns of total degree at most Degree (of distinct columns only, if InteractionOnly) exactly once by increasing degree, the constant one only with IncludeBias; Transform computes these products, and the inverse restores the data. PowerTransformer replaces every entry by its Yeo-Johnson or Box-Cox transform with the parameter of its column (then standardized when asked), the inverse undoes it, and Fit finds parameters maximizing the likelihood of normality of each column. PCA projects on orthonormal directions of decreasing variance with the documented explained variance ratios, keeping the asked number of components or the least that reaches MinVarianceRatio, and its inverse maps back. Shuffler rearranges the rows of X and Y alike, each kept once, determined by the source, and the inverse restores them. FunctionTransformer applies exactly the given functions. A fitted transformer is independent of its clones; inputs are not modified.',
  ['inputs', 'configurations'], 'every matrix, stride, degree, parameter (0 and 2 included), method and number of components',
  'Tests transform one small matrix per transformer; several columns, special parameters, dropped components, wide data and refitted clones are not sampled.',
  ['preprocessing/data.go', 'preprocessing/pca.go', 'preprocessing/itertools.go', 'preprocessing/functiontransformer.go'],
  [('PolynomialFeatures', 'preprocessing/data.go'), ('PowerTransformer', 'preprocessing/data.go'), ('PCA', 'preprocessing/pca.go'), ('Shuffler', 'preprocessing/data.go'), ('combinationsWithReplacement', 'preprocessing/itertools.go')],
  BASE + 'Proved: both power transforms and inverses, their columnwise parallel application and standardization, the polynomial products for given exponents (up to 2 columns and outputs), FunctionTransformer. Bounded stand-ins (executed only): the listing of exponents (channels, nested slices), fitting the powers (Brent minimizer), PCA (LAPACK), Shuffler (in-place permutation).')
