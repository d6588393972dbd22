#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that long texts stay reviewable)."""
import json, os
C='subprojects/ufjfmltk-core/include/ufjfmltk/core/'
S='subprojects/ufjfmltk-core/src/'
CL='subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/'
EN='subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/'
FS='subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/'
RG='subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/'
VA='subprojects/ufjfmltk-valid/include/ufjfmltk/valid/'
VI='subprojects/ufjfmltk-visual/include/ufjfmltk/visual/'
CU='subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('P01','Vector arithmetic is element-wise at any nesting depth',
 'For vectors of equal length, every sum, difference, product, quotient, remainder, scalar combination, absolute value, power, exponential, logarithm, sine and cosine, nested to any depth and stored by construction, assignment or compound assignment, has in each coordinate exactly the value the same scalar expression has on the operands\' coordinates. Evaluating an expression never changes its operands, and a vector assigned from another one ends up with exactly that one\'s coordinates and length. Two vectors compare equal exactly when they have the same length and the same coordinates.',
 ['inputs','programs'],'all vector lengths (including 0 and 1), all element values, all expression trees over the supported operators, element types double, float and int',
 'The suite evaluates two or three fixed expressions indirectly through kernels and normalisation; it never compares a nested expression with scalar arithmetic and never assigns a shorter vector to a longer one.',
 [C+'Point.hpp',C+'ExprOps.hpp',C+'ExprScalar.hpp',C+'ExprTraits.hpp'],
 [('lazy expression templates holding references to operands','ExprOps.hpp: BExprOp/UExprOp'),('assignment and compound-assignment loops','Point.hpp: operator=, operator+= ...')],
 ['coordinates, length of the result vector and of the operands after evaluation'])

p('P02','Vector reductions, norms and grids match their definitions',
 'The sum, dot product, largest and smallest coordinate, and the L1, L2, Lp and maximum norm of a vector equal their mathematical definitions for every sign and magnitude of the coordinates. Normalising a non-zero vector gives a vector of unit norm in the same direction and does not change its length, label or identity; picking coordinates keeps the picked values, label and identity; an evenly spaced grid of N points starts at the lower bound, ends at the upper bound and has a constant step.',
 ['inputs'],'all finite vectors (including all-negative, all-zero, single-coordinate), all norm orders >= 1 and the maximum norm, all grids with at least two points',
 'Tests check one unit norm on random positive vectors; they never reduce a vector of only negative or zero coordinates.',
 [C+'Point.hpp'],[('reduction loops and their initial values','Point.hpp: max, min, dot, sum, norm'),('normalisation by Lp norm','Point.hpp: normalize'),('grid construction','Point.hpp: linspace')],
 ['returned scalars','returned vectors'])

p('P03','Dataset bookkeeping stays consistent under every edit history',
 'After any sequence of inserting points, removing points one by one or in batches, changing a label, and reordering, the number of points, the dimension, the stored points, the label vector, the list of classes and the number of points per class all agree with each other and with the same edits replayed on a plain list. An edit that is refused (wrong dimension, identifier not present) reports failure and leaves the dataset exactly as it was. Points not named by an edit keep their coordinates, label and relative order.',
 ['histories','inputs'],'all histories of edits on datasets of any size and dimension, binary and multi-class labels, labels appearing and disappearing',
 'Tests run one removal sequence and one insertion sequence on iris; the interplay of removal, insertion, relabelling and the class tables over other orders is never seen.',
 [C+'Data.hpp'],[('class list/name/count tables updated incrementally','Data.hpp: insertPoint, removePoint, removePoints, updatePointValue'),('recomputation','Data.hpp: computeClassesDistribution')],
 ['size(), dim(), points(), classes(), classesDistribution(), getLabels()'],
 [('m_classes / m_class_distribution','distinct labels and how many points carry each','Data.hpp'),('m_points, m_index','points and index','Data.hpp')])

p('P04','Copies of a dataset share nothing mutable with the source',
 'A dataset obtained by copying another one (copy construction, copying into an existing dataset, taking a copy, copying only some classes) equals the source, or the requested part of it, when taken, and afterwards any change to coordinates, labels or membership on one side is never visible on the other. A copy without points has the same feature names and no points. Extracting classes, features, folds or samples likewise never alters the dataset they were taken from.',
 ['histories','inputs'],'all datasets, all copy operations, all later mutations on either side',
 'Tests compare sizes after a copy; mutation after copying is tested for one removal only.',
 [C+'Data.hpp'],[('deep copy of every point','Data.hpp: copy constructor, copy, classesCopy, copyZero')],
 ['both datasets after mutating one of them'])

p('P05','Saving a dataset and loading it back preserves it',
 'Writing a labelled dataset to a csv or data file and loading that file again yields the same number of points in the same order, the same dimension, every coordinate to within the printed precision (six significant digits), the same label for every point up to the documented class numbering, the same feature names for the data format, and the same number of points per class. Writing never changes the dataset, and saving the reloaded dataset reproduces the same content.',
 ['inputs'],'all datasets with finite coordinates of any magnitude, binary and multi-class integer labels, both writable formats',
 'Tests write and reload iris and compare sizes and class counts only, never a coordinate or a label, and only for values with one decimal.',
 [C+'Data.hpp',S+'Utils.cpp'],[('writers','Data.hpp: write'),('parsers and number conversion','Data.hpp: load_csv/load_data; Utils.cpp: stod helpers')],
 ['file content','reloaded points, labels, class counts'])

p('P06','Well-formed dataset files are read exactly as written',
 'Loading a well-formed csv, data, arff or plain-text point file yields one point per record, in file order, with every coordinate equal to the number in the file (including signs, decimals and exponents) and the label column mapped consistently: equal label texts get equal labels, different texts get different labels, integer label texts keep their number, and the class names list the texts as they appear. This holds for the label placed first or last as requested and with any legal amount of blanks around fields, blank lines or (arff) header and comment lines; loading a missing file or an unknown format reports failure.',
 ['inputs'],'all well-formed files of the supported formats, any number of records, columns, label texts and number spellings, label first or last',
 'Tests load seven fixed files and check sizes; no test compares a parsed coordinate or class name.',
 [C+'Data.hpp',S+'Utils.cpp'],[('per-format readers','Data.hpp: load_data, load_csv, load_arff, load_txt'),('label interning','Data.hpp: process_class'),('number parsing','Utils.cpp: stodn, is_number, atod, stoin, tokenize')],
 ['points, labels, classes, class names, feature names, dataset type'])

p('P07','No file content can crash or corrupt the dataset reader',
 'Loading a file with arbitrary content under any supported extension terminates without crashing, reading or writing outside its buffers, or exhausting memory out of proportion to the file. Whatever it returns, the resulting dataset is usable: its size matches its stored points, and every stored point has the dataset\'s dimension.',
 ['inputs','fault_sequences'],'all byte strings as file content, including truncated, ragged, non-numeric, empty and binary ones, for each supported extension and label position',
 'Only seven valid files are ever loaded by tests.',
 [C+'Data.hpp',S+'Utils.cpp'],[('per-format readers sizing rows from the first record','Data.hpp: load_*')],
 ['process outcome under address sanitizer','size(), dim(), points()'])

p('P08','Cross-validation folds partition the data and keep class proportions',
 'Splitting a dataset into k folds (once or repeated r times) gives k train/test pairs per repetition such that within a repetition the test parts are disjoint and together contain every assigned point exactly once, and each train part is exactly the points of the other folds, with coordinates and labels unchanged and no point in both parts of a pair. With stratification every point is assigned and each class is spread over the folds as evenly as possible (counts differ by at most one). The original dataset is untouched.',
 ['inputs','configurations'],'all datasets, all k from 2 to the dataset size, all seeds, stratified or not, identifiers kept or renumbered, any number of repetitions',
 'Tests use iris with 3 and 10 folds and check sizes only; overlap between train and test is never checked and k=2 never used.',
 [VA+'Validation.hpp',C+'Data.hpp'],[('fold assembly','Validation.hpp: kfoldsplit'),('partitioning','Data.hpp: splitSample')],
 ['train and test points of every pair'])

p('P09','Splits and class subsets lose, duplicate or relabel no point',
 "Partitioning a dataset into parts, splitting it by class and holding out one part of k for testing produce parts that are pairwise disjoint, contain only original points with unchanged coordinates and labels, and together contain every point (up to the remainder an unstratified equal partition leaves out). Each part's class counts describe its own points. Drawing a stratified sample of n points returns n existing points (exactly, when the classes divide evenly) in the original class proportions, distinct when drawn without replacement.",
 ['inputs','configurations'],'all datasets, all part counts, all seeds, stratified or not, with and without replacement',
 'Tests print one hold-out split and count the classes of one sample.',
 [C+'Data.hpp',VA+'Validation.hpp'],[('round-robin distribution','Data.hpp: splitSample'),('class grouping','Data.hpp: splitByClasses'),('sampling','Data.hpp: sampling'),('hold-out','Validation.hpp: partTrainTest')],
 ['points of all parts','class distribution of each part'])

p('P10','Cross-validation reports equal a recount of the predictions',
 'The error that k-fold and repeated k-fold validation report is the mean over the folds of the percentage of wrongly predicted test points, as obtained by training a fresh learner on each train part and predicting each test part; accuracy is 100 minus the error and both lie in [0,100]. Each test point is predicted exactly once per repetition, by a learner that was trained on exactly the other folds. Training and validating a learner never changes the caller\'s dataset.',
 ['inputs','configurations'],'all datasets, fold counts, repetition counts, seeds and deterministic learners',
 'Tests compare accuracies on iris with loose lower bounds.',
 [VA+'Validation.hpp'],[('fold loop and error counters','Validation.hpp: kfold, kkfold, accuracy')],
 ['validation report','calls received by an instrumented learner'])

p('P11','Confusion matrices and derived metrics agree with the predictions',
 'The confusion matrix of a classifier on a dataset has one row and column per class, the cell in the row of a true class and the column of a predicted class equals the number of points with that pair, and its total is the dataset size. The accuracy derived from it is the percentage on the diagonal, and accuracy, error, precision, sensitivity, specificity and F-score derived from the binary counts equal their definitions whenever the denominators are non-zero.',
 ['inputs'],'all datasets, class lists and prediction patterns',
 'Tests only require the accuracy of one matrix to exceed 88.',
 [VA+'Validation.hpp'],[('counting','Validation.hpp: generateConfusionMatrix'),('formulas','Validation.hpp: confusionMatrixAccuracy, metricsReport, classificationReport')],
 ['matrix cells and metric values'])

p('P12','Equal seeds give equal results',
 'Every operation that takes a seed (random vectors, shuffling, sampling, fold splitting, hold-out, dataset generators, oversampling, random subspaces, k-means, perceptron committees and bagging) gives the same result whenever it is called with the same seed and the same inputs, whatever random operations ran before it in the process. Reordering with a seed is a permutation of the points, and different seeds do not all give the same order.',
 ['histories','inputs'],'all seeds, all inputs, all histories of earlier random calls in the process',
 'Each test calls a seeded operation once per process; calling twice with the same seed is never compared.',
 [S+'Random.cpp',C+'Random.hpp',C+'Data.hpp',S+'Datasets.cpp',C+'Sampling.hpp'],[('global generator re-seeding','Random.cpp: init'),('local generators','Data.hpp: shuffle, sampling')],
 ['results of two calls with equal seeds separated by unrelated random calls'])

p('P13','Selecting, removing and inserting features picks exactly those columns',
 'Selecting features by name yields, for every point, exactly the named columns in ascending name order with the label, identity and names carried over; removing features by name leaves exactly the complement in its original order; building a dataset from another one and a list of feature names gives exactly those columns. A selection naming an absent feature and a removal that would leave no feature are refused and change nothing; a removal ignores absent names.',
 ['inputs','histories'],'all datasets, all feature subsets, chains of selections and removals with non-contiguous names',
 'Tests remove or select features 1 and 2 of iris only.',
 [C+'Data.hpp',C+'Point.hpp'],[('column filters by feature name','Data.hpp: selectFeatures, removeFeatures, insertFeatures')],
 ['coordinates, feature names, dimension'])

p('P14','Whole-dataset transforms touch every point and nothing else',
 'Shuffling only permutes the points; applying a function transforms every point exactly once; normalising with order p divides every point, extended by a constant feature, by its norm so each gets unit norm; joining a dataset of equal dimension appends its points after the existing ones; centring and scaling statistics aside, labels and class counts are those of the points. Reading a feature column or the labels returns them in point order.',
 ['inputs','histories'],'all datasets, functions, norm orders, seeds and pairs of joinable datasets',
 'Tests check a dimension after one normalisation and one inequality after one shuffle.',
 [C+'Data.hpp'],[('transform loops','Data.hpp: shuffle, apply, normalize, join, getFeature, getLabels')],
 ['points, labels and class counts after the transform'])

p('P15','Descriptive statistics equal their definitions',
 'The mean, variance and standard deviation of a vector or a feature, the covariance of two features, the total variance, the radius of a dataset and the distance between the class centres, with or without some features left out, equal the textbook formulas on every dataset: population form for vectors and for the total variance, sample form for single features; the radius is the largest distance from the mean, Euclidean for q=2 and by the largest absolute coordinate for q=1. They do not depend on the order of the points, and shifting all points by a constant leaves every spread and distance unchanged.',
 ['inputs'],'all finite datasets with at least two points, every feature, with and without excluded features',
 'Tests bound nine numbers on iris.',
 [C+'Statistics.hpp'],[('accumulation loops','Statistics.hpp')],['returned statistics'])

p('P16','Distance measures equal their formulas and behave as distances',
 'Every supplied distance between two vectors equals its published formula on the domain where the formula is defined. Every measure that is symmetric by definition gives the same value with its arguments exchanged, is never negative and is zero between a vector and itself; Euclidean, Manhattan, Chebyshev and Hassanat distances also satisfy the triangle inequality.',
 ['inputs'],'all pairs and triples of vectors in the domain of each measure, any dimension including 1',
 'No test computes a distance directly; only Euclidean and Hassanat are exercised through a classifier.',
 [C+'DistanceMetric.hpp'],[('one functor per measure','DistanceMetric.hpp')],['returned distances'])

p('P17','Kernel matrices are the kernel function on every pair of points',
 'The kernel matrix of a dataset is square with one row per point, symmetric for symmetric kernels, and each entry equals the kernel function (inner product, polynomial, Gaussian or user supplied) of the two points in order; Gaussian entries lie in (0,1] with ones on the diagonal, and quadratic forms with the matrix are non-negative for the built-in kernels with integer degrees. Asking again after the dataset, kernel type or parameter was replaced and recomputation requested reflects the new values; label-weighted matrices multiply each entry by the two labels, and feature-space norms equal the corresponding quadratic form.',
 ['inputs','histories'],'all datasets, kernel types and parameters, and sequences of recomputations',
 'Tests compare the library with itself on one data set with integer parameters.',
 [C+'Kernel.hpp'],[('matrix computation with caching','Kernel.hpp: compute, recompute, function, generateMatrixH, featureSpaceNorm')],['matrix entries, norms'])

p('P18','Pairwise distance matrices are complete for any number of threads',
 "The pairwise distance matrix of a dataset holds, for every pair of points (rows and columns are addressed by the points' identifiers), exactly the distance between those two points, in full or lower-triangular form, for any number of worker threads and any order of the points. Classifiers that use a precomputed matrix predict the same classes as without it.",
 ['schedules','inputs'],'all datasets including shuffled and re-sampled ones, both forms, 1 to many threads, all thread interleavings met',
 'No test builds a distance matrix.',
 [C+'DistanceMatrix.hpp',C+'ThreadPool.hpp',CL+'KNNClassifier.hpp'],[('row tasks submitted to the pool','DistanceMatrix.hpp: computeMatrix')],['matrix entries'])

p('P19','The thread pool runs every task exactly once and reports its outcome',
 'Every task given to the thread pool is executed exactly once, whatever the number of threads, the amount of work and the interleaving of submissions, pauses and resets; waiting for completion returns only after all tasks have finished. A parallel loop covers every index of its range exactly once for any bounds, and the value or exception a submitted task produces reaches exactly its own caller.',
 ['schedules','histories'],'all sequences of submit, loop, pause, resume, reset and wait with 1 to many threads, including empty and reversed ranges',
 'No test uses the thread pool directly.',
 [C+'ThreadPool.hpp'],[('queue mutex and counters','ThreadPool.hpp'),('block partition of loops','ThreadPool.hpp: parallelize_loop')],['per-task execution counters, futures'])

p('P20','Nearest-neighbour classification is a majority vote of the k nearest',
 'For any training data, distance measure, query and k not exceeding the data size, the predicted class has at least as many votes among some set of k nearest training points as any other class. With k = 1 and a measure that is zero between equal points only, every training point without a conflicting duplicate is predicted as itself, and the prediction does not depend on the order of training points when neither the k-th distance nor the vote is tied. Training data and queries are never modified.',
 ['inputs','configurations'],'all datasets, queries, k, distance measures, with and without a precomputed distance matrix',
 'Tests check accuracy on iris with k=3.',
 [CL+'KNNClassifier.hpp',C+'DistanceMatrix.hpp'],[('neighbour selection','KNNClassifier.hpp: evaluate'),('vote','KNNClassifier.hpp: evaluate')],['predicted class'])

p('P21','Nearest-neighbour regression averages the k nearest; errors are exact',
 'For any training data, query and k, the prediction equals the mean target of some set of k nearest training points (of all of them when there are fewer than k), hence lies between the smallest and largest target; with k = 1 a training point without duplicates is predicted exactly and with k at least the size the global mean is returned. Replacing the training data makes predictions follow the new data. The mean squared error of two equally long vectors is the average squared difference, zero exactly for identical vectors and independent of argument order.',
 ['inputs','configurations'],'all datasets, queries, k and distance measures',
 'Tests bound the error on one generated data set.',
 [RG+'KNNRegressor.hpp',RG+'Metrics.hpp'],[('neighbour ordering and mean','KNNRegressor.hpp: evaluate'),('error metric','Metrics.hpp: MSE')],['predicted value'])

p('P22','A linear learner that reports success separates its training data',
 'When a primal linear classifier (perceptron, fixed-margin perceptron for any norm, balanced perceptron, incremental-margin learner) reports that training succeeded, its predictions on all its training points equal their labels, a requested fixed margin is met by every point up to rounding (less the flexibility times the multiplier of the point, where a flexibility is set), and its stored weights and bias are the ones it predicts with. Without a margin the weights of a fresh fixed-margin learner are the sum of its labelled points times their multipliers, which count the updates times the learning rate. On linearly separable data and with a budget of updates above the perceptron convergence bound the perceptrons and the incremental-margin learner report success; on data with contradictory labels none ever does. Training again on other samples obeys the same rules. Prediction equals the sign of the weighted sum plus bias and rejects points of another dimension.',
 ['inputs','configurations'],'all binary data sets, separable with any margin or not, any dimension, learning rates, norms, margins and seeds',
 'Tests bound mean accuracies on iris, where a wrong success flag or a slightly wrong solution goes unnoticed.',
 [CL+'Perceptron.hpp',CL+'IMA.hpp',CL+'PrimalClassifier.hpp',C+'Solution.hpp'],[('mistake-driven loop and termination test','Perceptron.hpp, IMA.hpp: train'),('decision function','PrimalClassifier.hpp: evaluate')],['train() result, predictions, solution'])

p('P23','A dual learner decides by its kernel expansion and separates on success',
 "After training, a dual classifier's raw decision value for any point is the kernel expansion over its training points with its stored multipliers and labels (plus bias), and the class is its sign. When a dual perceptron, fixed-margin dual perceptron or dual incremental-margin learner reports success every training point is predicted with its own label and keeps a requested margin up to rounding, for every kernel; with the inner product kernel the derived weight vector gives the same decisions. The multipliers and weights a dual learner hands out are those of its solution: the weight vector is the sum of its labelled points times their multipliers, and the dual weight of a feature is the part of the squared norm that vanishes without it. Replacing the training samples makes later training use the new samples.",
 ['inputs','configurations'],'all binary data sets, kernels, kernel parameters, learning rates and margins',
 'Tests bound accuracies on iris.',
 [CL+'DualClassifier.hpp',CL+'Perceptron.hpp',CL+'IMA.hpp'],[('multiplier updates','Perceptron.hpp/IMA.hpp dual train'),('kernel expansion','DualClassifier.hpp: evaluate')],['train() result, predictions, multipliers'])

p('P24','The trained support vector machine satisfies its optimality conditions',
 'When training a support vector machine succeeds, all multipliers lie between zero and the penalty, their label-weighted sum is zero, and every training point satisfies the optimality conditions up to the tolerance of the algorithm: points with zero multiplier are outside the margin, interior ones on it. Decision values equal the kernel expansion minus the threshold, and on separable data with the inner-product kernel and a hard margin the geometric margin equals that of the maximum-margin hyperplane up to tolerance.',
 ['inputs','configurations'],'all binary data sets, kernels and parameters for which training reports success',
 'Tests bound accuracies on wine.',
 [CL+'SMO.hpp',CL+'DualClassifier.hpp','subprojects/ufjfmltk-classifier/src/int_dll.cpp'],[('pairwise optimisation and error cache','SMO.hpp: train, takeStep, examineExample')],['multipliers, bias, decision values'])

p('P25','Reported margins are honest and incremental-margin learning improves them',
 'The margin an incremental-margin learner reports is never larger than the distance its hyperplane really keeps to every training point, up to rounding, and never exceeds the largest separating margin of the data. A larger budget of updates never gives a smaller margin, and with a sufficient budget the primal form reaches at least a fraction of the largest margin that its number of updates guarantees.',
 ['inputs','configurations'],'all separable data sets with a known maximum margin, primal and dual form',
 'No test looks at a margin value.',
 [CL+'IMA.hpp',C+'Solution.hpp'],[('margin update loop','IMA.hpp: train')],['solution margin, weights, norm, bias'])

p('P26','Multi-class wrappers combine binary decisions by the stated rule',
 'One-versus-one trains binary learners for every pair of classes, each on exactly the points of its two classes, and predicts a class with the largest number of pairwise wins; one-versus-all trains one learner per class on all points with that class against the rest, and predicts a class with the largest decision value. The prediction is always one of the classes of the training data, for any number of classes and any labels, also after training again on data with other classes, and the training data is not altered.',
 ['inputs','configurations'],'all multi-class data sets, label values, base learners',
 'Tests bound accuracies on iris.',
 [CL+'OneVsOne.hpp',CL+'OneVsAll.hpp'],[('pair and rest data sets','OneVsOne.hpp/OneVsAll.hpp: train'),('voting','evaluate')],['predicted class, data sets given to the base learners'])

p('P27','k-means assigns every point once, to a nearest of its k centres',
 "k-means clustering of n points into k at most n clusters yields k centres of the right dimension and k clusters that together contain every point exactly once, with each point in the cluster of a nearest centre; predicting a point returns the index of a nearest centre. At convergence under the Euclidean distance every non-empty cluster's centre is the mean of its points, and the outcome is the same each time it is queried. Random initialisation starts from points of the data, all equally likely, and the spread-out initialisation never picks a point at distance zero from the centre picked before it while others remain.",
 ['inputs','configurations'],'all datasets, all k from 1 to n, both initialisations, all seeds, duplicate points, any identifiers',
 'The test prints clusters without asserting anything.',
 [CU+'KMeans.hpp',CU+'Clusterer.hpp'],[('assignment and update loop','KMeans.hpp: train, assign, compute_centers'),('initialisation','KMeans.hpp: random_init, kmeanspp')],['centers(), clusters(), evaluate()'])

p('P28','Ensembles predict by the stated vote of their trained members',
 "A bagging, voting, committee or boosting classifier always predicts one of the training classes, and the prediction maximises the (weighted) vote of its trained members: hard voting counts votes, soft voting adds member weights, boosting adds member importances (the multi-class logarithmic odds of the member's weighted error); votes for unknown classes do not count. Every member is trained, on data whose points all come from the training data, with the requested number of members; adding weight to a class's voters never makes that class lose. Copies of a voting classifier keep its members and weights.",
 ['inputs','configurations'],'all data sets, member learners, weights, ensemble sizes and seeds',
 'Tests bound accuracies on iris and wine.',
 [EN+'VotingClassifier.hpp',EN+'BaggingClassifier.hpp',EN+'AdaBoostClassifier.hpp',EN+'PerceptronCommittee.hpp',EN+'Ensemble.hpp'],[('vote accumulation','evaluate of each ensemble'),('member training','train of each ensemble')],['predicted class, training sets given to instrumented members'])

p('P29','Oversampling keeps all originals and interpolates within the minority class',
 'Oversampling a data set extends it: all original points stay unchanged and in place, and every synthetic point lies on the segment between a point that is oversampled and one of its k nearest neighbours of the same class at a non-zero distance, and carries that class. The basic variant oversamples every point of the smallest class, with one synthetic point per neighbour; the borderline variant oversamples only points outside the majority class at least half (m/2 rounded down), but not all, of whose m nearest neighbours belong to the majority class. The result returned is the extended data set and class counts describe it, for every distance measure.',
 ['inputs','configurations'],'all imbalanced binary data sets, neighbour counts, ratios and seeds',
 'Tests compare the final size on iris only.',
 [C+'Sampling.hpp'],[('neighbour search and interpolation','Sampling.hpp: SMOTE, BorderlineSMOTEOne')],['points and labels of the result'])

p('P30','Generated data sets have the requested shape, classes and geometry',
 'A generated data set has exactly the requested number of points, dimension and classes: blobs have the requested number of points per centre, each near the centre of its own class, and the reported centres lie inside the requested range; regression targets equal the reported linear model plus noise of the requested mean and deviation (exactly the model without noise); spiral points lie on the unit-scaled curve of their class, displaced by at most the requested noise in each coordinate, with the two classes equally sized. Class counts, labels and feature names of the result agree with its points.',
 ['inputs','configurations'],'all sizes, dimensions, class counts, ranges, noise levels and seeds',
 'Tests check sizes for a handful of fixed arguments.',
 [S+'Datasets.cpp',C+'Datasets.hpp'],[('generators','Datasets.cpp')],['generated points, labels, reported centres/weights'])

p('P31','Linear regression predicts linearly and approaches consistent models',
 'A linear regressor predicts exactly the weighted sum of the coordinates plus the bias of its reported solution, and training starts from the solution it was given, or from zero. Every training step moves weights and bias by the learning rate times the error of the current point. Hence on data that follow a linear model exactly, with rate times (squared length + 1) below 2 for every point, the distance of the solution to that model never grows with more iterations, and with a large budget the predictions converge to the targets. The budget of iterations is respected; training ends before it only when the training cost changes by no more than the tolerance from one iteration to the next. The data are not altered.',
 ['inputs','configurations'],'all regression data sets, stable learning rates, budgets and starting solutions',
 'Tests bound the error on two generated data sets.',
 [RG+'LMS.hpp',RG+'PrimalRegressor.hpp'],[('gradient updates','LMS.hpp: train'),('prediction','PrimalRegressor.hpp: evaluate')],['predictions, solution'])

p('P32','Feature selectors return exactly the best columns of the original data',
 'Score-based feature selection (Fisher, Golub) removes one feature at a time, training the given learner on what remains, and returns the original points restricted to the requested number of features, or to the last features on which training succeeded; what is kept are always the features with the highest scores by the published formula (up to ties; a feature with equal class means scores zero). Every kept coordinate, label, feature name and the point and feature order are those of the input. The input data set is unchanged, and the target dimension may be given at construction or set later.',
 ['inputs','configurations'],'all binary data sets with more than one point per class, all target dimensions',
 'Tests check the final dimension on one generated data set.',
 [FS+'Fisher.hpp',FS+'Golub.hpp'],[('score and removal loop','Fisher.hpp/Golub.hpp: selectFeatures')],['selected dataset'])

p('P33','Recursive elimination removes the lightest features of its learner',
 'Recursive feature elimination trains its learner on all points, then repeatedly removes the requested number (the jump) of features with the smallest absolute weights and trains on the rest, until the requested dimension is reached, training fails, or the cross-validated error (averaged over repetitions) exceeds the initial one by more than the limit. It returns the input points restricted to the features of the last successful training, with coordinates, labels, names and order unchanged; only an invalid target dimension gives an empty result. Learners in primal form start each training from the weights of the remaining features. Selecting again with the same object gives the result of the same rule, and the input is unchanged.',
 ['inputs','configurations'],'all binary data sets, feature names, target dimensions, jump sizes, cross-validation settings and learners',
 'Tests check final dimensions on two data sets.',
 [FS+'RFE.hpp',FS+'FeatureSelection.hpp'],[('weight-ordered elimination','RFE.hpp: selectFeatures')],['selected dataset'])

p('P34','Text and number conversions are exact inverses where both exist',
 'Converting an integer (-(2^31-1) to 2^31-1) to text and back gives the same integer, converting a double to text and back gives a value within 1e-8 relative or absolute error, and text is recognised as a number exactly when it is a decimal numeral with optional sign and exponent. Splitting a line at a separator yields the non-empty fields between separators in order, and trimming removes leading and trailing blanks only.',
 ['inputs'],'all integers, all finite doubles, all texts and separators',
 'Tests convert seven constants.',
 [S+'Utils.cpp',C+'Utils.hpp'],[('conversion helpers','Utils.cpp')],['returned strings and numbers'])

p('P35','Plot data and scripts describe the data set; temporary files are cleaned up',
 "For every data set, plotting writes, per class, exactly that class's points in order (for regression, every point with its target), and the script sent to the plotter plots each class's file once, by ascending label, with its own class title and the requested columns, within axis ranges that contain all points, with the requested title, labels, terminal or output file; lines and planes drawn are the decision boundary, the margins or the regression function of the given solution, and a decision surface holds the learner's prediction at every point of a grid over the ranges. When the plotting object goes away its temporary folder is gone (or kept, if asked to) and no other file or folder was touched, whatever plots and data set changes came before.",
 ['inputs','histories'],'all labelled data sets, class names, feature choices and sequences of plots and data set changes',
 'Tests call plot functions without checking files or scripts.',
 [VI+'Visualization.hpp'],[('temporary file creation and removal','Visualization.hpp: createTempFiles, removeTempFiles'),('label ordering','Visualization.hpp: sortLabels')],['files in a scratch folder, returned script'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
p('P36','Feature subspaces are valid, free of repeats and chosen as stated',
 'Diverse subspace selection returns the requested number of subspaces, each with the requested number of different features of the data. Taking turns, every subspace receives a feature it does not have yet that maximises alpha times its correlation with the labels plus (1 - alpha) times its diversity, the mean of the share of subspaces without it and of one minus the largest share of features the subspace has in common with another; a constant feature has correlation zero. The result depends on the data passed, not on earlier selections. Random subspaces consist of the requested share of the features, rounded up, without repeats, and every feature is drawn sooner or later.',
 ['inputs','configurations','histories'],'all data sets, subspace counts and sizes, weights alpha, shares and seeds',
 'No test selects subspaces.',
 [C+'Sampling.hpp',C+'Statistics.hpp'],[('greedy selection','Sampling.hpp: DSM'),('random draws','Sampling.hpp: RSM')],['returned feature indices, diversity and correlation measures'])

p('P37','Copies of a learner are configured like it and independent of it',
 'A copy of a learner, made by construction or assignment, has the settings, counters and solution of the original and predicts what the original predicts; trained on the same data both become the same learner. Whatever is done to a copy - training it on other samples, changing its settings, kernel, norm or solution, giving it other samples, destroying it - the original and every other copy keep their predictions, weights, multipliers, margin and settings, and train as a learner of which no copy was ever made. It holds for every classifier, regressor and clusterer, for the multiclass wrappers and for ensembles built from learners given by value, which are what the wrappers, ensembles and validation procedures copy; samples are shared between copies by design.',
 ['inputs','histories','configurations'],'all learners, settings, data sets and interleavings of operations on a learner and its copies',
 'Tests copy freshly configured learners only and never look at the original afterwards.',
 [C+'Learner.hpp',CL+'Classifier.hpp',CL+'DualClassifier.hpp',CL+'PrimalClassifier.hpp',CL+'SMO.hpp',CL+'OneVsAll.hpp',CL+'OneVsOne.hpp',EN+'Ensemble.hpp'],[('base copies','Learner.hpp, Classifier.hpp, PrimalClassifier.hpp: copy constructors'),('kernels of copies','DualClassifier.hpp, SMO.hpp: copy constructors'),('members of copies','Ensemble.hpp: copyLearners; OneVsAll.hpp, OneVsOne.hpp: initLearners')],['predictions, solutions, settings and training results of a learner, its twin and its copies'])

with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
