N='Random search over generated inputs with shrinking; no completeness claim. Trusts the oracle in harness/%s and the compiler; library code is compiled from the working tree with AddressSanitizer.'
def t(h,s): return (s, N%h)
TECH={
'P01':t('p01*.cpp','random expression trees over the supported operators against scalar evaluation per coordinate'),
'P02':t('p02.cpp','generated vectors against reference reductions and norms, metamorphic scaling'),
'P03':t('p03.cpp','stateful model-based edit histories against a plain list'),
'P04':t('p04.cpp','stateful copy-then-mutate histories on both sides against snapshots'),
'P05':t('p05.cpp','write/load round trip and second-generation round trip over generated datasets'),
'P06':t('p06.cpp','generated well-formed files rendered from a model, loaded and compared with it'),
'P07':t('p07.cpp','structured and byte-level file fuzzing under AddressSanitizer with a usability invariant (libFuzzer in the thorough tier)'),
'P08':t('p08.cpp','generated datasets and fold settings, partition and stratification invariants over tagged points'),
'P09':t('p09.cpp','generated datasets and split settings, partition invariants over tagged points'),
'P10':t('p10.cpp','instrumented learners record what they are trained and asked; recount against the report'),
'P11':t('p11.cpp','generated prediction patterns, recount of the confusion matrix and the metric definitions'),
'P13':t('p13.cpp','generated datasets and feature lists against a column-list model'),
'P14':t('p14.cpp','stateful dataset transformations against a point-list model and exact algebraic relations'),
'P15':t('p15.cpp','generated datasets against direct definitions of the statistics'),
'P16':t('p16.cpp','generated vector pairs against published formulas and metric axioms'),
'P17':t('p17.cpp','generated datasets and kernels against element-wise definitions, symmetry and quadratic forms'),
'P18':t('p18.cpp','generated datasets and thread timings, matrix against direct distance evaluation; precomputed against direct learners'),
'P19':t('p19.cpp','random histories of pool operations under ThreadSanitizer with per-task execution counters'),
'P34':t('p34.cpp','generated numbers and texts, round trips and a reference numeral grammar'),
'P20':t('p20.cpp','generated training sets and queries against a vote over the sorted reference distances, any valid tie-breaking accepted'),
'P21':t('p21.cpp','generated data against reference k-nearest averages and error formulas'),
'P22':t('p22.cpp','generated binary problems (separable with known margin, random, contradictory) against the decision rule, the separation claim and convergence bounds'),
'P23':t('p23.cpp','generated binary problems and kernels against the kernel expansion, the stated margins and the separation claim'),
'P24':t('p24.cpp','generated binary problems and kernels against the Karush-Kuhn-Tucker conditions of the soft-margin problem and known maximum margins'),
'P25':t('p25.cpp','generated separable data with exactly known largest margin, margins recomputed from the hyperplane, and metamorphic comparison of training budgets'),
'P26':t('p26.cpp','instrumented base learners recording their training sets and models, and differential comparison with separately trained binary learners'),
'P27':t('p27.cpp','model-based property testing of k-means: random point sets, k, seeds and initialisations; the outcome must be a partition by nearest center with each center the mean of its points at convergence, stable under repeated queries and retraining; k-means++ draws checked on two-place data'),
'P30':t('p30.cpp','generated arguments for every data set generator; the result is checked against the stated shape, bookkeeping, class sizes and the geometry (distance to the reported centers, position on the noise-free spiral, residual of the reported linear model, sample moments within 7 standard errors)'),
'P29':t('p29.cpp','random imbalanced data sets, neighbor counts, metrics and seeds; an independent recomputation of minority, danger and neighbor sets gives the slots (base point, neighbor rank), and the synthetic points must match them one to one (bipartite matching) on the connecting segments, originals unchanged'),
'P28':t('p28.cpp','instrumented members with known predictions inside real ensembles, plus real members read back; predictions are compared with the recomputed (weighted) vote, boosting importances with an independent SAMME model, member training sets with the training data; metamorphic weight increase'),
'P12':t('p12.cpp','metamorphic testing over histories: every seeded operation is run twice with the same seed and inputs between generated unrelated random calls and must give bit-identical results; permutation, range and not-all-equal-over-seeds checks on top'),
'P31':t('p31.cpp','step-by-step reference model of the updates, contraction towards the generating model, and convergence on generated consistent data'),
'P32':t('p32.cpp','instrumented learner and reference scores; every elimination level checked as a projection of the input'),
'P33':t('p33.cpp','model-based: instrumented learner with scripted weights, failures and errors against a reference elimination; recorded real learners'),
'P35':t('p35.cpp','stand-in plotter records the scripts; files, scripts and folder snapshots checked against the data over generated plot sequences'),
'P36':t('p36.cpp','stateful and per-step greedy reference model of subspace selection on generated data; set invariants of random subspaces'),
'P37':t('p37.cpp','differential property testing of learners against a never-copied twin over random histories of operations on copies (copy construction, assignment, training, reconfiguration, destruction)'),
}
