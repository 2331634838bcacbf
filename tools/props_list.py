# id, title, statement, over, text, why, files, mechanism, note
_I = ["inputs", "configurations"]
prop("C01", "Splits by domain partition the rows",
     "Splitting arrays into source and target, or per domain, is an exact partition: every row appears in exactly one part, the part chosen by its own domain label (a label >= 0 is source, < 0 is target), rows keep their relative order, and all arrays passed together (X, y, domains, weights) stay aligned row by row. Source index extraction agrees with that rule, and inconsistent array lengths are rejected rather than silently misaligned.",
     _I, "every assignment of domain labels (positive, zero, negative, any order, one side empty) and every array content of bounded length",
     "tests use one fixed block-ordered dataset; interleavings, label 0, and empty sides are never sampled",
     ["skada/utils.py"], [("source_target_split, per_domain_split, extract_source_indices, extract_domains_indices", "skada/utils.py")])
prop("C02", "Merging source and target is the inverse of splitting",
     "Merging source and target parts back with the sample domains restores, at every row, exactly the value that row had before the split, for any interleaving of domains, any number of arrays, any feature width and any pair of dtypes, with no value lost or converted to another value. Missing halves, mismatched lengths and mismatched feature shapes are rejected with an error.",
     _I, "every interleaving of domain labels and every content and dtype pair of bounded size",
     "tests merge a couple of fixed arrays of equal dtype",
     ["skada/utils.py"], [("source_target_merge", "skada/utils.py")])
prop("C03", "Input validation enforces the domain-label contract",
     "Validation of (X, y, sample_domain) returns the data unchanged, row aligned; it honours every restriction flag (allow_source, allow_target, allow_multi_source, allow_multi_target, common-space and masking flags) by raising ValueError exactly when the labels violate it, and rejects label arrays of the wrong length. When labels are omitted they are derived as documented: from the masking of y when y is masked, otherwise all-target for X-only data.",
     _I, "every assignment of domain labels and y values (masked or not) of bounded length, every combination of flags",
     "tests exercise a few flag values on one dataset",
     ["skada/utils.py", "skada/_utils.py"], [("check_X_y_domain, check_X_domain", "skada/utils.py"), ("_check_y_masking, _find_y_type", "skada/_utils.py")])
prop("C05", "Target labels never reach an estimator unless asked for",
     "With the default settings, what a pipeline learns does not depend on the label values of target rows: labels of negative domains are masked before any step sees them, and a final estimator that does not take the domain is fitted on exactly the labelled source rows with their own labels and weights. The caller's label array is never modified.",
     _I, "every domain assignment, label assignment and weights of bounded size, estimators with and without domain support, classification and regression labels",
     "tests check accuracy on one dataset; leakage does not change the outcome of a smoke test",
     ["skada/base.py", "skada/_utils.py"], [("_auto_mask_target_labels, _remove_masked", "skada/base.py"), ("_remove_masked, _apply_domain_masks", "skada/_utils.py")])
prop("C06", "PerDomain fits and applies one estimator per domain",
     "A per-domain selector fits one clone per distinct domain label on exactly the rows (features, labels, weights) of that domain, and at transform or predict time every row is handled by the estimator of its own domain, with results returned in the original row order and without loss of values. A domain not seen at fit time is rejected.",
     _I, "every domain assignment (several sources and targets, interleaved), features, labels and weights of bounded size",
     "tests use two block-ordered domains and compare aggregates",
     ["skada/base.py", "skada/_utils.py"], [("PerDomain._fit, PerDomain._route_to_estimator", "skada/base.py"), ("_merge_domain_outputs", "skada/_utils.py")])
prop("C07", "Source/target selectors fit on their own side only",
     "SelectSource fits on exactly the source rows and SelectTarget on exactly the target rows (features, labels, weights aligned, in order); SelectSourceTarget fits its source estimator on source rows and its target estimator on target rows, and applies to each row the estimator of that row's side, results in row order. SelectSourceTarget requires both sides at fit time, and requests that make no sense (masking target labels, mixing transformer with predictor) are rejected.",
     _I, "every domain assignment, features, labels and weights of bounded size, transformers and predictors, with and without fit_transform",
     "tests use block-ordered data and check means only",
     ["skada/base.py"], [("SelectSource, SelectTarget, SelectSourceTarget", "skada/base.py")])

prop("C08", "A DA pipeline is the composition of its steps, and parameters reach exactly the steps that ask",
     "make_da_pipeline turns any mix of estimators, selectors, named tuples and nested pipelines into an ordered composition of selector-wrapped steps with unique names (user names kept, nested pipelines flattened in place); fitting runs each step once, in order, on the previous step's output; predicting applies the same composition. Sample weights or labels emitted by an adapter reach the later steps aligned row by row; a step gets the weights only when it asks for them, and a weight nobody decided about is an error instead of being dropped. Unknown default selectors are rejected.",
     _I, "every mix of step kinds up to 3 steps, every domain assignment, features, labels and weights of bounded size, every routing request",
     "tests build a handful of pipelines and look at their step names",
     ["skada/_pipeline.py", "skada/base.py"], [("make_da_pipeline, _wrap_with_selectors", "skada/_pipeline.py"), ("BaseSelector routing, BaseAdapter.fit_transform", "skada/base.py")])
prop("C09", "Domain-aware shuffle splits are valid and respect the domains",
     "SourceTargetShuffleSplit, DomainShuffleSplit and StratifiedDomainShuffleSplit yield exactly n_splits pairs of disjoint, duplicate-free row index sets; source and target are each split in the requested proportions; under-sampling keeps exactly the requested share of every domain; stratified splits keep each (label, domain) group's share within one row; impossible requests raise ValueError. This holds for whatever the random generator draws.",
     ["inputs", "configurations", "randomness"], "every assignment of domain labels and labels of bounded length, every outcome of the random generator, a set of sizes",
     "tests fix the seed and block-ordered domains and check only counts",
     ["skada/model_selection.py"], [("SourceTargetShuffleSplit, DomainShuffleSplit, StratifiedDomainShuffleSplit", "skada/model_selection.py")])
prop("C10", "Leave-one-domain-out splits never mix the left-out domain with the sources",
     "LeaveOneDomainOut yields one split per left-out domain (up to max_n_splits), never the same domain twice; rows of the left-out domain appear only in their target copy, all source rows come from other domains, train and test are disjoint and have the requested share on each side, for whatever the random generator draws.",
     ["inputs", "configurations", "randomness"], "every assignment of domain labels (n<=4) or fixed interleavings of 2-3 domains, every draw of the random generator",
     "tests run a seeded split on one packed dataset",
     ["skada/model_selection.py"], [("LeaveOneDomainOut", "skada/model_selection.py")])
prop("C11", "Packing keeps every sample of the requested domains and hides target labels",
     "DomainAwareDataset.pack returns exactly the samples of the requested domains, sources first, in order, each with its own label and with its domain's number as domain label (positive as source, negative as target); with masking on every target label (any numeric type) is the mask, without it labels are unchanged; stored data is never modified; every return type holds the same arrays; names map to the labels in use and every added or merged domain stays reachable under a distinct name, labelled or not.",
     _I, "every feature/label value and numeric label type, domain sizes 1-2, every choice of role (source, target, both, unused) and order of 2-3 domains",
     "tests pack one small float/int dataset",
     ["skada/datasets/_base.py"], [("DomainAwareDataset.pack, add_domain, merge, select_domain", "skada/datasets/_base.py")],
     "String labels have no default mask and are outside the claim.")
prop("C12", "Leave-one-domain-out packing exposes every domain twice without leaking labels",
     "pack_lodo returns every domain once as labelled source and once as masked target; training a default pipeline on the train part of a leave-one-domain-out split of it only ever uses labelled rows of the other domains. The requested return type is honoured.",
     ["inputs", "configurations", "randomness"], "every feature/label value, domain sizes 1-3, 2-3 domains, every draw of the splitter",
     "tests check shapes on one dataset",
     ["skada/datasets/_base.py", "skada/model_selection.py"], [("DomainAwareDataset.pack_lodo", "skada/datasets/_base.py"), ("LeaveOneDomainOut", "skada/model_selection.py")])

prop("C13", "Reweighting adapters give every source row its own importance weight",
     "Density, Gaussian, Discriminator and nearest-neighbour reweighting pass the features through unchanged and emit one weight per row, in row order whatever the interleaving of the domains: zero on target rows (density, Gaussian, discriminator) and, on source rows, the documented importance: the ratio of the fitted target and source densities (normalised for the density reweighter), the ratio of Gaussian densities with the moments of each side, the discriminator's odds of target against source, or the number of target rows whose nearest source rows include it (plus one with Laplace smoothing). The weights reach the estimator's fit aligned with the rows.",
     _I, "every domain assignment and feature value of bounded size, arbitrary density and discriminator outputs",
     "tests check that a pipeline runs and the accuracy on one block-ordered dataset",
     ["skada/_reweight.py"], [("DensityReweightAdapter, GaussianReweightAdapter, DiscriminatorReweightAdapter, NearestNeighborReweightAdapter", "skada/_reweight.py")],
     "The weight a target row gets from NearestNeighborReweight is not claimed.")
prop("C14", "KLIEP weights are a non-negative kernel expansion over target rows with mean one on the source",
     "KLIEPReweightAdapter's weights are w(x) = sum_j alpha_j k(x, c_j) with alpha >= 0 and centres taken from the target rows, with mean one over the fitted source rows; among several kernel widths the one with the largest held-out target likelihood is kept; refitting the same object gives what a fresh object fitted on the new data gives, and constructor parameters are left as given.",
     _I, "every feature value and domain assignment of bounded size and every number of ascent steps up to the bound",
     "tests check shapes and accuracy on one dataset, never the constraints nor a refit",
     ["skada/_reweight.py"], [("KLIEPReweightAdapter", "skada/_reweight.py")])
prop("C15", "KMM and MMDTarS solve the program they state and give each source row its own weight",
     "KMMReweightAdapter and MMDTarSReweightAdapter hand the solver the kernel mean-matching objective (with its gradient) over source and target rows and the documented constraints (weights between 0 and B, mean within eps of one), place the solution's entries on the source rows in row order with zero on target rows, and weight rows not seen at fit time by the documented formula. With the default solver the emitted weights satisfy the constraints.",
     _I, "every feature value, label and domain assignment of bounded size, an arbitrary solution returned by the external solver, every point of the feasible set",
     "tests check shapes and accuracy on one dataset; the matrices and the constraint set are never compared with the definition",
     ["skada/_reweight.py", "skada/utils.py"], [("KMMReweightAdapter, MMDTarSReweightAdapter", "skada/_reweight.py")],
     "The default frank-wolfe solver of KMM ignores the upper bound B (known finding).")

prop("C16", "Mapping adapters move source rows only, in place, with a map fitted on the right rows",
     "Optimal-transport, linear Monge, multi-domain Monge and CORAL mapping adapters fit their map on the source and target rows (each side in row order, source labels to the class-regularised ones) with the parameters announced by the constructor, and at transform time replace every source row, where it stands, by its image and leave target rows as they are (CORAL removes each side's mean first and carries the source covariance onto the target's; the multi-domain Monge map applies to each source domain the map of that domain). Fitted maps are reused for new data.",
     _I, "every domain assignment and feature value of bounded size, an arbitrary transport map, every interleaving of up to three domains",
     "tests check shapes and accuracy on one block-ordered dataset",
     ["skada/_mapping.py"], [("BaseOTMappingAdapter and subclasses, MultiLinearMongeAlignmentAdapter, CORALAdapter", "skada/_mapping.py")],
     "The transport plans of POT are arbitrary maps here.")
prop("C17", "Subspace adapters embed every row where it stands with the projection they fit",
     "SubspaceAlignment, TransferComponentAnalysis, TransferJointMatching and TransferSubspaceLearning return, at every row, the embedding of that row's features whatever the interleaving of source and target; the projection is the one the method defines: principal axes of each side aligned on the target's, leading generalised eigenvectors of the TCA problem for the centred kernel with the MMD matrix of the two sides, alternating for TJM with row weights on source rows only. At most n_components (given or derived) columns come out.",
     _I, "every domain assignment and feature value of bounded size, arbitrary principal axes and eigenvectors, linear and RBF kernels",
     "tests check output shapes and accuracy with block-ordered domains",
     ["skada/_subspace.py"], [("SubspaceAlignmentAdapter, TransferComponentAnalysisAdapter, TransferJointMatchingAdapter, TransferSubspaceLearningAdapter", "skada/_subspace.py")],
     "The objective TransferSubspaceLearning minimises is C31.")
prop("C18", "The quadratic-program solvers solve the program they are given",
     "qp_solve hands the solver exactly the objective 1/2 x'Qx + c'x, its gradient and the given equality, inequality and box constraints, returns the solver's point and warns when the solver reports failure; frank_wolfe stays feasible at every step, moves towards a minimiser of the linearised objective over the constraint set, and never increases the objective at its line search; inconsistent inputs are rejected with an error.",
     _I, "every problem datum of bounded size (n<=3, up to two rows per constraint block), every combination of given and omitted constraints, every starting point and step count up to the bound",
     "tests solve a couple of fixed problems",
     ["skada/utils.py"], [("qp_solve, frank_wolfe", "skada/utils.py")],
     "A single inequality row given to the frank-wolfe solver is treated as an equality (known finding).")
prop("C19", "Scorers evaluate what they announce and never look at target labels",
     "SupervisedScorer scores on the target rows with the given target labels; ImportanceWeightedScorer scores the source rows with the target/source density ratio as weights; PredictionEntropy, SoftNeighborhoodDensity and MaNo depend on target features only and equal their published formulas; DeepEmbeddedValidation is the control-variate estimate of the weighted source validation loss; CircularValidation retrains on the pseudo-labelled target and scores back on the source rows; MixVal mixes target rows only. None of the unsupervised scorers depends on the labels of target rows, and the caller's arrays and predictions are left as they were.",
     _I, "every domain assignment, feature, label and prediction of bounded size, arbitrary probabilities and densities, every draw of the random generator",
     "tests check that cross_validate returns finite scores on one dataset",
     ["skada/metrics.py"], [("SupervisedScorer ... MaNoScorer", "skada/metrics.py")],
     "The default loss of DeepEmbeddedValidation is claimed for labels 0..K-1 only.")

prop("C20", "Subsamplers keep an aligned subset of the announced size",
     "Subsampler, DomainSubsampler and StratifiedDomainSubsampler return, at fit time, a duplicate-free subset of the rows of the announced size (an integer number or a fraction of the rows), features and labels still belonging together; the domain-aware ones keep each domain's (and each class's within a domain) share within one row, and raise ValueError when every group cannot be kept; everything passes through when at least as many rows as given are requested (or train_size=1.0). The caller's arrays are not modified, transform leaves new data unchanged, and within a pipeline the later steps receive the labels and domain labels of the kept rows.",
     ["inputs", "configurations", "randomness"], "every assignment of domain and class labels of bounded size, every requested size, every draw of the random generator",
     "tests run seeded subsamplers on one dataset and check the shape",
     ["skada/transformers.py"], [("Subsampler, DomainSubsampler, StratifiedDomainSubsampler", "skada/transformers.py")],
     "User sample weights together with a subsampler in a pipeline are outside the claim.")
prop("C21", "Gradual adaptation trains on interpolated pairs of the largest couplings, step by step",
     "GradualEstimator plans the transport from the source rows to the target rows, keeps exactly the announced number of pairs with the largest coupling (or each row's and column's leader with advanced sampling), and at step t trains a fresh copy of its base estimator on the pairs' interpolations ((N-t)/N source + t/N target) labelled by the previous step's classifier; the last classifier makes the predictions, the intermediate ones are kept on request, and constructor parameters are left unmodified.",
     _I, "every feature value, label and transport plan of bounded size, ties included, every interleaving of source and target rows",
     "tests check that the estimator runs and scores above a threshold on one dataset",
     ["skada/_gradual_da.py"], [("GradualEstimator", "skada/_gradual_da.py")],
     "The plan itself is POT's and arbitrary here; independence of the target labels passed on a direct call (outside a pipeline) is not claimed.")
prop("C22", "DASVM exchanges labelled source rows for pseudo-labelled target rows as announced",
     "DASVMClassifier starts from a classifier fitted on the labelled source rows; at each round it removes up to k source rows of each side of the decision function (the most extreme ones) and adds up to k target rows of each side among those inside the margin, pseudo-labelled by the current classifier, refits a fresh copy on exactly the remaining source rows and added target rows, and takes back target rows whose pseudo-label changed; once no target row is left in the margin or max_iter is reached, a last fresh copy is fitted on all target rows with their pseudo-labels and makes the predictions, decisions, probabilities and score. Rows keep their features and labels, kept classifiers and indices are those of each round, and the caller's labels and base estimator are left unmodified.",
     _I, "every decision value given by the classifiers at every round (arbitrary reals), every domain assignment of bounded size, k and max_iter up to the bound",
     "tests check that the estimator runs on one dataset",
     ["skada/_self_labeling.py"], [("DASVMClassifier", "skada/_self_labeling.py")],
     "Binary problems only.")
prop("C23", "OT label propagation gives every target row the label its transport mass carries",
     "OTLabelPropAdapter and JCPOTLabelPropAdapter give every target row, where it stands, the class of largest transported source mass (the plan-weighted mean of the source labels for regression) and mask every source row, features passed through; plans are fitted on the source and target rows in row order (for JCPOT per source domain) with the parameters announced by the constructor, and the classes put out are those the labels use. The estimator is trained on these labels only.",
     _I, "every domain assignment, label and feature of bounded size, arbitrary transport plans, several interleaved source and target domains",
     "tests check that a pipeline runs on one block-ordered dataset",
     ["skada/_ot.py"], [("OTLabelPropAdapter, OTLabelProp, JCPOTLabelPropAdapter, JCPOTLabelProp", "skada/_ot.py")],
     "JCPOT is claimed where every source domain has rows of every class.")
prop("C24", "JDOT alternates between the plan and the predictor of its stated objective",
     "The JDOT solvers alternate between a transport plan for the cost alpha * feature distance + label loss of the current predictor (uniform or given sample weights on each side) and a predictor refitted on target rows with the labels (regression) or class weights (classification) the plan carries, until the announced tolerance or number of iterations; the cost matrices equal their definition for squared, log and hinge losses, the final plan and predictor belong together, and JDOTRegressor and JDOTClassifier predict, score and give probabilities by the predictor trained on the target, leaving parameters unmodified and never reading target labels.",
     _I, "every feature, label, weight and prediction of bounded size, arbitrary transport plans and predictors, every interleaving of source and target rows",
     "tests check that fit and predict run on one dataset",
     ["skada/_ot.py"], [("solve_jdot_regression, solve_jdot_classification, JDOTRegressor, JDOTClassifier, get_jdot_class_cost_matrix, get_tgt_loss_jdot_class", "skada/_ot.py")],
     "The plan is POT's and arbitrary here.")
prop("C29", "Synthetic dataset generators deliver the announced sizes, labels and shift",
     "For every draw of their generator, make_shifted_blobs, make_shifted_datasets, make_dataset_from_moons_distribution and make_variable_frequency_dataset return the announced number of rows and labels per domain (source and target told apart by the sign of sample_domain, target labels included), a target related to the source distribution exactly as requested (translated; rescaled; a duplicate-free subset of fresh draws with the announced class share or kernel probabilities; mirrored; at the requested positions of the moons; in the requested frequency bands), noise of the requested scale, standard scores on request, regression labels equal to the scaled density at the row, and the same data whether packed or returned as a dataset. All randomness comes from random_state (an int, a RandomState instance or None).",
     ["inputs", "randomness", "configurations"], "every draw, every shift, noise scale, label kind and parameter value, for small numbers of samples",
     "tests check output shapes for one seed",
     ["skada/datasets/_samples_generator.py"], [("make_* generators", "skada/datasets/_samples_generator.py")],
     "choice() without replacement is represented by an arbitrary start and direction; scikit-learn's make_blobs and scipy's filters are arbitrary functions.")
prop("C25", "The deep dataset keeps every sample's features, label, domain, index and weight together",
     "DeepDADataset built from any accepted form (arrays, tensors, dictionaries, data frames, other datasets, positional) holds exactly the given rows in order with their label, domain and sample weight (unlabelled rows marked by the mask value, missing domains defaulted as announced), each with its index within its domain; items, as_dict and as_arrays return the fields of one row. select, select_source/target/labels/domain, merge (in place or not), add_weights and remove_weights return exactly the rows asked for with all their fields, leave the given data unmodified, and fields of inconsistent lengths are refused. Packing domains as tensors or as a DeepDADataset gives the rows of the array packing, sources positive, targets negative and masked.",
     _I, "every label, domain, feature and weight of bounded size, every accepted representation and selection predicate",
     "tests build a few fixed datasets",
     ["skada/deep/base.py", "skada/datasets/_base.py"], [("DeepDADataset", "skada/deep/base.py"), ("DomainAwareDataset.pack", "skada/datasets/_base.py")],
     "Default float type double; GPUs outside.")
prop("C26", "Balanced loaders give batches of as many source as target rows, using every sample evenly",
     "For every random permutation, DomainBalancedSampler alternates source and target rows, with the announced number of complete batches per epoch (for max_samples 'min', 'max', 'source', 'target' or a number), each side being sequences of complete passes over its rows (no row twice before every row of that side was used once), and the source-only and target-only samplers give each row of their side at most once per epoch. The loaders' batches are full, hold as many source as target rows (or the requested side only), and every item is a row of the dataset with its own label, domain, index and weight.",
     ["inputs", "randomness", "configurations"], "every shuffle torch can draw, every domain assignment, each max_samples option, for small datasets and batch sizes, two consecutive epochs",
     "tests count batches of one fixed dataset",
     ["skada/deep/base.py"], [("DomainBalancedSampler, DomainOnlySampler, DomainBalancedDataLoader, DomainOnlyDataLoader", "skada/deep/base.py")],
     "Worker processes of torch loaders are outside.")
prop("C27", "A domain aware network trains on the announced rows and loss and predicts the requested rows in order",
     "In every training step of DomainAwareNet, predictions, features, domain predictions, labels, weights and indices of one row stay together: source rows (and target rows) are those of the batch in order, the loss is the base loss on the source (or on the target with train_on_target) plus reg times the adaptation loss, which gets source labels only; sample weights multiply the loss of their own row. predict, predict_proba, predict_features and score return, for every accepted input form, one output per requested row, in order and computed from that row, refuse source rows unless allowed, and score compares each prediction with the label of its own row. DomainAwareModule and CDANModule pass each row through their base module unchanged, features and (multilinear) domain inputs row by row; clones keep the parameters.",
     _I, "every domain assignment (including domain 0), feature, label, weight and shuffle of bounded size, for source, target and adapted training",
     "tests train toy networks and look at shapes and scores",
     ["skada/deep/base.py", "skada/deep/_baseline.py", "skada/deep/_adversarial.py"], [("DomainAwareNet, DomainAwareModule, DomainAwareCriterion", "skada/deep/base.py"), ("SourceOnly, TargetOnly", "skada/deep/_baseline.py"), ("CDANModule", "skada/deep/_adversarial.py")],
     "The gradient step is torch's and outside: parameters stay as they are.")
prop("C28", "Deep adaptation losses equal their definitions",
     "deepcoral_loss is the squared Frobenius distance of the two covariances over 4 d^2, dan_loss the multi-kernel maximum mean discrepancy over all pairs (zero for equal samples), mcc_loss the mean off-diagonal mass of the weighted class correlations, deepjdot_loss the transport cost for reg_dist * squared distance + reg_cl * loss of the target prediction against the source label with the given marginals, gda_loss the distance of the spectra of the announced Laplacians, nap_loss the confidence weighted cross entropy against the label of the K nearest memories other than the sample's own, cdd_loss the intra minus inter class discrepancy over unambiguous target rows; SphericalKMeans assigns to the most similar centroid, moves centroids to the sum of their rows and keeps the best run. The loss classes evaluate these functions with their constructor's parameters.",
     _I, "every feature, score, label, weight, threshold and batch size (source and target of different sizes) up to the bound",
     "tests check that losses are positive or decrease on one batch",
     ["skada/deep/losses.py", "skada/deep/utils.py", "skada/deep/_divergence.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py"], [("*_loss functions", "skada/deep/losses.py"), ("SphericalKMeans", "skada/deep/utils.py")],
     "Singular values, optimal transport cost and (for clustering) the cosine similarity are arbitrary functions of what they are given.")
prop("C30", "Adversarial, graph and memory based deep methods use their announced losses and state",
     "DANN and CDAN losses ask the domain criterion for label 0 on source and 1 on target rows and add both; MDD is gamma * cross entropy on source minus modified cross entropy on target against the classifier's own pseudo-labels; the domain classifier gives one probability per row (a distribution with several classes), each from its own row, and reverses the gradient times alpha; CDAN's random map is the same at each step and in every domain, leaves the global generator alone and is bilinear in its row's predictions and features; SPA's total is the weighted sum of its parts with the announced schedule; the memory bank moves exactly the rows of its batch's target samples by the momentum rule; CAN's clustering starts from the class sums of the normalised source features. Each factory (DeepCoral, DAN, CAN, DeepJDOT, MCC, DANN, CDAN, MDD, SPA) builds a network whose steps minimise base + reg * that loss with the constructor's parameters on balanced batches, and leaves the given callbacks list unmodified.",
     _I, "every prediction, feature, label, domain assignment, momentum, gamma and reg of bounded size", "tests train toy networks and look at shapes and scores",
     ["skada/deep/_adversarial.py", "skada/deep/_graph_alignment.py", "skada/deep/callbacks.py", "skada/deep/modules.py", "skada/deep/_divergence.py"], [("losses and factories", "skada/deep/_adversarial.py, _graph_alignment.py, _divergence.py, _optimal_transport.py, _class_confusion.py"), ("callbacks", "skada/deep/callbacks.py"), ("DomainClassifier, GradientReversalLayer", "skada/deep/modules.py")],
     "Memory rows are claimed for a single target domain.")
prop("C31", "Adapters fitted by gradient descent minimise their stated objective",
     "TransferSubspaceLearning hands the optimiser, for the orthonormalised basis W, the objective of its base method on the source rows (pca: minus the variance kept; flda: within-class over between-class scatter; lpp: the locality preserving sum over pairs of the same class) plus mu times the Gaussian kernel discrepancy between embedded source and target rows, and keeps the orthonormalised solution with n_components columns. MMDLSConSMapping minimises the mean discrepancy between mapped source rows and target rows plus the regularisation over one scaling and offset per class (functions of the label for regression), maps each source row by the scaling and offset of its label (known rows as at fit time, unlabelled new rows as their nearest source row) and leaves target rows as they are. torch_minimize starts from the given point, passes tolerance and iteration limit on, returns the optimiser's point with the loss there, and warns exactly when the gradient there is above the tolerance.",
     _I, "every feature value, label, basis, scaling and offset of bounded size, both domain interleavings, every answer of the optimiser", "tests check shapes and accuracy on one dataset",
     ["skada/_subspace.py", "skada/_mapping.py", "skada/utils.py"], [("TransferSubspaceLearningAdapter", "skada/_subspace.py"), ("MMDLSConSMappingAdapter", "skada/_mapping.py"), ("torch_minimize", "skada/utils.py")],
     "MMDLSConSMapping uses exp(-gamma * distance), not the documented Gaussian kernel (known finding).")
prop("C90", "Transport plans returned by the external solvers are optimal",
     "The transport plan used by the OT adapters, the OT scores and the JDOT estimators is an optimal (or entropically regularised optimal) coupling of the given marginals for the given cost.",
     _I, "every cost matrix and pair of marginals", "tests look at one plan",
     ["skada/_ot.py", "skada/_mapping.py"], [("calls to ot.solve, ot.emd, ot.sinkhorn", "POT")], 
     na="the code deciding it is POT's compiled network simplex / iterative Sinkhorn (C++ and POT's own Python), not skada's: it is stubbed by an arbitrary plan in C16, C21, C23 and C24, which decide what skada does before and after it")
prop("C91", "Training converges",
     "Deep networks and iterative adapters reach the accuracy their papers announce.",
     _I, "every dataset and initialisation", "tests train on one toy problem",
     ["skada/deep"], [("fit loops", "skada/deep/base.py")],
     na="a statistical claim about thousands of floating-point gradient steps in torch kernels; no bounded symbolic execution reaches it")
prop("C92", "Dataset fetchers return the published files",
     "fetch_office31_surf_all, fetch_amazon_review, load_mnist_usps, load_office_home and their variants download, verify and cache the published data and return them unchanged.",
     ["inputs", "environment"], "every state of the cache and the network", "tests never download",
     ["skada/datasets/_office.py", "skada/datasets/_amazon_review.py", "skada/datasets/_mnist_usps.py", "skada/datasets/_office_home.py"], [("fetchers", "skada/datasets")],
     na="depends on network services and external files (downloads, torchvision, archives) that cannot be reached or encoded here")
