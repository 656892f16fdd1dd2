"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json
import os

T = "Unit tests sample a handful of hand-built circuits; "
P = []


def p(id, title, statement, over, qtext, why, files, mech, **extra):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **extra}})


M = "spflow/modules/"
LEAVES = [M + f"leaves/{k}.py" for k in ("leaf bernoulli binomial categorical cltree exponential gamma geometric histogram "
                                           "hypergeometric laplace log_normal negative_binomial normal piecewise_linear "
                                           "poisson uniform").split()]
p("C01", "Circuit log-likelihood equals its mixture/product semantics",
  "For every smooth and decomposable circuit built from leaves, sums, products, splits, concatenations, tensorized layers and repetition mixing, the reported log-likelihood of every output feature, channel and repetition equals the value of the mathematical expression the circuit denotes. Evidence of probability zero yields minus infinity and never an undefined value.",
  ["programs", "inputs"], "all circuit structures, parameters, channel/repetition counts, split layouts, shared sub-circuits and rows, including missing entries",
  T + "the broadcast, split-layout and weight-layout combinations are unbounded and interact.",
  [M + "sums/sum.py", M + "sums/elementwise_sum.py", M + "products/product.py", M + "products/elementwise_product.py", M + "products/outer_product.py", M + "einsum/einsum_layer.py", M + "einsum/linsum_layer.py", M + "ops/cat.py", M + "sums/repetition_mixing_layer.py", M + "leaves/leaf.py"],
  [("weighted log-sum-exp", M + "sums/sum.py Sum.log_likelihood"), ("stabilized einsum contraction", M + "einsum/einsum_layer.py"), ("split layouts", M + "ops/split_*.py")])
p("C02", "Every circuit is a normalized probability distribution",
  "The exponentiated log-likelihoods of every circuit over a finite domain sum to exactly one over all joint states, for each output channel and repetition. With real-valued variables the density integrates to one.",
  ["programs"], "all circuits over finite domains (fully enumerated) and univariate/bivariate continuous circuits (integrated)",
  T + "normalization is a statement about all joint states of an arbitrary circuit.",
  [M + "sums/sum.py", M + "leaves/leaf.py", M + "products/base_product.py", M + "leaves/cltree.py"],
  [("normalized sum weights", M + "sums/sum.py Sum.log_weights"), ("normalized leaves", M + "leaves/")])
p("C03", "Missing entries are marginalized exactly",
  "The log-likelihood of a row with missing entries equals the log of the sum (or integral) of the likelihoods of all completions of that row. A row with every entry missing has log-likelihood zero, in any mixture of patterns within a batch.",
  ["programs", "inputs"], "all circuits and all per-row missingness patterns",
  T + "exponentially many missingness patterns interact with batching and imputation inside leaves.",
  [M + "leaves/leaf.py", M + "leaves/cltree.py", M + "module.py"],
  [("NaN handling in leaves", M + "leaves/leaf.py LeafModule.log_likelihood")])
p("C04", "Structural marginalization agrees with leaving entries missing",
  "Removing variables from a circuit yields a circuit whose log-likelihoods equal those of the original with the same entries missing, whose scope is the remaining variables, or nothing when no variable remains. The original circuit is unaffected.",
  ["programs", "inputs"], "all circuits supporting structural marginalization, all subsets of variables, pruning on and off",
  T + "which weights/features survive depends on structure and subset jointly.",
  [M + "sums/sum.py", M + "products/product.py", M + "ops/cat.py", M + "ops/split.py", M + "leaves/leaf.py", M + "einsum/einsum_layer.py", M + "einsum/linsum_layer.py", M + "sums/elementwise_sum.py"],
  [("weight masking", M + "sums/sum.py Sum.marginalize"), ("pruning", M + "ops/cat.py Cat.marginalize")])
p("C05", "Unconditional samples follow the circuit's distribution",
  "Samples drawn from a circuit are complete, lie in the support of the circuit and follow the distribution given by its likelihood, including the dependence between variables. Requested row counts are honoured.",
  ["programs", "inputs"], "all circuits supporting sampling, with goodness-of-fit decided at an error rate below 1e-6 per case",
  T + "routing of channel and repetition indices through arbitrary compositions is only visible in the joint distribution of many samples.",
  ["spflow/utils/sampling_context.py", M + "module.py", M + "sums/sum.py", M + "products/base_product.py", M + "einsum/einsum_layer.py", M + "einsum/linsum_layer.py", M + "ops/split.py", M + "ops/cat.py"],
  [("channel routing", "spflow/utils/sampling_context.py SamplingContext"), ("branch selection", M + "sums/sum.py Sum._sample")])
p("C06", "Conditional samples follow the posterior and keep the evidence",
  "Sampling given partial evidence leaves observed entries unchanged, fills every missing entry, and follows the conditional distribution of the missing entries given the observed ones, row by row.",
  ["programs", "inputs"], "all circuits supporting sampling, all evidence rows of positive probability",
  T + "posterior routing needs the cached evidence likelihoods at every sum of an arbitrary structure.",
  [M + "module.py", M + "sums/sum.py", "spflow/utils/cache.py", M + "leaves/cltree.py"],
  [("posterior branch weights", M + "sums/sum.py Sum._sample"), ("evidence cache", M + "module.py Module.sample_with_evidence")])
p("C07", "Most probable completions are deterministic, valid and exact where promised",
  "Most-probable-explanation queries are deterministic, keep observed entries, return values in the support, and follow the max-product style branch decisions of the circuit. On circuits where that decision is exact (factorized models, tree models) the completion attains the maximum over all completions.",
  ["programs", "inputs"], "all circuits supporting sampling; exactness on factorized and tree-structured models",
  T + "optimality is a claim about all completions.",
  [M + "module.py", M + "sums/sum.py", M + "leaves/leaf.py", M + "leaves/cltree.py"],
  [("argmax routing", "spflow/utils/sampling_context.py sample_from_logits"), ("leaf modes", M + "leaves/*.py mode")])
p("C08", "Rows are processed independently",
  "The likelihood of a row does not depend on the other rows of its batch, their order, count or missingness, nor on memory layout. Splitting, permuting, duplicating or concatenating batches commutes with evaluation.",
  ["programs", "inputs"], "all circuits, batches, permutations and chunkings",
  T + "cross-row leakage needs specific batch compositions.",
  [M + "leaves/leaf.py", M + "leaves/cltree.py", M + "sums/sum.py"], [("batched imputation", M + "leaves/leaf.py")])
p("C09", "Queries are pure: caches and query order never change results",
  "For any history of likelihood, sampling, marginalization and parameter-change operations, evaluating with a fresh, reused or shared cache gives the result a freshly built equal circuit gives, inputs are not modified by evaluation, and shared sub-circuits behave like separate copies.",
  ["histories", "programs"], "all operation histories on a circuit, including evaluation-mode switches and parameter updates between calls",
  "Staleness needs particular interleavings of queries, mode switches and parameter writes that single-call tests never build.",
  ["spflow/utils/cache.py", M + "einsum/einsum_layer.py", M + "module.py"],
  [("memoization", "spflow/utils/cache.py cached"), ("evaluation weight cache", M + "einsum/einsum_layer.py")],
  state=[{"name": "per-call cache", "meaning": "memoized results of one query, keyed by operation and module", "where": "spflow/utils/cache.py Cache"}, {"name": "evaluation-mode weight cache", "meaning": "normalized weights kept between no-grad evaluations", "where": M + "einsum/einsum_layer.py"}])
p("C10", "Declared shapes and scopes describe the computed tensors",
  "Every module's declared feature, channel and repetition counts match the tensors it returns, its scope is the union of the variables it depends on, and its feature-to-scope map lists, per feature and repetition, exactly the variables that output depends on.",
  ["programs", "inputs"], "all circuits; dependence is decided by perturbing variables",
  T + "metadata drifts from computation only for particular layouts.",
  [M + "module.py", M + "module_shape.py", M + "ops/split.py", M + "ops/split_consecutive.py", M + "ops/split_interleaved.py", M + "einsum/einsum_layer.py", M + "products/outer_product.py"],
  [("feature_to_scope", M + "*/feature_to_scope")])
p("C11", "Mixture weights are always a valid normalized parameterization",
  "Weights assigned to any mixing layer read back unchanged, in plain and log form. Whatever was assigned, including unnormalized log weights and arbitrary writes to the raw parameters, the weights a layer reports and mixes with are non-negative and normalized over the mixed inputs. Plain weights that are not positive, not normalized or wrongly shaped are rejected, at construction and at assignment, without changing the layer.",
  ["inputs", "histories"], "all weight tensors, valid and invalid, for every mixing layer, through construction and assignment",
  T + "normalization axes differ per layer and per rank of the given weights.",
  [M + "sums/sum.py", M + "sums/elementwise_sum.py", M + "sums/repetition_mixing_layer.py", M + "einsum/einsum_layer.py", M + "einsum/linsum_layer.py", "spflow/utils/projections.py", M + "conv/sum_conv.py"],
  [("weight projection", "spflow/utils/projections.py"), ("validation", M + "sums/sum.py Sum.weights")])
p("C12", "Leaf densities are the documented distributions",
  "Every leaf family's log-likelihood equals the log density or mass function of the named distribution with the stored parameters, per feature, channel and repetition, at every point of its support and for all supported parameter forms (probabilities or logits, per-row parameters computed from evidence, certain outcomes), and zero for a missing entry. Total mass is one.",
  ["inputs", "configurations"], "all leaf families, parameter tensors, parameterizations and support points, in both float precisions",
  "Existing tests compare against the same torch distribution objects the leaves use; parameter transforms and layouts over all values are not covered.",
  LEAVES, [("leaf distributions", M + "leaves/leaf.py LeafModule.distribution"), ("bounded parameter transforms", "spflow/utils/projections.py")])
p("C13", "Interval evidence is the probability of the box",
  "For leaves with interval support (Normal, Laplace, LogNormal, Gamma, Exponential, Uniform, Bernoulli, Categorical) and circuits over them, the log-likelihood of interval evidence is the log probability that every variable falls in its closed interval, a missing bound (NaN) meaning unbounded; the unbounded box has probability one, unbounded variables are marginalized, masses are additive over a split interval and never decrease when the box grows; inverted bounds (low > high) and ill-shaped bounds are rejected. (An impossible box may be reported with a floor of 1e-40 instead of zero.)",
  ["programs", "inputs"], "all circuits over families with interval support and all bound combinations",
  T + "bounds interact with every family's support edges and with mixtures.",
  ["spflow/meta/data/interval_evidence.py", M + "leaves/leaf.py", "spflow/utils/range_inference.py"],
  [("interval likelihood", M + "leaves/leaf.py _log_likelihood_interval")])
p("C14", "Leaf estimation maximizes the weighted likelihood",
  "Fitting a leaf to data with weights (one non-negative weight per row, feature, channel and repetition) and bias_correction=False stores parameters of maximal weighted log-likelihood for Normal, Laplace, LogNormal, Exponential, Bernoulli, Binomial, Geometric, NegativeBinomial, Poisson, Categorical and Histogram leaves (Gamma stores its documented closed-form estimate; with bias correction scales use n-1 and the exponential rate (n-1)/sum); each feature, channel and repetition is fitted independently with its own weights; the result does not depend on row order, on the scale of the weights, on columns outside the scope, on duplicating a row versus doubling its weight, or (nan_strategy='ignore') on rows with missing entries; missing entries without a strategy are rejected; parameters stay finite and valid also for degenerate data.",
  ["inputs"], "all data sets, missingness patterns, non-negative weights and channel counts",
  "Optimality is a claim about all alternative parameters and degenerate data sets.",
  LEAVES, [("weighted estimates", M + "leaves/*.py _compute_parameter_estimates")])
p("C15", "Leaf samples and modes agree with the leaf density",
  "Samples of a leaf follow the density of the channel and repetition selected for each row and feature (also for conditional leaves, with the row's parameters), lie in its support, and are independent between features and rows; only missing entries selected by the mask are filled; the mode, which most-probable-value sampling returns, is a point of maximal density (Histogram: the midpoint of the most probable bin; Uniform has no mode).",
  ["inputs", "configurations"], "all leaf families and parameters", "Agreement is distributional and per channel/repetition.",
  LEAVES, [("leaf sampling", M + "leaves/leaf.py LeafModule._sample"), ("mode", M + "leaves/*.py mode")])
p("C16", "Expectation maximization never decreases the likelihood",
  "Each expectation-maximization step on complete data, for any circuit (including one with shared sub-circuits) whose leaves have an exact maximum-likelihood estimator and are updated without bias correction, does not decrease the training log-likelihood, keeps all parameters valid, and equals the textbook responsibility-weighted update; the returned history is the likelihood before each step.",
  ["programs", "histories", "inputs"], "all circuits, complete data sets and step counts",
  "Monotonicity is an invariant over whole training histories on arbitrary structures.",
  ["spflow/learn/expectation_maximization.py", M + "sums/sum.py", M + "leaves/leaf.py", M + "einsum/einsum_layer.py", M + "einsum/linsum_layer.py", M + "sums/elementwise_sum.py", M + "sums/repetition_mixing_layer.py"],
  [("EM loop", "spflow/learn/expectation_maximization.py"), ("E/M step", M + "sums/sum.py")])
p("C17", "Gradients of the log-likelihood are exact and finite",
  "Automatic derivatives of circuit log-likelihoods with respect to parameters and evidence equal numerical derivatives and are finite wherever the likelihood is positive; gradient training only changes trainable parameters and keeps the circuit normalized.",
  ["programs", "inputs", "histories"], "all circuits, parameters and rows of positive likelihood",
  "Missing-value and log-sum-exp masking only poison gradients for particular inputs.",
  ["spflow/learn/gradient_descent.py", M + "sums/sum.py", M + "leaves/leaf.py"],
  [("training loop", "spflow/learn/gradient_descent.py")])
p("C18", "Structure learners return valid circuits over all variables",
  "Circuits learned from data are normalized, cover exactly the requested variables, give every training row positive likelihood, and can be marginalized, sampled and conditioned like any other circuit; learning is reproducible for a fixed seed and does not modify the data.",
  ["inputs", "configurations"], "all data sets, thresholds, leaf assignments, clustering and partitioning methods",
  "The produced structure depends on the data; validity must hold for every recursion shape.",
  ["spflow/learn/learn_spn.py", "spflow/learn/prometheus.py", "spflow/learn/cnet.py"],
  [("recursive slicing", "spflow/learn/learn_spn.py")])
p("C19", "Tree learning is optimal and tree models are exact",
  "The learned Chow-Liu structure is a spanning tree of maximal total pairwise mutual information, estimated tables match smoothed empirical counts, enumerated best spanning trees are in order and distinct, and the resulting models are normalized.",
  ["inputs"], "all categorical data sets and weight matrices", "Optimality is a claim about all spanning trees.",
  ["spflow/zoo/hclt/chow_liu.py", "spflow/zoo/hclt/mi.py", "spflow/zoo/hclt/topk_mst.py", "spflow/zoo/hclt/learn.py", M + "leaves/cltree.py"], [("spanning tree", "spflow/zoo/hclt/chow_liu.py"), ("k best trees", "spflow/zoo/hclt/topk_mst.py")])
p("C20", "Class posteriors obey Bayes' rule",
  "Class probabilities of classification models are non-negative, sum to one and equal the prior-weighted class likelihoods renormalized, also with missing features; predicted labels are the most probable classes.",
  ["inputs", "programs"], "all class counts, priors, circuits and rows incl. missing entries and zero-likelihood classes", T + "normalization must hold for every row.",
  ["spflow/interfaces/classifier.py", "spflow/zoo/naive_bayes.py", "spflow/utils/inference.py"], [("posterior", "spflow/utils/inference.py log_posterior")])
p("C21", "Information measures equal their definitions",
  "Exact entropy, mutual information, conditional mutual information, conditional probability and weight of evidence equal the values computed from the enumerated joint distribution, and satisfy their identities (non-negativity, symmetry, chain rule); sampled estimates converge to them.",
  ["programs", "inputs"], "all discrete circuits, variable subsets and evidence", T + "identities quantify over all subsets.",
  ["spflow/measures/information_theory.py", "spflow/measures/weight_of_evidence.py", "spflow/measures/_utils.py"], [("entropy", "spflow/measures/information_theory.py"), ("weight of evidence", "spflow/measures/weight_of_evidence.py")])
p("C22", "Inner products and squared circuits are exact",
  "Inner and triple products of circuits equal the integral of the product of their functions, and circuits built as sums of squares of signed circuits are non-negative, normalized, marginalize exactly over missing entries and evaluate the signed sums they denote.",
  ["programs", "inputs"], "all compatible circuit pairs/triples, leaf families and signed weights", "Family-pair formulas and sign handling are too many to sample by hand.",
  ["spflow/utils/inner_product.py", "spflow/utils/inner_product_core.py", "spflow/utils/signed_semiring.py", M + "sos/socs.py", M + "sums/signed_sum.py", "spflow/zoo/sos/exp_socs.py", "spflow/zoo/sos/models.py", "spflow/zoo/sos/signed_categorical.py"], [("closed-form products", "spflow/utils/inner_product.py"), ("log normalizer", M + "sos/socs.py")])
p("C23", "Integral circuits quantize to the quadrature of their definition",
  "Materializing an integral circuit yields a normalized circuit equal to the explicit quadrature sum of its input functions, and the tensorized evaluation schemes agree with each other and with the direct sum.",
  ["programs", "inputs"], "all region graphs, quadrature rules and input networks", "Equality must hold for every graph and rule.",
  ["spflow/zoo/pic/pipeline.py", "spflow/zoo/pic/integral.py", "spflow/zoo/pic/weighted_sum.py", "spflow/zoo/pic/functional_sharing.py", "spflow/zoo/pic/tensorized/qpc.py", "spflow/zoo/pic/tensorized/tucker.py", "spflow/zoo/pic/tensorized/cp.py", "spflow/zoo/pic/tensorized/mixing.py", "spflow/meta/region_graph.py"], [("materialization", "spflow/zoo/pic/pipeline.py")])
p("C24", "Continuous mixtures equal their quadrature sums",
  "Mixtures obtained from continuous latents are the stated finite mixtures: weights normalized, likelihood the weighted sum of the component likelihoods, quadrature points deterministic per seed and distributed as the prior.",
  ["inputs", "configurations"], "all data sets and configurations", "Equality must hold for every configuration.",
  ["spflow/zoo/cms/continuous_mixtures.py", "spflow/zoo/cms/rqmc.py", "spflow/zoo/cms/joint.py"], [("mixture construction", "spflow/zoo/cms/continuous_mixtures.py")])
p("C25", "Autoencoding circuits report exact loss terms",
  "The autoencoding circuit's training objective is the stated combination of reconstruction, prior and joint likelihood terms, its evaluation is the sample-weighted mean over batches independent of the batch split, encoding and decoding draw from the circuit's conditional distributions given the evidence, and the reported latent statistics and divergences are those of the latent components used.",
  ["inputs", "configurations"], "all configurations, batch sizes and data", "Batch-split independence quantifies over all splits.",
  ["spflow/zoo/apc/model.py", "spflow/zoo/apc/train.py", "spflow/zoo/apc/encoders/latent_stats.py", "spflow/zoo/apc/encoders/einet_joint_encoder.py", "spflow/zoo/apc/encoders/joint_pc_base.py"], [("objective", "spflow/zoo/apc/model.py"), ("evaluation", "spflow/zoo/apc/train.py")])
p("C26", "Random tensorized models are valid distributions",
  "Randomly structured models (RAT-SPNs, Einets, convolutional circuits, random factorizations) are for every admissible architecture normalized, exactly marginalizable, samplable from their own distribution and cover each variable exactly once per repetition.",
  ["configurations", "inputs"], "all admissible architecture parameters and seeds", "Architectures are a large product space; each repetition draws its own permutation.",
  ["spflow/zoo/rat/rat_spn.py", "spflow/zoo/einet/einet.py", "spflow/zoo/conv/conv_pc.py", M + "rat/factorize.py", M + "conv/sum_conv.py", M + "conv/prod_conv.py"], [("random factorization", M + "rat/factorize.py")])
p("C27", "Saving, loading and copying preserve the model",
  "A model restored from a saved file, a parameter dictionary, or a copy gives the same likelihoods and the same samples for the same seed as the original, and changing one leaves the other unchanged.",
  ["programs", "histories"], "all circuits and save/restore histories", T + "hidden non-parameter state only shows for some layers.",
  ["spflow/utils/model_manager.py", M + "module.py"], [("serialization", "spflow/utils/model_manager.py")])
p("C28", "The expression language builds the circuit it denotes",
  "Any well-formed expression of the construction language yields a circuit whose likelihood is the normalized weighted sum and product of its operands, independent of grouping, and ill-formed expressions are rejected.",
  ["programs"], "all expression trees", "Expression trees are unbounded.",
  ["spflow/dsl.py"], [("expression building", "spflow/dsl.py")])
p("C29", "Scope and domain algebra behaves like sets",
  "Joining, removing, comparing and hashing variable scopes behave like the corresponding set operations with preserved order and consistent equality and hashing, and evidence variables never overlap query variables.",
  ["inputs", "histories"], "all scopes and operation sequences", "Algebraic laws quantify over all operands.",
  ["spflow/meta/data/scope.py", "spflow/meta/data/interval_evidence.py"], [("scope operations", "spflow/meta/data/scope.py")])
p("C30", "Introspection reports the true structure",
  "Structure statistics count each distinct module, edge, parameter, sum, product and leaf of a circuit graph once, textual and graph renderings mention every module, and introspection never changes the model.",
  ["programs"], "all circuit graphs incl. shared sub-circuits", T + "shared sub-circuits are rarely sampled.",
  ["spflow/utils/structure_stats.py", "spflow/utils/module_display.py", "spflow/utils/visualization.py"], [("graph walk", "spflow/utils/structure_stats.py")])
p("C31", "Differentiable sampling matches ordinary sampling",
  "Differentiable samples are distributed like ordinary samples of the same circuit, have the same support and keep evidence, and propagate finite gradients to the parameters that influenced them.",
  ["programs", "inputs"], "all circuits supporting differentiable sampling", "Distributional agreement across arbitrary structure.",
  ["spflow/utils/sampling_context.py"], [("SIMPLE estimator", "spflow/utils/sampling_context.py")])
p("C32", "Image wrapping only reshapes",
  "Wrapping a circuit for images gives the likelihoods, samples and marginals of the wrapped circuit on flattened images, with pixel positions preserved in both directions.",
  ["inputs", "configurations"], "all channel/height/width combinations, circuits and images", "Layout errors need non-square, multi-channel shapes.",
  [M + "wrapper/image_wrapper.py", M + "wrapper/base.py"], [("flattening", M + "wrapper/image_wrapper.py")])
p("C33", "Dependence measures are invariant where promised",
  "The randomized dependence coefficient lies in [0,1], is reproducible, invariant to strictly increasing transformations of either variable for a fixed seed, and equals one for deterministic monotone dependence up to tolerance.",
  ["inputs"], "all data columns and monotone transforms", "Metamorphic relations quantify over all data.",
  ["spflow/utils/rdc.py"], [("rank transform", "spflow/utils/rdc.py")])
p("C34", "Estimator interface is consistent with the circuit",
  "The estimator interface's scores, log-likelihoods, samples and predictions equal those of the underlying circuit, are reproducible for a fixed random state, reject use before fitting, and survive cloning with equal parameters.",
  ["histories", "inputs"], "all fit/score/sample/predict call sequences and parameters", "Call sequences are unbounded.",
  ["spflow/interfaces/sklearn.py"], [("estimators", "spflow/interfaces/sklearn.py")])
p("C35", "Invalid circuits and parameters are never silently evaluated",
  "Circuits that would not be smooth or decomposable (overlapping product scopes, mixtures over different variables, incompatible channel, feature or repetition counts, splits with unequal parts, parents that do not form a tree) and parameters or weights outside their domain (or of the wrong shape) are rejected when built or set, at the latest when first evaluated - never silently evaluated; a rejected assignment leaves the circuit unchanged; and whatever is accepted is a valid circuit: normalized over its scope and consistent under marginalization, with the declared shape.",
  ["programs", "inputs"], "all mutations of valid constructions that break a structural or parameter requirement", "The space of invalid constructions is unbounded.",
  [M + "sums/sum.py", M + "sums/elementwise_sum.py", M + "products/base_product.py", M + "products/product.py", M + "einsum/einsum_layer.py", M + "einsum/linsum_layer.py", M + "ops/cat.py", M + "leaves/leaf.py"], [("constructor validation", M + "products/base_product.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for d in P:
        fh.write(json.dumps(d) + "\n")
print(len(P))
