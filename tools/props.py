"""Property catalogue; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
L = "spflow/modules/"
P = {}


def p(id, title, statement, over, qtext, why, files, mech, note, state=None, observe_at=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                 anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": state} if state else {}), **({"observe_at": observe_at} if observe_at else {})}, note=note)


p("P01", "Each sub-circuit is evaluated once per query through the caller's cache",
  "Every query function that accepts a cache forwards that same cache and the same evidence to every sub-circuit it queries, so a "
  "sub-circuit shared by several parents is evaluated once and its stored value is the value all parents use. Every module's "
  "log-likelihood leaves its value in the supplied cache, keyed by that module and that operation. Nothing stored for one query is "
  "ever reused by another query that was not given the same cache.",
  ["inputs", "histories", "configurations"], "all circuits (DAGs of any modules), evidence tensors and sequences of queries with or without caches",
  "Dropping a cache argument at one of ~150 call sites still yields the right number for the tree-shaped circuits tests use; only DAG "
  "sharing, posterior sampling and EM on particular module mixes expose it.",
  ["spflow/utils/cache.py", L + "module.py", L + "sums/sum.py", L + "products/product.py", "spflow/zoo/rat/rat_spn.py"],
  [("memo wrapper", "spflow/utils/cache.py:cached"), ("cache store", "spflow/utils/cache.py:Cache.set/get"), ("recursive evaluation", "log_likelihood of every module")],
  "Sound for the call sites the index resolves (all functions with a cache parameter); dynamic dispatch is by name.")

p("P02", "NaN evidence is integrated out exactly at every leaf",
  "A NaN entry of the evidence means 'not observed': every leaf distribution contributes exactly log 1 = 0 for it (the tree-structured leaf sums the "
  "variable out) for any mixture of observed and missing entries in a batch, and observed entries contribute exactly their log-density. "
  "Densities are never evaluated on NaN, and inner modules pass missing entries through to their leaves untouched.",
  ["inputs"], "all evidence tensors with any NaN pattern, all leaf families, all parameters",
  "Tests sample a few NaN patterns for a few leaves; the rule must hold for every leaf family, mask pattern, shape and row mixture.",
  [L + "leaves/leaf.py", L + "leaves/cltree.py", L + "leaves/piecewise_linear.py", "spflow/zoo/pic/tensorized/qpc.py"],
  [("masked density", "spflow/modules/leaves/leaf.py:LeafModule.log_likelihood"), ("tree message passing", "spflow/modules/leaves/cltree.py:CLTree.log_likelihood"),
   ("imputation", "spflow/modules/leaves/leaf.py:LeafModule._supported_value_for_imputation")],
  "Decides mask position, polarity, value, alignment and clean density input for every leaf class; not the numeric density itself.")

p("P03", "Interval evidence yields the probability of exactly the stated range",
  "For range evidence, a leaf's likelihood never decreases when the upper bound is raised and never increases when the lower bound is raised; a missing "
  "(NaN) bound extends the range to that end of the distribution's support, and both ends are inclusive. Each leaf reads the bounds of its own variables only. "
  "Inconsistent ranges, and ranges for leaves whose parameters depend on other variables, are rejected.",
  ["inputs", "configurations"], "all lower/upper bound tensors including NaN entries, all leaf families and parameters",
  "Orientation and open-bound handling must hold for all bounds and parameters in each of the leaf families that implement it; tests check a few numbers for a few leaves.",
  [L + "leaves/leaf.py", L + "leaves/normal.py", L + "leaves/uniform.py", L + "leaves/bernoulli.py", L + "leaves/categorical.py", "spflow/meta/data/interval_evidence.py"],
  [("interval likelihood", "spflow/modules/leaves/leaf.py:LeafModule._log_likelihood_interval"), ("overrides", "leaves/{normal,uniform,bernoulli,categorical}.py"),
   ("validation", "spflow/meta/data/interval_evidence.py:IntervalEvidence.__post_init__")],
  "Monotonicity signs and open-end values are decided symbolically; numeric accuracy of cdf() is assumed.")

p("P07", "Mixture weights are a distribution over one axis, the same one everywhere",
  "In every sum layer the reported weights are positive and sum to one over the layer's mixture axis. That same axis is the one checked when weights are set, "
  "normalised at initialisation, summed out by the log-likelihood, chosen from when sampling, and re-normalised by expectation maximisation. "
  "Likelihoods only ever use the normalised weights.",
  ["inputs", "configurations"], "all layer shapes (features, channels, repetitions), weights and evidence",
  "With symmetric or singleton shapes an axis mix-up yields valid-looking numbers; tests cannot enumerate every layer, shape and operation pairing.",
  [L + "sums/sum.py", L + "sums/elementwise_sum.py", L + "sums/repetition_mixing_layer.py", L + "conv/sum_conv.py", L + "einsum/einsum_layer.py", L + "einsum/linsum_layer.py"],
  [("weight getters/setters", "weights, log_weights of each layer"), ("likelihood reduction", "log_likelihood"), ("routing", "_sample"), ("M-step", "_expectation_maximization_step")],
  "Axis identity is decided through named-axis inference on every path of the six mixture layers.")

p("P04", "Each row's log-likelihood depends on that row and the parameters only",
  "The log-likelihood of an evidence row is a function of that row and the model parameters: it is unchanged by which other rows are in the batch, their order or their number. "
  "No density or module combines values across rows of the evidence.",
  ["inputs", "configurations"], "all batches, batch sizes (including 1 and sizes equal to a feature or channel count) and modules",
  "Tests compare fixed batches; a reduction or reshape over the wrong axis only shows when sizes differ or coincide in specific ways.",
  [L + "leaves/leaf.py", L + "leaves/piecewise_linear.py", L + "conv/prod_conv.py", L + "sums/sum.py", L + "einsum/einsum_layer.py"],
  [("densities", "log_prob of in-repo distributions"), ("module likelihoods", "log_likelihood of every module")],
  "Named-axis inference: obligations only where the axis is inferred; reductions over unknown axes are reported as notes.")

p("P05", "The log-likelihood is differentiable in every learnable parameter",
  "Gradient training works: every parameter a module registers for learning reaches that module's log-likelihood through differentiable operations only. "
  "Nothing on that path detaches, rounds, converts to Python or numpy, disables gradients, or reads the raw tensor data.",
  ["inputs", "configurations"], "all modules, parameters and evidence",
  "A detached path still yields the correct number; only the gradient of one parameter of one module vanishes.",
  [L + "leaves/leaf.py", L + "sums/sum.py", L + "einsum/einsum_layer.py", L + "conv/sum_conv.py", "spflow/utils/projections.py"],
  [("parameter transforms", "properties of leaves, weights getters"), ("likelihoods", "log_likelihood of every module")],
  "Dataflow from registered parameters to the returned value, alternatives (phis) included.")

p("P06", "Inference and learning never modify the caller's data or stored likelihoods",
  "Evaluating, fitting and marginalising leave the caller's tensors as they were: evidence, training data, sample weights and interval bounds are never written in place, directly or through views. "
  "Likelihoods already stored for a query are never changed in place by a later step. Only sampling writes, and only into the sample tensor.",
  ["inputs", "histories"], "all public operations, evidence tensors and circuits",
  "In-place mutation corrupts later calls rather than the one under test; aliasing depends on dtype and contiguity.",
  [L + "leaves/leaf.py", "spflow/utils/leaves.py", "spflow/learn/learn_spn.py", "spflow/utils/cache.py"],
  [("effects", "every function reachable from log_likelihood, mle, EM, learners")],
  "Alias analysis through views, no-op casts and functional updates; calls are followed to depth 3.")

p("P08", "Products multiply and routers forward every input's likelihood, dropping nothing",
  "A product's log-likelihood is the plain sum over its factors of their log-likelihoods, over every input and every feature of its scope, each exactly once. "
  "Concatenations, splits and factorisations hand on every entry of their inputs' likelihoods unchanged. No input, channel, feature or repetition is skipped.",
  ["inputs", "configurations"], "all circuits, numbers of inputs, channel and repetition counts",
  "Symmetric shapes hide dropped or duplicated factors; a tested product of two inputs does not show what happens with five.",
  [L + "products/product.py", L + "products/outer_product.py", L + "products/elementwise_product.py", L + "ops/cat.py", L + "ops/split.py", L + "conv/prod_conv.py"],
  [("product likelihoods", "log_likelihood of product layers"), ("routers", "log_likelihood of Cat/Split/Factorize")],
  "Decides which operations lie between inputs' likelihoods and the result, with signs and coverage of all inputs.")

p("P11", "Sampling with evidence draws every mixture choice from its posterior",
  "When evidence has been evaluated, each mixture choice made while sampling or looking for the most probable completion follows the posterior: weights times the likelihoods of the inputs being chosen from. "
  "Without evaluated evidence the choice follows the weights alone. Sampling with evidence always evaluates the evidence first, into the same store the sampler reads.",
  ["inputs", "configurations", "histories"], "all circuits with mixture layers, all evidence, draws and arg-max",
  "Drawing from the prior instead of the posterior still yields valid samples; only conditional statistics differ, per layer type.",
  [L + "sums/sum.py", L + "sums/elementwise_sum.py", L + "sums/repetition_mixing_layer.py", L + "einsum/einsum_layer.py", "spflow/zoo/rat/rat_spn.py", "spflow/zoo/einet/einet.py", L + "module.py"],
  [("mixture choices", "_sample/sample of mixture layers"), ("entry point", "spflow/modules/module.py:Module.sample_with_evidence")],
  "Decides what the choice is computed from, not the random draw itself.")

p("P10", "Sampling fills only missing, requested entries and keeps all evidence",
  "Sampling writes only those entries of the sample tensor that were missing (NaN) and were requested by the sampling mask, and it writes each of those in the leaf's own scope columns. "
  "Observed entries are returned exactly as given, for sampling and for most-probable completion. The sample tensor handed in is the one that is filled and returned.",
  ["inputs", "configurations"], "all sample tensors with any NaN pattern, masks, circuits and leaf types",
  "Overwriting or skipping an entry depends on the mix of observed, missing and unrequested entries in the same batch; tests mostly sample all-NaN tensors.",
  [L + "leaves/leaf.py", L + "leaves/cltree.py", L + "leaves/piecewise_linear.py", L + "products/product.py", L + "module.py", "spflow/utils/sampling_context.py"],
  [("leaf sampling", "spflow/modules/leaves/leaf.py:LeafModule._sample"), ("tree sampling", "spflow/modules/leaves/cltree.py:CLTree._sample"), ("evidence sampling", "spflow/modules/module.py:Module.sample_with_evidence")],
  "Implication between the written mask and 'missing and requested' is decided over every write into the data parameter of sampling code.")

p("P12", "Sampling draws from exactly the component, channel and repetition routed to",
  "While sampling, each module hands its inputs, per sample and feature, the channel that its own routed-to channel stands for, and the choice drawn at a mixture is the input that is then followed. "
  "Choices are read from the scores of the routed-to output channel and repetition only, and a leaf samples from the distribution of the routed-to channel and repetition. "
  "The repetition choice reaches every input unchanged.",
  ["inputs", "configurations"], "all circuits with several channels and repetitions, all sample counts",
  "A mis-routed channel still yields in-range samples; only the joint distribution of samples is wrong, per module and layout.",
  [L + "sums/sum.py", L + "sums/elementwise_sum.py", L + "products/outer_product.py", L + "ops/cat.py", L + "ops/split.py", L + "einsum/einsum_layer.py", L + "conv/sum_conv.py", L + "leaves/leaf.py", "spflow/utils/sampling_context.py"],
  [("routing of every module", "_sample methods"), ("context hand-over", "spflow/utils/sampling_context.py:SamplingContext.with_routing")],
  "Decides from which values and over which named axes choices are read and handed on, not sample statistics.")

p("P13", "Most-probable completions are deterministic; sampling options reach everywhere",
  "A most-probable query (mpe, or sampling with is_mpe) makes no random draw anywhere in the circuit: mixtures take the arg-max of the scores that sampling would draw from and leaves return their distribution's mode, which is a value for every parameter (the uniform leaf excepted). "
  "The options is_mpe, is_differentiable, temperature and leaf-parameter recording given to an entry point reach every sub-circuit, derived context and drawing helper unchanged.",
  ["inputs", "configurations", "histories"], "all circuits, entry points, options and evidence",
  "A lost option only shows in one module under one option combination, and a random draw may coincide with the mode.",
  [L + "module.py", "spflow/utils/sampling_context.py", L + "leaves/leaf.py", L + "sums/sum.py", "spflow/zoo/rat/rat_spn.py", "spflow/zoo/einet/einet.py", "spflow/zoo/apc/models.py"],
  [("entry points", "sample/mpe/sample_with_evidence"), ("contexts", "spflow/utils/sampling_context.py:SamplingContext"), ("drawing", "spflow/utils/sampling_context.py:sample_from_logits")],
  "Guard dominance for every random operation and option dataflow through every call that accepts one.")

p("P15", "Sampling visits every input of every module it passes through",
  "When a module is asked to sample, it asks each of its inputs to sample, on every path and for every number of inputs, so that every requested variable below it is filled. "
  "What it requests of an input is everything requested of itself that belongs to that input; only a drawn mixture choice restricts the request further. "
  "A leaf reached with requested missing entries fills them.",
  ["inputs", "configurations"], "all circuits, numbers of inputs, sample counts and masks",
  "A skipped input leaves NaN entries only in particular layouts, branches or batch compositions.",
  [L + "products/base_product.py", L + "products/product.py", L + "ops/cat.py", L + "einsum/einsum_layer.py", L + "rat/factorize.py", L + "leaves/leaf.py", L + "leaves/cltree.py"],
  [("input requests", "_sample of every inner module"), ("leaf fill", "spflow/modules/leaves/leaf.py:LeafModule._sample")],
  "Path coverage of sampling calls with truth-table case analysis over branch conditions.")

p("P20", "Circuits are smooth and decomposable: overlaps and mismatches are rejected",
  "A module that multiplies or concatenates several inputs over features can only be built when their scopes are pairwise disjoint, and a mixture or channel concatenation only when its inputs have equal scopes at every feature and in every mixed repetition; otherwise construction raises. "
  "The scope a combining module reports is the union of all its inputs' scopes. Scope equality, disjointness and union compare exactly the query (and evidence) variables, and region partitions must be disjoint and cover their region.",
  ["inputs", "configurations"], "all lists of inputs with any scopes and lengths",
  "Smoothness and decomposability make every query exact; a weakened check is only visible for particular combinations of overlapping inputs (a third input, a later repetition).",
  ["spflow/meta/data/scope.py", L + "products/base_product.py", L + "ops/cat.py", L + "sums/elementwise_sum.py", L + "sums/sum.py", L + "einsum/einsum_layer.py", "spflow/meta/region_graph.py"],
  [("scope checks", "constructors of product, sum and concatenation modules"), ("scope algebra", "spflow/meta/data/scope.py:Scope"), ("partitions", "spflow/meta/region_graph.py:Region.add_partition")],
  "Checks dominate the reported scope on every construction path; set algebra decided over all Venn regions.")

p("P21", "Marginalising a circuit gives the circuit over exactly the remaining variables",
  "marginalize returns None exactly when nothing remains, the module itself only when it contains none of the removed variables, and otherwise a circuit of the same kind built from the marginals of all its inputs. "
  "Mixtures keep their weights (those of the features that still have a variable), leaves keep the parameters of the remaining variables, and every module keeps the options it was built with; "
  "the caller's variables and pruning choice are handed to every input, and pruning only replaces a module by its single remaining input or feature.",
  ["inputs", "configurations"], "all circuits, variable subsets and options",
  "Each lost option, weight or input needs its own combination of structure and removed variables to show.",
  [L + "sums/sum.py", L + "sums/elementwise_sum.py", L + "ops/cat.py", L + "products/product.py", L + "leaves/leaf.py", L + "conv/sum_conv.py"],
  [("marginal circuits", "marginalize of every module class")],
  "Path classification and provenance of every rebuilt module's constructor arguments.")

p("P30", "One EM step re-estimates every part of the circuit from its posterior use",
  "An expectation-maximisation step reaches every input of every module with the data, likelihoods and options of that step. Each mixture's new weights are its old weights times the root's gradient times the chosen input's likelihood divided by the "
  "mixture's own likelihood, summed over the rows and normalised over the mixture axis; each leaf is re-fitted on the data weighted by its normalised responsibilities. "
  "Every step works on a freshly evaluated cache, and training stops early only when the average log-likelihood, which is what is reported, no longer increases.",
  ["inputs", "configurations", "histories"], "all circuits, data sets, numbers of steps and batches",
  "A wrong term or a skipped input still increases the likelihood on most data; an optimum tested for one structure does not show the update of another.",
  ["spflow/learn/expectation_maximization.py", L + "module.py", L + "sums/sum.py", L + "sums/elementwise_sum.py", L + "sums/repetition_mixing_layer.py", L + "conv/sum_conv.py", L + "einsum/einsum_layer.py", L + "leaves/leaf.py"],
  [("E/M step", "_expectation_maximization_step of every module"), ("training loop", "spflow/learn/expectation_maximization.py")],
  "Linear form of the update with paired named axes; call coverage; ordering of the training protocol. Monotonicity of the likelihood itself is not decided.")

p("P31", "Fitting a leaf sets each parameter to its weighted estimate in the valid range",
  "Maximum-likelihood estimation of a leaf overwrites each of its learnable parameters with the family's closed-form weighted estimate, computed from the rows kept by the missing-value strategy and from the weights of exactly those rows. "
  "Weights count relatively and separately for every feature, channel and repetition, so rescaling them changes nothing. "
  "Estimates that fall on the open end of a parameter's range are moved inside, so the stored parameter is finite.",
  ["inputs", "configurations"], "all data sets, weights, missing patterns and leaf shapes",
  "Tests fit unit weights, one channel and well-spread data; wrong weighting, a wrong bias term or a degenerate sample shows only off that path.",
  [L + "leaves/", "spflow/utils/leaves.py", "spflow/utils/projections.py"],
  [("template", "LeafModule.maximum_likelihood_estimation"), ("estimators", "_compute_parameter_estimates of every leaf"), ("tables", "CLTree.maximum_likelihood_estimation")],
  "Algebraic equality of the stored term with the closed form (field axioms and linearity of the row sum) in every branch case; guards on open ends. Numeric accuracy in floating point is not decided.")

p("P32", "A leaf's parameters read back as given and stay valid for every stored value",
  "A parameter value given to a leaf's constructor or assigned later is the value read back (class and bin probabilities up to normalisation) and the value its density and its sampler use. "
  "Whatever real value the stored parameter takes during gradient training, the distribution's arguments stay in their valid range. "
  "Assigning a value keeps the registered parameter object.",
  ["inputs", "configurations", "histories"], "all parameter values, leaf shapes and training histories",
  "Tests set a few values and compare with tolerance; a projection that is wrong outside the sampled range, or valid only until the first gradient step, passes.",
  [L + "leaves/", "spflow/utils/projections.py", "spflow/utils/leaves.py"],
  [("getters and setters", "properties of every leaf"), ("distribution()", "spflow/modules/leaves/leaf.py"), ("projections", "spflow/utils/projections.py")],
  "Algebraic inverse of getter, setter and constructor; interval ranges of the distribution's arguments; provenance of every distribution argument.")

p("P35", "Gradient training takes one correct step per batch and keeps the best model",
  "In every gradient training loop (train_gradient_descent, autoencoding circuits, continuous mixtures and their latent optimisation) each batch of each requested epoch leads to exactly one optimiser step over the trained parameters, on gradients of that batch's documented loss alone: the mean negative log-likelihood, plus weighted classification or reconstruction and divergence terms where these exist. "
  "Validation and evaluation use the validation data in evaluation mode without gradients and restore training mode, and the reported losses and accuracies are the averages of the quantities they name. "
  "The continuous mixtures keep a copy of the parameters with the best validation likelihood, stop early only after `patience` epochs without improvement, and return or compile exactly that copy.",
  ["inputs", "configurations", "histories"], "all data sets, batch sizes, epochs, loss weights and patience values",
  "A stale gradient, a loss of the wrong batch or a lost best snapshot still reduces the loss on the few epochs a test runs.",
  ["spflow/learn/gradient_descent.py", "spflow/zoo/apc/train.py", "spflow/zoo/apc/model.py", "spflow/zoo/cms/continuous_mixtures.py"],
  [("training loop", "train_gradient_descent"), ("APC training", "fit_apc / train_apc_step / loss_components"), ("continuous mixtures", "learn_continuous_mixture_*, _latent_opt_*")],
  "Event order per batch (clear, backward, step) over the inlined call graph; polynomial normal form of the losses; typestate of the model's mode; provenance of the best snapshot. That the loss decreases is not decided.")

p("P34", "Structure learning splits rows and variables fully and weights by frequency",
  "Every mixture built by a structure learner (LearnSPN, Prometheus, cutset networks) combines one sub-circuit per cluster or observed value, each learned on exactly that group's rows, and weights each by its group's share of the rows. "
  "Every product covers all parts of a split of the caller's variables (a cutset branch: the fixed variable's one-hot indicator and the rest), leaves are fitted on exactly the rows and variables that reach them, and the caller's options hold at every level. "
  "HCLTs give every node its own variable's emission and one transition per tree edge, from trees that maximise pairwise mutual information, and mix all learned trees uniformly.",
  ["inputs", "configurations"], "all data sets, cluster counts, thresholds and recursion depths",
  "A dropped group, a misaligned weight or a forgotten option still yields a valid circuit with a plausible likelihood.",
  ["spflow/learn/learn_spn.py", "spflow/learn/prometheus.py", "spflow/learn/cnet.py", "spflow/zoo/hclt/"],
  [("LearnSPN", "learn_spn"), ("Prometheus", "_learn_prometheus_single_channel"), ("cutset networks", "_build_cnet"), ("HCLT", "_build_hclt_from_tree, learn_chow_liu_trees_*")],
  "Dataflow of the self-recursive calls: row groups, variable groups, option forwarding; monomial normal form of the mixture weights (count / rows / channels / parts) and their alignment. Whether the clustering or the tree search finds good groups is not decided.")

p("P14", "Sampling contexts reject inconsistent routing and change wholly or not at all",
  "Whenever a sampling context is built, updated, widened, split or derived, a channel index, mask and repetition index that disagree in rank, batch size, feature width, type or device raise before anything is stored; consistent ones are stored with long indices and one repetition per sample. "
  "Validation rejects exactly the requested entries whose channel or repetition lies outside the module's range, and every module validates the context it is handed against its own output shape before using it. "
  "A derived context keeps the mode flags, temperature, device and shared leaf records, and a copy shares no tensor.",
  ["inputs", "configurations", "histories"], "all routing tensors, sampling modes and sequences of context updates",
  "Tests try a handful of malformed tensors; a check that is off by one, skipped in one mode or run after the store is hit only by the input it misses.",
  ["spflow/utils/sampling_context.py", L + "sums/sum.py", L + "ops/cat.py", L + "leaves/leaf.py"],
  [("state checks", "SamplingContext.update / with_routing / setters / __init__"), ("range checks", "validate_sampling_context, route_channel_offsets"), ("module checks", "_sample of every module")],
  "Abstract interpretation over a finite domain of ranks, sizes, dtype classes, devices and index values; typestate of validation before use.")

p("P16", "Scopes behave as sets of query and evidence variables",
  "A scope holds distinct, non-negative query and evidence variables that do not overlap, and any other construction is rejected. "
  "Equality, hashing, disjointness, joining, removal and the pairwise tests over many scopes follow set algebra on these variables, whatever order they are listed in: a join has every query variable of either scope and every evidence variable that is not thereby a query variable. "
  "Scopes are immutable values.",
  ["inputs"], "all scopes and collections of scopes",
  "Tests use two or three small scopes; evidence variables, variable order and clashes between non-neighbouring scopes are rarely among them.",
  ["spflow/meta/data/scope.py"],
  [("constructor", "Scope.__init__"), ("algebra", "join, isdisjoint, equal_query, equal_evidence, remove_from_query"), ("collections", "join_all, all_pairwise_disjoint, all_equal")],
  "Abstract interpretation over Venn regions: one element per way a variable can belong to the scopes.")

p("P33", "Mixture weights are accepted only as distributions and read back as assigned",
  "Assigning mixture weights (by constructor or later) whose shape differs from the layer's weight shape, that contain a non-positive or undefined entry, or that do not sum to one over the mixture axis raises and leaves the layer unchanged. "
  "Accepted weights and log-weights are stored so that they read back as assigned, log-weights up to normalisation. "
  "A weight tensor a layer keeps between calls is reused only outside training and gradient mode while the stored logits are unchanged, and assigning weights drops it.",
  ["inputs", "histories"], "all weight tensors, every mixture layer, and all sequences of assignments and evaluations",
  "Tests try one wrong shape and one wrong sum; a check on a single axis, a loose tolerance or a cache that survives one kind of assignment is never exercised.",
  [L + "sums/", L + "einsum/", L + "conv/sum_conv.py"],
  [("weight setters", "weights and log_weights of every mixture layer"), ("evaluation cache", "EinsumLayer._normalized_weights")],
  "Abstract interpretation of the setters over shapes, signs and sums; typestate of the evaluation cache.")

p("P42", "A circuit's learned state is in its parameters, buffers and registered children",
  "Every tensor a module keeps between calls that was learned, drawn at random or handed in by the caller is a parameter or a persistent buffer, and every child module is registered, so that state_dict, parameters() and device moves reach all of it. "
  "After construction, learning steps and setters write into the existing parameter instead of replacing it by a new object. "
  "save_model writes the whole module and load_model returns what was saved.",
  ["configurations", "histories"], "all module classes and all sequences of training, moving, saving and loading",
  "A tensor kept as a plain attribute works in every in-process test on one device; it is lost only on a round trip or a move.",
  [L, "spflow/zoo/", "spflow/utils/model_manager.py"],
  [("constructors and setters", "every nn.Module class"), ("serialisation", "save_model, load_model")],
  "Ownership analysis: dataflow classification (parameter, tensor, module, container, plain data) of every value stored on a module; persistence of random and caller-given buffers.")

p("P53", "Squared circuits report the normalised density of their squared components",
  "For fully observed rows SOCS and ExpSOCS report the log of the sum of every component's squared signed value (times the monotone circuit for ExpSOCS) minus the log partition function, which sums over the same components the inner product of each with itself (and with the monotone circuit). "
  "Signed evaluation tracks magnitude and sign exactly through weighted sums, products and concatenations, and inner and triple products contract every circuit's weights over corresponding inputs and channels down to leaf products equal to the closed form. "
  "SOCS sampling draws a component by its share of the partition function and runs Metropolis-Hastings on its squared value with the correct acceptance ratio, keeping the state and its cached scores in step.",
  ["inputs", "configurations"], "all structures built from sums, signed sums, products, concatenations and supported leaves; all parameter values and observed rows",
  "The tests compare a few small circuits with brute-force sums; unequal widths, repeated pairs, mixed leaf kinds and the chain's stationary law are not reached.",
  ["spflow/modules/sos/socs.py", "spflow/zoo/sos/", "spflow/utils/inner_product_core.py", "spflow/utils/inner_product.py", "spflow/utils/signed_semiring.py", "spflow/modules/sums/signed_sum.py"],
  [("density and partition", "SOCS, ExpSOCS log_likelihood and _log_partition"), ("signed evaluation", "_signed_eval, SignedSum, signed_logsumexp"), ("inner and triple products", "inner_product_core"), ("sampling", "SOCS._sample")],
  "Symbolic normal forms of the formulas over named axes compared with closed forms; memo-key/axis matching; block-offset matching; linear form of the acceptance ratio.")

p("P55", "Information measures combine the right joint likelihoods by their definitions",
  "entropy, mutual_information and conditional_mutual_information evaluate, by enumeration or by Monte Carlo, exactly their definitions over the joint log-likelihoods of the requested variables (all others missing), and refuse overlapping scopes; features are summed, and channels and repetitions reduced by the requested method. "
  "conditional_probability is the exponentiated difference of the joint log-likelihoods with the target set and with it erased; weight_of_evidence is the log-odds difference of the Laplace-corrected conditional probabilities under the full and the reduced evidence. "
  "weight_of_evidence_leave_one_out scores each observed entry by erasing just that entry, with all options passed on, and leaves NaN for missing entries.",
  ["inputs", "configurations"], "all models, scopes, evidence patterns and aggregation options",
  "The tests compare two small models; column order, overlapping sets, multi-channel reductions and partially missing rows are sampled at one or two points.",
  ["spflow/measures/information_theory.py", "spflow/measures/weight_of_evidence.py", "spflow/measures/_utils.py"],
  [("entropies and mutual information", "information_theory.py"), ("weight of evidence", "weight_of_evidence.py"), ("aggregation and domains", "_utils.py")],
  "Symbolic normal forms over abstract evidence tensors compared with the definitions; axis-by-axis enumeration of reductions; set-valued evaluation of the guards.")

p("P09", "Splits, merges, products and scopes agree on which position holds which feature",
  "A split hands out every feature of its input to exactly one position of one part, and its merges, its own sampling pass, the products and einsum layers above it (channels and masks) and its scope table all "
  "use that same arrangement, whatever the number of parts and features. Concatenations give each input exactly its own consecutive range of features or channels. "
  "The scope a product reports for feature f is the union of the scopes of the features it multiplies. "
  "A wrapper that permutes or pads the features of its input applies one permutation to likelihoods and scopes, undoes exactly it when it routes sampling choices, and pads with log-likelihood zero. "
  "On image-shaped circuits, an output position's likelihood, its scope, the inputs its sampling choice is routed to and the kernel weight a mixture uses for it all belong to one and the same window of the padded input grid.",
  ["inputs", "configurations"], "all split kinds, numbers of parts, features, channels and index groups; index-valued and differentiable routing",
  "Two parts of two features, or equal parts, make tiled and interleaved arrangements coincide; a wrong arrangement still samples plausible values.",
  [L + "ops/split.py", L + "ops/split_consecutive.py", L + "ops/split_interleaved.py", L + "ops/split_by_index.py", L + "ops/cat.py", L + "products/elementwise_product.py", L + "products/outer_product.py",
   L + "einsum/einsum_layer.py", L + "einsum/linsum_layer.py", L + "conv/prod_conv.py", L + "conv/sum_conv.py", L + "conv/utils.py", "spflow/utils/sampling_context.py"],
  [("split and merge", "log_likelihood / merge_split_* / feature_to_scope of Split classes"), ("routing", "map_out_* of products, SamplingContext.route_channel_offsets / slice_feature_ranges / repeat_split_feature_width")],
  "Infers the row-major layout of every reshaping operation for all sizes and compares it between the sites that must agree.")

p("P40", "Seeded calls are reproducible and no call leaves global state changed",
  "A function given a seed (or generator) draws every random number of its own from a generator seeded by it, or from the global one re-seeded inside a fork that restores it, so equal seeds give equal results, seed zero included. "
  "A call without a seed advances the caller's random state instead of discarding its draws. "
  "No function leaves the global random state re-seeded, and changed global settings (default dtype) are restored with their previous value also when it raises.",
  ["inputs", "histories", "crash_points"], "all functions taking a seed, random_state, generator or rng, and all functions touching global torch state",
  "The tests compare two equal seeds for a few functions; seed zero, unseeded repetition, the caller's state afterwards and exceptional exits are not exercised.",
  ["spflow/measures/_utils.py", "spflow/measures/information_theory.py", "spflow/interfaces/sklearn.py", "spflow/learn", "spflow/zoo/sos/models.py", "spflow/zoo/cms"],
  [("forked sampling", "measures/_utils.py"), ("seeded structure search", "learn/cnet.py"), ("default dtype", "learn/learn_spn.py")],
  "Effect analysis of every draw under an opaque given seed and under no seed; enclosing forks and finally blocks of global changes.")

p("P51", "Classifiers return the Bayes posterior of their class likelihoods and priors",
  "log_posterior and predict_proba of every multi-class model are, for each row, the class-conditional log-likelihood plus the log-weight of that class in the class mixture, normalised by log-sum-exp over the classes (exponentiated for predict_proba), and predictions are the class of highest posterior, mapped to the sorted fitted labels by the scikit-learn wrapper. "
  "Supervised naive-Bayes fitting fits every leaf with the one-hot class of each row as the weight of that class's channel, and a learnable prior to the normalised class counts. "
  "The scikit-learn estimator scores rows by summing features and reducing repetitions and channels with the configured methods.",
  ["inputs", "configurations"], "all classifiers and wrappers, numbers of classes, rows and aggregation options",
  "The tests check shapes, normalisation and single examples, which a likelihood taken from the wrong node, a posterior normalised before the prior, or a class axis mix-up in symmetric models all pass.",
  ["spflow/utils/inference.py", "spflow/interfaces", "spflow/zoo/naive_bayes.py", "spflow/zoo/rat/rat_spn.py", "spflow/zoo/einet/einet.py"],
  [("posterior", "utils/inference.py"), ("supervised fitting", "zoo/naive_bayes.py"), ("wrappers", "interfaces/sklearn.py")],
  "Axis-labelled normal forms of the posteriors compared with Bayes' rule; matching of mixture and likelihood nodes; one-hot and count axes; aggregation chains.")

p("P62", "Autoencoding circuits encode, decode and score with exactly the evidence given",
  "Over the joint variables [x | z], encode, latent_stats and log_likelihood_x condition on exactly x, decode on exactly z and the x it is given (if any), joint_log_likelihood on both, sample_prior_z on nothing; all other entries are missing. "
  "Sampling queries evaluate the circuit's likelihood of the same evidence through the same cache first, use the caller's mpe and temperature, stay differentiable, and return exactly the columns of the block asked for; with fill_evidence the given finite entries of x are kept. "
  "The latent statistics of Normal, Bernoulli, Binomial and Categorical latents are the mean, log-variance, mode and the divergence from the prior of the recorded latent parameters, summed over the latent variables of a row, and draws made from them are mean + temperature * noise * standard deviation. "
  "The autoencoder's encode, decode, reconstruct, sample_x, sample_z and likelihoods hand their arguments on to the encoder unchanged.",
  ["inputs", "configurations"], "all joint encoders, latent families, evidence combinations and options",
  "The tests check shapes, finiteness and a few statistics: conditioning on the wrong block, an ignored observation, a lost option or a divergence with a wrong term all give plausible tensors of the right shape.",
  ["spflow/zoo/apc/model.py", "spflow/zoo/apc/encoders"],
  [("evidence and queries", "zoo/apc/encoders/joint_pc_base.py"), ("latent statistics", "zoo/apc/encoders/latent_stats.py"), ("composite model", "zoo/apc/model.py")],
  "Block-level evidence analysis of each query with helpers inlined; cache and option dataflow; polynomial normal forms of moments and divergences compared with closed forms.")


p("P90", "Circuit likelihoods are numerically accurate probabilities",
  "For parameters and data of ordinary size the reported log-likelihoods are finite and agree with the exact value within the accuracy of the "
  "floating-point type, and the density of every circuit integrates to one.",
  ["inputs"], "all circuits, parameters and evidence, in floating-point arithmetic",
  "Rounding, overflow and cancellation depend on depth, width and parameter magnitude in ways no sample of values settles.",
  ["spflow/modules/", "spflow/utils/inner_product.py"], [("log-space evaluation", "log_likelihood of every module")], "not claimed")

p("P91", "Fitting never makes the model fit worse",
  "Each EM step does not decrease the training likelihood, and gradient training reduces the loss in the long run.",
  ["histories"], "all data sets, circuits and numbers of steps",
  "The guarantee is about sequences of real-valued iterates.",
  ["spflow/learn/expectation_maximization.py", "spflow/learn/gradient_descent.py"], [("EM", "expectation_maximization")], "not claimed")

p("P92", "Monte Carlo and quadrature estimates converge to the quantity they estimate",
  "Sampled entropies, divergences, normalising constants and the numerical integrals behind integral and continuous-mixture circuits converge to the "
  "exact value as the number of samples or nodes grows.",
  ["inputs", "configurations"], "all circuits and sample sizes",
  "Only asymptotic statements hold; a test compares a few sample sizes within loose tolerances.",
  ["spflow/utils/sos/", "spflow/measures/", "spflow/zoo/cms/", "spflow/zoo/pic/"], [("estimators", "spflow/measures/information_theory.py")], "not claimed")

p("P93", "Learned structures reflect the dependencies in the data",
  "Independence tests separate variables that are independent and keep dependent ones together, clusterings find the modes, and learned trees are maximum "
  "mutual information spanning trees.",
  ["inputs"], "all data sets and thresholds",
  "The result is a statistical decision on finite data.",
  ["spflow/utils/rdc.py", "spflow/learn/learn_spn.py", "spflow/zoo/hclt/"], [("dependency tests", "spflow/utils/rdc.py")], "not claimed")

NA = {
    "P90": "magnitudes of floating-point values (overflow, cancellation, rounding) over unbounded circuits and parameters: no sound static bound in reach; the formulas "
           "behind the values are decided structurally by P02, P03, P07, P08, P20, P53",
    "P91": "a statement about sequences of real-valued iterates; the update formulas and the order of the training protocol are decided by P30, P31 and P35, their "
           "monotonicity is a theorem about those formulas and not visible in the source",
    "P92": "convergence is asymptotic and statistical; the combination of the estimated terms is decided by P53 and P55",
    "P93": "a statistical decision on data values; that splits are complete, aligned and weighted by their frequency is decided by P34",
}
