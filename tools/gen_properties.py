#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

prop("C01","Sampling conserves the outcome: residual + fitted values = outcome",
"After every completed sampling step (grow-from-root or MCMC, of any forest or random-effects term sharing one residual, including a residual adjustment for a changed leaf basis or for a forest loaded or initialised at a constant), the residual equals the outcome minus the current contributions of all model terms, row by row, up to floating-point rounding. The fitted values the sampler has cached for each tree and row equal what that tree predicts for that row, and predicting the training data with the newest retained sample of each forest reproduces exactly the contribution that was removed from the residual.",
["histories","inputs","configurations"],
"every interleaving of GFR / MCMC / random-effect / variance / basis-change / residual-adjust / reload steps over one or more forests, every training set without missing values, leaf model (constant, univariate, multivariate regression), variance weights and RNG state",
"The stable tests never run the C++ samplers; the R/Python sampler tests cannot even load the full library in the pinned build. Conservation must hold after every step of an unbounded random history.",
["include/stochtree/tree_sampler.h","src/sampler.cpp","src/partition_tracker.cpp","include/stochtree/partition_tracker.h","src/leaf_model.cpp","include/stochtree/random_effects.h","src/random_effects.cpp"],
[("add back cached fit, resample tree, subtract new fit","include/stochtree/tree_sampler.h UpdateResidualTree / SampleOneIter"),("whole-forest residual adjustment","include/stochtree/tree_sampler.h UpdateResidualEntireForest"),("cached per-tree predictions","include/stochtree/partition_tracker.h SamplePredMapper")],
[("residual","outcome minus all current fits","ColumnVector passed to the samplers"),("sample prediction cache","per (row, tree) fit","ForestTracker")],
["residual vector after each SampleOneIter","ForestTracker::GetTreeSamplePrediction","ForestContainer::Predict on training data"])

prop("C02","Every training row is tracked in exactly the leaf the tree routes it to",
"At every point between sampling steps, and after every individual split or prune applied to a tree and its tracker, the row-to-leaf assignment held for that tree equals the leaf reached by evaluating the tree's rules on the row's covariates. The per-leaf row sets are a partition of all rows (each row once, sizes adding to n), the same partition is reported through every view of it (row-to-node map, per-node row ranges and sizes, per-node row lists), and where presorted per-feature orders are kept each leaf's order holds exactly the leaf's rows, non-decreasing in that feature.",
["histories","inputs","configurations"],
"every history of splits, prunes and resets (numeric, ordered and unordered categorical rules, with and without presorted orders) over every training set without missing values, and every sampler history that produces such operations",
"Existing tests check a hand-written split or two on a 10-row matrix, and in the pinned build none of them runs; drift appears only for particular sequences of split/prune/reuse of node ids.",
["src/partition_tracker.cpp","include/stochtree/partition_tracker.h","include/stochtree/tree_sampler.h","src/tree.cpp"],
[("unsorted partition split/prune","src/partition_tracker.cpp FeatureUnsortedPartition"),("presorted partition split","src/partition_tracker.cpp SortedNodeSampleTracker / FeaturePresortPartition"),("row to node map","include/stochtree/partition_tracker.h SampleNodeMapper")],
[("node begin/length/indices","row ranges per node","FeatureUnsortedPartition")],
["ForestTracker::GetNodeId","UnsortedNodeBegin/End/Size","TreeNodeIndices","sorted NodeIndices"])

prop("C03","Trees stay structurally sound under any sequence of edits",
"Under every sequence of the public tree operations (expand a leaf, collapse, change leaf values, clone, reset, serialise and reload), a tree behaves exactly like the abstract binary tree with the same edits applied: same shape, split rules, leaf values, parents, depths, leaf and leaf-parent lists, node counts and routing for every row. In particular node-id reuse after pruning never resurrects stale rules, values or children, and a clone, a reset tree or a reloaded tree can be edited further with the same results as a freshly built equal tree.",
["histories","inputs"],
"every finite sequence of edits on a tree with scalar or vector leaves and numeric or categorical rules",
"Existing tree tests perform at most three fixed edits; stale state after deletion, node-id reuse, clone or reload needs longer, specific sequences (and tree.cpp is not linked in the pinned build).",
["src/tree.cpp","include/stochtree/tree.h"],
[("node allocation and deletion/reuse list","src/tree.cpp AllocNode / DeleteNode"),("expand / collapse / change","src/tree.cpp ExpandNode, CollapseToLeaf, ChangeToLeaf"),("clone and (de)serialisation","src/tree.cpp CloneFromTree, to_json, from_json")],
[("leaves_, leaf_parents_, internal_nodes_, deleted_nodes_","node classification","Tree")],
["Tree accessors","EvaluateTree","to_json"])

prop("C04","Every prediction path returns the sum of the routed leaf values",
"For any retained sample, on any dataset without missing values, every prediction entry point (per container, per ensemble, tree sub-ranges, raw per-dimension and single-sample variants) returns, row by row and in the documented layout, the sum over trees of the value of the leaf that the row is routed to, combined with the row's leaf basis where the leaf is a regression. The result does not depend on the other rows in the batch or their order, and predicting never changes the model or the data.",
["histories","inputs","configurations"],
"every forest reachable by sampling, editing or reloading; every dataset incl. rows exactly on thresholds, unseen category values, +-0, huge and tiny values; every output dimension and basis",
"The tests compare one or two rows of hand-built one-split ensembles; equality must hold for every reachable forest and input and for all entry points at once.",
["include/stochtree/ensemble.h","src/container.cpp","include/stochtree/tree.h","src/tree.cpp"],
[("row routing","include/stochtree/tree.h EvaluateTree / NextNode"),("ensemble prediction","include/stochtree/ensemble.h PredictInplace / PredictRawInplace"),("container prediction","src/container.cpp Predict / PredictRaw")],None,
["ForestContainer::Predict / PredictRaw","TreeEnsemble::PredictInplace / PredictRawInplace"])

prop("C05","Leaf indices and forest kernels agree with how the trees route rows",
"For any retained sample and any train/test datasets, the leaf index reported for a (row, tree) pair is in [0, number of leaves of the ensemble), and two (row, tree) pairs of one ensemble get equal indices exactly when they are the same leaf of the same tree. The train, test-train and test kernel matrices hold, at (i,j), the number of trees in which the two rows fall in the same leaf (symmetric, with the tree count on the diagonal), for every way of supplying the data and for repeated use of one kernel object with other ensembles or data.",
["histories","inputs","configurations"],
"every reachable forest, every pair of datasets, and every sequence of computations on one kernel object",
"The kernel tests use two fixed two-tree ensembles with four rows; reuse of the kernel object and forests from real sampling histories (with recycled node ids) are never exercised.",
["src/kernel.cpp","include/stochtree/kernel.h","include/stochtree/ensemble.h","src/tree.cpp"],
[("leaf numbering","src/tree.cpp PredictLeafIndexInplace"),("kernel accumulation","src/kernel.cpp ForestKernel")],None,
["TreeEnsemble::PredictLeafIndices","ForestKernel getters"])

prop("C06","Sampled trees respect the model's constraints",
"In every tree produced by the samplers, no leaf is empty of training rows and every leaf of a tree that has been split holds at least the configured minimum number of training rows. A feature whose selection weight is zero is never split on, and every rule is one that separates training rows reaching it (numeric thresholds lie within the range of the feature among those rows, so rows go both ways), for negative as well as positive covariates.",
["histories","inputs","configurations"],
"every GFR / MCMC history over every training set without missing values, any minimum leaf size, variable weights, feature types and RNG state including extreme draws",
"No stable test runs a sampler; a constraint violation needs particular data (e.g. ties, negative ranges, boundary leaf sizes) together with particular random draws.",
["include/stochtree/tree_sampler.h","include/stochtree/cutpoint_candidates.h","src/cutpoint_candidates.cpp","src/leaf_model.cpp","include/stochtree/leaf_model.h"],
[("MCMC proposal and validity checks","include/stochtree/tree_sampler.h GrowTreeOneIter"),("GFR cutpoint enumeration with size constraint","src/leaf_model.cpp EvaluateAllPossibleSplits; src/cutpoint_candidates.cpp")],None,
["trees in the newest retained sample after each step"])

prop("C07","Retained samples never change once drawn",
"Once a posterior sample of a forest or random-effects model has been retained, no later operation (further sampling of the same or another term, adding samples, prediction, kernels, serialisation, changes to datasets or variance parameters) changes its trees, leaf values or predictions on given data. The number of retained samples only grows, by exactly one per sampling step, in order of drawing.",
["histories","configurations"],
"every history of sampling, prediction, (de)serialisation and dataset updates",
"No test takes a second sample and re-reads the first; aliasing between samples shows only for particular later edits (for instance a prune in a later sample).",
["src/container.cpp","include/stochtree/container.h","include/stochtree/ensemble.h","src/tree.cpp","include/stochtree/random_effects.h"],
[("deep copy of the previous sample before editing","src/container.cpp CopyFromPreviousSample; TreeEnsemble copy constructor; Tree::CloneFromTree"),("appending random-effects draws","src/random_effects.cpp RandomEffectsContainer::AddSample")],None,
["GetEnsemble(i) content and predictions for all earlier i","RandomEffectsContainer getters"])

prop("C08","Saving and reloading a model preserves it exactly",
"Serialising a forest container, ensemble, tree or random-effects model (in memory or to a file), and loading the result into a new or an already used object, gives a model with the same samples, structure, bit-identical leaf values and predictions, which serialises to the same text again. Further sampling or editing continued from the reloaded model gives the same results as continuing from the original, and a model saved at any point of sampling (including before the first sample) can be loaded.",
["histories","inputs","crash_points"],
"every model reachable by sampling or editing, saved and reloaded (process restart) at every point of a session, any number of times, into fresh or used objects",
"The JSON tests compare a few fields of hand-built trees; loss shows for trees with recycled nodes, categorical rules, vector leaves, or when sampling continues after the reload.",
["src/tree.cpp","include/stochtree/ensemble.h","src/container.cpp","include/stochtree/container.h","src/random_effects.cpp","include/stochtree/random_effects.h"],
[("tree to/from JSON","src/tree.cpp"),("ensemble/container to/from JSON","include/stochtree/ensemble.h, src/container.cpp"),("random effects to/from JSON","src/random_effects.cpp")],None,
["to_json/from_json, SaveToJsonFile/LoadFromJsonFile"])

prop("C09","Storage faults are reported and never corrupt a model in memory",
"If saving a model to a file returns without an error, the file holds the complete model: loading it gives the model that was saved; if the medium fails (unwritable path, I/O error, full disk or short write at any point) the save reports an error and the in-memory model is unchanged. If loading fails (missing, unreadable or truncated file, or a document lacking required parts) the load reports an error and leaves the target model exactly as it was, and a retry once the fault has cleared succeeds.",
["fault_sequences","crash_points","histories"],
"every save/load sequence, with a fault of any kind injected at every system call and byte offset of the transfer, and every truncation of a saved file",
"No test ever makes an I/O call fail; the fault must hit a particular call or byte.",
["include/stochtree/container.h","include/stochtree/random_effects.h","src/random_effects.cpp","src/container.cpp","src/serialization.cpp"],
[("save to file","include/stochtree/container.h SaveToJsonFile; src/serialization.cpp"),("load from file","include/stochtree/container.h LoadFromJsonFile")],None,
["return/exception of save and load, file bytes, in-memory model"])

prop("C10","A seed determines a chain, whatever else runs in the process",
"A sampling session is a function of its inputs and seed only: repeating it gives bit-identical draws, residuals and serialised models in a fresh process, whatever the contents of fresh memory, the heap layout or earlier activity in the process. Chains that share no objects do not influence each other: any interleaving of their operations on one thread, or their concurrent execution on several threads under any schedule, gives each chain exactly the result it has when run alone.",
["schedules","histories","configurations"],
"every pair or triple of sessions, every operation-level interleaving and every thread schedule, every initial memory content",
"No test runs two chains in one process, and reproducibility across memory contents, layouts and schedules is not something a single execution can show.",
["include/stochtree/tree_sampler.h","src/leaf_model.cpp","src/partition_tracker.cpp","include/stochtree/random.h","include/stochtree/normal_sampler.h","include/stochtree/ig_sampler.h","src/random_effects.cpp","src/tree.cpp"],
[("all state held in caller-owned objects; RNG passed explicitly","samplers take std::mt19937&; no globals")],None,
["draws, residuals and JSON of every chain"])

prop("C11","A failed memory allocation is reported and corrupts nothing",
"If any memory allocation fails during a public operation, the operation either completes correctly or reports the failure to the caller as an exception; the process does not crash, and no memory is leaked, freed twice or used after free. Samples retained earlier keep their content, every retained sample slot the model reports can be read, and all objects can be destroyed.",
["fault_sequences","histories"],
"a failure injected at any allocation (single or from some point on) of any sampling, prediction, kernel, serialisation or loading operation in any session",
"Allocation failure never happens in tests; the failing allocation must be a particular one inside a particular operation.",
["src/container.cpp","include/stochtree/ensemble.h","src/tree.cpp","src/partition_tracker.cpp","include/stochtree/tree_sampler.h","src/random_effects.cpp","include/stochtree/cutpoint_candidates.h"],
[("RAII ownership of trees, partitions and samples","std::unique_ptr / std::vector members throughout")],None,
["exceptions, retained samples, live heap blocks"])

prop("C12","Tree draws follow the documented tree prior, likelihood and proposal law",
"Given the data, the residual without the tree's own fit, the leaf prior, the error variance and observation variance weights: (1) A grow-from-root step chooses at each node between the valid candidate splits (both children at least the minimum leaf size, feature weight above zero), each with probability proportional to the marginal likelihood of the two children, and stopping, with probability proportional to the marginal likelihood of the unsplit node times ((1+depth)^beta/alpha - 1) times the number of valid candidates. The candidates are the distinct values a feature takes in the node, or, for a numeric feature in a node with more rows than the cutpoint grid size, only every k-th row in feature order (k = rows divided by grid size, rounded up), moved up to the end of a run of equal values, so never more than the grid size. (2) An MCMC step proposes to grow or to prune with probability 1/2 each where both are possible; a grow picks a leaf uniformly, a feature by its weight and a cutpoint uniformly over the feature's range among the rows of the leaf, a prune picks a leaf parent uniformly; a proposal that leaves a child below the minimum leaf size is refused, any other is accepted with the Metropolis-Hastings probability for the branching prior alpha(1+depth)^-beta, the marginal likelihoods and these proposal probabilities, so that the conditional posterior of the tree is left invariant.",
["inputs","histories","configurations"],
"every training set, residual, tree state, prior setting and leaf model; stated over the distribution of the RNG stream",
"No stable test runs a sampler; a wrong weight, prior term or acceptance ratio yields plausible output on every single run and shows only against the exact law over many seeded runs.",
["include/stochtree/tree_sampler.h","src/leaf_model.cpp","include/stochtree/leaf_model.h","include/stochtree/cutpoint_candidates.h","src/cutpoint_candidates.cpp","include/stochtree/prior.h"],
[("GFR split evaluation and selection","include/stochtree/tree_sampler.h SampleSplitRule"),("MH ratio","include/stochtree/tree_sampler.h GrowTreeOneIter / PruneTreeOneIter"),("marginal likelihoods","src/leaf_model.cpp SplitLogMarginalLikelihood, NoSplitLogMarginalLikelihood")],None,
["distribution of trees drawn over seeds"])

prop("C13","Parameter draws follow their documented conditional posteriors",
"Given everything else, leaf parameters (constant, univariate and multivariate regression; with and without observation variance weights) are drawn from their conjugate normal posterior given the partial residual, prior and global variance. The global error variance with prior InvGamma(nu/2, nu*lambda/2) is drawn from InvGamma((nu+n)/2, (nu*lambda+SSR)/2), the leaf variance with prior InvGamma(a/2, b/2) from InvGamma((a+L)/2, (b+S)/2) for L leaves with sum of squares S, and the random-effects group parameters, working parameter and variance components from their conjugate posteriors under the stated normal and inverse-gamma priors.",
["inputs","histories","configurations"],
"every session state reached by the samplers, all hyperparameters; stated over the distribution of the RNG stream",
"No stable test examines any draw's distribution, and a wrong shape, scale, weight or sign gives plausible output on every single run.",
["src/leaf_model.cpp","include/stochtree/leaf_model.h","include/stochtree/variance_model.h","include/stochtree/ig_sampler.h","include/stochtree/normal_sampler.h","src/random_effects.cpp","include/stochtree/random_effects.h"],
[("leaf posteriors","src/leaf_model.cpp PosteriorParameterMean/Variance, SampleLeafParameters"),("variance models","include/stochtree/variance_model.h"),("random-effects posteriors","src/random_effects.cpp MultivariateRegressionRandomEffectsModel")],None,
["drawn values standardised by the exact conditional posterior"])

prop("C14","Random-effects groups are tracked and predicted by their own label",
"Each observation belongs to exactly the group carrying its label, for any integer labels in any order, including the last group and groups with one member: group membership lists partition the rows, and after each random-effects sampling step the residual drops by exactly the current group effect of each row's own group. Retained random-effects samples predict, for any dataset and row order, the row's basis times the coefficients retained for its label; a label never seen in training is reported as an error rather than predicted as another group, also after saving and reloading.",
["histories","inputs","configurations"],
"every label multiset and order, number of components, history of sampling / reload / prediction steps",
"The random-effects tests use one fixed label layout with two equal groups and never look up an unknown label or a singleton last group.",
["src/random_effects.cpp","include/stochtree/random_effects.h","include/stochtree/category_tracker.h","include/stochtree/partition_tracker.h"],
[("label to group mapping","include/stochtree/category_tracker.h; LabelMapper"),("residual add/subtract","include/stochtree/random_effects.h AddCurrentPredictionToResidual / SubtractNewPredictionFromResidual"),("prediction from retained samples","src/random_effects.cpp RandomEffectsContainer::Predict")],None,
["RandomEffectsTracker, RandomEffectsContainer::Predict"])

prop("C15","Text input is delivered line by line exactly once, however it is chunked",
"Reading a text file through the library's readers delivers every non-empty line exactly once, in order and unmodified, whatever the block size, the boundaries at which the underlying reads return, the line-ending style, blank lines, header skipping and the scheduling of the reading and processing threads; counting, filtering, sampling and parallel variants agree with the plain reader. A file that cannot be opened or whose reads fail is reported as an error, not treated as an empty or shorter file.",
["schedules","inputs","fault_sequences"],
"every file content, every partition of it into read results (short reads), every interleaving of the reader and processing threads, and a read error at any position",
"The io code is not even linked into the pinned build's tests, and a boundary defect needs a line end to fall exactly at a block edge.",
["include/stochtree/io.h","src/io.cpp"],
[("block-wise reading with a helper thread","include/stochtree/io.h PipelineReader"),("line reassembly across blocks","include/stochtree/io.h TextReader"),("file access","src/io.cpp VirtualFileReader / LocalFile")],None,
["lines and counts seen by the caller"])

prop("C16","Python sessions are reproducible and their predictions match the samples",
"Through the Python package, sampling a supervised or causal model with a given random seed and data gives the same draws every time in any process, whatever other models were sampled, interleaved or collected in between and whatever state numpy's global generator has, and does not modify the caller's arrays or frames. Predicting the training data from the returned model reproduces the in-sample predictions it reports, test-set predictions reported by sampling equal those of a later predict call, a model restored from its saved form (file, string or multi-model serializer) predicts identically, and a save or load that fails is reported and leaves the model as it was. Outcome predictions are the sum of the sampled model terms on the original scale. Documented options run to completion and take effect: number of trees, which draws are kept (warm-up, burn-in, final), minimum leaf size, variable weights and subsets, variance parameters drawn from their conditional posterior or held fixed, propensity and treatment-coding choices. Two models sampled on interleaved threads each give the draws they give alone.",
["histories","configurations","schedules","fault_sequences"],
"every supported combination of options (GFR / MCMC / burn-in counts, test set, leaf basis, variance sampling flags, treatment coding, propensity), every interleaving of several models in one process, every storage fault at save or load",
"The Python sampler tests cannot load the full extension in the pinned build and check a handful of option combinations without seeds or interleavings.",
["stochtree/bart.py","stochtree/bcf.py","stochtree/sampler.py","stochtree/forest.py","stochtree/data.py","src/py_stochtree.cpp"],
[("session loop","stochtree/bart.py sample / predict; stochtree/bcf.py"),("bindings","src/py_stochtree.cpp")],None,
["numpy arrays returned by sample/predict"])

prop("C17","R sessions are reproducible and their predictions match the samples",
"Through the R package, fitting a supervised or causal model with a given random seed and data gives the same draws every time in any process, whatever other models were fitted in between and whatever state R's generator has. Predicting the training data from the returned model reproduces the in-sample predictions it reports, test-set predictions reported at fitting equal those of a later predict call, and a model saved to JSON (string or file) and restored predicts identically; a save or load that fails is reported and leaves the model as it was. Outcome predictions are the sum of the sampled terms, random effects included, on the original scale, and forest kernels and random-effects samples extracted from a fitted model agree with its predictions. Documented options run to completion and take effect: number of trees, which draws are kept, minimum leaf size, variable weights and subsets, factor and integer columns, variance parameters drawn from their conditional posterior or held fixed. Garbage collections at any moment, sampling other models inside the loop and a cut-off sampling run change nothing for other models.",
["histories","configurations","fault_sequences"],
"every supported combination of options (GFR / MCMC / burn-in counts, test set, leaf basis, random effects, variance sampling flags, treatment coding, propensity), every order of models in one process, write failure at save time",
"The stable R tests cover only data-frame preprocessing; the compiled library is never loaded.",
["R/bart.R","R/bcf.R","R/model.R","R/forest.R","R/random_effects.R","R/serialization.R","src/sampler.cpp","src/forest.cpp","src/serialization.cpp","src/R_random_effects.cpp"],
[("session loop","R/bart.R bart / predict.bartmodel; R/bcf.R"),("bindings","src/cpp11.cpp, src/*.cpp"),("model serialisation","R/serialization.R")],None,
["values returned by bart/bcf/predict"])

prop("C18","Covariate preprocessing is a fixed, invertible-by-metadata encoding",
"Preprocessing covariates for training and reusing its metadata for a test set encodes every column by the training rule (category levels, ordering, one-hot layout, feature types), independent of the values in the test set.",
["inputs"],
"every data frame with numeric, ordered and unordered columns, and every later test frame",
"The stable tests cover it on fixed frames; it is a pure function of its input.",
["R/utils.R"],
[("preprocessing with stored metadata","R/utils.R preprocessTrainDataFrame / preprocessPredictionDataFrame")])

prop("C19","Text-to-number conversions are exact and reject malformed text",
"The text parsing helpers of the library return the number denoted by the text, or report failure, for every string.",
["inputs"],
"every string",
"Only a few fixed strings are parsed anywhere; it is a pure function of its input.",
["include/stochtree/common.h"],
[("Atof / AtoiAndCheck / AtofAndCheck","include/stochtree/common.h")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),"properties")
