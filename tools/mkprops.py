import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))

p("C01","Categorical columns are lossless",
 "A categorical column returns, for every row and in row order, exactly the string that was added for it, whatever the strings are, however many distinct ones there are (also around the 256 and 65536 boundaries where the internal integer width changes) and however the rows were split into batches. Two rows share a category index exactly when their strings are equal, index 0 stands for the string '__missing__' and nothing else, and looking a string up by name finds its index exactly when the column contains it (or it is '__missing__').",
 ["inputs","histories"],"all sequences of strings, including empty strings, arbitrary bytes, many distinct values; all ways of batching them",
 "column_test.cc tries three fixed vocabularies; the mapping has to be right for every vocabulary size and batch boundary.",
 ["src/data_store/column.cc","src/data_store/column.h"],
 [("dictionary encoding map_to_indices_/map_to_strings_","column.cc StringColumn::Add"),("narrowing to 8/16/32 bit","column.cc StringColumn::Finalize")],
 ["StringColumn::get_row_string","StringColumn::get_cat_index","col()[i]","max_int()"])

p("C02","Float bucketization keeps value, order and missingness",
 "After a float column is bucketized, every row's finite value lies inside the [min, max] range reported for its row, both ends of a bucket's reported range are consistent with order (equal values share a bucket and a larger value is never placed in a bucket with smaller bounds), and a row is marked missing exactly when its value is NaN; this holds for any batching, also for rows added after the buckets were fixed. While there are fewer than twice as many rows as buckets, every value is kept exactly; with B buckets and any number of rows there are at most 3B+3 buckets, a batching of fewer than 100*B rows gives the same result as one batch, and if no value fills 1/B of the rows then no bucket holds more than three times the average share (rows/B, rounded up). Building a column never crashes for any finite values or NaN and any bucket count of at least 2.",
 ["inputs","histories"],"all float sequences (finite values and NaN), all bucket counts >= 2, all batchings",
 "column_test.cc uses a few regular sequences; heavy values, denormals, value counts near the bucket count and late batches are not reached.",
 ["src/data_store/column.cc"],
 [("bucket construction: heavy values, then uniform binning","column.cc BuildBuckets/UniformBinning"),("assignment by lower_bound, bucket_mins_ maintenance","column.cc AddBucketizedVecHelper")],
 ["get_row_min/get_row_max","col().missing(i)","max_int()"])

p("C03","A data store is a consistent table of named columns",
 "After any sequence of adding, removing and looking up columns, a data store holds exactly the columns that were added successfully and not removed, each under its own name with its own type and contents, and all with the same number of rows, which is the row count it reports. Adding a second column with a taken name, or a column with a different number of rows than those present (zero rows included), fails with an error and changes nothing; a typed lookup returns the column exactly when it exists with that type; the column count, per-type listings and the description always agree with this.",
 ["histories"],"all sequences of Add / RemoveColumnIfExists / Get* over columns of the three types and any lengths including 0",
 "data_store_test.cc runs one fixed sequence; the invariant is over all histories.",
 ["src/data_store/data_store.cc"],
 [("name and row-count check","data_store.cc DataStore::Add"),("typed lookup","data_store.cc Get*Column")],
 ["num_rows","num_cols","GetColumn and typed getters","Description","Status of Add"])

p("C04","TSV loading returns the cells of the files",
 "Loading a table from one or more TSV blocks yields exactly the configured columns, with one row per non-empty data line in file order, every string cell byte for byte and every float cell as the nearest float (the documented missing markers NAN nan NaN ? _ - * as missing), taken from the column with that header whatever the column order. The result does not depend on how the rows are divided over blocks, on line endings (LF or CRLF, with or without a final newline) or on the number of threads. A column may be named in several roles of the same kind (for example twice, or as target and additional column) and is loaded once; naming one column in roles of different kinds is refused with an error.",
 ["inputs","configurations","schedules"],"all tables, header orders, divisions into blocks, role assignments and thread counts",
 "tsv_data_store_test.cc loads one fixed pair of files; block boundaries, duplicate roles, line endings and threads vary over all inputs.",
 ["src/data_store/tsv_data_store.cc","src/data_store/tsv_block.cc","src/utils/utils.cc"],
 [("header lookup and column set-up","tsv_data_store.cc SetupColumns"),("row parsing","tsv_block.cc ReadTSV"),("blocks consumed in order from promises","tsv_data_store.cc LoadTSVs")],
 ["columns of the TSVDataStore","status()"])

p("C05","Malformed input files give an error, never a crash or wrong data",
 "For arbitrary file contents and paths (binary junk, ragged or empty lines, missing headers or columns, unparsable numbers, an empty file, a directory, a missing file) loading a TSV table terminates without crashing; it reports an error if a configured header is absent, a data line has too few cells for a configured column, or a cell of a float column is neither a number nor a missing marker, and otherwise succeeds with the cells as they stand. Loading a flat-file column likewise always terminates with either a column or a failed lookup, treats lines starting with '#' as comments, and reads cells that are not numbers as missing.",
 ["inputs","fault_sequences"],"all byte strings as TSV blocks and flat files, all configurations naming columns, unusual paths",
 "Tests use well-formed files plus two malformed ones; the claim is about every byte string.",
 ["src/data_store/tsv_block.cc","src/data_store/tsv_data_store.cc","src/data_store/flatfiles_data_store.cc","src/utils/utils.cc"],
 [("cell count and number checks","tsv_block.cc ReadTSV"),("strtof based cast","utils.cc StringCast"),("type line and comment handling","flatfiles_data_store.cc LoadColumn")],
 ["TSVDataStore::status","FlatfilesDataStore::GetColumn"])

p("C06","Flat-file columns load lazily, faithfully and thread-safely",
 "A flat-file store returns for each requested name the contents of the first file with that name in directory order, with the type its first line declares, every value in row order, and nothing for names that have no file, have an unknown type or have a different row count than columns already loaded. Repeated and concurrent requests, from any number of threads and in any order, all return the same column for a name, stay valid for the life of the store, and give the same contents as sequential loading.",
 ["inputs","schedules","histories"],"all directory contents, all request sequences, all interleavings of concurrent requests",
 "flatfiles_data_store_test.cc loads four fixed columns from one thread.",
 ["src/data_store/flatfiles_data_store.cc"],
 [("directory search","flatfiles_data_store.cc FindFlatfile"),("lock around the column map","flatfiles_data_store.cc GetColumn/LoadColumn")],
 ["GetColumn from several threads"])

p("C07","The split chosen for a feature is truthful and optimal",
 "When a split is found for a feature, the gain reported equals, up to rounding, the gain G_L^2/(H_L+lambda) + G_R^2/(H_R+lambda) - G^2/(H+lambda) of the two row sets that the split really produces (a term being 0 where H+lambda is 0), both sides have a weighted hessian sum above min_hessian, and the gain exceeds min_gain. For a float feature no threshold between distinct values, with missing rows on either side, that meets the same limits gives a larger gain; for a categorical feature with lambda and min_hessian zero no division of its categories into two sets gives a larger gain if all of them carry hessian, and otherwise none that cuts the categories ordered by G/(H+lambda) does. A float threshold found on a bucketed column parts the raw values of its rows the same way in a table that keeps every value exactly. If no admissible division gains more than min_gain (and 1e-6), no split is reported.",
 ["inputs"],"all columns (with ties, missing values, extreme values), gradients, hessians, non-negative weights, row subsets and regularisation settings",
 "split_algo_test.cc checks a handful of columns; optimality is a statement about all of them.",
 ["src/gbdt_algo/split_algo.cc"],
 [("histogram per bucket","split_algo.cc Histogram"),("prefix scan with missing on either side","split_algo.cc FindBestSplitPoint"),("threshold placement","split_algo.cc FindBestFloatSplit"),("category ordering","split_algo.cc SortOnNodeScore")],
 ["FindBestSplit's Split","Partition's two slices"])

p("C08","Fitted trees are greedy-optimal and their leaves are right",
 "A tree fitted to gradients has at most num_leaves leaves; every node's score is G/(H+lambda) over exactly the sampled rows routed to it, every split's recorded gain is the gain of the rows it separates, respects min_gain and min_hessian, and is the best among all features for that node (with feature sampling 1). The tree grows best-first: it stops only at the leaf limit or when no leaf has an admissible split, and the splits made are those a greedy largest-gain-first search makes (up to exact ties).",
 ["inputs","configurations"],"all feature tables, gradients, weights, lambda, min_gain, min_hessian, num_leaves",
 "tree_algo_test.cc compares two golden trees on one data set.",
 ["src/gbdt_algo/tree_algo.cc","src/gbdt_algo/split_algo.cc"],
 [("priority queue on gain","tree_algo.cc FitTreeToGradients"),("parallel sums","tree_algo.cc ComputeWeightedSum"),("best over features","tree_algo.cc FindBestFeatureAndSplit")],
 ["TreeNode returned by FitTreeToGradients"])

p("C09","Prediction equals walking every tree for every row",
 "The score of a row under a forest is the sum, over its trees, of the score of the leaf reached by walking the tree: at a float split a missing value goes to the recorded missing side and any other value (as the column holds it, exact up to the bucketization of very long columns) goes left exactly if it is below the threshold; at a categorical split a row goes left exactly if its category is listed, so categories never seen in training go right. The score depends only on the row's own values: not on which other rows are present, their order, or the number of threads. A forest that uses a feature the data does not have is refused with an error and no score.",
 ["inputs","schedules"],"all forests, tables, missing values, unseen categories, row subsets and thread counts",
 "compute_tree_scores_test.cc runs one tree; walking semantics must hold for every forest and row.",
 ["src/gbdt_algo/compute_tree_scores.cc","src/gbdt_algo/evaluation.cc","src/gbdt_algo/split_algo.cc"],
 [("recursive partition of row slices","compute_tree_scores.cc AddSampleTreeScores"),("Partition","split_algo.cc"),("feature loading check","utils.cc LoadFeatures")],
 ["EvaluateForest scores","ComputeTreeScores::AddTreeScores"])

p("C10","Checkpoint score files hold exactly the prefix predictions",
 "Evaluating a forest at test points writes for each requested tree count n between 1 and the forest size, in whatever order they are listed, a file forest.n.score with one line per row holding the score of the first n trees (to the six significant digits the format keeps), and no other score file. With an evaluation interval k the test points of a forest of size n are n, n-k, n-2k, ... down to the last positive one; without one it is n alone. If a score file cannot be written completely the evaluation reports an error instead of success.",
 ["inputs","configurations","fault_sequences"],"all forests, tables, test-point lists, intervals, and write failures (missing directory, full device)",
 "No test covers checkpoint evaluation at all.",
 ["src/gbdt_algo/evaluation.cc","src/gbdt_algo/utils.cc"],
 [("incremental scores with test point queue","evaluation.cc EvaluateForest"),("test point computation","utils.cc GetTestPoints"),("score writer","evaluation.cc WriteScoreFile")],
 ["files in the output directory","Status of EvaluateForest"])

p("C11","Boosting adds shrunken Newton steps",
 "Training N trees yields one constant tree followed by N trees; each tree's scores are the shrinkage factor times G/(H+lambda) of the loss function's gradients at the training predictions of everything before it, and the first tree is the sum of the constants the loss function returned, so that the forest's predictions are the sum the algorithm optimised. For the squared-error loss with shrinkage in (0,1], all rows used, the training loss after each further tree never increases beyond rounding. The trained forest carries the configuration in its description, keeps no internal-only fields, and training stops with an error, not a NaN model, when the constant diverges.",
 ["inputs","configurations","histories"],"all tables, weights, losses (including custom ones), shrinkage, lambda and tree counts",
 "gbdt_algo_test.cc compares one golden forest.",
 ["src/gbdt_algo/gbdt_algo.cc"],
 [("training loop","gbdt_algo.cc TrainGBDT"),("shrinkage and constant bookkeeping","gbdt_algo.cc ApplyShrinkage")],
 ["Forest returned by TrainGBDT","calls observed by a recording loss function"])

p("C12","Continuing from a base forest equals one uninterrupted run",
 "With all rows and features used, training k trees and then m more from the resulting forest gives the same model as training k+m trees at once, up to float rounding: the same splits where the gains are not tied, and predictions equal within rounding. The continued forest starts with a single constant tree that absorbs all constants, contains every non-constant tree of the base forest unchanged and in order, and leaves the base forest itself unmodified.",
 ["histories","configurations"],"all tables, losses, divisions of the iterations into runs, and base forests with any number of constant trees",
 "gbdt_algo_test.cc continues one base forest on one data set.",
 ["src/gbdt_algo/gbdt_algo.cc"],
 [("folding constants and replaying base scores","gbdt_algo.cc InitializeWithBaseForest")],
 ["Forest returned by TrainGBDT","EvaluateForest scores"])

p("C13","Models and configs survive saving and loading",
 "Saving a forest or configuration as JSON and loading it again gives back an equal message: the same structure, names, categories and flags and equal numbers (infinities equal, NaN staying NaN, and -0 counting as 0), hence the same predictions. Text that is not a JSON rendering of the expected message is refused with an error and never crashes; anything accepted re-saves and re-loads to the same message.",
 ["inputs"],"all forests and configs (deep and wide trees, any UTF-8 names, any float or double values), all byte strings as JSON input",
 "json_utils_test.cc round-trips one config.",
 ["src/utils/json_utils.cc","src/proto/tree.proto","src/proto/config.proto"],
 [("protobuf JSON conversion","json_utils.cc ToJson/FromJson")],
 ["JsonUtils::ToJson/FromJson","predictions of the reloaded forest"])

p("C14","Pointwise losses return true derivatives and the best constant",
 "For the losses mse, logloss and huberized_hinge, the gradient returned for every row is the negative derivative, and the hessian the second derivative, of that row's loss (for mse: of half the squared error) with respect to its score, taken at the current score plus the constant the loss reports, up to the last Newton correction; all are finite for finite scores, however large, whenever the constant is, and the progress text reports the weighted mean loss and how far it fell since the first call of the training. For mse the constant is the weighted mean residual and for logloss the weighted loss is minimised by the constant, whenever a minimum exists within reach of ten Newton steps. Targets of logloss and huberized_hinge other than +1 and -1 are refused with an error, and the results do not depend on the number of threads beyond rounding.",
 ["inputs"],"all targets, weights, scores (including very large ones) and thread counts",
 "The loss tests check two or three rows at zero scores.",
 ["src/loss_func/loss_func_pointwise.cc","src/loss_func/loss_func_math.cc","src/loss_func/loss_func_logloss.cc","src/loss_func/loss_func_huberized_hinge.cc"],
 [("Newton iteration for the constant","loss_func_pointwise.cc"),("closed form derivatives","loss_func_math.cc")],
 ["gradient_data_vec, c and progress of ComputeFunctionalGradientsAndHessians"])

p("C15","Pairwise losses move only comparable rows, by the right amount",
 "For the losses auc, pairwise_logloss, gbrank and lambdamart, gradients arise only from pairs of rows of the same group with different targets: in each group the gradients sum to zero, rows of groups without such pairs and rows with a missing group get zero, the row with the larger target of a group never gets a negative and the one with the smaller target never a positive gradient, and hessians are never negative. With many samples the gradients and hessians approach the expectation over all such pairs of the documented loss derivative times the product of the row weights and the pair weight (target difference if so configured; target difference times absolute discount difference of the current ranks for lambdamart), with every group rescaled to equal weight if so configured. Nothing crashes, hangs or becomes non-finite for any grouping, including groups of one row, all-equal targets and no groups at all, and a loss function that served for another training before starts afresh when it is initialised again. The progress text reports the weighted mean loss of the sampled pairs and how far it fell since the first call of the training.",
 ["inputs","configurations"],"all groupings, targets, weights, finite scores and settings",
 "The pairwise tests use two small fixed groups.",
 ["src/loss_func/loss_func_pairwise.cc","src/loss_func/group.cc","src/loss_func/loss_func_lambdamart.cc"],
 [("pair sampling per group","loss_func_pairwise.cc"),("pair weighting","PairWeightingFunc"),("rank maintenance","group.cc Rerank")],
 ["gradient_data_vec of ComputeFunctionalGradientsAndHessians"])

p("C16","Groups enumerate and sample preference pairs exactly",
 "A group counts exactly the pairs of its rows with different targets, and every sampled pair is such a pair with the larger target first, every such pair being sampled with equal probability. After reranking, ranks are a permutation in which a row with a higher score has a smaller rank; rows keep their identity, and each position reports its own target.",
 ["inputs"],"all target and score vectors with any ties, group sizes from 0 up, all generator states",
 "group_test.cc checks one group of a few rows.",
 ["src/loss_func/group.cc"],
 [("pair index arithmetic","group.cc Group::Group/SamplePair"),("ranks","group.cc Rerank")],
 ["num_pairs, SamplePair, rank, operator[], y"])

p("C17","Training is reproducible and independent of threads",
 "Training twice with the same data, configuration and seed gives identical forests, also with row, feature or pair sampling and for every loss, and the result does not depend on how the threads happen to be scheduled. Changing only the number of threads leaves the model and predictions the same up to float rounding for every loss that does not sample pairs. No two threads access the same data without synchronisation, one of them writing, during loading, training or evaluation.",
 ["schedules","configurations"],"all tables, losses, sampling settings, seeds, thread counts and interleavings",
 "Tests run one schedule with the default thread count and do not compare runs.",
 ["src/gbdt_algo/gbdt_algo.cc","src/gbdt_algo/tree_algo.cc","src/loss_func/loss_func_pairwise.cc","src/utils/subsampling.cc"],
 [("global generator seeded by Reseed","subsampling.cc"),("per-slice accumulators","tree_algo.cc, loss_func_pointwise.cc, loss_func_pairwise.cc")],
 ["Forest bytes (without timing text)","ThreadSanitizer reports"])

p("C18","Learning respects the symmetries of the data",
 "With all rows and features used, the following changes of the training data leave the learned predictions of the rows of positive weight the same up to rounding, as long as gains are not tied and limits not just met: permuting the rows, replacing integer row weights by repeated rows, adding rows of weight zero, renaming categories one-to-one, renaming and reordering features, adding a constant or duplicate feature, and applying a strictly increasing map to a float feature (splitting the same rows the same way). Scaling all weights by a power of two, with lambda, min_hessian and min_gain scaled along, changes only gains, and so does scaling the targets of mse (predictions scale along). Negating the targets of mse, logloss or huberized hinge negates the predictions; shifting the targets of mse shifts them.",
 ["inputs"],"all tables with pointwise losses, and all such transformations",
 "No test relates two training runs.",
 ["src/gbdt_algo/gbdt_algo.cc","src/gbdt_algo/tree_algo.cc","src/gbdt_algo/split_algo.cc","src/loss_func/loss_func_pointwise.cc"],
 [("histograms weighted by w","split_algo.cc ComputeHistograms"),("weighted totals","tree_algo.cc ComputeWeightedSum")],
 ["training predictions of two runs"])

p("C19","The thread pool runs every task exactly once",
 "Every task handed to the thread pool, from any thread and also from within a running task, is run exactly once, by a pool of any positive number of threads; destroying the pool returns only after all of them have finished, always returns, and makes their effects visible. Until its destruction begins, a pool of n threads can run n tasks at the same time; it never runs more.",
 ["schedules","histories"],"all pool sizes, task counts, nested submissions and interleavings",
 "The pool has no test; lost wake-ups and early shutdown show only under particular interleavings.",
 ["src/utils/threadpool.cc"],
 [("queue under mutex and condition variable","threadpool.cc Invoke/Enqueue"),("drain before exit","threadpool.cc ShutDown")],
 ["task side effects after the destructor"])

p("C20","Feature importance sums the gains of the model's splits",
 "The feature importance of a forest lists exactly the features used by an inner node of some tree, each once, with the sum of the gains of its splits divided by the largest such sum, in non-increasing order; leaves and constant trees contribute nothing. The set of features a forest needs is exactly the set named by its splits.",
 ["inputs"],"all forests with positive gains",
 "utils_test.cc checks one forest of two trees.",
 ["src/gbdt_algo/utils.cc"],
 [("recursive accumulation and normalisation","utils.cc ComputeFeatureImportance"),("feature collection","utils.cc CollectAllFeatures")],
 ["ComputeFeatureImportance","CollectAllFeatures"])

p("C21","Invalid training requests are refused cleanly",
 "A training request whose configuration is out of range (num_trees or num_leaves not positive, a sampling rate that is not in (0,1], NaN included), that names a feature the data does not have, whose loss rejects its targets, or whose pair sampling rate is not positive for a pairwise loss, returns an error status and no trained model; one with a valid configuration returns success and a model with finite scores. An unknown loss name yields no loss function, and every listed loss name yields one. No configuration of these kinds crashes or hangs.",
 ["configurations"],"all configurations, including extreme and special numeric values",
 "Tests check four invalid configurations one at a time.",
 ["src/gbdt_algo/utils.cc","src/gbdt_algo/gbdt_algo.cc","src/loss_func/loss_func_factory.cc"],
 [("range checks","utils.cc CheckConfig"),("feature loading","utils.cc LoadFeatures"),("loss Init checks","loss_func_*.cc")],
 ["Status of TrainGBDT","CreateLossFunc"])

p("C22","The command-line tool trains and tests end to end",
 "Running the tool in train mode writes a model that is a valid forest file with num_trees+1 trees and a feature-importance file that matches it, and running test mode with that model writes score files with the model's predictions for every row of the given TSV or flat files; runs with the same seed produce the same model, and TSV and flat-file forms of the same data produce the same scores. Whenever an input is missing or malformed or an output cannot be written, the tool exits with a nonzero status and says why, and it never exits with status zero without having written its complete outputs.",
 ["inputs","configurations","fault_sequences"],"all data sets, configs, flag combinations and input or output faults",
 "No test runs the binary.",
 ["src/main.cc","src/gbdt_algo/evaluation.cc","src/utils/utils.cc"],
 [("Train()/Test() drivers with CHECKs","main.cc"),("file output","utils.cc WriteStringToFile")],
 ["exit status, files written by the gbdt binary"])

p("C23","The Python module mirrors the library and reports every error",
 "Through the Python module, columns added to a data store read back with the values, types and missing entries they were given, any sequence of add, remove, erase and lookup operations behaves like a dictionary of equal-length columns, and forests trained, saved and loaded in Python predict as the library does. Every operation the library refuses (duplicate or wrong-length columns, missing features or files, bad configurations, unwritable outputs) raises a Python exception; none is silently ignored and none kills the interpreter, also when objects are used after the store they came from is gone.",
 ["inputs","histories"],"all sequences of operations on DataStore, column and Forest objects, all column contents",
 "There are no Python tests.",
 ["src/python/datastore_py.cc","src/python/column_py.cc","src/python/forest_py.cc","src/python/train_gbdt_py.cc","src/python/gbdt_py_base.cc","gbdt/_data_store.py","gbdt/_forest.py"],
 [("pybind11 wrappers","src/python/*.cc"),("status to exception mapping","gbdt_py_base.cc ThrowException")],
 ["Python exceptions and return values"])

p("C24","Sampling and work division are sound",
 "Row and feature sampling with rate r returns distinct indices below n in increasing order, all of them for rate 1, each index independently with probability r, and depends only on the seed. Dividing samples among any positive number of groups yields consecutive slices that together cover every sample exactly once, in order, with sizes differing by at most one.",
 ["inputs","configurations"],"all n, rates in (0,1], seeds and group counts",
 "subsampling_test.cc tries a few sizes.",
 ["src/utils/subsampling.cc","src/utils/vector_slice.h"],
 [("uniform subsampling","subsampling.cc UniformSubsample"),("slice arithmetic","subsampling.cc DivideSamples")],
 ["vectors and slices returned"])
p("C25","Drawings and plots show the forest that is given",
 "Drawing tree i of a forest yields exactly its nodes, each division with one edge to its left child followed by one to its right child, labelled with the feature, its threshold (to three decimals, with the side missing values take) or its listed categories, and the score, leaves with their score (to six decimals). A partial dependency plot shows for each requested value the mean change of the forest's score, and its spread, over the rows of the data when the feature is set to that value in every row instead of the base value (missing for a float feature, the first value for a categorical one, unless given): floats in increasing order with bounds at 1.96 deviations, categories ordered by mean change. The importance chart shows each feature's importance, the largest on top. Neither the forest nor the data are changed; an unknown or raw column, a tree beyond the last and a missing plotting package are refused with an exception.",
 ["inputs"],"all forests, tables, features and values",
 "No test covers the Python module.",
 ["gbdt/_forest_visualizer.py","gbdt/_partial_dependency_plot.py","gbdt/_forest.py"],
 [("walk of the saved tree","_forest_visualizer.py __visualizeTreeInternal__"),("replacing a feature","_partial_dependency_plot.py"),("chart","_forest.py feature_importance_bar_chart")],
 ["calls to graphviz and matplotlib","exceptions","data store contents"])
p("C26","Operations leave nothing behind",
 "Once its results are destroyed, every operation of the library and of the Python module has given back the memory, the file descriptors and the threads it took, whether it succeeded or was refused, so that repeating it any number of times does not make the process grow. This holds for loading tables and flat files, building and changing data stores, training with every loss and with or without a base forest, scoring, writing score files, reading and writing models, feature importance and thread pools.",
 ["inputs","histories","faults"],"all inputs and histories of operations, refused ones included",
 "No test runs an operation twice and looks at what remains.",
 ["src/data_store","src/gbdt_algo","src/loss_func","src/utils","src/python"],
 [("reading blocks in parallel","tsv_data_store.cc LoadTSVs"),("columns on demand","flatfiles_data_store.cc GetColumn"),("ownership of columns","data_store.cc Add"),("joining the threads","threadpool.cc")],
 ["allocated memory","/proc/self/fd","/proc/self/task"])
p("C27","Faults while files are read or written are reported, never swallowed",
 "If the operating system fails to open, read, write or close a file, at any point of it, once or for good, then loading tables and flat-file columns, writing score files, and training and testing with the command line tool either report an error (a refused table, no column, a nonzero exit status with a message) or produce exactly the results they produce without the fault; part of a file is never taken for the whole. Transfers that are merely cut short or interrupted change nothing. Once the fault is gone the same request, on the same store of flat files too, yields the results it would have yielded without it.",
 ["faults"],"all files, all fault points and kinds of fault",
 "No test injects an I/O fault; real ones are rare and strike at arbitrary offsets.",
 ["src/data_store/tsv_data_store.cc","src/data_store/tsv_block.cc","src/data_store/flatfiles_data_store.cc","src/gbdt_algo/evaluation.cc","src/utils/utils.cc","src/main.cc"],
 [("header of a table","tsv_data_store.cc ReadFirstLine"),("rows of a table","tsv_block.cc ReadTSV"),("a column's file","flatfiles_data_store.cc LoadColumn"),("score files","evaluation.cc WriteScoreFile"),("whole files","utils.cc ReadFileToStringOrDie, WriteStringToFile")],
 ["status","columns","score files","exit status and outputs of the tool"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),[len(x['title']) for x in P if len(x['title'])>80])
import re
for x in P:
    n=len(re.findall(r'[.?!](?=\s+[A-Z])',x['statement']))+1
    if n>3: print(x['id'],n)
