"""What each check runs. Counts are cases over all workers; the seed and the case number alone decide a case."""
OPT, ASAN, TSAN = "opt", "asan", "tsan"


def st(harness, flavour, quick, thorough, **kw):
    return dict(harness=harness, flavour=flavour, quick=quick, thorough=thorough, **kw)


CHECKS = {
    "C01": dict(
        note="Reference: the list of strings that was added. Sanitizers on.",
        stages=[st("c01", ASAN, 9000, 150000)],
        rule="Rows drawn from vocabularies of short, special, binary and long strings (and ones of about 256 and "
             "65536 distinct strings), split into random batches; non-trivial: at least two distinct strings with a "
             "repetition, or a vocabulary at a width boundary.",
    ),
    "C02": dict(
        note="Reference: the raw values; interval, order, equality, missingness and size bounds checked for every row.",
        stages=[st("c02", ASAN, 8000, 120000)],
        rule="Float rows (integers, fractions, neighbouring floats, denormals, huge values, NaN) with bucket counts from "
             "2 up, random batchings, heavy values arranged around the bucket count, row counts beyond 100*B whose first rows may be all missing or all equal; "
             "non-trivial: at least three distinct values with repetition, rows arriving after the buckets were fixed, "
             "or several heavy values.",
    ),
    "C03": dict(
        note="Reference: a map from name to type and contents; the whole state is compared after every operation.",
        stages=[st("c03", ASAN, 30000, 400000)],
        rule="Histories of up to 40 add/remove/lookup operations over eight names, three column types and zero to four "
             "rows; non-trivial: at least one refused addition or one removal of an existing column.",
    ),
    "C04": dict(
        note="Reference: the generated cells, numbers by the C library. Blocks, line endings, blank lines, thread counts "
             "and role assignments are varied while the expected table stays the same.",
        stages=[st("c04", ASAN, 12000, 200000)],
        rule="Tables of up to six columns and (mostly) up to 24 rows of numbers, markers and text, written as one to six "
             "blocks with random line endings, blank lines and header padding, some with hundreds of columns, cells of up "
             "to 200,000 bytes, up to 80 blocks or 70,000 rows; non-trivial: a configured column and two "
             "rows, or conflicting roles.",
    ),
    "C05": dict(
        note="Reference: an independent byte-level reading of both formats, numbers by the C library. Sanitizers on; the "
             "thorough tier adds a coverage-guided campaign over the same generators.",
        stages=[st("c05", ASAN, 80000, 500000),
                dict(harness="c05", libfuzzer=True, props=["tsv", "flat"], seconds=120, tiers=("thorough",))],
        rule="Files from a grammar with faults (ragged lines, odd cells, wrong headers) or token soup with raw bytes, bad "
             "paths and directories; non-trivial: at least one data row, or an input that must be refused.",
    ),
    "C06": dict(
        note="Reference: the generated files and the order of directories. Concurrent requests run with real threads "
             "released together, under AddressSanitizer and again under ThreadSanitizer.",
        stages=[st("c06", ASAN, 12000, 150000, scheduled=True), st("c06", TSAN, 4000, 60000, scheduled=True)],
        rule="Histories of file writes and requests over up to three directories, and concurrent request plans of 2 to 8 "
             "threads; non-trivial: a loaded column with a repeated request, a later file or several directories, and every "
             "concurrent plan.",
    ),
    "C07": dict(
        note="Reference: every division enumerated over the raw rows with sums in extended precision; gradients and weights are "
             "small dyadic numbers so that limits have one right answer.",
        stages=[st("c07", ASAN, 300000, 4000000)],
        rule="A feature column of up to 24 rows (sometimes hundreds, rarely 75,000 of different values) with ties, missing and extreme values, gradients, "
             "hessians (zero included), weights (zero, tiny and huge included), row subsets, lambda, min_hessian and min_gain; "
             "non-trivial: at least two candidate divisions, or a split found in the real-valued generator.",
    ),
    "C08": dict(
        note="Reference: rows routed by raw values, sums in extended precision, all divisions of all features enumerated at "
             "every node, and the growth order replayed.",
        stages=[st("c08", ASAN, 16000, 400000)],
        rule="Tables of up to four features (float, categorical, missing) and 24 rows (sometimes hundreds), gradients, "
             "hessians, weights and limits, row and feature sampling; non-trivial: a tree with at least two splits, or a "
             "divided tree under sampling.",
    ),
    "C09": dict(
        note="Reference: a walk of every tree for every row over the raw values; the same rows are scored again with other "
             "threads, in other tables and from flat files.",
        stages=[st("c09", ASAN, 9000, 250000)],
        rule="Random forests (thresholds at, next to and away from values, unseen categories, chains) over random tables; "
             "non-trivial: at least one row and one split.",
    ),
    "C10": dict(
        note="Reference: prefix sums of tree walks; the output directory is listed and every line parsed. Faults: missing "
             "directory, a file in its place, /dev/full behind one score file.",
        stages=[st("c10", ASAN, 12000, 250000)],
        rule="Random forests and tables with lists of test points in any order, with repetitions and out of range; "
             "non-trivial: at least one test point within the forest and one row, or a write that must fail.",
    ),
    "C11": dict(
        note="A recording loss function sees every prediction vector and returns known gradients; trees are then checked against "
             "them with the exhaustive reference of C08, constants and predictions against their sums.",
        stages=[st("c11", ASAN, 9000, 150000)],
        rule="Random tables with targets that follow the features, losses mse, logloss, huberized hinge and made-up ones, "
             "up to six trees; non-trivial: at least one split was made, or the constant diverges.",
    ),
    "C12": dict(
        note="Reference: the uninterrupted run, compared tree by tree until gains tie, and the recording loss function for "
             "runs from arbitrary base forests.",
        stages=[st("c12", ASAN, 7000, 120000)],
        rule="Runs divided in two or three pieces, and arbitrary base forests with constant trees anywhere; non-trivial: a "
             "tree with a split (and a non-constant base tree), compared to the end.",
    ),
    "C13": dict(
        note="Round trips compared field by field with numbers by bits; refusal judged by an independent JSON reader of the "
             "message's schema. Sanitizers on; the thorough tier adds a coverage-guided campaign over damaged texts.",
        stages=[st("c13", ASAN, 20000, 400000),
                dict(harness="c13", libfuzzer=True, props=["forest_text", "config_text"], seconds=120, tiers=("thorough",))],
        rule="Random forests and configs (special floats, awkward UTF-8 names, chains) and saved texts damaged by edits, "
             "truncation and token soup; non-trivial: a forest with a split or config with several fields set, or a text "
             "that differs from what was saved.",
    ),
    "C14": dict(
        note="Reference: the losses and their derivatives in extended precision, and a bisection for the best constant.",
        stages=[st("c14", ASAN, 20000, 300000)],
        rule="Targets, weights (zero included) and scores from small to huge, thread counts 1 to 8, bad targets; "
             "non-trivial: at least two rows with different targets, or scores beyond the range of exp.",
    ),
    "C15": dict(
        note="Reference: the expectation over all comparable pairs enumerated in extended precision, with a confidence band "
             "for the sampled sums; sign and zero-sum invariants for every call.",
        stages=[st("c15", ASAN, 16000, 250000)],
        rule="Groupings (missing, singletons, equal targets, none, hundreds), targets, weights, scores and all settings of the four "
             "pairwise losses; non-trivial: a group with comparable pairs and a row without any, or many samples compared "
             "with the expectation.",
    ),
    "C16": dict(
        note="Reference: all pairs of the group enumerated; frequencies compared with the uniform distribution.",
        stages=[st("c16", OPT, 20000, 400000), st("c16", ASAN, 4000, 60000)],
        rule="Groups of 0 to 60 rows (sometimes thousands) with any ties, histories of reranking; non-trivial: at least two "
             "distinct targets with a tie.",
    ),
    "C17": dict(
        note="Runs compared with runs: the same seed bit for bit, other thread counts up to rounding and ties. The same cases "
             "again under ThreadSanitizer, with loading from files and evaluation.",
        stages=[st("c17", OPT, 6000, 90000, scheduled=True), st("c17", TSAN, 1500, 25000, scheduled=True)],
        rule="Random problems for all seven losses with groups and row and feature sampling, 1 to 8 threads; non-trivial: "
             "a tree with a split (for thread counts: two different counts).",
    ),
    "C18": dict(
        note="Metamorphic: the same learning problem is posed twice, seen differently; predictions, divisions and gains must agree "
             "until gains tie or rounding is amplified, which is judged by enumerating the divisions of every node.",
        stages=[st("c18", OPT, 14000, 300000), st("c18", ASAN, 2000, 40000)],
        rule="Problems for mse, logloss and huberized hinge and their twins (rows permuted, repeated for weights or added with "
             "weight zero; features renamed, reordered, duplicated, constant or mapped increasingly; categories renamed; weights "
             "or targets scaled, negated, shifted); non-trivial: a tree was divided and compared in both.",
    ),
    "C19": dict(
        note="Every task leaves a mark in memory that only the pool orders; tasks that wait for each other prove the width. Locks, "
             "waits and signals are delayed at random and waits woken without reason (opt build); ThreadSanitizer and "
             "AddressSanitizer watch the same plans.",
        stages=[st("c19", OPT, 16000, 200000, scheduled=True), st("c19", TSAN, 4000, 60000, scheduled=True),
                st("c19", ASAN, 2000, 30000, scheduled=True)],
        rule="Plans of up to 1000 tasks (rarely 70,000, or all of them from one task) with nested and concurrent submission on pools of 1 to 8 (rarely 100) threads, rendezvous of all "
             "threads, pools destroyed while starting; non-trivial: at least two tasks on two threads or nested.",
    ),
    "C20": dict(
        note="Reference: the sums over all inner nodes in extended precision.",
        stages=[st("c20", ASAN, 60000, 1000000)],
        rule="Random forests with up to 60 features, chains and gains of all magnitudes; non-trivial: two features and one of "
             "them used twice.",
    ),
    "C21": dict(
        note="Every request is one that is known to be valid, or that one or two known faults made invalid; after a refusal the "
             "valid request must still be granted on the same data.",
        stages=[st("c21", ASAN, 12000, 200000)],
        rule="Training requests for all losses with special numbers, unknown features, groups and base features, rejected "
             "targets, unreadable files; non-trivial: a request that must be refused.",
    ),
    "C22": dict(
        note="The binary itself, built with sanitizers, is run on generated files; models are compared with the library's on the "
             "same rows, scores with a walk of the model, and every fault must end in a nonzero status and a message.",
        stages=[st("c22", ASAN, 1600, 30000, scheduled=True, needs={"GBDT_BINARY": (ASAN, "gbdt")})],
        rule="Problems for all losses as TSV blocks or flat files with and without base model; faults in every flag, file, "
             "config field and output (full device, directory in place); non-trivial: a model with a split, or a fault.",
    ),
    "C23": dict(
        note="The module is driven from Python against a dictionary of columns, a walk of the saved model, and a list of requests "
             "that must raise; the same histories run on a module built with sanitizers, so that objects used after their "
             "store is gone are noticed.",
        stages=[st("c23", "py", 12000, 200000, python="python3-vt", needs={"LIBGBDT_SO": ("py", "libgbdt.so")}),
                st("c23", "pyasan", 3000, 60000, python="python3-vt", needs={"LIBGBDT_SO": ("pyasan", "libgbdt.so")})],
        rule="Histories of up to 25 operations on data stores with columns held beyond them, trained and random models, scores at "
             "checkpoints of several forests in turn, some 50 kinds of invalid requests, mutated model files, tables from files, "
             "dictionaries and frames; non-trivial: a refusal and a removal, columns held past a removal, rows chosen, a model with "
             "a split, several forests in turn, or a mutated model.",
    ),
    "C24": dict(
        note="Structure checked for every draw, frequencies and pairwise independence against Bernstein bounds at 1e-12, at the "
             "level of the sampler and of the trees that use it.",
        stages=[st("c24", OPT, 12000, 200000), st("c24", ASAN, 1600, 30000)],
        rule="Sizes from 0 to 60000 (divisions to 2^31-1), rates from 1e-30 to 1, seeds, group counts; non-trivial: something "
             "to choose from (rate below 1, n at least 2), or a division with a remainder.",
    ),
    "C25": dict(
        note="Stand-ins for graphviz and matplotlib record what is drawn; the drawing is compared with the saved model node by node, "
             "the plotted curves with walks of the model over the changed rows.",
        stages=[st("c25", "py", 12000, 300000, python="python3-vt", needs={"LIBGBDT_SO": ("py", "libgbdt.so")})],
        rule="Random and trained forests over float and categorical features with awkward names, scores and thresholds; plots over "
             "any values, with and without base value; non-trivial: a tree with a division is in the forest, or the feature changes "
             "the scores by different amounts, or several features have an importance, or a plot that must be refused.",
    ),
    "C26": dict(
        note="Every allocation is counted, open files and threads are read from /proc; an operation fails if the process grows with "
             "every one of several runs of it. The same for histories of the Python module, by the counters of malloc.",
        stages=[st("c26", OPT, 24000, 400000),
                st("c26py", "py", 3000, 60000, python="python3-vt", needs={"LIBGBDT_SO": ("py", "libgbdt.so")})],
        rule="Tables and flat files with and without faults, histories of a store, training with all losses, missing columns, bad "
             "targets, base forests, scores to good and bad places, damaged models, nested thread pools; non-trivial: a refusal, or "
             "more than one column, request, operation or task.",
    ),
    "C27": dict(
        note="read, write, writev, fopen and fclose are replaced by ones that fail, cut short or interrupt one chosen file at a chosen "
             "offset, in the harness and (as a preloaded library) in the tool; the oracle is the run without the fault.",
        stages=[st("c27", ASAN, 5000, 80000, scheduled=True, needs={"GBDT_BINARY": (OPT, "gbdt"), "IOFAULT_SO": (OPT, "iofault.so")})],
        rule="Tables in up to three blocks, flat files, score files and runs of the tool, of up to 6000 rows; eleven kinds of fault at any "
             "offset of any input or output; non-trivial: the fault happened.",
    ),
}
