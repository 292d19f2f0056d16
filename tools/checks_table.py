"""What each check runs."""
_INC = ["-std=c++17", "-w", "-pthread", "-I{HERE}/shim", "-I{REPO}/include", "-I/usr/include/eigen3", "-I{HERE}/sim"]
_WRAP = ["-pthread", "-ldl"] + ["-Wl,--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc")]
# locks and one-time initialisation of the code under test, handed to the thread scheduler
_LOCKS = ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort")]
FLAVORS = {
    # memory-checked build: any out-of-bounds access inside a run is a failure of that run
    "asan": dict(cflags=_INC + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
                 ldflags=["-fsanitize=address", "-pthread", "-ldl"]),
    # every function entry of the library is a scheduling point; every allocation passes the memory seam
    "sched": dict(cflags=_INC + ["-O1", "-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib"], ldflags=_WRAP + _LOCKS),
    # the same with every memory access as a possible scheduling point (the compiler's access hooks, without its runtime)
    "race": dict(cflags=_INC + ["-O1", "-fsanitize=thread", "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign"],
                 ldflags=_WRAP + _LOCKS + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset")]),
    # memory-checked build whose allocations can fail
    "asanmem": dict(cflags=["-I{HERE}/build/jsonshim", "-I{HERE}/build/eigenshim"] + _INC + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
                    ldflags=["-fsanitize=address"] + _WRAP),
    # memory-checked build whose file reads pass through the simulated medium and whose function entries are scheduling points
    "io": dict(cflags=_INC + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,{HERE}/sim"],
               ldflags=["-fsanitize=address", "-pthread", "-ldl", "-rdynamic"] + ["-Wl,--wrap=" + f for f in ("fopen", "fread", "fclose")]),
    # the real Python extension
    "python": dict(cflags=["-std=gnu++17", "-w", "-O2", "-fPIC", "-fvisibility=hidden", "-DVERSION_INFO=0.0.1", "-I{HERE}/shim", "-I{REPO}/include", "-I/usr/include/eigen3",
                           "-I/usr/include/python3.12", "-I/opt/vp/venv/lib/python3.12/site-packages/pybind11/include"],
                   ldflags=["-shared", "-pthread"]),
    # the real R package
    "r": dict(cflags=["-std=gnu++17", "-w", "-O2", "-fPIC", "-DNDEBUG", "-DSTOCHTREE_R_BUILD", "-I{HERE}/shim", "-I{REPO}/include", "-I{REPO}/src", "-I/usr/include/eigen3",
                      "-I/usr/share/R/include", "-I/usr/lib/R/site-library/cpp11/include"],
              ldflags=["-shared", "-L/usr/lib/R/lib", "-lR"]),
    "opt": dict(cflags=_INC + ["-O2"], ldflags=["-pthread", "-ldl"]),
}
TREE = ["session", "checks", "world_tree"]
SESSION = ["session", "checks", "world_session"]
_REAL = "all of src/ except the R and Python bindings, compiled from the working tree (no stubs inside the library)"
_STUB = "random number generator state (seeded and, at chosen points, forced to extreme outputs by the simulator); file system: real files in a scratch directory"
_SRULE = ("one evaluation = one simulated session: a seed generates a configuration (forest terms sharing one residual, leaf models, "
          "feature types, duplicated/negative/constant covariates, optional observation weights, random effects) and a sequence of sampling, "
          "initialising, basis-changing, parameter-changing and reloading operations interleaved over the terms; non-trivial = at least two "
          "operations executed; distinct = distinct digest of the full history")


def session(quick=40, thorough=900, **kw):
    d = dict(parts=[dict(key="s", flavor="asan", srcs=SESSION, worlds=[("session", 8)])], quick_s=quick, thorough_s=thorough,
             level="exploration", rule=_SRULE, real=_REAL, stub=_STUB,
             state="digest of the shapes (structure, split features, leaf counts) of all current trees of the session",
             assumptions=["data without missing values", "the simulator's own evaluation of trees and formulas is right"])
    d.update(kw)
    return d


CHECKS = {
    "C01": session(),
    "C02": session(parts=[dict(key="s", flavor="asan", srcs=SESSION, worlds=[("session", 5)]),
                          dict(key="t", flavor="asan", srcs=TREE, worlds=[("trackops", 3)])],
                   rule=_SRULE + "; a second world evaluates random split/prune/reset histories applied directly to trees and their tracker, with node ids reused",
                   must=["split-reusing-deleted-id", "split-keeping-sorted", "prune-deep"]),
    "C03": session(parts=[dict(key="t", flavor="asan", srcs=TREE, worlds=[("treeops", 8)])],
                   rule="one evaluation = one simulated editing history: a seed generates up to seven trees (stand-alone and inside ensembles, scalar or vector leaves) and up to 60 (thorough 120) edits over them; non-trivial = at least two edits executed; distinct = distinct digest of the full history",
                   state="digest of the shapes of all trees of the history",
                   stub="none (the history of edits is the only input)",
                   must=["expand-reusing-deleted-id", "expand-after-reload-or-clone", "collapse", "reset", "reload-through-text", "refused-to-leaf", "ensemble-copy"]),
    "C04": session(), "C05": session(), "C06": session(), "C07": session(), "C08": session(),
    "C14": session(parts=[dict(key="r", flavor="asan", srcs=["session", "checks", "world_rfx"], worlds=[("rfx", 8)])],
                   rule="one evaluation = one simulated random-effects history: a seed generates observations with arbitrary 32-bit labels (extremes, gaps, singletons), bases and a sequence of sampling steps, outside changes of the residual and parameters, and reloads; non-trivial = at least two operations; distinct = distinct digest of the full history",
                   state="group-size profile, components and number of retained samples",
                   stub="random number generator state (seeded); other terms of the model are stood in for by direct residual changes",
                   must=["sample", "unseen-label", "reload-into-used", "reload-into-self"]),
    "C09": session(parts=[dict(key="f", flavor="asan", srcs=["session", "checks", "faultfs", "world_storage"], worlds=[("storage", 8)])],
                   rule="one evaluation = one simulated session whose models are saved and loaded through the simulated medium: a seed generates the session, and for every save and load the fault (open, full medium at a byte offset, one failing write, short or interrupted transfers, close, read error or truncation at a byte offset, missing path, directory) or the damaged part of the document; non-trivial = at least two operations; distinct = distinct digest of the full history",
                   state="digest of the shapes of all current trees of the session",
                   stub="fopen/write/writev/read/fclose on the model files (faults decided by the plan, otherwise a real scratch directory); random number generator state",
                   must=["save-medium-full", "save-one-write-error", "save-short-write", "save-close-error", "save-open-error", "save-missing-directory", "load-truncated-file", "load-read-error", "load-open-error", "truncation-point", "damaged-document-container", "damaged-document-tree", "damaged-document-ensemble", "damaged-document-random-effects", "damaged-document-label-map"]),
    "C10": session(det_violation=True, det=20, parts=[dict(key="c", flavor="sched", srcs=["session", "checks", "memhook", "world_chains"], worlds=[("chains", 4)]), dict(key="r", flavor="race", srcs=["session", "checks", "memhook", "world_chains"], worlds=[("races", 4)])],
                   rule="one evaluation = one to three simulated chains, each run alone twice (other fresh-memory contents, heap layout, stack contents, prior activity), interleaved operation by operation on one thread, and on one thread each under a scheduler that decides who runs at every function entry and at every access to memory that another chain has touched too; non-trivial = at least two operations; distinct = distinct digest of the histories and schedule",
                   state="distinct thread schedules (number of scheduling points and switches)",
                   stub="thread scheduler (one thread runs at a time, switches decided by the seed at function entries), allocator contents and layout (filled and padded by the seed), random number generator state",
                   must=["fresh-memory-contents", "heap-layout", "stack-contents", "interleaving-switch", "thread-preemption", "access-hook"]),
    "C12": session(parts=[dict(key="k", flavor="opt", srcs=["session", "checks", "world_law"], worlds=[("kernel", 8)])],
                   technique="deterministic simulation: seeded sampling histories in which every random decision is compared with its exact conditional law given the simulated state; violations decided by guaranteed tail bounds and replayed from the seed",
                   rule="one evaluation = one simulated sampling history of about 5000 (thorough 30000) judged decisions: a seed generates data, priors, leaf models and an operation loop; every grow/prune/no-change outcome, every grow-from-root choice and every cutpoint position is compared with its exact probability given the state before it; a suspicious history (tail bound < 1e-4) is continued 15 times longer and reported only below 1e-11; non-trivial = at least two operations; distinct = distinct digest of the history",
                   stub="random number generator state (seeded once per chain, then left to run as in production)",
                   must=["mcmc-grow", "mcmc-prune", "mcmc-same", "gfr-split", "gfr-no-split"]),
    "C13": session(parts=[dict(key="d", flavor="opt", srcs=["session", "checks", "world_law"], worlds=[("draws", 8)])],
                   technique="deterministic simulation: seeded sampling histories in which every drawn value is standardised by its exact conditional posterior given the simulated state; violations decided by guaranteed tail bounds and replayed from the seed",
                   rule="one evaluation = one simulated sampling history of about 4000 (thorough 30000) judged draws: leaf values, error variance, leaf variance, random-effects parameters and variance components, each standardised by its exact conditional posterior; a suspicious history (tail bound < 1e-4) is continued 15 times longer and reported only below 1e-11; non-trivial = at least two operations; distinct = distinct digest of the history",
                   stub="random number generator state (seeded once per chain, then left to run as in production)",
                   must=["leaf-constant", "leaf-univariate", "leaf-multivariate", "leaf-constant-weighted", "leaf-univariate-weighted", "leaf-multivariate-weighted", "rfx-step", "sigma-step", "tau-step"]),
    "C15": session(parts=[dict(key="i", flavor="io", srcs=["session", "checks", "world_io"], worlds=[("io", 8)])],
                   rule="one evaluation = one simulated reading session: a seed generates a file (line lengths, line endings, blank lines, header, arbitrary bytes, sometimes line ends around the readers' own 16 MB block edge) and up to 6 (thorough 10) reads of it through fresh or reused readers, each with its own block boundaries, thread schedule and fault; non-trivial = at least two reads; distinct = distinct digest of what was delivered",
                   state="reader variant, block mode, number of reader threads and of thread switches of one read",
                   stub="fopen/fread/fclose of the input file (in-memory medium over the real file: block boundaries, short system reads and errors decided by the plan); thread scheduler (one thread runs at a time, switches decided by the seed at function entries, reads, thread start and join)",
                   must=["open-error", "read-error", "short-block", "thread-switch", "read-lines", "read-filter", "read-parallel", "read-pfilter", "read-part", "read-sample", "read-sfilter", "read-content", "parser"]),
    "C16": session(quick=75, det_violation=True, det=6, min_steps=1, parts=[dict(key="p", flavor="python", srcs=[], worlds=[("pysession", 8)])],
                   rule="one evaluation = one simulated user session of the Python package: a seed generates one to three models (BART, BCF, low-level) with their data, array kinds and documented options, and a sequence of sampling (also two at once on threads interleaved line by line by the seed), predicting, saving, loading, refused calls and unrelated activity; non-trivial = at least one operation; distinct = distinct digest of all results",
                   state="model kinds, options and shapes of a session",
                   real="the whole Python package (stochtree/*.py), the extension module and the C++ core, compiled from the working tree; numpy, pandas, scikit-learn as installed",
                   stub="file system faults (file size limit, full device, directories, missing paths); thread scheduler (one thread runs at a time, switches decided by the seed at every source line of the package); state of Python's and NumPy's global generators and floating-point error mode",
                   must=["sample-bart", "sample-bcf", "low-level", "own-sampler", "own-basis", "own-reload", "co-sample", "resample", "thread-switch", "predict-bart", "predict-bcf", "save-load-file", "save-load-serializer", "json-fields",
                         "save-medium-full", "save-full-device", "save-missing-directory", "save-is-directory", "load-missing", "load-truncated", "load-other-document", "law-leaf-values", "law-leaf-values-mu", "law-leaf-values-tau", "law-tree-moves", "law-error-variance", "law-leaf-variance", "law-leaf-variance-mu", "law-leaf-variance-tau", "law-coding"]),
    "C17": session(quick=75, det_violation=True, det=6, min_steps=1, parts=[dict(key="r", flavor="r", srcs=[], worlds=[("rsession", 8)])],
                   rule="one evaluation = one simulated user session of the R package: a seed generates one to three models (bart, bcf, low-level) with their data, data-frame or matrix inputs, random effects and documented options, and a sequence of sampling (also inside another model's loop, under forced garbage collection, or cut off at an iteration), predicting, saving, loading, kernels, documents, refused calls and unrelated activity; non-trivial = at least one operation; distinct = distinct digest of all results",
                   state="forest shapes reached (node counts of all trees of a sample)",
                   real="the whole R package (R/*.R) and the C++ core, compiled from the working tree with its cpp11 bindings; R, R6, jsonlite as installed",
                   stub="file system faults (write budget of a model file decided by the plan, full device, directories, missing paths); garbage collector timing; entry of every sampling iteration (nested sessions, cut-offs); state and kind of R's generator, R options",
                   must=["sample-bart", "sample-bcf", "low-level", "own-sampler", "own-basis", "own-reload", "own-rfx", "resample", "predict-bart", "predict-bcf", "save-load", "json", "kernel", "rfx", "rfx-samples", "save-medium-full", "save-full-device", "save-missing-directory",
                         "save-is-directory", "load-missing", "load-truncated", "load-other-document", "gc-at-allocations", "nested-sampling", "sampling-cut-off", "law-leaf-values", "law-leaf-values-mu", "law-leaf-values-tau", "law-tree-moves", "law-error-variance", "law-leaf-variance", "law-leaf-variance-mu", "law-leaf-variance-tau", "law-coding", "law-rfx"]),
    "C11": session(parts=[dict(key="m", flavor="asanmem", srcs=["session", "checks", "memhook", "world_alloc"], worlds=[("alloc", 8)], env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1"})],
                   rule="one evaluation = one simulated history followed by one public operation that is repeated with each chosen allocation failing (once, or from then on): sampling steps, random-effects steps, predictions, kernels, construction, saving, loading, text reading; non-trivial = at least two fault points; distinct = distinct digest of the fault-free history and result",
                   state="none",
                   stub="operator new / malloc / posix_memalign (refuse the allocations the plan names); random number generator state; allocations made by the destructor of a json value never fail (that destructor, third-party code, cannot report it)",
                   must=["allocation-failure-single", "allocation-failure-persistent", "failure-reported", "retried", "target-gfr", "target-mcmc", "target-rfx", "target-load", "target-save", "target-kernel", "target-tracker", "target-lines"]),
}
