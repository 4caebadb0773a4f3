#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ENG = ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/skmeans_coordinator.cpp",
       "libman/medoid_coordinator.cpp", "libman/fcm_coordinator.cpp", "libman/hclust_coordinator.cpp",
       "libman/xmeans_coordinator.cpp", "libman/gmeans_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"]

prop("P01", "Every clustering run ends and returns a well-formed clustering",
  "For every algorithm and every valid input a run terminates and returns a clustering in which each sample belongs to exactly one existing cluster, the reported cluster sizes are the numbers of samples assigned to each cluster and add up to the number of samples, and all centroids of non-empty clusters are finite. "
  "The number of clusters is the one requested (for the hierarchical algorithms: between one and the requested maximum, none of them empty), the reported shape is that of the data, and the reported number of iterations never exceeds the number requested.",
  ["inputs", "configurations"], "all data sets (including duplicates, constant columns, fewer distinct points than clusters, huge offsets, one column), k, thread counts, initialisations, metrics, tolerances and iteration limits that are valid for the algorithm",
  "The tests run each algorithm on one 50x5 file and look at most at the exit status or one known answer; they never check sizes, ranges or finiteness on degenerate or large inputs.",
  ENG + ["libkcommon/types.cpp", "libkcommon/clusters.cpp"],
  [("result assembly", "base::cluster_t constructors in libkcommon/types.cpp"), ("counts per phase", "update_clusters() of each *_coordinator"), ("iteration loops", "run() of each *_coordinator, compute_kmeans, compute_min_kmeans")],
  [("assignments", "cluster of each sample", "coordinator::cluster_assignments"), ("counts", "members per cluster", "coordinator::cluster_assignment_counts")])

prop("P02", "Each k-means iteration is one exact Lloyd step under the chosen metric",
  "Starting from the centroids of one iteration, the next iteration assigns every sample to a centroid nearest to it under the requested metric (Euclidean, squared Euclidean, cosine or Manhattan) and then makes each non-empty cluster's centroid the mean of exactly the samples assigned to it. "
  "This holds for the multithreaded engine and the OpenMP engine, whatever the number of threads and rows per thread.",
  ["inputs", "configurations"], "all finite data, all k, thread counts and metrics; compared iteration by iteration against an independent computation, up to rounding",
  "The tests compare a final clustering of one small Euclidean data set with one stored answer, so a wrong step that still converges there, other metrics, other thread splits and empty clusters go unseen.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_thread.cpp", "libauto/kmeans.cpp", "libkcommon/clusters.cpp", "libkcommon/util.hpp"],
  [("assignment step", "kmeans_thread::EM_step, EM_step in libauto/kmeans.cpp"), ("centroid update", "kmeans_coordinator::update_clusters, clusters::finalize"), ("metrics", "dist_comp_raw in libkcommon/util.hpp")])

prop("P03", "Pruning distance computations never changes the clustering",
  "With the same data, initial centroids, metric and iteration limit, the engines that skip distance computations using the triangle inequality return at every iteration the same assignments, centroids and sizes as plain Lloyd iterations, up to rounding and exact ties. "
  "This holds for the multithreaded and the OpenMP engine, for every number of threads and rows per thread.",
  ["inputs", "configurations"], "all finite data, k >= 2, thread counts, initialisations and metrics, for every iteration limit",
  "A wrongly skipped computation only matters for particular geometries (points near bisectors, centres that move far, later iterations, empty clusters); the tests compare one small run.",
  ["libman/kmeans_task_coordinator.cpp", "libman/kmeans_task_thread.cpp", "libauto/min-tri-kmeans.cpp", "libkcommon/dist_matrix.cpp", "libkcommon/clusters.cpp", "libkcommon/thd_safe_bool_vector.hpp"],
  [("bounds and skipping", "kmeans_task_thread::EM_step"), ("bound maintenance", "kmeans_task_coordinator::update_clusters, prune_clusters"), ("inter-centroid distances", "dist_matrix::compute_dist"), ("OpenMP variant", "EM_step in libauto/min-tri-kmeans.cpp")],
  [("upper bound per sample", "distance to the assigned centroid or more", "dist_v"), ("half nearest inter-centroid distance", "s_val", "prune_clusters")])

prop("P04", "Results do not depend on threads, data placement, source or engine",
  "With the same data, parameters and deterministic initialisation, the clustering is the same whichever number of threads is used, whether the data is given in memory or read from a file, whether or not it was redistributed to the threads' memory beforehand, and whether the multithreaded or the OpenMP engine computes it, up to the rounding of sums in a different order. "
  "This also holds for the seeded random choices: the same samples are chosen as initial centroids whatever the number of threads or the source of the data.",
  ["inputs", "configurations"], "all data, thread counts (including those that do not divide the number of rows and those above it), sources and engines",
  "The tests use a single thread count and source per engine, with few rows per thread.",
  ["libman/coordinator.cpp", "libman/thread.cpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libkcommon/io.hpp", "binding/numa_reorg.hpp", "libauto/kmeans.cpp"],
  [("row partitioning", "coordinator::get_rid_len_tup, get_thd_data"), ("per-thread loading", "thread::numa_alloc_mem"), ("redistribution", "memory_distributor in binding/numa_reorg.hpp"), ("local to global rows", "thread::get_global_data_id")])

prop("P05", "The same call gives the same result on every schedule and every repetition",
  "Running the same algorithm on the same data with the same parameters gives bit-identical assignments, sizes, centroids and iteration counts every time: in a fresh process, after any other runs in the same process, and under every interleaving of the worker threads.",
  ["schedules", "histories", "inputs"], "all interleavings of workers and coordinator (explored with injected delays and oversubscription), all sequences of runs within one process, all algorithms",
  "The tests run each algorithm once, in one process, on an idle machine; an interleaving-dependent or stale-state result needs repetition under perturbation to show.",
  ENG + ["libman/thread.cpp", "libman/coordinator.cpp"],
  [("reduction in thread order", "update_clusters of each coordinator"), ("static state of the OpenMP engines", "file-scope variables in libauto/*.cpp"), ("generators", "default_random_engine members of the coordinators")])

prop("P06", "Iterations never worsen the objective and stop exactly when the rule says",
  "Under the Euclidean metric the sum of squared distances of the samples to their clusters' centroids never increases from one iteration to the next (up to rounding), and raising the iteration limit changes nothing once a run has converged. "
  "A run stops at the first iteration in which the fraction of samples that changed cluster is at most the tolerance (or none changed; the first iteration, which assigns every sample, changes all), or at the iteration limit, and reports the number of iterations it ran; a run without a limit that converges leaves every sample in the cluster of its nearest centroid.",
  ["inputs", "configurations", "histories"], "all data, tolerances, iteration limits and k-means engines, over the whole sequence of iterations of a run",
  "The tests never look at intermediate iterations, non-trivial tolerances or reported iteration counts.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  [("stop rule", "run() of the coordinators"), ("change counting", "num_changed aggregation in update_clusters"), ("OpenMP stop rule", "compute_kmeans, compute_min_kmeans")])

prop("P07", "Initial centroids are what the requested initialisation promises",
  "Given centroids are used unchanged; with sample-based initialisation every initial centroid is one of the samples; with random partitioning each is the mean of the samples of a random partition of all samples; with k-means++ the first is a sample and each next one is a sample drawn with probability proportional to its distance to the nearest centroid already chosen, so a sample equal to a chosen one is never drawn while others remain. "
  "After a k-means++ initialisation every sample is assigned to the nearest of the chosen centroids.",
  ["inputs", "configurations"], "all data sets, k, thread counts, metrics and engines; the probabilities are judged over many independent draws",
  "The tests use one initialisation of one data set and never look at the initial centroids; probabilities cannot be seen in one run.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/kmeans_thread.cpp", "libman/skmeans_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  [("initialisers", "random_partition_init, forgy_init, kmeanspp_init in each engine"), ("distance accumulation", "kmspp_dist of the worker threads")])

prop("P08", "Distributed runs give the clustering of a single-process run",
  "For the same data, centroids, metric and iteration limit, a run distributed over any number of processes and threads returns, from every process layout, the clustering (assignments, sizes, centroids) that a run in a single process returns, up to rounding, with or without pruning. "
  "Each sample is handled by exactly one process.",
  ["configurations", "inputs"], "all numbers of processes and threads per process, including row counts that the processes do not divide, with all metrics and initialisations",
  "The tests run two configurations of one data set.",
  ["libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libdist/mpi.hpp", "exec/knord.cpp"],
  [("row ranges per process", "dist_coordinator constructor and shift_thread_start_rid"), ("reductions", "mpi::reduce_* calls in libdist/dist_coordinator.cpp, dist_task_coordinator.cpp")])

prop("P09", "No input makes a clustering run touch memory it does not own",
  "No run of any algorithm, for any valid input and parameters, reads or writes outside its objects, uses uninitialised or freed memory, frees memory twice, releases the caller's data, overflows a signed integer or otherwise executes undefined behaviour; in particular the data passed in is neither freed nor written beyond its end.",
  ["inputs", "configurations", "histories"], "all algorithms, sizes, thread counts, sources of the data and call sequences",
  "Out-of-bounds accesses and uses after free pass silently in uninstrumented test runs, and depend on sizes and thread counts the tests never use.",
  ENG + ["libman/thread.cpp", "libkcommon/clusters.cpp", "libkcommon/io.hpp", "libkcommon/util.cpp"],
  [("buffers", "local_data, cluster_assignments, means, dist vectors"), ("ownership", "thread and coordinator destructors")])

prop("P10", "Worker threads and the coordinator never race on shared data",
  "Any two conflicting accesses to the same memory by two threads of a run (workers, coordinator, parallel loops) are ordered by synchronisation, in every algorithm, in every phase and during start-up and shutdown.",
  ["schedules", "configurations", "inputs"], "all interleavings (the detector judges ordering, not outcomes), all algorithms, thread counts and data sources",
  "A race almost never changes the outcome of a 50-row test run.",
  ENG + ["libman/thread.hpp", "libman/thread.cpp", "libman/task_thread.cpp", "libman/task_queue.hpp", "libkcommon/dist_matrix.cpp", "libkcommon/thd_safe_bool_vector.hpp"],
  [("phase hand-over", "coordinator::wake4run, wait4complete; thread::sleep, wake, wait"), ("parallel loops", "OpenMP loops in libauto, libman and libkcommon")])

prop("P11", "A phase runs on every worker exactly once and ends after all of them",
  "Whenever the coordinator starts a phase, each worker thread executes that phase exactly once with the state set up before the start, and the coordinator continues only after every worker has finished; no wake-up is lost and no phase blocks for ever. "
  "When a run ends all its worker threads terminate.",
  ["schedules", "histories"], "all interleavings of workers and coordinator, sequences of phases and numbers of workers",
  "Lost wake-ups and early returns need a particular interleaving; the tests run a handful of phases on an idle machine.",
  ["libman/coordinator.cpp", "libman/thread.hpp", "libman/thread.cpp", "libman/task_thread.cpp", "libman/task_thread.hpp"],
  [("start and completion", "coordinator::wake4run, wait4complete, destroy_threads"), ("worker side", "callback<T>, thread::wait, thread::wake, thread::sleep, task_thread::wake, lock_sleep")],
  [("pending count", "workers that have not finished the phase", "coordinator::pending_threads")])

prop("P12", "Mini-batch k-means follows the per-sample update of its batches",
  "In every mini-batch iteration each sampled row moves the centroid it is assigned to by one over the number of rows that centroid has been given, in sampling order, the sampled fraction is on average the requested batch size, and rows that were not sampled keep their cluster and influence nothing. "
  "After the last iteration every sample is assigned to its nearest centroid, the reported sizes match and no more than the requested iterations are run.",
  ["inputs", "configurations"], "all data, batch sizes, k, thread counts and initial centroids",
  "The tests only check that a mini-batch run exits.",
  ["libman/kmeans_task_coordinator.cpp", "libman/kmeans_task_thread.cpp", "libkcommon/clusters.cpp"],
  [("batch run", "kmeans_task_coordinator::mb_run"), ("sampling and local step", "kmeans_task_thread::mb_EM_step, mb_finalize_centroids"), ("learning rate", "eta")])

prop("P13", "Spherical k-means is cosine k-means on min-max scaled features",
  "Spherical k-means scales every feature to [0,1] by its minimum and maximum (a constant feature to 0) and then performs Lloyd iterations under the cosine distance: in every iteration each sample is assigned to a centroid nearest in angle and each centroid becomes the mean of its scaled members. "
  "The result is the same for every number of threads.",
  ["inputs", "configurations"], "all data (negative, constant and zero features included), k, thread counts and initialisations",
  "The test checks only that one run exits.",
  ["libman/skmeans_coordinator.cpp", "libman/skmeans.cpp", "libkcommon/linalg.hpp"],
  [("scaling", "skmeans_coordinator::tally_feature_stats and skmeans normalisation step"), ("iterations", "skmeans::EM_step, skmeans_coordinator::update_clusters")])

prop("P14", "k-medoids returns samples as centres and never accepts a worse medoid",
  "Every centre returned by k-medoids is one of the samples assigned to its cluster, every sample is assigned to a nearest centre under the requested metric in each iteration, and a centre is only replaced by another member of its cluster whose summed distance to the members is smaller, the best one when all members are candidates. "
  "Hence the total distance of the samples to their centres never increases from one iteration to the next.",
  ["inputs", "configurations"], "all data, k, metrics, thread counts and sampling rates",
  "The tests check only that one run exits.",
  ["libman/medoid_coordinator.cpp", "libman/medoid.cpp"],
  [("assignment", "medoid::EM_step"), ("candidate energies", "medoid::medoid_step, medoid_coordinator::compute_globals/sanity"), ("sampling", "medoid_coordinator::select_local_medoids")])

prop("P15", "Fuzzy c-means follows its membership and centre update equations",
  "In each iteration of fuzzy c-means the membership of a sample in a cluster is inversely proportional to its distance to the cluster's centre raised to 1/(m-1), normalised over the clusters and raised to the fuzzy index m, and each new centre is the mean of all samples weighted by these memberships. "
  "Each sample is reported in the cluster of its largest membership, and the run stops when the centres move by less than the tolerance or at the iteration limit.",
  ["inputs", "configurations"], "all data (including samples that coincide with centres), k, fuzzy indices, metrics and thread counts",
  "The tests check only that one run exits.",
  ["libman/fcm_coordinator.cpp", "libman/fcm.cpp", "libkcommon/dense_matrix.hpp"],
  [("memberships", "fcm::Estep"), ("centres", "fcm::Mstep, fcm_coordinator::update_centers"), ("stop rule", "fcm_coordinator::run")])

prop("P16", "Hierarchical clustering bisects clusters until the size or count limit",
  "Hierarchical k-means first splits all samples in two from the initial pair of centroids and then splits clusters of at least the minimum size in two, each split being a two-means clustering of that cluster's samples alone, until no cluster can be split or the maximum number of clusters is reached. "
  "Every reported centroid is the mean of its cluster's samples, samples of one cluster are never separated from it except by a split of that cluster, and clusters below the minimum size are never split.",
  ["inputs", "configurations", "histories"], "all data, maximum numbers of clusters, minimum sizes, iteration limits, metrics and thread counts",
  "The test runs one small data set and checks that it exits.",
  ["libman/hclust_coordinator.cpp", "libman/hclust.cpp", "libman/hclust_id_generator.hpp", "libkcommon/types.hpp", "libkcommon/hclust_compactor.hpp"],
  [("splitting", "hclust_coordinator::init_splits, inner_init, spawn"), ("two-means step", "hclust::H_EM_step, hclust_coordinator::update_clusters"), ("final numbering", "compactor::remap, cluster_t constructor")])

prop("P17", "X-means keeps a split only if it improves the information criterion",
  "X-means accepts a split of a cluster exactly when the Bayesian information criterion of the two children on that cluster's samples is not worse than that of the cluster itself; otherwise the cluster is kept whole, with the mean of its samples as centroid, and never split again. "
  "The decision for a cluster depends only on its own samples.",
  ["inputs", "configurations"], "all data, maximum numbers of clusters, minimum sizes, iteration limits and thread counts; decisions closer than rounding are not judged",
  "The test runs one small data set and checks that it exits.",
  ["libman/xmeans_coordinator.cpp", "libman/xmeans.cpp", "libman/hclust_coordinator.cpp"],
  [("criterion", "xmeans_coordinator::bic, compute_bic_scores"), ("decision and revert", "xmeans_coordinator::partition_decision"), ("distances", "xmeans::H_EM_step partition_dist, nearest_cdist")])

prop("P18", "G-means keeps a split only if the samples do not look Gaussian",
  "G-means accepts a split of a cluster exactly when the Anderson-Darling statistic of its samples projected on the line between the two children exceeds the critical value of the requested strictness for that number of samples; otherwise the cluster is kept whole, with the mean of its samples as centroid, and never split again. "
  "The decision for a cluster depends only on its own samples.",
  ["inputs", "configurations"], "all data, strictness levels, maximum numbers of clusters, minimum sizes, iteration limits and thread counts; decisions closer than rounding are not judged",
  "The test runs one small data set and checks that it exits.",
  ["libman/gmeans_coordinator.cpp", "libman/gmeans.cpp", "libkcommon/AndersonDarling.hpp", "libkcommon/linalg.hpp"],
  [("projection", "gmeans::H_split_step, gmeans_coordinator::compute_cluster_diffs"), ("statistic", "AndersonDarling::compute_statistic"), ("decision and revert", "gmeans_coordinator::partition_decision")])

prop("P19", "k-means++ with restarts returns the best of its restarts",
  "With several starts, k-means++ returns the start with the smallest summed distance of the samples to their nearest chosen centroid, together with that energy and that start's centroids, assignments and sizes; more starts never give a larger energy. "
  "The chosen centroids are samples and every sample is assigned to the nearest of them.",
  ["inputs", "configurations", "histories"], "all data, k, numbers of starts, thread counts, metrics, from memory or file",
  "The test checks that one run exits.",
  ["binding/kmeanspp.hpp", "libman/kmeans_task_coordinator.cpp"],
  [("selection of the best start", "kmeansPP in binding/kmeanspp.hpp"), ("restart", "kmeans_task_coordinator::reinit, tally_assignment_counts, compute_cluster_energy, dump_state")])

prop("P20", "The command-line tools write the clustering their arguments ask for",
  "Each command-line tool runs the algorithm selected by its arguments on the given file (engine, k, threads, initialisation, initial centroids, metric, tolerance, iteration limit, algorithm-specific options) and writes to the output directory exactly the clustering that the library returns for these arguments: shape, iterations, sizes, assignments and centroids.",
  ["inputs", "configurations"], "all tools and combinations of their options over all data files",
  "The tests run each tool with one set of arguments and mostly check the exit status.",
  ["exec/knori.cpp", "exec/mb_knori.cpp", "exec/kmeanspp.cpp", "exec/medoids.cpp", "exec/skmeans.cpp", "exec/fcm.cpp", "exec/hmeans.cpp", "exec/xmeans.cpp", "exec/gmeans.cpp", "libkcommon/types.cpp", "libkcommon/io.hpp"],
  [("option parsing", "main of each exec/*.cpp"), ("output", "cluster_t::write in libkcommon/types.cpp, store_cluster")])

prop("P21", "Readers and writers transfer exactly the data they are given",
  "Reading a binary matrix file gives each requested row exactly as stored, for whole-file reads, row-by-row reads and reads of a range of rows, and writing and reading back returns the same values; text files are parsed to the numbers they contain. "
  "A file that does not exist or is too short is reported as an error rather than clustered.",
  ["inputs", "fault_sequences"], "all shapes, row ranges and values, and missing or truncated files",
  "The test reads one file of known size.",
  ["libkcommon/io.hpp", "libkcommon/io.cpp", "libman/thread.cpp"],
  [("readers", "bin_rm_reader, bin_io, text_reader in libkcommon/io.hpp"), ("range loading", "thread::numa_alloc_mem")])

prop("P22", "Cluster accumulators sum, merge, average and reverse exactly",
  "For any history of adding, removing, moving and merging samples in the cluster accumulators, a cluster's sum and member count are those of the samples it holds, finalising turns sums into means and un-finalising restores them, merging per-thread accumulators equals adding all samples to one, and copies equal their originals and are independent of them. "
  "The sparse and the two-way accumulators obey the same laws.",
  ["histories", "inputs"], "all sequences of operations on accumulators of all sizes",
  "The tests execute a few fixed operations on one small accumulator.",
  ["libkcommon/clusters.cpp", "libkcommon/clusters.hpp"],
  [("accumulation", "clusters::add_member, remove_member, swap_membership, peq"), ("finalisation", "clusters::finalize, unfinalize, finalize_all, sparse_clusters, h_clusters")])

prop("P23", "Distances and the inter-centroid distance matrix are exact",
  "Every distance function (Euclidean, squared Euclidean, Manhattan, cosine) equals its mathematical definition up to rounding and is symmetric, and the inter-centroid distance matrix holds half the distance of every pair of centroids whichever order the pair is given in, with each centroid's minimum over all others, after every recomputation. "
  "Out-of-range pairs are rejected.",
  ["inputs", "histories"], "all vectors, dimensions, numbers of centroids and sequences of recomputations",
  "The tests evaluate a few fixed pairs and one matrix.",
  ["libkcommon/util.hpp", "libkcommon/dist_matrix.cpp", "libkcommon/dist_matrix.hpp"],
  [("metrics", "eucl_dist, cos_dist, taxi_dist, sq_eucl_dist, dist_comp_raw"), ("triangular storage", "dist_matrix::translate, get, set, compute_dist, get_min_dist")])

prop("P24", "Task queues hand out every row exactly once per iteration",
  "Between two resets a worker's task queue hands out tasks that cover each of its rows exactly once, in order, with the right row data and global row numbers, and reports that no task is left exactly when all rows were handed out. "
  "This holds for every number of rows and any interleaving of workers taking tasks.",
  ["inputs", "histories", "schedules"], "all row counts around and above the task size, column counts, start rows and sequences of take and reset, and concurrent takers",
  "The test uses one queue size; data sets in the tests are smaller than one task.",
  ["libman/task_queue.hpp", "libman/task_thread.cpp", "libman/kmeans_task_thread.cpp"],
  [("task creation", "task_queue::get_task, has_task, reset"), ("row mapping", "task::get_global_data_id / get_data_ptr")])

prop("P25", "Dense matrix and vector operations obey linear algebra",
  "Matrix and vector operations (sums, differences, products with vectors, matrices and scalars, transposes, determinants, adjoints, inverses, powers, means, norms, scaling, row and column reductions and arg-maxima) return the mathematically defined result up to rounding and leave their operands as documented, for every shape for which they are defined.",
  ["inputs"], "all shapes and values for which the operation is defined",
  "The tests evaluate single fixed matrices.",
  ["libkcommon/dense_matrix.hpp", "libkcommon/linalg.hpp"],
  [("matrix operations", "dense_matrix in libkcommon/dense_matrix.hpp"), ("vector operations", "base::linalg in libkcommon/linalg.hpp")])

prop("P26", "Containers keep exactly what was put into them",
  "For any sequence of operations, the map stored as a vector, the thread-safe flag vector, the cluster-id generator and the id compactor behave like their mathematical models: keys set are present and others absent, iteration visits each present key once in order, generated ids are never handed out twice while in use and reclaimed ones are reused, and compaction maps non-empty clusters one to one onto consecutive ids. "
  "Concurrent sets of different flags are all kept.",
  ["histories", "schedules"], "all operation sequences and sizes, including growth, and concurrent setters",
  "The tests execute short fixed sequences.",
  ["libkcommon/types.hpp", "libkcommon/thd_safe_bool_vector.hpp", "libkcommon/thd_safe_bool_vector.cpp", "libman/hclust_id_generator.hpp", "libkcommon/hclust_compactor.hpp"],
  [("map", "vmap, vmap_iterator"), ("flags", "thd_safe_bool_vector"), ("ids", "hclust_id_generator, compactor::remap")])

prop("P27", "Runs leave the caller's data and the process as they found them",
  "A run of any algorithm leaves the caller's data bit-identical (spherical k-means, which scales it in place by design, excepted), and after the run and the release of its objects no worker thread, open file or allocated memory of the run is left, however often runs are repeated.",
  ["histories", "inputs", "configurations"], "all algorithms, sources of data and numbers of repeated runs",
  "The tests start a new process per run and exit right after it.",
  ENG + ["libman/thread.cpp", "libman/coordinator.cpp"],
  [("thread shutdown", "coordinator destructors, destroy_threads"), ("buffers and files", "thread::numa_alloc_mem, destructors")])

prop("P28", "Invalid parameters are refused instead of producing a clustering",
  "Unknown initialisations and metrics, initialisations or metrics an algorithm does not support, a cluster count of zero, a cluster count the OpenMP engines cannot serve (below two or above the number of samples) and input files that are missing or too short end the call with an error before any clustering is returned. "
  "Valid parameters next to those limits are accepted.",
  ["inputs", "configurations"], "all invalid values of these parameters for every algorithm, and valid values next to the limits",
  "The tests only use valid parameters.",
  ["libkcommon/util.cpp", "libman/kmeans_coordinator.cpp", "libman/hclust_coordinator.cpp", "libman/fcm_coordinator.cpp", "libman/medoid_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  [("parsing", "get_init_type, get_dist_type"), ("rejection", "run_init / run_hinit default branches, compute_kmeans argument checks")])

prop("P29", "A change of unit, order or repetition of the data changes only that",
  "With the same initial centroids, reordering the samples reorders the assignments of k-means, spherical and fuzzy k-means, reordering the features reorders the centroids' values, reordering the initial centroids renames the clusters, adding features that are zero adds zeros to the centroids, and repeating every sample multiplies the sizes, up to rounding and ties. "
  "Multiplying all values by a power of two, or mirroring them, does the same to the centroids and leaves assignments, sizes and iteration counts as they are, for every algorithm without parameters that have a unit and for random initialisations too.",
  ["inputs", "configurations"], "all data sets, algorithms, thread counts and transformations of these kinds",
  "The tests never compare two runs on related data.",
  ENG, [("distances and centroids", "dist_comp_raw, clusters::add_member, finalize"), ("initialisation", "kmeanspp_init, forgy_init, random_partition_init"), ("split decisions", "hclust_coordinator, xmeans_coordinator, gmeans_coordinator")])

prop("P30", "Runs made at the same time in one process do not affect each other",
  "Runs of the multithreaded algorithms that overlap in time in one process, on the same or on different data, each return bit for bit what they return when made alone, under every interleaving of their threads, and no two of them race on shared data. (The OpenMP engines keep their sizes in file-level variables: of these one run at a time.)",
  ["schedules", "histories", "configurations"], "all combinations of overlapping runs and their interleavings",
  "The tests make one run at a time.",
  ENG + ["libman/coordinator.cpp", "libman/thread.cpp"],
  [("coordinator state", "coordinator, kmeans_coordinator members"), ("worker state", "thread, kmeans_thread members")])

prop("P31", "A clustering object holds, compares and writes exactly what it was given",
  "A clustering object returns the shape, iterations, assignments, sizes and centroids it was built from, whether built from arrays or from a map of centroids with gaps in the ids (which maps the ids in use one to one onto 0..k-1), is independent of the vectors it was built from, equals another one exactly when assignments, sizes and centroids are equal, and the file it writes describes it.",
  ["inputs"], "all clusterings, id sets and single-value differences",
  "The tests compare two fixed objects.",
  ["libkcommon/types.cpp", "libkcommon/types.hpp", "libkcommon/hclust_compactor.hpp"],
  [("construction", "cluster_t::cluster_t, set_params, set_computed"), ("comparison and output", "cluster_t::operator==, cluster_t::write")])

prop("P32", "Random streams split over processes are the undivided stream",
  "The draws of the processes' random generators, interleaved by process, are the draws of a single generator with the same seed, whatever the number of processes and the order in which they draw, and a generator that begins further on in the stream returns what the one begun at the start returns from there on. All draws lie in the requested range, both of whose ends occur.",
  ["inputs", "histories"], "all ranges, seeds, process counts and stream positions",
  "The tests do not draw from these generators.",
  ["libkcommon/util.hpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  [("split stream", "mpi_random_generator"), ("stream position", "rand123emulator")])

prop("P33", "Pruning and activity records count what happened",
  "The record of pruned distance computations holds the number of times each rule was recorded, the sum of merged records is the record of all of them, the reported percentages are those of all finished iterations, and the activity records hold for every iteration the number of activations of all threads and, for every row, whether it was active in that iteration and in the one before, as do the files written from them.",
  ["inputs", "histories"], "all histories of recording, merging and finishing iterations",
  "The tests do not read these records.",
  ["libkcommon/prune_stats.cpp", "libkcommon/prune_stats.hpp"],
  [("pruning record", "prune_stats"), ("activations", "activation_counter"), ("row activity", "active_counter")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
