"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [x if isinstance(x, dict) else {"name": x} for x in state], "observe_at": observe, "hook_needed": hook}})


prop("C01", "Local pools deliver every scheduled sample exactly once",
     "For every interleaving of scheduling calls, polls, sample completions and result callbacks, the one-process, "
     "process and thread pools report each scheduled sample exactly once, on the level it was scheduled for, with that "
     "sample's own result pair or with a non-empty error message. The number of running samples returned with a poll is "
     "never negative and is zero exactly when every scheduled sample has been reported.",
     ["schedules", "programs"],
     "all programs of schedule/poll calls, all completion orders and all thread schedules",
     "the suite runs a handful of real pools once; losing a result needs a callback to land inside the poll",
     ["mlmc/sampling_pool.py"],
     [("result queues and their emptying", "mlmc/sampling_pool.py:OneProcessPool.get_finished/_queues_to_list"),
      ("asynchronous result callbacks", "mlmc/sampling_pool.py:ProcessPool.res_callback"),
      ("running counter", "mlmc/sampling_pool.py:_n_running")],
     ["per-level result queues", "number of running samples"],
     ["get_finished() return values"])

prop("C02", "Samples are scheduled up to the target, once, on the right level pair",
     "For every sequence of target settings, scheduling calls, polls and restarts over the same file storage, after a "
     "scheduling call each level has exactly max(previously scheduled, current target) samples, identified by consecutive "
     "ids L<level>_S<number> that are never reused, and each of them was handed to the pool and recorded as scheduled in "
     "the storage exactly once. Every sample is computed with the parameters of its own level as fine and those of the "
     "previous level as coarse (the value 0 on the coarsest level). A single initial count n is expanded to the geometric "
     "range from n to 10 over the levels and a pair to the range between its two values.",
     ["histories", "configurations"],
     "all histories of set_initial_n_samples / set_level_target_n_samples / schedule_samples / polling / reopening, 1-3 levels",
     "tests schedule one target once; the id counter after a restart or a lowered target is not exercised",
     ["mlmc/sampler.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"],
     [("sample tags and counters", "mlmc/sampler.py:schedule_samples/_get_sample_tag"),
      ("level simulation objects", "mlmc/sampler.py:_create_level_sim_objects"),
      ("scheduled ids restored from the storage", "mlmc/sampler.py:__init__")],
     ["target counts", "scheduled counts", "stored scheduled ids"],
     ["calls received by the pool", "load_scheduled_samples()"])

prop("C03", "Adaptive adding of samples is monotone, never overshoots and terminates",
     "For every estimate of required samples, every starting state whose earlier targets are already scheduled, every order in which samples finish or fail, and every "
     "adding fraction in (0,1], one adding step never lowers the number of scheduled samples on a level, never raises it "
     "above the estimate rounded up, raises it on every level that is below its estimate by at least the given fraction of "
     "the gap, and before returning waits until at least half of the scheduled samples are finished on every level still "
     "below its estimate. It returns true exactly when every level has at least the estimated number of scheduled samples, "
     "so the adding loop always ends, also when samples fail.",
     ["inputs", "histories", "schedules"],
     "all estimate vectors, starting counts, add fractions and completion patterns within the bounds",
     "tests run the loop statistically on one simulation where the estimate hardly changes",
     ["mlmc/sampler.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"],
     [("adding step", "mlmc/sampler.py:process_adding_samples"),
      ("waiting for half of the samples", "mlmc/sampler.py:set_scheduled_and_wait")],
     ["scheduled and finished counts per level"],
     ["l_scheduled_samples(), n_finished_samples, return value"])

prop("C04", "The result of a sample is determined by its id, level and simulation only",
     "For every pool kind, pool size, order and interleaving of samples, batch composition, restart, sampler seed and "
     "interpreter hash seed, the sample with a given id and level yields bit-identical fine and coarse results. In "
     "particular the random seed of a sample is a fixed function of its id, the bundled synthetic simulation draws the "
     "same random input for the fine and the coarse computation of a sample, different ones for different seeds, and is not "
     "influenced by samples computed before or concurrently.",
     ["schedules", "histories", "configurations"],
     "all orders/interleavings of up to 3 samples x pools x seeds x hash seeds",
     "tests never compare the same sample computed under two schedules",
     ["mlmc/sampling_pool.py", "mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py", "mlmc/sim/synth_simulation.py"],
     [("seed from the sample id", "mlmc/sampling_pool.py:SamplingPool.compute_seed"),
      ("sample computation", "mlmc/sampling_pool.py:SamplingPool.calculate_sample"),
      ("synthetic simulation", "mlmc/sim/synth_simulation.py:SynthSimulation.calculate/sample_fn")],
     ["random generator state"], ["results delivered by the pools"])

prop("C05", "A failing sample is isolated, recorded with its message and can be renewed",
     "For every pattern of failing samples (exception of any kind, result of a wrong length, unavailable workspace or "
     "files, untransferable result), the failing samples and only they are reported and stored as failed with a message, "
     "every other sample keeps its own result, and neither the pool nor the sampler raises or waits forever. Renewing "
     "failed samples reschedules exactly the failed ones under their original ids and levels, clears the failed list, and "
     "stores their new outcome without duplicating or losing any sample, for any number of renewals.",
     ["fault_sequences", "histories"],
     "all failure patterns of up to 4 samples on 2 levels x failure kinds x pools x renewal rounds",
     "tests use random failures and only check counts",
     ["mlmc/sampling_pool.py", "mlmc/sampler.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
     [("exception capture and result length check", "mlmc/sampling_pool.py:SamplingPool.calculate_sample"),
      ("renewal", "mlmc/sampler.py:renew_failed_samples"),
      ("failed dataset", "mlmc/tool/hdf5.py:LevelGroup.append_failed/clear_failed_dataset")],
     ["failed queues", "failed dataset", "collected dataset"],
     ["get_finished()", "failed_samples()", "sample_pairs()", "n_finished()"])

prop("C06", "Sample workspaces are isolated and retained as documented",
     "A simulation that asks for a workspace runs with a directory of its own named by the sample id as the current "
     "directory, containing exactly the level's common files and no file of another sample. After it finishes in a pool "
     "with a work directory, a failed sample's directory with its content is found under the failed directory, the "
     "directories of successful samples numbered 0-4 on each level under the several-successful directory, and the "
     "working copies are removed, except that debug mode keeps those of successful samples; nothing else in the work directory or outside of it is removed or changed.",
     ["histories", "configurations", "fault_sequences"],
     "all sequences of samples (ids around the retention limit, levels, ok/failing, with/without files) x pools x debug x work dir",
     "tests do not look at directories at all",
     ["mlmc/sampling_pool.py", "mlmc/tool/pbs_job.py"],
     [("workspace creation", "mlmc/sampling_pool.py:handle_sim_files/change_to_sample_directory/copy_sim_files"),
      ("retention", "mlmc/sampling_pool.py:move_successful_rm/move_failed_rm/move_dir/remove_sample_dir")],
     ["work directory tree"], ["files on disk", "current directory seen by the simulation"])

prop("C07", "A file storage survives closing and reopening unchanged",
     "For every history of scheduling, saving, renewing and cost records split by any number of reopenings of the file, "
     "the storage answers every query exactly as if it had never been closed: level parameters, result format, scheduled, "
     "collected, failed and unfinished ids, result values in order, and costs. The loaded result format equals the saved "
     "one (names, units, shapes, times, named or coordinate locations in their order), and opening the storage with a "
     "result format that differs is refused without changing the stored data. Formats whose quantities differ in the "
     "number of times or locations or in the kind of locations may be refused on saving, but are never altered.",
     ["histories", "inputs"],
     "all operation histories up to the bound with reopening at every position; all result formats of the grammar",
     "tests reopen once, with one named-location format",
     ["mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py", "mlmc/quantity/quantity_spec.py"],
     [("loading level groups", "mlmc/sample_storage_hdf.py:__init__"),
      ("result format dataset", "mlmc/tool/hdf5.py:HDF5.save_result_format/load_result_format"),
      ("format comparison", "mlmc/quantity/quantity_spec.py:QuantitySpec.__eq__")],
     ["HDF5 file"], ["all SampleStorage query methods after reopening"])

prop("C08", "Memory and file storage both implement the same sample ledger",
     "For every sequence of saving scheduled, successful and failed samples and costs, in any batch sizes and level order, "
     "both storages report the same ledger: per level the scheduled ids, the number of finished samples (successful plus "
     "failed), the number of collected ones, and the result values of every successful sample in the order saved, fine and "
     "coarse unchanged to the last bit (only the fine part on level 0). No saved sample is dropped, duplicated, moved to "
     "another level or altered by later saves, including levels without any result.",
     ["histories", "inputs"],
     "all histories of storage operations up to the bound over 1-3 levels and result lengths",
     "tests save one batch per level",
     ["mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
     [("in-memory ledger", "mlmc/sample_storage.py:Memory"),
      ("HDF datasets", "mlmc/tool/hdf5.py:LevelGroup")],
     ["stored ids, values, counters"],
     ["sample_pairs, n_finished, get_n_collected, load_scheduled_samples, get_n_levels, get_level_ids"])

prop("C09", "A crash of the master leaves a consistent, resumable file storage",
     "If the process is killed at any point while it saves scheduled samples, results, failures or costs, or renews failed "
     "samples, the file opens again, everything saved before the interrupted call is intact, every collected id has exactly "
     "its own result pair, and no id is both collected and unfinished. A sampler restarted on it works and never schedules "
     "an id again that the storage already knows.",
     ["crash_points", "histories"],
     "every line of the storage code executed during the interrupted operation, over all short histories",
     "no test kills the process",
     ["mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py", "mlmc/sampler.py"],
     [("append of ids and values", "mlmc/tool/hdf5.py:LevelGroup.append_successful/_append_dataset"),
      ("replacement of the failed dataset", "mlmc/tool/hdf5.py:LevelGroup.clear_failed_dataset")],
     ["HDF5 file"], ["reopened storage"])

prop("C10", "Chunks partition the collected samples",
     "For every number of collected samples, result length and history of appends, the chunks of a level are disjoint, "
     "ordered, and together cover each collected sample exactly once with its own values; asking for all levels walks the "
     "levels in order, and asking for the first n samples yields exactly the first min(n, collected) samples. Reading a "
     "quantity chunk by chunk therefore gives the same samples as reading the level at once.",
     ["inputs", "histories"],
     "all (collected count, result length, append batching) around the chunk-size boundaries of the file storage",
     "tests have too few samples to get a second chunk",
     ["mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
     [("chunk generator", "mlmc/tool/hdf5.py:LevelGroup.chunks"), ("level chaining", "mlmc/sample_storage.py:chunks")],
     ["collected_values dataset"], ["chunks(), sample_pairs_level()"])

prop("C11", "Quantity expressions act on every sample exactly as numpy on its values",
     "For every expression built from stored quantities of the same layout and constants by arithmetic, powers, numpy "
     "functions, component and slice indexing, time interpolation, location and field selection, and assembling into "
     "arrays, dictionaries, time series and fields, the samples of the expression equal, value by value for fine and "
     "coarse separately, the same numpy operation applied to the stored arrays in the declared layout. Building or "
     "evaluating an expression never changes the quantities it was built from or any stored data.",
     ["programs", "inputs"],
     "all expression trees up to the depth bound over all root layouts",
     "tests check a dozen fixed expressions on one layout",
     ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_types.py"],
     [("expression nodes", "mlmc/quantity/quantity.py:Quantity/QuantityConst/QuantityStorage"),
      ("layout and offsets", "mlmc/quantity/quantity_types.py")],
     ["expression graph"], ["quantity.samples(), qtype"])

prop("C12", "Caching of quantity samples is invisible",
     "For every interleaving of evaluating, building, discarding and re-creating quantities over one or several storages "
     "with collecting further samples, a quantity always yields the samples of its own storage as they are at that moment, "
     "never those of another quantity, another storage, another chunk or an earlier state; estimating with a changed "
     "number of samples or after new samples arrived uses the current data.",
     ["histories"],
     "all operation sequences up to the bound over two quantities, two storages, garbage collection and sample growth",
     "a stale hit needs object identity reuse or growth between two evaluations",
     ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_estimate.py"],
     [("sample cache", "mlmc/quantity/quantity.py:Quantity.samples/get_cache_key"),
      ("cache clearing", "mlmc/quantity/quantity_estimate.py")],
     ["memoization cache"], ["samples(), estimate_mean()"])

prop("C13", "Selection keeps exactly the samples satisfying the condition",
     "For every condition built from comparisons and logical operators (including whole-vector conditions combined over "
     "components and conditions on other quantities of the same data), selecting from a quantity keeps on every level "
     "exactly the samples that satisfy it, in order, with unchanged values, where a comparison holds for a sample if it "
     "holds for all compared components of both the fine and the coarse value, and logical operators combine these "
     "per-sample outcomes; nested "
     "selections equal selecting by the conjunction. Conditions on a non-boolean or on a different sample set are refused.",
     ["programs", "inputs"],
     "all conditions up to the depth bound over value tables enumerating all sign patterns",
     "tests select with one comparison and look at shapes",
     ["mlmc/quantity/quantity.py"],
     [("selection mask", "mlmc/quantity/quantity.py:Quantity.select/Quantity._process_mask"),
      ("comparison masks", "mlmc/quantity/quantity.py:_mask operators")],
     [], ["samples() of the selection"])

prop("C14", "The mean estimate is the multilevel telescoping estimator",
     "For every set of stored samples, every chunking of the storage and any number of levels, the estimated mean equals "
     "the sum over levels of the average of fine minus coarse values (fine values on the coarsest level), the level means, "
     "level variances (ddof 1), variance of the mean (sum of level variances over level counts) and sample counts match the "
     "same formulas, and samples with a NaN in any component are left out and counted as removed. Moments and covariance "
     "are the same estimator applied to the moment functions and their products, and indexing the estimate by component "
     "equals estimating the component.",
     ["inputs", "configurations"],
     "all small sample tables incl. NaN patterns x all chunk partitions x quantity shapes",
     "tests compare with sample statistics approximately, with a single chunk",
     ["mlmc/quantity/quantity_estimate.py", "mlmc/estimator.py"],
     [("accumulation over chunks", "mlmc/quantity/quantity_estimate.py:estimate_mean"),
      ("NaN masking", "mlmc/quantity/quantity_estimate.py:mask_nan_samples"),
      ("moments and covariance quantities", "mlmc/quantity/quantity_estimate.py:moments/covariance")],
     ["sums, square sums, counts"], ["QuantityMean"])

prop("C15", "Moment bases are consistent families of functions on the given domain",
     "For every basis (monomial, Legendre, Fourier, transformed), size and domain, evaluating one moment, a prefix of the "
     "moments or all of them gives the same values; the first moment is one; values match the closed-form basis on the "
     "linearly (or logarithmically) mapped variable; the map and its inverse are mutual inverses; with the safe option "
     "values outside of the domain give NaN and all values of the domain, its ends included, do not. Derivatives of Legendre moments match the differentiated basis in the reference variable, and changing the size keeps the "
     "basis, domain and options.",
     ["inputs", "configurations"],
     "all bases x sizes x domains x log/safe flags x value grids",
     "tests compare single functions on one domain",
     ["mlmc/moments.py"],
     [("evaluation", "mlmc/moments.py:Moments.eval/eval_all/eval_single_moment"),
      ("domain map", "mlmc/moments.py:Moments.linear/inv_linear/transform")],
     [], ["moment values"])

prop("C16", "Sample allocation achieves the target variance at the least cost",
     "For every matrix of level variances, vector of level costs and target variance, the estimated numbers of samples are "
     "at least the requested minimum, satisfy the target variance for every moment (sum over levels of variance over "
     "count), follow the Lagrange-optimal proportion sqrt(variance/cost), and do not exceed the optimum of the most "
     "demanding moment by more than rounding; they grow when the target shrinks. Level parameters derived from a step "
     "range are a geometric sequence from the coarse to the fine step, one per level; initial numbers of samples given by their "
     "first and last value are the rounded geometric sequence between them.",
     ["inputs"],
     "all variance/cost/target tables over a grid of magnitudes, 1-3 levels, 1-3 moments, incl. zeros",
     "tests use one problem and loose tolerance",
     ["mlmc/estimator.py"],
     [("allocation formula", "mlmc/estimator.py:estimate_n_samples_for_target_variance"),
      ("level parameters", "mlmc/estimator.py:determine_level_parameters/determine_sample_vec/calc_level_params")],
     [], ["returned arrays"])

prop("C17", "Every sample contributes its cost exactly once",
     "For every sequence of scheduling, polling and storing, independent of how many samples one poll returns and how many "
     "polls happen in between, the cost per sample reported for a level by either storage equals the total running time of "
     "the successfully computed samples of that level divided by their number (for PBS jobs, of all samples the jobs "
     "computed), and is zero for a level without samples. "
     "Costs accumulate over reopening the file storage and are never mixed between levels.",
     ["schedules", "histories"],
     "all schedule/poll programs up to the bound with a controlled clock, both storages, reopening",
     "wall-clock times differ between runs, so tests only look at presence",
     ["mlmc/sampling_pool.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/sampler.py"],
     [("running time records", "mlmc/sampling_pool.py:_save_running_time/_get_new_times"),
      ("accumulation", "mlmc/sample_storage.py:Memory.save_n_ops, mlmc/sample_storage_hdf.py:save_n_ops")],
     ["time totals and counts per level"], ["get_n_ops()"])

prop("C18", "Subsampling draws exactly the requested number of stored samples",
     "For every vector of requested counts not exceeding the stored ones and every chunking of the stored data, a subsample of a quantity has exactly "
     "the requested number of samples on every level, each of them an unmodified stored "
     "sample with its fine value paired with its own coarse value, and within one evaluation the same selection of samples for every quantity "
     "derived from the subsample. Bootstrap estimates run on any data and average over such subsamples.",
     ["inputs", "configurations"],
     "all (collected, requested) pairs x chunk partitions, every outcome of the random draws within the bounds",
     "randomised, and tests have one chunk per level",
     ["mlmc/quantity/quantity.py", "mlmc/estimator.py"],
     [("subsample quantity", "mlmc/quantity/quantity.py:Quantity.subsample/QuantityStorage"),
      ("bootstrap", "mlmc/estimator.py:Estimate.est_bootstrap")],
     [], ["samples() of the subsample"])

prop("C19", "The PBS pool conserves samples under queue and command faults",
     "For every sequence of scheduling and polling and every pattern of failing qsub and qstat commands within the "
     "tolerated number, jobs queued, running or finishing in any order, each scheduled sample is submitted in exactly one "
     "accepted job, computed with the seed of its id, and reported exactly once, as successful with its result or as "
     "failed; the reported number of running samples is positive while any scheduled sample is not reported and zero "
     "afterwards. Jobs are submitted once the sum of task sizes exceeds one and at the latest with the next poll.",
     ["schedules", "fault_sequences"],
     "all interleavings of scheduling, polling, job state changes and command failures up to the bound",
     "the test suite needs a real PBS server (or replays one recorded happy path)",
     ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"],
     [("job submission", "mlmc/sampling_pool_pbs.py:execute"), ("queue polling", "mlmc/sampling_pool_pbs.py:_qstat_pbs_job"),
      ("result collection", "mlmc/sampling_pool_pbs.py:_get_result_files")],
     ["pending samples", "submitted job ids", "job directory files"], ["get_finished()", "qsub/qstat calls"])

prop("C20", "A restarted PBS master collects every finished sample exactly once",
     "If the master process stops at any point and a new one is started on the kept work directory and file storage, every "
     "sample the storage lists as unfinished that some job has finished or failed is reported exactly once, none that the "
     "storage already holds is reported again, jobs still in the queue are not declared failed and are collected when they "
     "finish, samples that never reached an accepted job are reported as failed so that they can be renewed, and new jobs "
     "never overwrite files of earlier ones.",
     ["crash_points", "histories"],
     "all stop points between (and inside) scheduling/polling steps x job progress x restart",
     "no test restarts the master with jobs in mixed states",
     ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py", "mlmc/sampler.py"],
     [("unfinished samples", "mlmc/sampling_pool_pbs.py:have_permanent_samples/_collect_unfinished"),
      ("job numbering", "mlmc/sampling_pool_pbs.py:_get_job_count")],
     ["job directory", "storage file"], ["get_finished() of the new master", "storage ledger"])

prop("C21", "A PBS job killed midway loses no finished sample and hides no unfinished one",
     "If a job is killed at any point, the results of the samples it completed and recorded are reported as successful "
     "(or failed) exactly once with unchanged values, every other sample of the job is reported as failed, and collecting "
     "never raises, even when the last record is torn.",
     ["crash_points"],
     "every write of the job and every torn prefix of the last record",
     "no test kills a job",
     ["mlmc/tool/pbs_job.py", "mlmc/sampling_pool_pbs.py"],
     [("incremental result files", "mlmc/tool/pbs_job.py:calculate_samples/_append_file"),
      ("reading results", "mlmc/tool/pbs_job.py:read_results")],
     ["result files"], ["read_results / get_finished()"])

prop("C22", "Fields are sampled on the right elements and mapped back consistently",
     "For every set of fields with regions and dependencies (a dependent field living on the regions of its parameters), each field's sample has one value (vector) per "
     "element, elements outside of the field's regions are zero, elements of different regions are independent of the "
     "other fields, and constant or function-of-other-fields definitions are evaluated per element exactly. Refining the "
     "same field object to another point set gives values that depend only on that point set and the random draws.",
     ["inputs", "histories"],
     "all small field definitions over region layouts x sequences of set_points/sample",
     "tests check statistics of one field",
     ["mlmc/random/correlated_field.py"],
     [("field assembly", "mlmc/random/correlated_field.py:Fields"), ("field sampling", "mlmc/random/correlated_field.py:Field.sample")],
     ["full/reg points maps"], ["Fields.sample()"])

prop("C23", "Correlated fields are exact linear images of their random input",
     "For every point set, correlation exponent, length and optional mean, standard deviation and logarithm, the "
     "SVD-based field equals mean + sigma * L z with L L^T equal to the correlation matrix of the current points up to "
     "the requested precision, where z is the drawn normal vector; changing points, mean or variance affects exactly the "
     "following samples. The spectral (Fourier) field is a function of its seed and the points alone, also when a sample runs "
     "out of memory and is summed again in smaller parts.",
     ["inputs", "histories"],
     "all small point sets x parameters x sequences of set_points/sample",
     "tests estimate covariance statistically",
     ["mlmc/random/correlated_field.py"],
     [("covariance matrix and factor", "mlmc/random/correlated_field.py:SpatialCorrelatedField.cov_matrix/svd_dcmp"),
      ("affine and log transformation", "mlmc/random/correlated_field.py:RandomFieldBase.sample")],
     ["factor L"], ["sample()"])

prop("C24", "Mesh and field files round-trip",
     "Reading an ASCII mesh file written by the package returns the same nodes, elements (type, tags, node lists) and physical "
     "names, and field values written for a list of elements are read back for the same elements and fields with unchanged "
     "values, for every combination of element types, ids, tag counts and field names.",
     ["inputs"],
     "all small meshes over the supported element types, id patterns and field sets",
     "no test reads back what was written",
     ["mlmc/tool/gmsh_io.py"],
     [("mesh writer and reader", "mlmc/tool/gmsh_io.py:GmshIO.write_ascii/read"),
      ("field data", "mlmc/tool/gmsh_io.py:write_fields/write_element_data")],
     [], ["GmshIO objects"])

prop("C25", "Approximated distributions are proper and consistent with their moments",
     "For every basis, basis size, domain and moment vector, the fitted density is nonnegative on the "
     "domain and integrates to one over it; when the fit reports success, the moments of the density match "
     "the given ones, and densities of the exponential family of the basis are recovered. The cumulative function is 0 left "
     "of and 1 right of the domain, nondecreasing and equal to the integral of the density, for any order of queries. The "
     "orthogonalised moments have unit covariance under the distribution (or the multilevel estimate) that produced them and "
     "their first function stays the constant one.",
     ["inputs"],
     "a grid of densities x domains x basis sizes x query orders",
     "tests fit a few distributions and compare with tolerance on sorted queries",
     ["mlmc/tool/simple_distribution.py", "mlmc/estimator.py"],
     [("density fit", "mlmc/tool/simple_distribution.py:SimpleDistribution.estimate_density_minimize"),
      ("cdf", "mlmc/tool/simple_distribution.py:SimpleDistribution.cdf"),
      ("orthogonalisation", "mlmc/tool/simple_distribution.py:construct_ortogonal_moments")],
     ["multipliers"], ["density(), cdf()"])

prop("C26", "Flow simulation couples fine and coarse runs on one realisation given by the id",
     "For every hierarchy of meshes and every random field, both runs of a sample of the bundled flow simulation use one "
     "realisation of the random fields, each restricted to exactly the bulk elements of its own level's mesh and run with that "
     "level's input files and time step. The realisation and the result are determined by the sample id only, whatever was "
     "computed before in the process, and differ between samples. The coarse result is never taken from the fine run. A solver "
     "run that leaves no valid output fails its sample and no other. Continuing over prepared input files (clean=False) changes "
     "none of them, remeshes nothing and gives the same samples.",
     ["inputs", "histories", "fault_sequences"],
     "all small mesh hierarchies x fields x orders of samples x outcomes of every solver call",
     "tests need an installed gmsh and flow solver and run one configuration",
     ["mlmc/tool/flow_mc.py", "mlmc/random/correlated_field.py"],
     [("sample", "mlmc/tool/flow_mc.py:FlowSim.calculate/_run_sample"),
      ("level preparation", "mlmc/tool/flow_mc.py:FlowSim.level_instance"),
      ("mesh", "mlmc/tool/flow_mc.py:FlowSim.extract_mesh"),
      ("result", "mlmc/tool/flow_mc.py:FlowSim._extract_result")],
     ["sample workspace", "common files of levels"], ["returned fine and coarse results", "files"])

prop("C27", "Domain, level samples and level variances come from samples of every level",
     "For every storage and set of collected samples, the estimated domain spans the requested quantiles of the fine samples "
     "of all levels with missing values left out; the level samples returned by an estimate are those of the requested level; "
     "level variances, sample counts, moments and their covariance equal the telescoping formulas, with the moments of the "
     "estimate unless others are given. The variance regression keeps the zero level, the constant moment and zero variances, "
     "equals the weighted least squares fit of a log-quadratic model, reproduces data of that model, and the cost of "
     "levels is the measured one.",
     ["inputs", "histories"],
     "all small tables of samples per level x storages x quantiles and of level variances",
     "tests check one storage with the extremes on the first level",
     ["mlmc/estimator.py"],
     [("domain", "mlmc/estimator.py:Estimate.estimate_domain"),
      ("level samples", "mlmc/estimator.py:Estimate.get_level_samples"),
      ("variance regression", "mlmc/estimator.py:Estimate.estimate_diff_vars_regression"),
      ("moments", "mlmc/estimator.py:Estimate.estimate_moments/estimate_covariance")],
     ["stored samples"], ["estimated domain, variances and moments"])

prop("C28", "Every way to run collects every sample once and gives one estimate",
     "For every pool kind and size, storage, completion order, division of waiting into polls with any time limit, addition of "
     "samples while others are running and restart of the sampler over the kept file: after waiting until nothing is running, "
     "the storage holds exactly one result pair or one failure for every scheduled sample, on its own level. A poll returns "
     "a positive number while some scheduled sample is not stored and zero only when all are. The collected samples, means "
     "and moment estimates agree, up to rounding and order of samples, for all ways to run the same schedule.",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "all programs of scheduling, polling, waiting and restarting up to a depth x pools x storages x completion orders",
     "tests run one pool to completion in one go and compare nothing between ways to run",
     ["mlmc/sampler.py", "mlmc/sampling_pool.py", "mlmc/sampling_pool_pbs.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"],
     [("polling", "mlmc/sampler.py:Sampler.ask_sampling_pool_for_samples"),
      ("local pools", "mlmc/sampling_pool.py:OneProcessPool.get_finished, ProcessPool.get_finished"),
      ("PBS pool", "mlmc/sampling_pool_pbs.py:SamplingPoolPBS.get_finished"),
      ("storage", "mlmc/sample_storage.py:Memory.save_samples, mlmc/sample_storage_hdf.py:SampleStorageHDF.save_samples")],
     ["scheduled, running, stored samples"], ["stored samples", "returned counts", "estimates"])

prop("C29", "Plots show exactly the data they are given",
     "For every history of additions, the plots of mlmc.plot.plots and of the estimator show the given data and nothing else: "
     "the distribution plot the density and distribution function of every added distribution over its own domain, histograms "
     "of unit area, errors and exact curves over the union of the domains; the eigenvalue plot the (in the log scale positive) "
     "values in decreasing order with their errors and the threshold; the variance breakdown a stack of V_l / N_l of every level "
     "per selected moment and error bars to the reference; the variance plot every (step, variance) pair; the violin plot the "
     "fine samples of a level beside the coarse ones of the next level. Selected moments are distinct existing indices.",
     ["inputs", "histories"],
     "all small data sets, option combinations and short histories of additions",
     "tests only check that plotting does not fail",
     ["mlmc/plot/plots.py", "mlmc/estimator.py"],
     [("distribution and eigenvalue plots", "mlmc/plot/plots.py:Distribution, Eigenvalues"),
      ("variance plots", "mlmc/plot/plots.py:VarianceBreakdown, Variance, moments_subset"),
      ("estimator plots", "mlmc/estimator.py:Estimate.plot_variances, fine_coarse_violinplot")],
     ["added data"], ["artists of the figure"])

prop("C30", "Statistical tests decide by their significance level",
     "For every sample set, t_test and chi2_test pass exactly if the two-sided p-value of the given mean or variance exceeds "
     "the given level, and anova returns True exactly if equality of the level means is not rejected at 5 %, whatever the "
     "order and container of the samples.",
     ["inputs"],
     "all multisets of samples of a grid x references x levels",
     "no test calls them",
     ["mlmc/tool/stats_tests.py"],
     [("tests of mean, variance and equality of means", "mlmc/tool/stats_tests.py:t_test, chi2_test, anova")],
     [], ["AssertionError or not, returned truth value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
