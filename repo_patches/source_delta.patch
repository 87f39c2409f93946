From 322176ca0c766460528993dfda65704699d9f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:33 +0000
Subject: [PATCH 01/59] fix: do not lose samples finished while the results
 queues are being emptied

OneProcessPool._queues_to_list copied a queue and cleared it afterwards; a result put by the
result handler thread between the two steps was dropped and the sampler waited for it forever.
---
 mlmc/sampling_pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 0d40232..5f2ffc2 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -281,13 +281,13 @@ class OneProcessPool(SamplingPool):
     def _queues_to_list(self, queue_dict_list):
         results = {}
         for level_id, q in queue_dict_list:
-            queue_list = list(q.queue)
+            # Read and clear the queue at once, results may be put in by another thread in the meantime
+            with q.mutex:
+                queue_list = list(q.queue)
+                q.queue.clear()
             if not queue_list:
                 continue
             results[level_id] = queue_list
-            # Thread safe clear
-            with q.mutex:
-                q.queue.clear()
 
             self._n_running -= len(results[level_id])
 
-- 
2.43.0


From 9a6ed91ff1eb3a1c1fb1f17e0c623f092cc06f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:54 +0000
Subject: [PATCH 02/59] fix: count a sample as failed when its workspace or its
 result transfer fails

An error raised outside the simulation itself (missing common file, result that cannot be sent
back from the worker process) aborted the scheduling in OneProcessPool, and in ProcessPool and
ThreadPool it killed the result handler thread, so that the sampler waited forever.
---
 mlmc/sampling_pool.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 5f2ffc2..c76e1da 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -99,9 +99,9 @@ class SamplingPool(ABC):
         err_msg = ""
         running_time = 0
 
-        if level_sim.need_sample_workspace:
-            SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
         try:
+            if level_sim.need_sample_workspace:
+                SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
             start = time.time()
             res = level_sim._calculate(level_sim.config_dict, seed)
             running_time = time.time() - start
@@ -312,6 +312,17 @@ class ProcessPool(OneProcessPool):
         """
         self._process_result(*result, level_sim)
 
+    def err_callback(self, error, sample_id, level_sim):
+        """
+        Process an error that prevented the sample result from being delivered, the sample is considered as failed
+        :param error: Exception instance
+        :param sample_id: str
+        :param level_sim: LevelSimulation instance
+        :return: None
+        """
+        err_msg = "".join(traceback.format_exception(type(error), error, error.__traceback__))
+        self._process_result(sample_id, (None, None), err_msg, 0, level_sim)
+
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
 
@@ -320,7 +331,7 @@ class ProcessPool(OneProcessPool):
 
         self._pool.apply_async(SamplingPool.calculate_sample, args=(sample_id, level_sim, self._output_dir),
                                callback=lambda res: self.res_callback(res, level_sim),
-                               error_callback=lambda res: self.res_callback(res, level_sim))
+                               error_callback=lambda err: self.err_callback(err, sample_id, level_sim))
 
 
 class ThreadPool(ProcessPool):
-- 
2.43.0


From 242adb8e3bbfc9a3653c2e452cf443499d30ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:14 +0000
Subject: [PATCH 03/59] fix: Memory storage counts failed samples saved before
 any successful one

The first batch of failed samples of a level was not added to the number of finished samples
if no sample of that level had been stored before.
---
 mlmc/sample_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 01be908..8ef330c 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -199,8 +199,8 @@ class Memory(SampleStorage):
 
             if level_id not in self._n_finished:
                 self._n_finished[level_id] = 0
-            else:
-                self._n_finished[level_id] += len(res)
+
+            self._n_finished[level_id] += len(res)
 
     def save_result_format(self, res_spec: List[QuantitySpec]):
         """
-- 
2.43.0


From 8dbec39986edaeeeab33670d46f870af97b1cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:41 +0000
Subject: [PATCH 04/59] fix: Memory storage reports all levels, including those
 without results

n_finished() raised ValueError before the first finished sample, returned uninitialised numbers
for levels without finished samples and was shorter than the number of levels, so that
Sampler.process_adding_samples() failed or compared garbage; sample_pairs() and
get_n_collected() raised IndexError if a lower level had no successful sample yet.
---
 mlmc/sample_storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 8ef330c..ec54883 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -215,7 +215,7 @@ class Memory(SampleStorage):
         Number of finished samples on each level
         :return: List
         """
-        n_finished = np.empty(max(self._n_finished.items(), key=lambda k: k[0])[0]+1)
+        n_finished = np.zeros(self.get_n_levels())
         for level_id, n_fin in self._n_finished.items():
             n_finished[level_id] = n_fin
 
@@ -247,7 +247,7 @@ class Memory(SampleStorage):
         Sample results split to numpy arrays
         :return: List[Array[M, N, 2]]
         """
-        levels_results = list(np.empty(len(self._results)))
+        levels_results = [[] for _ in range(self.get_n_levels())]
 
         for level_id in self.get_level_ids():
             results = self.sample_pairs_level(ChunkSpec(level_id=level_id))
@@ -322,7 +322,7 @@ class Memory(SampleStorage):
         Number of collected samples at each level
         :return: List
         """
-        n_collected = list(np.zeros(len(self._results)))
+        n_collected = [0] * self.get_n_levels()
         for level_id in self.get_level_ids():
             n_collected[int(level_id)] = len(self._results[int(level_id)])
         return n_collected
@@ -332,7 +332,8 @@ class Memory(SampleStorage):
         Get number of levels
         :return: int
         """
-        return len(self._results)
+        n_levels = 0 if self._level_parameters is None else len(self._level_parameters)
+        return max([n_levels] + [int(level_id) + 1 for level_id in [*self._n_finished, *self._n_ops]])
 
     def get_level_parameters(self):
         return self._level_parameters
-- 
2.43.0


From 856fa19efa17a268984cb9c91c45e9a8e00c0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:41 +0000
Subject: [PATCH 05/59] fix: every sample contributes once to the level costs
 (n_ops)

Local pools returned cumulative running times from every get_finished() call while the storages
accumulate what they are given (Memory even summed up averages), so that the costs used for the
distribution of samples among levels depended on how many times the pool was polled. Pools now
return the times since the previous call. Storages return zero costs for levels without
samples instead of failing.
---
 mlmc/sample_storage.py     | 12 +++++++-----
 mlmc/sample_storage_hdf.py |  5 +++--
 mlmc/sampling_pool.py      | 17 ++++++++++++++++-
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index ec54883..3012d35 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -292,19 +292,21 @@ class Memory(SampleStorage):
         """
         for level, (time, n_samples) in n_ops:
             if level not in self._n_ops:
-                self._n_ops[level] = 0
+                self._n_ops[level] = [0., 0.]
 
             if n_samples != 0:
-                self._n_ops[level] += time/n_samples
+                self._n_ops[level][0] += time
+                self._n_ops[level][1] += n_samples
 
     def get_n_ops(self):
         """
         Get number of operations on each level
         :return: List[float]
         """
-        n_ops = list(np.empty(len(np.max(self._n_ops.keys()))))
-        for level, time in self._n_ops.items():
-            n_ops[level] = time
+        n_ops = list(np.zeros(self.get_n_levels()))
+        for level, (time, n_samples) in self._n_ops.items():
+            if n_samples > 0:
+                n_ops[level] = time / n_samples
         return n_ops
 
     def unfinished_ids(self):
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 7e5fbef..a5224ca 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -243,8 +243,9 @@ class SampleStorageHDF(SampleStorage):
         """
         n_ops = list(np.zeros(len(self._level_groups)))
         for level in self._level_groups:
-            if level.n_ops_estimate[1] > 0:
-                n_ops[int(level.level_id)] = level.n_ops_estimate[0] / level.n_ops_estimate[1]
+            n_ops_estimate = level.n_ops_estimate
+            if n_ops_estimate is not None and n_ops_estimate[1] > 0:
+                n_ops[int(level.level_id)] = n_ops_estimate[0] / n_ops_estimate[1]
             else:
                 n_ops[int(level.level_id)] = 0
         return n_ops
diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index c76e1da..ed37c60 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -215,6 +215,7 @@ class OneProcessPool(SamplingPool):
         self._queues = {}
         self._n_running = 0
         self.times = {}
+        self._reported_times = {}
 
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
@@ -276,7 +277,21 @@ class OneProcessPool(SamplingPool):
         successful = self._queues_to_list(list(self._queues.items()))
         failed = self._queues_to_list(list(self._failed_queues.items()))
 
-        return successful, failed, self._n_running, list(self.times.items())
+        return successful, failed, self._n_running, self._get_new_times()
+
+    def _get_new_times(self):
+        """
+        Running times since the previous call, storages accumulate them
+        :return: List[Tuple[level_id, List[total time, number of samples]]]
+        """
+        new_times = []
+        for level_id, (total_time, n_samples) in list(self.times.items()):
+            reported_time, reported_n = self._reported_times.get(level_id, (0, 0))
+            if n_samples == reported_n:
+                total_time = reported_time
+            new_times.append((level_id, [total_time - reported_time, n_samples - reported_n]))
+            self._reported_times[level_id] = (total_time, n_samples)
+        return new_times
 
     def _queues_to_list(self, queue_dict_list):
         results = {}
-- 
2.43.0


From fea3c66b430a75c311dc004d7ce5b2a3853559df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:29 +0000
Subject: [PATCH 06/59] fix: PBS pool counts every unfinished job

Finished job ids were removed from the list while iterating over it, so the
job following a finished one was left out of the running samples.
---
 mlmc/sampling_pool_pbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 01c4128..58e519f 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -306,7 +306,7 @@ class SamplingPoolPBS(SamplingPool):
 
         # Get unfinished as diff between planned and finished
         unfinished_pbs_jobs = []
-        for pbs_id in self._pbs_ids:
+        for pbs_id in list(self._pbs_ids):
             if pbs_id not in finished_pbs_jobs:
                 unfinished_pbs_jobs.append(pbs_id)
             else:
-- 
2.43.0


From 0a511c13f43f4e4a237070547ccbca114a05aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:29 +0000
Subject: [PATCH 07/59] fix: restarted PBS pool does not reuse numbers of
 existing jobs

The next job number was taken from an arbitrary job script (glob order).
---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 58e519f..4b6975a 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -101,8 +101,8 @@ class SamplingPoolPBS(SamplingPool):
         if not files:
             return 0
 
-        job_id = re.findall(r'(\d+)_job.sh', files[-1])[0]
-        return int(job_id) + 1
+        # glob returns files in arbitrary order
+        return max(int(re.findall(r'(\d+)_job.sh', file)[-1]) for file in files) + 1
 
     def _save_structure(self):
         """
-- 
2.43.0


From ea497d67219043be4608a86e0eb7ceddbae60d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:29 +0000
Subject: [PATCH 08/59] fix: PBS pool counts samples waiting for submission as
 running

After a failed qsub the samples stay in the pool, but the pool reported that
nothing was running and the sampler stopped waiting for them.
---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 4b6975a..be357e0 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -331,8 +331,8 @@ class SamplingPoolPBS(SamplingPool):
         """
         os.chdir(self._jobs_dir)
 
-        # Get number of running samples
-        n_running = 0
+        # Get number of running samples, including samples waiting for a successful qsub
+        n_running = len(self._scheduled)
         for pbs_id in unfinished_pbs_jobs:
             reg = "*_{}".format(pbs_id)
             file = glob.glob(reg)
-- 
2.43.0


From 2222bf663431c8f71a2d15bc8e6a5ee8c11e29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:15 +0000
Subject: [PATCH 09/59] fix: restarted PBS pool collects every unfinished
 sample exactly once

- jobs of the previous main process that are still in the queue are polled again
  instead of being left uncollected,
- failed samples were looked up in the results of the new process (wrong
  dictionaries), so they were never collected and new results were duplicated,
- samples that have not been submitted raised KeyError, now they are failed,
- terminated jobs forgotten by PBS ('Unknown Job Id') are collected.
---
 mlmc/sampling_pool_pbs.py | 88 ++++++++++++++++++++++++++-------------
 mlmc/tool/pbs_job.py      |  8 +++-
 2 files changed, 66 insertions(+), 30 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index be357e0..ab50a4a 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -81,6 +81,8 @@ class SamplingPoolPBS(SamplingPool):
         # List of pbs job ids which should run
         self._unfinished_sample_ids = set()
         # List of sample id which are not collected - collection attempts are done in the get_finished()
+        self._attached_jobs = {}
+        # Jobs submitted by a previous main process, Dict[pbs_id, set of unfinished sample ids]
         self._debug = debug
         # If true then keep sample directories
         super().__init__(self._work_dir, self._debug)
@@ -293,10 +295,13 @@ class SamplingPoolPBS(SamplingPool):
             process = subprocess.run(qstat_call, stderr=subprocess.PIPE, stdout=subprocess.PIPE)
             try:
                 if process.returncode != 0:
-                    raise Exception(process.stderr.decode("ascii"))
+                    # Terminated jobs are forgotten after some time
+                    finished_pbs_jobs = re.findall(r"Unknown Job Id:? *(\d+)", process.stderr.decode("ascii"))
+                    if not finished_pbs_jobs:
+                        raise Exception(process.stderr.decode("ascii"))
                 output = process.stdout.decode("ascii")
                 # Find all finished jobs
-                finished_pbs_jobs = re.findall(r"(\d+)\..*\d+ F", output)
+                finished_pbs_jobs.extend(re.findall(r"(\d+)\..*\d+ F", output))
                 self._qstat_failed_n = 0
             except:
                 self._qstat_failed_n += 1
@@ -353,6 +358,10 @@ class SamplingPoolPBS(SamplingPool):
                 job_id = re.findall(r'(\d+)_\d+', file)[0]
                 # Get sample results
                 successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
+                if pbs_id in self._attached_jobs:
+                    sample_ids = self._attached_jobs.pop(pbs_id)
+                    successful = self._select_samples(successful, sample_ids)
+                    failed = self._select_samples(failed, sample_ids)
 
                 # Split results to levels
                 for level_id, results in successful.items():
@@ -383,35 +392,34 @@ class SamplingPoolPBS(SamplingPool):
         :param times: dict
         :return: all input dictionaries
         """
-        already_collected = set()
-        for sample_id in self._unfinished_sample_ids:
-            if sample_id in already_collected:
-                continue
-
+        jobs = {}
+        for sample_id in sorted(self._unfinished_sample_ids):
             job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
-            successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
+            jobs.setdefault(job_id, set()).add(sample_id)
+
+        for job_id, sample_ids in jobs.items():
+            successful, failed, time = {}, {}, {}
+            if job_id is not None:
+                successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
             # Split results to levels
-            for level_id, results in successful.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
-                        successful_results.setdefault(level_id, []).append(res)
-
-            for level_id, results in failed_results.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
-                        failed_results.setdefault(level_id, []).append(res)
-
-            for level_id, results in times.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        times.setdefault(level_id, []).append(res)
-                times[level_id] = results
-
-            # Delete pbsID file - it means job is finished
-            # SamplingPoolPBS.delete_pbs_id_file(file)
+            collected = set()
+            for results, all_results in [(successful, successful_results), (failed, failed_results)]:
+                for level_id, level_results in self._select_samples(results, sample_ids).items():
+                    all_results.setdefault(level_id, []).extend(level_results)
+                    collected.update(res[0] for res in level_results)
+
+            # Samples which have not been submitted
+            for sample_id in sorted(sample_ids - collected):
+                level_id = int(re.findall(r'L(\d+)_S', sample_id)[0])
+                failed_results.setdefault(level_id, []).append((sample_id, "sample was not submitted"))
+
+            for level_id, results in time.items():
+                if level_id in times:
+                    times[level_id][0] += results[-1][0]
+                    times[level_id][1] += results[-1][1]
+                else:
+                    times[level_id] = list(results[-1])
 
         self._unfinished_sample_ids = set()
 
@@ -423,6 +431,30 @@ class SamplingPoolPBS(SamplingPool):
         """
         self._unfinished_sample_ids = set(sample_ids)
 
+        # Jobs of the previous main process that have not been collected yet may be still running
+        for sample_id in list(self._unfinished_sample_ids):
+            job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+            files = glob.glob(os.path.join(glob.escape(self._jobs_dir), "{}_*".format(job_id)))
+            pbs_ids = [os.path.basename(file).split("_")[1] for file in files]
+            pbs_ids = [pbs_id for pbs_id in pbs_ids if pbs_id.isdigit()]
+            if job_id is not None and pbs_ids:
+                if pbs_ids[0] not in self._pbs_ids:
+                    self._pbs_ids.append(pbs_ids[0])
+                self._attached_jobs.setdefault(pbs_ids[0], set()).add(sample_id)
+                self._unfinished_sample_ids.discard(sample_id)
+
+    @staticmethod
+    def _select_samples(results, sample_ids):
+        """
+        Results of given samples
+        :param results: Dict[level_id, List[Tuple[sample_id, ...]]]
+        :param sample_ids: set of sample ids
+        :return: Dict[level_id, List[Tuple[sample_id, ...]]]
+        """
+        selected = {level_id: [res for res in level_results if res[0] in sample_ids]
+                    for level_id, level_results in results.items()}
+        return {level_id: level_results for level_id, level_results in selected.items() if level_results}
+
     @staticmethod
     def delete_pbs_id_file(file_path):
         """
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index a39b864..5dc01eb 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -253,12 +253,14 @@ class PbsJob:
         Get job ID for given sample ID
         :param sample_id: str
         :param jobs_dir: jobs directory with results
-        :return: str, job id
+        :return: str, job id or None if sample has not been added to any job
         """
         sample_id_job_id_file = os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID)
+        if not os.path.exists(sample_id_job_id_file):
+            return None
         with open(sample_id_job_id_file, "r") as file:
             saved_ids = json.load(file)
-        return saved_ids[sample_id]
+        return saved_ids.get(sample_id)
 
     def _append_file(self, data, path):
         """
@@ -343,6 +345,8 @@ class PbsJob:
         :param jobs_dir: str
         :return:
         """
+        if not os.path.exists(os.path.join(jobs_dir, PbsJob.SCHEDULED.format(job_id))):
+            return []  # Main process stopped before the job was submitted
         with open(os.path.join(jobs_dir, PbsJob.SCHEDULED.format(job_id))) as file:
             level_id_sample_id_seed = yaml.load(file, yaml.Loader)
 
-- 
2.43.0


From ba82ca9224a21a7097798fac84f537d0c1928af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 10/59] fix: results of a killed PBS job can be read

A record torn by killing the job made reading of all results of the job raise
(or return wrong values), records are now followed by an end mark.
---
 mlmc/tool/pbs_job.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index 5dc01eb..a28eec7 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -27,6 +27,8 @@ class PbsJob:
     SAMPLE_ID_JOB_ID = "sample_id_job_id.json"
     # Sample id with corresponding job id,
     # used to indicate that sample is stored in _successful_results.yaml or _failed_results.yaml
+    RECORD_END = "# end of record\n"
+    # Mark (YAML comment) following each record of result files, a record without it is incomplete
 
     def __init__(self, output_dir, jobs_dir, job_id, level_sim_file, debug):
         """
@@ -270,7 +272,18 @@ class PbsJob:
         :return: None
         """
         with open(path, "a") as f:
-            yaml.dump(data, f)
+            f.write(yaml.dump(data) + PbsJob.RECORD_END)
+
+    @staticmethod
+    def _read_file(path):
+        """
+        Read complete records from result file, the last record is incomplete if the job has been killed during writing
+        :param path: file path
+        :return: list
+        """
+        with open(path, "r") as reader:
+            records, mark, _ = reader.read().rpartition(PbsJob.RECORD_END)
+        return yaml.load(records + mark) or []
 
     def _handle_sim_files(self, sample_id, level_sim):
         """
@@ -300,24 +313,21 @@ class PbsJob:
 
         # Save successful results
         if os.path.exists(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id)), "r") as reader:
-                successful_samples = yaml.load(reader)
-                for level_id, sample_id, result in successful_samples:
-                    successful.setdefault(level_id, []).append((sample_id, result))
+            successful_samples = PbsJob._read_file(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id)))
+            for level_id, sample_id, result in successful_samples:
+                successful.setdefault(level_id, []).append((sample_id, result))
 
         # Save failed results
         if os.path.exists(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id)), "r") as reader:
-                failed_samples = yaml.load(reader)
-                for level_id, sample_id, err_msg in failed_samples:
-                    failed.setdefault(level_id, []).append((sample_id, err_msg))
+            failed_samples = PbsJob._read_file(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id)))
+            for level_id, sample_id, err_msg in failed_samples:
+                failed.setdefault(level_id, []).append((sample_id, err_msg))
 
         # Save time
         if os.path.exists(os.path.join(jobs_dir, PbsJob.TIME.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.TIME.format(job_id)), "r") as reader:
-                times = yaml.load(reader)
-                for level_id, n_samples, t in times:
-                    time.setdefault(level_id, []).append((n_samples, t))
+            times = PbsJob._read_file(os.path.join(jobs_dir, PbsJob.TIME.format(job_id)))
+            for level_id, n_samples, t in times:
+                time.setdefault(level_id, []).append((n_samples, t))
 
         # Deal with not finished (failed) samples in finished job
         level_id_sample_id_seed = PbsJob.get_scheduled_sample_ids(job_id, jobs_dir)
-- 
2.43.0


From 60273af5195d54763c20a24be25bf512d1eac936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 11/59] fix: PBS pool is not broken by stopping it while it
 writes its files

An incomplete sample_id_job_id.json made every later job submission raise, an
incomplete level simulation was never rewritten so all its samples failed.
---
 mlmc/sampling_pool_pbs.py |  3 +--
 mlmc/tool/pbs_job.py      | 27 ++++++++++++++++++---------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index ab50a4a..bfccac6 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -194,8 +194,7 @@ class SamplingPoolPBS(SamplingPool):
         file_path = os.path.join(self._output_dir, SamplingPoolPBS.LEVEL_SIM_CONFIG.format(level_sim._level_id))
 
         if not os.path.exists(file_path):
-            with open(file_path, "wb") as f:
-                pickle.dump(level_sim, f)
+            PbsJob.write_file(file_path, pickle.dumps(level_sim))
 
     def execute(self):
         """
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index a28eec7..b49bf4f 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -84,10 +84,21 @@ class PbsJob:
         :return: None
         """
         if not os.path.exists(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)):
-            with open(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE), "w") as writer:
-                writer.write(pbs_process._jobs_dir + ";")
-                writer.write(pbs_process._level_sim_file + ";")
-                writer.write(str(pbs_process._debug) + ";")
+            content = ";".join([pbs_process._jobs_dir, pbs_process._level_sim_file, str(pbs_process._debug)]) + ";"
+            PbsJob.write_file(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE), content)
+
+    @staticmethod
+    def write_file(path, content):
+        """
+        Write file at once, the file is never incomplete even if the process is stopped
+        :param path: file path
+        :param content: str or bytes
+        :return: None
+        """
+        tmp_path = path + ".tmp"
+        with open(tmp_path, "wb" if isinstance(content, bytes) else "w") as writer:
+            writer.write(content)
+        os.replace(tmp_path, path)
 
     @staticmethod
     def _deserialize_pbs_process(output_dir):
@@ -245,9 +256,8 @@ class PbsJob:
             with open(sample_id_job_id_file, "r") as file:
                 saved_ids = json.load(file)
 
-        with open(sample_id_job_id_file, "w") as file:
-            saved_ids.update(new_ids)
-            json.dump(saved_ids, file)
+        saved_ids.update(new_ids)
+        PbsJob.write_file(sample_id_job_id_file, json.dumps(saved_ids))
 
     @staticmethod
     def job_id_from_sample_id(sample_id, jobs_dir):
@@ -380,8 +390,7 @@ class PbsJob:
         :return: None
         """
         try:
-            with open(os.path.join(self._jobs_dir, PbsJob.SCHEDULED.format(self._job_id)), "w") as file:
-                yaml.dump(scheduled, file)
+            PbsJob.write_file(os.path.join(self._jobs_dir, PbsJob.SCHEDULED.format(self._job_id)), yaml.dump(scheduled))
         except FileNotFoundError:
             print("Make sure you call _create_files method previously")
 
-- 
2.43.0


From bbb7e20e66155c14b5f8c0789a69cb5759cbdc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:49 +0000
Subject: [PATCH 12/59] fix: HDF storage answers queries on levels without
 collected samples

The number of collected samples was an AttributeError instance (returned, not
raised) and sample_pairs() raised.
---
 mlmc/sample_storage_hdf.py | 7 +++++--
 mlmc/tool/hdf5.py          | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index a5224ca..6175080 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -157,8 +157,11 @@ class SampleStorageHDF(SampleStorage):
         levels_results = list(np.empty(len(self._level_groups)))
 
         for level in self._level_groups:
-            chunk_spec = next(self.chunks(level_id=int(level.level_id),
-                                          n_samples=self.get_n_collected()[int(level.level_id)]))
+            n_collected = level.collected_n_items()
+            if n_collected == 0:
+                levels_results[int(level.level_id)] = []
+                continue
+            chunk_spec = next(self.chunks(level_id=int(level.level_id), n_samples=n_collected))
             results = self.sample_pairs_level(chunk_spec)  # return all samples no chunks
             if results is None or len(results) == 0:
                 levels_results[int(level.level_id)] = []
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f6f3219..810dcae 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -382,7 +382,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'r') as hdf_file:
             if 'collected_values' not in hdf_file[self.level_group_path]:
-                return AttributeError("collected_values dataset not in HDF file for level {}".format(self.level_id))
+                return 0
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
             collected_n_items = len(dataset[()])
         return collected_n_items
-- 
2.43.0


From c23afbb8eda5f87db8732708c8213b620260ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:49 +0000
Subject: [PATCH 13/59] fix: ids and results of collected samples are saved to
 HDF file at once

The main process stopped between writing the ids and the results left ids without
results, so ids and results did not match since then.
---
 mlmc/tool/hdf5.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 810dcae..ed6aef2 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -306,8 +306,6 @@ class LevelGroup:
         :param samples: np.ndarray
         :return: None
         """
-        self._append_dataset(self.collected_ids_dset, samples[:, 0])
-
         values = samples[:, 1]
         result_type = np.dtype((np.float, np.array(values[0]).shape))
 
@@ -317,7 +315,10 @@ class LevelGroup:
                            chunks=True)
 
         d_name = 'collected_values'
-        self._append_dataset(d_name, [val for val in values])
+        # Write ids and values at once, so that there are no ids without values if the process is stopped
+        with h5py.File(self.file_name, 'a') as hdf_file:
+            for dataset_name, data in [(self.collected_ids_dset, samples[:, 0]), (d_name, [val for val in values])]:
+                self._append_to_dataset(hdf_file[self.level_group_path][dataset_name], data)
 
     def append_failed(self, failed_samples):
         """
@@ -335,11 +336,20 @@ class LevelGroup:
         :return: None
         """
         with h5py.File(self.file_name, 'a') as hdf_file:
-            dataset = hdf_file[self.level_group_path][dataset_name]
-            # Resize dataset
-            dataset.resize(dataset.shape[0] + len(values), axis=0)
-            # Append new values to the end of dataset
-            dataset[-len(values):] = values
+            self._append_to_dataset(hdf_file[self.level_group_path][dataset_name], values)
+
+    @staticmethod
+    def _append_to_dataset(dataset, values):
+        """
+        Append values to dataset of opened file
+        :param dataset: h5py.Dataset
+        :param values: list of values (tuple, NumPy array or single value)
+        :return: None
+        """
+        # Resize dataset
+        dataset.resize(dataset.shape[0] + len(values), axis=0)
+        # Append new values to the end of dataset
+        dataset[-len(values):] = values
 
     def scheduled(self):
         """
-- 
2.43.0


From 95b874d760d717d87e888f01889afc58901746c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:04 +0000
Subject: [PATCH 14/59] fix: synthetic simulation does not share random
 generator between samples

---
 mlmc/sim/synth_simulation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mlmc/sim/synth_simulation.py b/mlmc/sim/synth_simulation.py
index 5341721..04061bc 100644
--- a/mlmc/sim/synth_simulation.py
+++ b/mlmc/sim/synth_simulation.py
@@ -82,8 +82,7 @@ class SynthSimulation(Simulation):
         :return: fine sample, coarse sample
         """
         SynthSimulation.len_results += 1
-        distr.random_state = np.random.RandomState(seed)
-        y = distr.rvs(size=size)
+        y = distr.rvs(size=size, random_state=np.random.RandomState(seed))
 
         if SynthSimulation.n_nans / (1e-10 + SynthSimulation.len_results) < SynthSimulation.nan_fraction:
             SynthSimulation.n_nans += 1
@@ -231,8 +230,7 @@ class SynthSimulationWorkspace(SynthSimulation):
         else:
             raise NotImplementedError("Other distributions are not implemented yet")
 
-        distr.random_state = np.random.RandomState(seed)
-        y = distr.rvs(size=size)
+        y = distr.rvs(size=size, random_state=np.random.RandomState(seed))
 
         if SynthSimulationWorkspace.n_nans / (1e-10 + SynthSimulationWorkspace.len_results) < SynthSimulationWorkspace.nan_fraction:
             SynthSimulationWorkspace.n_nans += 1
-- 
2.43.0


From f77f4ae85abb7c284aa86d5824d872df3a1aa689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:18 +0000
Subject: [PATCH 15/59] fix: failed samples with non-ASCII error messages are
 saved to HDF file

---
 mlmc/tool/hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index ed6aef2..7c1a70d 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -326,6 +326,8 @@ class LevelGroup:
         :param failed_samples: set; Level sample ids
         :return: None
         """
+        # Dataset contains bytes, error messages may contain arbitrary characters
+        failed_samples = [(sample_id, message.encode('utf-8', errors='replace')) for sample_id, message in failed_samples]
         self._append_dataset(self.failed_dset, failed_samples)
 
     def _append_dataset(self, dataset_name, values):
-- 
2.43.0


From d0ab89f751d5ddf5c9d5b6ffcc0a0bb0c8d8046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:14 +0000
Subject: [PATCH 16/59] fix: result format with coordinates or three letter
 locations is saved to HDF file and compared in full

---
 mlmc/quantity/quantity_spec.py | 2 +-
 mlmc/sample_storage_hdf.py     | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index ea25dc6..e174137 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and not (set(self.locations) - set(other.locations)):
+                and np.array_equal(self.locations, other.locations):
             return True
         return False
 
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 6175080..279379a 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -38,7 +38,8 @@ class SampleStorageHDF(SampleStorage):
         QuantitySpec data type, necessary for hdf storage
         :return:
         """
-        if len(locations[0]) == 3:
+        # Locations are either names or coordinates
+        if not isinstance(locations[0], str):
             tuple_dtype = np.dtype((np.float, (3,)))
             loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
         else:
@@ -62,6 +63,10 @@ class SampleStorageHDF(SampleStorage):
         :param result_format: simulation result format
         :return: None
         """
+        # All quantities are stored in one dataset
+        if len(set((len(q_spec.times), len(q_spec.locations), isinstance(q_spec.locations[0], str))
+                   for q_spec in result_format)) > 1:
+            raise ValueError('All quantities must have the same number of times and the same number and kind of locations')
         res_dtype = self._hdf_result_format(result_format[0].locations, result_format[0].times)
 
         # Create file structure
@@ -106,7 +111,7 @@ class SampleStorageHDF(SampleStorage):
         quantities = []
         for res_format in results_format:
             spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() for loc in res_format[4]])
+                                [loc.decode() if isinstance(loc, bytes) else tuple(loc.tolist()) for loc in res_format[4]])
 
             quantities.append(spec)
 
-- 
2.43.0


From 72b9e79e70922f253285ca7d65d4afd0064ba91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:48 +0000
Subject: [PATCH 17/59] fix: samples of a discarded quantity are not taken from
 cache for another quantity

---
 mlmc/quantity/quantity.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bdeddb9..bea1df5 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -1,4 +1,5 @@
 import operator
+import itertools
 import numpy as np
 import scipy.stats
 from memoization import cached
@@ -33,6 +34,14 @@ def make_root_quantity(storage: SampleStorage, q_specs: List[QuantitySpec]):
 
 
 class Quantity:
+    _instance_counter = itertools.count()
+
+    def __new__(cls, *args, **kwargs):
+        # Identifier of the instance for the cache of samples, unlike id() it is never used again for another instance
+        instance = super().__new__(cls)
+        instance._instance_id = next(Quantity._instance_counter)
+        return instance
+
     def __init__(self, quantity_type, operation, input_quantities=[]):
         """
         Quantity class represents real quantity and also provides operation that can be performed with stored values.
@@ -121,7 +130,7 @@ class Quantity:
         chunk_size = None
         if chunk_spec.chunk_slice is not None:
             chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, id(self))  # redundant parentheses needed due to py36, py37
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, self._instance_id)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From 9393410251f84b65ea804a7bf91bc42338317638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:58 +0000
Subject: [PATCH 18/59] fix: memory storage walks levels in order

---
 mlmc/sample_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 3012d35..0cd9cc2 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -317,7 +317,7 @@ class Memory(SampleStorage):
         return []
 
     def get_level_ids(self):
-        return list(self._results.keys())
+        return sorted(self._results.keys())
 
     def get_n_collected(self):
         """
-- 
2.43.0


From 3ee7f18eca090c53f7e2959089f0924bdce332b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:58 +0000
Subject: [PATCH 19/59] fix: chunk of the first n samples does not exceed
 collected samples in HDF file

---
 mlmc/tool/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 7c1a70d..d0a782e 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -369,7 +369,7 @@ class LevelGroup:
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
 
             if n_samples is not None:
-                yield ChunkSpec(chunk_id=0, chunk_slice=slice(0, n_samples, 1), level_id=int(self.level_id))
+                yield ChunkSpec(chunk_id=0, chunk_slice=slice(0, min(n_samples, len(dataset)), 1), level_id=int(self.level_id))
             else:
                 for chunk_id, chunk in enumerate(dataset.iter_chunks()):
                     yield ChunkSpec(chunk_id=chunk_id, chunk_slice=chunk[0], level_id=int(self.level_id))  # slice, level_id
-- 
2.43.0


From 7d386a9d5fe4cf2788787fcfee49c302e7c37e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:12 +0000
Subject: [PATCH 20/59] fix: items of array quantity of non-scalar items or
 selected by ellipsis

---
 mlmc/quantity/quantity_types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 41d6ea7..18e6ffc 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -128,10 +128,11 @@ class ArrayType(QType):
         :param key: slice
         :return:
         """
-        # Reshape M to original shape to allow access
         assert self._shape is not None
-        chunk = chunk.reshape((*self._shape, chunk.shape[-2], chunk.shape[-1]))
-        return QType.keep_dims(chunk[key])
+        # Positions of selected array items, an item can consist of more values
+        positions = np.arange(np.prod(self._shape)).reshape(self._shape)[key]
+        chunk = chunk.reshape((np.prod(self._shape), self._qtype.size(), chunk.shape[-2], chunk.shape[-1]))
+        return QType.keep_dims(chunk[positions])
 
     def reshape(self, data):
         if isinstance(self._qtype, ScalarType):
-- 
2.43.0


From ea6c8a379e3d8a6aafa22a8468f51c5ede2ff53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:13 +0000
Subject: [PATCH 21/59] fix: multidimensional constants are applied by
 components of quantity

---
 mlmc/quantity/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bea1df5..844f96a 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -545,7 +545,7 @@ class QuantityConst(Quantity):
         """
         if isinstance(value, (int, float, bool)):
             value = np.array([value])
-        return value[:, np.newaxis, np.newaxis]
+        return np.ravel(value)[:, np.newaxis, np.newaxis]
 
     def selection_id(self):
         """
-- 
2.43.0


From 5f33b32583488ceca295e8becda9fc6c238186f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:34 +0000
Subject: [PATCH 22/59] fix: item of QuantityMean given by tuple of indices

---
 mlmc/quantity/quantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 844f96a..d5b761c 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -652,8 +652,10 @@ class QuantityMean:
             key = slice(start, start + new_qtype.size())
 
         # Getting items, it performs reshape inside
-        l_means = self.l_means[:, key]
-        l_vars = self.l_vars[:, key]
+        if not isinstance(key, tuple):
+            key = (key,)
+        l_means = self.l_means[(slice(None), *key)]
+        l_vars = self.l_vars[(slice(None), *key)]
 
         return QuantityMean(quantity_type=new_qtype, l_means=l_means.reshape((l_means.shape[0], -1)),
                             l_vars=l_vars.reshape((l_vars.shape[0], -1)), n_samples=self._n_samples,
-- 
2.43.0


From fac33874e7b64227e779efc5a411670122e92990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:59 +0000
Subject: [PATCH 23/59] fix: Fourier moments of multidimensional arrays of
 values

---
 mlmc/moments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2329566..5e368dc 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -150,15 +150,15 @@ class Fourier(Moments):
         R = int(size / 2)
         shorter_sin = 1 - int(size % 2)
         k = np.arange(1, R + 1)
-        kx = np.outer(t, k)
+        kx = t[..., np.newaxis] * k
 
-        res = np.empty((len(t), size))
-        res[:, 0] = 1
+        res = np.empty((*t.shape, size))
+        res[..., 0] = 1
 
         # Odd column index
-        res[:, 1::2] = np.cos(kx[:, :])
+        res[..., 1::2] = np.cos(kx)
         # Even column index
-        res[:, 2::2] = np.sin(kx[:, : R - shorter_sin])
+        res[..., 2::2] = np.sin(kx[..., : R - shorter_sin])
         return res
 
     def eval(self, i, value):
-- 
2.43.0


From a026e6884726ce884654c7ec7667da88f922e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:59 +0000
Subject: [PATCH 24/59] fix: single Fourier moment agrees with all Fourier
 moments

---
 mlmc/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 5e368dc..9c84bae 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -164,11 +164,11 @@ class Fourier(Moments):
     def eval(self, i, value):
         t = self.transform(np.atleast_1d(value))
         if i == 0:
-            return 1
+            return np.ones_like(t)
         elif i % 2 == 1:
-            return np.sin( (i - 1) / 2 * t)
+            return np.cos((i + 1) / 2 * t)
         else:
-            return np.cos(i / 2 * t)
+            return np.sin(i / 2 * t)
 
 
 class Legendre(Moments):
-- 
2.43.0


From 9024398b2da581e905d76df199ae4ef94bbb7472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:59 +0000
Subject: [PATCH 25/59] fix: changing size of moments keeps reference domain
 and options

---
 mlmc/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 9c84bae..bcca341 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -53,7 +53,7 @@ class Moments:
         Return moment object with different size.
         :param size: int, new number of _moments_fn
         """
-        return self.__class__(size, self.domain, self._is_log, self._is_clip)
+        return self.__class__(size, self.domain, ref_domain=self.ref_domain, log=self._is_log, safe_eval=self._is_clip)
 
     def clip(self, value):
         """
-- 
2.43.0


From 86f9e161034a1e0e8d4280904ae27557798723fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:12 +0000
Subject: [PATCH 26/59] fix: derivatives of a part of Legendre moments and of
 multidimensional arrays of values

---
 mlmc/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index bcca341..1e0c3c3 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -215,18 +215,18 @@ class Legendre(Moments):
                 coef[-1] = 1
 
             coef = np.polynomial.legendre.legder(coef, degree)
-            eval_values[:, s] = np.polynomial.legendre.legval(value, coef)
+            eval_values[..., s] = np.polynomial.legendre.legval(value, coef)
         return eval_values
 
     def _eval_diff(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff_mat
+        return P_n @ self.diff_mat[:size, :size]
 
     def _eval_diff2(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff2_mat
+        return P_n @ self.diff2_mat[:size, :size]
 
 
 class TransformedMoments(Moments):
-- 
2.43.0


From 0013db93f6ddb3282fe116d48b9468116a41e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:48 +0000
Subject: [PATCH 27/59] fix: single moment of multidimensional array of values

---
 mlmc/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 1e0c3c3..279c8e2 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -76,7 +76,7 @@ class Moments:
         return self._eval_all(value, self.size)
 
     def eval(self, i, value):
-        return self._eval_all(value, i+1)[:, -1]
+        return self._eval_all(value, i+1)[..., -1]
 
     def eval_single_moment(self, i, value):
         """
-- 
2.43.0


From 689a23b94c18f8f67eade2dee69ed9c4ae8fe960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:20 +0000
Subject: [PATCH 28/59] fix: estimated numbers of samples satisfy target
 variance

---
 mlmc/estimator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index af4f6e0..4496f2a 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -377,10 +377,9 @@ def estimate_n_samples_for_target_variance(target_variance, prescribe_vars, n_op
     vars = prescribe_vars
     sqrt_var_n = np.sqrt(vars.T * n_ops)  # moments_fn in rows, levels in cols
     total = np.sum(sqrt_var_n, axis=1)  # sum over levels
-    n_samples_estimate = np.round((sqrt_var_n / n_ops).T * total / target_variance).astype(int)  # moments_fn in cols
-    # Limit maximal number of samples per level
-    n_samples_estimate_safe = np.maximum(
-        np.minimum(n_samples_estimate, vars * n_levels / target_variance), 2)
+    n_samples_estimate = np.ceil((sqrt_var_n / n_ops).T * total / target_variance).astype(int)  # moments_fn in cols
+    # Limit minimal number of samples per level
+    n_samples_estimate_safe = np.maximum(n_samples_estimate, 2)
 
     return np.max(n_samples_estimate_safe, axis=1).astype(int)
 
-- 
2.43.0


From 36162becfe43f990a1fff817cc0fbe7f59e47d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 29/59] fix: costs are averaged over successful samples, not
 over samples with wrong results

---
 mlmc/sampling_pool.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index ed37c60..930d1c5 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -238,10 +238,9 @@ class OneProcessPool(SamplingPool):
         :param level_sim: level_simulation instance
         :return: None
         """
-        # Save running time for n_ops
-        self._save_running_time(level_sim._level_id, running_time)
-
         if not err_msg:
+            # Save running time for n_ops
+            self._save_running_time(level_sim._level_id, running_time)
             self._queues.setdefault(level_sim._level_id, queue.Queue()).put((sample_id, (result[0], result[1])))
             if not self._debug:
                 SamplingPool.move_successful_rm(sample_id, level_sim, output_dir=self._output_dir, dest_dir=self._successful_dir)
@@ -262,10 +261,8 @@ class OneProcessPool(SamplingPool):
         # Save sample times [total time, number of samples]
         if level_id not in self.times:
             self.times[level_id] = [0, 0]
-        # Failed samples have running time equal 0 by default
-        if running_time != 0:
-            self.times[level_id][0] += running_time
-            self.times[level_id][1] += 1
+        self.times[level_id][0] += running_time
+        self.times[level_id][1] += 1
 
     def have_permanent_samples(self, sample_ids):
         return False
-- 
2.43.0


From 4b1f2fdb3be55c0954187a5f77c0264f4c8496de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 30/59] fix: subsample of several chunks has the requested
 number of samples

---
 mlmc/quantity/quantity.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index d5b761c..1f5183e 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -357,15 +357,17 @@ class Quantity:
         # Create a QuantityConst of dictionary in the sense of hashing dictionary items
         quantity_subsample_params = Quantity.wrap(hash(frozenset(subsample_level_params.items())))
 
-        def adjust_value(values, level_id):
+        def adjust_value(values, chunk_spec):
             """
             Custom implementation of QuantityConst.adjust_value()
             It allows us to get different parameters for different levels
             """
-            subsample_l_params_obj = subsample_level_params[level_id]
-            subsample_l_params_obj.k = subsample_l_params_obj._orig_k
-            subsample_l_params_obj.n = subsample_l_params_obj._orig_n
-            subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
+            subsample_l_params_obj = subsample_level_params[chunk_spec.level_id]
+            # Start again with the first chunk, the other chunks supplement samples picked from the previous ones
+            if not chunk_spec.chunk_id:
+                subsample_l_params_obj.k = subsample_l_params_obj._orig_k
+                subsample_l_params_obj.n = subsample_l_params_obj._orig_n
+                subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
             return subsample_l_params_obj
         quantity_subsample_params._adjust_value = adjust_value
 
@@ -554,12 +556,12 @@ class QuantityConst(Quantity):
         """
         return self._selection_id
 
-    def _adjust_value(self, value, level_id=None):
+    def _adjust_value(self, value, chunk_spec=None):
         """
         Allows process value based on chunk_epc params (such as level_id, ...).
         The custom implementation is used in Qunatity.subsample method
         :param value: np.ndarray
-        :param level_id: int
+        :param chunk_spec: ChunkSpec
         :return: np.ndarray, particular type depends on implementation
         """
         return value
@@ -571,7 +573,7 @@ class QuantityConst(Quantity):
         :param chunk_spec: object containing chunk identifier level identifier and chunk_slice - slice() object
         :return: np.ndarray
         """
-        return self._adjust_value(self._value, chunk_spec.level_id)
+        return self._adjust_value(self._value, chunk_spec)
 
 
 class QuantityMean:
-- 
2.43.0


From 7735235acd2afe064332d78571201c2336da42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 31/59] fix: bootstrap estimates use the subsample instead of
 selecting by it

---
 mlmc/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 4496f2a..27dfa06 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -183,7 +183,7 @@ class Estimate:
         bs_l_means = []
         bs_l_vars = []
         for i in range(n_subsamples):
-            quantity_subsample = self.quantity.select(self.quantity.subsample(sample_vec=sample_vector))
+            quantity_subsample = self.quantity.subsample(sample_vec=sample_vector)
             moments_quantity = qe.moments(quantity_subsample, moments_fn=moments_fn, mom_at_bottom=False)
             q_mean = qe.estimate_mean(moments_quantity)
 
-- 
2.43.0


From a23912862b346411e856dd5e10d897062230b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:31 +0000
Subject: [PATCH 32/59] fix: points of a random field with heterogeneous sigma
 can be changed

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ba83e15..e98f509 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -339,7 +339,7 @@ class RandomFieldBase:
         if sigma is not None:
             self.sigma = sigma
         self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or sigma.shape == (len(points),)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
 
     def _set_points(self):
         pass
-- 
2.43.0


From 6101ebb8fbee174c7e9f6dae79f3bf1469f32553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:31 +0000
Subject: [PATCH 33/59] fix: random field is sampled in the current points, not
 in the previous ones

---
 mlmc/random/correlated_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index e98f509..f3f53df 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -340,6 +340,7 @@ class RandomFieldBase:
             self.sigma = sigma
         self.sigma = np.array(self.sigma, dtype=float)
         assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+        self._set_points()
 
     def _set_points(self):
         pass
-- 
2.43.0


From ea6c89dbfabbdbde4c3a28e814149b130cdba3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:31 +0000
Subject: [PATCH 34/59] fix: estimate of the number of terms of a correlated
 field

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index f3f53df..70280e4 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -467,7 +467,7 @@ class SpatialCorrelatedField(RandomFieldBase):
                 m = range[1]
             else:
                 f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+                m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5, )))
 
             m = max(m, range[0])
             threshold = 2 * precision
-- 
2.43.0


From 94aa536899b6b4f879af49b0d6ec3e25616522a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:31 +0000
Subject: [PATCH 35/59] fix: correlated field uses all allowed terms if the
 precision needs them

---
 mlmc/random/correlated_field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 70280e4..45db889 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -470,13 +470,13 @@ class SpatialCorrelatedField(RandomFieldBase):
                 m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5, )))
 
             m = max(m, range[0])
-            threshold = 2 * precision
             # TODO: Test if we should cut eigen values by relative (like now) or absolute value
-            while threshold >= precision and m <= range[1]:
+            while True:
                 #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
                 U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
-                threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
+                if ev[-1] / ev[0] < precision or m >= range[1]:
+                    break
+                m = min(int(np.ceil(1.5 * m)), range[1])
 
             m = len(ev)
             m = min(m, range[1])
-- 
2.43.0


From d8d13141bbc190822ea2bab8a4e7f0237d1d8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:31 +0000
Subject: [PATCH 36/59] fix: a random field can be used by more fields on
 different regions

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 45db889..3b2b183 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -141,6 +141,8 @@ class Fields:
         # and the given instances of Field can be used by an independent FieldSet instance.
         for field in self.fields_orig:
             new_field = copy.copy(field)
+            # Random field keeps its points, the same instance can be used by more fields on different regions
+            new_field.correlated_field = copy.copy(field.correlated_field)
             if new_field.param_fields:
                 new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
             self.fields_dict[new_field.name] = new_field
-- 
2.43.0


From 4074ab04a7abfa13d76b671d454fdc3b4d55ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:31 +0000
Subject: [PATCH 37/59] fix: dependent fields do not depend on the order of
 regions

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 3b2b183..8ecb422 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -213,6 +213,8 @@ class Fields:
                 for reg in field.regions:
                     reg_id = region_map[reg]
                     point_ids.extend(reg_points.get(reg_id, []))
+                # Common order of points for dependent fields
+                point_ids.sort()
                 field.set_points(points[point_ids])
                 field.full_sample_ids = point_ids
             else:
-- 
2.43.0


From 14b63af84e34350d8b82557aec048f1bd176d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:31 +0000
Subject: [PATCH 38/59] fix: points of fields without regions can be set

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 8ecb422..caec813 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -200,7 +200,7 @@ class Fields:
         :return:
         """
         self.n_elements = len(points)
-        assert len(points) == len(region_ids)
+        assert len(region_ids) == 0 or len(points) == len(region_ids)
         reg_points = {}
         for i, reg_id in enumerate(region_ids):
             reg_list = reg_points.get(reg_id, [])
-- 
2.43.0


From 6fc08536a57c7bfee2ba9a2062c846f6e2d8e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:50 +0000
Subject: [PATCH 39/59] fix: physical names of a mesh are read as they were
 written

---
 mlmc/tool/gmsh_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index c5a3ad3..1982a06 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -117,8 +117,10 @@ class GmshIO:
                     self.current_elem_data[ele_idx] = comp_values
 
                 if readmode == 5:
+                    # Name is in quotes and can contain spaces
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
-                        self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
+                        self.physical[columns[2].strip('"')] = (int(columns[1]), int(columns[0]))
 
                 if readmode == 4:
                     if len(columns) == 3:
-- 
2.43.0


From aa0f26923f1eff001d16b0af6c544ea5e6f1cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:50 +0000
Subject: [PATCH 40/59] fix: elements with few tags and element data with many
 components are read

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 1982a06..24404f9 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -145,7 +145,7 @@ class GmshIO:
                     except ValueError:
                         print('Node format error: ' + line, ERROR)
                         readmode = 0
-                elif ftype == 0 and readmode > 1 and len(columns) > 5:
+                elif ftype == 0 and readmode in (2, 3) and len(columns) > 3:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From 9b08d568c0a37a15eaccbdaa627c6bb99b155eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:50 +0000
Subject: [PATCH 41/59] fix: write fields to the current mesh file

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 24404f9..342eaef 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -297,7 +297,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From e280911b3228793a3d655ca441b008015aeebe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:47 +0000
Subject: [PATCH 42/59] fix: locations of the result format are compared by the
 HDF storage

---
 mlmc/quantity/quantity_spec.py | 2 +-
 mlmc/sample_storage_hdf.py     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index e174137..ea25dc6 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and np.array_equal(self.locations, other.locations):
+                and not (set(self.locations) - set(other.locations)):
             return True
         return False
 
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 279379a..776e72c 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -97,7 +97,10 @@ class SampleStorageHDF(SampleStorage):
         :return: None
         """
         try:
-            if self.load_result_format() != result_format:
+            stored_format = self.load_result_format()
+            # Comparison of QuantitySpec does not take order of locations and locations of only one of specs into account
+            if stored_format != result_format or any(not np.array_equal(stored.locations, new.locations)
+                                                     for stored, new in zip(stored_format, result_format)):
                 raise ValueError('You are setting a new different result format for an existing sample storage')
         except AttributeError:
             pass
-- 
2.43.0


From b5582f59321becb38b8fe6e82d7d137f9d1150eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:34 +0000
Subject: [PATCH 43/59] fix: the reconstructed density integrates to one

---
 mlmc/tool/simple_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 77513f6..f684ce0 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -83,7 +83,8 @@ class SimpleDistribution:
         m0 = sc.integrate.quad(self.density, self.domain[0], self.domain[1])[0]
         if self._verbose:
             print("moment[0]: {} m0: {}".format(moment_0, m0))
-        self.multipliers[0] -= np.log(moment_0)
+        # the first moment function is constant, density is exp(-multipliers / errs . moments)
+        self.multipliers[0] += np.log(moment_0) * self._moment_errs[0]
 
         if result.success or jac_norm < tol:
             result.success = True
-- 
2.43.0


From a653148bb490c2a6d53ee2957d4e005c25439ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 44/59] fix: distribution function is right for any order of
 queries and outside the domain

---
 mlmc/tool/simple_distribution.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index f684ce0..e9a8559 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -108,21 +108,20 @@ class SimpleDistribution:
 
     def cdf(self, values):
         values = np.atleast_1d(values)
-        np.sort(values)
         last_x = self.domain[0]
         last_y = 0
         cdf_y = np.empty(len(values))
 
-        for i, val in enumerate(values):
+        for i in np.argsort(values):
+            val = values[i]
             if val <= self.domain[0]:
-                last_y = 0
+                cdf_y[i] = 0
             elif val >= self.domain[1]:
-                last_y = 1
+                cdf_y[i] = 1
             else:
-                dy = integrate.fixed_quad(self.density, last_x, val, n=10)[0]
+                last_y = last_y + integrate.quad(self.density, last_x, val)[0]
                 last_x = val
-                last_y = last_y + dy
-            cdf_y[i] = last_y
+                cdf_y[i] = last_y
         return cdf_y
 
     def _initialize_params(self, size, tol=None):
-- 
2.43.0


From 4aa39748dc06552911d408ac05959780f63ce2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 45/59] fix: adaptive quadrature is not fooled by odd moments
 of a symmetric density

---
 mlmc/tool/simple_distribution.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index e9a8559..aa78c2e 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -154,7 +154,7 @@ class SimpleDistribution:
     def eval_moments(self, x):
         return self.moments_fn.eval_all(x, self.approx_size)
 
-    def _calculate_exact_moment(self, multipliers, m=0, full_output=0):
+    def _calculate_exact_moment(self, multipliers, m=0, full_output=0, power=1):
         """
         Compute moment 'm' using adaptive quadrature to machine precision.
         :param multipliers:
@@ -164,9 +164,9 @@ class SimpleDistribution:
         """
         def integrand(x):
             moms = self.eval_moments(x)
-            power = -np.sum(moms * multipliers / self._moment_errs, axis=1)
-            power = np.minimum(np.maximum(power, -200), 200)
-            return np.exp(power) * moms[:, m]
+            exponent = -np.sum(moms * multipliers / self._moment_errs, axis=1)
+            exponent = np.minimum(np.maximum(exponent, -200), 200)
+            return np.exp(exponent) * moms[:, m] ** power
 
         result = sc.integrate.quad(integrand, self.domain[0], self.domain[1],
                                    epsabs=self._quad_tolerance, full_output=full_output)
@@ -211,7 +211,8 @@ class SimpleDistribution:
             if quad_err_estimate < self._quad_tolerance:
                 return
 
-        val, result = self._calculate_exact_moment(multipliers, m=self.approx_size-1, full_output=1)
+        # square, since an odd moment of a symmetric density vanishes on any subinterval symmetric to the center
+        val, result = self._calculate_exact_moment(multipliers, m=self.approx_size-1, full_output=1, power=2)
 
         if len(result) > 3:
             y, abserr, info, message = result
-- 
2.43.0


From 1331b93d8bb42461e3cf5be47793c60499500c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 46/59] fix: ends of the domain of moments are in the domain
 despite rounding

---
 mlmc/moments.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 279c8e2..d838a84 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -26,10 +26,10 @@ class Moments:
         self._linear_shift = lin_domain[0]
 
         if safe_eval and log:
-            self.transform = lambda val: self.clip(self.linear(np.log(val)))
+            self.transform = lambda val: self.clip(self._fit_ends(val, self.linear(np.log(val))))
             self.inv_transform = lambda ref: np.exp(self.inv_linear(ref))
         elif safe_eval and not log:
-            self.transform = lambda val: self.clip(self.linear(val))
+            self.transform = lambda val: self.clip(self._fit_ends(val, self.linear(val)))
             self.inv_transform = lambda ref: self.inv_linear(ref)
         elif not safe_eval and log:
             self.transform = lambda val: self.linear(np.log(val))
@@ -66,6 +66,13 @@ class Moments:
         # Replace outliers with NaN
         return ma.filled(out, np.nan)
 
+    def _fit_ends(self, value, ref_value):
+        """
+        Rounding must not move values of the domain (its ends in particular) out of the reference domain
+        """
+        inside = np.logical_and(value >= self.domain[0], value <= self.domain[1])
+        return np.where(inside, np.clip(ref_value, self.ref_domain[0], self.ref_domain[1]), ref_value)
+
     def linear(self, value):
         return (value - self._linear_shift) * self._linear_scale + self.ref_domain[0]
 
-- 
2.43.0


From 644bd772981dbbe9b4253af45e7eaae38c433699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 47/59] fix: sample of the flow simulation is determined by its
 seed

---
 mlmc/tool/flow_mc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 09fc12d..f594cc0 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -248,11 +248,16 @@ class FlowSim(Simulation):
                 "common_files_dir"]  # Directory with coarse simulation common files
             coarse_mesh_data = FlowSim.extract_mesh(os.path.join(coarse_common_files_dir, FlowSim.MESH_FILE))
 
+        # Set random seed, seed is calculated from sample id, so it is not user defined
+        np.random.seed(seed)
+        # GSTools fields have their own generator
+        for field in fields.fields:
+            if isinstance(field.correlated_field, cf.GSToolsSpatialCorrelatedField):
+                field.correlated_field.change_srf(seed=np.random.randint(0, 2 ** 31 - 1))
+
         # Create fields both fine and coarse
         fields = FlowSim.make_fields(fields, fine_mesh_data, coarse_mesh_data)
 
-        # Set random seed, seed is calculated from sample id, so it is not user defined
-        np.random.seed(seed)
         # Generate random samples
         fine_input_sample, coarse_input_sample = FlowSim.generate_random_sample(fields, coarse_step=coarse_step,
                                                                                 n_fine_elements=len(
-- 
2.43.0


From c2aa2c5fd1172d098a432e5f4cc9cf95406b3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 48/59] fix: flow simulation continues with prepared input
 files (clean=False)

---
 mlmc/tool/flow_mc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index f594cc0..9c69e17 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -57,7 +57,7 @@ def substitute_placeholders(file_in, file_out, params):
     """
     Substitute for placeholders of format '<name>' from the dict 'params'.
     :param file_in: Template file.
-    :param file_out: Values substituted.
+    :param file_out: Values substituted, None - just find used params.
     :param params: { 'name': value, ...}
     """
     used_params = []
@@ -69,8 +69,9 @@ def substitute_placeholders(file_in, file_out, params):
         if n_repl > 0:
             used_params.append(name)
             text = text.replace(placeholder, str(value))
-    with open(file_out, 'w') as dst:
-        dst.write(text)
+    if file_out is not None:
+        with open(file_out, 'w') as dst:
+            dst.write(text)
     return used_params
 
 
@@ -183,6 +184,9 @@ class FlowSim(Simulation):
             shutil.copyfile(self.base_yaml_file, yaml_template)
             yaml_file = os.path.join(common_files_dir, self.YAML_FILE)
             self._substitute_yaml(yaml_template, yaml_file)
+        else:
+            # Input files are already prepared, find out which fields they use
+            self._substitute_yaml(os.path.join(common_files_dir, self.YAML_TEMPLATE), None)
 
         # Mesh is extracted because we need number of mesh points to determine task_size parameter (see return value)
         fine_mesh_data = self.extract_mesh(self.mesh_file)
-- 
2.43.0


From 0265e45fc0148808135743db19a2ff17574dc7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 49/59] fix: axes of a mesh come from extents of its elements,
 not of their centers

---
 mlmc/tool/flow_mc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 9c69e17..fb7bee9 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -390,8 +390,10 @@ class FlowSim(Simulation):
             point_region_ids[i] = region_id
             ele_ids[i] = id_bulk
 
-        min_pt = np.min(centers, axis=0)
-        max_pt = np.max(centers, axis=0)
+        # Extent of the nodes, centers of a coarse mesh may coincide in any axis
+        bulk_nodes = np.array([mesh.nodes[i_node] for id_bulk in bulk_elements for i_node in mesh.elements[id_bulk][2]])
+        min_pt = np.min(bulk_nodes, axis=0)
+        max_pt = np.max(bulk_nodes, axis=0)
         diff = max_pt - min_pt
         min_axis = np.argmin(diff)
         non_zero_axes = [0, 1, 2]
-- 
2.43.0


From 88ddb76738d237a564620e826915889fd2e14371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 50/59] fix: Fourier random field draws from the numpy
 generator, 1D field can be created

---
 mlmc/random/correlated_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index caec813..381d3ce 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -643,7 +643,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k_u = rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
             k[0] = np.tan(k_u) / self.len_scale
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
@@ -676,7 +676,8 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         return k
 
     def _get_random_stream(self, seed=None):
-        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
+        random_source = np.random if seed is None else rand.RandomState(seed)
+        return rand.RandomState(random_source.randint(2 ** 16 - 1))
 
     def random_field(self):
         """
-- 
2.43.0


From 4fe180d8388cdae32b250107423385e6bd4b5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 51/59] fix: domain is estimated from samples of all levels

---
 mlmc/estimator.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 27dfa06..e68b404 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -291,8 +291,9 @@ class Estimate:
             except AttributeError:
                 print("No collected values for level {}".format(level_id))
                 break
-            chunk_spec = next(sample_storage.chunks(n_samples=sample_storage.get_n_collected()[level_id]))
-            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level 0
+            chunk_spec = next(sample_storage.chunks(level_id=level_id,
+                                                    n_samples=sample_storage.get_n_collected()[level_id]))
+            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at the level
 
             fine_samples = np.squeeze(fine_samples)
             fine_samples = fine_samples[~np.isnan(fine_samples)]  # remove NaN
@@ -349,18 +350,7 @@ def estimate_domain(quantity, sample_storage, quantile=None):
     :param quantile: float in interval (0, 1), None means whole sample range
     :return: lower_bound, upper_bound
     """
-    ranges = []
-    if quantile is None:
-        quantile = 0.01
-
-    for level_id in range(sample_storage.get_n_levels()):
-        fine_samples = quantity.samples(ChunkSpec(level_id=level_id, n_samples=sample_storage.get_n_collected()[0]))[..., 0]
-
-        fine_samples = np.squeeze(fine_samples)
-        ranges.append(np.percentile(fine_samples, [100 * quantile, 100 * (1 - quantile)]))
-
-    ranges = np.array(ranges)
-    return np.min(ranges[:, 0]), np.max(ranges[:, 1])
+    return Estimate.estimate_domain(quantity, sample_storage, quantile=quantile)
 
 
 def estimate_n_samples_for_target_variance(target_variance, prescribe_vars, n_ops, n_levels):
-- 
2.43.0


From 6e1c17d6ce502904afecc2d45f23188476f1c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 52/59] fix: estimate_diff_vars uses moments of the estimate by
 default

---
 mlmc/estimator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index e68b404..cff9d61 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -81,6 +81,8 @@ class Estimate:
             diff_variance - shape LxR, variances of diffs of moments_fn
             n_samples -  shape L, num samples for individual levels.
         """
+        if moments_fn is None:
+            moments_fn = self._moments_fn
         moments_mean = qe.estimate_mean(qe.moments(self._quantity, moments_fn))
         return moments_mean.l_vars, moments_mean.n_samples
 
-- 
2.43.0


From 91c4feda0bd4cc7fd17a413b65fd63605c1031e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 53/59] fix: variance regression copes with levels of zero
 variance

---
 mlmc/estimator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index cff9d61..35c2d7e 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -125,13 +125,18 @@ class Estimate:
         X[:, 1] = np.full(L1, log_step)
         X[:, 2] = np.full(L1, log_step ** 2)
 
+        # levels of zero variance have no logarithm, they are left out and keep their variance
+        positive = raw_vars[1:] > 0
+        X = X[positive]
+        W = W[positive]
+
         WX = X * W[:, None]    # scale
-        log_vars = np.log(raw_vars[1:])     # omit first variance
+        log_vars = np.log(raw_vars[1:][positive])     # omit first variance
         log_vars = W * log_vars       # scale RHS
         params, res, rank, sing_vals = np.linalg.lstsq(WX, log_vars)
 
         new_vars = raw_vars.copy()
-        new_vars[1:] = np.exp(np.dot(X, params))
+        new_vars[1:][positive] = np.exp(np.dot(X, params))
 
         return new_vars
 
-- 
2.43.0


From 82aafaf140dbf027f6ff09338922fba69f99f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:48 +0000
Subject: [PATCH 54/59] fix: spectral field counted modes twice when retrying
 after a memory error

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 381d3ce..b0838b1 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -717,6 +717,8 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         chunk_no_exp = 0
 
         while True:
+            # the modes summed before a failed attempt are summed again
+            summed_modes[...] = 0.0
             try:
                 chunk_len = int(np.ceil(self.mode_no / chunk_no))
 
-- 
2.43.0


From 5e17fa8db462f028060ac10c9952a54457ddf0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:04 +0000
Subject: [PATCH 55/59] fix: subset of moments to plot contained indices of
 moments that do not exist

---
 mlmc/plot/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 9a6053d..fe71e67 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -50,6 +50,8 @@ def moments_subset(n_moments, moments=None):
         subset =  np.arange(1, n_moments)
     else:
         assert type(moments) is int
+        # there are only n_moments - 1 different indices
+        moments = min(moments, n_moments - 1)
         subset =  np.round(np.geomspace(1, n_moments-1, moments)).astype(int)
         # make indices unique by increasing
         for i in range(1,len(subset)):
-- 
2.43.0


From 86949769b46c293981d4ad26e96dd9e3e56d9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:04 +0000
Subject: [PATCH 56/59] fix: plot of eigenvalues refused error arrays and
 increasing values, drew nonpositive ones in the log scale

---
 mlmc/plot/plots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index fe71e67..6cc1b37 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -318,17 +318,18 @@ class Eigenvalues:
         :param threshold: horizontal line marking noise level or cut-off eigen value
         :return:
         """
-        assert not errors or len(values) == len(errors)
+        assert errors is None or len(values) == len(errors)
         if values[0] < values[-1]:
             values = np.flip(values)
             if errors is not None:
                 errors = np.flip(errors)
-            threshold = len(values) - 1 - threshold
 
         if self.log_y:
             # plot only positive values
             i_last_positive = len(values) - np.argmax(np.flip(values) > 0)
-            values = values[:i_last_positive + 1]
+            values = values[:i_last_positive]
+            if errors is not None:
+                errors = errors[:i_last_positive]
             a, b = np.min(values), np.max(values)
             self.adjust_ylim( (a / ((b/a)**0.05), b * (b/a)**0.05) )
         else:
-- 
2.43.0


From de1c58ff107c71b558979efe7575351e7b0a2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:04 +0000
Subject: [PATCH 57/59] fix: t_test failed for samples with the given mean and
 passed for other ones

---
 mlmc/tool/stats_tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/stats_tests.py b/mlmc/tool/stats_tests.py
index 8fe5625..8b2c1e3 100644
--- a/mlmc/tool/stats_tests.py
+++ b/mlmc/tool/stats_tests.py
@@ -8,13 +8,13 @@ def t_test(mu_0, samples, max_p_val=0.01):
     failures with probability max_p_val.
 
     Perform the two-tailed t-test and
-    Assert that p-val is smaller then given value.
+    Assert that p-val is greater then given value.
     :param mu_0: Exact mean.
     :param samples: Samples to test.
     :param max_p_val: Probability of failed t-test for correct samples.
     """
     T, p_val = st.ttest_1samp(samples, mu_0)
-    assert p_val < max_p_val
+    assert p_val > max_p_val
 
 
 def chi2_test(var_0, samples, max_p_val=0.01, tag=""):
-- 
2.43.0


From 026e334b70de32e2aef9f334c82059419b7406e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 58/59] fix: fine_coarse_violinplot passed the axis of squeeze
 to the quantity

---
 mlmc/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 35c2d7e..ef02868 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -263,7 +263,7 @@ class Estimate:
         if n_levels > 1:
             for level_id in range(n_levels):
                 chunk_spec = next(self._sample_storage.chunks(level_id=level_id, n_samples=self._sample_storage.get_n_collected()[level_id]))
-                samples = np.squeeze(self._quantity.samples(chunk_spec, axis=0))
+                samples = np.squeeze(self._quantity.samples(chunk_spec), axis=0)
                 if level_id == 0:
                     label = "{} F{} {} C".format(level_id, ' ' * label_n_spaces, level_id + 1)
                     data = {'samples': samples[:, 0], 'type': 'fine', 'level': label}
-- 
2.43.0


From 90d096263b25e0f42c11fca89381fd93367fa41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:19 +0000
Subject: [PATCH 59/59] fix: anova rejected equal means if rounding made the
 variance between levels negative

---
 mlmc/tool/stats_tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/stats_tests.py b/mlmc/tool/stats_tests.py
index 8b2c1e3..645ee93 100644
--- a/mlmc/tool/stats_tests.py
+++ b/mlmc/tool/stats_tests.py
@@ -46,7 +46,8 @@ def anova(level_moments):
     # Significance level
     alpha = 0.05
     # Same means, can not be rejected H0
-    if p_value > alpha:
+    # p_value is NaN if there is no variance between levels, up to rounding
+    if np.isnan(p_value) or p_value > alpha:
         print("Same means, cannot be rejected H0")
         return True
     # Different means (reject H0)
-- 
2.43.0

