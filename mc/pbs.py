"""
Fake PBS: `qsub` and `qstat` are answered in process (every subprocess created by the code under test goes through
FakePopen), jobs are executed by the real mlmc.tool.pbs_job code with the arguments found in the submitted script.
"""
import os
import pickle
import re
import shlex
import subprocess
import sys

from mc.engine import Violation
from mlmc.sampling_pool_pbs import SamplingPoolPBS
from mlmc.tool.pbs_job import PbsJob

REAL_POPEN = subprocess.Popen
ACTIVE = None
# job numbers given by the server: they grow, and some begin or end with others
IDS = [9, 99, 199, 991, 1991, 9919, 19919, 99199]
# what qstat shows for jobs that have not ended (queued, held, waiting; running, suspended), in turns
SHOWN = {"Q": "QHW", "R": "RSR"}


class FakePopen:
    def __init__(self, args, *a, **kw):
        if isinstance(args, str):
            args = shlex.split(args)
        self.args = [str(x) for x in args]
        self.pid = 0
        text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
        rc, out, err = ACTIVE.command(self.args)
        self.returncode = rc
        self._out, self._err = (out, err) if text else (out.encode(), err.encode())
        self.stdout = self.stderr = self.stdin = None

    def communicate(self, input=None, timeout=None):
        return self._out, self._err

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        return self.returncode

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Job:
    def __init__(self, pbs_id, output_dir, job_name, script):
        self.pbs_id, self.output_dir, self.job_name, self.script = pbs_id, output_dir, job_name, script
        self.state = "Q"
        self.computed = False
        self.forgotten = False


class FakePbs:
    """
    fault(kind) -> bool decides whether the next qsub / qstat command fails.
    """
    def __init__(self, fault=lambda kind: False, path=None):
        self.path = path        # disk copy of the queue, shared with forked masters
        self.jobs = {}
        self.next = IDS[0]
        self.fault = fault
        self.log = []

    def __enter__(self):
        global ACTIVE
        self.prev = ACTIVE
        ACTIVE = self
        subprocess.Popen = FakePopen
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self.prev
        if ACTIVE is None:
            subprocess.Popen = REAL_POPEN

    def save(self):
        if self.path:
            with open(self.path + ".tmp", "wb") as f:
                pickle.dump((self.jobs, self.next, self.log), f)
            os.replace(self.path + ".tmp", self.path)

    def snapshot(self):
        return [sorted(vars(j).items()) for j in self.jobs.values()] + [self.next]

    def reload(self):
        if os.path.exists(self.path):
            with open(self.path, "rb") as f:
                self.jobs, self.next, self.log = pickle.load(f)

    def command(self, args):
        name = os.path.basename(args[0])
        if name == "qsub":
            script = args[-1]
            if self.fault("qsub"):
                self.log.append(("qsub", "failed"))
                return 1, "", "qsub: cannot connect to server\n"
            with open(script) as f:
                text = f.read()
            m = re.search(r"-m\s+mlmc\.tool\.pbs_job\s+(\S+)\s+(\S+)", text)
            if not m:
                raise Violation("the submitted script does not run the job: %r" % text, "bad script")
            pbs_id = str(self.next)
            self.next = next((i for i in IDS if i > self.next), self.next + 1)
            self.jobs[pbs_id] = Job(pbs_id, m.group(1), m.group(2), script)
            self.log.append(("qsub", pbs_id))
            self.save()
            return 0, pbs_id + ".pbs-server.cz\n", ""
        if name == "qstat":
            ids = [a.split(".")[0] for a in args[1:] if not a.startswith("-")]
            if self.fault("qstat"):
                self.log.append(("qstat", "failed"))
                return 1, "", "qstat: cannot connect to server\n"
            self.log.append(("qstat", tuple(ids)))
            rc, err = 0, ""
            out = ["Job id                 Name             User              Time Use S Queue",
                   "---------------------  ---------------- ----------------  -------- - -----"]
            for i in ids:
                j = self.jobs.get(i)
                if j is None or j.forgotten:
                    rc = 153
                    err += "qstat: Unknown Job Id %s.pbs-server.cz\n" % i
                    continue
                t = "0" if j.state == "Q" else "00:12:3%d" % (int(i) % 10)
                out.append("%-22s %-16s %-17s %8s %s q_2h" % (i + ".pbs-server", "MLMC_job", "martin", t, SHOWN[j.state][len(i) % 3] if j.state in SHOWN else j.state))
            return rc, "\n".join(out) + "\n", err
        raise Violation("unexpected command %r" % (args,), "unexpected command")

    def compute(self, job):
        """Run the job's samples with the real job code (state R: results exist, the job has not ended yet)."""
        job.state = "R"
        if job.computed:
            return
        job.computed = True
        run_job(job.output_dir, job.job_name)

    def finish(self, job, killed=False):
        if not killed:
            self.compute(job)
        job.state = "F"


def run_job(output_dir, job_name):
    argv, cwd = sys.argv, os.getcwd()
    try:
        sys.argv = ["pbs_job.py", output_dir, job_name]
        PbsJob.create_process().calculate_samples()
    finally:
        sys.argv = argv
        os.chdir(cwd)


def new_pool(work_dir, debug=False):
    pool = SamplingPoolPBS(work_dir, debug=debug)
    pool.pbs_common_setting(n_cores=1, n_nodes=1, mem="1gb", queue="q_2h", walltime="01:00:00", pbs_name="MLMC_job",
                            optional_pbs_requests=[], env_setting=[], select_flags=[])
    return pool


# -- deterministic clock and memoised YAML (pure functions of their input; ruamel's pure Python parser is slow) ---------
_LOAD, _DUMP = {}, {}


class Tick:
    def __init__(self):
        self.t = 1000.0

    def time(self):
        self.t += 0.125
        return self.t


def install_fast_yaml():
    import pickle
    import io
    import ruamel.yaml as yaml
    if getattr(yaml.load, "_mc", False):
        return
    real_load, real_dump = yaml.load, yaml.dump

    def load(stream, *a, **k):
        text = stream if isinstance(stream, (str, bytes)) else stream.read()
        key = (text, repr(a), repr(k))
        if key not in _LOAD:
            if len(_LOAD) > 20000:
                _LOAD.clear()
            _LOAD[key] = pickle.dumps(real_load(text, *a, **k))
        return pickle.loads(_LOAD[key])

    def dump(data, stream=None, *a, **k):
        try:
            key = (pickle.dumps(data), repr(a), repr(k))
        except Exception:
            return real_dump(data, stream, *a, **k)
        if key not in _DUMP:
            if len(_DUMP) > 20000:
                _DUMP.clear()
            b = io.StringIO()
            real_dump(data, b, *a, **k)
            _DUMP[key] = b.getvalue()
        if stream is None:
            return _DUMP[key]
        stream.write(_DUMP[key])
    load._mc = dump._mc = True
    yaml.load, yaml.dump = load, dump
