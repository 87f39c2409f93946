"""mkseed.py ID SPEC.py: SPEC defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)"""
import sys, os, json, subprocess, tempfile, shutil
ID, spec = sys.argv[1:3]
ns = {}
exec(open(spec).read(), ns)
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
for f, old, new in ns["EDITS"]:
    p = os.path.join(tmp, "r", f)
    s = open(p, newline="").read()
    if "\r\n" in s:
        old, new = (x.replace("\n", "\r\n") for x in (old, new))
    assert s.count(old) == 1 or ns.get("FIRST"), (f, s.count(old), old)
    open(p, "w", newline="").write(s.replace(old, new, 1))
out = subprocess.check_output(["git", "-C", tmp + "/r", "diff"])
open(d + "/patch.diff", "wb").write(out)
shutil.rmtree(tmp)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.py", "w").write(ns["DEMO"])
open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=agg OMP_NUM_THREADS=1
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
cd "$W" && timeout 120 $PY "$D/demo.py"
""")
print("written", d)
