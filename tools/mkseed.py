"""Make /verif/seeded/<id> from tools/seeds/<id>.py, and see that it counts.

mkseed.py ID...   [--no-tests] [--no-check]
A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (source of demo.py).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for sid in args:
    s = runpy.run_path(f"/verif/tools/seeds/{sid}.py")
    out = f"/verif/seeded/{sid}"
    os.makedirs(out, exist_ok=True)
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", os.environ.get("MKSEED_REPO", "/repo") + "/.", d], check=True)
        subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
        for f, old, new in s["EDITS"]:
            t = open(f"{d}/{f}").read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(f"{d}/{f}", "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True, check=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        for ln in subprocess.run(["git", "-C", d, "diff", "-U0"], capture_output=True, text=True).stdout.splitlines():
            if ln.startswith("@@"):
                a = ln.split()[1][1:].split(",")
                n = int(a[1]) if len(a) > 1 else 1
                if n == 0:
                    continue
                b = subprocess.run(["git", "-C", os.environ.get("MKSEED_REPO", "/repo"), "blame", "-s", f"-L{a[0]},+{n}", s["EDITS"][0][0]], capture_output=True, text=True).stdout
                mine = [x for x in b.splitlines() if not x.startswith("^")]
                if mine:
                    print(sid, "touches fixed lines:", mine)
        open(out + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(
            '#!/bin/bash\n# exit 0: the property holds on this input\nhere=$(cd "$(dirname "$0")" && pwd)\nwork=$(mktemp -d)\ntrap \'rm -rf "$work"\' EXIT\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TMPDIR="$work" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n'
            '/opt/venv/bin/python "$here/demo.py"\n')
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        clean = subprocess.run(["bash", out + "/demo.sh"], cwd=os.environ.get("MKSEED_REPO", "/repo"), capture_output=True, text=True, timeout=300)
        pat = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
        print(sid, s["PROPERTY"], "demo clean", clean.returncode, "patched", pat.returncode, (pat.stderr.strip().splitlines() or [""])[-1][:150],
              "" if clean.returncode == 0 else clean.stderr[-600:], flush=True)
        if "--no-check" not in sys.argv:
            r = subprocess.run(["/verif/bin/check", s["PROPERTY"]], env=dict(os.environ, PIMV_REPO=d), capture_output=True, text=True)
            print(sid, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={s['PROPERTY']}" in r.stdout else f"MISSED rc={r.returncode}",
                  " | ".join(x[:100] for x in r.stdout.strip().splitlines()[:2]), flush=True)
        if "--no-tests" not in sys.argv:
            env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=d, MPLCONFIGDIR=d + "/mpl")
            subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "8", "--dist", "loadfile", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml"],
                           cwd=d, env=env, capture_output=True)
            subprocess.run([PY, "/opt/vp/results.py", f"{d}/o.json", f"junit:{d}/j.xml"], cwd=d, capture_output=True)
            res = json.load(open(f"{d}/o.json"))
            ok = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else set()
            bad = [t for t in base if t not in ok]
            print(sid, "tests", "OK" if not bad else f"FAIL {len(bad)} {bad[:4]}", flush=True)
    finally:
        shutil.rmtree(d)
