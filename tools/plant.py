"""
Plant a bug: python3 tools/plant.py SPEC.py [--fast]

SPEC.py defines id, prop, edits = [(file, old, new), ...], demo (source of demo.py), needs, breaks.
Works in a scratch copy under /tmp, writes seeded/<id>/ when the demonstration separates the two trees and the
repository's stable tests pass with the change; then runs the property's quick check against the copy.
"""
import json, os, runpy, shutil, subprocess, sys

spec = runpy.run_path(sys.argv[1])
bid = spec["id"]
W = f"/tmp/plant/{bid}"
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root", "PYTHONDONTWRITEBYTECODE": "1",
       "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "CUDA_VISIBLE_DEVICES": ""}
shutil.rmtree(W, ignore_errors=True)
os.makedirs("/tmp/plant", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)
for f, old, new in spec["edits"]:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True, check=True).stdout
D = f"/verif/seeded/{bid}"
T = f"/tmp/plant/{bid}.demo"
shutil.rmtree(T, ignore_errors=True)
os.makedirs(T)
open(T + "/demo.py", "w").write("import os, sys\n\nsys.path.insert(0, os.getcwd())\n" + spec["demo"].lstrip("\n"))
open(T + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
open(T + "/patch.diff", "w").write(diff)
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(T + "/meta.json", "w"), indent=1)
ok = True
for where, want in (("/repo", 0), (W, 1)):
    r = subprocess.run(["bash", T + "/demo.sh"], cwd=where, env=ENV, capture_output=True, text=True, timeout=280)
    good = (r.returncode == 0) == (want == 0)
    ok &= good
    print(f"[{bid}] demo in {where}: {r.returncode} {'ok' if good else 'WRONG'}", (r.stdout + r.stderr)[-400:] if not good else "")
if ok and "--fast" not in sys.argv:
    x = f"/tmp/plant/{bid}.xml"
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=300", "--disable-warnings",
                        "-o", "junit_family=xunit2", "--junitxml=" + x, "test"], cwd=W, env=ENV, capture_output=True, text=True)
    import xml.etree.ElementTree as ET
    bad = [f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(x).getroot().iter("testcase") if c.find("failure") is not None or c.find("error") is not None]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    print(f"[{bid}] failing tests: {len(bad)}", bad[:5], r.stdout.strip().splitlines()[-1])
    ok = not bad
if ok and "--fast" not in sys.argv:
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs("/verif/seeded", exist_ok=True)
    shutil.copytree(T, D)
    print(f"[{bid}] kept")
for p in [spec["prop"]] + list(spec.get("also", [])):
    r = subprocess.run(["/verif/check", p, "quick"], cwd="/verif", env={**ENV, "PYOPTMAT_REPO": W, "VERIF_SEED": "1"}, capture_output=True, text=True)
    print(f"[{bid}] {p}: rc {r.returncode}", "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "ERROR", [l[:160] for l in r.stdout.splitlines() if l.startswith("---")][:2])
shutil.rmtree(W, ignore_errors=True)
shutil.rmtree(T, ignore_errors=True)
