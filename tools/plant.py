#!/usr/bin/env python3
"""Plants bugs: plant.py SEEDS.py makes /verif/seeded/<id>/ for every confirmed entry of SEEDS
(list of dict id, property, edits=[(file, old, new)], needs, breaks, demo).  --catch runs the check of the
property against the patch applied to /repo (undone straight afterwards)."""
import sys, os, subprocess, json, shutil
V = "/verif"; SR = "/tmp/sr"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def suite(d):
    R = "/tmp/p/junit"; shutil.rmtree(R, ignore_errors=True); os.makedirs(R)
    e = f"cd {d} && export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 IPYTHONDIR=/tmp/p/ipy JUPYTER_RUNTIME_DIR=/tmp/p/rt PYTHONPATH={d};"
    sh(e + f" MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 -o junit_family=xunit2 --junitxml={R}/unit.xml rdtools")
    sh(e + f" /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 --nbval-cell-timeout=200 --nbval docs/system_availability_example.ipynb --sanitize-with docs/nbval_sanitization_rules.cfg -o junit_family=xunit2 --junitxml={R}/notebook.xml")
    r = sh(f"cd {d} && python3 /opt/vp/results.py /tmp/p/seedout.json 'junit:{R}/*.xml'")
    o = json.load(open("/tmp/p/seedout.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        d = f"{V}/seeded/{s['id']}"
        if "--catch" not in sys.argv:
            shutil.rmtree(SR, ignore_errors=True)
            sh(f"git -C /repo worktree prune; cp -a /repo {SR}")
            bad = False
            for f, o, n in s["edits"]:
                p = os.path.join(SR, f); t = open(p).read()
                if t.count(o) != 1:
                    print(s["id"], "edit does not apply uniquely:", t.count(o), o[:60]); bad = True; break
                open(p, "w").write(t.replace(o, n))
            if bad: continue
            diff = sh(f"git -C {SR} diff").stdout
            tmp = f"/tmp/p/seed_{s['id']}"; os.makedirs(tmp, exist_ok=True)
            open(tmp + "/patch.diff", "w").write(diff)
            open(tmp + "/demo.py", "w").write(s["demo"])
            open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
            a = sh(f"cd /repo && bash {tmp}/demo.sh"); b = sh(f"cd {SR} && bash {tmp}/demo.sh")
            if a.returncode != 0 or b.returncode == 0:
                print(s["id"], "DEMO BAD clean rc", a.returncode, a.stderr[-600:], "patched rc", b.returncode, b.stdout[-300:]); continue
            miss = suite(SR)
            if miss:
                print(s["id"], "SUITE BREAKS", len(miss), miss[:4]); continue
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); shutil.rmtree(tmp)
            print(s["id"], "planted; demo:", b.stderr.strip().splitlines()[-1:] )
            shutil.rmtree(SR, ignore_errors=True)
        if "--no" not in sys.argv and os.path.exists(d + "/patch.diff"):
            r = sh(f"git -C /repo apply {d}/patch.diff")
            if r.returncode: print(s["id"], "apply failed", r.stderr); continue
            try:
                c = sh(f"cd {V} && VERIF_SEED=1 bash run.sh {s['property']}")
            finally:
                sh("git -C /repo checkout -- .")
            print(s["id"], "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout else f"MISSED rc={c.returncode}", "|", c.stdout.strip()[-300:].replace("\n", " / "))
main()
