#!/usr/bin/env python3
"""Self-tests of the machinery.
1. the Java overrides of Num against its TLA+ definitions (spec/MC_Num.tla);
2. binding (selftest.sh C01 ...): for each field of the records of a check, the share of records rejected by
   the specification once one leaf of that field is corrupted.  Fields that are pure descriptions stay at 0."""
import json, os, random, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "harness"))
import rdv


def numbers():
    d = tempfile.mkdtemp(prefix="rdvself")
    try:
        for f in os.listdir(rdv.SPEC):
            shutil.copy(os.path.join(rdv.SPEC, f), d)
        t = open(os.path.join(d, "Num.tla")).read()
        open(os.path.join(d, "NumP.tla"), "w").write(t.replace(" MODULE Num ", " MODULE NumP ", 1))
        old, rdv.SPEC = rdv.SPEC, d
        try:
            r = rdv.tlc("MC_Num")
        finally:
            rdv.SPEC = old
        print("overrides agree with Num.tla on", r["distinct"], "states" if r["ok"] else "STATES: FAILED\n" + r["out"][-3000:])
        return r["ok"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(x, r):
    """A copy of x with one random leaf changed (None: nothing to change)."""
    leaves = []

    def walk(y, path):
        if isinstance(y, dict):
            for k in y:
                walk(y[k], path + [k])
        elif isinstance(y, list):
            for k in range(len(y)):
                walk(y[k], path + [k])
        else:
            leaves.append(path)
    walk(x, [])
    if not leaves:
        return None
    path = r.choice(leaves)
    x = json.loads(json.dumps(x))
    root = [x]
    o, k = root, 0
    for p in path:
        o, k = o[k], p
    y = o[k]
    if isinstance(y, bool):
        o[k] = not y
    elif isinstance(y, int):
        o[k] = y + 1
    elif isinstance(y, str):
        try:
            from fractions import Fraction
            z = Fraction(y)
            o[k] = rdv.num(float(z) * 1.01 + .013)
        except ValueError:
            if y in ("nan", "inf", "-inf"):
                o[k] = "1"
            elif y in ("T", "F", "U"):
                o[k] = "F" if y == "T" else "T"
            else:
                return None
    else:
        return None
    return root[0]


def binding(pid, per=40):
    import importlib
    r = random.Random(1)
    rows = {}

    def validate(self, module, events, cfg="TV.cfg", timeout=800, chunk=None):
        self.violations = []
        bad, tag = [], []
        fields = sorted({k for e, _ in events for k in e})
        for f in fields:
            es = [e for e, _ in events if f in e]
            n = 0
            for e in r.sample(es, len(es)):
                if n >= per:
                    break
                if len(json.dumps(e)) > 200000:
                    continue
                x = corrupt(e[f], r)
                if x is None:
                    continue
                bad.append((dict(e, **{f: x}), None))
                tag.append(f)
                n += 1
        d = tempfile.mkdtemp(prefix="rdvself")
        try:
            path = os.path.join(d, "trace.ndjson")
            with open(path, "w") as h:
                for e, _ in bad:
                    h.write(json.dumps(e) + "\n")
            t = rdv.tlc(module, cfg, {"RDV_TRACE": path}, timeout=1500, extra=("-continue",))
            import re
            hit = {int(m) - 1 for m in re.findall(r'<<"BAD", (\d+), ', t["out"])}
            for i, f in enumerate(tag):
                a = rows.setdefault((module, f), [0, 0])
                a[0] += i in hit
                a[1] += 1
            if not t["ok"]:
                print("  (TLC stopped:", [ln for ln in t["out"].splitlines() if "rror" in ln][:3], ")")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    rdv.Check.validate = validate
    if pid in ("C15", "C16", "C17"):
        import avail
        avail.go(rdv.Check(pid), dict(C15="sub", C16="out", C17="acc")[pid])
    else:
        importlib.import_module(pid.lower()).run(rdv.Check(pid))
    print(pid, {f: f"{a}/{n}" for (m, f), (a, n) in rows.items()})


if __name__ == "__main__":
    if len(sys.argv) > 1:
        binding(sys.argv[1])
        sys.exit(0)
    sys.exit(0 if numbers() else 1)
