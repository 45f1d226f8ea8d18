"""Shared machinery of the checks: running TLC, recording traces, verdicts, evidence."""
import json
import os
import re
import subprocess
import sys
import time
import tempfile
import shutil
import glob
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RDV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ Java / TLC
def classes():
    """Directory of the compiled operator overrides (compiled on demand)."""
    src = sorted(glob.glob(os.path.join(VERIF, "java", "rdv", "*.java")))
    out = os.path.join(VERIF, "build", "classes")
    stamp = os.path.join(out, ".stamp")
    newest = max(os.path.getmtime(s) for s in src)
    if os.path.exists(stamp) and os.path.getmtime(stamp) >= newest:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="rdvcls", dir=os.path.dirname(out))
    r = subprocess.run(["javac", "-nowarn", "-d", tmp, "-cp", JARS] + src,
                       capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac failed:\n" + r.stderr)
    open(os.path.join(tmp, ".stamp"), "w").close()
    if os.path.exists(out):
        shutil.rmtree(out, ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:
        return tmp
    return out


def tlc(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap="6g"):
    """Run TLC on spec/<module>.tla; returns dict(out, generated, distinct, depth, ok)."""
    scratch = tempfile.mkdtemp(prefix="rdvtlc")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + scratch,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:rdv.Overrides",
               "-cp", JARS + ":" + classes(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(scratch, "meta"),
               "-noGenerateSpecTE", "-config", (cfg or module + ".cfg"), *extra, module + ".tla"]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timed out on {module}") from ex
        out = "\n".join(ln for ln in r.stdout.splitlines()
                        if not ln.startswith(("Parsing file", "Semantic processing", "Linting of")))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        return dict(out=out, err=r.stderr, rc=r.returncode, generated=gen, distinct=dist,
                    depth=int(d[-1]) if d else 0, wall=time.time() - t0,
                    ok=("Model checking completed. No error has been found." in out))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def unquote(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


# ------------------------------------------------------------------ encoding
def num(x):
    """Exact text of a double / int for Num!NP."""
    import math
    if x is None:
        return "nan"
    if isinstance(x, Fraction):
        return f"{x.numerator}/{x.denominator}" if x.denominator != 1 else str(x.numerator)
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else f"{n}/{d}"


def missing(v):
    """Model integers to floats (99999 = Series!Missing)."""
    return [float("nan") if x == 99999 else float(x) for x in v]


def nums(xs):
    return [num(x) for x in xs]


def secs(index, epoch=None, unit=10**9):
    """Timestamps as integers in `unit` ns since `epoch` (a Timestamp; default index[0])."""
    import numpy as np
    import pandas as pd
    if len(index) == 0:
        return []
    v = pd.DatetimeIndex(index).as_unit("ns").asi8
    e = v[0] if epoch is None else pd.Timestamp(epoch).as_unit("ns").value
    d = v - e
    assert (d % unit == 0).all(), "timestamps not on unit"
    return [int(x) for x in d // unit]


def exc_name(e):
    return type(e).__name__


# ------------------------------------------------------------------ check driver
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.violations = []          # (signature, detail, event)
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.thorough = self.tier == "thorough"

    def rng(self, salt=0):
        import numpy as np
        return np.random.default_rng([self.seed, int(self.pid[1:]), salt])

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model checking of the design; returns the emitted cases
    def model(self, module, cfg=None, env=None, timeout=800, workers=8, extra=(), deep=False):
        if self.thorough and cfg is None and not deep and os.path.exists(os.path.join(SPEC, module + "_T.cfg")):
            self.model(module, module + "_T.cfg", env, max(timeout, 3000), workers, extra, deep=True)
        r = tlc(module, cfg, env, workers=workers, timeout=timeout, extra=extra)
        if not r["ok"]:
            raise MachineryError(f"model {module} does not satisfy its properties or failed:\n"
                                 + r["out"][-4000:] + r["err"][-1000:])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.cov.setdefault("models", []).append(
            dict(module=module, cfg=cfg or module + ".cfg", distinct=r["distinct"],
                 generated=r["generated"], depth=r["depth"], wall_s=round(r["wall"], 1)))
        cases = []
        for ln in r["out"].splitlines():
            if ln.startswith('<<"CASE", "'):
                cases.append(unquote(ln[len('<<"CASE", "'):-len('">>')]))
        # TLC's workers print in any order: sorted, so that a seed always picks the same cases
        return [json.loads(x) for x in sorted(cases)]

    # -- trace validation of recorded events against spec/<module>.tla
    def validate(self, module, events, cfg="TV.cfg", timeout=800, chunk=None):
        """events: list of (event_dict, replay_info)"""
        if not events:
            return
        d = tempfile.mkdtemp(prefix="rdvtrace")
        try:
            path = os.path.join(d, "trace.ndjson")
            with open(path, "w") as f:
                for ev, _ in events:
                    f.write(json.dumps(ev) + "\n")
            r = tlc(module, cfg, {"RDV_TRACE": path}, timeout=timeout)
            if not r["ok"]:
                raise MachineryError(f"trace validation {module} failed to run:\n" + r["out"][-4000:])
            n = len(events)
            k = min(n, 16)
            if r["distinct"] != n + k:
                raise MachineryError(f"{module}: {r['distinct']} states for {n} records")
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.traces += n
            self.cov.setdefault("validation", []).append(
                dict(module=module, records=n, wall_s=round(r["wall"], 1)))
            for ln in r["out"].splitlines():
                m = re.match(r'<<"BAD", (\d+), "(.*)">>$', ln)
                if m:
                    i = int(m.group(1)) - 1
                    clauses = json.loads(unquote(m.group(2)))
                    self.violation("; ".join(sorted(clauses)), events[i][0], events[i][1])
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def violation(self, detail, event=None, info=None):
        self.violations.append((detail, event, info))

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    # -- known findings
    def known(self):
        """Lines 'finding: property=<id> key=<key> <what fails>' of known_findings.txt."""
        out = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for ln in open(path):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
                if m and m.group(1) == self.pid:
                    out.append(dict(finding=m.group(2), what=m.group(3)))
        return out

    def finish(self):
        known = self.known()
        fresh, hit = [], {}
        for v in self.violations:
            for k in known:
                if (v[2] or {}).get("finding") == k["finding"]:
                    hit[k["finding"]] = k
                    break
            else:
                fresh.append(v)
        for k in known:
            if k["finding"] in hit:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{self.pid}.json")
            with open(rp, "w") as f:
                json.dump([dict(detail=d, event=e, info=i) for d, e, i in fresh[:50]], f,
                          indent=1, default=str)
            from collections import Counter
            for k, n in Counter(re.sub(r"[-0-9.e]+", "#", str(d))[:90] for d, _, _ in fresh).most_common(8):
                print(f"  {n} x {k}")
            for d, e, i in fresh[:5]:
                print("  rejected:", str(d)[:400], "|", str(i)[:300])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        return 0


def main(pid, fn):
    try:
        c = Check(pid)
        try:
            fn(c)
        except Crash as e:
            for _, what, tb, item in e.crashes[:20]:
                c.violation("outcome cannot be observed: " + what, dict(traceback=tb), dict(item=item))
        rc = c.finish()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    import atexit
    atexit._run_exitfuncs()
    os._exit(rc)


class Crash(Exception):
    """The outcome of some calls could not even be observed (unexpected type, shape or state)."""

    def __init__(self, crashes):
        super().__init__(f"{len(crashes)} outcomes")
        self.crashes = crashes


class Expired(BaseException):
    """A call did not return within any reasonable time."""


def _expire(*_):
    raise Expired()


class _Guard:
    """One observation; nothing it does can take the check down: exceptions, endless loops and exploding memory become crashes."""
    limit = 240 if os.environ.get("VERIF_TIER", "quick") == "quick" else 1500

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, x):
        import signal
        import threading
        timed = threading.current_thread() is threading.main_thread()
        if timed:
            signal.signal(signal.SIGALRM, _expire)
            signal.alarm(self.limit)
        try:
            return self.fn(x)
        except (OSError, MachineryError):
            raise
        except Expired:
            return ("__crash__", f"no answer within {self.limit} s", "", repr(x)[:600])
        except Exception as e:
            return ("__crash__", f"{exc_name(e)}: {str(e)[:200]}", traceback.format_exc()[-1500:], repr(x)[:600])
        finally:
            if timed:
                signal.alarm(0)


class _Many:
    def __init__(self, g):
        self.g = g

    def __call__(self, xs):
        out = []
        for x in xs:
            out.append(self.g(x))
            if isinstance(out[-1], tuple) and len(out[-1]) == 4 and str(out[-1][1]).startswith("no answer"):
                break                       # do not wait for every one of them
        return out


def _limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def pmap(fn, items, procs=8, chunk=None):
    """Map over items in forked worker processes, order kept."""
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    items = list(items)
    g = _Guard(fn)
    if len(items) < 16 or procs <= 1:
        out = [g(x) for x in items]
    else:
        n = chunk or max(1, len(items) // (procs * 8))
        parts = [items[i:i + n] for i in range(0, len(items), n)]
        out = []
        pool = ProcessPoolExecutor(procs, mp_context=mp.get_context("fork"), initializer=_limit_memory)
        try:
            for part in pool.map(_Many(g), parts):
                out += part
                if part and isinstance(part[-1], tuple) and len(part[-1]) == 4 and str(part[-1][1]).startswith("no answer"):
                    raise Crash([part[-1]])
        except BrokenProcessPool:
            raise Crash([("__crash__", "a call ended its process (memory or abort)", "", repr(items[len(out):len(out) + 1])[:600])])
        finally:
            procs_ = list((pool._processes or {}).values())
            pool.shutdown(wait=False, cancel_futures=True)
            for q in procs_:
                q.kill()
    bad = [o for o in out if isinstance(o, tuple) and len(o) == 4 and o[0] == "__crash__"]
    if bad:
        raise Crash(bad)
    return out
