"""C04 insolation-weighted aggregation."""
from rdv import *
import warnings
import numpy as np
import pandas as pd

ZONES = [None, "UTC", "America/New_York", "Asia/Kolkata", "Australia/Adelaide"]
EPOCH = pd.Timestamp("1970-01-01")
SEC = {"h": 3600, "15min": 900, "6h": 21600, "90min": 5400}
FREQS = [("D", "D", 1), ("D", "D", 1), ("7D", "D", 7), ("14D", "D", 14), ("2D", "D", 2), ("h", "S", 3600), ("6h", "S", 21600),
         ("MS", "MS", 1), ("ME", "ME", 1), ("W", "W", 1), ("YS", "YS", 1)]


def execute(case):
    import rdtools
    ix = pd.DatetimeIndex(case["index"])
    if case["tz"]:
        ix = ix.tz_localize("UTC").tz_convert(case["tz"])
    x = pd.Series(case["x"], index=ix, dtype=float, name="x")
    w = pd.Series(case["w"], index=ix, dtype=float, name="w")
    for s, k in ((x, "dropx"), (w, "dropw")):
        pass
    local = ix.tz_localize(None)
    days = [int(d) for d in (local.normalize() - EPOCH).days]
    mid = ix[0].normalize()
    ev = dict(freq=case["kind"], mult=case["mult"], days=days, secs=[int((a - mid).total_seconds()) for a in ix],
              x=nums(x), w=nums(w), err="", out=[], labels=[])
    if case.get("drop"):
        x = x.dropna()
        if len(x) == 0:
            return None
    kw = {} if case["freq"] == "D" and case.get("default") else dict(frequency=case["freq"])
    if case.get("offset"):
        kw["frequency"] = pd.tseries.frequencies.to_offset(case["freq"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = rdtools.aggregation_insol(x, w, **kw)
        ev["out"] = nums(out)
        if case["kind"] == "S":
            ev["labels"] = [int((a - mid).total_seconds()) for a in out.index]
        else:
            lo = out.index.tz_localize(None)
            ev["labels"] = [int((a - EPOCH).days) if a == a.normalize() else -777 for a in lo]
            if str(out.index.tz) != str(ix.tz):
                ev["labels"] = [-778]
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def from_model(c, k):
    start = pd.Timestamp("2020-03-06")
    off = pd.Timedelta(hours=0)
    tz = ["UTC", None][k % 2]
    return dict(index=[str(start + pd.Timedelta(hours=12 * t)) for t in c["t"]], x=missing(c["x"]), w=missing(c["w"]),
                tz=tz, freq="D", kind="D", mult=1, default=k % 3 == 0, drop=k % 5 == 4 and c["x"][0] != 99999)


def rand_case(r, k):
    freq, kind, mult = FREQS[int(r.integers(0, len(FREQS)))]
    tz = ZONES[int(r.integers(0, 5))]
    step = dict(h=11, D=237).get(freq, 1400)
    if freq == "6h":
        step = 97
    if freq == "YS":
        step = 30000
    n = int(r.integers(1, 60))
    start = pd.Timestamp(str(r.choice(["2019-03-09 05:17", "2020-02-27 23:00", "2020-10-31 22:30", "2019-12-28 11:00", "2021-04-02 01:30"])))
    steps = r.integers(1, 2 * step, n) if r.random() < .5 else np.full(n, step)
    mins = np.cumsum(steps)
    x = r.random(n) * 1.2
    w = np.where(r.random(n) < .3, 0, np.round(r.random(n) * 1000, 2))
    if r.random() < .3:
        w = r.integers(0, 3, n) * 1.0
    if r.random() < .15:                  # an offset sensor
        w = w - r.choice([1., 4., 700.])
        x = x - r.choice([0, .5])
    pn, wn = r.choice([0, .2, .6]), r.choice([0, 0, .2])
    x = np.where(r.random(n) < pn, np.nan, x)
    w = np.where(r.random(n) < wn, np.nan, w)
    return dict(index=[str(start + pd.Timedelta(minutes=int(m))) for m in mins], x=[float(a) for a in x], w=[float(a) for a in w],
                tz=tz, freq=freq, kind=kind, mult=mult, default=bool(r.random() < .5), offset=bool(r.random() < .2))


def run(c):
    c.model("MC_Cal")
    cases = c.model("MC_Aggregate")
    full = len(cases)
    r = c.rng()
    n = c.scale(4000, len(cases))
    if len(cases) > n:
        cases = [cases[i] for i in sorted(r.permutation(len(cases))[:n])]
    items = [from_model(x, k) for k, x in enumerate(cases)]
    items += [rand_case(r, k) for k in range(c.scale(4000, 30000))]
    ev = [e for e in pmap(execute, items) if e]
    c.cov["model_cases"] = dict(emitted=full, replayed=len(cases), random=len(items) - len(cases))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.assumptions += ["value and insolation share one sorted index (or the value is absent where missing)"]
    c.validate("TV_Aggregate", ev)


if __name__ == "__main__":
    main("C04", run)
