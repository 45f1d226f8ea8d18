"""C08 year-on-year degradation."""
from rdv import *
import warnings
import numpy as np
import pandas as pd

EPOCH = pd.Timestamp("1970-01-01")
ZONES = [None, "UTC", "America/New_York", "Australia/Sydney", "Asia/Kolkata"]


def off(ts):
    return int(ts.utcoffset().total_seconds()) if ts.tzinfo else 0


def shifted_off(ts, years):
    if ts.tzinfo is None:
        return 0
    return off(ts + pd.DateOffset(years=years))


def execute(case):
    import rdtools
    ix = pd.DatetimeIndex(case["index"])
    if case["tz"]:
        ix = ix.tz_localize(case["tz"])
    if case.get("freq"):
        ix = pd.DatetimeIndex(ix, freq="infer")
    s = pd.Series(case["v"], index=ix, dtype=float, name=case.get("name"))
    lo = ix.tz_localize(None)
    inferred = None
    try:
        inferred = ix.inferred_freq
    except Exception:
        pass
    ev = dict(d=[int(x) for x in (lo.normalize() - EPOCH).days], s=[int(x.total_seconds()) for x in (lo - lo.normalize())],
              o=[off(t) for t in ix], o1=[shifted_off(t, 1) for t in ix], o2=shifted_off(ix[0], 2),
              exactstep=bool(inferred is None or inferred == "D"), v=nums(s), recenter=case["recenter"], full=case["method"] == "simple",
              err="", rate="0", renorm="0", yoy=[], yoy_t=[], usage=[])
    if case.get("perm"):
        s = s.iloc[np.random.default_rng(case["perm"]).permutation(len(s))]
    kw = {} if case["recenter"] and case.get("dflt") else dict(recenter=case["recenter"])
    if case["method"] != "simple":
        kw["uncertainty_method"] = case["method"]
    np.random.seed(1)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = rdtools.degradation_year_on_year(s, **kw)
        if case["method"] == "simple":
            rate, ci, info = out
            ev["rate"] = num(rate)
            ev["renorm"] = num(info["renormalizing_factor"])
            y = info["YoY_values"]
            pos = {t: k + 1 for k, t in enumerate(ix)}
            ev["yoy"] = nums(y)
            ev["yoy_t"] = [pos.get(t, 0) for t in y.index]
            u = info["usage_of_points"]
            ev["usage"] = [int(u.get(t, -1)) for t in ix]
        else:
            ev["rate"] = num(out)
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def from_model(c, k):
    return dict(index=[str(EPOCH + pd.Timedelta(days=x)) for x in c["d"]], v=missing(c["v"]), tz=None,
                recenter=k % 2 == 0, method="simple", perm=k % 7)


def rand_case(r, k):
    kind = ["D", "W", "MS", "irr", "sparse", "sub"][k % 6]
    start = pd.Timestamp(str(r.choice(["2015-11-03", "2016-02-20", "2018-01-01", "2019-02-28", "2020-02-29", "2019-07-14"])))
    years = float(r.choice([1.9, 2.0, 2.3, 3.1, 4.2]))
    if kind == "D":
        n = int(365.25 * min(years, 3.1))
        if r.random() < .1:
            n = int(r.integers(728, 733))
        ix = pd.date_range(start, periods=n, freq="D")
        if r.random() < .5:
            ix = ix[r.random(n) < .8]
    elif kind == "W":
        ix = pd.date_range(start, periods=int(52.2 * years), freq="7D")
        if r.random() < .4:
            ix = ix[r.random(len(ix)) < .85]
    elif kind == "MS":
        ix = pd.date_range(start, periods=int(12 * years), freq=str(r.choice(["MS", "ME", "MS"])))
    elif kind == "irr":
        n = int(years * 60)
        ix = start + pd.to_timedelta(np.cumsum(r.integers(1, 12, n)), unit="D")
    elif kind == "sub":
        n = int(years * 60)
        ix = start + pd.to_timedelta(np.cumsum(r.integers(20, 280, n)), unit="h")
    else:
        base = pd.date_range(start, periods=int(365.25 * years), freq="D")
        ix = base[np.sort(r.permutation(len(base))[:80])]
    ix = pd.DatetimeIndex(ix)
    if kind in ("D", "W", "irr") and r.random() < .3:
        ix = ix + pd.Timedelta(hours=int(r.integers(0, 24)))
    tz = ZONES[int(r.integers(0, 5))]
    if tz:
        try:
            ix.tz_localize(tz)
            (ix.tz_localize(tz) + pd.DateOffset(years=1))
        except Exception:
            tz = "UTC"
    n = len(ix)
    t = np.arange(n) / n
    v = (1 - .03 * t + r.normal(0, .05, n)) * float(r.choice([1, 1, 50, .02]))
    v = np.where(r.random(n) < r.choice([0, .1, .4]), np.nan, v)
    if r.random() < .2:
        v = np.where(r.random(n) < .1, 0, v)
    return dict(index=[str(x) for x in ix], v=[float(x) for x in v], tz=tz, recenter=bool(r.random() < .6), dflt=bool(r.random() < .5),
                method=["simple", "simple", "none", None][int(r.integers(0, 4))], perm=int(r.integers(0, 3)), name=[None, "energy", "x"][k % 3],
                freq=bool(kind in ("MS",) and r.random() < .5))


def run(c):
    cases = c.model("MC_YoY")
    full = len(cases)
    r = c.rng()
    n = c.scale(3000, len(cases))
    if len(cases) > n:
        cases = [cases[i] for i in sorted(r.permutation(len(cases))[:n])]
    items = [from_model(x, k) for k, x in enumerate(cases)]
    items += [rand_case(r, k) for k in range(c.scale(480, 6000))]
    for k in range(c.scale(1, 6)):                    # six years of days
        d = rand_case(r, 0)
        ix = pd.date_range("2014-02-27", periods=2200, freq="D")
        ix = ix[r.random(len(ix)) < [.9, .6][k % 2]]
        items.append(dict(d, index=[str(x) for x in ix], v=[float(x) for x in 1 - .01 * np.arange(len(ix)) / 365 + r.normal(0, .03, len(ix))], tz=None, freq=False))
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(emitted=full, replayed=len(cases), random=len(items) - len(cases))
    c.sample(ev[0][0]); c.sample(dict(ev[-1][0], v=ev[-1][0]["v"][:5]))
    c.assumptions += ["timestamps unique", "28/29 February share an anniversary: either may be the partner"]
    c.validate("TV_YoY", ev)


if __name__ == "__main__":
    main("C08", run)
