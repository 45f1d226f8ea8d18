"""C01 interpolation."""
from rdv import *
import warnings
import numpy as np
import pandas as pd

ZONES = [None, "UTC", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe"]


def execute(case):
    """case: t, v (list of columns of float), unit_s, start, tz, target (ints) or freq, g, ..."""
    import rdtools
    unit = pd.Timedelta(seconds=case["unit"])
    start = pd.Timestamp(case["start"], tz="UTC")
    tz, ttz = case["tz"], case["ttz"]

    def idx(ints, zone):
        ix = pd.DatetimeIndex([start + k * unit for k in ints])
        return ix.tz_localize(None) if zone is None else ix.tz_convert(zone)
    index = idx(case["t"], tz)
    if case.get("iu"):
        index = index.as_unit(case["iu"])
    cols = [np.array(c, dtype=float) for c in case["v"]]
    if case["frame"]:
        data = pd.DataFrame({n: c for n, c in zip(case["names"], cols)}, index=index)
    else:
        data = pd.Series(cols[0], index=index, name=case["names"][0])
    ev = dict(t=case["t"], v=[nums(c) for c in cols], target=case["target"],
              g=num(Fraction(case["g"])), refuse=(tz is None) != (ttz is None), err="", out=[],
              index_ok=True, name_ok=True, warned=False, wthr=num(case["wthr"]))
    if case["freq"]:
        target = case["freq"]
        want = pd.date_range(index.min(), index.max(), freq=target)
        assert not ev["refuse"]
    else:
        target = want = idx(case["target"], ttz)
        if case.get("tu"):
            target = want = target.as_unit(case["tu"])
    if len(want):
        tgt = want.tz_localize("UTC") if want.tz is None else want.tz_convert("UTC")
        ev["target"] = [int((x - start) / unit) for x in tgt]
    kw = {}
    if case["g"] != 0:
        kw["max_timedelta"] = case["g"] * unit
    if case["wthr"] != 0.1:
        kw["warning_threshold"] = case["wthr"]
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = rdtools.interpolate(data, target, **kw)
        ev["warned"] = any("excluded" in str(x.message) for x in w)
        ev["index_ok"] = bool(out.index.equals(want) and str(out.index.tz) == str(want.tz))
        if case["frame"]:
            ev["name_ok"] = isinstance(out, pd.DataFrame) and list(out.columns) == case["names"]
            ev["out"] = [nums(out.iloc[:, k]) for k in range(out.shape[1])]
            if len(ev["out"]) != len(cols):
                ev["out"] = [[] for _ in cols]
        else:
            ev["name_ok"] = bool(isinstance(out, pd.Series) and out.name == case["names"][0])
            ev["out"] = [nums(out)]
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def from_model(c, k):
    v = missing(c["v"])
    lo, hi = -1, c["t"][-1] + 1
    return dict(t=c["t"], v=[v], unit=[60, 3600, 600, 86400][k % 4], start="2020-03-08 04:00", tz=ZONES[k % 6],
                ttz=ZONES[k % 6] if k % 6 == 0 else ZONES[1 + (k // 6) % 5], target=list(range(lo, hi + 1)), freq=None,
                g=c["g"], frame=False, names=[[None, "x", "data"][k % 3]], wthr=0.1)


def rand_case(r, k):
    n = int(r.integers(2, 40))
    gaps = r.choice([1, 1, 1, 2, 3, 7, 30], size=n - 1) if r.random() < .7 else r.integers(1, 50, size=n - 1)
    if r.random() < .2:
        gaps = np.full(n - 1, int(r.integers(1, 20)))
    t = [0] + [int(x) for x in np.cumsum(gaps)]
    frame = bool(r.random() < .4)
    ncol = int(r.integers(1, 4)) if frame else 1
    cols = []
    for _ in range(ncol):
        v = r.choice([r.normal(0, 100, n), r.integers(-3, 4, n) * 1.0, r.random(n) * 1e6])
        v = np.where(r.random(n) < r.choice([0, .1, .4]), np.nan, v)
        if np.isfinite(v).sum() < 2 and k % 3:
            v[:2] = 1.5, 2.5
        if k % 40 == 7 and not cols:                     # one or no recorded value
            v[:] = np.nan
            if k % 80 == 7:
                v[int(r.integers(n))] = 4.5
        cols.append([float(x) for x in v])
    tz = ZONES[int(r.integers(0, 6))]
    ttz = ZONES[int(r.integers(0, 6))]
    if r.random() < .9 and (tz is None) != (ttz is None):
        ttz = tz
    freq = None
    unit = float(r.choice([1, 60, 600, 3600, .25, .001, 86400]))
    start = str(r.choice(["2019-03-10 03:00", "2021-10-31 00:00", "2020-02-28 13:00", "2021-04-03 12:30", "1971-01-01"]))
    if unit < 1:       # pandas interpolates in floating nanoseconds of the epoch: exact near 1970 only
        start = "1970-01-02"
    if r.random() < .2 and (tz is None) == (ttz is None):
        w = int(r.choice([1, 2, 3, 7])) * unit
        freq = f"{int(round(w * 1000))}ms" if unit < 1 else f"{int(w)}s"
    tgt = sorted(set(int(x) for x in r.integers(-5, t[-1] + 6, size=int(r.integers(1, 40)))))
    if r.random() < .5:
        tgt = sorted(set(tgt) | set(t))
    if r.random() < .1 and not freq:
        tgt = [int(x) for x in r.permutation(tgt)]
    if r.random() < .1 and not freq:
        tgt = sorted(tgt + tgt[:3])
    g = float(r.choice([0, 0, 1, 2, 3, 2.5, 7, 30, 1000]))
    return dict(t=t, v=cols, unit=unit, start=start, tz=tz, ttz=ttz, target=tgt, freq=freq, g=g, frame=frame,
                names=["a", "value", "c"][:ncol] if frame else [[None, "p", "timestamp"][k % 3]],
                iu=[None, None, None, "ms", "us"][k % 5], tu=[None, None, "us", "ms"][k % 4],
                wthr=float(r.choice([.1, .1, .5, 0.0])))


def run(c):
    cases = c.model("MC_Interp")
    full = len(cases)
    r = c.rng()
    n = c.scale(4000, len(cases))
    if len(cases) > n:
        cases = [cases[i] for i in sorted(r.permutation(len(cases))[:n])]
    items = [from_model(x, k) for k, x in enumerate(cases)]
    items += [rand_case(r, k) for k in range(c.scale(2500, 20000))]
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(emitted=full, replayed=len(cases), random=len(items) - len(cases))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.assumptions += ["samples sorted with unique timestamps"]
    c.validate("TV_Interp", ev)


if __name__ == "__main__":
    main("C01", run)
