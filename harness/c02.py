"""C02 energy from power."""
from rdv import *
import warnings
import numpy as np
import pandas as pd

ZONES = [None, "UTC", "America/Denver", "Asia/Kolkata", "Europe/London"]


def execute(case):
    import rdtools
    unit_s = case["unit"]
    unit = pd.Timedelta(seconds=unit_s)
    start = pd.Timestamp(case["start"], tz="UTC")
    ix = pd.DatetimeIndex([start + k * unit for k in case["t"]])
    ix = ix.tz_localize(None) if case["tz"] is None else ix.tz_convert(case["tz"])
    if case.get("setfreq") and len(ix) > 2:
        ix = pd.DatetimeIndex(ix, freq="infer")
    if len(ix) == 1 and case.get("setfreq"):
        ix = pd.DatetimeIndex(ix, freq=pd.Timedelta(seconds=case['w'] * unit_s))
    if case.get("iu"):
        ix = ix.as_unit(case["iu"])
    p = pd.Series(case["v"], index=ix, dtype=float, name=case.get("name"))
    ev = dict(t=case["t"], v=nums(p), kind=case["kind"], w=case["w"], g=num(Fraction(case["g"])),
              per_hour=int(round(3600 / unit_s)), out=[], out_t=[], err="", refuse=case.get("refuse", ""), name_ok=True)
    kw = {}
    if case["w"] and not (len(ix) == 1 and case.get("setfreq")):
        w = pd.Timedelta(seconds=case["w"] * unit_s)
        kw["target_frequency"] = pd.tseries.frequencies.to_offset(w) if case.get("offset") else (f"{int(round(case['w'] * unit_s * 1000))}ms" if unit_s < 1 else f"{case['w'] * int(unit_s)}s")
    if case["g"]:
        kw["max_timedelta"] = case["g"] * unit
    if case["kind"] != "right_labeled" or case.get("explicit"):
        kw["power_type"] = case["kind"]
    if case.get("badindex"):
        p.index = range(len(p))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = rdtools.energy_from_power(p, **kw)
        ev["out"] = nums(out)
        oi = out.index.tz_localize("UTC") if out.index.tz is None else out.index.tz_convert("UTC")
        ev["out_t"] = [int((x - start) / unit) if (x - start) % unit == pd.Timedelta(0) else -777 for x in oi]
        ev["name_ok"] = out.name == "energy_Wh" and str(out.index.tz) == str(ix.tz)
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def from_model(c, k):
    return dict(t=c["t"], v=missing(c["v"]), unit=[60, 900, 1800, 3600][k % 4], start="2020-03-08 07:00",
                tz=ZONES[k % 5], w=c["w"], g=c["g"], kind=c["kind"])


def rand_case(r, k):
    n = int(r.integers(2, 60))
    base = int(r.choice([1, 2, 5, 10]))
    gaps = np.full(n - 1, base)
    if r.random() < .7:
        gaps = np.where(r.random(n - 1) < r.choice([.05, .3]), r.integers(1, 60, n - 1), gaps)
    if r.random() < .15:
        gaps = r.integers(1, 30, n - 1)
    t = [0] + [int(x) for x in np.cumsum(gaps)]
    v = r.choice([r.random(n) * 5000, r.integers(0, 5, n) * 1.0, r.normal(0, 10, n)])
    v = np.where(r.random(n) < r.choice([0, .1, .4]), np.nan, v)
    if r.random() < .2:
        v[:int(r.integers(1, n))] = np.nan
    if r.random() < .2:
        v[int(r.integers(1, n)):] = np.nan
    if np.isfinite(v).sum() == 0:
        v[int(r.integers(0, n))] = 100.
    w = int(r.choice([0, 1, base, 2 * base, 3 * base, 7, 15, 60, 1, 24]))
    if w == 0 and np.median(np.diff(t)) % 1:
        w = 3
    g = float(r.choice([0, 0, base, 2 * base, 2.5 * base, 5, 1000]))
    d = dict(t=t, v=[float(x) for x in v], unit=float(r.choice([1, 60, 900, 60, .25, .005])), iu=[None, None, None, "us", "ms"][k % 5],
                start=str(r.choice(["2019-03-10 03:07", "2021-10-31 00:00:01", "2020-02-28 13:00", "2021-03-28 00:30"])),
                tz=ZONES[int(r.integers(0, 5))], w=w, g=g, kind=["right_labeled", "instantaneous"][k % 2],
                setfreq=bool(r.random() < .5), offset=bool(r.random() < .5), explicit=True, name=[None, "power"][k % 2])
    if d["unit"] < 1:      # pandas interpolates in floating nanoseconds of the epoch: exact near 1970 only
        d["start"] = "1970-01-02 00:00:07"
    return d


def special(r):
    out = []
    base = dict(unit=60, start="2020-01-01", tz=None, g=0, kind="right_labeled")
    for v in (5.0, float("nan"), -2.5):
        for w in (1, 5, 60):
            out.append(dict(base, t=[0], v=[v], w=w))
            out.append(dict(base, t=[0], v=[v], w=w, setfreq=True))
    out.append(dict(base, t=[0], v=[1.], w=5, kind="instantaneous", refuse="ValueError"))
    out.append(dict(base, t=[0], v=[1.], w=0, refuse="ValueError"))
    out.append(dict(base, t=[0, 1, 2], v=[1., 2., 3.], w=1, badindex=True, refuse="ValueError"))
    out.append(dict(base, t=[0, 1, 2], v=[1., 2., 3.], w=1, kind="left_labeled", refuse="ValueError"))
    out.append(dict(base, t=[0, 1, 2], v=[1., 2., 3.], w=2, kind="", explicit=True, refuse="ValueError"))
    for k in range(12):            # few long bridged stretches over a fine grid
        t = sorted(set(range(0, 30)) | set(range(30 + 700, 30 + 760)) | {2000, 2001})
        v = [float(x) for x in r.integers(0, 9, len(t))]
        out.append(dict(base, t=t, v=v, w=[2, 3, 5][k % 3], g=[1500., 800.][k % 2], kind=["right_labeled", "instantaneous"][k // 6], unit=[60, 1][k % 2]))
    return out


def run(c):
    cases = c.model("MC_Energy")
    full = len(cases)
    r = c.rng()
    n = c.scale(4000, len(cases))
    if len(cases) > n:
        cases = [cases[i] for i in sorted(r.permutation(len(cases))[:n])]
    items = [from_model(x, k) for k, x in enumerate(cases)] + special(r)
    items += [rand_case(r, k) for k in range(c.scale(3000, 30000))]
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(emitted=full, replayed=len(cases), random=len(items) - len(cases))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.assumptions += ["sorted unique timestamps, at least one recorded value", "fixed-width target frequencies"]
    c.validate("TV_Energy", ev)


if __name__ == "__main__":
    main("C02", run)
