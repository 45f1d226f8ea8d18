"""C06 rolling outlier filters."""
from rdv import *
import warnings
import numpy as np
import pandas as pd


def execute(case):
    import rdtools
    unit = pd.Timedelta(hours=case["unit"])
    start = pd.Timestamp(case["start"], tz="UTC")
    ix = pd.DatetimeIndex([start + k * unit for k in case["t"]])
    ix = ix.tz_convert(case["tz"]) if case["tz"] else ix.tz_localize(None)
    s = pd.Series(case["s"], index=ix, dtype=float, name="v")
    op = case["op"]
    ev = dict(op=op, t=case["t"], s=nums(s), win=case["win"], pts=case["pts"], p=num(case["p"]), exact=case["exact"],
              err="", mask=[], shape_ok=True)
    w = case["win"] * unit if case["win"] else case["pts"]
    if case["win"] and case.get("string"):
        w = f"{int(w.total_seconds() // 3600)}h"
    kw = {}
    arg, par = dict(two_way=("roll_period", "outlier_threshold"), hampel=("k", "t0"), tukey=("roll_period", "k"))[op]
    dw = dict(two_way=168, hampel=336, tukey=168)[op]
    if not (case["win"] and case["win"] * case["unit"] == dw and case.get("dflt")):
        kw[arg] = w
    if not (case.get("dflt") and case["p"] == dict(two_way=.03, hampel=3, tukey=1.5)[op]):
        kw[par] = case["p"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f = dict(two_way=rdtools.two_way_window_filter, hampel=rdtools.hampel_filter, tukey=rdtools.directional_tukey_filter)[op]
            m = f(s, **kw)
        m2 = m.reindex(ix) if len(m) == len(ix) else m
        ev["mask"] = [bool(x) for x in m2]
        ev["shape_ok"] = bool(m.index.sort_values().equals(ix) and m.dtype == bool)
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def from_model(c, k):
    op = ["two_way", "hampel", "tukey"][k % 3]
    return dict(op=op, t=c["t"], s=missing(c["v"]), win=c["win"], pts=0, p=dict(two_way=1 / 32, hampel=3, tukey=1.5)[op],
                exact=op != "two_way", unit=24, start="2020-03-05 05:00", tz=[None, "UTC"][k % 2])


def rand_case(r, k):
    op = ["two_way", "hampel", "tukey"][k % 3]
    n = int(r.integers(5, 60))
    gaps = np.where(r.random(n - 1) < .2, r.integers(1, 9, n - 1), 1)
    if r.random() < .3:
        gaps[:] = 1
    t = [0] + [int(x) for x in np.cumsum(gaps)]
    exact = bool(r.random() < .5)
    if exact:
        s = 64 - r.choice([0, 0, 1, 2, 2, 3, 4, 30, 66, 90], size=n).astype(float)
        i = r.permutation(n)[:max(2, n // 20 + 2)]
        s[i] = 64.
        p = float(dict(two_way=r.choice([1 / 32, 1 / 16, 1 / 64]), hampel=r.choice([3, 2, 1]), tukey=r.choice([1.5, 1.5, 1, 2, 3, .5]))[op])
    else:
        s = 1 - .0001 * np.arange(n) + r.normal(0, .02, n)
        s = np.where(r.random(n) < .1, s * r.random(n), s)
        if r.random() < .3:
            s = s * r.choice([1e-6, 1000., -1.])
        if r.random() < .2:
            s = s - r.choice([1., 2.])
        p = float(dict(two_way=r.choice([.03, .03, .1, .01]), hampel=r.choice([3, 3, 1.5]), tukey=r.choice([1.5, 1.5, 1, 3, .7]))[op])
    s = np.where(r.random(n) < r.choice([0, .1, .3]), np.nan, s)
    if exact and np.sum(s == 64.) < 2 + n // 25:
        exact = False if op == "two_way" else exact
    if not np.isfinite(s).any():
        s[0] = 1.
    unit = int(r.choice([24, 24, 1]))
    win = int(r.choice([7, 14, 4, 10, 6, 20]))
    pts = 0
    if r.random() < .2:
        pts, win = int(r.choice([5, 7, 9, 6, 8])), 0
    return dict(op=op, t=t, s=[float(x) for x in s], win=win, pts=pts, p=p, exact=exact, unit=unit,
                start=str(r.choice(["2020-03-05 05:00", "2020-10-30 04:00"])), tz=[None, "UTC", "America/Denver"][int(r.integers(0, 3))],
                string=bool(r.random() < .3), dflt=bool(r.random() < .5))


def run(c):
    cases = c.model("MC_Rolling")
    full = len(cases)
    r = c.rng()
    n = c.scale(4000, len(cases))
    if len(cases) > n:
        cases = [cases[i] for i in sorted(r.permutation(len(cases))[:n])]
    items = [from_model(x, k) for k, x in enumerate(cases)]
    items += [rand_case(r, k) for k in range(c.scale(4500, 40000))]
    for k in range(c.scale(2, 12)):          # years of days
        d = rand_case(r, k)
        n = 1100
        s = 1.2 - .0003 * np.arange(n) + r.normal(0, .015, n)
        s = np.where(r.random(n) < .05, s * r.random(n), s)
        items.append(dict(d, op=["two_way", "hampel", "tukey"][k // 2 % 3], t=list(range(n)), s=[float(x) for x in s], win=10, pts=0, exact=False, unit=24,
                          p=dict(two_way=.03, hampel=3., tukey=1.5)[["two_way", "hampel", "tukey"][k // 2 % 3]]))
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(emitted=full, replayed=len(cases), random=len(items) - len(cases))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.assumptions += ["sorted unique timestamps"]
    c.validate("TV_Rolling", ev)


if __name__ == "__main__":
    main("C06", run)
