"""C10 regression degradation rates."""
from rdv import *
import warnings
import numpy as np
import pandas as pd


def execute(case):
    import rdtools
    op = case["op"]
    ev = dict(op=op, refuse=case.get("refuse", ""), why=case.get("why", ""), err="")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ix = pd.DatetimeIndex(pd.to_datetime(case["ix"])) if "ix" in case else pd.date_range(case["start"], periods=len(case["y"]), freq=case["freq"])
            if case.get("tz"):
                ix = ix.tz_localize(case["tz"])
            s = pd.Series(case["y"], ix, name=case.get("name"), dtype=float)
            if case.get("missing"):
                s.iloc[case["missing"]] = np.nan
            if case.get("drop"):
                s = s.drop(s.index[case["drop"]])
            f = rdtools.degradation_ols if op == "ols" else rdtools.degradation_classical_decomposition
            kw = {} if case["cl"] == 682 and case["seed"] % 2 else dict(confidence_level=case["cl"] / 10)
            np.random.seed(case["seed"])
            rd, ci, info = f(s, **kw)
            np.random.seed(case["seed"] + 1)
            rd2 = f(s * 7.25, **kw)[0]
            ev.update(t=secs(s.index, unit=3600 * 10**9), y=nums(s.values), rate=num(rd), rate2=num(rd2), lo=num(ci[0]), hi=num(ci[1]),
                      slope=num(info["slope"]), intercept=num(info["intercept"]), rmse=num(info["rmse"]),
                      serr=num(info["slope_stderr"]), ierr=num(info["intercept_stderr"]), cl=case["cl"])
            if op == "classical":
                ma = info["series"]
                assert ma.index.equals(s.index), "index of the moving average"
                ev.update(ma=nums(ma.values), mk=info["mk_test_trend"] if case.get("mk", True) else "")
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def usable(t, y):
    t = np.array([a for a, b in zip(t, y) if b == b]); y = np.array([b for b in y if b == b])
    m, b = np.polyfit(t / 36.5, y, 1)
    return abs(b) > .05


def cases(c, model, r):
    out = []
    for m in model:
        y = missing(m["y"])
        if usable(m["t"], y):
            ix = pd.Timestamp("2017-03-01") + pd.to_timedelta(np.array(m["t"]) * 240, "h")
            out.append(dict(op="ols", ix=[str(x) for x in ix], y=y, seed=int(r.integers(1e6)), cl=int(r.choice([682, 900, 500, 950]))))
    out = [out[k] for k in r.permutation(len(out))[:c.scale(800, 20000)]]
    for k in range(c.scale(60, 600)):
        n = int(r.integers(4, 200))
        ix = pd.Timestamp("2015-06-01") + pd.to_timedelta(np.cumsum(r.integers(1, [30, 400][k % 2], n)), "h")
        y = (1 + r.normal(-.05, .05) * (ix - ix[0]) / pd.Timedelta("365d") + r.normal(0, r.choice([1e-3, .05, .3]), n)) * 10.0**r.integers(-3, 5)
        y = np.array(y); y[r.random(n) < r.choice([0, .2])] = np.nan
        if k % 6 == 1:
            y = -y
        if k % 5 == 0:
            y[0] = np.nan
        if np.isfinite(y).sum() > 3:
            out.append(dict(op="ols", ix=[str(x) for x in ix], y=[float(v) for v in y], tz=[None, "America/Denver"][k % 2] if k % 2 == 0 else None,
                            seed=int(r.integers(1e6)), cl=int(r.choice([682, 900, 500, 950])), name=[None, "pr"][k % 2]))
    for k in range(c.scale(36, 300)):
        freq = ["MS", "7D", "D", "2D", "MS", "14D"][k % 6]
        n = {"MS": int(r.integers(20, 70)), "7D": int(r.integers(70, 200)), "D": int(r.integers(500, [720, 900][k % 12 == 2])), "2D": int(r.integers(230, 500)), "14D": int(r.integers(40, 90))}[freq]
        tt = np.arange(n) / n
        kind = k % 4
        y = 1 + r.normal(0, .1) * tt + .03 * np.sin(40 * tt) + r.normal(0, .03, n)
        if kind == 1:        # ties in the moving average
            y = np.round(r.integers(0, 3, n)).astype(float) + 4
        elif kind == 2:
            y = np.where(tt < .6, 1.0, 1.0 + .1 * r.random()) + (0 if k % 8 < 4 else .125 * (np.arange(n) % 2))
        if k % 5 == 3:
            y = y * r.choice([1e-7, 1e5, -1.])
        out.append(dict(op="classical", start=str(r.choice(["2014-01-01", "2015-02-01", "2016-12-01"])), freq=freq, y=[float(v) for v in y],
                        tz=[None, "UTC"][k % 2], seed=int(r.integers(1e6)), cl=int(r.choice([682, 900, 500, 950]))))
    for k in range(c.scale(40, 300)):     # short moving averages with many ties
        n = int(r.integers(16, 34))
        y = [float(v) for v in r.integers(1, 4, n) / 4 + 1]
        out.append(dict(op="classical", start="2015-01-01", freq="MS", y=y, seed=int(r.integers(1e6)), cl=682))
    b = dict(op="classical", start="2015-01-01", freq="D", y=[1.0 + .001 * i for i in range(800)], seed=1, cl=682, refuse="ValueError")
    out.append(dict(b, missing=[5], why="missing value"))
    out.append(dict(b, missing=[0], why="first value missing"))
    out.append(dict(b, missing=[799], why="last value missing"))
    out.append(dict(b, missing=list(range(300, 420)), why="gap"))
    out.append(dict(b, drop=[7, 8, 300], why="irregular series"))
    return out


def run(c):
    model = c.model("MC_Regress")
    r = c.rng()
    ev = pmap(execute, cases(c, model, r))
    c.sample(ev[0][0])
    c.assumptions += ["intervals judged when the intercept is at least eight standard errors from zero, within six standard errors of 10000 draws",
                      "Mann-Kendall verdict judged on the reported moving average"]
    c.validate("TV_Regress", ev)


if __name__ == "__main__":
    main("C10", run)
