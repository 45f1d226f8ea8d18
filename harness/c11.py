"""C11 irradiance rescaling."""
from rdv import *
import warnings
import numpy as np
import pandas as pd


def execute(case):
    import rdtools
    ev = dict(refuse=case.get("refuse", ""), why=case.get("why", ""), err="", method=case["method"], maxit=case["maxit"], thr=num(case["thr"]),
              copy=case.get("copy", False), truth=num(case.get("truth", 1)), index=True, edge=case.get("edge", False))
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            ix = pd.date_range("2020-06-01", periods=len(case["s"]), freq="h", tz=case.get("tz"))
            a = pd.Series(case["a"], ix, dtype=float, name="meas")
            s = pd.Series(case["s"], ix, dtype=float, name="sim")
            ev.update(a=nums(a.values), s=nums(s.values))
            kw = dict(method=case["method"]) if case["method"] != "iterative" or len(a) % 2 else {}
            if case["maxit"] != 100:
                kw["max_iterations"] = case["maxit"]
            if case["thr"] != 1e-6:
                kw["convergence_threshold"] = case["thr"]
            out = rdtools.irradiance_rescale(a, s, **kw)
            ev.update(out=nums(out.values), index=bool(out.index.equals(s.index)))
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def cases(c, model, r):
    out = []
    base = dict(method="iterative", maxit=100, thr=1e-6)
    model = [model[k] for k in r.permutation(len(model))[:c.scale(1500, 20000)]]
    for m in model:
        s = np.array(m["sim"], float); a = s * np.array(m["rat"]) / 10
        d = dict(base, a=[float(x) for x in a], s=[float(x) for x in s], maxit=int(r.choice([100, 100, 100, 1, 2, 5])))
        if len(set(m["rat"])) == 1 and (a > 200).any():
            d.update(copy=d["maxit"] > 1, truth=m["rat"][0] / 10)
        if len(set(m["rat"])) == 1 and d["maxit"] == 1:
            d.update(copy=False)
        out.append(d)
    for k in range(c.scale(250, 2500)):
        n = int(r.integers(5, 60))
        s = np.clip(1000 * np.sin(np.linspace(0, np.pi * r.integers(1, 4), n)) * r.uniform(.8, 1.1, n), 0, None)
        csi = r.choice([1, 1, 1, .3, .6, .85, 1.15, 1.25], n) * r.uniform(.97, 1.03, n)
        a = s * csi
        if k % 3 == 1:
            a = s * r.choice([.5, .7, .85, 1., 1.15], n)
        scale = float(r.choice([1, .5, 2, .01, 50, 1000, .8, 1.2]))
        s = s / scale
        if k % 4 == 0:
            a[r.random(n) < .2] = np.nan
            s[r.random(n) < .1] = np.nan
        if k % 7 == 0:
            a = a - 5
        if k % 6 == 0:
            s = s - np.nanmax(s) * r.choice([.001, .02])         # negative at night
        if k % 5 == 0:     # same 90th percentile
            s = s * np.percentile(a[~np.isnan(a)], 90) / np.percentile(s[~np.isnan(s)], 90)
        out.append(dict(base, a=[float(x) for x in a], s=[float(x) for x in s], tz=[None, "Asia/Tokyo"][k % 2],
                        maxit=int(r.choice([100, 100, 3, 50])), thr=float(r.choice([1e-6, 1e-6, 1e-3]))))
    for k in range(c.scale(60, 400)):
        n = int(r.integers(5, 40))
        s = 1000 * r.random(n)
        s[int(r.integers(n))] = 990
        f = float(r.choice([.25, .5, 1, 2, 3, 40]))
        a = s.copy()
        s = s / f
        cp = dict(base, a=[float(x) for x in a], s=[float(x) for x in s], copy=True, truth=f)
        out.append(cp)
        out.append(dict(cp, method="single_opt"))
    for k in range(c.scale(60, 400)):
        n = int(r.integers(5, 40))
        s = 1000 * r.random(n); a = s * r.choice([1, 1, .4, .9, 1.1], n) * r.uniform(.9, 1.1)
        out.append(dict(base, method="single_opt", a=[float(x) for x in a], s=[float(x) for x in s]))
    # identical 90th percentile, different clear-sky factor
    for k in range(c.scale(20, 60)):
        n = 11
        s = np.sort(r.uniform(250, 900, n)); a = s * r.uniform(.85, .95); a[-2:] = s[-2:]
        out.append(dict(base, a=[float(x) for x in a], s=[float(x) for x in s]))
    # two-cycles of the iteration
    for k in range(c.scale(200, 2000)):
        n = int(r.integers(3, 7))
        s = r.uniform(250, 1000, n); a = s * r.choice([.5, .62, .7, .8, 1, 1.2, 1.4], n)
        out.append(dict(base, a=[float(x) for x in a], s=[float(x) for x in s], maxit=int(r.choice([1, 2, 4, 100]))))
    b = dict(base, a=[300., 500., 700.], s=[300., 500., 700.], refuse="ValueError", why="unknown method")
    out += [dict(b, method=m) for m in ("iterate", "", "ITERATIVE", "single")]
    return out


def run(c):
    model = c.model("MC_Rescale")
    r = c.rng()
    ev = pmap(execute, cases(c, model, r))
    c.cov["convergence_errors"] = sum(e["err"] == "ConvergenceError" for e, _ in ev)
    c.sample(ev[0][0])
    c.assumptions += ["the implementation's simplex search is credited with a relative accuracy of 5e-4"]
    c.validate("TV_Rescale", ev)


if __name__ == "__main__":
    main("C11", run)
