"""C05 threshold filters; also used by C22 (robust statistics)."""
from rdv import *
import warnings
import numpy as np
import pandas as pd

INF = float("inf")
IDX = ["2020-01-01", "2019-03-31"]


def val(v):
    return {99999: float("nan"), 88888: INF, 77777: -INF, 66666: -3.0}.get(v, float(v))


def series(v, k=0, name=None):
    if k % 3 == 2:
        ix = pd.RangeIndex(len(v))
    else:
        ix = pd.date_range("2020-03-29", periods=len(v), freq="h", tz=[None, "Europe/London"][k % 3])
    return pd.Series(v, index=ix, dtype=float, name=name)


def execute(case):
    import rdtools
    k = case["k"]
    s = series(case["s"], k, [None, "x"][k % 2])
    ev = dict(op=case["op"], s=nums(s), c=nums(case.get("c", [])), lo=num(case.get("lo", 0)), hi=num(case.get("hi", 0)),
              thr=num(case.get("thr", 0)), q=num(case.get("q", 0)), ex=[], exact=bool(case.get("exact", False)),
              err="", mask=[], out="0", shape_ok=True, refuse=case.get("refuse", ""))
    kw = dict(case.get("kw", {}))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            op = case["op"]
            if op == "normalized":
                m = rdtools.normalized_filter(s, **kw)
            elif op == "poa":
                m = rdtools.poa_filter(s, **kw)
            elif op == "tcell":
                m = rdtools.tcell_filter(s, **kw)
            elif op == "csi":
                c = series(case["c"], k)
                thr = case["thr"]
                for a, b in zip(case["s"], case["c"]):
                    ok = np.isfinite(a) and np.isfinite(b) and b != 0
                    ok = ok and Fraction(a) / Fraction(b) == Fraction(a / b)
                    ok = ok and 1 - Fraction(thr) == Fraction(1.0 - thr) and 1 + Fraction(thr) == Fraction(1.0 + thr)
                    ev["ex"].append(bool(ok))
                if case.get("via"):
                    m = rdtools.clearsky_filter(s, c, model="csi", **kw)
                else:
                    m = rdtools.csi_filter(s, c, **kw)
            elif op == "quantile":
                m = rdtools.clip_filter(s, model="quantile", **kw) if case.get("via") else rdtools.quantile_clip_filter(s, **kw)
            elif op == "insolation":
                m = rdtools.insolation_filter(s, **kw)
            elif op == "clip_model":
                m = rdtools.clip_filter(s, model=case["model"])
            elif op == "cs_model":
                m = rdtools.clearsky_filter(s, s, model=case["model"])
            else:
                ev["out"] = num(getattr(rdtools, op)(s, **kw))
                return ev, case
        ev["mask"] = [bool(x) for x in m]
        ev["shape_ok"] = bool(isinstance(m, pd.Series) and m.index.equals(s.index) and m.dtype == bool)
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def from_model(c, k):
    v = [val(x) for x in c["v"]]
    lo, hi = val(c["lo"]), val(c["hi"])
    op = ["normalized", "poa", "tcell"][k % 3]
    kw = {}
    names = {"normalized": "energy_normalized", "poa": "poa_global", "tcell": "temperature_cell"}[op]
    if op == "normalized" and hi == INF and k % 2:
        kw[names + "_high"] = None
    elif not (op == "normalized" and hi == INF and k % 5 == 0):
        kw[names + "_high"] = hi
    kw[names + "_low"] = lo
    return dict(op=op, s=v, lo=lo, hi=hi, kw=kw, k=k)


DEFAULTS = dict(normalized=(.01, INF), poa=(200., 1200.), tcell=(-50., 110.))
ARG = {"normalized": "energy_normalized", "poa": "poa_global", "tcell": "temperature_cell"}


def rand_case(r, k):
    op = ["normalized", "poa", "tcell", "csi", "csi", "quantile", "insolation", "insolation"][k % 8]
    n = int(r.integers(1, 60))
    if op in ARG:
        lo, hi = DEFAULTS[op]
        kw = {}
        u = r.random()
        if u < .5:
            lo = float(r.choice([-1, 0, .01, 200, .5, -50]))
            kw[ARG[op] + "_low"] = lo
        if r.random() < .5:
            hi = float(r.choice([1, 1.5, 100, 1200, 110, 2]))
            kw[ARG[op] + "_high"] = hi
        if op == "normalized" and r.random() < .3:
            kw["energy_normalized_low"] = None
            lo = -INF
        if op == "normalized" and r.random() < .3:
            kw["energy_normalized_high"] = None
            hi = INF
        pool = [lo, hi, np.nextafter(lo, INF), np.nextafter(lo, -INF), np.nextafter(hi, INF), np.nextafter(hi, -INF), np.nan, INF, -INF, 0., -0., lo + 1e-7, lo - 1e-7, hi + 1e-7, hi - 1e-7]
        s = [float(r.choice(pool)) if r.random() < .5 else float(r.normal(0, 200)) for _ in range(n)]
        return dict(op=op, s=s, lo=lo, hi=hi, kw=kw, k=k)
    if op == "csi":
        thr = float(r.choice([.15, .15, .25, .125, .5, .1, 0.0]))
        c = r.choice([1024., 512., 1000., 800., 640., 0., 37.5, np.nan], size=n)
        f = [1 - thr, 1 + thr, 1., (1 - thr) * (1 - 3e-8), (1 + thr) * (1 + 3e-8), (1 - thr) * (1 + 3e-8), 1 - thr - .01, 1 + thr + .01, .25, 0, 3, np.nan]
        s = [float(a * r.choice(f)) if r.random() < .8 else float(r.random() * 1500) for a in c]
        kw = {} if thr == .15 else dict(threshold=thr)
        return dict(op=op, s=s, c=[float(x) for x in c], thr=thr, kw=kw, via=bool(r.random() < .3), k=k)
    if op == "quantile":
        q = float(r.choice([.98, .98, .9, .5, .75]))
        s = r.random(n) * 1000
        if r.random() < .5:
            s = np.minimum(s, 700.)
        s = np.where(r.random(n) < .3, r.choice([0, -1, np.nan, 1e-3]), s)
        return dict(op=op, s=[float(x) for x in s], q=q, kw={} if q == .98 else dict(quantile=q), via=bool(r.random() < .3), k=k)
    q = float(r.choice([.1, .1, .25, .5, 0., 1., .05]))
    exact = False
    s = r.random(n) * 8000
    if q in (0., 1., .25, .5):
        exact = True
        s = r.integers(0, 6, n) * 4.0
    if r.random() < .3:
        s = np.where(r.random(n) < .3, np.nan, s)
    return dict(op="insolation", s=[float(x) for x in s], q=q, exact=exact, kw={} if q == .1 else dict(quantile=q), k=k)


def special():
    out = []
    for m in ("median", "", None, "Logic"):
        out.append(dict(op="clip_model", model=m, s=[1., 2.] * 20, k=0, refuse="ValueError"))
    for m in ("PVLIB", "", None, "csi_filter"):
        out.append(dict(op="cs_model", model=m, s=[1., 2.] * 20, k=0, refuse="ValueError"))
    return out


def run(c):
    cases = c.model("MC_Threshold")
    full = len(cases)
    r = c.rng()
    n = c.scale(3000, len(cases))
    if len(cases) > n:
        cases = [cases[i] for i in sorted(r.permutation(len(cases))[:n])]
    items = [from_model(x, k) for k, x in enumerate(cases)] + special()
    items += [rand_case(r, k) for k in range(c.scale(8000, 60000))]
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(emitted=full, replayed=len(cases), random=len(items) - len(cases))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.validate("TV_Threshold", ev)


if __name__ == "__main__":
    main("C05", run)
