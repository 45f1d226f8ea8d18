"""C09 bootstrap uncertainty."""
from rdv import *
import warnings
import numpy as np
import pandas as pd


def series(case):
    r = np.random.default_rng(case["seed"])
    ix = pd.date_range(case["start"], periods=case["n"], freq=case["freq"])
    t = (ix - ix[0]) / pd.Timedelta("365d")
    v = 1 + case["rd"] / 100 * t + r.normal(0, case["noise"], len(ix))
    if case.get("skew"):
        v = v - np.abs(r.standard_t(2, len(ix))) * case["noise"]
    s = pd.Series(v, ix)
    if case.get("holes"):
        s[r.random(len(s)) < case["holes"]] = np.nan
    return s


def execute(case):
    import rdtools
    op = case["op"]
    ev = dict(op=op, refuse=case.get("refuse", ""), why=case.get("why", ""), err="")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(case["seed"] % 2**31)
            if op == "blocks":
                blocks(case, ev)
                return ev, case
            s = series(case)
            if case.get("irregular"):
                s = s.drop(s.index[[3, 7]])
            kw = {}
            if case.get("cl", 68.2) != 68.2:
                kw["confidence_level"] = case["cl"]
            if case.get("ep", 95) != 95:
                kw["exceedance_prob"] = case["ep"]
            if op == "simple":
                rate, ci, info = rdtools.degradation_year_on_year(s, **kw)
                ev.update(slopes=nums(info["YoY_values"]), lo=num(ci[0]), hi=num(ci[1]), plevel=num(info["exceedance_level"]),
                          cl=num(case["cl"]), ep=num(case["ep"]))
            elif op == "circular":
                rate, ci, info = rdtools.degradation_year_on_year(s, uncertainty_method="circular_block", block_length=case["L"], **kw)
                ev.update(rates=nums(info["bootstrap_rates"]), lo=num(ci[0]), hi=num(ci[1]), plevel=num(info["exceedance_level"]),
                          cl=num(case["cl"]), ep=num(case["ep"]), rate=num(rate), clean=case["noise"] < .002)
            elif op == "nested":
                los, his = [], []
                for cl in case["levels"]:
                    np.random.seed(case["seed"] % 2**31)
                    _, ci, _ = rdtools.degradation_year_on_year(s, confidence_level=cl)
                    los.append(ci[0]), his.append(ci[1])
                ev.update(los=nums(los), his=nums(his))
            elif op == "rate":
                rates, bare = [], True
                for k in range(3):
                    np.random.seed(k)
                    rates.append(rdtools.degradation_year_on_year(s)[0])
                for m in ("none", None, "other"):
                    x = rdtools.degradation_year_on_year(s, uncertainty_method=m)
                    bare = bare and np.ndim(x) == 0 and not isinstance(x, tuple)
                    rates.append(x if bare else np.nan)
                rates.append(rdtools.degradation_year_on_year(s, confidence_level=95, exceedance_prob=90)[0])
                if case.get("circ"):
                    rates.append(rdtools.degradation_year_on_year(s, uncertainty_method="circular_block", block_length=4)[0])
                ev.update(rates=nums(rates), bare=bool(bare))
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def blocks(case, ev):
    from rdtools import bootstrap
    r = np.random.default_rng(case["seed"])
    n, L = case["n"], case["L"]
    ix = pd.date_range("2020-01-01", periods=n)
    fit = pd.Series(5 + 2 * r.random(n), ix)
    res = r.permutation(n) * .01 + 1.
    add = case["kind"] == "additive"
    sig = fit + res if add else fit * res
    kw = dict(decomposition_type=case["kind"]) if add or case["seed"] % 2 else {}
    out = bootstrap._make_time_series_bootstrap_samples(sig, fit, sample_nr=case["nr"], block_length=L, bootstrap_seed=case["seed"], **kw)
    idx = []
    for b in range(case["nr"]):
        col = out.iloc[:, b].astype(float)
        q = (col - fit if add else col / fit).values
        row = []
        for x in q:
            j = int(np.argmin(abs(res - x)))
            row.append(j + 1 if abs(res[j] - x) < 1e-6 else 0)
        idx.append(row)
    ev.update(idx=idx, n=n, L=L)


def cases(c, r):
    out = []
    for k in range(c.scale(60, 800)):
        n = int(r.choice([3, 4, 5, 7, 11, 25, 60])) + 12 if k % 3 else int(r.choice([120, 161, 209]))
        freq = "MS" if k % 3 else "7D"
        n = max(n, 27) if freq == "MS" else n
        out.append(dict(op="simple", start="2015-01-01", n=n, freq=freq, seed=int(r.integers(1e9)), rd=float(r.choice([-.5, -1, 2])),
                        noise=float(r.choice([.005, .05])), skew=bool(k % 2), holes=float(r.choice([0, 0, .1])),
                        cl=float(r.choice([68.2, 68.2, 90, 50, 95, 20, 99, 97])), ep=float(r.choice([95, 95, 90, 50, 10, 99]))))
    for k in range(c.scale(2, 12)):
        out.append(dict(op="simple", start="2015-01-01", n=1100 + 300 * k, freq="D", seed=int(r.integers(1e9)), rd=-.7, noise=.03, skew=bool(k % 2), holes=0,
                        cl=[68.2, 90][k % 2], ep=95))
    for k in range(c.scale(8, 60)):
        out.append(dict(op="circular", start="2016-01-01", n=int(r.choice([30, 36, 41])), freq="MS", seed=int(r.integers(1e9)), L=int(r.choice([3, 6, 9])),
                        rd=float(r.choice([-3, 2, -6])), noise=float(r.choice([.0005, .03])), cl=float(r.choice([68.2, 90, 50, 98])), ep=float(r.choice([95, 80, 40]))))
    for k in range(c.scale(12, 100)):
        out.append(dict(op="nested", start="2015-01-01", n=int(r.choice([40, 61])), freq="MS", seed=int(r.integers(1e9)), rd=-1., noise=.03, levels=[30, 60, 80, 95, 99, 99.8]))
    for k in range(c.scale(8, 60)):
        out.append(dict(op="rate", start="2015-01-01", n=int(r.choice([40, 61])), freq="MS", seed=int(r.integers(1e9)), rd=-1., noise=.03, circ=k % 4 == 0))
    b = dict(op="circular", start="2016-01-01", n=30, freq="MS", seed=1, rd=-1., noise=.01, cl=68.2, ep=95, refuse="ValueError")
    out.append(dict(b, L=11, why="block longer than a third of the series"))
    out.append(dict(b, L=4, irregular=True, why="irregular series"))
    out.append(dict(b, L=30, why="block longer than a third of the series"))
    return out


def run(c):
    c.model("MC_Bootstrap")
    r = c.rng()
    items = cases(c, r)
    for n, L, kind in [(n, L, kind) for n in (3, 4, 6, 7, 10, 31) for L in (1, 2, 3, 5, 7, 30) for kind in ("multiplicative", "additive") if L <= n]:
        items.append(dict(op="blocks", n=n, L=L, kind=kind, seed=int(r.integers(1e6)), nr=c.scale(80 * L if n < 20 else 60, 600)))
    ev = pmap(execute, items)
    # private resampler gone: its replicates are then judged only through the reported rates
    gone = [e for e in ev if e[0]["op"] == "blocks" and e[0]["err"] in ("ImportError", "AttributeError", "ModuleNotFoundError")]
    ev = [e for e in ev if not any(e is g for g in gone)]
    c.cov["resampler_observed"] = not gone
    c.sample(ev[0][0])
    c.assumptions += ["10000 replicates in the simple bootstrap; percentiles accepted within six standard errors"]
    c.validate("TV_Bootstrap", ev)


if __name__ == "__main__":
    main("C09", run)
