"""C14 annual and monthly soiling summaries."""
from rdv import *
import warnings
import numpy as np
import pandas as pd

EPOCH = pd.Timestamp("1970-01-01")


def dayno(t):
    return int((pd.Timestamp(t).tz_localize(None).normalize() - EPOCH).days)


def annual(case):
    from rdtools import soiling
    r = np.random.default_rng(case["seed"])
    ix = pd.date_range(case["day0"], periods=case["n"], freq="D", tz=case["tz"])
    prof = []
    for k in range(case["m"]):
        cut = slice(None) if not case["ragged"] else slice(int(r.integers(0, min(20, len(ix) // 3))), len(ix) - int(r.integers(0, min(20, len(ix) // 3))))
        v = np.round(1 - np.abs(np.cumsum(r.normal(0, .004, len(ix)))) * r.uniform(0, 3), 6)
        prof.append(pd.Series(v, ix, name="stochastic_soiling_profile")[cut])
    wx = pd.date_range(ix[0] - pd.Timedelta(days=3), periods=case["n"] + 9, freq="D") if case["tz"] is None else ix
    insol = pd.Series(np.round(r.uniform(.2, 9, len(wx)), 3), wx)
    if case["holes"]:
        insol.iloc[r.integers(0, len(insol), 12)] = np.nan
        insol = insol.drop(insol.index[[15, 30]])
    ev = dict(op="annual", cl=num(case["cl"]), err="")
    kw = {} if case["cl"] == 68.2 else dict(confidence_level=case["cl"])
    out = soiling.annual_soiling_ratios(prof, insol, **kw)
    both = prof[0].index
    for p in prof[1:]:
        both = both.intersection(p.index)
    ev.update(day0=dayno(both[0]), off=[dayno(t) - dayno(both[0]) for t in both], insol=nums(insol.reindex(both).values),
              prof=[nums(p.reindex(both).values) for p in prof],
              rows=[dict(year=int(x.year), median=num(x.soiling_ratio_median), low=num(x.soiling_ratio_low), high=num(x.soiling_ratio_high)) for x in out.itertuples()])
    return ev


def monthly(case):
    from rdtools import soiling
    t = pd.DataFrame([dict(start=EPOCH + pd.Timedelta(days=x["first"]), end=EPOCH + pd.Timedelta(days=x["last"]), soiling_rate=x["rate"],
                           soiling_rate_low=x["low"], soiling_rate_high=x["high"], inferred_start_loss=1.0, inferred_end_loss=.9,
                           length=x["last"] - x["first"], valid=x["valid"]) for x in case["iv"]])
    if case.get("tz"):
        for k in ("start", "end"):
            t[k] = t[k].dt.tz_localize(case["tz"])
    kw = dict(reps=case["reps"])
    for k, a in (("minlen", "min_interval_length"), ("maxerr", "max_relative_slope_error"), ("cl", "confidence_level")):
        if case.get(k) is not None:
            kw[a] = case[k]
    np.random.seed(case["seed"])
    out = soiling.monthly_soiling_rates(t, **kw)
    return dict(op="monthly", err="", minlen=14 if case.get("minlen") is None else case["minlen"], maxerr=num(500.0 if case.get("maxerr") is None else case["maxerr"]),
                cl=num(68.2 if case.get("cl") is None else case["cl"]), reps=case["reps"],
                iv=[dict(first=x["first"], last=x["last"], length=x["last"] - x["first"], valid=x["valid"], rate=num(x["rate"]), low=num(x["low"]), high=num(x["high"])) for x in case["iv"]],
                rows=[dict(month=int(x.month), median=num(x.soiling_rate_median), low=num(x.soiling_rate_low), high=num(x.soiling_rate_high), count=int(x.interval_count)) for x in out.itertuples()])


def execute(case):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return (annual if case["op"] == "annual" else monthly)(case), case
    except Exception as e:
        return dict(op=case["op"], err=exc_name(e)), case


def cases(c, model, r):
    out = []
    for k in range(c.scale(60, 400)):
        out.append(dict(op="annual", seed=int(r.integers(1e9)), day0=str(pd.Timestamp("2015-01-01") + pd.Timedelta(days=int(r.integers(0, 1500))))[:10],
                        n=int(r.integers(30, [120, 800][k % 6 == 0])), m=int(r.integers(1, [30, 8][k % 6 == 0])), tz=[None, None, "America/Denver", "Asia/Tokyo"][k % 4],
                        ragged=k % 3 == 0, holes=k % 5 == 0, cl=float(r.choice([68.2, 95, 50, 90]))))
    for m in [model[k] for k in r.permutation(len(model))[:c.scale(400, 1500)]]:
        iv = [dict(first=x[0], last=x[0] + x[1], low=x[2] / 1000, high=x[3] / 1000, rate=(x[2] + x[3]) / 2000, valid=True) for x in m["tab"]]
        out.append(dict(op="monthly", iv=iv, reps=20000, seed=int(r.integers(1e6)), minlen=2, cl=float(r.choice([68.2, 90])), maxerr=1e6))
    for k in range(c.scale(120, 800)):
        iv, d = [], int(r.integers(16000, 19000))
        for _ in range(int(r.integers(1, 22))):
            n = int(r.choice([r.integers(1, 20), r.integers(10, 90)] if k % 8 != 1 else [r.integers(10, 60), r.integers(300, 460), r.integers(700, 800)]))
            rate = -r.uniform(.0002, .004)
            lo, hi = rate * r.uniform(1.05, 4.5), rate * r.uniform(0, .95)
            iv.append(dict(first=d, last=d + n, rate=float(rate), low=float(lo), high=float(hi), valid=bool(r.random() < .8)))
            d += n + 1 + (int(r.integers(0, 40)) if r.random() < .1 else 0)
            if r.random() < .05:
                d += 250
        if k % 4 == 0:
            iv = [iv[j] for j in r.permutation(len(iv))]
        b = dict(op="monthly", iv=iv, reps=20000, seed=int(r.integers(1e6)), tz=[None, "America/Denver"][k % 2])
        if k % 5:
            b.update(minlen=int(r.choice([5, 14, 30])), maxerr=float(r.choice([100, 200, 500, 300])), cl=float(r.choice([68.2, 95, 50])))
        out.append(b)
    return out


def run(c):
    model = c.model("MC_SoilSummary")
    r = c.rng()
    ev = pmap(execute, cases(c, model, r))
    c.sample(ev[-1][0])
    c.assumptions += ["monthly percentiles judged within six standard errors of the level they claim (20000 draws)"]
    c.validate("TV_SoilSummary", ev)


if __name__ == "__main__":
    main("C14", run)
