"""C12 soiling intervals."""
from rdv import *
import warnings
import numpy as np
import pandas as pd


def build(case):
    """Inputs of the analysis: performance, insolation, precipitation (with days outside the record)."""
    n = len(case["p"])
    pre, post = case.get("pre", 0), case.get("post", 0)
    ix = pd.date_range(case.get("day0", "2019-02-03"), periods=n + pre + post, freq="D", tz=case.get("tz"))
    pm = pd.Series([np.nan] * pre + list(case["p"]) + [np.nan] * post, ix, name=case.get("name"))
    rain = pd.Series([0.5] * pre + list(case["rain"]) + [0.5] * post, ix) if case.get("rain") is not None else None
    rng = np.random.default_rng(case.get("iseed", 1))
    insol = pd.Series(rng.uniform(.5, 8, len(ix)), ix)
    return pm, insol, rain


def options(case):
    kw = {}
    if case.get("w") is not None:
        kw["day_scale"] = case["w"]
    for k, a in [("thr", "clean_threshold"), ("factor", "outlier_factor"), ("criterion", "clean_criterion"), ("rthr", "precip_threshold"),
                 ("trim", "trim"), ("minlen", "min_interval_length"), ("maxerr", "max_relative_slope_error"), ("maxneg", "max_negative_step"),
                 ("recenter", "recenter"), ("method", "method")]:
        if case.get(k) is not None:
            kw[a] = case[k]
    return kw


def table(df, first):
    def day(t):
        return int(round((t.tz_localize(None) - first.tz_localize(None)) / pd.Timedelta("1D"))) + 1
    return [dict(start=day(r.start), end=day(r.end), length=int(r.length), valid=bool(r.valid), rate=num(r.soiling_rate), low=num(r.soiling_rate_low),
                 high=num(r.soiling_rate_high), isl=num(r.inferred_start_loss), iel=num(r.inferred_end_loss)) for r in df.itertuples()]


def execute(case):
    from rdtools import soiling
    ev = dict(p=nums(case["p"]), rain=nums(case["rain"] if case.get("rain") is not None else [0.0] * len(case["p"])), w=case.get("w") or 13,
              criterion=case.get("criterion") or "shift", thr="infer" if case.get("thr") in (None, "infer") else num(case["thr"]),
              factor=num(case.get("factor") or 1.5), rthr=num(case["rthr"] if case.get("rthr") is not None else 0.01), trim=bool(case.get("trim")),
              minlen=7 if case.get("minlen") is None else case["minlen"], maxerr=num(500.0 if case.get("maxerr") is None else case["maxerr"]),
              maxneg=num(.05 if case.get("maxneg") is None else case["maxneg"]), recenter=case.get("recenter") is not False,
              err="", refuse=case.get("refuse", ""), why=case.get("why", ""))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pm, insol, rain = build(case)
            if case.get("damage") == "pm":
                pm = pm.drop(pm.index[4])
            if case.get("damage") == "insol":
                insol = insol.drop(insol.index[4])
            if case.get("damage") == "rain":
                rain = rain.drop(rain.index[4])
            np.random.seed(case.get("iseed", 1))
            sr, ci, info = soiling.soiling_srr(pm, insol, reps=2, precipitation_daily=rain, **options(case))
            first = pm.first_valid_index()
            ev.update(iv=table(info["soiling_interval_summary"], first), renorm=num(info["renormalizing_factor"]),
                      perfect=nums(info["soiling_ratio_perfect_clean"].values))
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def sawtooth(r, n, noise=.004, gaps=True, rise=.5):
    """A soiling-like record: declines, cleanings, gaps, zeros, drops and rising stretches."""
    p, level, k = [], 1.0, 0
    slope = 0
    while len(p) < n:
        if k == 0:
            k = int(r.integers(3, 60))
            slope = -r.uniform(.0005, .006) if r.random() > .15 else r.uniform(0, .003)
            level = min(1.0, level + r.uniform(.02, .15)) if r.random() < .9 else level - r.uniform(.03, .1)
            level = max(level, .3)
        p.append(level + r.normal(0, noise)); level += slope; k -= 1
    p = np.array(p)
    if gaps:
        for _ in range(int(r.integers(0, 4))):
            a, m = int(r.integers(0, n)), int(r.integers(1, 40))
            p[a:a + m] = np.nan
        for _ in range(int(r.integers(0, 3))):
            a, m = int(r.integers(0, n)), int(r.integers(1, 6))
            p[a:a + m] = r.choice([0., 0., -.02, .003])
        p[r.random(n) < r.choice([0, .05])] = np.nan
        if np.isnan(p[0]):
            p[0] = .97
        if np.isnan(p[-1]):
            p[-1] = .95
    return [float(x) for x in p]


def cases(c, model, r):
    out = []
    crit = ["shift", "precip", "precip_or_shift", "precip_and_shift"]
    for m in [model[k] for k in r.permutation(len(model))[:c.scale(900, 8000)]]:
        b = dict(p=missing(m["p"]), rain=[float(x) for x in m["rain"]], w=m["w"], criterion=str(r.choice(crit)), rthr=.5, thr=1.0, minlen=int(r.choice([1, 1, 2, 3])),
                 maxerr=float(r.choice([50, 500, 1e9, 1e9])), maxneg=float(r.choice([.5, 2.5, 2.5, 2.5])), recenter=bool(r.random() < .3), trim=bool(r.random() < .12),
                 pre=int(r.integers(0, 2)), post=int(r.integers(0, 2)))
        if r.random() < .3:
            b["thr"] = .25
        out.append(b)
    for k in range(c.scale(300, 2000)):
        n = int(r.integers(25, [140, 420][k % 5 == 0]))
        b = dict(p=sawtooth(r, n, noise=float(r.choice([.0005, .004, .015]))), pre=int(r.integers(0, 12)), post=int(r.integers(0, 12)),
                 tz=[None, "America/Denver", "UTC", None][k % 4] if n < 200 else None, iseed=int(r.integers(1e6)), name=[None, "pr"][k % 2])
        if k % 7 != 0:           # one in seven with every default
            b["w"] = int(r.choice([1, 3, 5, 7, 13, 14, 4]))
            b["criterion"] = crit[k % 4]
            b["thr"] = [None, "infer", float(r.uniform(.005, .05))][k % 3]
            b["factor"] = float(r.choice([1.5, .5, 3]))
            b["rthr"] = float(r.choice([.01, .3]))
            b["trim"] = bool(r.random() < .3)
            b["minlen"] = int(r.choice([2, 7, 14]))
            b["maxerr"] = float(r.choice([100, 500, 30]))
            b["maxneg"] = float(r.choice([.05, .01, .2]))
            b["recenter"] = bool(r.random() < .6)
        if k % 4 or r.random() < .5:
            q = np.where(r.random(n) < .05, r.uniform(0, .6, n), 0.0)
            q[r.random(n) < .02] = np.nan
            b["rain"] = [float(x) for x in q]
        elif b.get("criterion") in ("precip", "precip_and_shift"):
            b["criterion"] = "shift"
        if k % 11 == 0:
            b["day0"] = "2019-03-01"     # daylight saving inside
        if b.get("recenter", True) and np.median(np.nan_to_num(b["p"])[:366]) == 0:
            b["recenter"] = False        # nothing to centre on: the record has no median performance
        out.append(b)
    for k in range(c.scale(60, 400)):         # rain on the day of a sudden loss, small steps around the limit
        n = int(r.integers(40, 90))
        p = np.array(sawtooth(r, n, noise=.0008, gaps=False))
        rain = np.zeros(n)
        for _ in range(3):
            a = int(r.integers(8, n - 5)); rain[a] = 1.
            p[a:] -= r.choice([.02, .045, .055, .1])
        p = p - min(0, p.min() - .1)
        out.append(dict(p=[float(x) for x in p], rain=[float(x) for x in rain], w=int(r.choice([1, 1, 3, 5])), criterion="precip", minlen=int(r.choice([2, 5, 7])), maxerr=500.,
                        maxneg=float(r.choice([.05, .04, .09])), recenter=bool(k % 2), iseed=k))
    good = dict(p=sawtooth(np.random.default_rng(3), 80, gaps=False), rain=[0.0] * 80)
    out.append(dict(good, criterion="rain", refuse="ValueError", why="unknown criterion"))
    out.append(dict(good, method="clean", refuse="ValueError", why="unknown cleaning method"))
    for d in ("pm", "insol", "rain"):
        out.append(dict(good, damage=d, refuse="ValueError", why=d + " is not daily"))
    return out


def run(c):
    model = c.model("MC_Soiling")
    r = c.rng()
    ev = pmap(execute, cases(c, model, r))
    c.sample(ev[0][0])
    c.cov["analysed"] = sum(e["err"] == "" for e, _ in ev)
    c.cov["no_valid_interval"] = sum(e["err"] == "NoValidIntervalError" for e, _ in ev)
    c.validate("TV_Soiling", ev)


if __name__ == "__main__":
    main("C12", run)
