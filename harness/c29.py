"""C29 the learned clipping filter: what its model is shown and what follows from the answers.
The trained model is the environment: its predictions are recorded at its boundary, and on request replaced by chosen ones."""
from rdv import *
import warnings
import numpy as np
import pandas as pd
from c07 import day, build, MIN

PROBE = {"rows": None, "asked": 0}


def answers(case, X):
    a = case.get("answer")
    n = len(X)
    if a == "model":
        return None
    if a == "said":                       # indexed by the position in the record
        at = {t: y for t, y in zip(case["_ix"], case["said"])}
        return np.array([1 if at.get(t, False) else 0 for t in X.index])
    r = np.random.default_rng(case["aseed"])
    if a == "none":
        return np.zeros(n, int)
    if a == "all":
        return np.ones(n, int)
    if a == "top":                        # near each day's top, with slips
        top = np.asarray(X["percent_daily_max"]) > r.choice([.9, .94, .97, .99]) if "percent_daily_max" in X else np.ones(n, bool)
        return (top & (r.random(n) < r.choice([.3, .7, 1.]))).astype(int)
    if a == "below":                      # only readings somewhat below the day's top
        q = np.asarray(X["percent_daily_max"]) if "percent_daily_max" in X else np.ones(n)
        u = r.choice([.91, .93, .95, .96, .98])
        return ((q > u - .03) & (q < u)).astype(int)
    return (r.random(n) < r.choice([.02, .1, .4])).astype(int)


def boundary():
    """Record what the trained classifier is shown; returns an undo function."""
    import xgboost as xgb
    real = xgb.XGBClassifier.predict

    def predict(self, X, *a, **k):
        PROBE["asked"] += 1
        PROBE["rows"] = X.copy() if isinstance(X, pd.DataFrame) else None
        y = answers(PROBE["case"], X) if isinstance(X, pd.DataFrame) else None
        if y is None:
            y = real(self, X, *a, **k)
        PROBE["yes"] = [bool(v) for v in y]
        return y
    xgb.XGBClassifier.predict = predict

    def undo():
        xgb.XGBClassifier.predict = real
    return undo


def execute(case):
    from rdtools import filtering
    ev = dict(err="", index=True, asked=True, rows=[], cols=[], x=[], yes=[], same=True)
    undo = boundary()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            s = build(case)
            keep0 = s.copy()
            PROBE.update(rows=None, asked=0, yes=[], case=dict(case, _ix=list(s.index)))
            kw = {} if case["mount"] == "fixed" else dict(mounting_type=case["mount"])
            k = filtering.xgboost_clip_filter(s, **kw)
            ev["same"] = bool(s.equals(keep0) and s.name == keep0.name)
            ev["index"] = bool(isinstance(k, pd.Series) and k.index.equals(s.index) and k.dtype == bool)
            ev["asked"] = PROBE["asked"] >= 1
            X = PROBE["rows"]
            m0 = s.index[0].normalize()
            mids = pd.date_range(m0, s.index[-1].normalize(), freq="D")
            if X is not None and len(X) and PROBE["asked"] == 1:
                ev.update(rows=secs(X.index, m0, MIN), cols=[str(q) for q in X.columns], x=[nums(X[q].values) for q in X.columns], yes=PROBE["yes"])
            ev.update(t=secs(s.index, m0, MIN), mid=secs(mids, m0, MIN), p=nums(s.values), keep=[bool(x) for x in np.asarray(k)], f=case["f"], mount=case["mount"])
    except Exception as e:
        ev["err"] = exc_name(e)
    finally:
        undo()
    return ev, case


MOUNTS = ["fixed", "single_axis_tracking"]
ANS = ["model", "top", "top", "some", "top", "all", "model", "some", "none", "below", "below"]
KINDS = ["sun", "clip", "noisy", "two", "low", "cloud", "frozen", "touch", "gap", "shoulder", "steps", "clip", "noisy"]


def cases(c, model, r):
    out = []
    model = [model[k] for k in r.permutation(len(model))[:c.scale(300, 3000)]]
    for k, m in enumerate(model):
        out.append(dict(start="2021-03-01", f=240, p=[float(x) for d in m["rec"] for x in d], answer="said", said=m["said"], mount=MOUNTS[k % 2], tz=None))
    for k in range(c.scale(150, 1500)):
        f = int(r.choice([60, 30, 15, 10, 5, 20, 60, 30, 15, 59, 9]) if k % 8 else r.choice([1, 2, 4, 3, 4, 3]))
        f = {59: 45, 9: 8}.get(f, f)
        nd = {60: 5, 45: 4, 30: 4, 20: 3, 15: 3, 10: 2, 8: 2, 5: 1, 4: 1, 3: 1, 2: 1, 1: 1}[f]
        kinds = [str(x) for x in r.choice(KINDS, nd)]
        p = np.concatenate([day(x, f, r) for x in kinds])
        if k % 4 == 1:
            p = p - r.choice([3., 20., 150.])               # night consumption
        if k % 5 == 2:
            p[r.random(len(p)) < .04] = np.nan
        p = np.round(p * r.choice([1., 1., 5., .004, 3000.]), 6)
        d = dict(start="2021-03-01", f=f, p=[float(x) for x in p], kinds=kinds, mount=MOUNTS[int(r.integers(2))], answer=ANS[k % len(ANS)], aseed=int(r.integers(10**6)),
                 tz=[None, "Etc/GMT+7", "America/Denver", "Asia/Kolkata"][k % 4])
        if d["tz"] == "America/Denver":
            d.update(start=["2021-03-13", "2021-11-06"][k % 8 // 4], tzabs=True)
        elif k % 3 == 0 and f >= 5:                         # lost readings; the regular record is restored from the rest
            ix = pd.date_range(d["start"], periods=len(p), freq=f"{f}min")
            sel = np.where(r.random(len(p)) > .05)[0]
            d.update(ix=[str(t) for t in ix[sel]], p=[float(x) for x in p[sel]])
        elif k % 7 == 0:                                    # starting off the hour
            d["start"] = "2021-03-01 07:%02d" % int(r.integers(1, 60))
        out.append(d)
    return out


def run(c):
    model = c.model("MC_Learned")
    r = c.rng()
    ev = pmap(execute, cases(c, model, r))
    c.cov["excluded_points"] = sum(sum(not x for x in e.get("keep", [])) for e, _ in ev)
    c.cov["rows_shown"] = sum(len(e["rows"]) for e, _ in ev)
    c.sample(ev[0][0])
    c.assumptions += ["the trained model is the environment: its predictions are recorded (or chosen) at XGBClassifier.predict, its weights are not judged",
                      "records whose decisions fall within 1e-9 of a threshold are undetermined"]
    c.validate("TV_Learned", ev)


if __name__ == "__main__":
    main("C29", run)
