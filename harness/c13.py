"""C13 stochastic soiling profiles."""
from rdv import *
import warnings
import numpy as np
import pandas as pd
from c12 import table, sawtooth


def record(case):
    """A record whose intervals have the given validity pattern (cleanings marked by rain)."""
    r = np.random.default_rng(case["seed"])
    p, rain = [], []
    for x in case["pat"]:
        if x == "V":
            m = int(r.integers(9, 22))
            s = r.uniform(.001, .012)
            top = r.uniform(.82, 1.0)
            v = top - s * np.arange(m) + r.normal(0, .004, m)
        else:
            m = int(r.integers(1, 7))
            v = r.uniform(.8, 1, m)
        p += list(v); rain += [1.0] + [0.0] * (m - 1)
    p = np.array(p)
    if case.get("holes"):
        for i in range(2, len(p) - 2):
            if r.random() < .04:
                p[i] = np.nan
    return p, rain


def execute(case):
    from rdtools import soiling
    ev = dict(op=case["op"], err="", method=case.get("method") or "half_norm_clean", reps=case["reps"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = np.random.default_rng(case["seed"] + 5)
            if "pat" in case:
                p, rain = record(case)
                kw = dict(clean_criterion="precip", max_negative_step=2.0)
                if case.get("trim"):
                    kw["trim"] = True
            else:
                p, rain = sawtooth(r, case["n"]), None
                kw = dict(max_negative_step=.2)
            ix = pd.date_range(case.get("day0", "2019-02-20"), periods=len(p), freq="D", tz=case.get("tz"))
            pm = pd.Series(p, ix)
            insol = pd.Series(np.round(r.uniform(.1, 9, len(p)), 3), ix)
            if case.get("holes"):
                insol.iloc[r.integers(0, len(p), 3)] = np.nan
            if case.get("method"):
                kw["method"] = case["method"]
            if case.get("cl"):
                kw.update(confidence_level=case["cl"], exceedance_prob=case["ex"])
            np.random.seed(case["seed"] % 2**31)
            sr, ci, info = soiling.soiling_srr(pm, insol, reps=case["reps"], precipitation_daily=None if rain is None else pd.Series(rain, ix), recenter=case.get("recenter", False), **kw)
            t = info["soiling_interval_summary"]
            prof = info["stochastic_soiling_profiles"]
            ev.update(iv=table(t, ix[0]))
            days = ix[ev["iv"][0]["start"] - 1:ev["iv"][-1]["end"]]
            if case["op"] == "full":
                ev.update(prof=[nums(q.values) for q in prof], insol=nums(insol.reindex(days).values), sr=num(sr), lo=num(ci[0]), hi=num(ci[1]), level=num(info["exceedance_level"]),
                          cl=num(case.get("cl") or 68.2), ex=num(case.get("ex") or 95.0), dates=all(q.index.equals(days) for q in prof))
            else:
                a = [x["start"] - ev["iv"][0]["start"] for x in ev["iv"]]
                b = [x["end"] - ev["iv"][0]["start"] for x in ev["iv"]]
                ev.update(ab=[[[num(q.iloc[i]), num(q.iloc[j])] for i, j in zip(a, b)] for q in prof])
    except Exception as e:
        ev["err"] = "" if exc_name(e) == "NoValidIntervalError" else exc_name(e)
        if ev["err"] == "":
            return None
    return ev, case


def cases(c, model, r):
    out = []
    methods = ["half_norm_clean", "random_clean", "perfect_clean"]
    pats = [m["pat"] for m in model]
    for _ in range(c.scale(60, 400)):
        k = int(r.integers(5, 26))
        pats.append([str(x) for x in r.choice(["V", "I"], k, p=[.6, .4])])
    for i, pat in enumerate(pats):
        b = dict(op="full", pat=pat, seed=int(r.integers(1e9)), method=methods[i % 3] if i % 5 else None, reps=int(r.integers(3, 12)), tz=[None, "America/Denver"][i % 2],
                 holes=i % 4 == 1, trim=len(pat) > 5 and i % 7 == 0, day0=str(r.choice(["2019-02-20", "2019-10-20", "2018-12-20", "2020-02-25"])))
        if i % 2:
            b.update(cl=float(r.choice([68.2, 90, 50])), ex=float(r.choice([95, 90, 50, 99])))
        out.append(b)
    for i in range(c.scale(20, 150)):
        out.append(dict(op="full", n=int(r.integers(60, 300)), seed=int(r.integers(1e9)), method=methods[i % 3], reps=4, recenter=i % 2 == 0))
    for i in range(c.scale(12, 40)):
        pat = [str(x) for x in r.choice(["V", "I"], int(r.integers(4, 8)), p=[.65, .35])] + ["V"]
        out.append(dict(op="spread", pat=pat, seed=int(r.integers(1e9)), method=methods[i % 2], reps=c.scale(250, 800)))
    return out


def run(c):
    model = c.model("MC_SoilHist")
    r = c.rng()
    ev = [x for x in pmap(execute, cases(c, model, r)) if x]
    c.sample(ev[0][0])
    c.assumptions += ["draw distributions judged by mean, mean square and pair products within six standard errors"]
    c.cov["invalid_groups_max"] = max(sum(1 for a, b in zip([{"valid": True}] + e["iv"][:-1], e["iv"]) if a["valid"] and not b["valid"]) for e, _ in ev if e["err"] == "")
    c.validate("TV_SoilHist", ev)


if __name__ == "__main__":
    main("C13", run)
