"""C07 clipping detection."""
from rdv import *
import warnings
import numpy as np
import pandas as pd

MIN = 60 * 10**9


def build(case):
    ix = pd.DatetimeIndex(pd.to_datetime(case["ix"])) if "ix" in case else pd.date_range(case["start"], periods=len(case["p"]), freq=f"{case['f']}min")
    if case.get("tz"):
        ix = ix.tz_localize(case["tz"], ambiguous="infer", nonexistent="shift_forward") if "tzabs" not in case else ix.tz_localize("UTC").tz_convert(case["tz"])
    return pd.Series(case["p"], ix, dtype=float, name=case.get("name"))


def execute(case):
    from rdtools import filtering
    op = case["op"]
    ev = dict(op=op, refuse=case.get("refuse", ""), why=case.get("why", ""), err="", index=True, again=True, scaled=True, zone=True, perm=True, strict=False)
    fn = filtering.logic_clip_filter if op == "logic" else filtering.xgboost_clip_filter
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            s = build(case)
            if case.get("order") is not None:
                s = s.iloc[case["order"]]
            if case.get("nodt"):
                s = s.reset_index(drop=True)
            kw = {}
            if case.get("mount", "fixed") != "fixed":
                kw["mounting_type"] = case["mount"]
            if case.get("cutoff", .2) != .2:
                kw["rolling_range_max_cutoff"] = case["cutoff"]
            if case.get("R"):
                kw["roll_periods"] = case["R"]
            k = fn(s, **kw)
            ev["index"] = bool(isinstance(k, pd.Series) and k.index.equals(s.index) and k.dtype == bool)
            k = np.asarray(k)
            ev["again"] = bool((np.asarray(fn(s, **kw)) == k).all())
            if case.get("sc"):
                ev["scaled"] = bool((np.asarray(fn(s * case["sc"], **kw)) == k).all())
            if case.get("zone"):
                z = s.copy(); z.index = s.index.tz_localize(None).tz_localize(case["zone"])
                ev["zone"] = bool((np.asarray(fn(z, **kw)) == k).all())
            if case.get("perm"):
                n = 1440 // case["f"]
                a = s.values.reshape(-1, n)
                q = pd.Series(a[case["perm"]].ravel(), s.index)
                ev["perm"] = bool((np.asarray(fn(q, **kw)).reshape(-1, n) == k.reshape(-1, n)[case["perm"]]).all())
            m0 = s.index[0].normalize()
            mids = pd.date_range(m0, s.index[-1].normalize(), freq="D")
            ev.update(t=secs(s.index, m0, MIN), mid=secs(mids, m0, MIN), p=nums(s.values), keep=[bool(x) for x in k], f=case["f"], R=case.get("R", 0),
                      cutoff=num(case.get("cutoff", .2)), mount=case.get("mount", "fixed"))
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def day(kind, f, r):
    n = 1440 // f
    x = np.clip(np.sin(np.linspace(-np.pi / 2, 3 * np.pi / 2, n, endpoint=False)), 0, None) * 1000 * r.uniform(.9, 1.1)
    if kind == "sun":
        return x
    if kind == "clip":
        return np.minimum(x, 700.)
    if kind == "noisy":        # plateau with a little noise
        return np.minimum(x, 700. * (1 + r.uniform(-.0006, .0006, n)))
    if kind == "two":          # two plateaus
        return np.where(np.arange(n) < n // 2, np.minimum(x, 500.), np.minimum(x, 700.))
    if kind == "low":
        return np.minimum(x, 95.)
    if kind == "cloud":
        return x * r.uniform(.3, 1, n)
    if kind == "frozen":
        return np.full(n, 640.) + r.integers(0, 3, n)
    if kind == "touch":        # unclipped, but reaching the level of clipped days
        return x / x.max() * 700.9
    if kind == "zero":
        return x * 0
    if kind == "frost":        # nearly constant day, relative variation around one tenth
        return 640 * (1 + r.choice([.03, .07, .09, .12, .2]) * r.choice([-1, 1], n)) * np.where(np.arange(n) < n // 3, 1, 1 + 1e-4 * r.random(n))
    if kind == "frostclip":
        y = 640 * (1 + r.choice([.05, .08, .09, .12]) * np.where(np.arange(n) % 8 < 4, 1, -1)); return y
    if kind == "shoulder":     # long morning plateau near a tenth of the maximum
        y = x.copy(); lv = x.max() * r.choice([.06, .08, .095, .105, .12]); up = np.arange(n) < n // 2
        y[up & (y < .5 * x.max()) & (y > 0)] = lv
        return y
    if kind == "steps":        # two plateaus some percent apart, with readings next to both levels
        d = r.choice([.01, .02, .024, .026, .03, .04, .06])
        y = np.where(np.arange(n) < n // 2, np.minimum(x, 700.), np.minimum(x, 700. * (1 - d)))
        for q in r.integers(n // 4, 3 * n // 4, 6):
            if r.random() < .6:
                y[q] = 700. * (1 - d * r.integers(0, 2)) * (1 + r.choice([-.0035, -.002, -.0015, .0005, .0015, .002, .0035]))
        return y
    if kind == "gap":
        y = np.minimum(x, 700.); y[n // 2 - 2:n // 2 + 2] = np.nan
        return y
    return x


KINDS = ["sun", "clip", "noisy", "two", "low", "cloud", "frozen", "touch", "zero", "gap", "frost", "frostclip", "shoulder", "steps", "steps"]


def cases(c, model, r):
    out = []
    model = [model[k] for k in r.permutation(len(model))[:c.scale(500, 4000)]]
    for m in model:
        out.append(dict(op="logic", start="2021-03-01", f=360, p=[float(x) for d in m["rec"] for x in d], R=int(r.choice([m["R"], m["R"], 2]))))
    for k in range(c.scale(110, 1200)):
        f = int(r.choice([60, 30, 15, 10, 5, 20, 60, 30, 15]))
        nd = {60: 6, 30: 5, 20: 4, 15: 4, 10: 3, 5: 2}[f]
        kinds = [str(x) for x in r.choice(KINDS, nd)]
        p = np.round(np.concatenate([day(x, f, r) for x in kinds]), 3)
        d = dict(op="logic" if k % 4 else "learned", start="2021-03-01", f=f, p=[float(x) for x in p], kinds=kinds, sc=[.5, 4., 1024.][k % 3],
                 mount=["fixed", "single_axis_tracking"][k % 2], tz=[None, "Etc/GMT+7", "America/Denver"][k % 3], zone=["Etc/GMT-3", None][k % 2] )
        if d["tz"] == "America/Denver" and k % 2:
            d.update(start="2021-03-13", zone=None, tzabs=True)
        safe = all(x in ("sun", "clip", "noisy", "two", "low", "touch") for x in kinds)
        if d["op"] == "logic":
            d["cutoff"] = float(r.choice([.2, .2, .4, .05, 1.]))
            d["R"] = int(r.choice([0, 0, 2, 4]))
        if safe and not d.get("tzabs"):
            d["perm"] = [int(x) for x in r.permutation(nd)]
        out.append(d)
    for k in range(c.scale(40, 300)):      # each day its own levels
        f = int(r.choice([60, 30, 15, 5]))
        kinds = ["sun"] + [str(x) for x in r.permutation(["clip", "sun", "noisy", "touch", "two"])][:4 if f > 5 else 1] + ["touch"]
        p = np.round(np.concatenate([day(x, f, r) for x in kinds]), 3)
        perm = [0] + [int(x) + 1 for x in r.permutation(len(kinds) - 1)]
        out.append(dict(op=["logic", "learned", "learned"][k % 3], start="2021-06-01", f=f, p=[float(x) for x in p], kinds=kinds, perm=perm, tz="Etc/GMT+5", sc=.25))
    for k in range(c.scale(40, 300)):      # irregular records: lost readings, repeated and shifted timestamps
        f = int(r.choice([60, 30, 15, 5]))
        nd = {60: 4, 30: 3, 15: 3, 5: 2}[f]
        kinds = [str(x) for x in r.choice(["clip", "sun", "noisy", "two", "cloud", "frozen", "steps"], nd)]
        p = np.round(np.concatenate([day(x, f, r) for x in kinds]), 3)
        ix = pd.date_range("2021-03-01", periods=len(p), freq=f"{f}min")
        keep = r.random(len(p)) > .06
        sel = np.where(keep)[0]
        if k % 3 == 0:
            sel = np.sort(np.append(sel, r.choice(sel, 4)))
        ixs = ix[sel]
        if k % 3 == 1 and f >= 10:
            ixs = pd.DatetimeIndex([t + pd.Timedelta(minutes=int(r.integers(1, 4))) if r.random() < .1 else t for t in ixs])
        out.append(dict(op="logic", ix=[str(t) for t in ixs], f=f, p=[float(x) for x in p[sel]], kinds=kinds))
    for k in range(c.scale(60, 500)):      # levels a few percent apart, nearly frozen days, low plateaus, records starting on a plateau
        f = int(r.choice([60, 30, 15, 10]))
        nd = {60: 4, 30: 3, 15: 2, 10: 2}[f]
        kinds = [str(x) for x in r.choice(["steps", "steps", "frost", "frostclip", "shoulder", "sun"], nd)]
        p = np.round(np.concatenate([day(x, f, r) for x in kinds]), 3)
        cut = int(r.choice([0, 0, 1440 // f * 5 // 12, 1440 // f // 2]))
        ix = pd.date_range("2021-03-01", periods=len(p), freq=f"{f}min")[cut:]
        out.append(dict(op="logic", ix=[str(t) for t in ix], f=f, p=[float(x) for x in p[cut:]], kinds=kinds, R=int(r.choice([0, 0, 2, 4]))))
    for k in range(c.scale(24, 200)):      # share of clipped readings near four percent, frozen or missing days in the record
        f = int(r.choice([30, 60, 15]))
        nd, n = {60: 8, 30: 6, 15: 4}[f], 1440 // f
        kinds = r.choice(["frozen", "lost", "plat", "sun"], nd)
        kinds[:3] = ["plat", ["frozen", "lost"][k % 2], "sun"]
        kinds = [str(x) for x in r.permutation(kinds)]
        L = int(max(3, round(n * nd * r.uniform(.02, .045) / kinds.count("plat"))))
        p = []
        for q in kinds:
            x = np.sin(np.linspace(-np.pi / 2, 3 * np.pi / 2, n, endpoint=False))
            x = {"frozen": x * 0 + 300., "lost": x * np.nan, "plat": np.minimum(x / np.sort(x)[::-1][min(L - 1, n // 2 - 2)], 1) * 700., "sun": x * 700. * r.uniform(.9995, 1.003)}[q]
            p.append(np.clip(x, 0, None))
        out.append(dict(op="logic", start="2021-03-01", f=f, p=[float(x) for x in np.round(np.concatenate(p), 3)], kinds=kinds, R=int(r.choice([0, 0, 3]))))
    f1 = np.round(np.concatenate([day("noisy", 1, r)]), 3)
    out.append(dict(op="logic", start="2021-03-01", f=1, p=[float(x) for x in f1]))
    out.append(dict(op="learned", start="2021-03-01", f=1, p=[float(x) for x in f1], sc=2.))
    p = [float(x) for x in day("clip", 60, r)] * 2
    for op in ("logic", "learned"):
        b = dict(op=op, start="2021-03-01", f=60, p=p)
        out.append(dict(b, order=[1, 0] + list(range(2, 48)), refuse="IndexError", why="unsorted index"))
        out.append(dict(b, order=list(range(47, -1, -1)), refuse="IndexError", why="reversed index"))
        out.append(dict(b, order=list(range(10)), refuse="Exception", why="ten readings"))
        out.append(dict(b, order=list(range(11)) , why="") if op == "logic" else dict(b))
        out.append(dict(b, nodt=True, refuse="TypeError", why="no datetime index"))
        out.append(dict(b, mount="tracker", refuse="ValueError", why="unknown mounting"))
        out.append(dict(b, mount=None, refuse="ValueError", why="unknown mounting"))
    return out


def run(c):
    model = c.model("MC_Clipping")
    r = c.rng()
    ev = pmap(execute, cases(c, model, r))
    if os.environ.get("RDV_STRICT"):
        for e, _ in ev:
            e["strict"] = True
    c.cov["excluded_points"] = sum(sum(not x for x in e.get("keep", [])) for e, _ in ev)
    c.sample(ev[0][0])
    c.assumptions += ["records whose intermediate decisions fall within 1e-9 of a threshold are undetermined",
                      "of the learned filter only determinism, invariance and refusals are judged here; its features and daily band are C29"]
    c.validate("TV_Clipping", ev)


if __name__ == "__main__":
    main("C07", run)
