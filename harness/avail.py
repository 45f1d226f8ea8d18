"""Availability analysis: records shared by C15, C16 and C17."""
from rdv import *
import warnings
import numpy as np
import pandas as pd

EPOCH = pd.Timestamp("1970-01-01")


def record(case):
    """Readings of a plant following a list of conditions (as in MC_Availability)."""
    r = np.random.default_rng(case["seed"])
    cond, m = case["cond"], case["m"]
    n = len(cond)
    size = np.array(case["size"], float)
    size = size / size.mean()
    hour = case["step"] / 60
    phase = np.arange(n)
    base = np.where([c == "night" for c in cond], 0.0, 40 + 25 * np.sin(phase / 3.7) + r.uniform(0, 5, n))
    if case["flat"]:
        base = np.where(base > 0, 50.0, 0.0)
    true = np.outer(base, size) * (1 + r.normal(0, case["noise"], (n, m)))
    sub, power, gain = true.copy(), np.zeros(n), np.zeros(n)
    blank = [0.0, np.nan, 0.001][case["seed"] % 3]
    which = r.permutation(m)
    for i, c in enumerate(cond):
        prod = true[i].sum()
        k = max(1, int(case.get("noff", 1)))
        if c == "half":
            prod = true[i].sum() - true[i, which[:k]].sum(); sub[i, which[:k]] = blank
        elif c == "halfcomms":
            sub[i, which[:k]] = blank
        elif c == "dim":            # no outage, but the meter sees less than the subsystems
            prod *= r.uniform(.3, .95)
        elif c == "partdim":        # a subsystem is off and the meter is between
            prod *= r.uniform(.2, 1.1); sub[i, which[:k]] = blank
        elif c == "draw":           # a subsystem is off and the plant draws power
            prod = -r.uniform(0, 5); sub[i, which[:k]] = blank
        elif c == "dawn":           # powers around the automatic threshold
            sub[i] = true[i] * r.choice([.0005, .003, .009, .02], m); prod = sub[i].sum() * r.uniform(.2, 1)
        elif c in ("out", "reset", "fall"):
            prod = 0; sub[i] = blank
        elif c == "comms":
            sub[i] = blank
        elif c == "night":
            prod = -.2 if case["seed"] % 5 == 0 else 0.0
            sub[i] = [0.0, np.nan, -.1][case["seed"] % 3]
        power[i] = prod; gain[i] = max(prod, 0) * hour
        if c == "fall":             # a net meter runs backwards
            gain[i] = -r.uniform(.0, .1) * base[i] * m * hour
    if case.get("dead"):
        sub[:, which[-1]] = np.nan
    meter = 1000.0 + np.cumsum(gain)
    for i, c in enumerate(cond):
        if c == "reset":
            meter[i:] -= meter[i] - 3.0
        if c in ("out", "comms", "reset", "fall"):
            power[i] = [0.0, np.nan][case["seed"] % 2]
            if c == "comms" or case["seed"] % 4 == 1:
                if not (i + 1 == n or cond[i + 1] not in ("comms", "out", "reset", "night", "fall")):
                    meter[i] = np.nan if case["seed"] % 4 == 1 else meter[i]
    if case.get("losemeter"):
        meter[r.integers(0, n, 2)] = np.nan
    if case.get("losepower"):
        power[r.integers(0, n, 3)] = np.nan
    expected = base * m * case.get("bias", 1.0) * (1 + r.normal(0, case["noise"] * 2 + 1e-3, n))
    ix = pd.date_range(case["start"], periods=n, freq=f"{case['step']}min", tz="UTC")
    ix = ix.tz_localize(None) if case["tz"] is None else ix.tz_convert(case["tz"])
    if case.get("nofreq"):
        ix = pd.DatetimeIndex(list(ix))
    cols = [f"inv{j}" for j in range(m)]
    return (pd.Series(power, ix), pd.DataFrame(sub, ix, cols), pd.Series(meter, ix), pd.Series(np.maximum(expected, 0), ix), size)


def execute(case):
    from rdtools.availability import AvailabilityAnalysis
    ev = dict(part=case["part"], err="", refuse=case.get("refuse", ""), why=case.get("why", ""))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            P, S, M, X, size = record(case)
            if case.get("shift"):
                a = dict(P=P, S=S, M=M, X=X)
                v = a[case["shift"]]
                a[case["shift"]] = v.iloc[1:] if case["seed"] % 2 else v.set_axis(v.index + pd.Timedelta("1min"))
                P, S, M, X = a["P"], a["S"], a["M"], a["X"]
            n = len(P)
            kw, cap = {}, [float("inf")] * n
            ev.update(thr=[], sizes=[], q=[num(.01), num(.99)], freq=["ME", 1])
            if case.get("thr") is not None:
                kw["low_threshold"] = case["thr"]; ev["thr"] = [num(case["thr"])] * case["m"]
            if case.get("givesizes"):
                z = {c: float(x) for c, x in zip(S.columns, size)}
                if case["seed"] % 2:
                    z = pd.Series({k: z[k] for k in reversed(list(z))})
                kw["relative_sizes"] = z; ev["sizes"] = nums(size)
            if case.get("cap"):
                lim = case["cap"] * 50 * case["m"]
                if case["seed"] % 2:
                    cap = [lim * (1 + .1 * (i % 3)) for i in range(n)]; kw["power_system_limit"] = pd.Series(cap, P.index)
                else:
                    cap = [lim] * n; kw["power_system_limit"] = lim
            if case.get("q"):
                kw["quantiles"] = tuple(case["q"]); ev["q"] = nums(case["q"])
            if case.get("freq"):
                kw["rollup_period"] = case["freq"]; ev["freq"] = ["D" if case["freq"] == "d" else case["freq"], 1]
            aa = AvailabilityAnalysis(P, S, M, X)
            if case.get("again"):
                aa.run()
            aa.run(**kw)
            pos = {t: i + 1 for i, t in enumerate(P.index)}
            step = pd.Timedelta(minutes=case["step"])
            ev.update(P=nums(P), S=[nums(S[c]) for c in S.columns], X=nums(X), M=nums(M), h=num(Fraction(case["step"], 60)), cap=nums(cap),
                      mask=[[bool(v) for v in aa.reporting_mask[c]] for c in S.columns], loss_sub=nums(aa.loss_subsystem), loss_sys=nums(aa.loss_system),
                      loss_total=nums(aa.loss_total), xr=nums(aa.power_expected_rescaled), corrected=nums(aa.energy_cumulative_corrected),
                      xe=nums(aa.energy_expected_rescaled.dropna() if len(aa.energy_expected_rescaled) != n - 1 else aa.energy_expected_rescaled),
                      days=[int((t.tz_localize(None).normalize() - EPOCH).days) for t in P.index])
            ev["outages"] = [dict(start=pos[o.start], end=pos[o.end], duration=int(o.duration / step), intervals=int(o.intervals), daylight=int(o.daylight_intervals),
                                  type=o.type, **{k: num(getattr(o, k)) for k in ("error_lower", "error_upper", "energy_expected", "energy_start", "energy_end",
                                                                                    "energy_actual", "ci_lower", "ci_upper", "loss")}) for o in aa.outage_info.itertuples()]
            ev["rows"] = [dict(label=int((t.tz_localize(None).normalize() - EPOCH).days), lost=num(x.lost_production), actual=num(x.actual_production), avail=num(x.availability))
                          for t, x in zip(aa.results.index, aa.results.itertuples())]
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def stretch(r, n, rich):
    """Several days of conditions: nights of a few readings between daylight stretches."""
    out = []
    while len(out) < n:
        d = []
        for _ in range(int(r.integers(5, 14))):
            d.append("ok")
        u = r.random()
        if u < .55:
            c = str(r.choice(rich))
            a = int(r.integers(0, len(d))); b = int(r.integers(a, len(d))) + 1
            d[a:b] = [c] * (b - a)
        if u < .15:
            a = int(r.integers(0, len(d)))
            d[a] = str(r.choice(rich))
        out += d + ["night"] * int(r.integers(1, 6))
        if r.random() < .1:          # several days down
            c = str(r.choice(["out", "comms"]))
            out += [c] * 6 + ["night"] * 3 + [c] * int(r.integers(1, 7)) + ["night"] * int(r.integers(0, 4))
    return out[:n]


def cases(c, model, r, part):
    out = []
    def options(k):
        b = dict(part=part, seed=int(r.integers(1e6)), step=int(r.choice([15, 60, 30])), tz=[None, "America/Denver", "UTC", "Asia/Kolkata"][int(r.integers(4))],
                 start=str(r.choice(["2021-03-13 14:00", "2021-01-30 17:00", "2020-12-30 09:00", "2021-06-30 06:00", "2021-10-30 01:00"])),
                 noise=float(r.choice([.002, .02, .08])), flat=bool(r.random() < .2), bias=float(r.choice([1, .8, 1.7])), nofreq=bool(r.random() < .4),
                 again=bool(r.random() < .2))
        if r.random() < .5:
            b["freq"] = str(r.choice(["D", "W", "ME", "MS"]))
        if r.random() < .3:
            b["q"] = [[.05, .9], [.25, .75], [0, 1]][int(r.integers(3))]
        if r.random() < .3:
            b["thr"] = float(r.choice([0.0, .5, 5]))
        if r.random() < .4:
            b["givesizes"] = True
        if r.random() < .3:
            b["cap"] = float(r.choice([.8, 1.0, 1.3]))
        b["m"] = int(r.integers(2, 5))
        b["size"] = [float(x) for x in (np.ones(b["m"]) if r.random() < .4 else r.integers(1, 6, b["m"]))]
        b["noff"] = int(r.integers(1, b["m"]))
        return b
    for h in [model[k]["h"] for k in r.permutation(len(model))[:c.scale(350, 3000)]]:
        b = options(0)
        pre = ["ok"] * int(r.integers(9, 14)) if r.random() < .7 else []
        post = ["ok"] * int(r.integers(20, 26)) if not pre or r.random() < .7 else []
        if not pre and h.count("ok") == 0 and r.random() < .5:
            pre = ["night"] * 2
        lead = ["ok"] * (0 if not pre else 9)
        out.append(dict(b, cond=lead + pre + h + post))
    rich = ["half", "halfcomms", "out", "comms", "reset", "dim", "partdim", "half", "out", "partdim", "partdim", "comms", "draw", "dawn", "dawn", "fall", "fall"]
    for k in range(c.scale(140, 1500)):
        b = options(k)
        b.update(cond=stretch(r, int(r.integers(40, [130, 320][k % 12 == 0])), rich), losemeter=k % 6 == 0, losepower=k % 7 == 0)
        if k % 4 == 3 and not b.get("givesizes"):
            b["dead"] = True
        if k % 9 == 0:
            b["start"] = "2021-02-20 10:00"; b["step"] = 180
        out.append(b)
    for a in ("S", "M", "X"):
        for s in (2, 3):
            out.append(dict(out[0], shift=a, seed=s, refuse="ValueError", why="index of " + a + " differs"))
    return out


def usable(case):
    return sum(x == "ok" for x in case["cond"]) >= 16


def go(c, part):
    model = c.model("MC_Availability")
    r = c.rng()
    ev = pmap(execute, [x for x in cases(c, model, r, part) if usable(x)])
    c.sample(ev[0][0])
    c.assumptions += ["regular records (missing rows inserted, as the documentation asks), expected power present and not negative, relative sizes with mean one",
                      "normal operation covers at least 16 readings"]
    c.cov["outages"] = sum(len(e.get("outages", [])) for e, _ in ev)
    c.cov["outage_kinds"] = {k: sum(o["type"] == k for e, _ in ev for o in e.get("outages", [])) for k in ("real", "comms", "unknown")}
    c.cov["readings_with_subsystem_loss"] = sum(x != "0" for e, _ in ev for x in e.get("loss_sub", []))
    c.validate("TV_Availability", ev)
