"""C30 the user is warned exactly when the inputs call for it."""
from rdv import *
import contextlib
import io
import re
import warnings
import numpy as np
import pandas as pd
import climate
from c12 import build as soil_build, options as soil_options
import avail

PHRASES = [("excluded", r"excluded data"), ("local", r"local time"), ("variable", r"sampling freq"), ("temperature", r"temperature correction"),
           ("expected", r"power_expected"), ("even", r"even value"), ("invalid", r"invalid soiling"), ("insolation", r"insolation_daily"),
           ("levels", r"simultaneous"), ("coordinates", r"coordinates"), ("deprecated", r"deprecated")]


def classify(ws):
    out = []
    for w in ws:
        m = re.sub(r"\s+", " ", str(w.message)).lower()
        if "ad_hoc" in m or "ad hoc" in m:
            out.append(("period " if "aggregated" in m.split("align")[0] else "point ") + ("holes" if "nan" in m else "index"))
            continue
        if "deprecat" in m and ("delta_index" in m or "check_series_frequency" in m):
            out.append("deprecated")
            continue
        if issubclass(w.category, (DeprecationWarning, FutureWarning, RuntimeWarning)):
            continue
        for k, p in PHRASES[:-1]:
            if re.search(p, m):
                out.append(k)
                break
    return out


@contextlib.contextmanager
def listening(ev):
    with warnings.catch_warnings(record=True) as ws, np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.resetwarnings()
        warnings.simplefilter("always")
        try:
            yield
        finally:
            ev["said"] = sorted(set(classify(ws)))
            for w in ws:
                m = re.search(r"excluded data \(([\d.]+)%\)", str(w.message).lower())
                if m:
                    ev["pct"] = num(float(m.group(1)))


def stamps(case):
    ix = pd.DatetimeIndex(pd.Timestamp("2021-05-03") + pd.to_timedelta(np.array(case["t"]) * case["unit"], unit="s"))
    return ix.tz_localize(case["tz"]) if case.get("tz") else ix


def execute(case):
    ev = dict(op=case["op"], err="", said=[], pct="")
    try:
        globals()["do_" + case["op"]](case, ev)
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def do_interp(case, ev):
    import rdtools
    ix = stamps(case)
    u = case["unit"]
    df = pd.DataFrame({f"c{k}": np.array(v, float) for k, v in enumerate(case["v"])}, index=ix)
    x = df if len(case["v"]) > 1 else df["c0"]
    kw = {}
    if case["g"]:
        kw["max_timedelta"] = pd.Timedelta(seconds=case["g"] * u)
    if case["thr"] != [1, 10]:
        kw["warning_threshold"] = case["thr"][0] / case["thr"][1]
    ev.update(t=case["t"], v=[nums(v) for v in case["v"]], g=case["g"], thr=case["thr"])
    with listening(ev):
        rdtools.interpolate(x, ix[::2] if case["thr"][0] % 2 else ix, **kw)


def do_clip(case, ev):
    import rdtools
    ix = stamps(case)
    r = np.random.default_rng(case["seed"])
    s = pd.Series(np.round(np.clip(np.sin(np.arange(len(ix)) / 7), 0, None) * 500 * r.uniform(.9, 1, len(ix)), 3), ix)
    ev.update(t=[t * case["unit"] for t in case["t"]], zone=bool(case.get("tz")))
    with listening(ev):
        (rdtools.filtering.logic_clip_filter if case["fn"] == "logic" else rdtools.filtering.xgboost_clip_filter)(s)


def do_delta(case, ev):
    from rdtools import normalization
    s = pd.Series(1., stamps(case))
    step = 0
    if case["regular"]:
        step = (case["t"][1] - case["t"][0]) * case["unit"]
        s = s.asfreq(pd.Timedelta(seconds=step))
    with listening(ev):
        d, m = normalization.delta_index(s)
    ev.update(t=[t * case["unit"] for t in case["t"]], step=int(step), out=nums(np.asarray(d, float)), mean=num(float(m)))


def do_freq(case, ev):
    from rdtools import normalization
    s = pd.Series(1., stamps(case))
    ev.update(regular=case["regular"], same=False)
    if case["regular"] and case["setfreq"]:
        s = s.asfreq(pd.Timedelta(seconds=(case["t"][1] - case["t"][0]) * case["unit"]))
    with listening(ev):
        f = normalization.check_series_frequency(s, "some series")
    step = pd.Timedelta(seconds=(case["t"][1] - case["t"][0]) * case["unit"])
    ev["same"] = bool(pd.Timedelta(pd.tseries.frequencies.to_offset(f)) == step) if case["regular"] else False


def do_annual(case, ev):
    from rdtools import soiling
    r = np.random.default_rng(case["seed"])
    days = pd.date_range("2020-11-20", periods=case["n"], freq="D")
    prof = []
    for k in range(3):
        p = pd.Series(r.uniform(.8, 1, case["n"]), days)
        p[p.index[case["holes"]]] = np.nan
        prof.append(p)
    ins = pd.Series(r.uniform(1, 8, case["n"] + 6), pd.date_range("2020-11-17", periods=case["n"] + 6, freq="D"))
    ins = ins.drop(days[case["lost"]])
    full = [k for k in range(case["n"]) if k not in case["holes"]]
    ev.update(days=full, insol=[k for k in range(-3, case["n"] + 3) if k not in case["lost"]])
    with listening(ev):
        soiling.annual_soiling_ratios(prof, ins)


def do_srr(case, ev):
    from rdtools import soiling
    ev.update(w=case.get("w") or 13, criterion=case.get("criterion") or "shift", method=case.get("method") or "half_norm_clean")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pm, insol, rain = soil_build(case)
    np.random.seed(3)
    with listening(ev):
        s = soiling.SRRAnalysis(pm, insol, precipitation_daily=rain)
        try:
            s.run(reps=2, **soil_options(case))
        except soiling.NoValidIntervalError:          # nothing to draw from (C12, C13)
            ev.update(method="none", valid=[])
            return
    ev["valid"] = [bool(x) for x in s.analyzed_daily_df["valid"]]


def do_avail(case, ev):
    from rdtools.availability import AvailabilityAnalysis
    rec = avail.record(case)
    with listening(ev):
        a = AvailabilityAnalysis(rec[0], rec[1], rec[2], rec[3])
        a.run(**({} if case["thr"] is None else dict(low_threshold=case["thr"])))
    ev.update(sys=nums(a.loss_system.values), sub=nums(a.loss_subsystem.values))


def do_place(case, ev):
    from rdtools import clearsky_temperature
    climate.install()
    ix = pd.date_range(case["start"], periods=case["n"], freq="1h", tz=case["tz"])
    with listening(ev):
        t = clearsky_temperature.get_clearsky_tamb(ix, case["lat"], case["lon"])
    ev["out"] = nums(t.values)


_TREND = {}


def do_trend(case, ev):
    import rdtools
    o = case["opt"]
    n = 2 * 745
    ix = pd.date_range("2018-01-01 06:00", periods=n, freq="12h", tz=case["tz"])
    r = np.random.default_rng(5)
    poa = pd.Series(r.uniform(260, 1100, n), ix)
    pv = poa * 2 * r.normal(1, .012, n)
    tc = pd.Series(r.normal(25, 5, n), ix)

    def make():
        kw = dict(temperature_cell=tc)
        if o["gamma"]:
            kw["gamma_pdc"] = [-.004, 0., -.003][case["k"] % 3]
        if o["expected"]:
            kw["power_expected"] = poa * 1.9
        t = rdtools.TrendAnalysis(pv, poa_global=poa, **kw)
        t.filter_params["clearsky_filter"] = {"model": "csi", "threshold": .3}
        t.filter_params["clip_filter"] = {"model": "quantile"}
        if case["wf"] == "clearsky":
            t.set_clearsky(poa_global_clearsky=poa * 1.02, temperature_cell_clearsky=tc)
        return t

    def go(t):
        (t.sensor_analysis if case["wf"] == "sensor" else t.clearsky_analysis)(analyses=["yoy_degradation"], yoy_kwargs=dict(confidence_level=50))

    key = (case["wf"], o["gamma"], o["expected"], case["tz"], case["k"] % 3)
    if key not in _TREND:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            t = make(); go(t)
        _TREND[key] = (getattr(t, case["wf"] + "_filter_components").index, getattr(t, case["wf"] + "_filter_components_aggregated").index)
    t = make()
    own = {}
    for which, base, params in (("point", _TREND[key][0], t.filter_params), ("period", _TREND[key][1], t.filter_params_aggregated)):
        q = o[which]
        if q == "none":
            own[which] = None
            continue
        j = base
        if q in ("other", "both"):
            j = [base[5:], base[:-1], base.delete(40), base.append(base[-1:] + pd.Timedelta("1D")), base + pd.Timedelta("1min")][case["k"] % 5]
        m = pd.Series(True, j, dtype=object if q in ("holes", "both") else [bool, object][case["k"] % 2])
        if q in ("holes", "both"):
            m.iloc[[7, 30]] = [np.nan, None][case["k"] % 2]
        elif case["k"] % 3 == 0:
            m.iloc[11] = False
        params["ad_hoc_filter"] = m
        own[which] = m
    with listening(ev):
        go(t)
    origin = pd.Timestamp("2018-01-01", tz=case["tz"])
    sec = lambda i: [int(x) for x in (i - origin) // pd.Timedelta("1s")]
    points, periods = (getattr(t, case["wf"] + s).index for s in ("_filter_components", "_filter_components_aggregated"))
    ev.update(wf=case["wf"], points=sec(points), periods=sec(periods),
              opt=dict(gamma=o["gamma"], expected=o["expected"], **{w: dict(given=own[w] is not None, holes=bool(own[w] is not None and own[w].isna().any()),
                                                                            t=[] if own[w] is None else sec(own[w].index)) for w in own}))


# ------------------------------------------------------------------------------------------------ cases
def log_cases(c, model, r):
    out = []
    for k, m in enumerate(model):
        u = int(r.choice([1, 60, 3600, 97]))
        tz = [None, "UTC", "America/Denver"][k % 3]
        out.append(dict(op="interp", t=m["t"], v=[[1.0] * len(m["t"])], unit=u, tz=tz, g=int(r.choice([0, 1, 2, 3])), thr=[[1, 10], [0, 1], [1, 4], [1, 2], [1, 6]][k % 5]))
        even = len(set(np.diff(m["t"]))) == 1
        out.append(dict(op=["delta", "freq"][k % 2], t=m["t"], unit=u, tz=tz if tz != "America/Denver" else "UTC", regular=even, setfreq=bool(k % 3)))
    for k in range(c.scale(200, 3000)):
        n = int(r.integers(5, 45))
        t = [0] + [int(x) for x in np.cumsum(np.where(r.random(n - 1) < r.choice([.05, .1, .3]), r.integers(1, 12, n - 1), 2))]
        v = [[float("nan") if r.random() < q else 1.5 for _ in t] for q in r.choice([0, .1, .3], int(r.choice([1, 1, 2])))]
        if any(np.isfinite(x).sum() < 2 for x in v):
            continue
        out.append(dict(op="interp", t=t, v=v, unit=int(r.choice([60, 900, 7])), tz=[None, "UTC"][k % 2], g=int(r.choice([0, 2, 4, 6])), thr=[[1, 10], [1, 10], [1, 20], [1, 5], [3, 10]][k % 5]))
        out.append(dict(op=["delta", "freq"][k % 2], t=t, unit=60, tz=None, regular=len(set(np.diff(t))) == 1, setfreq=True))
    for k in range(c.scale(40, 200)):
        n = int(r.integers(4, 30)); s = int(r.choice([1, 5, 15, 60]))
        out.append(dict(op=["delta", "freq"][k % 2], t=[int(x) for x in np.arange(n) * s], unit=60, tz=[None, "UTC", "Asia/Kolkata"][k % 3], regular=True, setfreq=bool(k // 2 % 2)))
    for k in range(c.scale(160, 1600)):          # around the 95 % limit
        n = int(r.choice([11, 20, 21, 40, 41, 60, 80, 100, 200]))
        odd = int(max(0, min(n - 1, round(.05 * n) + r.integers(-3, 3))))
        d = np.full(n - 1, 15)
        i = r.permutation(n - 1)[:odd]
        d[i] = r.choice([5, 10, 30, 45, 16], odd) if k % 2 else 30
        if k % 11 == 0:
            d = r.choice([15, 30, 5], n - 1)
        out.append(dict(op="clip", t=[0] + [int(x) for x in np.cumsum(d)], unit=60, tz=[None, "Etc/GMT+7", "UTC", "Asia/Kolkata"][k % 4], fn=["logic", "logic", "learned"][k % 3], seed=k))
    return out


def soil_cases(c, r):
    out = []
    for k in range(c.scale(110, 900)):
        n = int(r.integers(60, 140))
        p, lvl = [], 1.
        since = 0
        for i in range(n):
            lvl -= .0015; since += 1
            if since > 14 and r.random() < .06:
                lvl, since = 1. - r.random() * .01, 0
            p.append(round(lvl + r.normal(0, .002), 5))
        m = str(r.choice(["half_norm_clean", "random_clean", "perfect_clean"]))
        crit = str(r.choice(["shift", "precip_and_shift", "precip_or_shift", "precip"]))
        d = dict(op="srr", p=p, w=int(r.choice([5, 6, 7, 8, 9, 13, 14])), method=m, criterion=crit, minlen=int(r.choice([7, 14, 25, 40])), maxneg=float(r.choice([.05, .02])), iseed=k)
        d["rain"] = [float(x) for x in np.where(r.random(n) < .05, .5, 0)] if crit != "shift" else None
        if k % 6 == 0:
            d.pop("method"); d["method"] = None
        out.append(d)
    # exactly four fifths usable, and a day more or less: one usable interval and one too short
    for k in range(c.scale(30, 120)):
        a = int(r.choice([40, 60, 80])); b = a // 4 + int(r.choice([-1, 0, 0, 1]))
        p = [1 - .001 * i for i in range(a)] + [1 - .001 * i for i in range(b)]
        rain = [0.] * (a + b); rain[a] = 1.
        out.append(dict(op="srr", p=[round(x, 6) for x in p], w=5, criterion="precip", rain=rain, method=["half_norm_clean", "random_clean", "perfect_clean", None][k % 4], minlen=b + 2, iseed=k))
    for k in range(c.scale(60, 400)):
        n = int(r.integers(15, 90))
        lost = [int(x) for x in r.permutation(n)[:int(r.choice([0, 0, 1, 3]))]]
        holes = sorted(set(int(x) for x in r.permutation(n)[:int(r.choice([0, 2, 5]))]) | (set(lost) if k % 3 == 0 else set()))
        if len(holes) > n - 3:
            continue
        out.append(dict(op="annual", n=n, lost=lost, holes=holes, seed=k))
    return out


def plant_cases(c, r):
    out = []
    for k in range(c.scale(60, 500)):
        m = int(r.choice([2, 3]))
        cond = avail.stretch(r, int(r.integers(60, 110)), ["half", "halfcomms", "out", "comms", "reset", "dim", "partdim", "draw", "dawn", "fall"])
        out.append(dict(op="avail", cond=cond, m=m, size=[1.0, 2.0, 1.5][:m], step=60, start="2021-03-04", flat=False, noise=.01, seed=k, noff=1, tz=None, losepower=k % 3 == 0, losemeter=k % 4 == 0, thr=[None, 0., 5., 30.][k % 4]))
    for k in range(c.scale(60, 400)):
        out.append(dict(op="place", start="2021-0%d-10" % (1 + k % 9), n=int(r.integers(1, 30)), tz=["UTC", "Asia/Kolkata", "America/Denver"][k % 3], lat=float(r.uniform(-89, 89)), lon=float(r.uniform(-179, 179))))
    return out


def run(c):
    model = c.model("MC_Warn")
    r = c.rng()
    logs = [m for m in model if m["kind"] == "log"]
    logs = [logs[i] for i in r.permutation(len(logs))[:c.scale(300, len(logs))]]
    combos = [m for m in model if m["kind"] == "trend"]
    combos = [combos[i] for i in r.permutation(len(combos))[:c.scale(64, len(combos))]]
    items = log_cases(c, logs, r) + soil_cases(c, r) + plant_cases(c, r)
    items += [dict(op="trend", wf=m["wf"], opt=m["opt"], k=int(r.integers(1000)), tz=[None, "UTC", "Asia/Kolkata"][k % 3]) for k, m in enumerate(combos)]
    ev = pmap(execute, items)
    c.cov["warned"] = {w: sum(w in e["said"] for e, _ in ev) for w in sorted({w for e, _ in ev for w in e["said"]})}
    c.sample(ev[0][0])
    c.assumptions += ["warnings are recognised by their wording and recorded with every warning filter set to always",
                      "usable days, losses at the two levels and the masks' reference index are read from the results they are reported with (judged in C12, C15, C16, C18)"]
    c.validate("TV_Warn", ev)


if __name__ == "__main__":
    main("C30", run)
