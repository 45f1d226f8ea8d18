"""C23 hour-angle filter and parameters of the pvlib clear-sky filter."""
from rdv import *
import inspect
import warnings
import numpy as np
import pandas as pd

ZONES = [None, "UTC", "America/Denver", "Pacific/Honolulu", "Pacific/Auckland", "Asia/Kolkata", "Europe/London",
         "Australia/Lord_Howe", "America/Santiago"]
NAMES = ["window_length", "mean_diff", "max_diff", "lower_line_length", "upper_line_length", "var_diff", "slope_dev"]
DEFAULT = dict(window_length=90, mean_diff=75, max_diff=75, lower_line_length=-45, upper_line_length=80, var_diff=0.032, slope_dev=75)
CALLS = []


def spy():
    """Record the thresholds handed to pvlib's detection."""
    import pvlib
    real = pvlib.clearsky.detect_clearsky
    if getattr(real, "_rdv", False):
        return
    sig = inspect.signature(real)

    def detect_clearsky(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        CALLS.append(dict(b.arguments))
        return real(*a, **k)
    detect_clearsky._rdv = True
    detect_clearsky._real = real
    pvlib.clearsky.detect_clearsky = detect_clearsky


def hour(case):
    import rdtools
    import pvlib
    t = pd.date_range(case["start"], periods=case["n"], freq=case["freq"], tz="UTC")
    t = t.tz_convert(case["tz"]) if case["tz"] else t.tz_localize(None)
    if case.get("shuffle"):
        t = t[np.random.default_rng(case["k"]).permutation(len(t))]
    s = pd.Series(np.arange(len(t), dtype=float), index=t)
    ev = dict(kind="hour", lon=num(case["lon"]), lo=num(case.get("lo", -30)), hi=num(case.get("hi", 30)), err="", index=True,
              eot=[], utc=[], doy=[], mask=[])
    kw = {}
    if "lo" in case:
        kw = dict(min_hour_angle=case["lo"], max_hour_angle=case["hi"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = rdtools.hour_angle_filter(s, case["lat"], case["lon"], **kw)
            u = t if t.tz is not None else t.tz_localize("UTC")
            ev["eot"] = nums(pvlib.solarposition.get_solarposition(u, case["lat"], case["lon"])["equation_of_time"].values)
    except Exception as e:
        ev["err"] = exc_name(e)
        return ev, dict(case, msg=str(e)[:200])
    u = u.tz_convert("UTC")
    ev["index"] = bool(m.index.equals(t) and m.dtype == bool)
    ev["utc"] = [int(v) for v in u.as_unit("ns").asi8 // 10**9 % 86400]
    ev["doy"] = [int(x) for x in u.dayofyear]
    ev["mask"] = [bool(x) for x in m.values]
    return ev, case


def detect(case):
    import rdtools
    import pvlib
    spy()
    real = pvlib.clearsky.detect_clearsky._real
    r = np.random.default_rng(case["k"])
    f = pd.Timedelta(case["sec"], "s")
    n = case["n"]
    t = pd.date_range(case["start"], periods=n, freq=f, tz=case["tz"])
    x = np.arange(n) * case["sec"] / 3600
    clear = 900 * np.clip(np.sin(np.pi * (x % 14) / 14), 0, None)
    amp = case["amp"]
    meas = clear * case["scale"] * np.where(np.repeat(r.random(n // 12 + 1) < .4, 12)[:n], 1 - amp * r.random(n), 1) + case["noise"] * r.standard_normal(n)
    m = pd.Series(meas, index=t)
    c = pd.Series(clear, index=t)
    if case["shape"] == "late":
        m = m.iloc[5:]
    elif case["shape"] == "early":
        m = m.iloc[:-7]
    elif case["shape"] == "inner":
        c = c.iloc[3:-4]
    elif case["shape"] == "nofreq":
        m = m.copy()
        m.index = m.index._with_freq(None)
    elif case["shape"] == "hole":
        m = m.drop(m.index[n // 2])
    given = dict(DEFAULT, **{k: v for k, v in case["kw"].items() if k in NAMES})
    minutes = Fraction(case["sec"], 60) if m.index.freq is not None else Fraction(0)
    claim = dict(given)
    if case["kw"].get("lookup_parameters") and minutes:
        q = float(minutes)
        kn = [1, 5, 15, 30]
        claim["window_length"] = float(np.interp(q, kn, [50, 60, 90, 120]))
        claim["max_diff"] = float(np.interp(q, kn, [60, 65, 75, 90]))
        claim["var_diff"] = float(np.interp(q, kn, [.005, .01, .032, .07]))
        claim["slope_dev"] = float(np.interp(q, kn, [50, 60, 75, 96]))
    ev = dict(kind="detect", lookup=bool(case["kw"].get("lookup_parameters", False)), minutes=num(minutes),
              given={k: num(v) for k, v in given.items()}, claim={k: num(v) for k, v in claim.items()},
              err="", referr="", index=True, same=True, seen=False, used={})
    union = m.index.union(c.index)
    want = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            want = real(m.reindex(union), c.reindex(union), **claim, **dict(case["extra"], return_components=False))
        except Exception as e:
            ev["referr"] = exc_name(e)
        CALLS.clear()
        try:
            kw = dict(case["kw"], **case["extra"])
            if case["via"]:
                got = rdtools.clearsky_filter(m, c, **kw) if case["k"] % 2 else rdtools.clearsky_filter(m, c, model="pvlib", **kw)
            else:
                got = rdtools.pvlib_clearsky_filter(m, c, **kw)
        except Exception as e:
            ev["err"] = exc_name(e)
            return ev, dict(case, msg=str(e)[:200])
    if want is not None:
        ev["index"] = bool(got.index.equals(union))
        ev["same"] = bool(ev["index"] and (got.values == want.values).all())
    if len(CALLS) == 1:
        ev["seen"] = True
        ev["used"] = {k: num(float(CALLS[0][k])) for k in NAMES}
    return ev, dict(case, kept=int(np.sum(got.values)))


def hour_case(r, k):
    c = dict(kind="hour", k=k, tz=ZONES[int(r.integers(0, len(ZONES)))], n=int(r.integers(5, 60)),
             freq=str(r.choice(["h", "30min", "17min", "3h", "97s"])), lat=float(r.uniform(-80, 80)), lon=float(r.uniform(-180, 180)),
             start=str(pd.Timestamp("2019-01-01") + pd.Timedelta(int(r.integers(0, 1000)), "D") + pd.Timedelta(int(r.integers(0, 86400)), "s")),
             shuffle=bool(r.random() < .1))
    if r.random() < .4:
        c["start"] = str(r.choice(["2020-03-08 05:00", "2020-11-01 04:00", "2020-09-26 10:00", "2020-04-04 10:00", "2020-03-29 00:00"]))
    if r.random() < .7:
        a, b = sorted(float(x) for x in r.choice([-180., -90., -30., 0., 15.5, 60., 120., 180.], 2))
        c["lo"], c["hi"] = a, b
    return c


def detect_case(r, k):
    sec = int(r.choice([60, 120, 180, 300, 420, 600, 900, 1200, 1800, 30, 2700]))
    n = int(min(600, max(40, 14 * 3600 // sec)))
    kw = {}
    if r.random() < .65:
        kw["lookup_parameters"] = True
    opt = dict(window_length=[45, 60, 120], mean_diff=[20, 150], max_diff=[20, 150], lower_line_length=[-10, -90],
               upper_line_length=[20, 160], var_diff=[.004, .1], slope_dev=[20, 150])
    for nme, v in opt.items():
        if r.random() < .3:
            kw[nme] = float(r.choice(v))
    extra = dict(max_iterations=int(r.choice([1, 2, 30]))) if r.random() < .2 else dict(return_components=True) if r.random() < .06 else {}
    return dict(kind="detect", k=k, sec=sec, n=n, start="2020-06-01 05:00", tz=[None, "UTC", "America/Denver"][int(r.integers(0, 3))],
                amp=float(r.choice([.02, .05, .1, .3])), noise=float(r.choice([0, 1, 4, 10])), scale=float(r.choice([1, .97, 1.05])),
                shape=str(r.choice(["same", "same", "late", "early", "inner", "nofreq", "hole"])), kw=kw, extra=extra, via=bool(r.random() < .4))


def execute(case):
    return hour(case) if case["kind"] == "hour" else detect(case)


def run(c):
    cases = c.model("MC_SolarFilter")
    r = c.rng()
    items = []
    for k, m in enumerate(cases):
        day = {-14: "2020-02-11", 0: "2020-04-15", 16: "2020-11-03"}[m["eot"]]
        tz = ZONES[k % len(ZONES)]
        items.append(dict(kind="hour", k=k, tz=tz, n=36, freq="40min", lat=35., lon=float(m["lon"]), start=day + " 00:10",
                          lo=float(m["lo"]), hi=float(m["hi"])))
    nm = len(items)
    items += [hour_case(r, k) for k in range(c.scale(700, 10000))]
    items += [detect_case(r, k) for k in range(c.scale(700, 8000))]
    ev = pmap(execute, items)
    d = [(e, i) for e, i in ev if e["kind"] == "detect"]
    c.cov["model_cases"] = dict(replayed=nm, random=len(items) - nm, detections=len(d), refused=sum(e["referr"] != "" for e, _ in d),
                                some_clear=sum(0 < i.get("kept", 0) for _, i in d))
    c.sample(ev[0][1]); c.sample(ev[-1][1])
    c.assumptions += ["pvlib's equation of time (checked against Spencer's series to 1.5 minutes) and its clear-sky detection are trusted"]
    c.validate("TV_SolarFilter", ev)


if __name__ == "__main__":
    main("C23", run)
