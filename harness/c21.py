"""C21 clear-sky ambient temperature."""
from rdv import *
import warnings
import numpy as np
import pandas as pd
import climate

ZONES = ["UTC", "America/Denver", "Asia/Kolkata", "Australia/Lord_Howe", "America/Santiago", "America/Havana",
         "Atlantic/Azores", "Pacific/Apia", "Asia/Kathmandu", "Europe/London", "Etc/GMT+7", "Asia/Amman"]


def execute(case):
    from rdtools.clearsky_temperature import get_clearsky_tamb
    t = pd.date_range(case["start"], periods=case["n"], freq=case["freq"], tz="UTC").tz_convert(case["tz"])
    if case.get("local"):
        d0 = starts(t[0].date(), case["tz"])
        if case["freq"] == "D":
            t = pd.DatetimeIndex([starts(t[0].date() + pd.Timedelta(i, "D"), case["tz"]) for i in range(case["n"])])
        else:
            t = pd.date_range(d0.tz_convert("UTC"), periods=case["n"], freq=case["freq"]).tz_convert(case["tz"])
    if case["nofreq"] and len(t) > 4:
        t = t._with_freq(None)
    if case.get("thin"):
        t = t[list(range(12)) + list(range(14, len(t), 3))] if len(t) > 20 else t
    kw = case["kw"]
    ev = dict(lat=num(case["lat"]), lon=num(case["lon"]), window=kw.get("window_size", 40), std=num(kw.get("gauss_std", 20)),
              err="", out=[], index=True, warned=False, day=[], into=[], len=[], utc=[])
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = get_clearsky_tamb(t, case["lat"], case["lon"], **kw)
        ev["warned"] = any("Clear Sky Temperature includes NaNs" in str(x.message) or "Lat/Lon" in str(x.message) for x in w)
    except Exception as e:
        ev["err"] = exc_name(e)
        return ev, dict(case, msg=str(e)[:200])
    ev["index"] = bool(isinstance(r, pd.Series) and r.index.equals(t) and str(r.index.tz) == str(t.tz))
    ev["out"] = nums(r.values)
    ep = np.datetime64("1970-01-01")
    for x in t:
        d0 = starts(x.date(), case["tz"])
        d1 = starts(x.date() + pd.Timedelta("1D"), case["tz"])
        ev["day"].append(int((np.datetime64(x.date()) - ep) / np.timedelta64(1, "D")))
        ev["into"].append(int((x - d0).total_seconds()))
        ev["len"].append(int((d1 - d0).total_seconds()))
        ev["utc"].append(int(x.value // 10**9 % 86400))
    return ev, case


def starts(date, tz):
    """First instant of a local day."""
    return pd.Timestamp(date).tz_localize(tz, ambiguous=True, nonexistent="shift_forward")


def random_case(r, k):
    tz = ZONES[int(r.integers(0, len(ZONES)))]
    start = pd.Timestamp("2019-01-01") + pd.Timedelta(int(r.integers(0, 900)), "D") + pd.Timedelta(int(r.choice([0, 0, 5, 7, 23])), "h")
    if r.random() < .4:
        start = pd.Timestamp(str(r.choice(["2020-03-06", "2020-10-30", "2020-02-27", "2019-12-30", "2020-09-05", "2020-10-24"])))
    freq = str(r.choice(["h", "30min", "15min", "2h", "D", "6h", "10min", "7min", "45min"]))
    lat = float(r.choice([r.uniform(-90, 90), r.uniform(-89, 89), 40.0, -84.9, -90., 89.9]))
    lon = float(r.choice([r.uniform(-180, 180), r.uniform(-180, 180), 179.9, -179.9, 180., -180., 176., 0., -105.]))
    kw = {}
    if r.random() < .5:
        kw = dict(window_size=int(r.choice([1, 2, 3, 7, 20, 31, 60])), gauss_std=float(r.choice([1, 5, 20, 40])))
    return dict(start=str(start), n=int(r.integers(3, 40)), freq=freq, tz=tz, lat=lat, lon=lon, kw=kw,
                local=bool(r.random() < .5), nofreq=bool(r.random() < .2), thin=bool(r.random() < .15), k=k)


def run(c):
    climate.install()
    cases = c.model("MC_ClearTemp")
    r = c.rng()
    items = []
    for k, m in enumerate(cases):
        lon = m["lon"] if m["lon"] <= 180 else m["lon"] - 360
        items.append(dict(start=str(pd.Timestamp(m["day"] * 86400, unit="s")), n=25, freq="h", tz=f"Etc/GMT-{m['zone']}",
                          lat=float([40, -33, 5][k % 3]), lon=float(lon), kw={}, nofreq=False, k=k))
    nm = len(items)
    items += [random_case(r, k) for k in range(c.scale(700, 12000))]
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(replayed=nm, random=len(items) - nm,
                                without_data=sum(e["warned"] for e, _ in ev))
    c.sample(ev[0][1]); c.sample(ev[-1][1])
    c.assumptions += ["the climatology file is not part of the repository: a synthetic one with the same layout is served in its place",
                      "timestamps on whole minutes"]
    c.validate("TV_ClearTemp", ev)


if __name__ == "__main__":
    main("C21", run)
