"""C19 analysis histories of one trend-analysis object."""
from rdv import *
import copy
import contextlib
import hashlib
import io
import pickle
import warnings
import numpy as np
import pandas as pd


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def fp(x, h=None):
    """Fingerprint of nested results, exact."""
    top = h is None
    h = h or hashlib.sha256()
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            fp(x[k], h)
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for a in x:
            fp(a, h)
    elif isinstance(x, pd.DataFrame):
        h.update(b"F")
        for c in x.columns:
            h.update(str(c).encode())
            fp(x[c], h)
    elif isinstance(x, pd.Series):
        h.update(b"S" + str(x.dtype).encode())
        fp(x.index, h)
        fp(x.values, h)
    elif isinstance(x, pd.Index):
        h.update(str(x.dtype).encode() + (x.asi8.tobytes() if isinstance(x, pd.DatetimeIndex) else repr(list(x)).encode()))
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            h.update(repr([str(a) for a in x]).encode())
        else:
            h.update(np.ascontiguousarray(np.where(np.isnan(x), np.nan, x) if x.dtype.kind == "f" else x).tobytes())
    elif isinstance(x, (float, np.floating)):
        h.update(np.float64(x if x == x else np.nan).tobytes())
    else:
        h.update(repr(x).encode())
    return h.hexdigest()[:16] if top else None


_DATA = {}


def data(v):
    if v in _DATA:
        return _DATA[v]
    r = np.random.default_rng(100 + v)
    if v == 4:       # short, sub-hourly, with a location
        ix = pd.date_range("2019-03-20", periods=60 * 24, freq="h", tz="America/Denver")
    else:
        ix = pd.date_range("2018-01-01 06:00", periods=2 * 748, freq="12h", tz=[None, "UTC", "Asia/Kolkata", "UTC"][v])
    n = len(ix)
    if v == 4:
        import pvlib
        loc = pvlib.location.Location(40., -105., tz="America/Denver")
        mid = ix - pd.Timedelta("30min")
        sun = loc.get_solarposition(mid, method="ephemeris")
        sky = loc.get_clearsky(mid, solar_position=sun)
        shape = pvlib.irradiance.get_total_irradiance(20, 180, sun["apparent_zenith"], sun["azimuth"], sky["dni"], sky["ghi"],
                                                      sky["dhi"])["poa_global"].fillna(0).values
        poa = pd.Series(shape * r.uniform(.95, 1.03, n) * np.where(r.random(n) < .1, .5, 1), index=ix)
    else:
        poa = pd.Series(r.uniform(260, 1100, n), index=ix)
    soil = 1 - .02 * ((np.arange(n) % 90) / 90)
    pv = poa * 2 * soil * (1 - np.arange(n) / n * .05) * r.normal(1, .012, n)
    tamb = pd.Series(r.normal(20, 8, n), index=ix)
    pv[r.random(n) < .01] = np.nan
    cs = {"A": (poa * r.uniform(.9, 1.1, n), tamb + 9), "B": (poa * r.uniform(.85, 1.1, n), tamb + 3)}
    _DATA[v] = dict(ix=ix, poa=poa, pv=pv, tamb=tamb, cs=cs, n=n)
    return _DATA[v]


def new(v):
    import rdtools
    d = data(v)
    kw = [dict(temperature_ambient=d["tamb"], gamma_pdc=-.005),
          dict(temperature_cell=d["tamb"] + 10, power_dc_rated=2000.),
          dict(temperature_ambient=d["tamb"], windspeed=2, power_expected=d["poa"] * 1.9),
          dict(temperature_ambient=d["tamb"], pv_input="energy", gamma_pdc=-.004,
               temperature_model={"a": -3.47, "b": -0.0594, "deltaT": 3}),
          dict(temperature_ambient=d["tamb"], gamma_pdc=-.005, temperature_model="open_rack_glass_polymer")][v]
    return rdtools.TrendAnalysis(d["pv"], poa_global=d["poa"], **kw)


def point_filters(v, label):
    d = data(v)
    base = dict(normalized_filter={}, poa_filter={}, clearsky_filter={"model": "csi"})
    if v != 3:
        base["clip_filter"] = {"model": "quantile"}
    if v != 2:
        base["tcell_filter"] = {}
    if label == "adhoc":
        m = pd.Series(True, index=d["ix"][5:], dtype=object)
        m.iloc[::17] = False
        m.iloc[3::41] = None
        base["ad_hoc_filter"] = m
    elif label == "sensorcs":
        base["sensor_clearsky_filter"] = {"model": "csi", "threshold": .1}
    elif label == "starve":
        m = pd.Series(False, index=d["ix"])
        m.iloc[:1300] = True
        base["ad_hoc_filter"] = m
    elif label == "loose":
        base = {}
    elif label == "tight":
        base["poa_filter"] = dict(poa_global_low=400)
        base["normalized_filter"] = dict(energy_normalized_low=.1, energy_normalized_high=1.2)
    return base


def period_filters(v, label):
    return {"default": dict(two_way_window_filter={}), "none": {}, "insol": dict(insolation_filter={}),
            "hampel": dict(hampel_filter={"k": "10d"})}[label]


def set_cs(ta, v, label, style=0):
    import pvlib
    d = data(v)
    if v == 4 and style is not None:
        lat, lon = {"A": (40., -105.), "B": (39., -104.)}[label]
        ta.set_clearsky(pvlib_location=pvlib.location.Location(lat, lon, tz="America/Denver"), pv_tilt=20, pv_azimuth=180,
                        solar_position_method="ephemeris")
        return
    a, b = d["cs"][label]
    if label == "B":          # no cell temperature: it is modelled from the ambient one
        if v == 0:
            ta.set_clearsky(poa_global_clearsky=a, temperature_ambient_clearsky=b)
        else:
            ta.set_clearsky(poa_global_clearsky=a, pvlib_location=pvlib.location.Location(40., -105.))
        return
    ta.set_clearsky(poa_global_clearsky=a, temperature_cell_clearsky=b)


def run_analysis(ta, wf, an):
    np.random.seed(7)
    analyses = [dict(yoy="yoy_degradation", srr="srr_soiling", bad_yoy="yoy_degradation", bad_srr="srr_soiling")[a] for a in an]
    yk = {"no_such_option": 1} if "bad_yoy" in an else {}
    sk = dict(reps=4, method="no_such_method") if "bad_srr" in an else dict(reps=4)
    (ta.sensor_analysis if wf == "sensor" else ta.clearsky_analysis)(analyses=analyses, yoy_kwargs=yk, srr_kwargs=sk)


def series_print(ta, wf):
    names = [wf + s for s in ("_aggregated_performance", "_aggregated_insolation", "_filter", "_filter_components",
                              "_filter_aggregated", "_filter_components_aggregated")]
    xs = [getattr(ta, a, None) for a in names]
    return "" if xs[0] is None else fp(xs)


def fresh(job):
    v, key = job
    wf, fpl, apl, freq, cs, an = key
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        ta = new(v)
        ta.aggregation_freq = freq
        ta.filter_params = point_filters(v, fpl)
        ta.filter_params_aggregated = period_filters(v, apl)
        if cs in ("A", "B"):
            set_cs(ta, v, cs)
        try:
            run_analysis(ta, wf, an)
            return dict(key=key, print=fp(ta.results[wf]), perf=series_print(ta, wf))
        except Exception as e:
            return dict(key=key, print="fresh object raises " + exc_name(e) + str(e)[:100], perf="")


def keys_of(case):
    """Keys the history's runs may store (mirrors nothing: only which fresh runs to prepare)."""
    st = dict(fp="default", ap="default", freq="D", cs="unset")
    out = set()
    for op, arg in case["hist"]:
        if op in st:
            st[op] = arg
        elif op in ("sensor", "clearsky"):
            need = op == "clearsky" or st["fp"] == "sensorcs"
            for cs in [st["cs"] if need else "any"]:
                if cs == "unset" or "bad_yoy" in arg or "bad_srr" in arg or ("srr" in arg and st["freq"] != "D"):
                    continue
                if "yoy" in arg and (case["v"] == 4 or st["fp"] == "starve"):
                    continue
                out.add((case["v"], op, st["fp"], st["ap"], st["freq"], cs, tuple(arg)))
    return out


FRESH = {}


def execute(case):
    import matplotlib.pyplot as plt
    v = case["v"]
    ev = dict(data=dict(long=v != 4), steps=[],
              fresh=[FRESH[k] for k in sorted(keys_of(case), key=str)])
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        ta = new(v)
        ta.filter_params = point_filters(v, "default")
        ta.filter_params_aggregated = period_filters(v, "default")
        for n, (op, arg) in enumerate(case["hist"]):
            flav = (case["k"] + n) % 4
            err = ""
            try:
                if op == "fp":
                    if flav == 0:
                        ta.filter_params.clear()
                        ta.filter_params.update(point_filters(v, arg))
                    else:
                        ta.filter_params = point_filters(v, arg)
                elif op == "fpbad":
                    if flav % 2:
                        ta.filter_params = dict(point_filters(v, "tight"), bogus_filter={})
                    else:
                        ta.filter_params.update({"poa_filter": dict(poa_global_low=900), "bogus": {}})
                elif op == "ap":
                    ta.filter_params_aggregated = period_filters(v, arg)
                elif op == "freq":
                    ta.aggregation_freq = arg
                elif op == "cs":
                    set_cs(ta, v, arg)
                elif op == "csbad":
                    d = data(v)
                    ta.set_clearsky(poa_global_clearsky=d["cs"]["A"][0] * 0.5,
                                    temperature_cell_clearsky=[1, 2, 3] if flav % 2 else "hot")
                elif op == "clone":
                    ta = copy.deepcopy(ta) if flav % 2 else pickle.loads(pickle.dumps(ta))
                elif op == "plot":
                    for wf in ("sensor", "clearsky"):
                        if "yoy_degradation" in ta.results.get(wf, {}):
                            ta.plot_degradation_summary(wf)
                            ta.plot_degradation_timeseries(wf)
                        if "srr_soiling" in ta.results.get(wf, {}):
                            ta.plot_soiling_monte_carlo(wf)
                            ta.plot_soiling_interval(wf)
                            ta.plot_soiling_rate_histogram(wf)
                    ta.plot_pv_vs_irradiance("sensor")
                    plt.close("all")
                else:
                    run_analysis(ta, op, arg)
            except Exception as e:
                err = exc_name(e) + ": " + str(e)[:80]
            nm = dict(yoy_degradation="yoy", srr_soiling="srr")
            ev["steps"].append(dict(
                op=op, arg=arg, err=err, workflows=sorted(ta.results),
                sensor=fp(ta.results["sensor"]) if "sensor" in ta.results else "",
                clearsky=fp(ta.results["clearsky"]) if "clearsky" in ta.results else "",
                names=[nm.get(x, x) for x in ta.results.get(op, {})] if op in ("sensor", "clearsky") else [],
                series=dict(sensor=series_print(ta, "sensor"), clearsky=series_print(ta, "clearsky"))))
    return ev, dict(v=v, hist=case["hist"])


def random_case(r, k):
    v = int(r.choice([0, 0, 1, 2, 3, 4]))
    h = []
    for _ in range(int(r.integers(4, 10))):
        op = str(r.choice(["fp", "ap", "freq", "cs", "csbad", "fpbad", "plot", "clone", "sensor", "clearsky"],
                          p=[.15, .05, .05, .12, .03, .03, .04, .03, .25, .25]))
        if op == "fp":
            arg = str(r.choice(["default", "adhoc", "sensorcs", "starve", "loose", "tight"]))
        elif op == "ap":
            arg = str(r.choice(["default", "none", "insol", "hampel"]))
        elif op == "freq":
            arg = str(r.choice(["D", "2D"]))
        elif op == "cs":
            arg = str(r.choice(["A", "B"]))
        elif op in ("sensor", "clearsky"):
            an = [[], ["yoy"], ["srr"], ["yoy", "srr"], ["yoy", "bad_srr"], ["bad_yoy"], ["srr", "bad_yoy"]]
            arg = an[int(r.choice(len(an), p=[.15, .35, .15, .15, .08, .06, .06]))]
        else:
            arg = "-"
        h.append((op, arg))
    return dict(v=v, hist=h, k=k)


def run(c):
    import climate
    climate.install()
    r = c.rng()
    cases = c.model("MC_History")
    n = c.scale(350, 6000)
    items = []
    for k, i in enumerate(sorted(r.permutation(len(cases))[:n])):
        m = cases[int(i)]
        items.append(dict(v=int(r.integers(0, 4)) if m["long"] else 4, k=k,
                          hist=[(o["op"], list(o["arg"]) if o["op"] in ("sensor", "clearsky") else o["arg"]) for o in m["hist"]]))
    # repeated clear-sky set-up without analyses: longer, cheap histories
    more = c.model("MC_History", "MC_History_R.cfg")
    for k, i in enumerate(sorted(r.permutation(len(more))[:c.scale(240, len(more))])):
        m = more[int(i)]
        items.append(dict(v=int(r.integers(0, 4)) if m["long"] else 4, k=k,
                          hist=[(o["op"], list(o["arg"]) if o["op"] in ("sensor", "clearsky") else o["arg"]) for o in m["hist"]]))
    nm = len(items)
    items += [random_case(r, k) for k in range(c.scale(110, 2500))]
    keys = sorted(set().union(*[keys_of(x) for x in items]), key=str)
    for v in range(5):
        data(v)
    got = pmap(fresh, [(k[0], [*k[1:6], list(k[6])]) for k in keys])
    FRESH.update(dict(zip(keys, got)))
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(emitted=len(cases) + len(more), replayed=nm, random_histories=len(items) - nm, fresh_objects=len(keys))
    c.cov["operations"] = sum(len(e["steps"]) for e, _ in ev)
    c.sample(ev[0][0]); c.sample(ev[-1][1])
    c.assumptions += ["random draws are fixed by seeding before each analysis",
                      "the data and model attributes given at construction stay as given"]
    c.validate("TV_History", ev)


if __name__ == "__main__":
    main("C19", run)
