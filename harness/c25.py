"""C25 workflow composition."""
from rdv import *
import contextlib
import io
import warnings
import numpy as np
import pandas as pd

SAPM = {"open_rack_glass_polymer": (-3.56, -.075, 3), "open_rack_glass_glass": (-3.47, -.0594, 3), "close_mount_glass_glass": (-2.98, -.0471, 1),
        "insulated_back_glass_polymer": (-2.81, -.0455, 0)}
EPOCH = pd.Timestamp("1970-01-01")
MIN = pd.Timedelta("1min")


def minutes(ix):
    u = ix if ix.tz is None else ix.tz_convert("UTC").tz_localize(None)
    return [int((x - EPOCH) // MIN) if (x - EPOCH) % MIN == pd.Timedelta(0) else -7 for x in u]


def zone_of(tz, t0, t1):
    if tz is None:
        return [[-10**8, 0]]
    ix = pd.date_range(EPOCH + (t0 - 2000) * MIN, EPOCH + (t1 + 3000) * MIN, freq="1h").floor("h").tz_localize("UTC").tz_convert(tz)
    out, last = [], None
    for x, m in zip(ix, minutes(ix)):
        o = int(x.utcoffset() // MIN)
        if o != last:
            out.append([m if out else -10**8, o]); last = o
    return out


def series(case):
    """The recorded signals of a case: dict of pandas series."""
    tz = case["tz"]

    def mk(s):
        if s is None:
            return None
        ix = pd.DatetimeIndex([EPOCH + k * MIN for k in s["t"]])
        if tz:
            ix = ix.tz_localize("UTC").tz_convert(tz)
        if case["freq_attr"]:
            try:
                ix = pd.DatetimeIndex(ix, freq="infer")
            except ValueError:
                pass
        return pd.Series(s["v"], index=ix, dtype=float)
    return {k: mk(case[k]) for k in ("pv", "poa", "tcell", "tamb", "cs_poa", "cs_tcell", "cs_tamb", "expected")} | \
        dict(wind=mk(case["wind"]) if isinstance(case["wind"], dict) else case["wind"])


def q(s):
    return dict(t=s["t"], v=nums(s["v"])) if s is not None else dict(t=[], v=[])


def short(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import rdtools
        from rdtools import soiling  # noqa: warns once that it is experimental
    s = series(case)
    clear = case["workflow"] == "clearsky"
    sap = case["sapm"] if isinstance(case["sapm"], (list, tuple)) else SAPM[case["sapm"] or "open_rack_glass_polymer"]
    t0, t1 = case["pv"]["t"][0], case["pv"]["t"][-1]
    ev = dict(kind="series", modelled=False, climate=False, workflow=case["workflow"], energy=case["energy"], interp=case["interp"], gap=case["gap"],
              rated=num(case["rated"]) if case["rated"] is not None else "", gamma=num(case["gamma"]) if case["gamma"] is not None else "",
              sapm=[num(x) for x in sap], freq=case["freq"], mult=case["mult"], zone=zone_of(case["tz"], t0, t1),
              wind_const=num(case["wind"]) if not isinstance(case["wind"], dict) else "0", adhoc=case["adhoc"],
              refuse=case.get("refuse", ""), err="", labels=[], perf=[], ins=[], out_energy=dict(t=[], v=[]), out_poa=[], out_tcell=[])
    for k in ("pv", "poa", "tcell", "tamb", "cs_poa", "cs_tcell", "cs_tamb", "expected"):
        ev[k] = q(case[k])
    ev["wind"] = q(case["wind"] if isinstance(case["wind"], dict) else None)
    fl = {}
    for k, v in case["filters"].items():
        fl[k] = dict(pts=v["pts"], thr=num(v["thr"])) if k == "two_way" else [num(x) for x in v]
    ev["filters"] = fl
    name = dict(D="%dD" % case["mult"], S="%dmin" % case["mult"], W="W", MS="MS")[case["freq"]]
    if name == "1D":
        name = "D"
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            kw = dict(poa_global=s["poa"], temperature_cell=s["tcell"], temperature_ambient=s["tamb"], power_expected=s["expected"],
                      power_dc_rated=case["rated"], gamma_pdc=case["gamma"])
            kw = {k: v for k, v in kw.items() if v is not None}
            if case["energy"]:
                kw["pv_input"] = "energy"
            if case["interp"]:
                kw["interp_freq"] = "%dmin" % case["interp"]
            if case["gap"]:
                kw["max_timedelta"] = pd.Timedelta(case["gap"], "min")
            if isinstance(s["wind"], pd.Series) or s["wind"]:
                kw["windspeed"] = s["wind"]
            if case["sapm"]:
                kw["temperature_model"] = dict(zip(("a", "b", "deltaT"), sap)) if isinstance(case["sapm"], (list, tuple)) else case["sapm"]
            if name != "D":
                kw["aggregation_freq"] = name
            t = rdtools.TrendAnalysis(s["pv"], **kw)
            fp, f = {}, case["filters"]
            if "normalized" in f:
                fp["normalized_filter"] = dict(energy_normalized_low=f["normalized"][0], energy_normalized_high=f["normalized"][1])
            if "poa" in f:
                fp["poa_filter"] = dict(poa_global_low=f["poa"][0], poa_global_high=f["poa"][1])
            if "tcell" in f:
                fp["tcell_filter"] = dict(temperature_cell_low=f["tcell"][0], temperature_cell_high=f["tcell"][1])
            if "clip" in f:
                fp["clip_filter"] = dict(model="quantile", quantile=f["clip"][0])
            if "csi" in f:
                fp["clearsky_filter" if clear else "sensor_clearsky_filter"] = dict(model="csi", threshold=f["csi"][0])
            ap = {}
            if "two_way" in f:
                ap["two_way_window_filter"] = dict(roll_period=f["two_way"]["pts"], outlier_threshold=f["two_way"]["thr"])
            if "insolation" in f:
                ap["insolation_filter"] = dict(quantile=f["insolation"][0])
            t.filter_params = fp
            t.filter_params_aggregated = ap
            if case["cs_poa"] is not None:
                t.set_clearsky(**{k: v for k, v in dict(poa_global_clearsky=s["cs_poa"], temperature_cell_clearsky=s["cs_tcell"],
                                                         temperature_ambient_clearsky=s["cs_tamb"]).items() if v is not None})
            if case["adhoc"]:
                h = pd.Series(True, index=t.pv_energy.index)
                h[[m in set(case["adhoc"]) for m in minutes(h.index)]] = False
                t.filter_params["ad_hoc_filter"] = h
            (t.clearsky_analysis if clear else t.sensor_analysis)(analyses=[])
            p = t.clearsky_aggregated_performance if clear else t.sensor_aggregated_performance
            g = t.clearsky_aggregated_insolation if clear else t.sensor_aggregated_insolation
            poa = t.poa_global_clearsky if clear else t.poa_global
            tc = t.temperature_cell_clearsky if clear else t.temperature_cell
    except Exception as e:
        ev["err"] = exc_name(e)
        return ev, dict(case, msg=str(e)[:300])
    lab = lambda ix: minutes(ix) if case["freq"] == "S" else [int((x.tz_localize(None).normalize() - EPOCH).days) for x in ix]
    ev["labels"] = lab(p.index)
    if lab(g.index) != ev["labels"]:
        ev["labels"] = [-1]
    ev["perf"], ev["ins"] = nums(p.values), nums(g.values)
    ev["out_energy"] = dict(t=minutes(t.pv_energy.index), v=nums(t.pv_energy.values))
    ev["out_poa"] = nums(poa.values)
    ev["out_tcell"] = nums(tc.values) if tc is not None else []
    return ev, case


def long(case):
    """Two years and a bit: results against the analysis of the reported series."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import rdtools
        from rdtools import soiling
    r = np.random.default_rng(case["seed"])
    ix = pd.date_range(case["start"], periods=2 * case["days"], freq="12h", tz=case["tz"])
    n = len(ix)
    poa = pd.Series(r.uniform(260, 1100, n), index=ix)
    soil = 1 - .03 * ((np.arange(n) % 97) / 97)
    pv = poa * 2 * soil * (1 - np.arange(n) / n * .04) * r.normal(1, .01, n)
    hoc = pd.Series(True, index=ix)
    if case["cut"][0]:
        hoc.iloc[:2 * case["cut"][0]] = False
    if case["cut"][1]:
        hoc.iloc[-2 * case["cut"][1]:] = False
    if case["holes"]:
        hoc[r.random(n) < .1] = False
    clear = case["workflow"] == "clearsky"
    ev = dict(kind="result", span=-1, asks_yoy="yoy_degradation" in case["analyses"], own=True, err="", same=True, regular=True)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        t = rdtools.TrendAnalysis(pv, poa_global=poa, temperature_cell=poa * .02 + 15, gamma_pdc=-.004, power_dc_rated=2.,
                                  aggregation_freq=case["freq"])
        t.filter_params = dict(normalized_filter={}, poa_filter={}, ad_hoc_filter=hoc)
        t.filter_params_aggregated = {}
        if clear or case["other"]:
            t.set_clearsky(poa_global_clearsky=poa * .98, temperature_cell_clearsky=poa * .02 + 14)
        run = t.clearsky_analysis if clear else t.sensor_analysis
        if case["other"]:                       # the other workflow of the same analysis comes first
            (t.sensor_analysis if clear else t.clearsky_analysis)(analyses=[])
        np.random.seed(case["seed"] % 1000)
        try:
            run(analyses=case["analyses"], yoy_kwargs=case["yk"], srr_kwargs=case["sk"])
        except Exception as e:
            ev["err"] = exc_name(e)
            msg = str(e)
        p = t.clearsky_aggregated_performance if clear else t.sensor_aggregated_performance
        g = t.clearsky_aggregated_insolation if clear else t.sensor_aggregated_insolation
        ev["regular"] = bool(p.index.freq == pd.tseries.frequencies.to_offset(case["freq"]) and g.index.equals(p.index))
        ev["span"] = int((p.index[-1] - p.index[0]) // MIN) if len(p) else 0
        # the same analyses of the reported series
        np.random.seed(case["seed"] % 1000)
        want = {}
        try:
            if "yoy_degradation" in case["analyses"]:
                a, b, c = rdtools.degradation_year_on_year(p.copy(), **case["yk"])
                want["yoy_degradation"] = dict(p50_rd=a, rd_confidence_interval=b, calc_info=c)
            if "srr_soiling" in case["analyses"]:
                if case["freq"] != "D":
                    raise ValueError("daily")
                a, b, c = soiling.soiling_srr(p.copy(), g.copy(), **case["sk"])
                want["srr_soiling"] = dict(p50_sratio=a, sratio_confidence_interval=b, calc_info=c)
        except Exception as e:
            ev["own"] = False
        if not ev["err"] and ev["own"]:
            import c19
            ev["same"] = c19.fp(t.results[case["workflow"]]) == c19.fp(want)
    if ev["err"]:
        case = dict(case, msg=msg[:200])
    return ev, case


def execute(case):
    return short(case) if case["kind"] == "series" else long(case)


def from_model(c, k):
    o, n = c["cfg"], len(c["pv"])
    t = [26280000 + 120 + i * 360 for i in range(n)]
    S = lambda v: dict(t=t, v=[float(x) for x in v])
    irr = [400 + 150 * (i % 4) for i in range(1, n + 1)]
    temp = [20 + 5 * (i % 3) for i in range(1, n + 1)]
    clear = o["workflow"] == "clearsky"
    if o["freq"][0] == "S" and k % 2:
        tz = ["UTC", "Asia/Kolkata"][k // 2 % 2]
    else:
        tz = [None, "UTC", "Asia/Kolkata", "America/Phoenix"][k % 4]
    fl = {}
    if o["filt"] == "band":
        fl = dict(normalized=[.02, 9.], poa=[300., 900.])
    elif o["filt"] == "clip":
        fl = dict(clip=[.9])
    if o["period"] == "insolation":
        fl["insolation"] = [.25]
    g = Fraction(o["gamma"]) if o["gamma"] else None
    return dict(kind="series", workflow=o["workflow"], energy=o["energy"], pv=S(missing(c["pv"])), poa=S(irr),
                tcell=S(temp) if o["temp"] == "cell" and not clear else None, tamb=S(temp) if o["temp"] == "ambient" and not clear else None,
                cs_poa=S(irr) if clear else None, cs_tcell=S(temp) if clear and o["temp"] == "cell" else None,
                cs_tamb=S(temp) if clear and o["temp"] == "ambient" else None, wind=S([i % 3 for i in range(1, n + 1)]) if o["wind"] else 0,
                sapm=None, rated=float(o["rated"]) if o["rated"] else None, gamma=float(g) if g is not None else None,
                expected=S([2 * x for x in irr]) if o["expected"] else None, interp=o["interp"], gap=o["gap"], freq=o["freq"][0], mult=o["freq"][1],
                adhoc=[], filters=fl, tz=tz, freq_attr=k % 3 != 0,
                refuse="clipping needs power" if o["filt"] == "clip" and o["energy"] else "")


def rand_case(r, k):
    step = int(r.choice([15, 30, 60, 60, 120, 360]))
    n = int(r.integers(12, 70))
    freq, mult = [("D", 1), ("D", 1), ("D", 2), ("S", 60 * int(r.choice([2, 6, 12]))), ("W", 1), ("MS", 1)][int(r.integers(0, 6))]
    if freq in ("W", "MS"):
        step = int(r.choice([360, 720])); n = int(r.integers(40, 110))
    tz = [None, "UTC", "Asia/Kolkata", "America/Denver"][int(r.integers(0, 4))]
    day = ["2020-03-06", "2021-07-30", "2019-12-29", "2020-02-27"][int(r.integers(0, 4))]
    if freq == "S":
        tz = [None, "UTC", "Asia/Kolkata"][int(r.integers(0, 3))]
    t0 = int((pd.Timestamp(day) - EPOCH) // MIN) + int(r.choice([0, 420, 600, 375, 390, 437]))
    energy = bool(r.random() < .3)

    def times(same=False):
        """sampling times of another instrument"""
        if same or r.random() < .45:
            return [t0 + i * step for i in range(n)]
        st = int(step * r.choice([1, 1, 2, .5]))
        st = max(st, 1)
        o = int(r.choice([0, 0, 5, -st, 3]))
        m = [t0 + o + i * st for i in range(int(n * step / st) + int(r.integers(-1, 3)))]
        if r.random() < .3:
            m = [x for x in m if r.random() < .92] or m
        return m
    tp = times(True)
    if not energy and r.random() < .25:
        tp = [x for i, x in enumerate(tp) if i in (0, 1, 2, n - 1) or r.random() < .93]
        interp = int(step * r.choice([1, 1, 2, .5])) or 0
    else:
        interp = int(step * r.choice([1, 2, .5])) if (not energy and r.random() < .2) else 0
    ser = lambda t, lo, hi, h=.06: dict(t=t, v=[float("nan") if 1 < i < len(t) - 2 and r.random() < h else float(np.round(r.uniform(lo, hi), 2)) for i in range(len(t))])
    clear = bool(r.random() < .4)
    exp = bool(r.random() < .25)
    tmode = ["cell", "cell", "ambient", "ambient"][int(r.integers(0, 4))]
    rated = float(r.choice([2, 1.5, 310])) if r.random() < .5 else None
    h = float(r.choice([0, .06, .06]))
    poa = ser(times(), 150, 1150, h)
    if interp >= 1440 and tz == "America/Denver":   # pandas infers no frequency for 24 h steps across a clock change
        tz = "UTC"
    fl = {}
    if r.random() < .5:
        fl["normalized"] = [.01, 5.] if r.random() < .5 or exp else [.3, 1.2]
    if r.random() < .6:
        fl["poa"] = [200., 1200.] if r.random() < .5 else [417.3, 900.1]
    if r.random() < .4:
        fl["tcell"] = [-50., 110.] if r.random() < .4 else [3.2, 41.7]
    if r.random() < .25 and not energy:
        fl["clip"] = [float(r.choice([.98, .9, .8]))]
    if r.random() < .3:
        fl["csi"] = [float(r.choice([.15, .5, .4]))]
    if r.random() < .3:
        fl["two_way"] = dict(pts=int(r.choice([5, 5, 7])), thr=float(r.choice([.03, .2, .4])))
    if r.random() < .3:
        fl["insolation"] = [float(r.choice([.1, .3, .6]))]
    hascs = clear or "csi" in fl
    c = dict(kind="series", workflow="clearsky" if clear else "sensor", energy=energy, pv=ser(tp, 50, 2000, h), poa=poa,
             tcell=ser(times(), 5, 55, h) if tmode == "cell" and not (exp and "tcell" not in fl) else None,
             tamb=ser(times(), -10, 40, h) if (tmode == "ambient" or r.random() < .2) else None,
             cs_poa=ser(times(), 150, 1150, h) if hascs else None, cs_tcell=ser(times(), 5, 55, h) if hascs and tmode == "cell" else None,
             cs_tamb=ser(times(), -10, 40, h) if hascs and (tmode == "ambient" or r.random() < .2) else None,
             wind=[0, 0, 2.5, ser(times(), 0, 9, h)][int(r.integers(0, 4))],
             sapm=[None, None, "open_rack_glass_glass", "close_mount_glass_glass", "insulated_back_glass_polymer", (-3.2, -.06, 2.5)][int(r.integers(0, 6))],
             rated=rated, gamma=[None, -.004, -.0035][int(r.integers(0, 3))], expected=ser(times(), 100, 2500, h) if exp else None,
             interp=interp, gap=int(step * r.choice([0, 0, 1, 3, 4.5])), freq=freq, mult=mult,
             adhoc=[t0 + int(i) * step for i in r.integers(1, n, int(r.integers(1, 6)))] if r.random() < .2 else [],
             filters=fl, tz=tz, freq_attr=bool(r.random() < .7))
    if "tcell" in fl and exp and not clear and c["tcell"] is None:
        del fl["tcell"]
    return c


def long_case(r, k):
    freq = ["D", "D", "W", "D"][k % 4]
    an = [["yoy_degradation"], ["yoy_degradation", "srr_soiling"], ["srr_soiling"], []][int(r.integers(0, 4))] if freq == "D" else ["yoy_degradation"]
    if k % 16 == 3:
        freq, an = "W", ["srr_soiling"]
    days = int(r.choice([731, 740, 760]))
    span = int(r.choice([722, 725, 728, 729, 730, 731]))
    cut = [0, 0] if k % 3 == 0 else [int(r.integers(0, max(1, days - span))), 0]
    if cut[0]:
        cut[1] = max(0, days - 1 - span - cut[0])
    return dict(kind="long", seed=int(r.integers(1, 10**6)), start=str(r.choice(["2017-01-01 06:00", "2018-05-20 06:00", "2019-01-01 06:00"])), days=days, cut=cut, freq=freq,
                tz=[None, "UTC", "Asia/Kolkata"][k % 3], holes=bool(r.random() < .5), workflow=["sensor", "clearsky"][int(r.integers(0, 2))], other=bool(r.random() < .4),
                analyses=an, yk=[{}, dict(confidence_level=90., recenter=False), dict(exceedance_prob=80)][int(r.integers(0, 3))],
                sk=[dict(reps=4), dict(reps=5, method="perfect_clean"), dict(reps=4, day_scale=9, confidence_level=90.)][int(r.integers(0, 3))])


def run(c):
    cases = c.model("MC_Workflow", cfg="MC_Workflow_T" if c.tier == "thorough" else None)
    r = c.rng()
    n = c.scale(900, len(cases))
    sel = [cases[i] for i in sorted(r.permutation(len(cases)))[:n]]
    items = [from_model(x, k) for k, x in enumerate(sel)]
    items += [rand_case(r, k) for k in range(c.scale(900, 9000))]
    items += [long_case(r, k) for k in range(c.scale(90, 700))]
    ev = pmap(execute, items, chunk=4)
    c.cov["model_cases"] = dict(emitted=len(cases), replayed=len(sel), random=len(items) - len(sel))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.assumptions += ["records in which a filter compares numbers equal to double precision are not judged",
                      "clear-sky inputs are given here; modelled ones are C28's"]
    c.validate("TV_Workflow", ev)


if __name__ == "__main__":
    main("C25", run)
