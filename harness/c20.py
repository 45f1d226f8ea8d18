"""C20 the caller's data is never modified; outcomes depend only on the arguments."""
from rdv import *
import contextlib
import hashlib
import inspect
import io
import warnings
import numpy as np
import pandas as pd
import climate

warnings.simplefilter("ignore")
SLOW = {"yoy circular", "plot degradation series"}
PROFILES = ["plain", "named", "holes", "unsorted", "readonly", "freqless", "dups", "ints", "naive", "zerocopy", "extremes"]


# ---------------------------------------------------------------- fingerprints
def fpx(x, h=None, deep=True):
    """Fingerprint of everything a caller can observe of an argument: values, index, names, dtype, frequency."""
    top = h is None
    h = h or hashlib.sha256()
    if isinstance(x, dict):
        h.update(b"D" + type(x).__name__.encode())
        for k in x:
            h.update(repr(k).encode())
            fpx(x[k], h)
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x) + type(x).__name__.encode())
        for a in x:
            fpx(a, h)
    elif isinstance(x, pd.DataFrame):
        h.update(b"F")
        fpx(x.index, h); fpx(x.columns, h)
        for j in range(x.shape[1]):
            fpx(x.iloc[:, j], h)
    elif isinstance(x, pd.Series):
        h.update(b"S" + repr(x.name).encode() + str(x.dtype).encode())
        fpx(x.index, h)
        fpx(x.to_numpy(), h)
    elif isinstance(x, pd.DatetimeIndex):
        h.update(("I%s%r%s%s" % (x.dtype, x.name, x.freqstr, x.tz)).encode() + x.asi8.tobytes())
    elif isinstance(x, pd.Index):
        h.update((repr(x.name) + str(x.dtype) + repr(list(x))).encode())
    elif isinstance(x, np.ndarray):
        h.update(str(x.dtype).encode() + str(x.shape).encode())
        if x.dtype == object:
            h.update(repr([str(a) for a in x.ravel()]).encode())
        else:
            h.update(np.ascontiguousarray(np.where(np.isnan(x), np.nan, x) if x.dtype.kind == "f" else x).tobytes())
    elif isinstance(x, (float, np.floating)):
        h.update(np.float64(x if x == x else np.nan).tobytes())
    else:
        h.update(repr(x).encode())
    return h.hexdigest()[:12] if top else None


def outcome(f, st):
    """What a call returns (or that it raised), as a fingerprint with 10 significant digits."""
    import random
    np.random.seed(7); random.seed(7)
    import matplotlib
    matplotlib.use("Agg", force=False)
    import matplotlib.pyplot as plt
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            res = ("ok", rnd(f(st)))
        except Exception as e:
            res = ("error", exc_name(e))
    plt.close("all")
    return res[0] + ":" + fpx(res[1])


def rnd(x):
    """Round results so that only real differences count."""
    if isinstance(x, dict):
        return {k: rnd(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [rnd(v) for v in x]
    if isinstance(x, pd.DataFrame):
        return [rnd(x[c]) for c in x.columns]
    if isinstance(x, pd.Series):
        return [str(x.index.dtype), list(map(str, x.index[:: max(1, len(x) // 50)])), rnd(x.to_numpy())]
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return np.array([float("%.8g" % v) for v in x.ravel()])
    if isinstance(x, (float, np.floating)):
        return float("%.8g" % x)
    if isinstance(x, (str, int, bool, np.integer, np.bool_, type(None), np.ndarray)):
        return x
    return str(type(x).__name__)


# ---------------------------------------------------------------- the caller's objects
def sun(ix):
    hrs = ix.hour + ix.minute / 60
    return np.clip(np.sin((hrs - 6) / 12 * np.pi), 0, None)


def build(group, seed=0):
    r = np.random.default_rng(40 + seed)
    if group == "intraday":
        ix = pd.date_range("2020-03-01", periods=96 * 10, freq="15min", tz="America/Denver")
        n = len(ix)
        day = np.repeat(r.uniform(.7, 1.2, 10), 96)
        poa = pd.Series(sun(ix) * 1000 * np.minimum(day, 1.05) * r.uniform(.97, 1.02, n), index=ix)
        cs = pd.Series(sun(ix) * 1000., index=ix)
        tcell = pd.Series(20 + sun(ix) * 25 + r.normal(0, 1, n), index=ix)
        power = pd.Series(np.minimum(poa * 2.1 * r.uniform(.99, 1.01, n), 1850.), index=ix)
        energy = power * .25
        tgt = pd.Series(1.0, index=pd.date_range("2020-03-01 00:07", periods=200, freq="20min", tz="America/Denver"))
        return dict(power=power, energy=energy, poa=poa, cs=cs, tcell=tcell, tamb=tcell - 15, wind=pd.Series(r.uniform(0, 5, n), index=ix),
                    expected=poa * 2.0, target=tgt, frame=pd.DataFrame({"a": poa, "b": tcell}), norm=(power / (poa * 2)).where(poa > 5),
                    kws=dict(poa_global=poa.copy(), power_dc_rated=2.0, temperature_cell=tcell.copy(), gamma_pdc=-.004),
                    clip=pd.Series(np.minimum(sun(ix) * 2000, 1500.) * 1.0, index=ix))
    if group in ("daily", "codsg"):
        ix = pd.date_range("2017-01-01", periods=365 * 3 + 20 if group == "daily" else 800, freq="D", tz="UTC")
        n = len(ix)
        soil = np.concatenate([1 - np.arange(k) * .0015 for k in [60, 45, 90, 75] * 5])[:n]
        y = pd.Series(soil * (1 - np.arange(n) / 365 * .01) * (1 + .02 * np.sin(np.arange(n) / 365 * 2 * np.pi)) * r.normal(1, .006, n), index=ix)
        ins = pd.Series(r.uniform(3000, 8000, n), index=ix)
        rain = pd.Series(0.0, index=ix)
        rain.iloc[[k for k in np.cumsum([60, 45, 90, 75] * 3) if k < n]] = 5.0
        st = dict(yield_=y, insol=ins, precip=rain)
        if group == "daily":
            import rdtools
            from rdtools import soiling
            with contextlib.redirect_stdout(io.StringIO()):
                np.random.seed(3)
                a = soiling.SRRAnalysis(y.copy(), ins.copy())
                sr, ci, info = a.run(reps=12)
                rd, rci, yinfo = rdtools.degradation_year_on_year(y.copy(), confidence_level=68.2)
            info["stochastic_soiling_profiles"] = [p.copy() for p in info["stochastic_soiling_profiles"]]
            st.update(profiles=info["stochastic_soiling_profiles"], summary=info["soiling_interval_summary"].copy(), sinfo=info,
                      yinfo=yinfo, monthly=y.resample("MS").mean())
        return st
    if group == "avail":
        ix = pd.date_range("2020-05-01", periods=24 * 40, freq="h", tz="UTC")
        n = len(ix)
        ex = pd.Series(sun(ix) * 300 * r.uniform(.8, 1.1, n), index=ix)
        sub = pd.DataFrame({"i1": ex / 3, "i2": ex / 3 * 1.01, "i3": ex / 3 * .99})
        sub.iloc[100:130, 0] = 0
        sub.iloc[300:350, :] = 0
        sysp = sub.sum(axis=1) * r.uniform(.99, 1.0, n)
        cum = 100 + sysp.cumsum()
        sub.iloc[500:530, 1] = np.nan
        return dict(sys=sysp, sub=sub, cum=cum, expd=ex, sizes=dict(i1=1., i2=1., i3=1.))
    if group == "trend":
        ix = pd.date_range("2018-01-01 06:00", periods=2 * 760, freq="12h", tz="UTC")
        n = len(ix)
        poa = pd.Series(r.uniform(260, 1100, n), index=ix)
        soil = 1 - .02 * ((np.arange(n) % 90) / 90)
        pv = poa * 2 * soil * (1 - np.arange(n) / n * .05) * r.normal(1, .012, n)
        tamb = pd.Series(r.normal(20, 8, n), index=ix)
        hoc = pd.Series(True, index=ix)
        hoc.iloc[10:20] = False
        aix = pd.date_range("2018-01-01", periods=760, freq="D", tz="UTC")
        hag = pd.Series(True, index=aix)
        hag.iloc[30:33] = False
        return dict(pv=pv, poa=poa, tcell=tamb + poa * .02, tamb=tamb, wind=pd.Series(r.uniform(0, 6, n), index=ix), cs=poa * r.uniform(.9, 1.1, n),
                    cstemp=tamb + 9, expected=poa * 2., hoc=hoc, hag=hag, yk=dict(recenter=True, confidence_level=90.), sk=dict(reps=8),
                    analyses=["yoy_degradation", "srr_soiling"],
                    fp=dict(normalized_filter=dict(energy_normalized_low=.02), poa_filter=dict(poa_global_low=250), tcell_filter={},
                            clip_filter=dict(model="quantile", quantile=.97), clearsky_filter=dict(model="csi", threshold=.2), ad_hoc_filter=None),
                    ap=dict(two_way_window_filter=dict(roll_period=5), insolation_filter=dict(quantile=.05), hampel_filter=dict(k="20d"),
                            directional_tukey_filter={}))
    raise KeyError(group)


def disguise(x, profile, r, key=""):
    """The same kind of object as a less tidy caller holds it."""
    if isinstance(x, dict):
        return {k: disguise(v, profile, r, k) for k, v in x.items()}
    if isinstance(x, list):
        return [disguise(v, profile, r) for v in x]
    if not isinstance(x, (pd.Series, pd.DataFrame)) or not len(x):
        return x
    x = x.copy()
    if not isinstance(x.index, pd.DatetimeIndex):
        return x
    ser = isinstance(x, pd.Series) and x.dtype.kind == "f"
    if profile == "named":
        if isinstance(x, pd.Series):
            x.name = "mine " + key
        x.index = x.index.rename("when")
    elif profile == "holes":
        bad = r.random(len(x)) < .04
        if ser:
            x[bad] = np.nan
        elif isinstance(x, pd.DataFrame) and all(d.kind == "f" for d in x.dtypes):
            x.iloc[np.flatnonzero(bad), 0] = np.nan
        elif isinstance(x, pd.Series) and x.dtype == bool:
            x = x.astype(object)
            x[bad] = np.nan
    elif profile == "unsorted":
        if len(x) > 3:
            p = np.arange(len(x)); k = int(len(x) // 2)
            p[k], p[k + 1] = k + 1, k
            x = x.iloc[p]
    elif profile == "readonly":
        if isinstance(x, pd.Series):
            v = x.to_numpy().copy(); v.setflags(write=False)
            x = pd.Series(v, index=x.index, name=x.name, copy=False)
    elif profile == "freqless":
        x.index = pd.DatetimeIndex(list(x.index), name=x.index.name)
    elif profile == "dups":
        if len(x) > 3:
            k = int(len(x) // 2)
            x = pd.concat([x.iloc[:k + 1], x.iloc[k:]])
    elif profile == "ints":
        if ser and not x.isna().any() and x.abs().max() > 50:
            x = x.round().astype(int)
    elif profile == "naive":
        x.index = x.index.tz_localize(None) if x.index.tz is not None else x.index
        if isinstance(x.index, pd.DatetimeIndex) and x.index.freq is None:
            f = pd.infer_freq(x.index) if x.index.is_unique and x.index.is_monotonic_increasing and len(x) > 3 else None
            if f:
                x.index = pd.DatetimeIndex(x.index, freq=f)
    elif profile == "extremes":
        # readings below zero, exact zeros, spikes and an infinity
        if ser and len(x) > 30:
            v = x.to_numpy().copy()
            k = r.permutation(len(v))
            v[k[:5]] = 0.0
            v[k[5:10]] = -np.abs(v[k[5:10]]) - 1
            v[k[10:13]] = 40 * np.abs(v[k[10:13]])
            if key in ("poa", "norm", "clip"):
                v[k[13]] = np.inf
            x = pd.Series(v, index=x.index, name=x.name)
    elif profile == "zerocopy":
        # a series that is a view of a column of the caller's table
        if isinstance(x, pd.Series) and x.dtype.kind == "f":
            x = pd.DataFrame({"c": x.to_numpy(), "d": 1.0}, index=x.index)["c"]
    return x


# ---------------------------------------------------------------- entry points
def T(st, **kw):
    import rdtools
    a = dict(pv=st["pv"], poa_global=st["poa"], temperature_cell=st["tcell"], gamma_pdc=-.004, power_dc_rated=2.)
    a.update(kw)
    return rdtools.TrendAnalysis(**{k: v for k, v in a.items() if v is not None})


def ran(t, case="sensor"):
    return {k: v for k, v in t.results[case].items()}


def both(t, st, **kw):
    t.sensor_analysis(analyses=st["analyses"], yoy_kwargs=st["yk"], srr_kwargs=st["sk"])
    return ran(t)


def noclip(t, st):
    del t.filter_params["clip_filter"]
    return both(t, st)


def cs(t, st, cs=None, **kw):
    t.set_clearsky(poa_global_clearsky=st["cs"], temperature_cell_clearsky=st["cstemp"], **kw)
    t.filter_params = st["fp"]
    t.clearsky_analysis(analyses=st["analyses"], yoy_kwargs=st["yk"], srr_kwargs=st["sk"])
    return ran(t, "clearsky")


def hocs(st):
    t = T(st)
    t.filter_params["ad_hoc_filter"] = st["hoc"]
    t.filter_params_aggregated["ad_hoc_filter"] = st["hag"]
    t.sensor_analysis(analyses=["yoy_degradation"], yoy_kwargs=st["yk"])
    return ran(t)


def cfg(st):
    t = T(st)
    t.filter_params = st["fp"]
    t.filter_params_aggregated = st["ap"]
    t.sensor_analysis(yoy_kwargs=st["yk"])
    t.filter_params["poa_filter"] = {"poa_global_low": 300}
    t.filter_params_aggregated.update(hampel_filter={"k": "10d"})
    return ran(t)


def plots(st):
    t = T(st)
    t.filter_params = st["fp"]
    t.sensor_analysis(analyses=["yoy_degradation", "srr_soiling"], srr_kwargs=st["sk"])
    t.plot_degradation_summary("sensor"); t.plot_soiling_monte_carlo("sensor"); t.plot_soiling_interval("sensor")
    t.plot_soiling_rate_histogram("sensor"); t.plot_pv_vs_irradiance("sensor"); t.plot_degradation_timeseries("sensor")
    return 1


def A(st, **kw):
    import rdtools
    a = rdtools.AvailabilityAnalysis(st["sys"], st["sub"], st["cum"], st["expd"])
    a.run(**kw)
    if kw.get("plot"):
        pass
    return [a.results, a.loss_system, a.loss_subsystem, a.loss_total, a.outage_info, a.energy_expected_rescaled]


def Aplot(st):
    import rdtools
    a = rdtools.AvailabilityAnalysis(st["sys"], st["sub"], st["cum"], st["expd"])
    a.run()
    a.plot()
    rdtools.availability_summary_plots(st["sys"], st["sub"], a.loss_total, st["cum"], a.energy_expected_rescaled, a.outage_info)
    return a.results


def cods(st, **kw):
    from rdtools import soiling
    return list(soiling.CODSAnalysis(st["yield_"]).iterative_signal_decomposition(max_iterations=4, **kw)[0].items())


def codsboot(st):
    from rdtools import soiling
    soiling.CODSAnalysis(st["yield_"]).run_bootstrap(reps=16, max_iterations=2) if 0 else None
    a = soiling.CODSAnalysis(st["yield_"])
    a.run_bootstrap(reps=16, bootstrap_seed=3)
    return [a.soiling_loss, a.degradation, a.result_df]


def entries():
    import rdtools as R
    from rdtools import soiling as S, filtering as F, normalization as N, plotting as P, clearsky_temperature as C
    E = {}
    E["intraday"] = {
        "energy_from_power": lambda s: R.energy_from_power(s["power"]),
        "energy_from_power same freq": lambda s: R.energy_from_power(s["power"], "15min"),
        "energy_from_power hourly": lambda s: R.energy_from_power(s["power"], "h", max_timedelta=pd.Timedelta("1h")),
        "energy_from_power fine": lambda s: R.energy_from_power(s["power"], "5min"),
        "energy_from_power instantaneous": lambda s: R.energy_from_power(s["power"], "h", power_type="instantaneous"),
        "energy_from_power bad type": lambda s: R.energy_from_power(s["power"], power_type="x"),
        "interpolate to irregular": lambda s: R.interpolate(s["power"], s["target"].index[::3].append(s["target"].index[1::7]).sort_values()),
        "interpolate to index": lambda s: R.interpolate(s["power"], s["target"].index, pd.Timedelta("10min")),
        "interpolate to own index": lambda s: R.interpolate(s["poa"], s["poa"].index),
        "interpolate to freq": lambda s: R.interpolate(s["tcell"], "7min"),
        "interpolate frame": lambda s: R.interpolate(s["frame"], s["target"].index, pd.Timedelta("1h")),
        "normalize expected": lambda s: R.normalize_with_expected_power(s["power"], s["expected"], s["poa"]),
        "normalize expected energy": lambda s: R.normalize_with_expected_power(s["energy"], s["expected"], s["poa"], pv_input="energy"),
        "normalize expected hourly": lambda s: R.normalize_with_expected_power(s["energy"].resample("h").sum(), s["expected"], s["poa"], pv_input="energy"),
        "pvwatts power": lambda s: N.pvwatts_dc_power(s["poa"], 2.0, temperature_cell=s["tcell"], gamma_pdc=-.004),
        "pvwatts power no temp": lambda s: N.pvwatts_dc_power(s["poa"], 2.0),
        "normalize pvwatts": lambda s: R.normalize_with_pvwatts(s["energy"], s["kws"]),
        "rescale iterative": lambda s: R.irradiance_rescale(s["poa"], s["cs"]),
        "rescale single": lambda s: R.irradiance_rescale(s["poa"], s["cs"], method="single_opt"),
        "rescale one step": lambda s: R.irradiance_rescale(s["poa"], s["cs"], max_iterations=1, convergence_threshold=1e-30),
        "normalized_filter": lambda s: R.normalized_filter(s["norm"]),
        "normalized_filter bounds": lambda s: R.normalized_filter(s["norm"], .5, 1.01),
        "poa_filter": lambda s: R.poa_filter(s["poa"]),
        "tcell_filter": lambda s: R.tcell_filter(s["tcell"], 0, 40),
        "csi_filter": lambda s: R.csi_filter(s["poa"], s["cs"]),
        "clearsky_filter csi": lambda s: R.clearsky_filter(s["poa"], s["cs"], model="csi", threshold=.1),
        "clearsky_filter pvlib": lambda s: R.clearsky_filter(s["poa"], s["cs"]),
        "pvlib_clearsky_filter plain": lambda s: R.pvlib_clearsky_filter(s["poa"], s["cs"], lookup_parameters=False, window_length=60),
        "clip quantile": lambda s: R.quantile_clip_filter(s["clip"]),
        "clip_filter quantile": lambda s: R.clip_filter(s["clip"], "quantile", quantile=.9),
        "clip logic": lambda s: R.logic_clip_filter(s["clip"]),
        "clip logic tracking": lambda s: R.logic_clip_filter(s["clip"], mounting_type="single_axis_tracking"),
        "clip logic hourly": lambda s: R.logic_clip_filter(s["clip"].resample("h").mean()),
        "clip xgboost": lambda s: R.xgboost_clip_filter(s["clip"]),
        "clip_filter xgboost": lambda s: R.clip_filter(s["clip"], "xgboost", mounting_type="single_axis_tracking"),
        "clip_filter bad": lambda s: R.clip_filter(s["clip"], "no such model"),
        "hour_angle_filter": lambda s: R.hour_angle_filter(s["poa"], 40., -105.),
        "clearsky_tamb": lambda s: R.get_clearsky_tamb(s["poa"].index, 40., -105.),
        "robust_quantile": lambda s: R.robust_quantile(s["power"], .95),
        "robust_median": lambda s: R.robust_median(s["power"]),
        "robust_mean": lambda s: R.robust_mean(s["power"]),
        "aggregation_insol": lambda s: R.aggregation_insol(s["norm"], s["poa"]),
        "aggregation_insol hourly": lambda s: R.aggregation_insol(s["norm"], s["poa"], "h"),
        "tune_filter_plot": lambda s: str(R.tune_filter_plot(s["poa"], s["poa"] > 3)) and 1,
    }
    E["daily"] = {
        "ols": lambda s: R.degradation_ols(s["yield_"]),
        "ols 95": lambda s: R.degradation_ols(s["yield_"], confidence_level=95),
        "classical": lambda s: R.degradation_classical_decomposition(s["monthly"]),
        "classical daily": lambda s: R.degradation_classical_decomposition(s["yield_"]),
        "yoy": lambda s: R.degradation_year_on_year(s["yield_"]),
        "yoy no center": lambda s: R.degradation_year_on_year(s["yield_"], recenter=False, exceedance_prob=80, confidence_level=90),
        "yoy circular": lambda s: (lambda q: [q[0], q[2]["usage_of_points"]])(R.degradation_year_on_year(s["monthly"], uncertainty_method="circular_block", block_length=5)),
        "yoy simple none": lambda s: R.degradation_year_on_year(s["yield_"], uncertainty_method=None),
        "yoy monthly": lambda s: R.degradation_year_on_year(s["monthly"]),
        "two_way": lambda s: R.two_way_window_filter(s["yield_"]),
        "two_way int": lambda s: R.two_way_window_filter(s["yield_"], roll_period=5, outlier_threshold=.01),
        "insolation_filter": lambda s: R.insolation_filter(s["insol"]),
        "hampel": lambda s: R.hampel_filter(s["yield_"]),
        "hampel int": lambda s: R.hampel_filter(s["yield_"], k="5d", t0=2),
        "tukey": lambda s: R.directional_tukey_filter(s["yield_"]),
        "aggregate months": lambda s: R.aggregation_insol(s["yield_"], s["insol"], "MS"),
        "srr": lambda s: S.soiling_srr(s["yield_"], s["insol"], reps=4),
        "srr perfect": lambda s: S.soiling_srr(s["yield_"], s["insol"], reps=4, method="perfect_clean", recenter=False),
        "srr random": lambda s: S.soiling_srr(s["yield_"], s["insol"], reps=4, method="random_clean", trim=True, day_scale=7),
        "srr precip": lambda s: S.soiling_srr(s["yield_"], s["insol"], reps=4, precipitation_daily=s["precip"], clean_criterion="precip_and_shift"),
        "srr precip or": lambda s: S.soiling_srr(s["yield_"], s["insol"], reps=4, precipitation_daily=s["precip"], clean_criterion="precip_or_shift"),
        "srr impossible": lambda s: S.soiling_srr(s["yield_"], s["insol"], reps=4, min_interval_length=5000),
        "annual ratios": lambda s: S.annual_soiling_ratios(s["profiles"], s["insol"]),
        "monthly rates": lambda s: S.monthly_soiling_rates(s["summary"], reps=50),
        "monthly rates strict": lambda s: S.monthly_soiling_rates(s["summary"], min_interval_length=70, max_relative_slope_error=5, reps=50, confidence_level=90),
        "plot degradation": lambda s: (P.degradation_summary_plots(1., [0, 2], s["yinfo"], s["yield_"]), 1)[1],
        "plot degradation detailed": lambda s: (P.degradation_summary_plots(1., [0, 2], s["yinfo"], s["yield_"], detailed=True, bins=10), 1)[1],
        "plot degradation series": lambda s: (P.degradation_timeseries_plot(s["yinfo"], rolling_days=300), 1)[1],
        "plot degradation series bare": lambda s: (P.degradation_timeseries_plot(s["yinfo"], rolling_days=300, include_ci=False), 1)[1],
        "plot soiling": lambda s: (P.soiling_monte_carlo_plot(s["sinfo"], s["yield_"], profiles=3), 1)[1],
        "plot intervals": lambda s: (P.soiling_interval_plot(s["sinfo"], s["yield_"]), 1)[1],
        "plot rates": lambda s: (P.soiling_rate_histogram(s["sinfo"]), 1)[1],
    }
    E["avail"] = {
        "availability": lambda s: A(s),
        "availability weekly": lambda s: A(s, rollup_period="W", low_threshold=3., quantiles=(.1, .9)),
        "availability sizes": lambda s: A(s, relative_sizes=s["sizes"], power_system_limit=250.),
        "availability plot": Aplot,
    }
    E["codsg"] = {
        "cods": lambda s: cods(s),
        "cods no seasonal": lambda s: cods(s, order=("SR", "Rd")),
        "cods STL bfill": lambda s: cods(s, degradation_method="STL", ffill=False, clip_soiling=False),
        "cods bad order": lambda s: cods(s, order=("SC", "Rd")),
    }
    E["trend"] = {
        "sensor": lambda s: (lambda t: (t.sensor_analysis(), ran(t))[1])(T(s)),
        "sensor both": lambda s: both(T(s), s),
        "sensor ambient": lambda s: both(T(s, temperature_cell=None, temperature_ambient=s["tamb"], windspeed=s["wind"], power_dc_rated=None), s),
        "sensor energy": lambda s: noclip(T(s, pv_input="energy"), s),
        "sensor expected": lambda s: both(T(s, power_expected=s["expected"]), s),
        "sensor interp": lambda s: both(T(s, interp_freq="8h", max_timedelta=pd.Timedelta("20h")), s),
        "sensor weekly": lambda s: (lambda t: (t.sensor_analysis(yoy_kwargs=s["yk"]), ran(t))[1])(T(s, aggregation_freq="W")),
        "clearsky": lambda s: cs(T(s), s),
        "clearsky no sensor": lambda s: cs(T(s, power_dc_rated=None), s),
        "ad hoc filters": hocs,
        "configured filters": cfg,
        "short data": lambda s: both(T(s, pv=s["pv"].iloc[:300]), s),
        "bad analysis": lambda s: (lambda t: (t.sensor_analysis(analyses=s["analyses"], srr_kwargs={"reps": 4, "method": "x"}), ran(t))[1])(T(s)),
        "plots": plots,
    }
    E["codsboot"] = {"cods bootstrap": codsboot}
    return E


_E = {}


def defaults():
    """Default arguments of every public function, which all calls share."""
    import rdtools
    from rdtools import soiling, filtering, normalization, degradation, availability, analysis_chains, aggregation, plotting
    d = {}
    for m in (soiling, filtering, normalization, degradation, availability, analysis_chains, aggregation, plotting):
        for name, o in inspect.getmembers(m):
            if inspect.isfunction(o) and o.__module__ == m.__name__:
                d[m.__name__ + "." + name] = [o.__defaults__, o.__kwdefaults__]
            elif inspect.isclass(o) and o.__module__ == m.__name__:
                for n2, f in vars(o).items():
                    if inspect.isfunction(f):
                        d[m.__name__ + "." + name + "." + n2] = [f.__defaults__, f.__kwdefaults__]
    return d


_BUILT = {}


def built(group):
    if group not in _BUILT:
        _BUILT[group] = build("codsg" if group == "codsboot" else group)
    return _BUILT[group]


def store(group, profile, version):
    """Version 0 is the caller's data in this profile; version 1 has one of its objects changed."""
    import copy
    st = disguise(copy.deepcopy(built(group)), profile, np.random.default_rng(5))
    return edit(st, version)


MAIN = dict(intraday=["power", "poa", "clip", "norm", "tcell"], daily=["yield_", "monthly"], avail=["cum", "sys"], codsg=["yield_"], codsboot=["yield_"], trend=["pv"])
KEEP = {}


def edit(st, version, keep=None):
    """The caller changes objects in place (version 1) or back (version 0)."""
    for g, names in MAIN.items():
        for nm in names:
            if nm not in st or not isinstance(st[nm], pd.Series):
                continue
            s = st[nm]
            k = slice(len(s) // 3, len(s) // 3 + 30)
            if version == 1:
                if keep is not None:
                    keep[nm] = s.iloc[k].copy()
                new = (s.iloc[k] * (2 if s.dtype.kind == "i" else .97)).astype(s.dtype)
            elif keep is not None and nm in keep:
                new = keep[nm]
            else:
                continue
            try:
                s.iloc[k] = new.to_numpy()
            except ValueError:              # read-only data is replaced instead
                v = s.to_numpy().copy(); v[k] = new.to_numpy(); v.setflags(write=False)
                st[nm] = pd.Series(v, index=s.index, name=s.name, copy=False)
    return st


def look(st):
    names = sorted(st)
    return names + ["default arguments"], [fpx(st[n]) for n in names] + [fpx(defaults())]


def execute(it):
    group, profile = it["group"], it["profile"]
    E = _E.setdefault("E", entries())[group]
    st, keep = store(group, profile, 0), {}
    objs, start = look(st)
    steps, version, keys = [], 0, {}
    for o in it["hist"]:
        if o["op"] == "edit":
            edit(st, o["version"], keep)
            version = o["version"]
            steps.append(dict(op="edit", entry="", after=look(st)[1], outcome=""))
        else:
            name = it["names"][o["entry"] - 1]
            before = look(st)[1]
            res = outcome(E[name], st)
            steps.append(dict(op="call", entry=name, after=look(st)[1], outcome=res))
            keys[(name, version)] = before
    fresh = []
    for (name, v), s in list(keys.items())[: it.get("fresh", 1)]:
        f = store(group, profile, v)
        fresh.append(dict(entry=name, store=look(f)[1], outcome=outcome(E[name], f)))
    return dict(k=it["k"], group=group, profile=profile, objs=objs, start=start, steps=steps, fresh=fresh), it


def run(c):
    hists = [x["hist"] for x in c.model("MC_Frame", cfg="MC_Frame_T" if c.tier == "thorough" else None)]
    climate.install()
    E = entries()
    r = c.rng()
    items = []
    add = lambda **kw: items.append(dict(k=len(items), **kw))
    two = [{"op": "call", "entry": 1}, {"op": "call", "entry": 1}]
    for g, es in E.items():
        if g == "codsboot":
            if c.tier == "thorough":
                for p in ["plain", "named", "holes"]:
                    add(group=g, profile=p, names=["cods bootstrap"], hist=two[:1], fresh=0)
            continue
        for name in es:
            slow = g == "codsg" or name in SLOW
            profs = PROFILES if not slow or c.tier == "thorough" else ["named", "holes", "readonly"]
            for p in profs:
                add(group=g, profile=p, names=[name], hist=two[: 1 if slow or g == "trend" else 2], fresh=1 if p == "named" else 0)
        names = [n for n in es if n not in SLOW]
        nn = dict(intraday=220, daily=60, avail=16, trend=12, codsg=2)[g] if c.tier == "quick" else \
            dict(intraday=6000, daily=1500, avail=150, trend=200, codsg=24)[g]
        for _ in range(nn):
            h = hists[int(r.integers(len(hists)))]
            pick = [names[int(r.integers(len(names)))] for _ in range(3)]
            add(group=g, profile=PROFILES[int(r.integers(len(PROFILES)))], names=pick, hist=h, fresh=2)
    # the slow ones first, so that workers stay busy
    cost = dict(codsboot=0, codsg=1, trend=2, avail=3, daily=4, intraday=5)
    items.sort(key=lambda x: cost[x["group"]])
    for g in E:
        built(g)
    ev = pmap(execute, items, chunk=1)
    good = {}
    for e, _ in ev:
        if isinstance(e, dict) and "steps" in e:
            for s in e["steps"]:
                if s["op"] == "call":
                    good.setdefault(s["entry"], [0, 0])[s["outcome"].startswith("ok")] += 1
    c.cov["entry_points"] = {k: dict(raised=v[0], returned=v[1]) for k, v in good.items()}
    c.cov["profiles"] = PROFILES
    c.cov["model_cases"] = dict(histories=len(hists), records=len(items))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.assumptions += ["the numpy seed is set before every call", "outcomes compared to 8 significant digits",
                      "observable state of an argument: values, dtype, index, names, frequency, zone"]
    c.validate("TV_Frame", ev)


if __name__ == "__main__":
    main("C20", run)
