"""C27 the figures show the reported results."""
from rdv import *
import contextlib
import io
import re
import warnings
import numpy as np
import pandas as pd

warnings.simplefilter("ignore")


def secs(ts, t0):
    """Seconds from t0 of timestamps, or of matplotlib's day numbers."""
    import matplotlib.dates as md
    out = []
    base = md.date2num(np.datetime64(pd.Timestamp(t0).tz_convert("UTC").tz_localize(None) if pd.Timestamp(t0).tz is not None else pd.Timestamp(t0)))
    for t in ts:
        if not isinstance(t, (float, np.floating, int)):
            t = pd.Timestamp(t)
            t = md.date2num(np.datetime64(t.tz_convert("UTC").tz_localize(None) if t.tz is not None else t))
        out.append(int(round((float(t) - base) * 86400)))
    return out


def pts(x, y, t0):
    return [dict(t=a, v=num(float(b))) for a, b in zip(secs(x, t0), y)]


def curve(line, t0):
    return pts(line.get_xdata(orig=False), np.ma.filled(np.ma.asarray(line.get_ydata(orig=False), dtype=float), np.nan), t0)


def colour(rgba, own):
    import matplotlib.colors as mc
    h = mc.to_hex(rgba)
    # matplotlib shows "green" as #008000
    return "own" if h == mc.to_hex(own) else {mc.to_hex("red"): "red", mc.to_hex("green"): "green"}.get(h, h)


def bars(ax):
    p = ax.patches
    e = [q.get_x() for q in p] + [p[-1].get_x() + p[-1].get_width()]
    return dict(edges=nums([float(v) for v in e]), counts=[int(round(q.get_height())) for q in p])


def values(x):
    return nums(np.asarray(x, dtype=float))


def isfig(f):
    import matplotlib.figure
    return isinstance(f, matplotlib.figure.Figure)


# ------------------------------------------------------------------ readers of figures
def summary(call, rd, ci, info, y, kw):
    t0 = y.index[0]
    own = kw.get("plot_color") or "C0"
    ev = dict(kind="summary", err="", t=secs(y.index, t0), **{"yield": values(y)}, renorm=num(float(info["renormalizing_factor"])), rd=num(float(rd)), low=num(float(ci[0])), high=num(float(ci[1])),
              rates=values(info["YoY_values"]), nrates=len(info["YoY_values"]), detailed=bool(kw.get("detailed", False)), bins=int(kw.get("bins") or 0),
              usage=[int(v) for v in info["usage_of_points"].reindex(y.index).fillna(0)])
    fig = call()
    ev["figure"] = isfig(fig)
    a1, a2 = fig.axes
    sc = a1.collections[0]
    off = np.ma.filled(sc.get_offsets().astype(float), np.nan) if np.ma.isMaskedArray(sc.get_offsets()) else np.asarray(sc.get_offsets(), dtype=float)
    x = np.asarray(np.ma.getdata(sc.get_offsets())[:, 0], dtype=float)
    fc = sc.get_facecolors()
    ev["points"] = [dict(p, c=colour(fc[i if len(fc) > 1 else 0], own)) for i, p in enumerate(pts(x, off[:, 1], t0))]
    ev["line"] = curve(a1.lines[0], t0)
    ev.update(bars(a2))
    ev["mark"] = num(float(a2.lines[0].get_xdata()[0]))
    txt = a2.texts[0].get_text()
    m = re.findall(r"-?\d+\.\d+|-?nan|(?<=n = )\d+", txt)
    ev["caption"] = [num(float(v)) for v in m]
    ok = True
    for ax, get, lo, hi in ((a2, "get_xlim", "hist_xmin", "hist_xmax"), (a1, "get_ylim", "scatter_ymin", "scatter_ymax")):
        a, b = getattr(ax, get)()
        ok &= kw.get(lo) is None or a == kw[lo]
        ok &= kw.get(hi) is None or b == kw[hi]
    ok &= kw.get("summary_title") is None or (fig._suptitle is not None and fig._suptitle.get_text() == kw["summary_title"])
    ev["limits"] = bool(ok)
    return ev


def profiles(call, info, y, kw, which):
    t0 = y.index[0]
    ps = info["stochastic_soiling_profiles"] if which == "mc" else [info["soiling_ratio_perfect_clean"]]
    ev = dict(kind="profiles", err="", t=secs(y.index, t0), **{"yield": values(y)}, renorm=num(float(info["renormalizing_factor"])), asked=int(kw.get("profiles") or 0),
              profiles=[dict(t=secs(p.index, t0), v=values(p)) for p in ps])
    fig = call()
    ev["figure"] = isfig(fig)
    ax = fig.axes[0]
    ev["points"] = curve(ax.lines[0], t0)
    ev["curves"] = [curve(l, t0) for l in ax.lines[1:]]
    a, b = ax.get_ylim()
    ev["limits"] = bool((kw.get("ymin") is None or a == kw["ymin"]) and (kw.get("ymax") is None or b == kw["ymax"]))
    return ev


def rates(call, info, kw):
    s = info["soiling_interval_summary"]
    v = [100 * float(x) for x, ok in zip(s["soiling_rate"], s["valid"]) if ok]
    ev = dict(kind="rates", err="", rates=nums(v), nrates=10 ** 6, bins=int(kw.get("bins") or 10))
    fig = call()
    ev["figure"] = isfig(fig)
    ev.update(bars(fig.axes[0]))
    return ev


def series(call, info, days, kw):
    v = info["YoY_values"]
    t0 = v.index[0]
    ev = dict(kind="series", err="", t=secs(v.index, t0), rates=values(v), days=int(days), ci=bool(kw.get("include_ci", True)), band=[])
    fig = call()
    ev["figure"] = isfig(fig)
    ax = fig.axes[0]
    ev["median"] = curve(ax.lines[0], t0)
    ev["mark"] = num(float(ax.lines[1].get_ydata()[0]))
    if ax.collections:
        at = {}
        for path in ax.collections[0].get_paths():
            for x, y in path.vertices:
                k = secs([float(x)], t0)[0]
                lo, hi = at.get(k, (np.inf, -np.inf))
                at[k] = (min(lo, y), max(hi, y))
        ev["band"] = [[num(float(z)) for z in at.get(t, (np.nan, np.nan))] for t in ev["t"]]
    return ev


def production(call, poa, en):
    t = poa.index.intersection(en.index)
    ev = dict(kind="production", err="", x=values(poa[t]), y=values(en[t]))
    fig = call()
    ev["figure"] = isfig(fig)
    l = fig.axes[0].lines[0]
    ev["dx"], ev["dy"] = values(l.get_xdata()), values(l.get_ydata())
    return ev


def availability(call, a):
    t0 = a.power_system.index[0]
    pos = {t: i + 1 for i, t in enumerate(a.power_system.index)}
    oi = a.outage_info
    ev = dict(kind="availability", err="", t=secs(a.power_system.index, t0), power=values(a.power_system), subs=[values(a.power_subsystem[c]) for c in a.power_subsystem.columns],
              loss=values(a.loss_total), meter=values(a.energy_cumulative), expected=values(a.energy_expected_rescaled.reindex(a.power_system.index)),
              outages=[{"a": pos[o["start"]], "b": pos[o["end"]], "from": num(float(o["energy_start"])), "expected": num(float(o["energy_expected"])),
                        "low": num(float(o["ci_lower"])), "high": num(float(o["ci_upper"]))} for _, o in oi.iterrows()] if len(oi) else [])
    fig = call()
    ev["figure"] = isfig(fig)
    a1, a2, a3, a4 = fig.axes
    ev["dpower"], ev["dloss"], ev["dmeter"] = curve(a1.lines[0], t0), curve(a3.lines[0], t0), curve(a4.lines[0], t0)
    ev["dsubs"] = [curve(l, t0) for l in a2.lines]
    cs = [l for l in a4.lines[1:] if l.get_label().endswith("Expected Production")]
    ev["curves"] = [curve(l, t0) for l in cs]
    ev["bars"] = []
    for b in a4.collections:
        seg = b.get_segments()
        if len(seg):
            s = np.asarray(seg[0], dtype=float)
            ev["bars"].append(dict(t=secs([float(s[0, 0])], t0)[0], low=num(float(s[:, 1].min())), high=num(float(s[:, 1].max()))))
        else:
            ev["bars"].append(dict(t=ev["t"][ev["outages"][len(ev["bars"])]["b"] - 1], low="nan", high="nan"))
    # the expected curve of the first reading has no expected energy of its own
    return ev


def tune(call, sig, mask):
    t0 = sig.index[0]
    m = mask.reindex(sig.index)
    ev = dict(kind="tune", err="", t=secs(sig.index, t0), signal=values(sig), mask=[bool(x) for x in m])
    fig = call()
    ev["figure"] = type(fig).__module__.startswith("plotly")
    ev["kept"], ev["removed"], ev["others"] = [], [], 0
    for d in fig.data:
        p = [dict(t=int((pd.Timestamp(a) - (pd.Timestamp(t0) if pd.Timestamp(a).tz is not None or pd.Timestamp(t0).tz is None else pd.Timestamp(t0).tz_localize(None))).total_seconds()), v=num(float(b))) for a, b in zip(d.x, d.y)]
        if d.marker.color == "blue":
            ev["kept"] += p
        elif d.marker.color == "goldenrod":
            ev["removed"] += p
        else:
            ev["others"] += len(p)
    return ev


# ------------------------------------------------------------------ cases
def record(case):
    r = np.random.default_rng(case["seed"])
    ix = pd.date_range(case["day0"], periods=case["n"], freq=case["freq"], tz=case.get("tz"))
    t = np.arange(len(ix)) * pd.Timedelta(ix[1] - ix[0]).total_seconds() / 86400
    soil = 1 - .0015 * (t % 83)
    y = pd.Series(soil * (1 + case.get("slope", -.01) * t / 365) * (1 + .02 * np.sin(t / 365 * 2 * np.pi)) * r.normal(1, .01, len(t)), ix)
    if case.get("holes"):
        y[r.random(len(y)) < .08] = np.nan
        y.iloc[0], y.iloc[-1] = .99, .95
    if case.get("gap"):
        y = y.drop(y.index[len(y) // 3:len(y) // 3 + 20])
    return y * case.get("scale", 1.0), pd.Series(r.uniform(2, 8, len(y)), y.index), r


def execute(case):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import rdtools
    from rdtools import plotting as P
    plt.close("all")
    k, kw = case["do"], dict(case.get("kw", {}))
    ev = dict(kind=k, err="")
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            np.random.seed(case["seed"] % 2 ** 31)
            if k in ("summary", "series"):
                y, ins, r = record(case)
                rd, ci, info = rdtools.degradation_year_on_year(y, recenter=case.get("recenter", True))
                if k == "summary":
                    ev = summary(lambda: P.degradation_summary_plots(rd, ci, info, y, **kw), rd, ci, info, y, kw)
                else:
                    if case.get("onfig"):
                        f0, _ = plt.subplots()
                        kw["fig"] = f0
                    ev = series(lambda: P.degradation_timeseries_plot(info, rolling_days=case["days"], **kw), info, case["days"], kw)
                    if case.get("onfig"):
                        ev["figure"] = bool(ev["figure"] and plt.get_fignums() == [f0.number])
            elif k == "tiny":
                t0 = pd.Timestamp("2020-03-06", tz=case.get("tz"))
                v = pd.Series([float(x - 2) for x in case["w"]], pd.DatetimeIndex([t0 + pd.Timedelta(seconds=s) for s in case["ts"]]))
                info = dict(YoY_values=v)
                ev = series(lambda: P.degradation_timeseries_plot(info, rolling_days=case["days"], include_ci=False), info, case["days"], dict(include_ci=False))
                k = "series"
            elif k == "tinybars":
                t0 = pd.Timestamp("2020-03-06")
                v = pd.Series([float(x - 2) for x in case["w"]], pd.DatetimeIndex([t0 + pd.Timedelta(seconds=s) for s in case["ts"]]))
                y = pd.Series(np.linspace(1, .9, 7), pd.date_range("2018-01-01", periods=7, freq="100D"))
                info = dict(YoY_values=v, renormalizing_factor=.5, usage_of_points=pd.Series([0, 1, 2, 2, 1, 0, 1], y.index))
                ev = summary(lambda: P.degradation_summary_plots(-.625, [-1.5, .25], info, y, **kw), -.625, [-1.5, .25], info, y, kw)
            elif k in ("mc", "interval", "rates"):
                y, ins, r = record(case)
                from rdtools import soiling
                sr, ci, info = soiling.SRRAnalysis(y, ins).run(reps=case["reps"], min_interval_length=case.get("minlen", 7))
                if k == "mc":
                    ev = profiles(lambda: P.soiling_monte_carlo_plot(info, y, **kw), info, y, kw, "mc")
                elif k == "interval":
                    ev = profiles(lambda: P.soiling_interval_plot(info, y, **kw), info, y, kw, "interval")
                else:
                    ev = rates(lambda: P.soiling_rate_histogram(info, **kw), info, kw)
            elif k == "availability":
                r = np.random.default_rng(case["seed"])
                n, m = case["n"], case["m"]
                ix = pd.date_range("2020-05-01", periods=n, freq=case["freq"], tz=case.get("tz"))
                ex = pd.Series(np.clip(np.sin((ix.hour + ix.minute / 60 - 6) / 12 * np.pi), 0, None) * 300, ix) * r.uniform(.9, 1.1, n)
                sub = pd.DataFrame({i: ex / m * r.uniform(.95, 1.05, n) for i in range(m)})
                cum = 100 + sub.sum(axis=1).cumsum() * (ix[1] - ix[0]).total_seconds() / 3600
                for a, b, what in case["off"]:
                    sub.iloc[a:b] = 0
                    if what == "real":
                        cum.iloc[a:] -= cum.iloc[min(b, n) - 1] - cum.iloc[a - 1 if a else 0]
                        cum.iloc[a:b] = cum.iloc[a - 1 if a else 0]
                a = rdtools.AvailabilityAnalysis(sub.sum(axis=1), sub, cum, ex)
                a.run()
                ev = availability(lambda: a.plot() if case.get("method") else P.availability_summary_plots(a.power_system, a.power_subsystem, a.loss_total, a.energy_cumulative, a.energy_expected_rescaled, a.outage_info), a)
            elif k == "tune":
                r = np.random.default_rng(case["seed"])
                ix = pd.date_range(case["day0"], periods=case["n"], freq=case["freq"], tz=case.get("tz"))
                s = pd.Series(r.normal(0, 1, len(ix)), ix, name=case.get("name"))
                if case.get("iname"):
                    s.index.name = case["iname"]
                s[r.random(len(s)) < .1] = np.nan
                m = pd.Series(r.random(len(s)) < case["share"], ix)
                if case.get("shuffled"):
                    m = m.iloc[r.permutation(len(m))]
                ev = tune(lambda: rdtools.tune_filter_plot(s, m), s, m)
            elif k == "trend":
                ev = trend(case, kw)
            elif k == "refuse":
                ev = dict(kind="refuse", err="", why=case["why"], want=case["want"])
                refused(case)
    except Exception as e:
        ev["err"] = exc_name(e)
        ev["why"] = case.get("why", "")
        case = dict(case, msg=str(e)[:300])
    plt.close("all")
    return ev, case


def analysis(case):
    import rdtools
    r = np.random.default_rng(case["seed"])
    ix = pd.date_range("2018-01-01 06:00", periods=2 * 800, freq="12h", tz=case.get("tz", "UTC"))
    n = len(ix)
    poa = pd.Series(r.uniform(260, 1100, n), ix)
    pv = poa * 2 * (1 - .02 * ((np.arange(n) % 90) / 90)) * (1 - np.arange(n) / n * .05) * r.normal(1, .012, n)
    tc = pd.Series(25., ix)
    t = rdtools.TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=-.004, power_dc_rated=2., aggregation_freq=case.get("agg", "D"))
    t.set_clearsky(poa_global_clearsky=poa * r.uniform(.95, 1.05, n), temperature_cell_clearsky=tc - 3)
    t.filter_params = dict(normalized_filter={}, poa_filter={}, tcell_filter={})
    return t


def trend(case, kw):
    t = analysis(case)
    an = ["yoy_degradation"] + (["srr_soiling"] if case["plot"].startswith("plot_soil") else [])
    t.sensor_analysis(analyses=an, srr_kwargs=dict(reps=6))
    t.clearsky_analysis(analyses=an, srr_kwargs=dict(reps=6))
    w = case["case"]
    res = t.results[w]
    y = t.sensor_aggregated_performance if w == "sensor" else t.clearsky_aggregated_performance
    p = case["plot"]
    call = lambda: getattr(t, p)(w, **kw)
    if p == "plot_degradation_summary":
        d = res["yoy_degradation"]
        return summary(call, d["p50_rd"], d["rd_confidence_interval"], d["calc_info"], y, kw)
    if p == "plot_soiling_monte_carlo":
        return profiles(call, res["srr_soiling"]["calc_info"], y, kw, "mc")
    if p == "plot_soiling_interval":
        return profiles(call, res["srr_soiling"]["calc_info"], y, kw, "interval")
    if p == "plot_soiling_rate_histogram":
        return rates(call, res["srr_soiling"]["calc_info"], kw)
    if p == "plot_degradation_timeseries":
        return series(call, res["yoy_degradation"]["calc_info"], kw.get("rolling_days", 365), kw)
    return production(call, t.poa_global if w == "sensor" else t.poa_global_clearsky, t.pv_energy)


def refused(case):
    import rdtools
    from rdtools import plotting as P
    if case["why"] == "no rates":
        P.degradation_timeseries_plot(dict(renormalizing_factor=1.))
    elif case["why"] == "availability not run":
        ix = pd.date_range("2020-01-01", periods=30, freq="h")
        s = pd.Series(1., ix)
        rdtools.AvailabilityAnalysis(s, pd.DataFrame({"a": s, "b": s}), s.cumsum(), s).plot()
    elif case["why"] == "unknown case":
        t = analysis(case)
        t.sensor_analysis(srr_kwargs=dict(reps=4), analyses=["yoy_degradation"])
        getattr(t, case["plot"])("both")
    elif case["why"] == "not analysed":
        getattr(analysis(case), case["plot"])("sensor")


PLOTS = ["plot_degradation_summary", "plot_soiling_monte_carlo", "plot_soiling_interval", "plot_soiling_rate_histogram", "plot_pv_vs_irradiance", "plot_degradation_timeseries"]


def cases(c, model, r):
    out = []
    sd = lambda: int(r.integers(1e9))
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    longest = max(len(m["w"]) for m in model)
    short = [m for m in model if len(m["w"]) >= 2]
    for m in [short[k] for k in r.permutation(len(short))[:c.scale(60, 1500)]]:
        out.append(dict(do="tiny", seed=sd(), w=m["w"], ts=m["ts"], days=int(r.integers(1, 7)), tz=pick([None, "America/Denver"])))
        kw = dict(bins=int(r.integers(1, 6))) if r.random() < .7 else {}
        out.append(dict(do="tinybars", seed=sd(), w=m["w"], ts=m["ts"], kw=dict(kw, detailed=bool(r.random() < .5))))
    zones = [None, "UTC", "America/Denver", "Asia/Kolkata"]
    for k in range(c.scale(30, 250)):
        freq, n = [("D", int(r.integers(740, 1300))), ("MS", int(r.integers(26, 70))), ("W", int(r.integers(110, 260)))][k % 3]
        kw = {}
        if k % 2:
            kw = dict(detailed=True, bins=int(r.integers(1, 40)) if r.random() < .5 else None, hist_xmin=-30., hist_xmax=25.5, scatter_ymin=.25, scatter_ymax=1.5, plot_color=pick(["C1", "black"]),
                      summary_title="Site 7")
        elif k % 4 == 0:
            kw = dict(bins=int(10 ** r.uniform(0, 3)), scatter_ymax=2.)
        out.append(dict(do="summary", seed=sd(), day0=pick(["2016-01-01", "2017-03-01", "2015-11-20"]), n=n, freq=freq, tz=zones[k % 4] if freq == "D" else None, holes=k % 3 == 0, gap=k % 5 == 0 and freq == "D",
                        scale=float(r.choice([1, 3.7])), recenter=bool(k % 4), slope=float(r.choice([-.01, .02, 0])), kw={a: b for a, b in kw.items() if b is not None}))
    for k in range(c.scale(10, 80)):
        out.append(dict(do="series", seed=sd(), day0="2016-02-03", n=int(r.integers(760, 1000)), freq="D", tz=zones[k % 4], holes=k % 2 == 0, gap=k % 3 == 0, days=int(r.choice([60, 90, 91, 200])), onfig=k % 3 == 1,
                        kw=dict(include_ci=bool(k % 2))))
    for k in range(c.scale(24, 150)):
        do = ["mc", "interval", "rates"][k % 3]
        kw = {}
        if do != "rates" and r.random() < .6:
            kw = dict(ymin=.2, ymax=1.25, point_alpha=.3)
        if do == "mc" and r.random() < .7:
            kw["profiles"] = int(r.integers(1, 12))
        if do == "rates" and r.random() < .5:
            kw["bins"] = int(r.integers(1, 15))
        out.append(dict(do=do, seed=sd(), day0="2016-02-03", n=int(r.integers(400, 700)), freq="D", tz=zones[k % 4], scale=float(r.choice([1, 2.5])), reps=int(r.integers(3, 9)), minlen=int(r.choice([7, 40])), kw=kw))
    for k in range(c.scale(14, 100)):
        n = int(r.integers(24 * 12, 24 * 20))
        off, a = [], int(r.integers(40, 60))
        for _ in range(int(r.integers(0, 4))):
            b = a + int(r.integers(1, 30))
            if b < n - 10:
                off.append([a, b, pick(["real", "comms"])])
            a = b + int(r.integers(20, 50))
        out.append(dict(do="availability", seed=sd(), n=n, m=int(r.integers(2, 5)), freq=pick(["h", "30min"]), tz=zones[k % 4], off=off, method=bool(k % 2)))
    for k in range(c.scale(30, 200)):
        out.append(dict(do="tune", seed=sd(), day0="2020-03-07", n=int(r.integers(5, 80)), freq=pick(["h", "15min", "D"]), tz=zones[k % 3] if k % 3 < 2 else "UTC", share=float(pick([.5, .8, 0., 1.])),
                        name=pick([None, "power", "x"]), iname=pick([None, "when"]), shuffled=bool(k % 2)))
    for k, p in enumerate(PLOTS * c.scale(1, 3)):
        for w in ("sensor", "clearsky"):
            kw = dict(plot_degradation_timeseries=dict(rolling_days=200, include_ci=False), plot_degradation_summary=dict(detailed=True)).get(p, {})
            out.append(dict(do="trend", seed=sd(), plot=p, case=w, kw=kw))
    out.append(dict(do="trend", seed=sd(), plot="plot_degradation_summary", case="sensor", agg="MS", kw={}))
    for p in PLOTS:
        out.append(dict(do="refuse", seed=sd(), plot=p, why="unknown case", want="ValueError"))
    out.append(dict(do="refuse", seed=sd(), why="no rates", want="KeyError"))
    out.append(dict(do="refuse", seed=sd(), why="availability not run", want="TypeError"))
    return out


def run(c):
    model = c.model("MC_Figure")
    r = c.rng()
    ev = pmap(execute, cases(c, model, r), chunk=2)
    c.sample({k: (v if len(str(v)) < 300 else str(v)[:300]) for k, v in ev[0][0].items()})
    c.cov["figures"] = {k: sum(e["kind"] == k for e, _ in ev) for k in sorted({e["kind"] for e, _ in ev})}
    c.assumptions += ["marks are read back from the figure objects; colours and positions as drawn, not as rendered"]
    c.validate("TV_Figure", ev)


if __name__ == "__main__":
    main("C27", run)
