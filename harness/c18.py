"""C18 the filter configuration and the combination of the configured filters."""
from rdv import *
import copy
import io
import pickle
import contextlib
import warnings
import numpy as np
import pandas as pd

POINT = ["normalized_filter", "poa_filter", "tcell_filter", "clip_filter", "hour_angle_filter",
         "clearsky_filter", "sensor_clearsky_filter", "ad_hoc_filter"]
PERIOD = ["two_way_window_filter", "insolation_filter", "hampel_filter", "directional_tukey_filter", "ad_hoc_filter"]
BOGUS = ["poa", "Poa_filter", "csi_filter", "", "normalized_filter ", "ad_hoc", "filter_params"]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# --------------------------------------------------------------- configuration histories
def pairs(d):
    return sorted([str(k), "{}" if v == {} else "None" if v is None else str(v)] for k, v in d.items())


def history(case):
    import rdtools
    ix = pd.date_range("2020-01-01", periods=4, freq="h")
    s = pd.Series([1., 2., 3., 4.], index=ix)
    kw = dict(temperature_cell=s) if case["tcell"] else dict(power_expected=s)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ta = rdtools.TrendAnalysis(s, poa_global=s, **kw)
    attr = "filter_params" if case["which"] == "point" else "filter_params_aggregated"
    ev = dict(kind="history", which=case["which"], tcell=case["tcell"] or case["which"] == "period",
              start=pairs(getattr(ta, attr)), steps=[])
    for n, (op, items) in enumerate(case["ops"]):
        d = getattr(ta, attr)
        new = {k: v for k, v in items}
        flavour = (case["k"] + n) % 6
        err = ""
        try:
            with quiet():
                if op == "set":
                    for k, v in items:
                        d[k] = v
                elif op == "update":
                    if flavour == 0:
                        d.update(new)
                    elif flavour == 1:
                        d.update(list(new.items()))
                    elif flavour == 2:
                        d.update(iter(list(new.items())))
                    elif flavour == 3 and all(k.isidentifier() for k in new):
                        d.update(**new)
                    elif flavour == 4 and new and all(k.isidentifier() for k in new):
                        k0 = list(new)[0]
                        rest = {k: v for k, v in new.items() if k != k0}
                        d.update({k0: new[k0]}, **rest)
                    else:
                        d.update(pd.Series(new, dtype=object) if flavour == 5 and new else new)
                elif op == "ior":
                    if flavour == 1:
                        d |= list(new.items())
                    elif flavour == 2:
                        setattr(ta, attr, d | new)
                    else:
                        d |= new
                    if flavour == 3:
                        setattr(ta, attr, d)
                elif op == "assign":
                    setattr(ta, attr, new)
                elif op == "assign_other":
                    setattr(ta, attr, [None, "poa_filter", [("poa_filter", {})], 3, ("a",), {"poa_filter"}][flavour])
                elif op == "setdefault":
                    k, v = items[0]
                    d.setdefault(k, v)
                elif op == "del":
                    del d[items[0][0]]
                elif op == "pop":
                    d.pop(items[0][0])
                elif op == "discard":
                    d.pop(items[0][0], None)
                elif op == "popitem":
                    d.popitem()
                elif op == "clear":
                    d.clear()
                elif op == "clone":
                    if flavour == 0:
                        ta = copy.deepcopy(ta)
                    elif flavour == 1:
                        ta = pickle.loads(pickle.dumps(ta))
                    elif flavour == 2:
                        ta = copy.copy(ta)
                    elif flavour == 3:
                        setattr(ta, attr, copy.deepcopy(d))
                    elif flavour == 4:
                        setattr(ta, attr, pickle.loads(pickle.dumps(d)))
                    else:
                        setattr(ta, attr, copy.copy(d))
        except Exception as e:
            err = exc_name(e)
        ev["steps"].append(dict(op=op, items=[[k, "{}" if v == {} else str(v)] for k, v in items], err=err,
                                after=pairs(getattr(ta, attr))))
    return ev, dict(ops=case["ops"], which=case["which"], k=case["k"])


def concretise(r, cases, k):
    """Abstract transitions -> a history over documented and undocumented names."""
    which = ["point", "period"][k % 2]
    names, other = (POINT, PERIOD) if which == "point" else (PERIOD, POINT)
    p = [names[i] for i in r.permutation(len(names))]
    bad = list(r.permutation(BOGUS + [n for n in other if n not in names]))
    m = dict(g1=p[0], g2=p[1], b1=str(bad[0]), v1={"a": 1}, v2={"a": 2})
    ops = []
    for c in cases:
        if ops == [] or len(cases) == 1:
            ops.append(["assign", [[m[a], m[b]] for a, b in c["cfg"]]])
        ops.append([c["op"], [[m[a], m[b]] for a, b in c["items"]]])
    return dict(kind="history", which=which, ops=ops, tcell=bool(k % 3), k=k)


# --------------------------------------------------------------- combinations on data
CAL = {}


def tf(x):
    return "U" if pd.isnull(x) else ("T" if bool(x) else "F")


def secs0(ix, t0):
    return [int(v) for v in (pd.DatetimeIndex(ix).as_unit("ns").asi8 - t0) // 10**9]


def ref(name, mask, t0):
    return dict(name=name, t=secs0(mask.index, t0), v=[tf(x) for x in mask.values])


def build(case):
    """The analysis object of a case (not yet run)."""
    import rdtools
    import pvlib
    n, step, tz = case["n"], case["step"], case["tz"]
    ix = pd.date_range(case["start"], periods=n, freq=pd.Timedelta(step, "s"), tz=tz)
    if case.get("drop"):
        ix = ix.delete(case["drop"])
    S = lambda v: None if v is None else pd.Series(np.delete(np.array(v, dtype=float), case.get("drop") or []), index=ix)
    kw = dict(case["kw"])
    if "max_timedelta" in kw:
        kw["max_timedelta"] = pd.Timedelta(kw["max_timedelta"], "s")
    ta = rdtools.TrendAnalysis(S(case["pv"]), poa_global=S(case["poa"]), temperature_cell=S(case["tcell"]),
                               temperature_ambient=S(case["tamb"]), power_expected=S(case["expected"]), **kw)
    if case["cs"] is not None or case["location"]:
        loc = pvlib.location.Location(*case["location"]) if case["location"] else None
        if case["cs"] is not None:
            ta.set_clearsky(pvlib_location=loc, pv_azimuth=180, pv_tilt=20, poa_global_clearsky=S(case["cs"]),
                            temperature_cell_clearsky=S(case["cstemp"]))
        else:
            ta.pvlib_location = loc
    fp = {k: dict(v) for k, v in case["conf"].items() if k != "ad_hoc_filter"}
    if "clip_filter" in fp and fp["clip_filter"].get("roll_periods"):
        pass
    ah = None
    if case["adhoc"] is not None:
        t, v = case["adhoc"]
        ah = pd.Series([{"T": True, "F": False, "U": None}[a] for a in v],
                       index=pd.DatetimeIndex([ix[0] + pd.Timedelta(a * step, "s") for a in t]))
        if not ah.isnull().any():
            ah = ah.astype(bool)
        fp["ad_hoc_filter"] = ah
    elif "ad_hoc_filter" in case["conf"]:
        fp["ad_hoc_filter"] = None
    pa = {k: dict(v) for k, v in case["aggconf"].items()}
    for k in pa:
        if "roll_period" in pa[k]:
            pa[k]["roll_period"] = pd.Timedelta(pa[k]["roll_period"])
    with quiet():
        ta.filter_params = fp
        ta.filter_params_aggregated = pa
    return ta, ah, ix


def combine(case):
    import rdtools
    from rdtools import filtering, normalization, aggregation, utilities
    wf = case["workflow"]
    ev = dict(kind="combine", workflow=wf, conf=sorted(case["conf"]), err="", stages=[], poa=case["poa"] is not None,
              temp=case["tcell"] is not None or case["tamb"] is not None, tcell=case["tcell"] is not None,
              expected=case["expected"] is not None, power=case["kw"].get("pv_input", "power") == "power",
              location=bool(case["location"]) or case["cs"] is not None, clearsky=case["cs"] is not None)
    if ev["location"] and not case["location"]:
        ev["location"] = False
    info = dict(case=case["k"], wf=wf, conf=case["conf"], agg=case["aggconf"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ta, ah, ix = build(case)
            if wf == "sensor":
                ta.sensor_analysis(analyses=[])
            else:
                ta.clearsky_analysis(analyses=[])
        except Exception as e:
            ev["err"] = exc_name(e)
            info["msg"] = str(e)[:200]
            return ev, info
        t0 = ix[0].value if ix[0].tz is None else ix[0].tz_convert("UTC").value
        t0 = pd.DatetimeIndex(ix).as_unit("ns").asi8[0]
        # reference masks: the named filters called directly
        sens = wf == "sensor"
        poa = ta.poa_global if sens else ta.poa_global_clearsky
        tc = ta.temperature_cell if sens else ta.temperature_cell_clearsky
        if ta.power_expected is None:
            rated = ta.power_dc_rated
            en, ins = normalization.normalize_with_pvwatts(ta.pv_energy, dict(
                poa_global=poa, power_dc_rated=1.0 if rated is None else rated, temperature_cell=tc,
                poa_global_ref=1000, temperature_cell_ref=25, gamma_pdc=ta.gamma_pdc))
            if rated is None:
                en = en / utilities.robust_quantile(en[np.isfinite(en)], 0.95)
        else:
            en, ins = normalization.normalize_with_expected_power(ta.pv_energy, ta.power_expected, poa, pv_input="energy")
        fp = case["conf"]
        refs = []
        P = lambda k: dict(fp[k])
        if "normalized_filter" in fp:
            refs.append(ref("normalized_filter", filtering.normalized_filter(en, **P("normalized_filter")), t0))
        if "poa_filter" in fp:
            refs.append(ref("poa_filter", filtering.poa_filter(poa, **P("poa_filter")), t0))
        if "tcell_filter" in fp:
            refs.append(ref("tcell_filter", filtering.tcell_filter(tc, **P("tcell_filter")), t0))
        if "clip_filter" in fp:
            refs.append(ref("clip_filter", filtering.clip_filter(ta.pv_power, **P("clip_filter")), t0))
        if "hour_angle_filter" in fp:
            refs.append(ref("hour_angle_filter", filtering.hour_angle_filter(
                en, case["location"][0], case["location"][1], **P("hour_angle_filter")), t0))
        for k in ("clearsky_filter", "sensor_clearsky_filter"):
            if k in fp and (k == "clearsky_filter") == (not sens):
                refs.append(ref(k, filtering.clearsky_filter(ta.poa_global, ta.poa_global_clearsky, **P(k)), t0))
        if ah is not None:
            refs.append(ref("ad_hoc_filter", ah, t0))
        comp = ta.sensor_filter_components if sens else ta.clearsky_filter_components
        mask = ta.sensor_filter if sens else ta.clearsky_filter
        ev["stages"].append(dict(stage="points", idx=secs0(comp.index, t0), base=secs0(en.index, t0), refs=refs,
                                 conf=[k for k in fp if k != "ad_hoc_filter" or ah is not None],
                                 comp=[dict(name=c, v=[bool(x) for x in comp[c]]) for c in comp.columns],
                                 mask=[bool(x) for x in mask.reindex(comp.index)]))
        # aggregated stage
        if mask.any():
            keep = mask.reindex(en.index)
            agg = aggregation.aggregation_insol(en[keep], ins[keep], ta.aggregation_freq)
            insol = ins[keep].resample(ta.aggregation_freq, origin="start_day").sum()
            ap = ta.filter_params_aggregated
            refs = []
            for k, f, x in [("two_way_window_filter", filtering.two_way_window_filter, agg),
                            ("insolation_filter", filtering.insolation_filter, insol),
                            ("hampel_filter", filtering.hampel_filter, agg),
                            ("directional_tukey_filter", filtering.directional_tukey_filter, agg)]:
                if k in ap:
                    refs.append(ref(k, f(x, **ap[k]), t0))
            comp = ta.sensor_filter_components_aggregated if sens else ta.clearsky_filter_components_aggregated
            mask = ta.sensor_filter_aggregated if sens else ta.clearsky_filter_aggregated
            conf = [k for k in ap]
            stage = dict(stage="periods", idx=secs0(comp.index, t0), base=secs0(agg.index, t0), refs=refs, conf=conf,
                         comp=[dict(name=c, v=[bool(x) for x in comp[c]]) for c in comp.columns],
                         mask=[bool(x) for x in mask.reindex(comp.index)])
            if case["aggadhoc"] is not None:
                # second run: a mask on (part of, and beyond) the aggregated index
                r = np.random.default_rng(case["k"])
                full = agg.index.union([agg.index[-1] + pd.Timedelta("400d"), agg.index[0] - pd.Timedelta("3d")])
                pick = full[np.sort(r.permutation(len(full))[:max(1, int(len(full) * r.choice([.3, .7, 1.])))])]
                if r.random() < .3:
                    pick = agg.index
                m2 = pd.Series([{"T": True, "F": False, "U": None}[case["aggadhoc"][i % len(case["aggadhoc"])]]
                                for i in range(len(pick))], index=pick)
                if not m2.isnull().any():
                    m2 = m2.astype(bool)
                ta.filter_params_aggregated["ad_hoc_filter"] = m2
                try:
                    (ta.sensor_analysis if sens else ta.clearsky_analysis)(analyses=[])
                except Exception as e:
                    ev["err"] = exc_name(e)
                    info["msg"] = str(e)[:200]
                    return ev, info
                comp = ta.sensor_filter_components_aggregated if sens else ta.clearsky_filter_components_aggregated
                mask = ta.sensor_filter_aggregated if sens else ta.clearsky_filter_aggregated
                stage = dict(stage, idx=secs0(comp.index, t0), refs=refs + [ref("ad_hoc_filter", m2, t0)],
                             conf=conf + ["ad_hoc_filter"],
                             comp=[dict(name=c, v=[bool(x) for x in comp[c]]) for c in comp.columns],
                             mask=[bool(x) for x in mask.reindex(comp.index)])
            ev["stages"].append(stage)
    return ev, info


def base_case(k, n):
    return dict(kind="combine", k=k, n=n, step=3600, tz=None, start="2020-06-01 08:00", kw=dict(max_timedelta=3600),
                pv=[1.] * n, poa=[600.] * n, tcell=[25.] * n, tamb=None, expected=None, cs=None, cstemp=None,
                location=None, conf={}, adhoc=None, aggconf={}, aggadhoc=None, workflow="sensor")


def from_model(m, k):
    """A model case realised by two hours of data inside a short record."""
    c = base_case(k, 6)
    c["workflow"] = m["workflow"]
    at = [2, 4]
    conf = set(m["conf"])
    mk = m["masks"]
    V = lambda name, t, d: d[mk[name][t]]
    c["poa"] = [600.] * 6
    c["tcell"] = [25.] * 6
    cs = [600.] * 6
    cst = [25.] * 6
    for i, t in enumerate(at):
        if "poa_filter" in conf:
            (c["poa"] if m["workflow"] == "sensor" else cs)[t] = V("poa_filter", i, {"T": 600., "F": 100., "U": np.nan})
        if "tcell_filter" in conf:
            (c["tcell"] if m["workflow"] == "sensor" else cst)[t] = V("tcell_filter", i, {"T": 25., "F": 120., "U": np.nan})
        if "clearsky_filter" in conf and m["workflow"] == "clearsky":
            c["poa"][t] = V("clearsky_filter", i, {"T": 1., "F": .5, "U": np.nan}) * cs[t]
    c["cs"], c["cstemp"] = cs, cst
    c["conf"] = {n: ({"model": "csi"} if n == "clearsky_filter" else {}) for n in conf}
    if "ad_hoc_filter" in conf:
        a = {2: mk["ad_hoc_filter"][0], 4: mk["ad_hoc_filter"][1]}
        ts = [0, 1, 2, 3, 4, 5] if k % 2 else [1, 2, 3, 4, 5]
        ts = [t for t in ts if a.get(t) != "-"]
        c["adhoc"] = [ts, [a.get(t, "T") for t in ts]]
    if k % 5 == 0:
        c["kw"]["power_dc_rated"] = 2.0
    return c


def random_case(r, k):
    big = r.random() < .35                        # several days (aggregation) or one
    n = int(r.integers(100, 400)) if big else int(r.integers(6, 40))
    c = base_case(k, n)
    c["step"] = int(r.choice([900, 1800, 3600, 7200]))
    c["tz"] = [None, "UTC", "America/Denver", "Asia/Kolkata"][int(r.integers(0, 4))]
    c["start"] = str(r.choice(["2020-03-07 00:00", "2020-06-30 09:30", "2019-11-02 18:00", "2020-12-31 12:00"]))
    c["workflow"] = str(r.choice(["sensor", "sensor", "clearsky"]))
    hrs = (np.arange(n) * c["step"] / 3600) % 24
    shape = np.clip(np.sin(np.pi * (hrs - 6) / 12), 0, None) * 1000
    holes = lambda x, p: np.where(r.random(n) < p, np.nan, x)
    noise = lambda s: 1 + s * r.standard_normal(n)
    poa = shape * np.clip(noise(.2), .05, None)
    pv = np.minimum(poa * noise(.1) * 2, r.choice([1500, 5000])) * np.repeat(r.uniform(.6, 1.1, n // 20 + 1), 20)[:n]
    p = float(r.choice([0, 0, .1]))
    c["pv"] = list(holes(pv, p))
    c["poa"] = list(holes(poa, p))
    c["tcell"] = list(holes(shape / 15 + r.normal(20, 30, n), p))
    if r.random() < .3:
        c["tamb"] = list(holes(r.normal(20, 30, n), p))
        c["tcell"] = None
    if r.random() < .2:
        c["expected"] = list(holes(poa * 1.9 * noise(.05), p))
        if r.random() < .6:
            c["tcell"] = None
    if r.random() < .04:
        c["poa"] = None
    if r.random() < .05:
        c["tcell"] = c["tamb"] = None
    kw = dict(c["kw"])
    if r.random() < .6:
        kw.pop("max_timedelta")
    else:
        kw["max_timedelta"] = c["step"] * int(r.integers(1, 4))
    if r.random() < .2:
        kw["pv_input"] = "energy"
    if r.random() < .5:
        kw["gamma_pdc"] = float(r.choice([-.005, -.003]))
    if r.random() < .4:
        kw["power_dc_rated"] = float(r.choice([1., 1900.]))
    kw["aggregation_freq"] = str(r.choice(["D", "D", "12h", "2D"]))
    c["kw"] = kw
    if r.random() < .85 or c["workflow"] == "clearsky" and r.random() < .9:
        c["cs"] = list(holes(shape * r.uniform(.9, 1.1), p))
        c["cstemp"] = list(holes(shape / 20 + 20, p))
    if r.random() < .8:
        c["location"] = [float(r.uniform(-60, 60)), float(r.uniform(-180, 180))]
    if c["cs"] is not None and c["cstemp"] is None and not c["location"]:
        c["location"] = [30., -100.]
    conf = {}
    opt = dict(
        normalized_filter=lambda: [{}, dict(energy_normalized_low=float(r.uniform(0, .9))),
                                   dict(energy_normalized_low=.1, energy_normalized_high=float(r.uniform(.5, 1.2)))],
        poa_filter=lambda: [{}, dict(poa_global_low=float(r.uniform(0, 500))),
                            dict(poa_global_low=50, poa_global_high=float(r.uniform(300, 1000)))],
        tcell_filter=lambda: [{}, dict(temperature_cell_low=float(r.uniform(-60, 30))),
                              dict(temperature_cell_high=float(r.uniform(20, 110)))],
        clip_filter=lambda: [{"model": "quantile"}, {"model": "quantile", "quantile": float(r.uniform(.3, .95))}],
        hour_angle_filter=lambda: [{}, dict(min_hour_angle=float(r.uniform(-90, 0)), max_hour_angle=float(r.uniform(0, 90)))],
        clearsky_filter=lambda: [{"model": "csi"}, {"model": "csi", "threshold": float(r.uniform(.01, .5))}],
        sensor_clearsky_filter=lambda: [{"model": "csi"}, {"model": "csi", "threshold": float(r.uniform(.01, .5))}])
    dens = r.choice([.3, .7, .95])
    for nme, f in opt.items():
        if r.random() < dens:
            o = f()
            conf[nme] = o[int(r.integers(0, len(o)))]
    c["conf"] = conf
    u = r.random()
    if u < .5:
        lo, hi = (0, n) if r.random() < .5 else (-3, n + 3)
        ts = [t for t in range(lo, hi) if r.random() < r.choice([.5, .9, 1.])]
        if r.random() < .2:
            ts = list(range(1, n))
        v = [str(a) for a in r.choice(["T", "F", "U"], len(ts), p=[.8, .2, 0.] if r.random() < .5 else [.7, .2, .1])]
        if ts:
            c["adhoc"] = [ts, v]
            conf["ad_hoc_filter"] = None
    elif u < .7:
        conf["ad_hoc_filter"] = None
    aopt = dict(
        two_way_window_filter=lambda: [{}, dict(outlier_threshold=float(r.uniform(.01, .2)))],
        insolation_filter=lambda: [{}, dict(quantile=float(r.uniform(.1, .6)))],
        hampel_filter=lambda: [{}, dict(t0=float(r.uniform(.5, 3))), dict(k="5d", t0=1)],
        directional_tukey_filter=lambda: [{}, dict(k=float(r.uniform(.1, 2))), dict(roll_period="4D", k=.3)])
    for nme, f in aopt.items():
        if big and r.random() < .5:
            o = f()
            c["aggconf"][nme] = o[int(r.integers(0, len(o)))]
    if r.random() < .5:
        c["aggadhoc"] = [str(a) for a in r.choice(["T", "F", "U"], 5, p=[.6, .3, .1])]
    return c


def execute(case):
    return history(case) if case["kind"] == "history" else combine(case)


def run(c):
    r = c.rng()
    tr = c.model("MC_Config")
    cb = c.model("MC_Combine")
    items = [concretise(r, [t], k) for k, t in enumerate(tr)]
    for k in range(c.scale(1500, 15000)):
        ln = int(r.integers(2, 9))
        items.append(concretise(r, [tr[int(i)] for i in r.integers(0, len(tr), ln)], k))
    nh = len(items)
    n = c.scale(1200, 12000)
    sel = [cb[int(i)] for i in sorted(r.permutation(len(cb))[:n])]
    items += [from_model(m, k) for k, m in enumerate(sel)]
    nm = len(items) - nh
    items += [random_case(r, k) for k in range(c.scale(900, 9000))]
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(config_transitions=len(tr), histories=nh, combinations=len(cb), replayed=nm,
                                random=len(items) - nh - nm)
    done = [e for e, _ in ev if e["kind"] == "combine"]
    c.cov["analysed"] = dict(ran=sum(e["err"] == "" for e in done), refused=sum(e["err"] != "" for e in done),
                             aggregated=sum(len(e["stages"]) > 1 for e in done))
    c.sample(ev[0][0]); c.sample(ev[-1][1])
    c.assumptions += ["component masks are compared with direct calls of the named filters (decided by C05-C07, C23)"]
    c.validate("TV_Config", ev)


if __name__ == "__main__":
    main("C18", run)
