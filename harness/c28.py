"""C28 the modelled clear sky of a trend analysis."""
from rdv import *
import contextlib
import io
import warnings
import numpy as np
import pandas as pd
import climate
import c25
from c25 import EPOCH, MIN, minutes, q

METHODS = ["nrel_numpy", "ephemeris", None, "pyephem"]


def index(t, tz):
    return pd.DatetimeIndex([EPOCH + k * MIN for k in t]).tz_localize("UTC").tz_convert(tz)


def site(case):
    import pvlib
    return pvlib.location.Location(case["lat"], case["lon"], case["tz"], case["alt"])


def plane(case, o, times, en):
    """Minute values of sun and sky (pvlib is the environment) and of the orientation."""
    loc = site(case)
    kw = dict(method=o["method"]) if o["method"] else {}
    sun = loc.get_solarposition(times, **kw)
    sky = loc.get_clearsky(times, solar_position=sun)
    d = dict(zen=sun["apparent_zenith"].values, az=sun["azimuth"].values, dni=sky["dni"].values, ghi=sky["ghi"].values, dhi=sky["dhi"].values)
    for k in ("tilt", "azm"):
        v = o[k]
        if isinstance(v, dict):       # a varying orientation is known at the times of the PV energy
            import rdtools
            w = rdtools.interpolate(pd.Series(v["v"], index(v["t"], case["tz"]), dtype=float), en, case["flow"]["gap_td"])
            d[k] = w.reindex(times).values
        else:
            d[k] = np.full(len(times), float(v))
    return d


def poa_of(d, albedo):
    r = np.radians
    proj = np.cos(r(d["tilt"])) * np.cos(r(d["zen"])) + np.sin(r(d["tilt"])) * np.sin(r(d["zen"])) * np.cos(r(d["az"] - d["azm"]))
    return d["dni"] * np.maximum(proj, 0) + d["dhi"] * (1 + np.cos(r(d["tilt"]))) / 2 + d["ghi"] * albedo * (1 - np.cos(r(d["tilt"]))) / 2


def execute(case):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return inner(case)


def inner(case):
    import rdtools
    from rdtools import clearsky_temperature
    f, tz = dict(case["flow"]), case["tz"]
    f["gap_td"] = pd.Timedelta(f["gap"], "min") if f["gap"] else None
    case = dict(case, flow=f)
    r = np.random.default_rng(case["seed"])
    last = [h for h in case["hist"] if h["op"] == "set"][-1:]
    last = last[0]["opt"] if last else None
    # --- the measured irradiance follows the modelled one with clouds, on another scale
    ref = dict(last or dict(tilt=20., azm=180., method="nrel_numpy", albedo=.25))
    span = index(range(f["poa"]["t"][0], f["poa"]["t"][-1] + 1), tz)
    g = dict(ref, **{k: (float(np.mean(ref[k]["v"])) if isinstance(ref[k], dict) else (20. if ref[k] is None else ref[k])) for k in ("tilt", "azm")})
    base = pd.Series(poa_of(plane(case, g, span, None), g["albedo"]), span)
    base = base.rolling(max(1, f["step"]), min_periods=1).mean().reindex(index(f["poa"]["t"], tz)).values
    cloud = r.choice([1, 1, 1, 1, 1, .35, .6, 1.05], len(base)) * r.normal(1, .01, len(base))
    poa = np.round(base * cloud * f["scale"], 3)
    poa[r.random(len(poa)) < f["holes"]] = np.nan
    f["poa"] = dict(t=f["poa"]["t"], v=[float(x) for x in poa])
    S = lambda s: None if s is None else pd.Series(s["v"], index(s["t"], tz), dtype=float)
    op = case["hist"][-1]
    clear = op["op"] == "clearsky"
    given = last["given"] if last else []
    csi = bool(op.get("csi"))
    flow = dict(kind="series", workflow="clearsky" if clear else "sensor", modelled=(clear or csi) and "poa" not in given, climate=clear and not {"tcell", "tamb"} & set(given),
                energy=f["energy"], interp=f["interp"], gap=f["gap"], rated=num(f["rated"]) if f["rated"] else "",
                gamma=num(f["gamma"]) if f["gamma"] else "", sapm=[num(x) for x in c25.SAPM[f["sapm"] or "open_rack_glass_polymer"]], freq=f["freq"], mult=f["mult"],
                zone=c25.zone_of(tz, f["pv"]["t"][0], f["pv"]["t"][-1]), wind_const="0", wind=q(None), adhoc=[],
                refuse=case["refuse"], err="", labels=[], perf=[], ins=[], out_energy=dict(t=[], v=[]), out_poa=[], out_tcell=[],
                pv=q(f["pv"]), poa=q(f["poa"]), tcell=q(f["tcell"]), tamb=q(None), expected=q(f["expected"]), cs_poa=q(None), cs_tcell=q(None), cs_tamb=q(None))
    fl = {k: [num(x) for x in v] for k, v in f["filters"].items() if k in ("normalized", "poa", "tcell")}
    if csi or (clear and "csi" in f["filters"]):
        fl["csi"] = [num(f["filters"]["csi"][0])]
    flow["filters"] = fl
    ev = dict(flow=flow, zen=[], az=[], dni=[], ghi=[], dhi=[], tilt=[], azm=[], albedo="0.25", climate=[], kept=True)
    name = dict(D="%dD" % f["mult"], S="%dmin" % f["mult"])[f["freq"]]
    pv = S(f["pv"])
    if f["freq_attr"]:
        with contextlib.suppress(ValueError):
            pv.index = pd.DatetimeIndex(pv.index, freq="infer")
    try:
        kw = dict(poa_global=S(f["poa"]), temperature_cell=S(f["tcell"]), power_expected=S(f["expected"]), power_dc_rated=f["rated"], gamma_pdc=f["gamma"],
                  max_timedelta=f["gap_td"], temperature_model=f["sapm"], interp_freq="%dmin" % f["interp"] if f["interp"] else None)
        t = rdtools.TrendAnalysis(pv, pv_input="energy" if f["energy"] else "power", aggregation_freq=name, **{k: v for k, v in kw.items() if v is not None})
        before = {}
        for h in case["hist"]:
            fp = {}
            if "normalized" in fl:
                fp["normalized_filter"] = dict(zip(("energy_normalized_low", "energy_normalized_high"), f["filters"]["normalized"]))
            if "poa" in fl:
                fp["poa_filter"] = dict(zip(("poa_global_low", "poa_global_high"), f["filters"]["poa"]))
            if "tcell" in fl:
                fp["tcell_filter"] = dict(zip(("temperature_cell_low", "temperature_cell_high"), f["filters"]["tcell"]))
            if h["op"] == "clearsky" and "csi" in f["filters"]:
                fp["clearsky_filter"] = dict(model="csi", threshold=f["filters"]["csi"][0])
            if h.get("csi"):
                fp["sensor_clearsky_filter"] = dict(model="csi", threshold=f["filters"]["csi"][0])
            t.filter_params, t.filter_params_aggregated = fp, {}
            if h["op"] == "set":
                o = h["opt"]
                k = {}
                if o["loc"]:
                    k["pvlib_location"] = site(case)
                if o["tilt"] is not None:
                    k["pv_tilt"] = S(o["tilt"]) if isinstance(o["tilt"], dict) else o["tilt"]
                    k["pv_azimuth"] = S(o["azm"]) if isinstance(o["azm"], dict) else o["azm"]
                if o["albedo"] != .25:
                    k["albedo"] = o["albedo"]
                if o["method"] != "nrel_numpy":
                    k["solar_position_method"] = o["method"]
                for a, b in (("poa", "poa_global_clearsky"), ("tcell", "temperature_cell_clearsky"), ("tamb", "temperature_ambient_clearsky")):
                    if a in o["given"]:
                        k[b] = S(o[a])
                t.set_clearsky(**k)
                before = {b: getattr(t, b).copy() for b in k if b.endswith("_clearsky")}
            else:
                try:
                    (t.clearsky_analysis if h["op"] == "clearsky" else t.sensor_analysis)(analyses=[])
                except Exception:
                    if h is op:
                        raise
        ev["kept"] = all(getattr(t, b).equals(x) for b, x in before.items())
        p = t.clearsky_aggregated_performance if clear else t.sensor_aggregated_performance
        ins = t.clearsky_aggregated_insolation if clear else t.sensor_aggregated_insolation
        tc = t.temperature_cell_clearsky if clear else t.temperature_cell
        poa_cs, ta = getattr(t, "poa_global_clearsky", None), getattr(t, "temperature_ambient_clearsky", None)
    except Exception as e:
        flow["err"] = exc_name(e)
        return ev, dict(case, msg=str(e)[:300])
    lab = lambda ix: minutes(ix) if f["freq"] == "S" else [int((x.tz_localize(None).normalize() - EPOCH).days) for x in ix]
    flow["labels"] = lab(p.index) if lab(p.index) == lab(ins.index) else [-1]
    flow["perf"], flow["ins"] = nums(p.values), nums(ins.values)
    flow["out_energy"] = dict(t=minutes(t.pv_energy.index), v=nums(t.pv_energy.values))
    flow["out_tcell"] = nums(tc.values) if tc is not None else []
    for a, k in (("poa", "cs_poa"), ("tcell", "cs_tcell"), ("tamb", "cs_tamb")):
        if last and a in given:
            flow[k] = q(last[a])
    if flow["modelled"]:
        times = pd.date_range(t.pv_energy.index.min() if f["energy"] else (t.pv_power.index.min()), (t.pv_energy if f["energy"] else t.pv_power).index.max(), freq="1min")
        d = plane(case, last, times, t.pv_energy.index)
        ev.update({k: nums(d[k]) for k in ("zen", "az", "dni", "ghi", "dhi", "tilt", "azm")}, albedo=num(last["albedo"]))
        flow["cs_poa"] = dict(t=minutes(poa_cs.index), v=nums(poa_cs.values))
    if flow["climate"]:
        ev["climate"] = nums(clearsky_temperature.get_clearsky_tamb(poa_cs.index, case["lat"], case["lon"]).values)
        flow["cs_tamb"] = dict(t=minutes(ta.index), v=nums(ta.values))
    return ev, case


def rand_case(r, k, hist):
    step = int(r.choice([5, 10, 15, 30, 60]))
    n = int(r.integers(9, 26 if step < 60 else 14))
    lat, lon = float(np.round(r.uniform(-55, 60), 2)), float(np.round(r.uniform(-170, 170), 2))
    tz = ["UTC", "Asia/Kolkata", "America/Denver", "Etc/GMT+7", "Australia/Lord_Howe"][int(r.integers(0, 5))]
    day = pd.Timestamp(str(r.choice(["2020-06-20", "2019-12-21", "2021-03-14", "2020-10-03", "2020-03-08", "2020-02-29"])))
    noon = int(12 * 60 - lon * 4)
    t0 = int((day - EPOCH) // MIN) + noon - n * step // 2 + int(r.choice([0, 0, -60, 90, 7, -300]))
    if r.random() < .5:
        t0 -= t0 % step
    energy = bool(r.random() < .4)
    tp = [t0 + i * step for i in range(n)]
    interp = 0
    if not energy and r.random() < .3:
        tp = [x for i, x in enumerate(tp) if i in (0, 1, 2, n - 1) or r.random() < .85]
        interp = int(step * r.choice([1, 2])) if r.random() < .5 else 0
    ser = lambda t, lo, hi: dict(t=t, v=[float(np.round(r.uniform(lo, hi), 2)) for _ in t])

    def times():
        if r.random() < .6:
            return tp
        st = max(1, int(step * r.choice([1, 2, .5]))); o = int(r.choice([0, 3, -st]))
        return [t0 + o + i * st for i in range(int(n * step / st) + 1)]
    exp = bool(r.random() < .2)
    flow = dict(step=step, pv=ser(tp, 50, 1500), poa=dict(t=times()), scale=float(r.choice([1, 1, .8, 1.3, 2.])), holes=float(r.choice([0, 0, .08])),
                energy=energy, interp=interp, gap=int(step * r.choice([0, 0, 3])), rated=float(r.choice([2, 310])) if r.random() < .5 else None,
                gamma=[None, -.004][int(r.integers(0, 2))], sapm=[None, "close_mount_glass_glass"][int(r.integers(0, 2))],
                freq=["D", "S"][int(r.integers(0, 2))], mult=1, tcell=ser(times(), 5, 55), expected=ser(times(), 100, 2000) if exp else None,
                freq_attr=bool(r.random() < .6), filters=dict(csi=[float(r.choice([.15, .3, .1]))]))
    if flow["freq"] == "S":
        flow["mult"] = 60 * int(r.choice([1, 2, 6]))
        tz = tz if tz in ("UTC", "Asia/Kolkata", "Etc/GMT+7") else "UTC"
    if r.random() < .4:
        flow["filters"]["poa"] = [200., 1200.] if r.random() < .5 else [317.3, 800.1]
    if r.random() < .3:
        flow["filters"]["normalized"] = [.01, 1e6]
    if r.random() < .3:
        flow["filters"]["tcell"] = [-50., 110.] if r.random() < .4 else [3.2, 41.7]
    hs, refuse = [], ""
    for h in hist:
        if h["op"] == "set":
            var = r.random() < .2
            o = dict(given=sorted(h["given"]), loc=True, tilt=float(r.choice([0, 10, 25.5, 60, 90])), azm=float(r.choice([180, 90, 270, 0, 200.5])),
                     albedo=float(r.choice([.25, .25, 0, .6])), method=METHODS[int(r.choice([0, 0, 0, 1, 2]))],
                     poa=ser(times(), 150, 1150), tcell=ser(times(), 5, 55), tamb=ser(times(), -10, 40))
            if var:
                o["tilt"] = dict(t=tp, v=[float(x) for x in np.round(np.linspace(5, 50, len(tp)), 2)])
                if r.random() < .5:
                    o["azm"] = dict(t=tp, v=[float(x) for x in np.round(np.linspace(100, 260, len(tp)), 2)])
            h = dict(op="set", opt=o)
        hs.append(dict(h))
    return dict(seed=int(r.integers(1, 10**6)), lat=lat, lon=lon, alt=float(r.choice([0, 300, 1800])), tz=tz, flow=flow, hist=hs, refuse=refuse, k=k)


def refused(r, k):
    """What is needed to model the clear sky is missing."""
    c = rand_case(r, k, [dict(op="set", given=[]), [dict(op="clearsky"), dict(op="sensor", csi=True)][k % 2]])
    o = c["hist"][0]["opt"]
    if k % 3 == 0:
        o["loc"] = False
    elif k % 3 == 1:
        o["tilt"] = o["azm"] = None
    else:
        c["hist"] = c["hist"][1:]
    c["refuse"] = ["no location", "no orientation", "no clear-sky set-up"][k % 3]
    return c


def run(c):
    climate.install()
    cases = c.model("MC_ClearSky")
    c.model("MC_ClearSky", "MC_ClearSky_T.cfg" if c.thorough else "MC_ClearSky_S.cfg", deep=True)
    r = c.rng()
    lastset = lambda h: next((x for x in reversed(h) if x["op"] == "set"), None)
    sel = [cases[i] for i in sorted(r.permutation(len(cases))[:c.scale(250, len(cases))])]
    items = [rand_case(r, k, x["hist"]) for k, x in enumerate(sel)]
    for k in range(c.scale(350, 5000)):      # the modelled irradiance itself
        g = [[], [], ["tamb"], ["tcell"]][int(r.integers(0, 4))]
        items.append(rand_case(r, k, [dict(op="set", given=g), [dict(op="clearsky"), dict(op="clearsky"), dict(op="sensor", csi=True)][int(r.integers(0, 3))]]))
    items += [refused(r, k) for k in range(c.scale(12, 60))]
    ev = pmap(execute, items, chunk=4)
    c.cov["model_cases"] = dict(emitted=len(cases), replayed=len(sel), random=len(items) - len(sel))
    c.cov["modelled"] = sum(1 for e, _ in ev if e["flow"]["modelled"] and not e["flow"]["err"])
    c.cov["not_converged"] = sum(1 for e, _ in ev if e["flow"]["err"] == "ConvergenceError")
    c.sample(dict(ev[0][0], zen=[], az=[], dni=[], ghi=[], dhi=[], tilt=[], azm=[]))
    c.assumptions += ["pvlib's solar position and clear-sky model are the environment: their minute values are inputs of the specification",
                      "the climatology file is synthetic (not in the repository)"]
    c.validate("TV_ClearSky", ev)


if __name__ == "__main__":
    main("C28", run)
