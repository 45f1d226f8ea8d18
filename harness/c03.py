"""C03 normalization."""
from rdv import *
import warnings
import numpy as np
import pandas as pd


def execute(case):
    import rdtools
    unit_s = case["unit"]
    unit = pd.Timedelta(seconds=unit_s)
    start = pd.Timestamp(case["start"])

    def ser(t, v, name=None, freq=True):
        s0 = start.tz_localize(case["tz"])
        ix = pd.DatetimeIndex([s0 + k * unit for k in t])
        if freq and len(ix) > 2:
            try:
                ix = pd.DatetimeIndex(ix, freq="infer")
            except ValueError:
                pass
        return pd.Series(v, index=ix, dtype=float, name=name)
    ev = dict(op=case["op"], refuse=case.get("refuse", ""), err="", per_hour=3600 // unit_s, out=[], out_t=[],
              norm=[], ins=[], w=case.get("w", 1), energy=case.get("energy", True))
    for k in ("t", "mt", "it"):
        ev[k] = case.get(k, [])
    for k in ("v", "model", "poa", "tcell"):
        ev[k] = nums(case.get(k, []))
    ev["hasT"] = bool(case.get("hasT"))
    for k in ("rated", "ref", "tref", "gamma"):
        ev[k] = num(case.get(k, 1))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if case["op"] == "expected":
                pv = ser(case["t"], case["v"], "pv", case["freq"][0])
                model = ser(case["mt"], case["model"], "m", case["freq"][1])
                poa = ser(case["it"], case["poa"], "poa", case["freq"][2])
                kind = case.get("kind", "energy" if case["energy"] else "power")
                kw = {} if (kind == "power" and case["freq"][0]) else dict(pv_input=kind)
                norm, ins = rdtools.normalize_with_expected_power(pv, model, poa, **kw)
            else:
                poa = ser(case["it"], case["poa"], "poa", case["freq"][1])
                kws = dict(poa_global=poa, power_dc_rated=case["rated"])
                if case["ref"] != 1000:
                    kws["poa_global_ref"] = case["ref"]
                if case.get("giveT"):
                    kws["temperature_cell"] = pd.Series(case["tcell"], index=poa.index, dtype=float)
                if case.get("giveG"):
                    kws["gamma_pdc"] = case["gamma"]
                if case["tref"] != 25:
                    kws["temperature_cell_ref"] = case["tref"]
                if case["op"] == "dc":
                    ev["out"] = nums(rdtools.normalization.pvwatts_dc_power(**kws))
                    return ev, case
                pv = ser(case["t"], case["v"], "pv", case["freq"][0])
                norm, ins = rdtools.normalize_with_pvwatts(pv, kws)
        if not norm.index.equals(ins.index):
            ev["err"] = "result indexes differ"
            return ev, case
        oi = norm.index.tz_localize(None) if norm.index.tz is None else norm.index.tz_convert("UTC").tz_localize(None)
        s0 = start if not case["tz"] else start.tz_localize(case["tz"]).tz_convert("UTC").tz_localize(None)
        ev["out_t"] = [int((x - s0) // unit) if (x - s0) % unit == pd.Timedelta(0) else -777 for x in oi]
        ev["norm"] = nums(norm)
        ev["ins"] = nums(ins)
    except Exception as e:
        ev["err"] = exc_name(e)
    return ev, case


def from_model(c, k):
    t = [i * c["wp"] for i in range(len(c["pv"]))]
    mt = [c["off"] + i * c["wm"] for i in range(len(c["mod"]))]
    m = missing(c["mod"])
    return dict(op="expected", t=t, v=missing(c["pv"]), mt=mt, model=m, it=mt, poa=m, w=c["wp"], energy=c["energy"],
                unit=[60, 900, 3600][k % 3], start="2020-01-01", tz=[None, "UTC", "Asia/Kolkata"][k % 3], freq=[True, k % 2 == 0, k % 2 == 0])


def vals(r, n, hi=1000):
    hi = r.choice([hi, hi, 5 * hi])
    v = np.round(r.random(n) * hi, 3) if r.random() < .8 else np.where(r.random(n) < .5, 0, 500.)
    if r.random() < .2:
        v = v * np.where(r.random(n) < .2, -1, 1)
    return [float(x) for x in np.where(r.random(n) < r.choice([0, .1, .3]), np.nan, v)]


def rand_case(r, k):
    op = ["expected", "pvwatts", "dc", "expected", "pvwatts"][k % 5]
    w = int(r.choice([1, 2, 5, 10, 15]))
    n = int(r.integers(3, 30))
    t = [i * w for i in range(n)]
    off = int(r.choice([0, 0, 0, 1, w, 2 * w, -w, -1]))
    wm = int(r.choice([1, w, w, 2 * w, 3 * w, 4]))
    nm = max(3, int((n * w) / wm) + int(r.integers(-2, 4)))
    mt = [off + i * wm for i in range(nm)]
    if r.random() < .3:
        keep = sorted(set(r.permutation(nm)[:max(3, int(nm * .8))]))
        mt = [mt[i] for i in keep]
    it = mt
    if op == "expected" and r.random() < .3:
        w2 = int(r.choice([1, w, 2 * w]))
        it = [off + i * w2 for i in range(max(3, nm * wm // w2))]
    energy = bool(r.random() < .5) or op != "expected"
    c = dict(op=op, t=t, v=vals(r, n), mt=mt, model=vals(r, len(mt)), it=it, poa=vals(r, len(it)), w=w, energy=energy,
             unit=int(r.choice([60, 900])), start=str(r.choice(["2020-01-01", "2019-06-30 23:45", "2020-03-07 22:00", "2020-10-31 22:00"])),
             tz=[None, "UTC", "Asia/Kolkata", "America/Denver"][int(r.integers(0, 4))], freq=[bool(x) for x in r.random(3) < .5])
    for key in ("model", "poa"):
        if np.isfinite(c[key]).sum() < 2:
            c[key][:2] = [100., 200.]
    if np.isfinite(c["v"]).sum() < 1:
        c["v"][0] = 3.
    if op != "expected":
        c["mt"] = c["it"]
        giveT, giveG = bool(r.random() < .6), bool(r.random() < .6)
        c.update(rated=float(r.choice([1, 5.5, 250])), ref=float(r.choice([1000, 1000, 800])), giveT=giveT, giveG=giveG,
                 hasT=giveT and giveG, tcell=[float(x) for x in np.round(r.random(len(c["it"])) * 60 - 5, 2)],
                 tref=float(r.choice([25, 25, 20])), gamma=float(r.choice([-.004, 0, .01, -.0035, -.05, -.2])))
        if k % 3 == 0:
            c["tcell"] = [float("nan") if r.random() < .15 else x for x in c["tcell"]]
    return c


def special():
    b = dict(op="expected", t=[0, 1, 2, 3], v=[1., 2., 3., 4.], mt=[0, 1, 2, 3], model=[1.] * 4, it=[0, 1, 2, 3],
             poa=[1.] * 4, w=1, energy=True, unit=3600, start="2020-01-01", tz=None, freq=[False] * 3)
    out = []
    for kind in ("power", "energy"):
        out.append(dict(b, t=[0, 1, 3, 4], kind=kind, refuse="ValueError"))
        out.append(dict(b, t=[0, 2, 3, 9], kind=kind, refuse="ValueError"))
    for kind in ("voltage", "", "Power", None):
        out.append(dict(b, kind=kind, refuse="ValueError"))
    return out


def run(c):
    cases = c.model("MC_Normalize")
    full = len(cases)
    r = c.rng()
    n = c.scale(2500, len(cases))
    if len(cases) > n:
        cases = [cases[i] for i in sorted(r.permutation(len(cases))[:n])]
    items = [from_model(x, k) for k, x in enumerate(cases)] + special()
    items += [rand_case(r, k) for k in range(c.scale(2000, 20000))]
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(emitted=full, replayed=len(cases), random=len(items) - len(cases))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.assumptions += ["sorted unique timestamps; regular PV index of at least three intervals",
                      "when model and measurement have the same mean spacing either treatment is accepted"]
    c.validate("TV_Normalize", ev)


if __name__ == "__main__":
    main("C03", run)
