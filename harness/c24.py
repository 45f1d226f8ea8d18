"""C24 combined degradation and soiling (CODS)."""
from rdv import *
import contextlib
import io
import re as _re
import warnings
import numpy as np
import pandas as pd

EPOCH = pd.Timestamp("1970-01-01")


def lib():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from rdtools import soiling
    return soiling


def report(text):
    """Progress report -> (rmse0, steps) or None when it cannot be read."""
    rm0, steps = None, []
    for ln in text.split("\n"):
        m = _re.match(r"(\d+)\t(\S+)\s*\t([0-9.]+)", ln)
        if m:
            it, what, v = int(m.group(1)), m.group(2), m.group(3)
            if it == 0:
                rm0 = v
            elif it != len(steps) + 1:
                return None
            else:
                steps.append(dict(step=what, rmse=v, msg=""))
        elif steps:
            for k, w in (("Now not assuming perfect cleaning", "relax"), ("Convergence reached", "converged"), ("Max iterations reached", "maximum")):
                if ln.startswith(k):
                    if steps[-1]["msg"]:
                        return None
                    steps[-1]["msg"] = w
    if rm0 is None or not steps:
        return None
    dec = lambda s: str(Fraction(s))
    return dec(rm0), [dict(x, rmse=dec(x["rmse"])) for x in steps]


def daily(case):
    x = pd.Series(case["v"], index=pd.date_range(case["start"], periods=len(case["v"]), freq="D", tz=case.get("tz")), dtype=float)
    return x


def frame(ev, df, pi):
    n = len(pi)
    ev["index"] = bool(df.index.equals(pi.index))
    ev["pi"] = nums(pi.values)
    for k, col in (("sr", "soiling_ratio"), ("rates", "soiling_rates"), ("sc", "seasonal_component"), ("trend", "degradation_trend"), ("total", "total_model"), ("resid", "residuals")):
        ev[k] = nums(np.asarray(df[col], dtype=float))
    ev["doy"] = [int(x) for x in pi.index.dayofyear]
    ev["days"] = [int((x.tz_localize(None) - EPOCH).days) for x in pi.index]


def blank(case, kind):
    return dict(kind=kind, why=case.get("why", ""), err="", order=list(case.get("order", ())), max=case.get("max", 0), crit=num(case.get("crit", .005)), sens=num(case.get("sens", .5)),
                prune=num(case.get("prune", .6)), prunes=case.get("prunes", 1), noise=num(case.get("noise", 1e-4)),
                renorm=num(case["renorm"]) if case.get("renorm") is not None else "nan", clip=case.get("clip", True), forward=case.get("ffill", True),
                signif=num(case.get("signif", .75)), linear=case.get("method", "YoY") != "STL",
                pi=[], sr=[], rates=[], sc=[], trend=[], total=[], resid=[], shift="0", rate="0", loss="0", rmse="0", small=False, index=True,
                doy=[], days=[], events=[], steps=[], rmse0="0", reported=False, sc2="")


def decompose(case):
    S = lib()
    x = daily(case)
    kind = "signal" if case["order"] == ("SR",) or case["order"] == ["SR"] else "decomposition"
    ev = blank(case, kind)
    pi = x[x.first_valid_index():] if x.first_valid_index() is not None else x
    ev["pi"] = nums(pi.values)
    out = io.StringIO()
    kw = dict(order=tuple(case["order"]), max_iterations=case["max"], convergence_criterion=case.get("crit", .005), cleaning_sensitivity=case.get("sens", .5),
              clean_pruning_sensitivity=case.get("prune", .6), pruning_iterations=case.get("prunes", 1), process_noise=case.get("noise", 1e-4),
              renormalize_SR=case.get("renorm"), ffill=case.get("ffill", True), clip_soiling=case.get("clip", True),
              soiling_significance=case.get("signif", .75), degradation_method=case.get("method", "YoY"))
    if case.get("defaults"):
        kw = {k: v for k, v in kw.items() if k in case["defaults"]}
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            df, res = S.CODSAnalysis(x.copy()).iterative_signal_decomposition(verbose=True, **kw)
    except Exception as e:
        ev["err"] = exc_name(e)
        return ev, dict(case, msg=str(e)[:300])
    frame(ev, df, pi)
    ev["rate"], ev["loss"], ev["rmse"], ev["shift"] = (num(float(res[k])) for k in ("degradation", "soiling_loss", "RMSE", "residual_shift"))
    ev["small"] = bool(res["small_soiling_signal"])
    ev["events"] = [int(i) + 1 for i in np.flatnonzero(np.asarray(df["cleaning_events"], dtype=bool))]
    rp = report(out.getvalue())
    if rp:
        ev["rmse0"], ev["steps"] = rp
        ev["reported"] = True
        if case.get("method") == "STL":
            ev["order"] = [c for c in ev["order"] if c != "Rd"]
        what = [x["step"] for x in ev["steps"]]
        if case.get("again") and "SC" in what and "SR" in what and what[::-1].index("SC") < what[::-1].index("SR"):
            # fitted after the soiling ratio: the same as that of the data over the soiling ratio, fitted first
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                df2, _ = S.CODSAnalysis(pi / df["soiling_ratio"]).iterative_signal_decomposition(order=("SC", "SR"), max_iterations=2)
            ev["sc2"] = "same" if np.allclose(df2["seasonal_component"], df["seasonal_component"], rtol=1e-7, atol=1e-9, equal_nan=True) else "different"
    return ev, case


def outcome(case, level, wrapper=False):
    S = lib()
    np.random.seed(case["seed"])
    kw = dict(reps=case["reps"], confidence_level=level, bootstrap_seed=case["seed"], **case["kw"])
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if wrapper:
            return S.soiling_cods(daily(case), **kw)
        a = S.CODSAnalysis(daily(case))
        return a, a.run_bootstrap(**kw)


def bootstrap(case):
    ev = blank(case, "bootstrap")
    ev.update(fits=[], combinations=1, degradation=[], soiling=[], level=case["level"], wrapper=True, nested=True, flat=False, bt_sr=[], bt_rates=[], cleaning=[],
              **{k + s: [] for k in ("sr", "rates", "season", "model") for s in ("_low", "_high")})
    x = daily(case)
    pi = x[x.first_valid_index():]
    ev["linear"] = True
    for k in ("order_alternatives", "cleaning_sensitivity_alternatives", "clean_pruning_sensitivity_alternatives", "forward_fill_alternatives"):
        ev["combinations"] *= len(case["kw"].get(k, (1, 2)))
    try:
        a, (df, dg, sl) = outcome(case, case["level"])
    except RuntimeError as e:
        if "not decomposable" in str(e).replace("\n", " "):
            return dict(blank(case, "refusal"), err="RuntimeError"), case          # its own refusal, not judged
        ev["err"] = exc_name(e)
        return ev, dict(case, msg=str(e)[:300])
    except Exception as e:
        ev["err"] = exc_name(e)
        return ev, dict(case, msg=str(e)[:300])
    frame(ev, df, pi)
    ev["fits"] = [dict(sr=nums(np.asarray(f["soiling_ratio"], dtype=float)), total=nums(np.asarray(f["total_model"], dtype=float))) for f in a.initial_fits]
    ev["flat"] = bool(a.small_soiling_signal)
    ev["degradation"], ev["soiling"] = nums([float(v) for v in dg]), nums([float(v) for v in sl])
    ev["rate"], ev["shift"] = num(float(dg[0])), num(float(a.residual_shift))
    ev["wrapper"] = list(map(float, dg)) == list(map(float, a.degradation)) and list(map(float, sl)) == list(map(float, a.soiling_loss)) and df.equals(a.result_df)
    if not ev["flat"]:
        ev["rmse"] = num(float(a.RMSE))
        for k, col in (("sr", "SR"), ("rates", "rates"), ("season", "seasonal"), ("model", "model")):
            ev[k + "_low"], ev[k + "_high"] = nums(df[col + "_low"].values), nums(df[col + "_high"].values)
        ev["bt_sr"], ev["bt_rates"], ev["cleaning"] = nums(df["bt_soiling_ratio"].values), nums(df["bt_soiling_rates"].values), nums(np.asarray(df["cleaning_events"], dtype=float))
    if case["again"] == "wrapper":
        sr, ci, rd, rdci, df2 = outcome(case, case["level"], wrapper=True)
        close = lambda p, q: bool(np.allclose(np.asarray(p, dtype=float), np.asarray(q, dtype=float), rtol=1e-9, atol=1e-12))
        ev["wrapper"] = bool(ev["wrapper"] and close(sr, 1 - sl[0] / 100) and close(sorted(ci), sorted([1 - sl[1] / 100, 1 - sl[2] / 100])) and close(rd, dg[0]) and close(rdci, dg[1:3]) and df2.equals(df))
    elif case["again"] == "level" and not ev["flat"]:
        lv = 40. if case["level"] > 50 else 95.
        a2, (df2, dg2, sl2) = outcome(case, lv)
        (w, n) = ((dg, sl, df), (dg2, sl2, df2)) if case["level"] > lv else ((dg2, sl2, df2), (dg, sl, df))
        ok = dg[0] == dg2[0] and sl[0] == sl2[0]
        for i in (0, 1):
            ok &= w[i][1] <= n[i][1] + 1e-12 and n[i][2] <= w[i][2] + 1e-12
        for col in ("SR", "rates", "seasonal", "model"):
            d1, d2 = n[2][col + "_low"] - w[2][col + "_low"], w[2][col + "_high"] - n[2][col + "_high"]
            ok &= bool((d1.dropna() >= -1e-12).all() and (d2.dropna() >= -1e-12).all())
        for col in ("soiling_ratio", "seasonal_component", "degradation_trend", "total_model", "residuals", "bt_soiling_ratio"):
            ok &= bool(df[col].equals(df2[col]))
        ev["nested"] = bool(ok)
    return ev, case


def refuse(case):
    S = lib()
    ev = blank(case, "refusal")
    x = daily(case)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if case["why"] == "no daily frequency":
                x = dict(holes=lambda: x[[i % 11 != 5 for i in range(len(x))]], hourly=lambda: x.set_axis(pd.date_range(x.index[0], periods=len(x), freq="h")),
                         nofreq=lambda: x.set_axis(pd.DatetimeIndex(x.index.values)), business=lambda: x.set_axis(pd.date_range(x.index[0], periods=len(x), freq="B")),
                         two=lambda: x.set_axis(pd.date_range(x.index[0], periods=len(x), freq="2D")))[case["how"]]()
                S.CODSAnalysis(x)
            else:
                S.CODSAnalysis(x).iterative_signal_decomposition(order=tuple(case["order"]), max_iterations=2)
    except ValueError as e:
        ev["err"] = exc_name(e)
    return ev, case


def leap(case):
    """The seasonal component on 31 December of leap years (a known finding)."""
    e, i = decompose(case)
    k = [j for j, d in enumerate(e["doy"]) if d == 366]
    return dict(blank(case, "leap"), defined=bool(k) and all(e["sc"][j] != "nan" for j in k)), dict(case, finding="cods-leap-day")


def execute(case):
    return dict(decompose=decompose, bootstrap=bootstrap, refuse=refuse, leap=leap)[case["do"]](case)


def soil_series(r, n, clean=None, amp=0., rd=0., noise=.01, nan=.04, rate=None):
    t = np.arange(n)
    sr, lvl = np.ones(n), 1.
    p = r.uniform(.01, .06) if clean is None else clean
    s = r.uniform(.0005, .006) if rate is None else rate
    for i in range(1, n):
        lvl -= s * r.uniform(.5, 1.5)
        if r.random() < p:
            lvl = 1. if r.random() < .7 else min(1., lvl + r.uniform(0, .1))
            s = r.uniform(.0005, .006) if rate is None else rate
        lvl = max(lvl, .55)
        sr[i] = lvl
    x = sr * (1 + amp * np.cos(2 * np.pi * (t + r.integers(0, 365)) / 365.25)) * (1 + rd * t / 365) * r.normal(1, noise, n)
    x[r.random(n) < nan] = np.nan
    return x


def signal_case(r, k):
    n = int(r.choice([45, 60, 90, 120, 150]))
    x = soil_series(r, n, noise=float(r.choice([.003, .01, .02])), nan=float(r.choice([0, .05, .2])), amp=0, rd=0)
    if r.random() < .3:
        x *= r.uniform(.7, 1.3)
    if r.random() < .15:                       # a long gap
        a = int(r.integers(5, n - 12)); x[a:a + int(r.integers(4, 12))] = np.nan
    if r.random() < .15:                       # sudden soiling
        a = int(r.integers(12, n - 12)); x[a:] *= .8
    x[0] = x[0] if np.isfinite(x[0]) else 1.
    lead = int(r.choice([0, 0, 0, 1, 5]))
    x = np.concatenate([np.full(lead, np.nan), x])
    c = dict(do="decompose", v=[float(a) for a in x], start=str(r.choice(["2019-03-03", "2020-02-20", "2021-11-30"])), tz=[None, "UTC"][k % 2], order=["SR"],
             max=int(r.choice([1, 1, 2, 3, 4, 6])), crit=float(r.choice([.005, .005, .05, -1e9, 1e9])), sens=float(r.choice([.5, .25, .75, 1.5])),
             prune=float(r.choice([.6, 1 / 1.5, 1.5, .2])), prunes=int(r.choice([1, 1, 1, 2, 3])), noise=float(r.choice([1e-4, 1e-4, 5e-4, 3e-5])),
             renorm=None if r.random() < .7 else float(r.uniform(.5, .95)), ffill=bool(r.random() < .6), clip=bool(r.random() < .75), signif=float(r.choice([.75, 2., .3])))
    return c


ORDERS = [["SR"], ["SR", "SC"], ["SC", "SR"], ["SR", "Rd"], ["Rd", "SR"], ["SR", "SC", "Rd"], ["SC", "SR", "Rd"], ["SR", "Rd", "SC"], ["Rd", "SR", "SC"], ["SC", "Rd", "SR"], ["Rd", "SC", "SR"]]


def full_series(r, k):
    n = int(r.choice([731, 740, 765, 800]))
    x = soil_series(r, n, clean=float(r.choice([.012, .03])), amp=float(r.choice([0, .03, .06])), rd=float(r.choice([0, -.01, -.02, .01])),
                    noise=float(r.choice([.005, .01, .02])), nan=float(r.choice([0, .03, .12])), rate=[None, .001, .003, .0001][int(r.integers(0, 4))])
    x[0] = x[0] if np.isfinite(x[0]) else 1.
    if r.random() < .2:
        a = int(r.integers(50, n - 100)); x[a:a + 25] = np.nan
    lead = int(r.choice([0, 0, 3]))
    x = np.concatenate([np.full(lead, np.nan), x])
    return dict(v=[float(a) for a in x], start=str(r.choice(["2017-05-03", "2018-02-20", "2021-01-01"])), tz=[None, "UTC", "Asia/Kolkata"][k % 3])


def full_case(r, k, order=None, mx=None, crit=None):
    order = order or ORDERS[5 + k % 6] if k % 3 else ORDERS[1 + k % 10]
    first = order.index("SR") + 1
    c = dict(full_series(r, k), do="decompose", order=order, max=mx or max(first, int(r.choice([1, 2, 3, 4, 6, 7, 9, 18]))), crit=crit or float(r.choice([.005, .005, .02, .1])),
             sens=float(r.choice([.5, .25, .75])), prune=float(r.choice([.6, 1 / 1.5, 1.5])), prunes=1, noise=1e-4, renorm=None if r.random() < .8 else .8,
             ffill=bool(r.random() < .6), clip=bool(r.random() < .8), signif=float(r.choice([.75, 2., .3])), method="STL" if r.random() < .15 else "YoY")
    if c["method"] == "STL":
        c["max"] = max(c["max"], [o for o in order if o != "Rd"].index("SR") + 1)
    c["again"] = k % 2 == 0
    if k % 9 == 0:
        c.update(defaults=["order", "max_iterations"], crit=.005, sens=.5, prune=.6, renorm=None, ffill=True, clip=True, signif=.75, method="YoY")
    return c


def cycle_case(r, m, k):
    order = [["SR", "SC", "Rd"][i - 1] if isinstance(i, int) else i for i in m["order"]]
    if len(order) == 1:
        return dict(signal_case(r, k), order=order, max=m["max"], crit=1e9 if m["small"] else -1e9, renorm=None)
    return dict(full_case(r, k, order, m["max"], 1e9 if m["small"] else -1e9), order=order, max=m["max"], crit=1e9 if m["small"] else -1e9, method="YoY", defaults=None, renorm=None)


def boot_case(r, k):
    s = full_series(r, k)
    if k % 5 == 4:                          # hardly any soiling
        n = len(s["v"])
        s["v"] = [float(a) for a in 1 + .03 * np.cos(np.arange(n) / 58.) + r.normal(0, .03, n)]
    kw = dict(order_alternatives=[(("SR", "Rd"),), (("SR", "SC", "Rd"), ("SR", "Rd")), (("SR", "SC", "Rd"),)][int(r.integers(0, 3))],
              cleaning_sensitivity_alternatives=[(.25, .75), (.5,)][int(r.integers(0, 2))], clean_pruning_sensitivity_alternatives=(1.,),
              forward_fill_alternatives=[(True,), (False,)][int(r.integers(0, 2))], convergence_criterion=float(r.choice([.005, .2])))
    return dict(s, do="bootstrap", seed=int(r.integers(1, 10**6)), reps=int(r.choice([6, 8])), level=float(r.choice([68.2, 100, 100, 90])), kw=kw, again=["wrapper", "level"][k % 2])


def run(c):
    cases = c.model("MC_Cods")
    r = c.rng()
    items = [signal_case(r, k) for k in range(c.scale(260, 3000))]
    sel = [m for m in cases if m["emit"]]
    some = [sel[i] for i in sorted(r.permutation(len(sel)))[:c.scale(24, len(sel))]]
    items += [cycle_case(r, m, k) for k, m in enumerate(some)]
    items += [full_case(r, k) for k in range(c.scale(48, 600))]
    items += [boot_case(r, k) for k in range(c.scale(16, 160))]
    base = dict(v=[float(a) for a in soil_series(r, 760)], start="2019-01-05", order=["SR"], max=1)
    items += [dict(base, do="refuse", why="no daily frequency", how=h) for h in ("holes", "hourly", "nofreq", "business", "two")]
    items += [dict(base, do="refuse", why="no soiling step", order=o) for o in (["SC"], ["Rd"], ["SC", "Rd"], ["Rd", "SC"])]
    items += [dict(full_series(r, 0), do="leap", order=["SC", "SR"], max=2, start="2019-05-01", tz=None)]
    # long ones first
    pos = sorted(range(len(items)), key=lambda i: (dict(bootstrap=0, decompose=1 if len(items[i]["v"]) > 400 else 2).get(items[i]["do"], 1), -items[i].get("max", 0)))
    ev = pmap(execute, [items[i] for i in pos], chunk=1)
    c.cov["cases"] = dict(emitted=len(cases), cycles=len(some), total=len(items), not_decomposable=sum(1 for e, _ in ev if e["kind"] == "refusal" and not e["why"]))
    c.sample(ev[-1][0])
    c.assumptions += ["the seasonal fit itself (statsmodels STL and lowess) is judged by its periodicity and by the identities only",
                      "comparisons of numbers equal to double precision inside the soiling filter are not judged"]
    c.validate("TV_Cods", ev)


if __name__ == "__main__":
    main("C24", run)
