"""C26 results depend on the data, not on how it is written down."""
from rdv import *
import contextlib
import copy
import io
import os
import time
import warnings
import zlib
import numpy as np
import pandas as pd
import climate
import c20

warnings.simplefilter("ignore")
ZONES = {"UTC": "Etc/GMT", "America/Denver": "US/Mountain"}
CONTENTS = ["full", "holes", "gaps", "whole", "naive"]
# entry points that ask for a declared frequency (their documentation says so) and refuse without one
NEEDS_FREQ = {"classical", "classical daily", "cods", "cods no seasonal", "cods STL bfill", "cods bad order", "cods bootstrap"}
# entry points whose clear-sky detection is pvlib's, which refuses whole-number types
NEEDS_FLOAT = {"clearsky_filter pvlib", "pvlib_clearsky_filter plain"}


def content(x, how, r, key=""):
    """The data itself: what is recorded, and when."""
    if isinstance(x, dict):
        return {k: content(v, how, r, k) for k, v in x.items()}
    if isinstance(x, list):
        return [content(v, how, r, key) for v in x]
    if not isinstance(x, (pd.Series, pd.DataFrame)) or not len(x) or not isinstance(x.index, pd.DatetimeIndex):
        return x
    x = x.copy()
    num = isinstance(x, pd.Series) and x.dtype.kind == "f"
    if how == "holes" and num:
        x[r.random(len(x)) < .04] = np.nan
    elif how == "gaps" and len(x) > 60:
        k = np.ones(len(x), bool)
        a = len(x) // 2 + int(zlib.crc32(key.encode()) % 7)
        k[a:a + 6] = False
        x = x[k]
    elif how == "whole" and num:
        if x.abs().max() > 50:
            x = x.round()
    elif how == "naive":
        f = x.index.freq
        x.index = x.index.tz_localize(None)
        if f is not None and x.index.is_unique and len(x) > 2 and pd.infer_freq(x.index):
            x.index = pd.DatetimeIndex(x.index, freq=pd.infer_freq(x.index))
    return x


def represent(x, f, key=""):
    """The same data written down another way: f gives the representation of each object."""
    if isinstance(x, dict):
        return {k: represent(v, f, k) for k, v in x.items()}
    if isinstance(x, list):
        return [represent(v, f, key) for v in x]
    if not isinstance(x, (pd.Series, pd.DataFrame)) or not len(x) or not isinstance(x.index, pd.DatetimeIndex):
        return x
    d = f["docs"][zlib.crc32(key.encode()) % len(f["docs"])]
    freq = x.index.freq
    x = x.copy()
    if d["type"] != "float" and isinstance(x, pd.Series) and x.dtype.kind == "f" and len(x) > 3 and x.notna().all() and (x == x.round()).all() and x.abs().max() < 2 ** 31:
        x = x.astype(d["type"])
    if isinstance(x, pd.Series):
        if d["layout"] == "column":
            x = pd.DataFrame({"c": x.to_numpy(), "d": 1.0}, index=x.index)["c"].rename(x.name)
        elif d["layout"] == "readonly":
            v = x.to_numpy().copy()
            v.setflags(write=False)
            x = pd.Series(v, index=x.index, name=x.name, copy=False)
    elif d["layout"] == "column":
        x = pd.DataFrame(np.asfortranarray(x.to_numpy()), index=x.index, columns=x.columns) if len({str(t) for t in x.dtypes}) == 1 else x
    if d["named"]:
        if isinstance(x, pd.Series):
            x = x.rename("mine " + key if d["named"] == 1 else 7)
        x.index = x.index.rename("when")
    ix = x.index
    if f["zone"] and ix.tz is not None:
        ix = ix.tz_convert(ZONES[str(ix.tz)])
    ix = ix.as_unit(d["unit"])
    if d["freq"] == "dropped":
        ix = pd.DatetimeIndex(ix.asi8, dtype="M8[%s]" % d["unit"], name=ix.name) if ix.tz is None else \
            pd.DatetimeIndex(ix.asi8, dtype="M8[%s]" % d["unit"], name=ix.name).tz_localize("UTC").tz_convert(ix.tz)
        ix = ix._with_freq(None)
    elif freq is not None and ix.freq is None:
        ix = pd.DatetimeIndex(ix, freq=freq)
    x.index = ix
    return x


def plain(x):
    """What a result says, whatever its labels: numbers, times as nanoseconds since the epoch, texts."""
    if isinstance(x, dict):
        return ["{"] + [[str(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return ["["] + [plain(v) for v in x]
    if isinstance(x, pd.DataFrame):
        return ["frame", plain(x.index)] + [plain(x.iloc[:, j].to_numpy()) if not isinstance(x.dtypes.iloc[j], pd.DatetimeTZDtype) else plain(pd.DatetimeIndex(x.iloc[:, j])) for j in range(x.shape[1])]
    if isinstance(x, pd.Series):
        return ["series", plain(x.index), plain(x.to_numpy()) if not isinstance(x.dtype, pd.DatetimeTZDtype) else plain(pd.DatetimeIndex(x))]
    if isinstance(x, (pd.DatetimeIndex, pd.TimedeltaIndex)):
        return plain(x.asi8.astype(float) * {"ns": 1, "us": 1e3, "ms": 1e6, "s": 1e9}[x.unit])
    if isinstance(x, pd.Index):
        return plain(x.to_numpy())
    if isinstance(x, pd.Timestamp):
        return plain(pd.DatetimeIndex([x]))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "Mm":
            return plain(pd.Index(x.ravel()))
        if x.dtype.kind in "fiub":
            return x.ravel().astype(float)
        return ["objects"] + [plain(v) for v in x.ravel()]
    if isinstance(x, (bool, int, float, np.number, np.bool_)):
        return np.array([float(x)])
    if x is None:
        return np.array([np.nan])
    return x if isinstance(x, str) else type(x).__name__


def alike(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(alike(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        with np.errstate(all="ignore"):
            scale = np.nanmax(np.abs(np.where(np.isfinite(a), a, 0)), initial=0)
            return bool(np.allclose(a, b, rtol=1e-7, atol=1e-9 * min(scale, 1e3), equal_nan=True))
    return a == b


def call(fn, st, f):
    import random
    import matplotlib.pyplot as plt
    np.random.seed(7); random.seed(7)
    old = os.environ.get("TZ")
    os.environ["TZ"] = f["clock"]
    time.tzset()
    cow = pd.options.mode.copy_on_write
    pd.options.mode.copy_on_write = f["cow"]
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            st = represent(st, f)
            try:
                return "ok", plain(fn(st))
            except Exception as e:
                return "error", exc_name(e) + ": " + str(e)[:160]
    finally:
        plt.close("all")
        pd.options.mode.copy_on_write = cow
        if old is None:
            os.environ.pop("TZ")
        else:
            os.environ["TZ"] = old
        time.tzset()


PLAIN = dict(docs=[dict(unit="ns", freq="kept", named=0, type="float", layout="own")], zone=0, clock="UTC", cow=False)


def describe(st, f):
    """The documents of a run, for the specification: ticks, unit and marks."""
    out = []

    def walk(x, key):
        if isinstance(x, dict):
            for k in sorted(x, key=str):
                walk(x[k], str(k))
        elif isinstance(x, list):
            for v in x[:3]:
                walk(v, key)
        elif isinstance(x, (pd.Series, pd.DataFrame)) and len(x) and isinstance(x.index, pd.DatetimeIndex):
            d = f["docs"][zlib.crc32(key.encode()) % len(f["docs"])]
            k = sorted({0, 1, len(x) // 2, len(x) - 1} & set(range(len(x))))
            whole = isinstance(x, pd.Series) and x.dtype.kind == "i"
            out.append(dict(name=key, unit=x.index.unit, ticks=[str(int(x.index.asi8[i])) for i in k], size=len(x), freq=d["freq"], type="int" if whole else "float"))
    walk(st, "")
    return out


def demands(group, entry):
    d = []
    if entry in NEEDS_FREQ:
        d.append("frequency")
    if group == "avail":
        d.append("one unit")          # its inputs have to share one index
    if entry in NEEDS_FLOAT:
        d.append("real numbers")
    return d


_E = {}


def execute(it):
    group, name = it["group"], it["entry"]
    fn = _E.setdefault("E", c20.entries())[group][name]
    st = content(copy.deepcopy(c20.built(group)), it["content"], np.random.default_rng(it["seed"]))
    runs, classes = [], []
    for f in [PLAIN] + it["ways"]:
        kind, res = call(fn, st, f)
        if kind == "error":
            res = "refused: " + res.split(":")[0]
        k = next((i for i, c in enumerate(classes) if c[0] == kind and alike(c[1], res)), None)
        if k is None:
            classes.append((kind, res))
            k = len(classes) - 1
        runs.append({"docs": describe(represent(st, f), f), "env": {k2: f[k2] for k2 in ("zone", "clock", "cow")}, "outcome": kind, "class": k + 1})
    return dict(entry=name, group=group, content=it["content"], demands=demands(group, name), runs=runs), it


def run(c):
    reach = c.model("MC_Represent")
    climate.install()
    r = c.rng()
    docs = [x["docs"][k] for x in reach for k in (0, 1)]
    docs = [dict(unit=d["unit"], freq=d["freq"], named=d["named"], type=d["type"], layout=d["layout"]) for d in docs]
    envs = [x["env"] for x in reach]
    merge = lambda a, b: {k: b[k] if b[k] != PLAIN["docs"][0][k] else a[k] for k in a}
    pick = lambda xs: xs[int(r.integers(len(xs)))]

    def way(k):
        """Singles, pairs of documents, and rewritings that change several marks at once."""
        d = [merge(pick(docs), pick(docs)) for _ in range([1, 2, 3][k % 3])]
        e = pick(envs)
        return dict(docs=d, zone=int(e["zone"]), clock=e["clock"], cow=bool(e["cow"]))
    singles = [dict(PLAIN, docs=[dict(PLAIN["docs"][0], unit=u)]) for u in ("us", "ms", "s")] + \
              [dict(PLAIN, docs=[dict(PLAIN["docs"][0], freq="dropped")]), dict(PLAIN, docs=[dict(PLAIN["docs"][0], unit="us"), PLAIN["docs"][0]])]
    items = []
    E = c20.entries()
    for g, es in E.items():
        if g == "codsboot" and c.tier != "thorough":
            continue
        for name in es:
            slow = g in ("codsg", "codsboot") or name in c20.SLOW
            n = c.scale(1 if slow else dict(intraday=4, daily=3, avail=3, trend=2)[g], 2 if slow else 20)
            start = int(r.integers(len(CONTENTS)))
            for k in range(n):
                ways = [way(int(r.integers(3))) for _ in range(2 if slow else 3)] + [singles[(start + k) % len(singles)]]
                items.append(dict(group=g, entry=name, content=CONTENTS[(start + k) % len(CONTENTS)], seed=int(r.integers(1e6)), ways=ways))
    cost = dict(codsboot=0, codsg=1, trend=2, avail=3, daily=4, intraday=5)
    items.sort(key=lambda x: (x["entry"] not in c20.SLOW, cost[x["group"]]))
    for g in E:
        c20.built(g)
    ev = pmap(execute, items, chunk=1)
    c.cov["entry_points"] = len({(i["group"], i["entry"]) for i in items})
    c.cov["calls"] = sum(len(e["runs"]) for e, _ in ev)
    c.cov["returned"] = sum(x["outcome"] == "ok" for e, _ in ev for x in e["runs"])
    c.sample(ev[-1][0])
    c.assumptions += ["the numpy seed is set before every call", "numbers compared to a relative 1e-7",
                      "zones are relabelled only to zones with the same clock"]
    c.validate("TV_Represent", ev)


if __name__ == "__main__":
    main("C26", run)
